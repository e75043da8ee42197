#pragma once
#include <octomap/shim_octomap.h>
