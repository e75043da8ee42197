#pragma once
#include <pcl/shim_pcl.h>
