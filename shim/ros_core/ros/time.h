#pragma once
#include <shim/base.h>
