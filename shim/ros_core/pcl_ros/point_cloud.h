#pragma once
#include <pcl/shim_pcl.h>
#include <pcl_conversions/pcl_conversions.h>
