#pragma once
#include <tf/shim_tf.h>
