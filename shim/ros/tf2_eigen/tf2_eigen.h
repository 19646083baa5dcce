#pragma once
#include "ros_tf.hpp"
