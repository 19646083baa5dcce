#pragma once
#include "ros_pcl.hpp"
