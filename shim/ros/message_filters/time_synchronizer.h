#pragma once
#include "ros_core.hpp"
