#pragma once
#include "ros/duration.h"
#include <iostream>
#define VF_ROS(...) do { } while (0)
#define ROS_DEBUG(...) VF_ROS()
#define ROS_INFO(...) VF_ROS()
#define ROS_WARN(...) VF_ROS()
#define ROS_ERROR(...) VF_ROS()
#define ROS_DEBUG_STREAM(x) VF_ROS()
#define ROS_INFO_STREAM(x) VF_ROS()
#define ROS_WARN_STREAM(x) VF_ROS()
#define ROS_ERROR_STREAM(x) VF_ROS()
