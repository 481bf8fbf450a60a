#pragma once
#include <tf2_ros/buffer.h>
#include <tf2/utils.h>
