#pragma once
#include <rclcpp/rclcpp.hpp>
namespace tf2_ros
{
struct Buffer { template <class C> explicit Buffer(C &&) {} };
}  // namespace tf2_ros
