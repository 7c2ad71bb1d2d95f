#pragma once
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <rclcpp/rclcpp.hpp>
namespace tf2_ros
{
struct TransformBroadcaster
{
  template <class N> explicit TransformBroadcaster(N &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) { if (auto & h = rclcpp::stub::Bus::hook()) h("/tf", std::any(t)); }
};
}  // namespace tf2_ros
