// What the sources get from lanelet2 and ROS headers indirectly.
#pragma once
#include <functional>
#include <rclcpp/rclcpp.hpp>
#include <string>
#include <utility>
namespace std
{
template <typename A, typename B>
struct hash<std::pair<A, B>>
{
  size_t operator()(const std::pair<A, B> & p) const { return hash<A>()(p.first) * 1000003u ^ hash<B>()(p.second); }
};
}  // namespace std
