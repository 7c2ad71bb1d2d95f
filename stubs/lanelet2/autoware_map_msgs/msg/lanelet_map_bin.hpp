#pragma once
#include <std_msgs/msg/header.hpp>
#include <cstdint>
#include <vector>
namespace autoware_map_msgs::msg
{
struct LaneletMapBin { std_msgs::msg::Header header; std::vector<std::uint8_t> data; };
}  // namespace autoware_map_msgs::msg
