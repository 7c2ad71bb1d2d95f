#pragma once
#include <optional>
#include <traffic_simulator/data_type/entity_status.hpp>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
namespace traffic_simulator
{
inline namespace distance
{
auto lateralDistance(const CanonicalizedLaneletPose &, const CanonicalizedLaneletPose &, const RoutingConfiguration &) -> std::optional<double>;
auto longitudinalDistance(const CanonicalizedLaneletPose &, const CanonicalizedLaneletPose &, const bool, const bool, const RoutingConfiguration &) -> std::optional<double>;
auto boundingBoxDistance(const geometry_msgs::msg::Pose &, const traffic_simulator_msgs::msg::BoundingBox &, const geometry_msgs::msg::Pose &, const traffic_simulator_msgs::msg::BoundingBox &) -> std::optional<double>;
}
}  // namespace traffic_simulator
