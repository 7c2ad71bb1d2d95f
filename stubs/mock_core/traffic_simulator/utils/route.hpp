#pragma once
#include <optional>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
#include <utility>
namespace traffic_simulator
{
inline namespace route
{
auto countLaneChanges(const CanonicalizedLaneletPose &, const CanonicalizedLaneletPose &, const RoutingConfiguration &) -> std::optional<std::pair<int, int>>;
}
}  // namespace traffic_simulator
