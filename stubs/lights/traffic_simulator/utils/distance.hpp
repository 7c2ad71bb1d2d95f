#pragma once
#include <optional>
#include <traffic_simulator/lanelet_wrapper/traffic_lights.hpp>
namespace traffic_simulator::distance
{
template <class Spline> auto distanceToTrafficLightStopLine(const Spline &, const lanelet::Id id) -> std::optional<double>
{
  return map_stub::Roads::get().stop_line[id];
}
}  // namespace traffic_simulator::distance
