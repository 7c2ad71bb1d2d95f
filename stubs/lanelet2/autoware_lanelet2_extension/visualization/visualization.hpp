// the functions that draw a map: only there so that lanelet_map.cpp builds
#pragma once
#include <lanelet2_mini.hpp>
#include <std_msgs/msg/color_rgba.hpp>
#include <visualization_msgs/msg/marker_array.hpp>
namespace lanelet::visualization
{
#define DRAW(NAME) template <typename... Ts> visualization_msgs::msg::MarkerArray NAME(Ts &&...) { return {}; }
DRAW(laneletsBoundaryAsMarkerArray)
DRAW(laneletsAsTriangleMarkerArray)
DRAW(laneletDirectionAsMarkerArray)
DRAW(lineStringsAsMarkerArray)
DRAW(autowareTrafficLightsAsMarkerArray)
DRAW(detectionAreasAsMarkerArray)
DRAW(parkingLotsAsMarkerArray)
DRAW(parkingSpacesAsMarkerArray)
DRAW(generateLaneletIdMarker)
#undef DRAW
}  // namespace lanelet::visualization
namespace lanelet::utils::query
{
inline ConstLanelets roadLanelets(const ConstLanelets & l) { return l; }
inline ConstLanelets crosswalkLanelets(const ConstLanelets & l) { return l; }
inline ConstLanelets walkwayLanelets(const ConstLanelets & l) { return l; }
inline ConstLineStrings3d stopLinesLanelets(const ConstLanelets &) { return {}; }
inline std::vector<DetectionAreaConstPtr> detectionAreas(const ConstLanelets &) { return {}; }
inline ConstLineStrings3d getAllParkingSpaces(const LaneletMapPtr &) { return {}; }
inline ConstPolygons3d getAllParkingLots(const LaneletMapPtr &) { return {}; }
}  // namespace lanelet::utils::query
