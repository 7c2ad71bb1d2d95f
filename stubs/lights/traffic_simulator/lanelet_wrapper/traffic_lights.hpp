// A road map with nothing but traffic lights on it: ways (signal heads) and the regulatory elements (relations) that refer to them.
#pragma once
#include <geometry_msgs/msg/point.hpp>
#include <lanelet2_core/geometry/Lanelet.h>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
namespace map_stub
{
struct Roads
{
  std::map<lanelet::Id, lanelet::Ids> relations;  // relation -> ways
  lanelet::Ids ways;
  lanelet::Ids on_path;
  std::map<lanelet::Id, std::optional<double>> stop_line;
  static Roads & get() { static Roads r; return r; }
};
}  // namespace map_stub
namespace lanelet
{
struct ConstLineString3d { Id i; Id id() const { return i; } };
struct LineStringOrPolygon3d { Id i; Id id() const { return i; } };
struct TrafficLight
{
  using Ptr = std::shared_ptr<TrafficLight>;
  Ids ways;
  template <class T> std::vector<T> getParameters(const std::string & role) const
  {
    std::vector<T> r;
    if (role == "refers") for (auto w : ways) r.push_back(T{w});
    return r;
  }
  std::vector<LineStringOrPolygon3d> trafficLights() const { return getParameters<LineStringOrPolygon3d>("refers"); }
};
}  // namespace lanelet
namespace traffic_simulator
{
inline namespace lanelet_pose_stub { using Point = geometry_msgs::msg::Point; }
namespace lanelet_wrapper
{
namespace traffic_lights
{
inline auto isTrafficLight(const lanelet::Id id) -> bool { for (auto w : map_stub::Roads::get().ways) if (w == id) return true; return false; }
inline auto isTrafficLightRegulatoryElement(const lanelet::Id id) -> bool { return map_stub::Roads::get().relations.count(id); }
inline auto toTrafficLightRegulatoryElement(const lanelet::Id id) -> lanelet::TrafficLight::Ptr
{
  if (not isTrafficLightRegulatoryElement(id)) throw std::runtime_error(std::to_string(id) + " is not traffic light regulatory element!");
  auto p = std::make_shared<lanelet::TrafficLight>();
  p->ways = map_stub::Roads::get().relations.at(id);
  return p;
}
inline auto trafficLightIds() -> lanelet::Ids { return map_stub::Roads::get().ways; }
inline auto trafficLightBulbPosition(const lanelet::Id id, const std::string & color, const bool = false) -> std::optional<Point>
{
  if (id == 2 and color == "yellow") return std::nullopt;  // a head without that bulb
  Point p;
  p.x = id;
  p.y = color == "green" ? 1 : color == "yellow" ? 2 : color == "red" ? 3 : 4;
  p.z = 5;
  return p;
}
inline auto trafficLightStopLineIds(const lanelet::Id) -> lanelet::Ids { return {}; }
inline auto trafficLightRegulatoryElementIDsFromTrafficLight(const lanelet::Id way) -> lanelet::Ids
{
  lanelet::Ids r;
  for (auto & [id, ways] : map_stub::Roads::get().relations) for (auto w : ways) if (w == way) r.push_back(id);
  return r;
}
inline auto trafficLightIdsOnPath(const lanelet::Ids &) -> lanelet::Ids { return map_stub::Roads::get().on_path; }
}  // namespace traffic_lights
}  // namespace lanelet_wrapper
}  // namespace traffic_simulator
