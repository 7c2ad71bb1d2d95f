// Definitions behind the simulator stand-in: a straight road whose lanelet 10*k+l is lane l (3 m wide, at y = 3*l) of the
// stretch that begins at x = 100*k.  Only what lies behind the interpreter is replaced; the interpreter is the real code.
#include <traffic_simulator/api/api.hpp>
#include <traffic_simulator/utils/distance.hpp>
#include <traffic_simulator/utils/route.hpp>
namespace traffic_simulator
{
namespace
{
auto mapped(const LaneletPose & l)
{
  geometry_msgs::msg::Pose p;
  p.position.x = 100.0 * (l.lanelet_id / 10) + l.s;
  p.position.y = 3.0 * (l.lanelet_id % 10) + l.offset;
  p.orientation.w = std::cos(l.rpy.z / 2);
  p.orientation.z = std::sin(l.rpy.z / 2);
  return p;
}
}  // namespace
inline namespace lanelet_pose
{
CanonicalizedLaneletPose::CanonicalizedLaneletPose(const LaneletPose & p) : lanelet_pose_(p), lanelet_poses_{p}, map_pose_(mapped(p)) {}
CanonicalizedLaneletPose::CanonicalizedLaneletPose(const LaneletPose & p, const lanelet::Ids &) : CanonicalizedLaneletPose(p) {}
CanonicalizedLaneletPose::CanonicalizedLaneletPose(const CanonicalizedLaneletPose & o) = default;
CanonicalizedLaneletPose::CanonicalizedLaneletPose(CanonicalizedLaneletPose && o) noexcept = default;
CanonicalizedLaneletPose & CanonicalizedLaneletPose::operator=(const CanonicalizedLaneletPose &) = default;
auto CanonicalizedLaneletPose::alignOrientationToLanelet() -> void {}
auto CanonicalizedLaneletPose::getAlternativeLaneletPoseBaseOnShortestRouteFrom(LaneletPose, const RoutingConfiguration &) const -> std::optional<LaneletPose> { return lanelet_pose_; }
}  // namespace lanelet_pose
auto isSameLaneletId(const CanonicalizedLaneletPose & a, const CanonicalizedLaneletPose & b) -> bool { return a.getLaneletId() == b.getLaneletId(); }
auto isSameLaneletId(const CanonicalizedLaneletPose & a, const lanelet::Id b) -> bool { return a.getLaneletId() == b; }
inline namespace pose
{
auto quietNaNPose() -> geometry_msgs::msg::Pose
{
  geometry_msgs::msg::Pose p;
  p.position.x = p.position.y = p.position.z = std::numeric_limits<double>::quiet_NaN();
  p.orientation.x = p.orientation.y = p.orientation.z = p.orientation.w = std::numeric_limits<double>::quiet_NaN();
  return p;
}
auto quietNaNLaneletPose() -> LaneletPose
{
  LaneletPose p;
  p.lanelet_id = std::numeric_limits<std::int64_t>::max();
  p.s = p.offset = p.rpy.x = p.rpy.y = p.rpy.z = std::numeric_limits<double>::quiet_NaN();
  return p;
}
auto canonicalize(const LaneletPose & p) -> LaneletPose { return p; }
auto toMapPose(const CanonicalizedLaneletPose & p) -> geometry_msgs::msg::Pose { return static_cast<geometry_msgs::msg::Pose>(p); }
auto toMapPose(const LaneletPose & p) -> geometry_msgs::msg::Pose { return mapped(p); }
auto toCanonicalizedLaneletPose(const LaneletPose & p) -> std::optional<CanonicalizedLaneletPose> { return CanonicalizedLaneletPose(p); }
auto toCanonicalizedLaneletPose(const geometry_msgs::msg::Pose & p, const bool) -> std::optional<CanonicalizedLaneletPose>
{
  const auto lane = std::llround(p.position.y / 3.0);
  if (lane < 0 or lane > 9 or std::abs(p.position.y - 3.0 * lane) > 1.25 or p.position.x < 0) return std::nullopt;
  LaneletPose l;
  l.lanelet_id = 10 * static_cast<std::int64_t>(p.position.x / 100.0) + lane;
  l.s = std::fmod(p.position.x, 100.0);
  l.offset = p.position.y - 3.0 * lane;
  return CanonicalizedLaneletPose(l);
}
auto toCanonicalizedLaneletPose(const geometry_msgs::msg::Pose & p, const traffic_simulator_msgs::msg::BoundingBox &, const bool c, const double) -> std::optional<CanonicalizedLaneletPose> { return toCanonicalizedLaneletPose(p, c); }
auto toCanonicalizedLaneletPose(const geometry_msgs::msg::Pose & p, const traffic_simulator_msgs::msg::BoundingBox &, const lanelet::Ids &, const bool c, const double) -> std::optional<CanonicalizedLaneletPose> { return toCanonicalizedLaneletPose(p, c); }
namespace
{
double yaw(const geometry_msgs::msg::Pose & p) { return 2 * std::atan2(p.orientation.z, p.orientation.w); }
}
auto transformRelativePoseToGlobal(const geometry_msgs::msg::Pose & g, const geometry_msgs::msg::Pose & r) -> geometry_msgs::msg::Pose
{
  auto p = g;
  const auto a = yaw(g), b = yaw(g) + yaw(r);
  p.position.x += std::cos(a) * r.position.x - std::sin(a) * r.position.y;
  p.position.y += std::sin(a) * r.position.x + std::cos(a) * r.position.y;
  p.position.z += r.position.z;
  p.orientation.z = std::sin(b / 2);
  p.orientation.w = std::cos(b / 2);
  return p;
}
auto relativePose(const geometry_msgs::msg::Pose & from, const geometry_msgs::msg::Pose & to) -> std::optional<geometry_msgs::msg::Pose>
{
  geometry_msgs::msg::Pose p;
  const auto a = yaw(from), dx = to.position.x - from.position.x, dy = to.position.y - from.position.y, b = yaw(to) - a;
  p.position.x = std::cos(a) * dx + std::sin(a) * dy;
  p.position.y = -std::sin(a) * dx + std::cos(a) * dy;
  p.position.z = to.position.z - from.position.z;
  p.orientation.z = std::sin(b / 2);
  p.orientation.w = std::cos(b / 2);
  return p;
}
auto relativePose(const geometry_msgs::msg::Pose & f, const CanonicalizedLaneletPose & t) -> std::optional<geometry_msgs::msg::Pose> { return relativePose(f, toMapPose(t)); }
auto relativePose(const CanonicalizedLaneletPose & f, const geometry_msgs::msg::Pose & t) -> std::optional<geometry_msgs::msg::Pose> { return relativePose(toMapPose(f), t); }
// gap between the two boxes along each axis (the boxes are parallel to the road in this world)
auto boundingBoxRelativePose(const geometry_msgs::msg::Pose & f, const traffic_simulator_msgs::msg::BoundingBox & fb, const geometry_msgs::msg::Pose & t, const traffic_simulator_msgs::msg::BoundingBox & tb) -> std::optional<geometry_msgs::msg::Pose>
{
  auto p = *relativePose(f, t);
  auto gap = [](double d, double a, double b) { const auto m = (a + b) / 2; return std::abs(d) <= m ? 0 : d > 0 ? d - m : d + m; };
  p.position.x = gap(p.position.x, fb.dimensions.x, tb.dimensions.x);
  p.position.y = gap(p.position.y, fb.dimensions.y, tb.dimensions.y);
  return p;
}
auto relativeLaneletPose(const CanonicalizedLaneletPose & f, const CanonicalizedLaneletPose & t, const RoutingConfiguration & c) -> LaneletPose
{
  auto p = quietNaNLaneletPose();
  if (auto d = longitudinalDistance(f, t, true, true, c)) p.s = *d;
  if (auto d = lateralDistance(f, t, c)) p.offset = *d;
  return p;
}
// gap between the two boxes along and across the lane (they count as parallel to it)
auto boundingBoxRelativeLaneletPose(const CanonicalizedLaneletPose & f, const traffic_simulator_msgs::msg::BoundingBox & fb, const CanonicalizedLaneletPose & t, const traffic_simulator_msgs::msg::BoundingBox & tb, const RoutingConfiguration & c) -> LaneletPose
{
  auto p = relativeLaneletPose(f, t, c);
  auto gap = [](double d, double a, double b) { const auto m = (a + b) / 2; return std::isnan(d) ? d : std::abs(d) <= m ? 0 : d > 0 ? d - m : d + m; };
  p.s = gap(p.s, fb.dimensions.x, tb.dimensions.x);
  p.offset = gap(p.offset, fb.dimensions.y, tb.dimensions.y);
  return p;
}
}  // namespace pose
inline namespace distance
{
// a lane change is needed between different lanes: without permission for it there is no route
auto lateralDistance(const CanonicalizedLaneletPose & f, const CanonicalizedLaneletPose & t, const RoutingConfiguration & c) -> std::optional<double>
{
  if (not c.allow_lane_change and f.getLaneletId() % 10 != t.getLaneletId() % 10) return std::nullopt;
  return toMapPose(t).position.y - toMapPose(f).position.y;
}
auto longitudinalDistance(const CanonicalizedLaneletPose & f, const CanonicalizedLaneletPose & t, const bool, const bool, const RoutingConfiguration & c) -> std::optional<double>
{
  if (not c.allow_lane_change and f.getLaneletId() % 10 != t.getLaneletId() % 10) return std::nullopt;
  return toMapPose(t).position.x - toMapPose(f).position.x;
}
auto boundingBoxDistance(const geometry_msgs::msg::Pose & f, const traffic_simulator_msgs::msg::BoundingBox & fb, const geometry_msgs::msg::Pose & t, const traffic_simulator_msgs::msg::BoundingBox & tb) -> std::optional<double>
{
  const auto p = *boundingBoxRelativePose(f, fb, t, tb);
  return std::hypot(p.position.x, p.position.y);
}
}  // namespace distance
inline namespace route
{
auto countLaneChanges(const CanonicalizedLaneletPose & f, const CanonicalizedLaneletPose & t, const RoutingConfiguration & c) -> std::optional<std::pair<int, int>>
{
  const auto d = static_cast<int>(t.getLaneletId() % 10 - f.getLaneletId() % 10);
  if (not c.allow_lane_change and d) return std::nullopt;
  return std::make_pair(std::max(d, 0), std::max(-d, 0));
}
}  // namespace route
}  // namespace traffic_simulator
