// Stand-in for the traffic simulator behind the interpreter: every answer is set by the harness,
// every request is recorded.  The interpreter itself (openscenario_interpreter/**) is the real code.
#pragma once
#include <cmath>
#include <filesystem>
#include <functional>
#include <geometry_msgs/msg/accel.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/twist.hpp>
#include <get_parameter/get_parameter.hpp>
#include <iomanip>
#include <limits>
#include <map>
#include <memory>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <boost/math/constants/constants.hpp>
#include <optional>
#include <rclcpp/rclcpp.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <set>
#include <sstream>
#include <string>
#include <traffic_simulator/data_type/entity_status.hpp>
#include <traffic_simulator/data_type/lane_change.hpp>
#include <traffic_simulator/data_type/lanelet_pose.hpp>
#include <traffic_simulator/data_type/speed_change.hpp>
#include <traffic_simulator/utils/pose.hpp>
#include <traffic_simulator_msgs/msg/behavior_parameter.hpp>
#include <traffic_simulator_msgs/msg/misc_object_parameters.hpp>
#include <traffic_simulator_msgs/msg/pedestrian_parameters.hpp>
#include <traffic_simulator_msgs/msg/polyline_trajectory.hpp>
#include <traffic_simulator_msgs/msg/vehicle_parameters.hpp>
#include <variant>
#include <vector>
#if __has_include(<traffic_simulator/data_type/route_option.hpp>)
#include <traffic_simulator/data_type/route_option.hpp>
#endif

namespace mock
{
struct World
{
  double time = 0.0;
  bool npc_logic_started = false;
  std::vector<std::string> events;
  std::function<void(const std::string &)> on_event;
  std::set<std::pair<std::string, std::string>> collisions;
  std::map<std::int64_t, std::string> lights, v2i_lights, detected_lights, v2i_detected_lights;
  std::map<std::int64_t, std::vector<std::pair<double, std::string>>> predictions;  // light -> when, what
  std::map<std::int64_t, bool> v2i_enabled;
  std::function<bool(std::int64_t, const std::string &)> compare_light;
  int updates = 0;
  std::function<void()> on_update, on_construct;
};
inline World & world() { static World w; return w; }
template <class... Ts> void event(Ts &&... xs)
{
  std::ostringstream ss;
  (ss << ... << xs);
  world().events.push_back(ss.str());
  if (world().on_event) world().on_event(ss.str());
}
}  // namespace mock

namespace simulation_api_schema
{
struct Recorder
{
  std::map<std::string, std::string> fields;
  template <class T> void put(const char * k, const T & v) { std::ostringstream s; s << std::setprecision(17) << v; fields[k] = s.str(); }
};
#define MOCK_FIELD(NAME) template <class T> void set_##NAME(const T & v) { put(#NAME, v); }
struct ImuSensorConfiguration : Recorder { MOCK_FIELD(entity) MOCK_FIELD(frame_id) MOCK_FIELD(add_gravity) MOCK_FIELD(use_seed) MOCK_FIELD(seed) MOCK_FIELD(noise_standard_deviation_orientation) MOCK_FIELD(noise_standard_deviation_twist) MOCK_FIELD(noise_standard_deviation_acceleration) };
struct LidarConfiguration : Recorder { std::vector<double> angles; MOCK_FIELD(architecture_type) MOCK_FIELD(entity) MOCK_FIELD(horizontal_resolution) MOCK_FIELD(lidar_sensor_delay) MOCK_FIELD(scan_duration) void add_vertical_angles(double d) { angles.push_back(d); } };
struct DetectionSensorConfiguration : Recorder { MOCK_FIELD(architecture_type) MOCK_FIELD(entity) MOCK_FIELD(detect_all_objects_in_range) MOCK_FIELD(object_recognition_delay) MOCK_FIELD(pos_noise_stddev) MOCK_FIELD(probability_of_lost) MOCK_FIELD(random_seed) MOCK_FIELD(range) MOCK_FIELD(object_recognition_ground_truth_delay) MOCK_FIELD(update_duration) };
struct OccupancyGridSensorConfiguration : Recorder { MOCK_FIELD(architecture_type) MOCK_FIELD(entity) MOCK_FIELD(filter_by_range) MOCK_FIELD(height) MOCK_FIELD(range) MOCK_FIELD(resolution) MOCK_FIELD(update_duration) MOCK_FIELD(width) };
struct PseudoTrafficLightDetectorConfiguration : Recorder { MOCK_FIELD(architecture_type) };
#undef MOCK_FIELD
}  // namespace simulation_api_schema

namespace traffic_simulator
{
struct Configuration
{
  std::filesystem::path map_path, scenario_path;
  std::string lanelet2_map_file;
  bool verbose = false;
  Configuration(const std::filesystem::path & m, const std::filesystem::path & s) : map_path(m), scenario_path(s) {}
  Configuration(const std::filesystem::path & m, const std::string & l, const std::filesystem::path & s) : map_path(m), scenario_path(s), lanelet2_map_file(l) {}
};

struct VehicleBehavior
{
  static auto behaviorTree() noexcept -> const std::string & { static const std::string n = "behavior_tree_plugin/VehicleBehaviorTree"; return n; }
  static auto contextGamma() noexcept -> const std::string & { static const std::string n = "TODO"; return n; }
  static auto doNothing() noexcept -> const std::string & { static const std::string n = "do_nothing_plugin/DoNothingPlugin"; return n; }
  static auto defaultBehavior() noexcept -> const std::string & { return behaviorTree(); }
  static auto autoware() noexcept -> const std::string & { static const std::string n = "Autoware"; return n; }
};
struct PedestrianBehavior : VehicleBehavior
{
  static auto behaviorTree() noexcept -> const std::string & { static const std::string n = "behavior_tree_plugin/PedestrianBehaviorTree"; return n; }
  static auto defaultBehavior() noexcept -> const std::string & { return behaviorTree(); }
};
struct MicsObjectBehavior
{
  static auto noBehavior() noexcept -> const std::string & { static const std::string n = ""; return n; }
};

namespace mock_show
{
inline auto number(double d) -> std::string { std::ostringstream s; s << (std::abs(d) < 1e-9 ? 0 : d); return s.str(); }
inline auto text(const geometry_msgs::msg::Pose & p) -> std::string { return "pose " + number(p.position.x) + "," + number(p.position.y) + "," + number(p.position.z) + "," + number(2 * std::atan2(p.orientation.z, p.orientation.w)); }
inline auto text(const LaneletPose & p) -> std::string { return "lane " + std::to_string(p.lanelet_id) + "," + number(p.s) + "," + number(p.offset) + "," + number(p.rpy.z); }
inline auto text(const CanonicalizedLaneletPose & p) -> std::string { return text(static_cast<LaneletPose>(p)); }
template <class O> auto option(const O & o) -> std::string { return std::string(o.allow_goal_modification ? " modifiable" : " fixed") + (static_cast<v2::RouteOption>(o).use_lane_ids_for_routing ? " by lanes" : ""); }
}  // namespace mock_show
namespace entity
{
struct EntityBase
{
  std::string name;
  virtual ~EntityBase() = default;
  std::string current_action = "follow_lane";
  double stand_still = 0, traveled = 0;
  geometry_msgs::msg::Pose map_pose;
  geometry_msgs::msg::Twist twist;
  geometry_msgs::msg::Accel accel;
  double linear_jerk = 0;
  std::optional<CanonicalizedLaneletPose> lanelet_pose;
  traffic_simulator_msgs::msg::BoundingBox bounding_box;
  traffic_simulator_msgs::msg::BehaviorParameter behavior_parameter;
  // what the requested motion looks like to the interpreter
  auto getMapPose() const -> const geometry_msgs::msg::Pose & { return map_pose; }
  auto getCurrentTwist() const -> const geometry_msgs::msg::Twist & { return twist; }
  auto getCurrentAccel() const -> const geometry_msgs::msg::Accel & { return accel; }
  auto getLinearJerk() const -> double { return linear_jerk; }
  auto getBoundingBox() const -> const traffic_simulator_msgs::msg::BoundingBox & { return bounding_box; }
  auto getCanonicalizedLaneletPose() const -> std::optional<CanonicalizedLaneletPose> { return lanelet_pose; }
  auto getStandStillDuration() const -> double { return stand_still; }
  auto getTraveledDistance() const -> double { return traveled; }
  auto getCurrentAction() const -> std::string { return current_action; }
  auto getBehaviorParameter() const -> traffic_simulator_msgs::msg::BehaviorParameter { return behavior_parameter; }
  auto setBehaviorParameter(const traffic_simulator_msgs::msg::BehaviorParameter & p) -> void
  {
    behavior_parameter = p;
    const auto & c = p.dynamic_constraints;
    mock::event("setBehaviorParameter ", name, " see_around=", p.see_around, " acc=", c.max_acceleration, ",", c.max_acceleration_rate, " dec=", c.max_deceleration, ",", c.max_deceleration_rate, " speed=", c.max_speed);
  }
  auto setVelocityLimit(double v) -> void { mock::event("setVelocityLimit ", name, " ", v); }
  auto setLateralCollisionThreshold(const std::optional<double> & v) -> void { if (v) mock::event("setLateralCollisionThreshold ", name, " ", *v); }
  template <class P, class O> auto requestAcquirePosition(const P & p, const O & o) -> void { mock::event("requestAcquirePosition ", name, " ", mock_show::text(p), mock_show::option(o)); }
  template <class P> auto requestAcquirePosition(const P & p) -> void { requestAcquirePosition(p, v2::RouteOption()); }
  template <class P, class O> auto requestAssignRoute(const std::vector<P> & ps, const O & o) -> void
  {
    std::string s;
    for (const auto & p : ps) s += " " + mock_show::text(p);
    mock::event("requestAssignRoute ", name, s, mock_show::option(o));
  }
  template <class P> auto requestAssignRoute(const std::vector<P> & ps) -> void { requestAssignRoute(ps, v2::RouteOption()); }
  auto requestFollowTrajectory(const std::shared_ptr<traffic_simulator_msgs::msg::PolylineTrajectory> & p) -> void { mock::event("requestFollowTrajectory ", name, " ", p->shape.vertices.size()); last_trajectory = p; }
  std::shared_ptr<traffic_simulator_msgs::msg::PolylineTrajectory> last_trajectory;
  auto requestLaneChange(const lane_change::AbsoluteTarget & t, const lane_change::TrajectoryShape s, const lane_change::Constraint & c) -> void { mock::event("requestLaneChange ", name, " abs ", t.lanelet_id, " ", t.offset, " shape=", int(s), " constraint=", int(c.type), ",", c.value, ",", int(c.policy)); }
  auto requestLaneChange(const lane_change::RelativeTarget & t, const lane_change::TrajectoryShape s, const lane_change::Constraint & c) -> void { mock::event("requestLaneChange ", name, " rel ", t.entity_name, " dir=", int(t.direction), " ", int(t.shift), " ", t.offset, " shape=", int(s), " constraint=", int(c.type), ",", c.value, ",", int(c.policy)); }
  auto requestSpeedChange(double v, const speed_change::Transition t, const speed_change::Constraint c, const bool continuous) -> void { mock::event("requestSpeedChange ", name, " abs ", v, " transition=", int(t), " constraint=", int(c.type), ",", c.value, " continuous=", continuous); }
  auto requestSpeedChange(const speed_change::RelativeTargetSpeed & v, const speed_change::Transition t, const speed_change::Constraint c, const bool continuous) -> void { mock::event("requestSpeedChange ", name, " rel ", v.reference_entity_name, " type=", int(v.type), " ", v.value, " transition=", int(t), " constraint=", int(c.type), ",", c.value, " continuous=", continuous); }
  auto requestSpeedChange(double v, const bool continuous) -> void { mock::event("requestSpeedChange ", name, " abs ", v, " continuous=", continuous); }
  auto requestSpeedChange(const speed_change::RelativeTargetSpeed & v, const bool continuous) -> void { mock::event("requestSpeedChange ", name, " rel ", v.reference_entity_name, " type=", int(v.type), " ", v.value, " continuous=", continuous); }
  auto requestWalkStraight() -> void { mock::event("requestWalkStraight ", name); }
  auto setStatus(const geometry_msgs::msg::Pose & p) -> void { map_pose = p; mock::event("setStatus ", name, " ", mock_show::text(p)); }
  auto setStatus(const geometry_msgs::msg::Pose & f, const geometry_msgs::msg::Pose & r) -> void { setStatus(transformRelativePoseToGlobal(f, r)); }
  auto setStatus(const geometry_msgs::msg::Pose & f, const geometry_msgs::msg::Point & p, const geometry_msgs::msg::Vector3 & v) -> void
  {
    geometry_msgs::msg::Pose r;
    r.position = p;
    r.orientation.w = std::cos(v.z / 2);
    r.orientation.z = std::sin(v.z / 2);
    setStatus(f, r);
  }
  auto setStatus(const LaneletPose & p) -> void { setStatus(CanonicalizedLaneletPose(p)); }
  auto setStatus(const CanonicalizedLaneletPose & p) -> void { map_pose = static_cast<geometry_msgs::msg::Pose>(p); lanelet_pose.emplace(p); mock::event("setStatus ", name, " ", mock_show::text(p)); }
  auto activateOutOfRangeJob(double a, double b, double c, double d, double, double) -> void { mock::event("activateOutOfRangeJob ", name, " ", a, " ", b, " ", c, " ", d); }
};
struct EgoEntity : EntityBase
{
  bool engageable = true, engaged = false;
  std::string mrm_behavior, mrm_state, emergency_state, turn_indicators;
  auto engage() -> void { engaged = true; mock::event("engage ", name); }
  auto isEngageable() const -> bool { return engageable; }
  auto isEngaged() const -> bool { return engaged; }
  auto sendCooperateCommand(const std::string & m, const std::string & c) -> void { mock::event("sendCooperateCommand ", m, " ", c); }
  auto requestAutoModeForCooperation(const std::string & m, bool e) -> void { mock::event("requestAutoModeForCooperation ", m, " ", e); }
  auto getMinimumRiskManeuverBehaviorName() const -> std::string { return mrm_behavior; }
  auto getMinimumRiskManeuverStateName() const -> std::string { return mrm_state; }
  auto getEmergencyStateName() const -> std::string { return emergency_state; }
  auto getTurnIndicatorsCommandName() const -> std::string { return turn_indicators; }
  template <class T> auto setParameter(const std::string & n, const T & v) -> void { mock::event("setParameter ", n, " ", v); }
};
}  // namespace entity

struct MockTrafficLights
{
  std::string tag;
  std::map<std::int64_t, std::string> & m;
  auto setTrafficLightsState(lanelet::Id id, const std::string & s) -> void { m[id] = s; mock::event(tag, " set ", id, " ", s); }
  auto clearTrafficLightsState(lanelet::Id id) -> void { m[id] = ""; mock::event(tag, " clear ", id); }
  auto addTrafficLightsState(lanelet::Id id, const std::string & s) -> void { m[id] += (m[id].empty() ? "" : ", ") + s; mock::event(tag, " add ", id, " ", s); }
  auto setTrafficLightsConfidence(lanelet::Id id, double c) -> void { mock::event(tag, " confidence ", id, " ", c); }
  auto getTrafficLightsComposedState(lanelet::Id id) -> std::string { return m[id]; }
  auto compareTrafficLightsState(lanelet::Id id, const std::string & s) -> bool { return m[id] == s; }
  auto resetUpdate(double r) -> void { mock::event(tag, " rate ", r); }
  auto addTrafficLightsStatePrediction(lanelet::Id id, const std::string & s, double ahead) -> void
  {
    mock::world().predictions[id].push_back({mock::world().time + ahead, s});
    mock::event(tag, " prediction ", id, " ", s, " ", ahead);
  }
  auto clearTrafficLightsStatePredictions() -> void { mock::world().predictions.clear(); mock::event(tag, " clearPredictions"); }
  auto clearTrafficLightsStatePredictions(lanelet::Id id) -> void { mock::world().predictions.erase(id); mock::event(tag, " clearPredictions ", id); }
};
struct MockDetectedTrafficLights
{
  std::string tag;
  std::map<std::int64_t, std::string> & m;
  auto clearState(lanelet::Id id) -> bool { mock::event(tag, " detected clear ", id); return m.erase(id); }
  auto addState(lanelet::Id id, const std::string & s) -> void { m[id] += (m[id].empty() ? "" : ", ") + s; mock::event(tag, " detected add ", id, " ", s); }
  auto setState(lanelet::Id id, const std::string & s) -> void { clearState(id), addState(id, s); }
};

class API
{
public:
  std::map<std::string, std::shared_ptr<entity::EntityBase>> entities;
  static inline API * instance = nullptr;
  static inline int live = 0;
  template <class... Ts> explicit API(Ts &&...)
  {
    if (mock::world().on_construct) mock::world().on_construct();
    instance = this;
    ++live;
    mock::event("simulator constructed");
  }
  ~API() { instance = nullptr; --live; mock::event("simulator destroyed"); }
  API(const API &) = delete;
  auto updateFrame() -> bool { ++mock::world().updates; if (mock::world().on_update) mock::world().on_update(); return true; }
  auto startNpcLogic() -> void { mock::world().npc_logic_started = true; mock::event("startNpcLogic"); }
  auto isNpcLogicStarted() const -> bool { return mock::world().npc_logic_started; }
  auto getCurrentTime() const noexcept -> double { return mock::world().npc_logic_started ? mock::world().time : std::numeric_limits<double>::quiet_NaN(); }
  auto closeZMQConnection() -> void { mock::event("closeZMQConnection"); }
  auto despawnEntities() -> bool { mock::event("despawnEntities"); entities.clear(); return true; }
  auto despawn(const std::string & n) -> bool { mock::event("despawn ", n); return entities.erase(n); }
  template <class Pose, class Params> auto spawn(const std::string & n, const Pose & pose, const Params & params, const std::string & behavior = "", const std::string & model3d = "") -> entity::EntityBase &
  {
    if (entities.count(n)) throw common::SemanticError("Entity ", n, " already exists");
    mock::event("spawn ", n, " behavior=", behavior, " model=", model3d);
    std::shared_ptr<entity::EntityBase> e = behavior == VehicleBehavior::autoware() ? std::make_shared<entity::EgoEntity>() : std::make_shared<entity::EntityBase>();
    e->name = n;
    e->bounding_box = params.bounding_box;
    if constexpr (std::is_same_v<Pose, geometry_msgs::msg::Pose>) { e->map_pose = pose; }
    else { e->lanelet_pose.emplace(pose); e->map_pose = static_cast<geometry_msgs::msg::Pose>(pose); }
    return *(entities[n] = e);
  }
  auto isEntityExist(const std::string & n) const -> bool { return entities.count(n); }
  auto getEntity(const std::string & n) const -> entity::EntityBase &
  {
    if (auto i = entities.find(n); i != entities.end()) return *i->second;
    throw common::SemanticError("entity : ", n, " does not exist");
  }
  auto getEntityPointer(const std::string & n) const -> std::shared_ptr<entity::EntityBase>
  {
    if (auto i = entities.find(n); i != entities.end()) return i->second;
    return nullptr;
  }
  auto getFirstEgoName() const -> std::optional<std::string> { for (auto & [n, e] : entities) if (std::dynamic_pointer_cast<entity::EgoEntity>(e)) return n; return std::nullopt; }
  auto getEgoEntity(const std::string & n) const -> entity::EgoEntity &
  {
    if (auto e = dynamic_cast<entity::EgoEntity *>(&getEntity(n))) return *e;
    throw common::SemanticError("Entity ", n, " is not an ego");
  }
  auto checkCollision(const std::string & a, const std::string & b) const -> bool { return mock::world().collisions.count({a, b}) or mock::world().collisions.count({b, a}); }
  auto attachImuSensor(const std::string & e, const simulation_api_schema::ImuSensorConfiguration &) -> bool { mock::event("attachImu ", e); return true; }
  template <class C> auto record(const char * k, const C & c) -> bool { std::ostringstream s; for (auto & [a, b] : c.fields) s << " " << a << "=" << b; mock::event(k, s.str()); return true; }
  auto attachLidarSensor(const simulation_api_schema::LidarConfiguration & c) -> bool { return record("attachLidar", c); }
  auto attachDetectionSensor(const simulation_api_schema::DetectionSensorConfiguration & c) -> bool { return record("attachDetection", c); }
  auto attachOccupancyGridSensor(const simulation_api_schema::OccupancyGridSensorConfiguration & c) -> bool { return record("attachOccupancyGrid", c); }
  auto attachPseudoTrafficLightDetector(const simulation_api_schema::PseudoTrafficLightDetectorConfiguration & c) -> bool { return record("attachPseudoTrafficLightDetector", c); }
  MockTrafficLights conventional{"conventional", mock::world().lights}, v2i{"v2i", mock::world().v2i_lights};
  MockDetectedTrafficLights conventional_detected{"conventional", mock::world().detected_lights}, v2i_detected{"v2i", mock::world().v2i_detected_lights};
  auto getConventionalTrafficLights() -> MockTrafficLights * { return &conventional; }
  auto getV2ITrafficLights() -> MockTrafficLights * { return &v2i; }
  auto getConventionalDetectedTrafficLights() -> MockDetectedTrafficLights * { return &conventional_detected; }
  auto getV2IDetectedTrafficLights() -> MockDetectedTrafficLights * { return &v2i_detected; }
  auto setTrafficSignalV2IFeature(lanelet::Id id, bool e) -> void { mock::world().v2i_enabled[id] = e; mock::event("v2iFeature ", id, " ", e); }
  auto isV2ITrafficLightEnabled(lanelet::Id id) const -> bool { return mock::world().v2i_enabled[id]; }
};
}  // namespace traffic_simulator
