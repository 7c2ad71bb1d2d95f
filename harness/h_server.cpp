// The sensor simulator as a server: histories of requests against what it was told so far (C30).
#include <traffic_simulator/utils/lanelet_map.hpp>
#include <simple_sensor_simulator/simple_sensor_simulator.hpp>
#include <new>
#include "mc.hpp"
namespace
{
using mc::cat;
namespace stub = rclcpp::stub;
namespace api = simulation_api_schema;
using Ego = vehicle_simulation::EgoEntitySimulation;
using Tracked = autoware_perception_msgs::msg::TrackedObjects;
using Detected = autoware_perception_msgs::msg::DetectedObjects;
using Imu = sensor_msgs::msg::Imu;
using Cloud = sensor_msgs::msg::PointCloud2;
using Grid = nav_msgs::msg::OccupancyGrid;
using Groups = autoware_perception_msgs::msg::TrafficLightGroupArray;
using Type = traffic_simulator_msgs::EntityType;
using Subtype = traffic_simulator_msgs::EntitySubtype;
const std::string arch = "awf/universe/20250130";

struct Pose { double x = 0, y = 0, yaw = 0; };
struct Body { double cx, cy, cz, l, w, h; };
struct Thing
{
  std::string name;
  Type::Enum type;
  Body body;
  Pose pose;
  int subtype = 0;
  double vx = 0, az = 0;
  std::string action = "initializing";
};
template <class P> void put(const Pose & p, P * q)
{
  q->mutable_position()->set_x(p.x), q->mutable_position()->set_y(p.y);
  q->mutable_orientation()->set_z(std::sin(p.yaw / 2)), q->mutable_orientation()->set_w(std::cos(p.yaw / 2));
}
template <class P> void put(const Body & b, P * q)
{
  q->mutable_center()->set_x(b.cx), q->mutable_center()->set_y(b.cy), q->mutable_center()->set_z(b.cz);
  q->mutable_dimensions()->set_x(b.l), q->mutable_dimensions()->set_y(b.w), q->mutable_dimensions()->set_z(b.h);
}
std::string num(double x) { char b[32]; std::snprintf(b, sizeof b, "%.4f", std::fabs(x) < 5e-5 ? 0.0 : x); return b; }
std::string pose_text(double x, double y, double z, double ow, double oz) { double yaw = 2 * std::atan2(oz, ow); if (yaw > M_PI) yaw -= 2 * M_PI; if (yaw < -M_PI) yaw += 2 * M_PI; return cat("(", num(x), " ", num(y), " ", num(z), " ", num(yaw), ")"); }
std::string pose_text(const Pose & p) { return pose_text(p.x, p.y, 0, std::cos(p.yaw / 2), std::sin(p.yaw / 2)); }
template <class P> std::string real_pose(const P & p) { return pose_text(p.position.x, p.position.y, p.position.z, p.orientation.w, p.orientation.z); }
template <class P> std::string proto_pose(const P & p) { return pose_text(p.position().x(), p.position().y(), p.position().z(), p.orientation().w(), p.orientation().z()); }
// what a detector tells of a thing
std::string object_text(const Thing & t)
{
  const double c = std::cos(t.pose.yaw), s = std::sin(t.pose.yaw), x = t.pose.x + c * t.body.cx - s * t.body.cy, y = t.pose.y + s * t.body.cx + c * t.body.cy;
  return cat(pose_text(x, y, t.body.cz, std::cos(t.pose.yaw / 2), std::sin(t.pose.yaw / 2)), " ", num(t.body.l), " ", num(t.body.w), " ", num(t.body.h), " v", num(t.vx), " class ", t.subtype);
}
template <class O> std::string real_object(const O & o)
{
  using K = autoware_perception_msgs::msg::ObjectClassification;
  const std::map<int, int> back{{K::UNKNOWN, Subtype::UNKNOWN}, {K::CAR, Subtype::CAR}, {K::TRUCK, Subtype::TRUCK}, {K::PEDESTRIAN, Subtype::PEDESTRIAN}};
  const int label = o.classification.size() == 1 ? o.classification[0].label : 999;
  return cat(real_pose(o.kinematics.pose_with_covariance.pose), " ", num(o.shape.dimensions.x), " ", num(o.shape.dimensions.y), " ", num(o.shape.dimensions.z), " v", num(o.kinematics.twist_with_covariance.twist.linear.x), " class ", back.count(label) ? back.at(label) : 1000 + label);
}
std::string stamp_text(int s) { return cat("@", s, ".5"); }
template <class H> std::string stamp_text(const H & h) { return cat("@", h.stamp.sec, ".", h.stamp.nanosec / 100000000); }
std::string join(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string r; for (auto & x : v) r += (r.empty() ? "" : "; ") + x; return r; }

struct World
{
  // the real one
  std::unique_ptr<char[]> memory;
  simple_sensor_simulator::ScenarioSimulator * server;
  zeromq::MultiServer * door;
  std::map<std::string, std::vector<std::string>> heard;  // topic -> what
  std::map<std::string, std::string> ids, names_of;       // identifiers of objects
  // the model
  bool initialized = false, over = false, toggled = false;
  double step = 0, scenario_time = NAN;
  std::map<std::string, Thing> things;
  std::string ego;  // name of the ego, if any
  Thing ego_sim;
  bool manual = false;
  double ego_step = 0;
  std::vector<std::string> ego_calls;
  std::vector<char> sensors;  // D L B N H, and d for a detector of another ego
  std::vector<int> lights;
  int frame = 0, serial = 0, scenarios = 0;
  std::string trace;

  explicit World(int poison)
  {
    memory.reset(new char[sizeof(simple_sensor_simulator::ScenarioSimulator) + 64]);
    std::memset(memory.get(), poison, sizeof(simple_sensor_simulator::ScenarioSimulator) + 64);
    void * p = memory.get();
    std::size_t space = sizeof(simple_sensor_simulator::ScenarioSimulator) + 64;
    p = std::align(alignof(simple_sensor_simulator::ScenarioSimulator), sizeof(simple_sensor_simulator::ScenarioSimulator), p, space);
    server = new (p) simple_sensor_simulator::ScenarioSimulator(rclcpp::NodeOptions());
    door = zeromq::MultiServer::last();
    stub::Bus::hook() = [this](const std::string & topic, const std::any & m) { hear(topic, m); };
  }
  ~World()
  {
    stub::Bus::hook() = nullptr;
    server->~ScenarioSimulator();
    if (not Ego::alive().empty()) bad("alive", "the vehicle of the ego outlives the server"), Ego::alive().clear();
  }
  void bad(const std::string & key, const std::string & what) { mc::violation(cat(key, ": ", trace), cat(what, " (history ", trace, ")"), trace); over = true; }
  template <class M> void objects(const std::string & topic, const M & m)
  {
    std::vector<std::string> v;
    for (auto & o : m.objects) v.push_back(real_object(o));
    heard[topic].push_back(cat(stamp_text(m.header), " ", m.header.frame_id, " ", join(v)));
  }
  void hear(const std::string & topic, const std::any & a)
  {
    if (auto * m = std::any_cast<Tracked>(&a)) {
      objects(topic, *m);
      std::set<std::string> here;
      for (auto & o : m->objects) if (not here.insert(std::string(o.object_id.uuid.begin(), o.object_id.uuid.end())).second) bad("uuid", "two objects have the same identifier");
      last = *m;
    } else if (auto * m = std::any_cast<Detected>(&a)) objects(topic, *m);
    else if (auto * m = std::any_cast<Imu>(&a)) heard[topic].push_back(cat(stamp_text(m->header), " ", m->header.frame_id, " ", pose_text(0, 0, 0, m->orientation.w, m->orientation.z), " a", num(m->linear_acceleration.z)));
    else if (auto * m = std::any_cast<Cloud>(&a)) heard[topic].push_back(cat(stamp_text(m->header), " ", m->header.frame_id));
    else if (auto * m = std::any_cast<Grid>(&a)) heard[topic].push_back(cat(stamp_text(m->header), " ", m->info.width, "x", m->info.height, "=", m->data.size()));
    else if (auto * m = std::any_cast<Groups>(&a)) {
      std::vector<std::string> v;
      for (auto & g : m->traffic_light_groups) v.push_back(cat(g.traffic_light_group_id, "*", g.elements.size()));
      heard[topic].push_back(cat("@", m->stamp.sec, ".", m->stamp.nanosec / 100000000, " ", join(v)));
    } else heard[topic].push_back("?");
  }
  Tracked last;

  static Thing make(char c)
  {
    switch (c) {
      case 'E': return {"ego", Type::EGO, {1.5, 0.25, 1, 4.5, 2, 2}, {10, 0, 0.5}};
      case 'X': return {"other", Type::EGO, {1.5, 0, 1, 4, 2, 2}, {-10, 3, 1}};
      case 'C': return {"car", Type::VEHICLE, {1, 0, 0.75, 4, 1.5, 1.5}, {20, 5, 1}};
      case 'K': return {"truck", Type::VEHICLE, {2, 0.25, 1.5, 8, 2.5, 3}, {-20, 5, 2}};
      case 'P': return {"child", Type::PEDESTRIAN, {0, 0.125, 0.5, 0.25, 0.375, 1}, {6, -5, 1}};
      case 'J': return {"box", Type::MISC_OBJECT, {0.5, 0, 0.25, 1, 1.25, 0.5}, {0, 9, -2}};
      case 'W': return {"walker", Type::PEDESTRIAN, {0, 0, 0.9, 0.5, 0.75, 1.8}, {5, -5, -1}};
      default: return {"cone", Type::MISC_OBJECT, {0.125, 0.25, 0.5, 0.25, 0.5, 1}, {0, 8, 3}};
    }
  }
  template <class F> auto ask(F f, bool & thrown, std::string & text) { thrown = false; try { return f(); } catch (const std::exception & e) { thrown = true, text = e.what(); return decltype(f())(); } }
  void success(bool got, bool want, const std::string & what) { if (got != want) bad("success", cat(what, got ? " succeeds" : " fails")); }
  bool possible(char c) const
  {
    const std::string spawn = "EXCWMKPJ";
    if (not initialized and c != 'I' and c != 'F') return false;
    if (spawn.find(c) != std::string::npos) return not things.count(make(c).name);
    if (c == 'G' or c == 'O') return not ego.empty();
    return true;
  }
  void sensor(char c)
  {
    bool thrown; std::string text; bool ok = false;
    auto go = [&](auto q, auto && fill) { fill(*q.mutable_configuration()); const auto r = ask([&] { return door->call(q); }, thrown, text); ok = r.result().success(); };
    const std::string a = c == 'Q' ? "nonsense" : c == 'q' ? "awf/universe" : arch;
    if (c == 'D' or c == 'd' or c == 'Q') go(api::AttachDetectionSensorRequest(), [&](auto & g) { g.set_entity(c == 'd' ? "other" : "ego"), g.set_range(1000), g.set_architecture_type(a), g.set_detect_all_objects_in_range(true); });
    if (c == 'L') go(api::AttachLidarSensorRequest(), [&](auto & g) { g.set_entity("ego"), g.set_architecture_type(a), g.set_horizontal_resolution(M_PI / 2), g.add_vertical_angles(0); });
    if (c == 'B') go(api::AttachImuSensorRequest(), [&](auto & g) { g.set_entity("ego"), g.set_frame_id("imu"), g.set_use_seed(true), g.set_seed(1); });
    if (c == 'N') go(api::AttachOccupancyGridSensorRequest(), [&](auto & g) { g.set_entity("ego"), g.set_architecture_type(a), g.set_resolution(1), g.set_width(4), g.set_height(6), g.set_range(100); });
    if (c == 'H' or c == 'q') go(api::AttachPseudoTrafficLightDetectorRequest(), [&](auto & g) { g.set_architecture_type(a); });
    if (c == 'Q' or c == 'q') { if (not thrown) bad("architecture", "a sensor for an unknown architecture is attached"); return; }
    if (thrown) return bad("attach", cat("a sensor is refused: ", text));
    success(ok, true, "attaching a sensor");
    sensors.push_back(c);
  }
  void spawn(char c)
  {
    const auto t = make(c);
    bool thrown; std::string text; bool ok = false;
    const bool is_ego = t.type == Type::EGO;
    if (is_ego or c == 'C' or c == 'K') {
      api::SpawnVehicleEntityRequest q;
      q.mutable_parameters()->set_name(t.name), put(t.body, q.mutable_parameters()->mutable_bounding_box()), put(t.pose, q.mutable_pose()), q.set_is_ego(is_ego);
      ok = ask([&] { return door->call(q); }, thrown, text).result().success();
    } else if (c == 'W' or c == 'P') {
      api::SpawnPedestrianEntityRequest q;
      q.mutable_parameters()->set_name(t.name), put(t.body, q.mutable_parameters()->mutable_bounding_box()), put(t.pose, q.mutable_pose());
      ok = ask([&] { return door->call(q); }, thrown, text).result().success();
    } else {
      api::SpawnMiscObjectEntityRequest q;
      q.mutable_parameters()->set_name(t.name), put(t.body, q.mutable_parameters()->mutable_bounding_box()), put(t.pose, q.mutable_pose());
      ok = ask([&] { return door->call(q); }, thrown, text).result().success();
    }
    if (is_ego and not ego.empty()) { if (not thrown and ok) bad("second ego", "a second ego is accepted"); return; }
    if (thrown) return bad("spawn", cat(t.name, " is refused: ", text));
    success(ok, true, cat("spawning ", t.name));
    things[t.name] = t;
    if (is_ego) ego = t.name, ego_sim = t, ego_sim.action = "", ego_step = step, ego_calls.clear(), manual = false;
  }
  void despawn(const std::string & name)
  {
    api::DespawnEntityRequest q;
    q.set_name(name);
    bool thrown; std::string text;
    const auto r = ask([&] { return door->call(q); }, thrown, text);
    if (thrown) return bad("despawn", cat("removing ", name, " throws ", text));
    success(r.result().success(), things.count(name), cat("removing ", name, things.count(name) ? ", which is there," : ", which is not there,"));
    things.erase(name);
    if (name == ego) ego.clear();
  }
  void update(char c)
  {
    api::UpdateEntityStatusRequest q;
    q.set_overwrite_ego_status(c == 'O'), q.set_npc_logic_started(c == 'A');
    std::vector<Thing> want;
    ++serial;
    std::vector<std::string> names;
    for (auto & [n, t] : things) if (c != 'V' or n != ego) names.push_back(n);
    if (c == 'R') std::reverse(names.begin(), names.end());
    if (c == 'U') names = {"nobody"};
    int k = 0;
    for (auto & n : names) {
      auto t = c == 'U' ? make('C') : things[n];
      t.name = n;
      ++k;
      t.pose = {t.pose.x + 0.5 * serial + k, t.pose.y - 0.25 * k, t.pose.yaw + 0.125};
      t.vx = serial + 0.5 * k, t.az = 0.25 * k, t.action = cat("act", serial), t.subtype = n == ego ? Subtype::UNKNOWN : n == "car" ? (serial % 2 ? Subtype::CAR : Subtype::TRUCK) : n == "walker" ? Subtype::PEDESTRIAN : Subtype::UNKNOWN;
      auto & s = *q.add_status();
      s.set_name(n), s.mutable_type()->set_type(t.type), s.mutable_subtype()->set_value(Subtype::Enum(t.subtype)), s.set_time(serial), put(t.pose, s.mutable_pose());
      s.mutable_action_status()->set_current_action(t.action), s.mutable_action_status()->mutable_twist()->mutable_linear()->set_x(t.vx), s.mutable_action_status()->mutable_accel()->mutable_linear()->set_z(t.az);
      if (c == 'U') continue;
      if (n == ego) {
        std::ostringstream o;
        const bool overwrite = c == 'O' or manual;
        o << (overwrite ? "overwrite " : "update ") << scenario_time + step << ' ' << step << ' ' << (c == 'A');
        ego_calls.push_back(o.str());
        if (overwrite) { manual = true; const auto b = ego_sim.body; ego_sim = t, ego_sim.body = b; }
        else ego_sim.pose.x += 1;
        t = ego_sim;
      }
      const auto body = things[n].body;
      things[n] = t, things[n].body = body;
      want.push_back(t);
    }
    bool thrown; std::string text;
    const auto r = ask([&] { return door->call(q); }, thrown, text);
    if (c == 'U') { if (not thrown or text.find("nobody") == std::string::npos) bad("unknown", "the status of an unknown entity is accepted, or the error does not name it"); return; }
    if (thrown) return bad("update", cat("updating throws ", text));
    success(r.result().success(), true, "updating");
    std::string got, wanted;
    for (auto & s : r.status()) got += cat(s.name(), proto_pose(s.pose()), s.action_status().current_action(), " v", num(s.action_status().twist().linear().x()), "; ");
    for (auto & t : want) wanted += cat(t.name, pose_text(t.pose), t.action, " v", num(t.vx), "; ");
    if (got != wanted) bad("updated", cat("the reply tells of [", got, "] instead of [", wanted, "]"));
  }
  void frame_update()
  {
    ++frame;
    heard.clear();
    api::UpdateFrameRequest q;
    q.set_current_simulation_time(frame * 0.5), q.set_current_scenario_time(frame * 0.5 + 1), q.mutable_current_ros_time()->set_sec(frame), q.mutable_current_ros_time()->set_nanosec(500000000);
    bool thrown; std::string text;
    const auto r = ask([&] { return door->call(q); }, thrown, text);
    if (not initialized) {
      if (thrown or r.result().success() or not heard.empty()) bad("early frame", "a frame before the initialization is not refused");
      return;
    }
    bool refuse = false;
    for (char c : sensors) if (c == 'D' or c == 'L' or c == 'N') refuse |= not things.count("ego"); else if (c == 'd') refuse |= not things.count("other");
    if (refuse) { if (not thrown) bad("no ego", "a frame with a sensor whose entity is not there succeeds"); over = true; return; }
    if (thrown) return bad("frame", cat("a frame throws ", text));
    success(r.result().success(), true, "a frame");
    scenario_time = frame * 0.5 + 1;
    std::map<std::string, std::vector<std::string>> want;
    auto of = [&](const std::string & e) { std::vector<std::string> v; for (auto & [n, t] : things) if (n != e) v.push_back(object_text(t)); return cat(stamp_text(frame), " map ", join(v)); };
    for (char c : sensors) {
      if (c == 'D' or c == 'd') for (auto t : {"detection", "ground_truth"}) want[cat("/perception/object_recognition/", t, "/objects")].push_back(of(c == 'D' ? "ego" : "other"));
      if (c == 'L') want["/perception/obstacle_segmentation/pointcloud"].push_back(stamp_text(frame) + " base_link");
      if (c == 'B' and things.count("ego")) { auto & t = things["ego"]; want["/sensing/imu/imu_data"].push_back(cat(stamp_text(frame), " imu ", pose_text({0, 0, t.pose.yaw}), " a", num(t.az))); }
      if (c == 'N') want["/perception/occupancy_grid_map/map"].push_back(stamp_text(frame) + " 4x6=24");
      if (c == 'H') { std::vector<std::string> v; for (int i : lights) v.push_back(cat(i + 100, "*1")); want["/perception/traffic_light_recognition/internal/traffic_signals"].push_back(cat(stamp_text(frame), " ", join(v))); }
    }
    for (auto & [t, v] : want) {
      auto a = join(heard[t]), b = join(v);
      if (a != b) return bad("published", cat("on ", t, " is published [", a, "] instead of [", b, "]"));
    }
    for (auto & [t, v] : heard) if (not v.empty() and not want.count(t)) return bad("published", cat("on ", t, " is published [", join(v), "] without a sensor"));
  }
  void op(char c)
  {
    trace += c;
    if (std::string("EXCWMKPJ").find(c) != std::string::npos) spawn(c);
    else if (std::string("ecwmxnkpj").find(c) != std::string::npos) despawn(c == 'e' ? "ego" : c == 'c' ? "car" : c == 'w' ? "walker" : c == 'm' ? "cone" : c == 'x' ? "other" : c == 'k' ? "truck" : c == 'p' ? "child" : c == 'j' ? "box" : "nobody");
    else if (std::string("SOARVU").find(c) != std::string::npos) update(c);
    else if (std::string("DdLBNHQq").find(c) != std::string::npos) sensor(c);
    else if (c == 'F') frame_update();
    else if (c == 'I') {
      api::InitializeRequest q;
      step = 0.0625 * ++scenarios, scenario_time = NAN, initialized = true;
      q.set_realtime_factor(1), q.set_step_time(step), q.set_initialize_time(0), q.set_lanelet2_map_path(cat("map", scenarios));
      bool thrown; std::string text;
      const auto r = ask([&] { return door->call(q); }, thrown, text);
      if (thrown) return bad("initialize", text);
      success(r.result().success(), true, "initializing");
      if (traffic_simulator::lanelet_map::activated() != cat("map", scenarios)) bad("map", "another map is used");
      things.clear(), ego.clear(), sensors.clear(), lights.clear(), frame = 0;
    } else if (c == 'T') {
      api::UpdateStepTimeRequest q;
      q.set_simulation_step_time(step = 0.03125);
      success(door->call(q).result().success(), true, "the step time");
    } else if (c == 'Z' or c == 'Y') {
      api::UpdateTrafficLightsRequest q;
      lights.clear();
      for (int i = 1; i <= (c == 'Z' ? 2 : 1); ++i) { auto & s = *q.add_states(); s.set_id(i), s.add_relation_ids(100 + i); auto & l = *s.add_traffic_light_status(); l.set_color(api::TrafficLight::GREEN), l.set_status(api::TrafficLight::SOLID_ON), l.set_confidence(1); lights.push_back(i); }
      success(door->call(q).result().success(), true, "the traffic lights");
    } else if (c == 'G') {
      auto & m = Ego::alive().at(0)->autoware->report.mode;
      manual = not manual, m = manual ? autoware_vehicle_msgs::msg::ControlModeReport::MANUAL : 1;
    }
    // the vehicle of the ego lives as long as the ego
    const auto n = Ego::alive().size();
    if (n != (ego.empty() ? 0 : 1)) return bad("vehicles", cat(n, " vehicles are simulated while there is ", ego.empty() ? "no ego" : "one ego"));
    if (not ego.empty()) {
      auto & e = *Ego::alive()[0];
      if (e.status.name != ego or e.vehicle_parameters.name != ego) bad("vehicle", cat("the vehicle of ", e.status.name, " is simulated for ", ego));
      if (e.step != ego_step) bad("vehicle step", cat("the vehicle steps by ", e.step));
      if (real_pose(e.status.pose) != pose_text(ego_sim.pose)) bad("vehicle pose", cat("the vehicle is at ", real_pose(e.status.pose), " instead of ", pose_text(ego_sim.pose)));
      if (e.calls != ego_calls) bad("vehicle calls", cat("the vehicle was asked to ", e.calls.empty() ? "nothing" : e.calls.back(), " instead of ", ego_calls.empty() ? "nothing" : ego_calls.back()));
      if (not over and (e.autoware->report.mode == autoware_vehicle_msgs::msg::ControlModeReport::MANUAL) != manual) bad("mode", cat("the mode is ", manual ? "not manual" : "manual"));
    }
  }
  std::string digest() const
  {
    std::string s = cat(initialized, step, ego, manual, ego_calls.size(), "/", frame, " ", lights.size(), " ");
    for (auto & [n, t] : things) s += cat(n, object_text(t), t.action, ";");
    for (char c : sensors) s += c;
    return s;
  }
};
void run(const std::string & prefix, const std::string & ops)
{
  World w(0xff);
  mc::current(prefix + ops);
  int n = 0;
  for (char c : prefix + ops) { if (w.over or not w.possible(c)) break; w.op(c), ++n; mc::state(w.digest()); }
  if (not w.over) w.op('F');
  if (not w.over and w.initialized and n == int(prefix.size() + ops.size())) w.op('F');
  mc::outcome(w.digest());
  mc::executed(n + 1);
}
void all(const std::string & prefix, const std::string & alphabet, int depth, std::string s = "")
{
  if (int(s.size()) == depth) { if (mc::mine()) run(prefix, s); return; }
  for (char c : alphabet) all(prefix, alphabet, depth, s + c);
}
// an identifier belongs to a name
void identifiers()
{
  if (not mc::mine()) return;
  World w(0);
  std::map<std::string, std::string> id;  // dimension text -> identifier
  for (char c : std::string("IECWMDFSFcFCFmSFIECWMDF")) {
    w.op(c);
    if (w.over) return;
    if (c != 'F') continue;
    for (auto & o : w.last.objects) {
      const auto who = cat(num(o.shape.dimensions.x), " ", num(o.shape.dimensions.y)), u = std::string(o.object_id.uuid.begin(), o.object_id.uuid.end());
      if (auto [i, fresh] = id.emplace(who, u); not fresh and i->second != u) w.bad("identifier", "an object changes its identifier");
      for (auto & [a, b] : id) if (a != who and b == u) w.bad("identifier", "two objects share an identifier");
    }
    mc::executed();
  }
}
}  // namespace
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "every sequence of requests up to the depth from each of several situations (a server just made, one just initialized, one with entities and sensors, one initialized again), of: initializing, spawning "
                    "and removing an ego, a second ego, a vehicle, a pedestrian and an object, updating and overwriting statuses, taking over the ego, changing the step, attaching each sensor, sending lights, and frames; after each the reply, the simulated vehicle and everything published";
    for (int p : {0, 0xff, 1}) for (auto s : {"F", "FF", "FIF", "IF", "F"}) { if (not mc::mine()) continue; World w(p); for (char c : std::string(s)) w.op(c); mc::executed(); }
    identifiers();
    const int d = mc::thorough() ? 4 : 3;
    const std::string ops = "IEXCWMecwmxnSOARVUGTDdLBNHQqZYF";
    all("I", ops, 4);
    all("IECD", ops, d);
    all("IECWMDLBNHZF", ops, d);
    all("IECDBHZFSFI", ops, d - 1);
    all("IXWdSOF", ops, d - 1);
    all("IEFSOSG", "SOARGTFeEI", d + 1);
    all("IECWM", "ecwmECWMXSF", d + 1);
    all("IECKWPMJD", "cwmkpjCKSF", d);
    all("IEJPKMWCD", "cwmkpjCKSF", d);
  });
}
