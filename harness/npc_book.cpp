// Which entities there are, and where, from spawning to despawning (C38).
#include "npc.hpp"
#include <malloc.h>
#include <traffic_simulator_msgs/msg/entity_status_with_trajectory_array.hpp>
namespace npc
{
using traffic_simulator::entity::EgoEntity;
using traffic_simulator::entity::MiscObjectEntity;
namespace
{
using Pose = geometry_msgs::msg::Pose;
using Array = traffic_simulator_msgs::msg::EntityStatusWithTrajectoryArray;
enum Kind { VEHICLE, WALKER, MISC, EGO };
const char * const NAMES[] = {"a", "b", "c", "e"};
constexpr unsigned char TYPES[] = {traffic_simulator_msgs::msg::EntityType::VEHICLE, traffic_simulator_msgs::msg::EntityType::PEDESTRIAN, traffic_simulator_msgs::msg::EntityType::MISC_OBJECT, traffic_simulator_msgs::msg::EntityType::EGO};
struct Range { double v0, v1, a0, a1, j0, j1; };
struct Item
{
  Kind kind;
  P3 at{};
  double yaw = 0;
  std::optional<std::pair<Id, double>> lane;
  double v = 0, a = 0, jerk = 0, still = 0, far = 0, time = 0, top = 50;
  bool asleep = false;   // driven by the plugin that does nothing
  std::optional<Range> range;
  bool alert = false;
};
Pose flat(double x, double y, double yaw = 0) { Pose p; p.position.x = x; p.position.y = y; p.orientation.z = std::sin(yaw / 2); p.orientation.w = std::cos(yaw / 2); return p; }
double heading(const Pose & p) { return std::atan2(2 * (p.orientation.w * p.orientation.z + p.orientation.x * p.orientation.y), 1 - 2 * (p.orientation.y * p.orientation.y + p.orientation.z * p.orientation.z)); }
struct World
{
  Net & road;
  Sim s;
  std::map<std::string, Item> items;
  bool started = false, dead = false;
  std::vector<std::string> log;
  std::vector<Array> heard;
  World(Net & n, double dt) : road(n), s(n, dt)
  {
    rclcpp::stub::Bus::hook() = [this](const std::string & topic, const std::any & m) { if (topic == "entity/status") heard.push_back(std::any_cast<Array>(m)); };
  }
  ~World() { rclcpp::stub::Bus::hook() = nullptr; }
  void say(const std::string & key, const std::string & what) { std::string t; for (auto & l : log) t += l + "\n"; mc::violation(key, what, t); dead = true; }
  // on which lane a place is
  std::optional<std::pair<Id, double>> lane(const P3 & p) const
  {
    for (auto & c : road.cells) {
      const auto b = road.begin(c.id);
      const double s = p[0] - b[0], o = p[1] - b[1];
      if (s > 0 && s < road.len(c.id) && std::abs(o) < W / 2) return std::pair(c.id, s);
    }
    return {};
  }
  void put(Item & i, double x, double y, double yaw) { i.at = {x, y, 0}; i.yaw = yaw; i.lane = lane(i.at); }
  EntityBase & entity(const std::string & n) { return s.em->getEntity(n); }
  void check(const std::string & when)
  {
    auto & em = *s.em;
    std::set<std::string> names;
    for (auto & [n, i] : items) names.insert(n);
    const auto got = em.getEntityNames();
    if (std::set<std::string>(got.begin(), got.end()) != names || got.size() != names.size()) { say("names " + when, cat(got.size(), " entities instead of ", names.size())); return; }
    std::size_t egos = 0;
    for (std::string n : {"a", "b", "c", "e", "nobody", ""}) {
      const bool there = names.count(n);
      bool thrown = false, ego = false;
      try { em.getEntity(n); } catch (const common::SemanticError &) { thrown = true; }
      try { em.getEgoEntity(n); ego = true; } catch (const common::SemanticError &) {}
      if (em.isEntityExist(n) != there || thrown == there || bool(em.getEntityPointer(n)) != there) { say("existence " + when, cat(n, there ? " is there" : " is not there")); return; }
      const bool isEgo = there && items.at(n).kind == EGO;
      egos += isEgo;
      if (ego != isEgo) { say("ego " + when, n); return; }
    }
    if (em.getNumberOfEgo() != egos || em.isAnyEgoSpawned() != (egos > 0) || em.getFirstEgoName() != (egos ? std::optional<std::string>("e") : std::nullopt)) { say("egos " + when, cat(em.getNumberOfEgo(), " instead of ", egos)); return; }
    if (em.isNpcLogicStarted() != started) { say("started " + when, ""); return; }
    const auto distances = em.calculateEuclideanDistances();
    std::size_t pairs = 0;
    for (auto & [n, i] : items) {
      const auto & e = entity(n);
      const auto & p = e.getMapPose();
      const auto here = [&](const std::string & what, auto w, auto g) { say(what + " " + when, cat(n, ": ", g, " instead of ", w)); };
      if (e.getName() != n || e.getCanonicalizedStatus().getName() != n) return here("name", n, e.getName());
      if (e.getEntityType().type != TYPES[i.kind]) return here("type", int(TYPES[i.kind]), int(e.getEntityType().type));
      if (std::hypot(p.position.x - i.at[0], p.position.y - i.at[1]) > 1e-3 || std::abs(p.position.z - i.at[2]) > 1e-3) return here("place", cat(i.at[0], ",", i.at[1]), cat(p.position.x, ",", p.position.y));
      if (std::abs(std::remainder(heading(p) - i.yaw, 2 * M_PI)) > 1e-3) return here("heading", i.yaw, heading(p));
      const auto l = e.getCanonicalizedLaneletPose();
      if (l.has_value() != i.lane.has_value() || e.isInLanelet() != i.lane.has_value()) return here("on a lane", i.lane ? cat(i.lane->first) : std::string("none"), l ? cat(l->getLaneletId()) : std::string("none"));
      if (l && (l->getLaneletId() != i.lane->first || std::abs(static_cast<LP>(*l).s - i.lane->second) > 1e-2)) return here("place on the lane", cat(i.lane->first, ":", i.lane->second), cat(l->getLaneletId(), ":", static_cast<LP>(*l).s));
      for (auto & c : road.cells) if (e.isInLanelet(c.id, 0.0) != (i.lane && i.lane->first == c.id)) return here("in lanelet", c.id, "the contrary");
      if (!close(e.getCurrentTwist().linear.x, i.v, 1e-9) || !close(e.getCurrentAccel().linear.x, i.a, 1e-9)) return here("speed", i.v, e.getCurrentTwist().linear.x);
      if (!close(e.getLinearJerk(), i.jerk, 1e-9)) return here("jerk", i.jerk, e.getLinearJerk());
      if (e.isStopped() != (std::abs(i.v) < 1e-12)) return here("stopped", i.v, e.isStopped());
      if (!close(e.getStandStillDuration(), i.still, 1e-9)) return here(cat("standing still of ", NAMES[i.kind], i.lane ? " on a lane" : ""), i.still, e.getStandStillDuration());
      if (!close(e.getTraveledDistance(), i.far, 1e-9)) return here("distance travelled", i.far, e.getTraveledDistance());
      if (i.kind != MISC && e.getBehaviorParameter().dynamic_constraints.max_speed != i.top) return here("behaviour parameter", i.top, e.getBehaviorParameter().dynamic_constraints.max_speed);
      for (double t : {0.5, 30.0}) for (auto & [m, j] : items) {
        const double d = std::hypot(i.at[0] - j.at[0], i.at[1] - j.at[1]);
        if (std::abs(d - t) > 1e-3 && e.isNearbyPosition(entity(m).getMapPose(), t) != (d < t)) return here("near", cat(m, " ", d, " away, within ", t), "the contrary");
      }
      for (auto & [m, j] : items) if (n < m) {
        ++pairs;
        const auto f = distances->find({n, m});
        if (f == distances->end() || std::abs(f->second - std::hypot(i.at[0] - j.at[0], i.at[1] - j.at[1])) > 2e-3) { say("distance of a pair " + when, cat(n, " and ", m)); return; }
      }
    }
    if (distances->size() != pairs) { say("pairs " + when, cat(distances->size(), " instead of ", pairs)); return; }
  }
  void frame()
  {
    heard.clear();
    std::map<std::string, Item> before = items;
    std::optional<std::string> alarm;
    try { s.frame(); } catch (const common::SpecificationViolation &) { alarm = ""; }
    if (alarm) {
      bool due = false;
      for (auto & [n, i] : items) if (i.range) {
        const auto & e = entity(n);
        const double v = e.getCurrentTwist().linear.x, a = e.getCurrentAccel().linear.x, j = e.getLinearJerk();
        due = due || v < i.range->v0 - 0.01 || v > i.range->v1 + 0.01 || a < i.range->a0 - 0.01 || a > i.range->a1 + 0.01 || j < i.range->j0 - 0.01 || j > i.range->j1 + 0.01;
      }
      if (!due) say("alarm within the range", "");
      dead = true;   // (the simulation ends here)
      return;
    }
    for (auto & [n, i] : items) {
      const auto & e = entity(n);
      if (started) {
        const double w = e.getCurrentTwist().linear.x, a = e.getCurrentAccel().linear.x;
        const auto p = e.getMapPose();
        const double moved = std::hypot(p.position.x - i.at[0], p.position.y - i.at[1]);
        const double most = i.asleep || i.kind == MISC ? 0 : std::max(std::abs(i.v), std::abs(w)) * s.dt;
        if (moved > most + 1e-3) { say(cat("jumps ", NAMES[i.kind]), cat(n, " moved by ", moved, " instead of at most ", most)); return; }
        if (i.kind == MISC && (w || a)) { say("moving thing", n); return; }
        i.v = w; i.a = a; i.jerk = e.getLinearJerk();
        put(i, p.position.x, p.position.y, heading(p));
        if (i.lane && i.lane->second > road.len(i.lane->first) - 0.005) i.lane = std::pair(e.getCanonicalizedLaneletPose()->getLaneletId(), static_cast<LP>(*e.getCanonicalizedLaneletPose()).s);
        if (!i.lane && e.isInLanelet() && p.position.x > 120.9) i.lane = std::pair(e.getCanonicalizedLaneletPose()->getLaneletId(), static_cast<LP>(*e.getCanonicalizedLaneletPose()).s);
        i.still = std::abs(w) < 1e-12 ? i.still + s.dt : 0;
        i.far += std::abs(w) * s.dt;
        if (auto & r = i.range) if (w < r->v0 - 0.011 || w > r->v1 + 0.011 || a < r->a0 - 0.011 || a > r->a1 + 0.011 || i.jerk < r->j0 - 0.011 || i.jerk > r->j1 + 0.011) { say("no alarm out of the range", cat(n, " at speed ", w, " and acceleration ", a)); return; }
      }
    }
    if (heard.size() != 1) { say("published", cat(heard.size(), " times")); return; }
    std::set<std::string> names;
    for (auto & d : heard[0].data) {
      if (!items.count(d.name) || !names.insert(d.name).second || d.status.name != d.name) { say("published names", d.name); return; }
      const auto & i = items.at(d.name);
      if (std::abs(d.time - s.now) > 1e-9 || std::abs(d.status.time - s.now) > 1e-9) { say("published time", cat(d.time, " instead of ", s.now)); return; }
      if (!started && (!d.waypoint.waypoints.empty() || d.obstacle_find)) { say("waypoints before the start", d.name); return; }
      if (std::hypot(d.status.pose.position.x - i.at[0], d.status.pose.position.y - i.at[1]) > 1e-3 || !close(d.status.action_status.twist.linear.x, i.v, 1e-9) || d.status.lanelet_pose_valid != i.lane.has_value() || d.status.type.type != TYPES[i.kind]) { say("published status", d.name); return; }
    }
    if (names.size() != items.size()) { say("published entities", cat(names.size(), " instead of ", items.size())); return; }
  }
  bool refused(const std::function<void()> & f) { try { f(); } catch (const common::SemanticError &) { return true; } return false; }
};
struct Op { std::string name; std::function<void(World &)> run; };
traffic_simulator_msgs::msg::VehicleParameters vehicle()
{
  traffic_simulator_msgs::msg::VehicleParameters v;
  v.name = "car";
  v.bounding_box.dimensions.x = 4; v.bounding_box.dimensions.y = 1.8; v.bounding_box.dimensions.z = 1.5; v.bounding_box.center.x = 1;
  v.axles.front_axle.track_width = v.axles.rear_axle.track_width = 1.6;
  v.performance.max_speed = 30;
  return v;
}
traffic_simulator_msgs::msg::PedestrianParameters walker() { traffic_simulator_msgs::msg::PedestrianParameters p; p.name = "walker"; p.bounding_box.dimensions.x = p.bounding_box.dimensions.y = 0.8; p.bounding_box.dimensions.z = 1.8; return p; }
traffic_simulator_msgs::msg::MiscObjectParameters thing() { traffic_simulator_msgs::msg::MiscObjectParameters p; p.name = "thing"; p.bounding_box.dimensions.x = p.bounding_box.dimensions.y = p.bounding_box.dimensions.z = 1; return p; }
std::vector<Op> operations(const Net & road)
{
  const Id l0 = road.cells[0].id, l1 = road.cells[1].id;
  const P3 b0 = road.begin(l0), b1 = road.begin(l1);
  std::vector<Op> r;
  const auto spawn = [&](std::string what, std::string n, Kind k, std::optional<LP> lane, Pose map) {
    r.push_back({what, [=](World & w) {
      const bool no = w.items.count(n) || (k == EGO && w.items.count("e"));
      const bool was = w.refused([&] {
        auto & em = *w.s.em;
        const auto now = w.s.now;
        const auto at = [&](auto p) {
          if (k == VEHICLE) em.spawnEntity<VehicleEntity>(n, p, vehicle(), now);
          else if (k == WALKER) em.spawnEntity<PedestrianEntity>(n, p, walker(), now);
          else if (k == MISC) em.spawnEntity<MiscObjectEntity>(n, p, thing(), now);
          else em.spawnEntity<EgoEntity>(n, p, vehicle(), now);
        };
        if (lane) at(ts::CanonicalizedLaneletPose(*lane)); else at(map);
      });
      if (was != no) { w.say(cat("spawn ", NAMES[k]), no ? "a second entity with the name" : "refused"); return; }
      if (no) return;
      Item i{k};
      const auto p = lane ? w.road.point(lane->lanelet_id, lane->s, lane->offset) : P3{map.position.x, map.position.y, 0};
      w.put(i, p[0], p[1], lane ? w.road.yaw(lane->lanelet_id) : heading(map));
      i.time = w.s.now;
      i.top = k == WALKER ? traffic_simulator_msgs::msg::BehaviorParameter().dynamic_constraints.max_speed : 30;
      w.items[n] = i;
      if (w.entity(n).getCanonicalizedStatus().getTime() != w.s.now) w.say("time when spawned", n);
    }});
  };
  spawn("spawn the vehicle a on a lane", "a", VEHICLE, pose(l0, 20), {});
  spawn("spawn the vehicle a on the map", "a", VEHICLE, {}, flat(b0[0] + 32, b0[1] + 0.25, 0));
  spawn("spawn the pedestrian b beside the road", "b", WALKER, {}, flat(40, b0[1] - 20, 1));
  spawn("spawn the pedestrian b on the road", "b", WALKER, pose(l1, 35), {});
  spawn("spawn the thing c", "c", MISC, {}, flat(b1[0] + 50, b1[1], 0.5));
  spawn("spawn the thing a", "a", MISC, {}, flat(b1[0] + 10, b1[1], 0.5));
  spawn("spawn the ego e", "e", EGO, pose(l1, 5), {});
  for (std::string n : {"a", "b", "c", "e"})
    r.push_back({"despawn " + n, [=](World & w) {
      const bool there = w.items.erase(n);
      if (w.s.em->despawnEntity(n) != there) w.say("despawn", n);
    }});
  r.push_back({"start", [](World & w) {
    w.s.em->startNpcLogic(w.s.now);
    w.started = true;
    for (auto & [n, i] : w.items) if (w.entity(n).getCanonicalizedStatus().getTime() != w.s.now) w.say("time at the start", n);
  }});
  for (int k : {1, 10}) r.push_back({cat(k, " frames"), [=](World & w) { for (int i = 0; i < k && !w.dead; ++i) w.frame(); }});
  for (std::string n : {"a", "b", "c", "e"}) for (bool sleep : {true, false}) {
    if (!sleep && n != "a" && n != "b") continue;
    r.push_back({cat("plugin of ", n, sleep ? ": nothing" : ": behaviour tree"), [=](World & w) {
      const auto i = w.items.find(n);
      const bool no = i == w.items.end() || i->second.kind == MISC || i->second.kind == EGO;
      const bool walks = !no && i->second.kind == WALKER;
      if (w.refused([&] { w.s.em->resetBehaviorPlugin(n, sleep ? VehicleEntity::BuiltinBehavior::doNothing() : walks ? PedestrianEntity::BuiltinBehavior::behaviorTree() : VehicleEntity::BuiltinBehavior::behaviorTree()); }) != no) { w.say("reset of the plugin", no ? "not refused" : "refused"); return; }
      if (no) return;
      auto & e = w.entity(n);
      i->second.asleep = sleep;
      i->second.range.reset();
      // (what it has travelled and stood so far may start anew)
      if (e.getStandStillDuration() != 0 || e.getTraveledDistance() != 0) {} else i->second.still = i->second.far = 0;
      if (!walks && (dynamic_cast<VehicleEntity &>(e).getParameters().name != "car" || dynamic_cast<VehicleEntity &>(e).getParameters().performance.max_speed != 30)) w.say("parameters after the reset", n);
      if (walks && dynamic_cast<PedestrianEntity &>(e).getParameters().name != "walker") w.say("parameters after the reset", n);
    }});
  }
  const auto move = [&](std::string what, std::string n, std::function<void(EntityBase &)> f, P3 p, double yaw) {
    r.push_back({what, [=](World & w) {
      const auto i = w.items.find(n);
      if (i == w.items.end()) return;
      f(w.entity(n));
      w.put(i->second, p[0], p[1], yaw);
      i->second.v = i->second.a = i->second.jerk = 0;
    }});
  };
  move("a to the other lane by lane", "a", [=](EntityBase & e) { e.setStatus(pose(l1, 25)); }, road.point(l1, 25, 0), road.yaw(l1));
  move("a near the end", "a", [=](EntityBase & e) { e.setStatus(pose(road.cells[2].id, 60.3)); }, road.point(road.cells[2].id, 60.3, 0), 0);
  move("a to the other lane on the map", "a", [=](EntityBase & e) { e.setStatus(flat(b1[0] + 44, b1[1] - 0.25)); }, {b1[0] + 44, b1[1] - 0.25, 0}, 0);
  move("a off the road", "a", [=](EntityBase & e) { e.setStatus(flat(50, b0[1] + 30, 2)); }, {50, b0[1] + 30, 0}, 2);
  move("a five metres ahead of somewhere", "a", [=](EntityBase & e) { e.setStatus(flat(b0[0] + 10, b0[1]), flat(5, 0)); }, {b0[0] + 15, b0[1], 0}, 0);
  move("b on the map", "b", [=](EntityBase & e) { e.setStatus(flat(b0[0] + 44, b0[1] - 20, 0.5)); }, {b0[0] + 44, b0[1] - 20, 0}, 0.5);
  r.push_back({"speed of a", [](World & w) { if (auto i = w.items.find("a"); i != w.items.end() && i->second.kind == VEHICLE) { w.entity("a").setLinearVelocity(i->second.v = 4); w.entity("a").setLinearAcceleration(i->second.a = 0.5); w.entity("a").setLinearJerk(i->second.jerk = 0.25); } }});
  r.push_back({"parameter of a", [](World & w) { if (auto i = w.items.find("a"); i != w.items.end() && i->second.kind == VEHICLE) { auto p = w.entity("a").getBehaviorParameter(); p.dynamic_constraints.max_speed = i->second.top = 9; w.entity("a").setBehaviorParameter(p); } }});
  r.push_back({"range of a", [](World & w) { if (auto i = w.items.find("a"); i != w.items.end() && i->second.kind == VEHICLE) { i->second.range = Range{-1, 4.2, -0.5, 11, -1e9, 1e9}; w.entity("a").activateOutOfRangeJob(-1, 4.2, -0.5, 11, -1e9, 1e9); } }});
  return r;
}
Net & field() { static Net n = [] { auto r = grid({60.5, 60.5}, {3, 3}, 0, false); for (auto & c : r.cells) c.speed = 50; return r; }(); return n; }
std::size_t history(const std::vector<Op> & ops, const std::vector<std::size_t> & h)
{
  mc::current(cat("history ", h.size()));
  World w(field(), 0.1);
  std::size_t k = 0;
  for (; k < h.size() && !w.dead; ++k) {
    w.log.push_back(ops[h[k]].name);
    try {
      ops[h[k]].run(w);
      if (!w.dead) w.check("after " + ops[h[k]].name.substr(0, 7));
    } catch (const std::exception & e) {
      w.say(cat("exception ", ops[h[k]].name.substr(0, 7), std::string(e.what()).substr(0, 50)), e.what());
    }
  }
  mc::executed(k);
  std::string r;
  for (auto & [n, i] : w.items) r += cat(n, i.kind, i.at[0], ",", i.at[1], ",", i.v, ",", i.still, ",", i.asleep, i.range.has_value(), i.top, ";");
  mc::state(cat(r, w.started, w.s.now));
  mc::outcome(r);
  return k;
}
// the same entities, called otherwise and spawned in another order
void orders()
{
  struct Body { Kind kind; Id lane; double s, offset, v; };
  static Net n = [] { auto r = grid({200.5}, {7}, 0, false); for (auto & c : r.cells) c.speed = 50; return r; }();
  const Id a = n.cells[0].id, b = n.cells[1].id;
  const std::vector<std::vector<Body>> scenes{
    {{VEHICLE, a, 20, 0, 8}, {VEHICLE, a, 32, 0, 3}, {VEHICLE, a, 45, 0, 6}, {MISC, a, 80, 0, 0}},
    {{VEHICLE, a, 20, 0, 8}, {VEHICLE, b, 26, 0, 8}, {VEHICLE, b, 45, 0, 2}, {WALKER, a, 60, 0.5, 0}},
    {{VEHICLE, b, 20, 0, 4}, {WALKER, b, 30, -1, 1}, {WALKER, b, 40, 1, 1}, {EGO, a, 10, 0, 5}}};
  std::vector<std::vector<std::string>> names{{"a", "b", "c", "d"}, {"d", "c", "b", "a"}, {"npc1", "Ego", "zz", "0"}, {"x", "x1", "x2", "x3"}};
  for (std::size_t k = 0; k < scenes.size(); ++k) {
    if (!mc::mine()) continue;
    std::vector<std::vector<std::array<double, 4>>> first;
    std::string how;
    for (auto & name : names) {
      std::vector<int> order{0, 1, 2, 3};
      do {
        for (int call = 0; call < (mc::thorough() ? 24 : 4); ++call) {
          std::vector<int> as{0, 1, 2, 3};
          for (int j = 0; j < call * (mc::thorough() ? 1 : 7); ++j) std::next_permutation(as.begin(), as.end());
          Sim s(n, 0.1);
          for (int j : order) {
            const auto & body = scenes[k][j];
            auto p = pose(body.lane, body.s, body.offset);
            const ts::CanonicalizedLaneletPose at(p);
            const auto & called = name[as[j]];
            if (body.kind == VEHICLE) s.em->spawnEntity<VehicleEntity>(called, at, vehicle(), 0);
            if (body.kind == EGO) s.em->spawnEntity<EgoEntity>(called, at, vehicle(), 0);
            if (body.kind == WALKER) s.em->spawnEntity<PedestrianEntity>(called, at, walker(), 0);
            if (body.kind == MISC) s.em->spawnEntity<MiscObjectEntity>(called, at, thing(), 0);
            if (body.v) s.em->getEntity(called).setLinearVelocity(body.v);
          }
          s.em->startNpcLogic(0);
          std::vector<std::vector<std::array<double, 4>>> path;
          std::string now = cat("spawned in the order");
          for (int j : order) now += cat(" ", name[as[j]], "=body", j);
          try {
            for (int f = 0; f < 40; ++f) {
              if (f == 1 && scenes[k][1].kind == VEHICLE) s.em->getEntity(name[as[1]]).requestSpeedChange(ts::speed_change::RelativeTargetSpeed(name[as[2]], ts::speed_change::RelativeTargetSpeed::Type::DELTA, 1), true);
              s.frame();
              path.emplace_back();
              for (int j = 0; j < 4; ++j) { auto & e = s.em->getEntity(name[as[j]]); path.back().push_back({e.getMapPose().position.x, e.getMapPose().position.y, e.getCurrentTwist().linear.x, e.getCurrentAccel().linear.x}); }
            }
          } catch (const std::exception & e) { mc::violation(cat("exception in scene ", k), e.what(), now); return; }
          mc::executed(40);
          mc::state(cat(k, now));
          mc::outcome(cat(k, path.back()[0][0], ",", path.back()[1][0]));
          if (first.empty()) { first = path; how = now; continue; }
          for (std::size_t f = 0; f < path.size(); ++f) for (int j = 0; j < 4; ++j) for (int q = 0; q < 4; ++q)
            if (std::abs(path[f][j][q] - first[f][j][q]) > 1e-9) { mc::violation(cat("the order makes a difference in scene ", k), cat("frame ", f, ", body ", j, ", value ", q, ": ", path[f][j][q], " instead of ", first[f][j][q]), now + "\n" + how); return; }
        }
      } while (std::next_permutation(order.begin(), order.end()));
    }
  }
}
// of the maps in a directory the first by name is the one
void directories()
{
  const std::vector<std::string> names{"b.osm", "a.osm", "ab.osm", "B.osm", "10.osm", "9.osm", "p.pcd", "o.pcd", "a.txt", "osm"};
  enter(field());
  for (int set = 0; set < 1 << names.size(); ++set) for (int turn = 0; turn < 3; ++turn) {
    if (!mc::mine()) continue;
    const auto dir = scratch().path / "maps";
    std::filesystem::create_directories(dir);
    std::vector<std::string> files;
    for (std::size_t i = 0; i < names.size(); ++i) if (set >> i & 1) files.push_back(names[i]);
    if (turn == 1) std::reverse(files.begin(), files.end());
    if (turn == 2) std::sort(files.begin(), files.end());
    std::string osm, pcd, all;
    for (auto & f : files) {
      std::ofstream(dir / f);
      all += f + " ";
      const auto e = std::filesystem::path(f).extension();
      auto * best = e == ".osm" ? &osm : e == ".pcd" ? &pcd : nullptr;
      if (best && (best->empty() || f < *best)) *best = f;
    }
    std::optional<std::pair<std::string, std::string>> got;
    try { ts::Configuration c(dir, ""); got = {c.getLanelet2MapFile(), c.getPointCloudMapFile()}; } catch (const common::SimulationError &) {}
    std::filesystem::remove_all(dir);
    mc::executed();
    mc::state(cat(all, turn));
    mc::outcome(got ? got->first + got->second : "none");
    if (got.has_value() != (!osm.empty() && !pcd.empty())) mc::violation("maps", got ? "a map where none is" : "no map", all);
    else if (got && (got->first != osm || got->second != pcd)) mc::violation("first map", cat(got->first, " ", got->second, " instead of ", osm, " ", pcd), all);
  }
}
}  // namespace
void book()
{
  mallopt(M_PERTURB, 165);
  mc::st().rule = "all sequences of what can be done with entities";
  const auto ops = operations(field());
  const std::size_t depth = 4;
  std::vector<std::size_t> h(depth, 0);
  // every sequence: those that begin with the same operations are one task
  for (;;) {
    if (mc::mine()) history(ops, h);
    std::size_t k = depth;
    while (k && ++h[k - 1] == ops.size()) h[--k] = 0;
    if (!k) break;
  }
  // longer ones of fewer operations, around the start
  const auto index = [&](const std::string & n) { for (std::size_t i = 0; i < ops.size(); ++i) if (ops[i].name == n) return i; throw std::out_of_range(n); };
  for (auto & first : {"spawn the vehicle a on a lane", "spawn the vehicle a on the map", "spawn the thing a", "spawn the pedestrian b on the road", "spawn the pedestrian b beside the road", "spawn the ego e"})
    for (auto & second : {"start", "speed of a", "a near the end", "plugin of a: nothing"})
      for (std::size_t x = 0; x < ops.size(); ++x) for (std::size_t y = 0; y < ops.size(); ++y) for (std::size_t z = 0; z < (mc::thorough() ? ops.size() : 1); ++z) {
        if (!mc::mine()) continue;
        std::vector<std::size_t> v{index(first), index(second), index("start"), index("10 frames"), x, index("10 frames"), y, index("10 frames")};
        if (mc::thorough()) { v.push_back(z); v.push_back(index("10 frames")); }
        history(ops, v);
      }
  orders();
  directories();
}
}  // namespace npc
