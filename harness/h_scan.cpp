// What the lidar hits and the occupancy grid shows (C32).
#include <rclcpp/rclcpp.hpp>
#include <simple_sensor_simulator/sensor_simulation/sensor_simulation.hpp>
#include <simple_sensor_simulator/exception.hpp>
#include <array>
#include <cmath>
#include <cstring>
#include <optional>
#include "mc.hpp"
namespace
{
using mc::cat;
namespace stub = rclcpp::stub;
using Cloud = sensor_msgs::msg::PointCloud2;
using Grid = nav_msgs::msg::OccupancyGrid;
using Detected = autoware_perception_msgs::msg::DetectedObjects;
using Status = traffic_simulator_msgs::EntityStatus;
using Type = traffic_simulator_msgs::EntityType;
using Subtype = traffic_simulator_msgs::EntitySubtype;
const std::string L = "/perception/obstacle_segmentation/pointcloud", G = "/perception/occupancy_grid_map/map", D = "/perception/object_recognition/detection/objects";

using V3 = std::array<double, 3>;
using Q = std::array<double, 4>;  // w x y z
Q mul(const Q & a, const Q & b) { return {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2], a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]}; }
Q rpy(double r, double p, double y) { auto ax = [](double a, int i) { Q q{std::cos(a / 2), 0, 0, 0}; q[i] = std::sin(a / 2); return q; }; return mul(mul(ax(y, 3), ax(p, 2)), ax(r, 1)); }
Q inverse(const Q & q) { return {q[0], -q[1], -q[2], -q[3]}; }
V3 rotate(const Q & q, const V3 & v) { const auto r = mul(mul(q, {0, v[0], v[1], v[2]}), inverse(q)); return {r[1], r[2], r[3]}; }
V3 operator+(const V3 & a, const V3 & b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
V3 operator-(const V3 & a, const V3 & b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
V3 operator*(double k, const V3 & a) { return {k * a[0], k * a[1], k * a[2]}; }
double norm(const V3 & a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }

struct Thing
{
  std::string name;
  V3 at{0, 0, 0};
  Q q{1, 0, 0, 0};
  V3 center{0, 0, 0}, size{1, 1, 1};
  Type::Enum type = Type::VEHICLE;
  Subtype::Enum subtype = Subtype::CAR;
};
Status status(const Thing & t)
{
  Status s;
  s.set_name(t.name), s.mutable_type()->set_type(t.type), s.mutable_subtype()->set_value(t.subtype);
  auto & p = *s.mutable_pose();
  p.mutable_position()->set_x(t.at[0]), p.mutable_position()->set_y(t.at[1]), p.mutable_position()->set_z(t.at[2]);
  p.mutable_orientation()->set_w(t.q[0]), p.mutable_orientation()->set_x(t.q[1]), p.mutable_orientation()->set_y(t.q[2]), p.mutable_orientation()->set_z(t.q[3]);
  auto & b = *s.mutable_bounding_box();
  b.mutable_center()->set_x(t.center[0]), b.mutable_center()->set_y(t.center[1]), b.mutable_center()->set_z(t.center[2]);
  b.mutable_dimensions()->set_x(t.size[0]), b.mutable_dimensions()->set_y(t.size[1]), b.mutable_dimensions()->set_z(t.size[2]);
  return s;
}
Thing ego(V3 at = {0, 0, 0}, Q q = {1, 0, 0, 0}) { Thing t; t.name = "ego", t.type = Type::EGO, t.at = at, t.q = q, t.center = {1.5, 0, 1}, t.size = {4, 2, 2}; return t; }
template <class V> void set(const std::string & n, V v) { if constexpr (std::is_same_v<V, int>) stub::overrides()[n] = std::int64_t(v); else if constexpr (std::is_convertible_v<V, std::string>) stub::overrides()[n] = std::string(v); else stub::overrides()[n] = v; }

struct Scan { std::vector<V3> points; int stamp = -1; };
struct Map { std::vector<int> cells; int width = 0, height = 0, stamp = -1; double resolution = 0; V3 origin{0, 0, 0}; Q q{0, 0, 0, 0}; bool frame = false; };
struct World
{
  simple_sensor_simulator::SensorSimulation sim;
  std::shared_ptr<rclcpp::Node> node = std::make_shared<rclcpp::Node>("n");
  std::vector<Scan> scans;
  std::vector<Map> maps;
  std::optional<int> detected;
  void lidar(double t, double resolution, const std::vector<double> & vertical, double duration = 0, double delay = 0, const std::string & who = "ego")
  {
    simulation_api_schema::LidarConfiguration c;
    c.set_entity(who), c.set_horizontal_resolution(resolution), c.set_scan_duration(duration), c.set_lidar_sensor_delay(delay), c.set_architecture_type("awf/universe/20250130");
    for (auto v : vertical) c.add_vertical_angles(v);
    sim.attachLidarSensor(t, c, *node);
  }
  void grid(double t, double resolution, int width, int height, double range = 1000, bool filter = false, double duration = 0)
  {
    simulation_api_schema::OccupancyGridSensorConfiguration c;
    c.set_entity("ego"), c.set_resolution(resolution), c.set_width(width), c.set_height(height), c.set_range(range), c.set_filter_by_range(filter), c.set_update_duration(duration), c.set_architecture_type("awf/universe/20250130");
    sim.attachOccupancyGridSensor(t, c, *node);
  }
  void detection(double t)
  {
    simulation_api_schema::DetectionSensorConfiguration c;
    c.set_entity("ego"), c.set_range(1000), c.set_architecture_type("awf/universe/20250130");
    sim.attachDetectionSensor(t, c, *node);
  }
  void frame(double t, const std::vector<Thing> & things, int stamp = 0)
  {
    scans.clear(), maps.clear(), detected.reset();
    stub::Bus::hook() = [this](const std::string & topic, const std::any & a) {
      if (auto m = std::any_cast<Cloud>(&a); m and topic == L) {
        Scan s;
        s.stamp = m->header.frame_id == "base_link" and m->height <= 1 ? int(m->header.stamp.sec) : -2;
        for (std::size_t i = 0; i < m->width; ++i) { float f[3]; std::memcpy(f, m->data.data() + i * m->point_step, sizeof f); s.points.push_back({f[0], f[1], f[2]}); }
        scans.push_back(s);
      }
      if (auto m = std::any_cast<Grid>(&a); m and topic == G) {
        Map s;
        s.stamp = m->header.stamp.sec, s.frame = m->header.frame_id == "map", s.width = m->info.width, s.height = m->info.height, s.resolution = m->info.resolution;
        s.origin = {m->info.origin.position.x, m->info.origin.position.y, m->info.origin.position.z}, s.q = {m->info.origin.orientation.w, m->info.origin.orientation.x, m->info.origin.orientation.y, m->info.origin.orientation.z};
        for (auto c : m->data) s.cells.push_back(c);
        maps.push_back(s);
      }
      if (auto m = std::any_cast<Detected>(&a); m and topic == D) {
        detected = 0;  // sizes tell who: a bit for each
        for (auto & o : m->objects) *detected |= 1 << int(std::lround(o.shape.dimensions.z * 8) - 8);
      }
    };
    std::vector<Status> s;
    for (auto & x : things) s.push_back(status(x));
    try { sim.updateSensorFrame(t, rclcpp::Time(stamp, 0), s, {}); } catch (...) { stub::Bus::hook() = nullptr; throw; }
    stub::Bus::hook() = nullptr;
  }
};
void base()
{
  stub::overrides().clear();
  set(D + ".noise.model.version", 1), set(D + ".seed", 7), set(D + ".override_legacy_configuration", false), set("/perception/object_recognition/ground_truth/objects.override_legacy_configuration", false);
}

// ---------------------------------------------------------------------------------------------- rays
// first surface a ray meets: {entity, distance}, or nothing; `sure` is false where a hair decides
struct Hit { int who = -1; double distance = 1e300; bool sure = true; };
std::optional<double> meets(const Thing & t, const V3 & o, const V3 & d, double grow)
{
  const auto i = inverse(t.q);
  const V3 p = rotate(i, o - t.at) - t.center, v = rotate(i, d);
  double in = -1e300, out = 1e300;
  for (int k = 0; k < 3; ++k) {
    const double h = t.size[k] / 2 + grow;
    if (std::fabs(v[k]) < 1e-12) { if (std::fabs(p[k]) > h) return std::nullopt; continue; }
    double a = (-h - p[k]) / v[k], b = (h - p[k]) / v[k];
    if (a > b) std::swap(a, b);
    in = std::max(in, a), out = std::min(out, b);
  }
  if (in > out or out < 0) return std::nullopt;
  return in >= 0 ? in : out;  // from inside, the far side
}
Hit cast(const std::vector<Thing> & things, const V3 & o, const V3 & d)
{
  const double g = 2e-3;
  Hit h;
  std::vector<double> near;
  for (std::size_t i = 0; i < things.size(); ++i) {
    if (things[i].name == "ego") continue;
    const auto s = meets(things[i], o, d, -g), m = meets(things[i], o, d, 0), b = meets(things[i], o, d, g);
    if (bool(s) != bool(b) or (s and std::fabs(*s - *b) > 0.25)) h.sure = false;
    if (m and *m > 299.9 and *m < 300.1) h.sure = false;
    if (m and *m < 300) { near.push_back(*m); if (*m < h.distance) h.who = i, h.distance = *m; }
  }
  for (auto x : near) if (x != h.distance and x - h.distance < 0.02) h.sure = false;
  return h;
}
V3 direction(double h, double v) { return {std::cos(v) * std::cos(h), std::cos(v) * std::sin(h), -std::sin(v)}; }
struct Want { std::vector<std::pair<V3, V3>> must, may; int seen = 0, open = 0; int rays = 0; };  // points (and directions), who is hit surely and perhaps
template <class F> Want expect(const std::vector<Thing> & things, double resolution, const std::vector<double> & vertical, F && error)
{
  Want w;
  const auto e = std::find_if(things.begin(), things.end(), [](auto & t) { return t.name == "ego"; });
  for (int k = 0; (k - 1) * resolution <= 2 * M_PI + 1e-9; ++k) {
    const double h = k * resolution;
    const bool extra = k == 0 or h > 2 * M_PI + 1e-9;
    for (auto v : vertical) {
      const auto d = direction(h, v);
      const auto x = cast(things, e->at, rotate(e->q, d));
      ++w.rays;
      if (x.who < 0 and x.sure) continue;
      for (std::size_t i = 0; i < things.size(); ++i) if (int(i) != x.who and not x.sure) w.open |= 1 << i;
      if (x.who < 0) { w.may.push_back({{0, 0, 0}, d}); continue; }
      (x.sure and not extra ? w.seen : w.open) |= 1 << x.who;
      std::optional<V3> p = x.distance * d;
      p = error(x.who, *p);
      if (not p) { if (not x.sure) w.may.push_back({{0, 0, 0}, d}); continue; }
      if (not x.sure) w.may.push_back({{0, 0, 0}, d});
      else (extra ? w.may : w.must).push_back({*p, d});
    }
  }
  return w;
}
double off(const V3 & p, const std::pair<V3, V3> & want)
{
  if (norm(want.first) > 0) return norm(p - want.first) / std::max(1.0, norm(want.first));
  return norm(p) > 0 ? norm(1 / norm(p) * p - want.second) : 1;  // anything in that direction
}
std::string show(const V3 & p) { return cat("(", p[0], " ", p[1], " ", p[2], ")"); }
std::string judge(const Scan & s, const Want & w)
{
  for (auto & p : s.points) {
    bool ok = false;
    for (auto & x : w.must) ok |= off(p, x) < 2e-3;
    for (auto & x : w.may) ok |= off(p, x) < 2e-3;
    if (not ok) return cat("the point ", show(p), " is published, where nothing is hit");
  }
  for (auto & x : w.must) {
    bool ok = false;
    for (auto & p : s.points) ok |= off(p, x) < 2e-3;
    if (not ok) return cat("the point ", show(x.first), " is missing among ", s.points.size());
  }
  if (int(s.points.size()) > w.rays) return "there are more points than rays";
  return "";
}
std::optional<V3> no_error(int, V3 p) { return p; }

std::vector<Thing> catalogue()
{
  // heights tell them apart: 1, 1.125, ...
  std::vector<Thing> v;
  auto add = [&](V3 at, Q q, double x, double y, V3 center = {0, 0, 0}) { Thing t; t.name = cat("t", v.size()), t.at = at, t.q = q, t.size = {x, y, 1 + 0.125 * v.size()}, t.center = center; v.push_back(t); };
  add({10, 0, 0}, rpy(0, 0, 0), 2, 3);
  add({20, 1, 0}, rpy(0, 0, 0.5), 4, 8);       // partly behind the first
  add({-5, 5, 0.25}, rpy(0, 0, 2), 4, 1.5, {1, 0.5, 0.75});
  add({0, -6, 0}, rpy(0.2, -0.3, 1), 1, 1);
  add({3, 30, 0}, rpy(0, 0, -0.7), 10, 2, {3, 0, 0.5});
  add({0.25, 0.125, 0}, rpy(0, 0, 0.3), 3, 2);  // around the ego
  return v;
}
void rays()
{
  const auto all = catalogue();
  const std::vector<std::pair<V3, Q>> poses{{{0, 0, 0}, rpy(0, 0, 0)}, {{1, -0.5, 0.25}, rpy(0, 0, 1)}, {{-2, 1, 0}, rpy(0.1, 0.05, -2)}, {{0.5, 0, -0.25}, rpy(-0.05, 0.1, 3)}};
  const std::vector<double> resolutions{M_PI / 18, M_PI / 7, 0.35, M_PI / 2};
  const std::vector<std::vector<double>> verticals{{0}, {-0.1, 0.1}, {-0.2, -0.05, 0, 0.05, 0.2}};
  int k = 0;
  for (std::size_t p = 0; p < poses.size(); ++p) for (auto r : resolutions) for (std::size_t v = 0; v < verticals.size(); ++v) for (int a = 0; a < 64; ++a) {
    ++k;
    if (not mc::mine()) continue;
    const auto key = cat("rays ", k, ": pose ", p, " resolution ", r, " angles ", v, " scene ", a);
    mc::current(key);
    World w;
    w.lidar(0, r, verticals[v]), w.detection(0);
    // then one more or one fewer, and again
    const int scenes[]{a, a ^ (1 << (k % 6)), (a * 5 + k) % 64, a};
    for (int i = 0; i < (mc::thorough() ? 4 : 3); ++i) {
      std::vector<Thing> things;
      for (int j = 0; j < 6; ++j) if (scenes[i] >> j & 1) things.push_back(all[j]);
      const auto & pose = poses[(p + i) % poses.size()];
      things.insert(things.begin() + (k + i) % (things.size() + 1), ego(pose.first, pose.second));
      w.frame(0.125 * (i + 1), things, i + 1);
      if (w.scans.size() != 1) { mc::violation(key, cat("in frame ", i, " ", w.scans.size(), " clouds are published")); break; }
      if (w.scans[0].stamp != i + 1) { mc::violation(key, "the stamp or frame of the cloud is wrong"); break; }
      const auto want = expect(things, r, verticals[v], no_error);
      if (const auto e = judge(w.scans[0], want); not e.empty()) { mc::violation(key, cat("in frame ", i, " ", e)); break; }
      // who is hit is detected
      int must = 0, may = 0;
      for (std::size_t j = 0; j < things.size(); ++j) if (things[j].name != "ego") { const int b = 1 << (things[j].name[1] - '0'); if (want.seen >> j & 1) must |= b; if ((want.seen | want.open) >> j & 1) may |= b; }
      // what is far below is not (C31); nothing is here
      if (not w.detected or (must & ~*w.detected) or (*w.detected & ~may)) { mc::violation(key, cat("in frame ", i, " detected are ", w.detected ? *w.detected : -1, " instead of ", must, " (as bits)")); break; }
      mc::state(cat(key, i)), mc::outcome(cat(w.scans[0].points.size(), " ", must));
    }
    mc::executed(3);
  }
  // two lidars of an ego see together; a lidar whose ego is missing
  for (int a = 0; a < 64; ++a) for (int order = 0; order < 2; ++order) {
    if (not mc::mine()) continue;
    const auto key = cat("two lidars, scene ", a, " order ", order);
    mc::current(key);
    World w;
    const double r[]{M_PI / 2, M_PI / 18};
    w.lidar(0, r[order], {0}), w.lidar(0, r[1 - order], {-0.05, 0.05}), w.detection(0);
    std::vector<Thing> things{ego()};
    for (int j = 0; j < 6; ++j) if (a >> j & 1) things.push_back(all[j]);
    w.frame(1, things, 1);
    const auto w0 = expect(things, r[order], {0}, no_error), w1 = expect(things, r[1 - order], {-0.05, 0.05}, no_error);
    if (w.scans.size() != 2) { mc::violation(key, "not every lidar publishes"); continue; }
    for (auto & e : {judge(w.scans[0], w0), judge(w.scans[1], w1)}) if (not e.empty()) mc::violation(key, e);
    int must = 0, may = 0;
    for (std::size_t j = 1; j < things.size(); ++j) { const int b = 1 << (things[j].name[1] - '0'); if ((w0.seen | w1.seen) >> j & 1) must |= b; if ((w0.seen | w1.seen | w0.open | w1.open) >> j & 1) may |= b; }
    if (not w.detected or (must & ~*w.detected) or (*w.detected & ~may)) mc::violation(key, cat("detected are ", w.detected ? *w.detected : -1, " instead of ", must));
    mc::executed(), mc::state(key);
  }
  if (mc::mine()) {
    World w;
    w.lidar(0, 1, {0}, 0, 0, "somebody");
    bool thrown = false;
    try { w.frame(1, {ego()}); } catch (const std::exception &) { thrown = true; }
    if (not thrown) mc::violation("no ego", "a lidar works without its ego");
    mc::executed();
  }
}
// ---------------------------------------------------------------------------------------------- when
void when()
{
  int k = 0;
  for (int step : {5, 10})
    for (int duration : {0, 4, 5, 8, 10, 12, 20})
      for (int delay : {0, 5, 10, 15, 20, 40})
        for (int grid : {0, 5, 10, 20})
          for (int start : {0, 40}) {
            ++k;
            if (not mc::mine()) continue;
            const auto key = cat("when ", k, ": step ", step / 80., " duration ", duration / 80., " delay ", delay / 80., " grid every ", grid / 80., " attached at ", start / 80.);
            mc::current(key);
            World w;
            w.lidar(start / 80., M_PI / 18, {0}, duration / 80., delay / 80.), w.detection(start / 80.), w.grid(start / 80., 0.5, 20, 8, 1000, false, grid / 80.);
            std::vector<int> samples;
            std::size_t next = 0;
            int last = start, last_grid = start;
            auto scene = [](int i) { Thing n; n.name = "t0", n.at = {1.5 + i * 0.0625, 0, 0}, n.size = {1, 1, 1}; std::vector<Thing> v{ego()}; if (i % 4 != 3) v.push_back(n); return v; };
            for (int i = 1; i <= (mc::thorough() ? 40 : 24); ++i) {
              const int t = start + i * step;
              w.frame(t / 80., scene(i), i);
              std::optional<int> d;
              const bool scanned = t - last >= duration;
              if (scanned) last = t, samples.push_back(i);
              if (next < samples.size() and t - (start + samples[next] * step) >= delay) d = samples[next++];
              if (w.scans.size() != bool(d)) { mc::violation(key, cat("in frame ", i, " ", w.scans.size(), " clouds are published")); break; }
              if (d) {
                if (w.scans[0].stamp != *d) { mc::violation(key, cat("the cloud of frame ", *d, " is stamped ", w.scans[0].stamp)); break; }
                if (const auto e = judge(w.scans[0], expect(scene(*d), M_PI / 18, {0}, no_error)); not e.empty()) { mc::violation(key, cat("in frame ", i, " (cloud of ", *d, ") ", e)); break; }
              }
              const bool mapped = t - last_grid >= grid, there = scanned and i % 4 != 3;
              if (mapped) last_grid = t;
              if (w.maps.size() != mapped) { mc::violation(key, cat("in frame ", i, " ", w.maps.size(), " maps are published")); break; }
              if (mapped and (std::count(w.maps[0].cells.begin(), w.maps[0].cells.end(), 100) > 0) != there) { mc::violation(key, cat("in frame ", i, " the map shows ", there ? "nothing of what is seen" : "what is not seen")); break; }
              if (mapped and w.maps[0].stamp != i) { mc::violation(key, "the stamp of the map is wrong"); break; }
              if (w.detected != std::optional<int>(there ? 1 : 0)) { mc::violation(key, cat("in frame ", i, " detected is ", w.detected ? *w.detected : -1)); break; }
              mc::state(cat(key, i));
            }
            mc::executed(24), mc::outcome(cat(samples.size(), " ", next));
          }
}
// ---------------------------------------------------------------------------------------------- with what errors
struct Table { std::vector<double> radii, radial, tangential, rate; double x_radius = 1; };
void put(const std::string & p, const Table & t)
{
  set(p + ".ellipse_y_radii", t.radii);
  const std::vector<double> zero(t.radii.size(), 0.0);
  for (auto [n, v] : std::vector<std::pair<std::string, std::vector<double>>>{{"distance.radial.mean", t.radial}, {"distance.tangential.mean", t.tangential}, {"distance.radial.standard_deviation", zero}, {"distance.tangential.standard_deviation", zero}, {"true_positive.rate", t.rate}}) set(p + "." + n + ".values", v), set(p + "." + n + ".ellipse_normalized_x_radius", t.x_radius);
}
std::optional<V3> distort(const Table & t, double dx, double dy, V3 p)
{
  const double d = std::hypot(dx / t.x_radius, dy);
  std::size_t i = 0;
  while (i + 1 < t.radii.size() and not(d < t.radii[i])) ++i;
  if (not t.rate[i]) return std::nullopt;
  const V3 u = 1 / norm(p) * p;
  return p + t.radial[i] * u + t.tangential[i] * V3{u[1], -u[0], 0};
}
void noise()
{
  using S = std::vector<std::string>;
  std::vector<Table> tables;
  for (auto rate : {std::vector<double>{1, 1, 1}, {1, 0, 1}, {0, 1, 0}, {0, 0, 0}}) for (double x : {1.0, 0.5, 2.0}) for (auto radial : {std::vector<double>{0, 0, 0}, {0.5, -1, 2}}) for (auto tangential : {std::vector<double>{0, 0, 0}, {0.25, -0.5, 1}}) tables.push_back({{8, 15, 25}, radial, tangential, rate, x});
  tables.push_back({{1000}, {1.5}, {0}, {1}, 1});
  auto all = catalogue();
  all[2].type = Type::PEDESTRIAN, all[2].subtype = Subtype::PEDESTRIAN, all[3].type = Type::MISC_OBJECT, all[3].subtype = Subtype::UNKNOWN;
  for (std::size_t i = 0; i < tables.size(); ++i) for (int names = 0; names < 4; ++names) for (int scene : {31, 21, 10, 2}) {
    if (not mc::mine()) continue;
    const auto key = cat("noise ", i, " names ", names, " scene ", scene);
    mc::current(key);
    base();
    const auto & a = tables[i];
    const auto & b = tables[(i * 7 + 11) % tables.size()];
    set(L + ".noise.model.version", 1), set(L + ".seed", 3);
    put(L + ".noise.v1.aa", a), put(L + ".noise.v1.bb", b);
    const auto p = L + ".noise.v1.aa.noise_application_entities.", q = L + ".noise.v1.bb.noise_application_entities.";
    set(p + "types", names & 1 ? S{"VEHICLE"} : S{"*"}), set(p + "subtypes", S{"*"}), set(p + "names", names & 2 ? S{"t0", "t2", "t4"} : S{"t?"});
    set(q + "types", S{"PEDESTRIAN", "V*"}), set(q + "subtypes", S{"CAR", "P*"}), set(q + "names", S{"*1", "t2"});
    auto model = [&](const Thing & t) -> const Table * {
      const int n = t.name[1] - '0';
      if ((not(names & 1) or t.type == Type::VEHICLE) and (not(names & 2) or n % 2 == 0)) return &a;
      if (t.type != Type::MISC_OBJECT and (n == 1 or n == 2)) return &b;
      return nullptr;
    };
    World w;
    const bool level = a.tangential != std::vector<double>(3) or b.tangential != std::vector<double>(3);
    const std::vector<double> vertical = level ? std::vector<double>{0} : std::vector<double>{-0.18, -0.05};
    w.lidar(0, M_PI / 18, vertical);
    for (int f = 0; f < 3; ++f) {
      const Thing e = ego({3.5 * f, -2.25 * f, 0}, rpy(0, 0, 0.5 * f));
      std::vector<Thing> things{e};
      for (int j = 0; j < 5; ++j) if ((f == 1 ? 31 : scene) >> j & 1) things.push_back(all[j]);
      w.frame(1 + f, things, f);
      if (w.scans.size() != 1) { mc::violation(key, "nothing is published"); break; }
      const auto want = expect(things, M_PI / 18, vertical, [&](int who, V3 x) -> std::optional<V3> { const auto * m = model(things[who]); return m ? distort(*m, things[who].at[0] - e.at[0], things[who].at[1] - e.at[1], x) : x; });
      if (const auto x = judge(w.scans[0], want); not x.empty()) { mc::violation(key, cat("in frame ", f, " ", x)); break; }
      mc::state(cat(key, f)), mc::outcome(cat(w.scans[0].points.size()));
    }
    mc::executed(3);
  }
  for (int version : {0, 2, 3}) {
    if (not mc::mine()) continue;
    base();
    set(L + ".noise.model.version", version), set(L + ".seed", 3);
    bool thrown = false;
    try { World w; w.lidar(0, 1, {0}); } catch (const std::exception &) { thrown = true; }
    if (not thrown) mc::violation(cat("lidar noise version ", version), "is accepted");
    mc::executed();
  }
  for (auto n : {"distance.radial.mean", "distance.tangential.mean", "distance.radial.standard_deviation", "distance.tangential.standard_deviation", "true_positive.rate"}) for (int size : {2, 3, 4}) {
    if (not mc::mine()) continue;
    base();
    set(L + ".noise.model.version", 1), set(L + ".seed", 3);
    put(L + ".noise.v1.aa", tables[0]);
    for (auto x : {"types", "subtypes", "names"}) set(cat(L, ".noise.v1.aa.noise_application_entities.", x), S{"*"});
    set(cat(L, ".noise.v1.aa.", n, ".values"), std::vector<double>(size, 1.0));
    bool thrown = false;
    try { World w; w.lidar(0, M_PI / 18, {0}); w.frame(1, {ego(), all[0]}); } catch (const std::exception &) { thrown = true; }
    if (thrown != (size != 3)) mc::violation(cat("lidar table ", n, " of ", size), thrown ? "a right table is refused" : "a table of the wrong size is accepted");
    mc::executed();
  }
  base();
}
// ---------------------------------------------------------------------------------------------- the map
using P2 = std::array<double, 2>;
std::vector<P2> hull(std::vector<P2> p)
{
  std::sort(p.begin(), p.end());
  std::vector<P2> h;
  auto cross = [](const P2 & a, const P2 & b, const P2 & c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); };
  for (int pass = 0; pass < 2; ++pass) {
    const auto base = h.size();
    for (auto & x : p) { while (h.size() >= base + 2 and cross(h[h.size() - 2], h.back(), x) <= 0) h.pop_back(); h.push_back(x); }
    h.pop_back();
    std::reverse(p.begin(), p.end());
  }
  return h;
}
std::vector<P2> outline(const Thing & t, const V3 & o)
{
  std::vector<P2> v;
  for (int i = 0; i < 8; ++i) { const auto c = t.at + rotate(t.q, t.center + V3{(i & 1 ? .5 : -.5) * t.size[0], (i & 2 ? .5 : -.5) * t.size[1], (i & 4 ? .5 : -.5) * t.size[2]}) - o; v.push_back({c[0], c[1]}); }
  return hull(v);
}
// how far a convex polygon and a box are apart along the best axis; negative: how deep they overlap
struct Shape
{
  std::vector<P2> corners;
  std::vector<std::array<double, 4>> axes;  // axis, least, most
  explicit Shape(std::vector<P2> c) : corners(std::move(c))
  {
    auto add = [&](P2 a) { const double n = std::hypot(a[0], a[1]); if (n < 1e-12) return; a = {a[0] / n, a[1] / n}; double lo = 1e300, hi = -1e300; for (auto & p : corners) { const double x = a[0] * p[0] + a[1] * p[1]; lo = std::min(lo, x), hi = std::max(hi, x); } axes.push_back({a[0], a[1], lo, hi}); };
    add({1, 0}), add({0, 1});
    for (std::size_t i = 0; i < corners.size(); ++i) { auto & a = corners[i]; auto & b = corners[(i + 1) % corners.size()]; add({b[1] - a[1], a[0] - b[0]}); }
  }
  double gap(double x0, double y0, double x1, double y1) const
  {
    double g = -1e300;
    for (auto & a : axes) {
      const double cx = a[0] * (x0 + x1) / 2 + a[1] * (y0 + y1) / 2, r = std::fabs(a[0]) * (x1 - x0) / 2 + std::fabs(a[1]) * (y1 - y0) / 2;
      g = std::max(g, std::max(cx - r - a[3], a[2] - cx - r));
    }
    return g;
  }
};
struct Config { int width, height; double resolution; };
std::string judge(const Map & m, const Config & c, const V3 & e, const std::vector<Thing> & shown, int stamp)
{
  if (m.width != c.width or m.height != c.height or std::fabs(m.resolution - c.resolution) > 1e-6 or int(m.cells.size()) != c.width * c.height) return "the map has another size";
  if (not m.frame or m.stamp != stamp) return "the map has another frame or stamp";
  const V3 o{e[0] - c.width * c.resolution / 2, e[1] - c.height * c.resolution / 2, e[2]};
  if (norm(m.origin - o) > 1e-6) return cat("the map begins at ", show(m.origin), " instead of ", show(o));
  if (std::fabs(m.q[0] - 1) > 1e-9) return "the map is turned";
  const double eps = 1e-3;
  std::vector<Shape> bodies, shadows;
  std::vector<int> kind;  // 0 a shadow, 1 covers everything, 2 not judged
  for (auto & t : shown) {
    const Shape b(outline(t, e));
    bodies.push_back(b);
    const double here = b.gap(0, 0, 0, 0);
    double least = 1e300;
    for (auto & p : b.corners) least = std::min(least, std::hypot(p[0], p[1]));
    kind.push_back(here < -eps ? 1 : here < 0.05 ? 2 : 0);
    auto far = b.corners;
    for (auto & p : b.corners) { const double k = std::max(2.0, 1000 / std::max(0.01, std::hypot(p[0], p[1]))); far.push_back({k * p[0], k * p[1]}); }
    shadows.emplace_back(hull(far));
  }
  const double w = c.width * c.resolution / 2, h = c.height * c.resolution / 2;
  for (int row = 0; row < c.height; ++row) for (int col = 0; col < c.width; ++col) {
    const double x0 = -w + col * c.resolution, y0 = -h + row * c.resolution, x1 = x0 + c.resolution, y1 = y0 + c.resolution;
    bool must = false, may = false, dark = false, dusk = false;
    for (std::size_t i = 0; i < bodies.size(); ++i) {
      const auto g = bodies[i].gap(x0, y0, x1, y1);
      must |= g < -eps, may |= g < eps;
      const bool inside = bodies[i].gap(-w, -h, w, h) < -eps, perhaps = bodies[i].gap(-w, -h, w, h) < eps;
      if (kind[i] == 2) { dusk = true; continue; }
      const auto s = kind[i] == 1 ? -1 : shadows[i].gap(x0, y0, x1, y1);
      dark |= inside and s < -eps, dusk |= perhaps and s < eps;
    }
    const int v = m.cells[row * c.width + col];
    auto no = [&](const char * what) { return cat("the cell ", col, " ", row, " is ", v, ", but ", what); };
    if (v != 0 and v != 50 and v != 100) return no("that means nothing");
    if (must and v != 100) return no("something is there");
    if (not may and v == 100) return no("nothing is there");
    if (dark and v == 0) return no("it is hidden");
    if (not dusk and v == 50) return no("nothing hides it");
  }
  return "";
}
struct Mapper
{
  std::unique_ptr<simple_sensor_simulator::OccupancyGridSensor<Grid>> sensor;
  World w;
};
void maps()
{
  const std::vector<Config> configs{{8, 6, 1}, {6, 8, 1}, {10, 10, 0.5}, {20, 12, 0.5}, {3, 9, 0.75}};
  const std::vector<V3> sizes{{1, 1, 1}, {2, 0.5, 1}, {4.5, 2, 1.5}, {12, 0.5, 1}};
  const std::vector<Q> turns{rpy(0, 0, 0), rpy(0, 0, 0.3), rpy(0, 0, M_PI / 4), rpy(0, 0, M_PI / 2), rpy(0, 0, 2), rpy(0, 0, -1.2), rpy(0.2, -0.1, 1)};
  const std::vector<V3> egos{{0, 0, 0}, {100.25, -50.5, 3}};
  auto run = [](const Config & c, const V3 & at, const Q & q, const std::vector<std::vector<Thing>> & frames, const std::string & key) {
    mc::current(key);
    static simulation_api_schema::OccupancyGridSensorConfiguration g;
    g.set_entity("ego"), g.set_resolution(c.resolution), g.set_width(c.width), g.set_height(c.height), g.set_range(1000), g.set_architecture_type("awf/universe");
    std::optional<Map> got;
    simple_sensor_simulator::OccupancyGridSensor<Grid> sensor(0, g, std::make_shared<rclcpp::Publisher<Grid>>(G));
    int i = 0;
    for (auto & f : frames) {
      ++i;
      stub::Bus::hook() = [&](const std::string &, const std::any & a) {
        auto m = std::any_cast<Grid>(&a);
        Map s;
        s.stamp = m->header.stamp.sec, s.frame = m->header.frame_id == "map", s.width = m->info.width, s.height = m->info.height, s.resolution = m->info.resolution;
        s.origin = {m->info.origin.position.x, m->info.origin.position.y, m->info.origin.position.z}, s.q = {m->info.origin.orientation.w, m->info.origin.orientation.x, m->info.origin.orientation.y, m->info.origin.orientation.z};
        for (auto x : m->data) s.cells.push_back(x);
        got = s;
      };
      std::vector<Status> s;
      std::vector<std::string> seen;
      for (auto & t : f) s.push_back(status(t)), seen.push_back(t.name);
      s.insert(s.begin() + i % (s.size() + 1), status(ego(at, q)));
      got.reset();
      sensor.update(i, s, rclcpp::Time(i, 0), seen);
      stub::Bus::hook() = nullptr;
      const auto e = got ? judge(*got, c, at, f, i) : "nothing is published";
      if (not e.empty()) { mc::violation(key, cat("in frame ", i, " ", e)); break; }
      mc::state(cat(key, i));
      std::string digest; for (auto x : got->cells) digest += char(x); mc::outcome(digest);
    }
    mc::executed(frames.size());
  };
  const double unit = mc::thorough() ? 0.125 : 0.25;
  for (std::size_t c = 0; c < configs.size(); ++c) for (std::size_t s = 0; s < sizes.size(); ++s) for (std::size_t q = 0; q < turns.size(); ++q) for (std::size_t e = 0; e < egos.size(); ++e)
    for (double x = -7; x <= 7; x += unit) for (double y = -5; y <= 5; y += unit) {
      if (not mc::mine()) continue;
      Thing t;
      t.name = "t", t.size = sizes[s], t.q = turns[q], t.at = egos[e] + V3{x + (q % 2 ? 0.1 : 0), y + (s % 2 ? 0.07 : 0), 0.5}, t.center = {0.25 * (s % 3), 0.125 * (q % 2), 0.5};
      Thing u = t;
      u.at = egos[e] + V3{-y, x, 0}, u.name = "u";
      run(configs[c], egos[e], turns[(s + q) % turns.size()], {{t}, {u}, {}}, cat("map ", c, " size ", s, " turn ", q, " ego ", e, " at ", x, " ", y));
    }
  // several together
  const std::vector<P2> places{{2, 0}, {3, 1}, {-2, 0.5}, {-3, -2}, {0.3, 2.2}, {0, -3}, {4.5, 4}, {-9, 0}, {0.2, 0.1}};
  for (std::size_t c = 0; c < configs.size(); ++c) for (std::size_t a = 0; a < places.size(); ++a) for (std::size_t b = 0; b < places.size(); ++b) for (std::size_t s = 0; s < sizes.size(); ++s) {
    if (not mc::mine()) continue;
    Thing t, u, v;
    t.name = "t", t.at = {places[a][0], places[a][1], 0}, t.size = sizes[s], t.q = turns[(a + s) % turns.size()];
    u.name = "u", u.at = {places[b][0], places[b][1], 0}, u.size = sizes[(s + 1) % 4], u.q = turns[b % turns.size()];
    v.name = "v", v.at = {places[(a + b) % places.size()][0], places[(a * b + 1) % places.size()][1], 0}, v.size = {0.6, 0.4, 1};
    run(configs[c], egos[0], turns[1], {{t, u}, {u, v}, {t, u, v}, {v}}, cat("maps ", c, " ", a, " ", b, " size ", s));
  }
  // who is shown
  for (double range : {2.0, 5.0, 1000.0}) for (int filter = 0; filter < 2; ++filter) for (int seen = 0; seen < 8; ++seen) {
    if (not mc::mine()) continue;
    const auto key = cat("shown: range ", range, filter ? " filtered" : "", " seen ", seen);
    simulation_api_schema::OccupancyGridSensorConfiguration g;
    const Config c{20, 20, 1};
    g.set_entity("ego"), g.set_resolution(1), g.set_width(20), g.set_height(20), g.set_range(range), g.set_filter_by_range(filter), g.set_architecture_type("awf/universe");
    simple_sensor_simulator::OccupancyGridSensor<Grid> sensor(0, g, std::make_shared<rclcpp::Publisher<Grid>>(G));
    std::vector<int> cells;
    stub::Bus::hook() = [&](const std::string &, const std::any & a) { for (auto x : std::any_cast<Grid>(&a)->data) cells.push_back(x); };
    const V3 at[]{{1.5, 0.5, 0}, {-3.5, 2.5, 0}, {0.5, -4.5, 4}};
    std::vector<Status> s{status(ego())};
    std::vector<std::string> names{"ego"};
    for (int i = 0; i < 3; ++i) { Thing t; t.name = cat("t", i), t.at = at[i], t.size = {0.5, 0.5, 1}; s.push_back(status(t)); if (seen >> i & 1) names.push_back(t.name); }
    sensor.update(1, s, rclcpp::Time(1, 0), names);
    stub::Bus::hook() = nullptr;
    for (int i = 0; i < 3; ++i) {
      const bool in = norm(at[i]) <= range, hit = seen >> i & 1, there = cells.at(int(10 + at[i][1] - 0.5) * 20 + int(10 + at[i][0] - 0.5)) == 100;
      if (filter and in and not hit) continue;  // left open
      if (there != (hit and (in or not filter))) mc::violation(key, cat("t", i, there ? " is shown" : " is not shown"));
    }
    if (cells.at(10 * 20 + 10) == 100) mc::violation(key, "the ego is in its own map");
    mc::executed(), mc::state(key);
  }
  if (mc::mine()) {
    World w;
    w.grid(0, 1, 4, 4);
    Thing t;
    t.name = "t";
    bool thrown = false;
    try { w.frame(1, {t}); } catch (const std::exception &) { thrown = true; }
    if (not thrown) mc::violation("no ego", "a map is made without its ego");
    mc::executed();
  }
}
}  // namespace
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "every subset of six bodies × pose × resolution × elevations, frame after frame; every step × scan duration × delay × update of the map; every table of errors × patterns; every size × turn × place of a body on every map, "
                    "and pairs and triples of bodies, frame after frame";
    base(), rays();
    base(), when();
    noise();
    base(), maps();
  });
}
