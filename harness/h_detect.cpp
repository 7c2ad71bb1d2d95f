// What the detection sensor shows: who is seen, when it is published, and with what errors (C31).
#include <rclcpp/rclcpp.hpp>
#include <autoware_perception_msgs/msg/detected_objects.hpp>
#include <autoware_perception_msgs/msg/tracked_objects.hpp>
#include <simple_sensor_simulator/sensor_simulation/detection_sensor/detection_sensor.hpp>
#include <simple_sensor_simulator/exception.hpp>
#include <boost/geometry.hpp>
#include <array>
#include <cmath>
#include <optional>
#include "mc.hpp"
namespace
{
using mc::cat;
namespace stub = rclcpp::stub;
using Tracked = autoware_perception_msgs::msg::TrackedObjects;
using Detected = autoware_perception_msgs::msg::DetectedObjects;
using Sensor = simple_sensor_simulator::DetectionSensor<Detected>;
using Config = simulation_api_schema::DetectionSensorConfiguration;
using Status = traffic_simulator_msgs::EntityStatus;
using Type = traffic_simulator_msgs::EntityType;
using Subtype = traffic_simulator_msgs::EntitySubtype;
const std::string T = "/perception/object_recognition/detection/objects", G = "/perception/object_recognition/ground_truth/objects";
int mode = 0;  // 0: the scenario's configuration, 1, 2: overridden by parameters

using V3 = std::array<double, 3>;
using Q = std::array<double, 4>;  // w x y z
Q mul(const Q & a, const Q & b) { return {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2], a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]}; }
Q rpy(double r, double p, double y) { auto ax = [](double a, int i) { Q q{std::cos(a / 2), 0, 0, 0}; q[i] = std::sin(a / 2); return q; }; return mul(mul(ax(y, 3), ax(p, 2)), ax(r, 1)); }
V3 rotate(const Q & q, const V3 & v) { const auto r = mul(mul(q, {0, v[0], v[1], v[2]}), {q[0], -q[1], -q[2], -q[3]}); return {r[1], r[2], r[3]}; }
V3 operator+(const V3 & a, const V3 & b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
V3 operator-(const V3 & a, const V3 & b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
double dot(const V3 & a, const V3 & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }

struct Thing
{
  std::string name;
  Type::Enum type = Type::VEHICLE;
  Subtype::Enum subtype = Subtype::CAR;
  V3 at{0, 0, 0};
  Q q{1, 0, 0, 0};
  V3 center{1, 0.25, 0.75}, size{4, 1.5, 1.5};
  double vx = 0, vy = 0;
};
Status status(const Thing & t)
{
  Status s;
  s.set_name(t.name), s.mutable_type()->set_type(t.type), s.mutable_subtype()->set_value(t.subtype);
  auto & p = *s.mutable_pose();
  p.mutable_position()->set_x(t.at[0]), p.mutable_position()->set_y(t.at[1]), p.mutable_position()->set_z(t.at[2]);
  p.mutable_orientation()->set_w(t.q[0]), p.mutable_orientation()->set_x(t.q[1]), p.mutable_orientation()->set_y(t.q[2]), p.mutable_orientation()->set_z(t.q[3]);
  auto & b = *s.mutable_bounding_box();
  b.mutable_center()->set_x(t.center[0]), b.mutable_center()->set_y(t.center[1]), b.mutable_center()->set_z(t.center[2]);
  b.mutable_dimensions()->set_x(t.size[0]), b.mutable_dimensions()->set_y(t.size[1]), b.mutable_dimensions()->set_z(t.size[2]);
  s.mutable_action_status()->mutable_twist()->mutable_linear()->set_x(t.vx), s.mutable_action_status()->mutable_twist()->mutable_linear()->set_y(t.vy);
  return s;
}
// an object as published: center, orientation, size, speed, label, orientation availability
using Seen = std::array<double, 14>;
int label(Subtype::Enum s)
{
  using K = autoware_perception_msgs::msg::ObjectClassification;
  switch (s) {
    case Subtype::CAR: return K::CAR;
    case Subtype::TRUCK: return K::TRUCK;
    case Subtype::BUS: return K::BUS;
    case Subtype::TRAILER: return K::TRAILER;
    case Subtype::MOTORCYCLE: return K::MOTORCYCLE;
    case Subtype::BICYCLE: return K::BICYCLE;
    case Subtype::PEDESTRIAN: return K::PEDESTRIAN;
    default: return K::UNKNOWN;
  }
}
Seen seen(const Thing & t)
{
  using K = autoware_perception_msgs::msg::DetectedObjectKinematics;
  const auto c = t.at + rotate(t.q, t.center);
  const double s = t.q[0] < 0 ? -1 : 1;
  return {c[0], c[1], c[2], s * t.q[0], s * t.q[1], s * t.q[2], s * t.q[3], t.size[0], t.size[1], t.size[2], t.vx, t.vy, double(label(t.subtype)), double(label(t.subtype) == autoware_perception_msgs::msg::ObjectClassification::UNKNOWN ? K::UNAVAILABLE : K::SIGN_UNKNOWN)};
}
template <class O> Seen real(const O & o)
{
  auto & p = o.kinematics.pose_with_covariance.pose;
  const double s = p.orientation.w < 0 ? -1 : 1;
  return {p.position.x, p.position.y, p.position.z, s * p.orientation.w, s * p.orientation.x, s * p.orientation.y, s * p.orientation.z, o.shape.dimensions.x, o.shape.dimensions.y, o.shape.dimensions.z, o.kinematics.twist_with_covariance.twist.linear.x, o.kinematics.twist_with_covariance.twist.linear.y,
          o.classification.size() == 1 and o.classification[0].probability == 1 ? double(o.classification[0].label) : -1, double(o.kinematics.orientation_availability)};
}
bool close(const Seen & a, const Seen & b)
{
  bool same = true, minus = true;
  for (int i = 0; i < 14; ++i) if (i < 3 or i > 6) { if (not(std::fabs(a[i] - b[i]) < 1e-6)) return false; } else same &= std::fabs(a[i] - b[i]) < 1e-6, minus &= std::fabs(a[i] + b[i]) < 1e-6;
  return same or minus;
}
std::string show(const Seen & s) { return cat("(", s[0], " ", s[1], " ", s[2], " yaw ", 2 * std::atan2(s[6], s[3]), " label ", s[12], " v ", s[10], ")"); }
std::string show(const std::vector<Seen> & v) { std::string r; for (auto & s : v) r += show(s) + " "; return "[" + r + "]"; }
bool match(const std::vector<Seen> & a, const std::vector<Seen> & b)
{
  if (a.size() != b.size()) return false;
  std::vector<bool> used(b.size());
  for (auto & x : a) {
    bool found = false;
    for (std::size_t i = 0; i < b.size() and not found; ++i) if (not used[i] and close(x, b[i])) used[i] = found = true;
    if (not found) return false;
  }
  return true;
}
struct Out { std::optional<std::vector<Seen>> detected, truth; int stamp_d = -1, stamp_t = -1; int count = 0; };
struct World
{
  std::unique_ptr<Sensor> sensor;
  Out out;
  explicit World(const Config & c, double t0 = 0)
  {
    sensor = std::make_unique<Sensor>(t0, c, std::make_shared<rclcpp::Publisher<Detected>>(T), std::make_shared<rclcpp::Publisher<Tracked>>(G));
  }
  void listen()
  {
    stub::Bus::hook() = [this](const std::string & topic, const std::any & a) {
      ++out.count;
      if (auto m = std::any_cast<Detected>(&a); m and topic == T) { std::vector<Seen> v; for (auto & o : m->objects) v.push_back(real(o)); out.detected = v, out.stamp_d = m->header.frame_id == "map" ? m->header.stamp.sec : -2; }
      if (auto m = std::any_cast<Tracked>(&a); m and topic == G) { std::vector<Seen> v; for (auto & o : m->objects) v.push_back(real(o)); out.truth = v, out.stamp_t = m->header.frame_id == "map" ? m->header.stamp.sec : -2; }
    };
  }
  Out & frame(double t, const std::vector<Thing> & things, const std::vector<std::string> & lidar = {}, int stamp = 0)
  {
    out = Out();
    listen();
    std::vector<Status> s;
    for (auto & x : things) s.push_back(status(x));
    sensor->update(t, s, rclcpp::Time(stamp, 0), lidar);
    stub::Bus::hook() = nullptr;
    return out;
  }
};
Config config(double range = 1000, bool all = true)
{
  Config c;
  c.set_entity("ego"), c.set_range(range), c.set_architecture_type("awf/universe/20250130"), c.set_detect_all_objects_in_range(all), c.set_random_seed(5);
  return c;
}
Thing ego(V3 at = {0, 0, 0}, Q q = {1, 0, 0, 0}) { Thing t; t.name = "ego", t.type = Type::EGO, t.at = at, t.q = q; return t; }
template <class V> void set(const std::string & n, V v) { if constexpr (std::is_same_v<V, int>) stub::overrides()[n] = std::int64_t(v); else if constexpr (std::is_convertible_v<V, std::string>) stub::overrides()[n] = std::string(v); else stub::overrides()[n] = v; }
void base()
{
  stub::overrides().clear();
  set(T + ".noise.model.version", 1), set(T + ".seed", 7);
  set(T + ".override_legacy_configuration", mode != 0), set(G + ".override_legacy_configuration", mode == 1);
  set(T + ".delay", 0.25), set(T + ".range", 8.0), set(T + ".occlusionless", mode == 1), set(G + ".delay", 0.125);
  set(T + ".noise.v1.position.standard_deviation", 0.0), set(T + ".noise.v1.missing_probability", 0.0);
}
double the_range(double r) { return mode ? 8 : r; }
bool the_all(bool b) { return mode ? mode == 1 : b; }
double the_delay(double d) { return mode ? 0.25 : d; }
double the_truth_delay(double d) { return mode == 1 ? 0.125 : d; }
// frames until something is published: with delays, the scene is kept still
Out still(World & w, const std::vector<Thing> & things, const std::vector<std::string> & lidar = {}, double t = 1) { Out o; for (int i = 0; i < 8; ++i) o = w.frame(t + i * 0.125, things, lidar); return o; }

// ---------------------------------------------------------------------------------------------- who is seen
bool visible(const Thing & t, const Thing & e, double range, bool all, const std::vector<std::string> & lidar)
{
  const auto d = t.at - e.at;
  if (std::sqrt(dot(d, d)) > range) return false;
  if (d[2] < -1 and dot(rotate(e.q, {0, 0, 1}), d) < 0) return false;
  return all or std::count(lidar.begin(), lidar.end(), t.name);
}
void who()
{
  const std::vector<V3> offsets{{3, 4, 0}, {-3, 4, 0}, {3, 4, 12}, {3, 4, -12}, {8, 0, 0}, {8.01, 0, 0}, {7.99, 0, 0}, {0, -5.01, 0}, {20, 0, -3}, {20, 0, -0.99}, {20, 0, -1.01}, {-20, 0, -3}, {0, 20, -3}, {0, -20, -3}, {20, 0, -5}, {-20, 0, -5}, {600, 0, 50}, {0, 0, -1.5}, {0, 0, 5}};
  const Subtype::Enum kinds[]{Subtype::CAR, Subtype::TRUCK, Subtype::BUS, Subtype::TRAILER, Subtype::MOTORCYCLE, Subtype::BICYCLE, Subtype::PEDESTRIAN, Subtype::UNKNOWN};
  const Type::Enum types[]{Type::VEHICLE, Type::PEDESTRIAN, Type::MISC_OBJECT, Type::EGO};
  int k = 0;
  for (auto & q : {rpy(0, 0, 0), rpy(0, 0, 1), rpy(0, 0.2, 0), rpy(0, -0.2, 0), rpy(0.2, 0, 0), rpy(-0.2, 0.1, 2.5), rpy(0, 0.2, 3)})
    for (V3 at : {V3{0, 0, 0}, V3{16, -8, 4}})
      for (double range : {5.0, 8.0, 13.0, 100.0, 1000.0})
        for (int all = 0; all < 2; ++all)
          for (int order = 0; order < 3; ++order)
            for (int part = 0; part < 4; ++part) {
              ++k;
              if (not mc::mine()) continue;
              const auto e = ego(at, q);
              std::vector<Thing> things;
              std::vector<std::string> lidar;
              for (std::size_t i = 0; i < offsets.size(); ++i) {
                Thing t;
                t.name = cat("n", i), t.type = types[(i + part) % 4], t.subtype = kinds[(i * 3 + part) % 8], t.at = at + offsets[i], t.q = rpy(0.05 * (i % 3), 0.1 * (i % 2), 0.5 * i), t.vx = i, t.vy = -0.5 * i;
                t.center = {0.5 * (i % 3), 0.125 * part, 0.75}, t.size = {1 + 0.5 * i, 2, 1.5 + part};
                things.push_back(t);
                if ((i * 7 + part * 5) % (part + 2) == 0) lidar.push_back(t.name);
              }
              things.insert(order == 0 ? things.begin() : order == 1 ? things.end() : things.begin() + 9, e);
              if (order == 1) std::reverse(things.begin(), things.end());
              if (order == 2) lidar.push_back("ego"), lidar.push_back("ghost");
              // each alone as well as all together: a plane remembered for one is used for the others
              const auto key = cat("who ", k, ": ego at ", at[0], " orientation ", q[0], " ", q[1], " ", q[2], " ", q[3], " range ", range, all ? " all" : " lidar", " order ", order, " part ", part);
              mc::current(key);
              World w(config(range, all));
              const auto o = still(w, things, lidar);
              std::vector<Seen> want;
              for (auto & t : things) if (t.name != "ego" and visible(t, e, the_range(range), the_all(all), lidar)) want.push_back(seen(t));
              if (not o.detected or not match(*o.detected, want)) mc::violation(key, cat("published ", o.detected ? show(*o.detected) : "nothing", " instead of ", show(want)));
              if (not o.truth or not match(*o.truth, want)) mc::violation(key, cat("published as truth ", o.truth ? show(*o.truth) : "nothing", " instead of ", show(want)));
              mc::executed(), mc::state(key), mc::outcome(show(want));
            }
  // the plane follows the ego
  const std::vector<std::pair<V3, Q>> poses{{{0, 0, 0}, rpy(0, 0, 0)}, {{0, 0, 0}, rpy(0, 0.2, 0)}, {{0, 0, 0}, rpy(0, -0.2, 0)}, {{0, 0, 0}, rpy(0.2, 0, 0)}, {{0, 0, 0}, rpy(0, 0.2, M_PI / 2)}, {{0, 0, 0}, rpy(0, 0.2, M_PI)}, {{10, 0, 0}, rpy(0, 0, 0)}, {{10, -4, 0}, rpy(0, 0, 1)}};
  for (std::size_t a = 0; a < poses.size(); ++a) for (std::size_t b = 0; b < poses.size(); ++b) for (std::size_t c = 0; c < poses.size(); ++c) {
    if (not mc::mine()) continue;
    const auto key = cat("plane ", a, " ", b, " ", c);
    World w(config());
    int i = 0;
    for (auto k : {a, b, c}) {
      std::vector<Thing> things{ego(poses[k].first, poses[k].second)};
      for (auto & o : offsets) { Thing t; t.name = cat("n", things.size()), t.at = o; things.push_back(t); }
      const auto o = still(w, things, {}, 1 + 2 * i++);
      std::vector<Seen> want;
      for (auto & t : things) if (t.name != "ego" and visible(t, things[0], the_range(1000), the_all(true), {})) want.push_back(seen(t));
      if (not o.detected or not match(*o.detected, want)) { mc::violation(key, cat("at pose ", i, " of the ego is published ", o.detected ? show(*o.detected) : "nothing", " instead of ", show(want))); break; }
      mc::executed();
    }
    mc::state(key);
  }
  // without its ego
  for (int k = 0; k < 4; ++k) {
    if (not mc::mine()) continue;
    std::vector<Thing> things{ego()};
    if (k == 0) things.clear();
    if (k == 1) things[0].type = Type::VEHICLE;
    if (k == 2) things[0].name = "other";
    World w(config());
    bool thrown = false;
    try { still(w, things); } catch (const std::exception &) { thrown = true; }
    if (thrown != (k < 3)) mc::violation(cat("owner ", k), thrown ? "refused" : "a detection sensor works without its ego");
    mc::executed();
  }
}
// ---------------------------------------------------------------------------------------------- when
void when()
{
  // times in units of 1/80 s: steps of 0.0625, 0.125 and 0.05
  int k = 0;
  for (int step : {5, 10, 4})
    for (int duration : {0, 4, 5, 8, 10, 12, 20})
      for (int delay : {0, 5, 10, 15, 20, 40})
        for (int truth : {0, 5, 20, 25})
          for (int start : {0, 40}) {
            ++k;
            if (step == 4 and (delay or truth or mode)) continue;  // sums of 0.05 are not exact
            if (not mc::mine()) continue;
            const auto key = cat("when ", k, ": step ", step / 80., " duration ", duration / 80., " delays ", delay / 80., " ", truth / 80., " attached at ", start / 80.);
            mc::current(key);
            auto c = config();
            c.set_update_duration(duration / 80.), c.set_object_recognition_delay(delay / 80.), c.set_object_recognition_ground_truth_delay(truth / 80.);
            World w(c, start / 80.);
            const int dd = std::lround(the_delay(delay / 80.) * 80), dt = std::lround(the_truth_delay(truth / 80.) * 80);
            std::vector<int> samples;
            std::size_t next_d = 0, next_t = 0;
            int last = start;
            for (int i = 1; i <= (mc::thorough() ? 40 : 24); ++i) {
              const int t = start + i * step;
              Thing n;
              n.name = "n", n.at = {1.0 + i * 0.125, 1, 0}, n.vx = i;
              std::vector<Thing> things{ego(), n};
              if (i % 4 == 3) things.pop_back();  // and sometimes nothing is there
              const auto & o = w.frame(t / 80., things, {"n"}, i);
              std::optional<int> d, g;
              if (t - last >= duration) {
                last = t, samples.push_back(i);
                if (t - (start + samples[next_d] * step) >= dd) d = samples[next_d++];
                if (t - (start + samples[next_t] * step) >= dt) g = samples[next_t++];
              }
              auto of = [&](int j) { Thing x; x.name = "n", x.at = {1.0 + j * 0.125, 1, 0}, x.vx = j; return j % 4 == 3 ? std::vector<Seen>{} : std::vector<Seen>{seen(x)}; };
              if (bool(o.detected) != bool(d) or (d and not match(*o.detected, of(*d)))) { mc::violation(key, cat("in frame ", i, " detected is published ", o.detected ? show(*o.detected) : "nothing", " instead of ", d ? cat("what was in frame ", *d) : "nothing")); break; }
              if (bool(o.truth) != bool(g) or (g and not match(*o.truth, of(*g)))) { mc::violation(key, cat("in frame ", i, " as truth is published ", o.truth ? show(*o.truth) : "nothing", " instead of ", g ? cat("what was in frame ", *g) : "nothing")); break; }
              if ((d and o.stamp_d != i) or (g and o.stamp_t != i) or o.count != bool(d) + bool(g)) { mc::violation(key, cat("in frame ", i, " a stamp or the number of messages is wrong")); break; }
              mc::state(cat(key, i));
            }
            mc::executed(24);
            mc::outcome(cat(samples.size(), " ", next_d, " ", next_t));
          }
}
// ---------------------------------------------------------------------------------------------- with what errors
void noise_v1()
{
  // the scenario's own numbers: lost or not, shifted or not, sensor after sensor
  int k = 0;
  for (int first = 0; first < 4; ++first) for (int second = 0; second < 4; ++second) for (int version : {1, 0, 9}) {
    ++k;
    if (not mc::mine()) continue;
    const auto key = cat("noise v1 ", first, " then ", second, " version ", version);
    base();
    set(T + ".noise.model.version", version);
    for (int c : {first, second}) {
      auto g = config();
      const double stddev = c & 1 ? 0.5 : 0, lost = c & 2 ? 1 : 0;
      g.set_pos_noise_stddev(mode ? 0.5 - stddev : stddev), g.set_probability_of_lost(mode ? 1 - lost : lost);
      set(T + ".noise.v1.position.standard_deviation", mode ? stddev : 0.5 - stddev), set(T + ".noise.v1.missing_probability", mode ? lost : 1 - lost);
      World w(g);
      Thing n;
      n.name = "n", n.at = {3, 1, 0.5}, n.q = rpy(0, 0, 1);
      const auto o = still(w, {ego(), n}, {"n"});
      std::vector<Seen> want{seen(n)};
      if (not o.truth or not match(*o.truth, want)) mc::violation(key, cat("the truth is published as ", o.truth ? show(*o.truth) : "nothing"));
      if (not o.detected) { mc::violation(key, "nothing is published"); continue; }
      if (lost) { if (not o.detected->empty()) mc::violation(key, "what is to be lost is detected"); continue; }
      if (o.detected->size() != 1) { mc::violation(key, "what is not to be lost is not detected"); continue; }
      const bool moved = not match(*o.detected, want);
      if (moved != (stddev > 0)) mc::violation(key, cat("with a deviation of ", stddev, " is detected ", show(*o.detected)));
      auto rest = (*o.detected)[0];
      if (std::fabs(rest[0] - want[0][0]) > 10 or std::fabs(rest[1] - want[0][1]) > 10) mc::violation(key, "the error is out of proportion");
      if (stddev > 0 and (rest[0] == want[0][0] or rest[1] == want[0][1])) mc::violation(key, "one coordinate has no error");
      rest[0] = want[0][0], rest[1] = want[0][1];
      if (not close(rest, want[0])) mc::violation(key, "more than the position in the plane is changed");
    }
    mc::executed(2), mc::state(key);
  }
  base();
}
struct Auto { double amplitude = 0, decay = 0, offset = 0; double phi(double dt) const { return std::min(1.0, std::max(0.0, amplitude * std::exp(-decay * dt) + offset)); } };
void put(const std::string & p, const Auto & a) { set(p + ".autocorrelation_coefficient.amplitude", a.amplitude), set(p + ".autocorrelation_coefficient.decay", a.decay), set(p + ".autocorrelation_coefficient.offset", a.offset); }
struct Bins { double x_radius = 1; std::vector<double> values; };
struct Model
{
  std::vector<double> radii;
  Bins distance, yaw, rate, px, py;
  Auto a_distance, a_yaw, a_flip, a_rate, a_px, a_py;
  double threshold = 0, flip_rate = 0;
  static void put_bins(const std::string & p, const Bins & b) { set(p + ".ellipse_normalized_x_radius", b.x_radius), set(p + ".values", b.values); }
  void put(const std::string & p, bool v4) const
  {
    auto zero = [&](Bins b) { b.values.assign(radii.size(), 0); return b; };
    set(p + ".ellipse_y_radii", radii);
    auto both = [&](const std::string & n, const Bins & b, const Auto & a) { put_bins(p + "." + n + ".mean", b), put_bins(p + "." + n + ".standard_deviation", zero(b)), ::put(p + "." + n, a); };
    if (v4) both("position.x", px, a_px), both("position.y", py, a_py);
    else both("distance", distance, a_distance);
    both("yaw", yaw, a_yaw);
    ::put(p + ".yaw_flip", a_flip), set(p + ".yaw_flip.speed_threshold", threshold), set(p + ".yaw_flip.rate", flip_rate);
    ::put(p + ".true_positive", a_rate), put_bins(p + ".true_positive.rate", rate);
  }
  double value(const Bins & b, double x, double y) const { for (std::size_t i = 0; i < radii.size(); ++i) if (std::hypot(x / b.x_radius, y) < radii[i]) return b.values[i]; return 0; }
};
struct Memory { bool known = false; double t = 0, distance = 0, yaw = 0, px = 0, py = 0; bool flip = false, seen = true; };
double step(double previous, double mean, double phi) { return mean + phi * (previous - mean); }
// deterministic: u < p with p 0 or 1 only
bool chance(bool previous, double rate, double phi) { const double p = (previous ? phi : 0) + (1 - phi) * rate; if (p > 1e-9 and p < 1 - 1e-9) throw std::logic_error("not deterministic"); return p > 0.5; }
using P2 = boost::geometry::model::d2::point_xy<double>;
std::optional<Thing> noised(const Model & m, Memory & y, Thing t, const Thing & e, double now, bool v4)
{
  const double dt = y.known ? now - y.t : 0;
  y.known = true, y.t = now;
  V3 basis = t.at;
  if (v4) {  // the point of the body nearest to the ego
    double best = 1e300;
    std::vector<V3> c;
    for (auto [a, b] : std::vector<std::pair<double, double>>{{1, 1}, {-1, 1}, {-1, -1}, {1, -1}}) c.push_back(t.at + rotate(t.q, {t.center[0] + a * t.size[0] / 2, t.center[1] + b * t.size[1] / 2, 0}));
    for (int i = 0; i < 4; ++i) {
      const auto a = c[i], b = c[(i + 1) % 4], d = b - a;
      const double u = std::min(1.0, std::max(0.0, ((e.at[0] - a[0]) * d[0] + (e.at[1] - a[1]) * d[1]) / (d[0] * d[0] + d[1] * d[1])));
      const V3 p{a[0] + u * d[0], a[1] + u * d[1], 0};
      if (const double x = std::hypot(p[0] - e.at[0], p[1] - e.at[1]); x < best) best = x, basis = p;
    }
  }
  const double dx = basis[0] - e.at[0], dy = basis[1] - e.at[1], speed = std::hypot(t.vx, t.vy);
  y.yaw = step(y.yaw, m.value(m.yaw, dx, dy), m.a_yaw.phi(dt));
  if (v4) y.px = step(y.px, m.value(m.px, dx, dy), m.a_px.phi(dt)), y.py = step(y.py, m.value(m.py, dx, dy), m.a_py.phi(dt));
  else y.distance = step(y.distance, m.value(m.distance, dx, dy), m.a_distance.phi(dt));
  y.flip = speed < m.threshold and chance(y.flip, m.flip_rate, m.a_flip.phi(dt));
  y.seen = chance(y.seen, m.value(m.rate, dx, dy), m.a_rate.phi(dt));
  if (not y.seen) return std::nullopt;
  const double length = std::hypot(dx, dy);
  if (v4) {
    const V3 unit{dx / length, dy / length, 0}, side{unit[1], -unit[0], 0};
    const Q turn = rpy(0, 0, y.yaw);
    const double z = t.at[2];
    const auto r = rotate(turn, {t.at[0] - basis[0], t.at[1] - basis[1], 0});
    t.at = {basis[0] + r[0] + y.px * side[0] + y.py * unit[0], basis[1] + r[1] + y.px * side[1] + y.py * unit[1], z};
    t.q = mul(t.q, turn);
    if (y.flip) {  // about the center of the body
      const auto c = t.at + rotate(t.q, t.center);
      t.q = mul(t.q, rpy(0, 0, M_PI)), t.at = c - rotate(t.q, t.center);
    }
  } else {
    t.at[0] += y.distance * dx / length, t.at[1] += y.distance * dy / length;
    t.q = mul(t.q, rpy(0, 0, y.yaw + (y.flip ? M_PI : 0)));
  }
  return t;
}
std::vector<Model> models(bool v4)
{
  const std::vector<double> radii{4, 6, 8, 16};
  Model quiet;
  quiet.radii = radii, quiet.distance = quiet.yaw = quiet.px = quiet.py = {1, {0, 0, 0, 0}}, quiet.rate = {1, {1, 1, 1, 1}};
  std::vector<Model> v{quiet};
  auto add = [&](auto f) { auto m = quiet; f(m); v.push_back(m); };
  for (Auto a : {Auto{}, Auto{0.5, 0, 0}, Auto{0.5, 4, 0.25}, Auto{0, 0, 0.75}, Auto{2, 1, 0}, Auto{0, 0, -3}, Auto{1, 0, 0}}) {
    add([&](Model & m) { (v4 ? m.px : m.distance) = {1, {0.5, 1, -0.75, 0.25}}, (v4 ? m.a_px : m.a_distance) = a; });
    add([&](Model & m) { (v4 ? m.py : m.distance) = {2, {0.25, -0.5, 1, 0.75}}, (v4 ? m.a_py : m.a_distance) = a; });
    add([&](Model & m) { m.yaw = {0.5, {0.25, 0.5, -0.125, 1}}, m.a_yaw = a; });
    add([&](Model & m) { (v4 ? m.px : m.distance) = {1, {0.5, 1, -0.75, 0.25}}, m.a_yaw = {0.25, 0, 0}, (v4 ? m.py : m.yaw) = {0.75, {1, 0.5, 0.25, 0.125}}, (v4 ? m.a_py : m.a_distance) = a, m.yaw = {1, {0.125, 0.25, 0.5, 1}}; });
  }
  for (double rate : {0.0, 1.0}) for (double threshold : {0.5, 2.0}) for (double phi : {0.0, 1.0}) add([&](Model & m) { m.flip_rate = rate, m.threshold = threshold, m.a_flip.offset = phi, m.yaw = {1, {0.25, 0.25, 0.5, 0.5}}; });
  for (auto rates : {std::vector<double>{1, 0, 1, 0}, {0, 1, 0, 1}, {0, 0, 0, 0}}) for (double phi : {0.0, 1.0}) add([&](Model & m) { m.rate = {1.5, rates}, m.a_rate.offset = phi, (v4 ? m.px : m.distance) = {1, {0.5, 1, -0.75, 0.25}}, (v4 ? m.a_px : m.a_distance) = {0, 0, 0.5}; });
  // entities beyond the table: everything is zero there, the rate, too
  for (double last : {5.0, 6.25}) for (double rate : {0.0, 1.0}) add([&](Model & m) { m.radii = {3, 4, 4.5, last}, m.rate = {1, {1, 1, rate, 1}}, (v4 ? m.py : m.distance) = {1, {0.5, 1, -0.75, 0.25}}, m.yaw = {1.25, {0.25, 0.5, 0.125, 1}}; });
  return v;
}
// motions of three entities over some frames
std::vector<std::vector<Thing>> motions(int kind, bool level)
{
  std::vector<std::vector<Thing>> f;
  for (int i = 0; i < 6; ++i) {
    const double s = i;
    Thing a, b, c;
    a.name = "a", a.at = {3 + (kind & 1 ? 0.75 * s : 0), 0.5, 0.25}, a.q = rpy(0, 0, 0.5 + 0.125 * s), a.vx = kind & 2 ? 1 : 0.25;
    b.name = "b", b.at = {-4.5, 3 - (kind & 1 ? 0.5 * s : 0), 0}, b.q = level ? rpy(0, 0, 2) : rpy(0.1, 0.05, 2), b.subtype = Subtype::PEDESTRIAN, b.type = Type::PEDESTRIAN, b.size = {0.5, 0.75, 1.75}, b.center = {0, 0, 0.875}, b.vx = 0, b.vy = kind & 2 ? 3 : 0.25 * s;
    c.name = "c", c.at = {1, -6.5 + (kind & 1 ? 0.25 * s : 0), 0}, c.q = rpy(0, 0, -1), c.subtype = Subtype::TRUCK, c.size = {2, 1, 2}, c.vx = 10;
    std::vector<Thing> v{ego({0.25 * s, -0.25, 0}, rpy(0, 0, 0.25))};
    if (kind & 4 ? i != 2 : true) v.push_back(a);
    v.push_back(b);
    if (kind & 4 ? i > 1 : true) v.push_back(c);
    f.push_back(v);
  }
  return f;
}
template <class F> void play(const std::string & key, int kind, bool level, Config c, F expect)
{
  World w(c);
  const auto frames = motions(kind, level);
  const double d = the_delay(0), g = the_truth_delay(0);
  for (int i = 0; i < int(frames.size()) + 4; ++i) {
    const auto now = 1 + i * 0.125;
    auto things = frames[std::min<int>(i, frames.size() - 1)];
    std::vector<std::string> lidar{"a", "b", "c"};
    const auto & o = w.frame(now, things, lidar);
    const int j = i - std::lround(d * 8), k = i - std::lround(g * 8);
    if (k >= 0) {
      std::vector<Seen> truth;
      auto & f = frames[std::min<int>(k, frames.size() - 1)];
      for (auto & t : f) if (t.name != "ego" and visible(t, f[0], the_range(1000), true, {})) truth.push_back(seen(t));
      if (not o.truth or not match(*o.truth, truth)) return mc::violation(key, cat("in frame ", i, " the truth is published as ", o.truth ? show(*o.truth) : "nothing", " instead of ", show(truth)));
    }
    if (j >= 0) {
      std::vector<Seen> want;
      auto & f = frames[std::min<int>(j, frames.size() - 1)];
      for (auto & t : f) if (t.name != "ego" and visible(t, f[0], the_range(1000), true, {})) if (auto x = expect(t, things[0], 1 + j * 0.125)) want.push_back(seen(*x));
      if (not o.detected or not match(*o.detected, want)) return mc::violation(key, cat("in frame ", i, " is detected ", o.detected ? show(*o.detected) : "nothing", " instead of ", show(want)));
      mc::state(cat(key, i)), mc::outcome(show(want));
    }
    mc::executed();
  }
}
void noise(int version)
{
  const bool v4 = version == 4;
  const auto all = models(v4);
  for (std::size_t i = 0; i < all.size(); ++i) for (int kind = 0; kind < 8; ++kind) {
    if (not mc::mine()) continue;
    const auto key = cat("noise v", version, " model ", i, " motion ", kind);
    mc::current(key);
    base();
    set(T + ".noise.model.version", version);
    std::map<std::string, Memory> memory;
    if (version == 2) {
      all[i].put(T + ".noise.v2", false);
      play(key, kind, v4, config(), [&](const Thing & t, const Thing & e, double now) { return noised(all[i], memory[t.name], t, e, now, false); });
    } else {
      // one model for vehicles by type and name, another for pedestrians, nothing for the rest
      const auto p = cat(T, ".noise.v", version);
      auto & second = all[(i * 5 + 3) % all.size()];
      all[i].put(p + ".cars", v4), second.put(p + ".people", v4);
      using L = std::vector<std::string>;
      set(p + ".cars.noise_application_entities.types", kind & 1 ? L{"*"} : L{"VEHICLE", "MISC_OBJECT"}), set(p + ".cars.noise_application_entities.subtypes", kind & 1 ? L{"BUS", "C*"} : L{"CA?"}), set(p + ".cars.noise_application_entities.names", kind & 2 ? L{"?"} : L{"x*", "a*"});
      set(p + ".people.noise_application_entities.types", L{"PEDESTRIAN"}), set(p + ".people.noise_application_entities.subtypes", kind & 1 ? L{"*"} : L{"P*N"}), set(p + ".people.noise_application_entities.names", kind & 4 ? L{"b"} : L{"c", "*"});
      play(key, kind, v4, config(), [&](const Thing & t, const Thing & e, double now) -> std::optional<Thing> { return t.name == "c" ? std::optional<Thing>(t) : noised(t.name == "a" ? all[i] : second, memory[t.name], t, e, now, v4); });
    }
  }
  base();
}
// the same seed gives the same errors; errors stay in proportion; a wrong table is an error
void seeds()
{
  for (int version = 1; version <= 4; ++version) for (int seed : {1, 2, 77}) {
    if (not mc::mine()) continue;
    base();
    set(T + ".noise.model.version", version), set(T + ".seed", seed);
    auto m = models(version == 4)[0];
    const auto p = version == 2 ? T + ".noise.v2" : cat(T, ".noise.v", version, ".all");
    if (version > 1) {
      m.put(p, version == 4);
      for (auto n : {"distance", "yaw", "position.x", "position.y"}) if (stub::overrides().count(cat(p, ".", n, ".standard_deviation.values"))) set(cat(p, ".", n, ".standard_deviation.values"), std::vector<double>{0.5, 0.5, 0.5, 0.5});
      for (auto n : {"types", "subtypes", "names"}) set(cat(p, ".noise_application_entities.", n), std::vector<std::string>{"*"});
    }
    set(T + ".noise.v1.position.standard_deviation", 0.5);
    std::vector<std::vector<Seen>> got;
    for (int run = 0; run < 3; ++run) {
      auto c = config();
      c.set_random_seed(run < 2 or version > 1 ? seed : seed + 1), c.set_pos_noise_stddev(0.5);
      if (version == 1 and mode == 0) set(T + ".seed", 100 + run);  // not for version 1
      if (version > 1) c.set_random_seed(100 + run), set(T + ".seed", run < 2 ? seed : seed + 1);
      World w(c);
      std::vector<Seen> all;
      for (auto & f : motions(1, false)) { const auto & o = still(w, f, {"a", "b", "c"}, 1 + 2 * got.size() + all.size()); if (o.detected) all.insert(all.end(), o.detected->begin(), o.detected->end()); }
      got.push_back(all);
    }
    const auto key = cat("seed ", seed, " version ", version);
    auto same = [&](int a, int b) { if (got[a].size() != got[b].size() or got[a].empty()) return false; for (std::size_t i = 0; i < got[a].size(); ++i) if (not close(got[a][i], got[b][i])) return false; return true; };
    if (not same(0, 1)) mc::violation(key, "two sensors with the same seed show different errors");
    if (same(0, 2)) mc::violation(key, "two sensors with different seeds show the same errors");
    mc::executed(3), mc::state(key);
  }
  for (int version : {2, 3, 4}) for (int k = 0; k < 3; ++k) {
    if (not mc::mine()) continue;
    base();
    set(T + ".noise.model.version", version);
    auto m = models(version == 4)[0];
    const auto p = version == 2 ? T + ".noise.v2" : cat(T, ".noise.v", version, ".all");
    m.put(p, version == 4);
    for (auto n : {"types", "subtypes", "names"}) set(cat(p, ".noise_application_entities.", n), std::vector<std::string>{"*"});
    if (k) set(p + ".yaw.mean.values", std::vector<double>(k == 1 ? 3 : 5, 0.0));
    World w(config());
    bool thrown = false;
    try { for (auto & f : motions(0, false)) still(w, f, {"a", "b", "c"}); } catch (const std::exception &) { thrown = true; }
    if (thrown != (k > 0)) mc::violation(cat("table ", version, " ", k), thrown ? "a right table is refused" : "a table of the wrong size is accepted");
    mc::executed();
  }
  base();
}
}  // namespace
int main(int argc, char ** argv)
{
  for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--mode") mode = std::atoi(argv[i + 1]);
  return mc::run(argc, argv, [] {
    mc::st().rule = "every pose of the ego × range × channel × order against nineteen positions; every sequence of three poses; every step × period × delays; every pair of sensors with noise of version 1; every table of "
                    "versions 2 to 4 (with errors that are certain) × motion of three entities; seeds";
    base(), who();
    base(), when();
    noise_v1();
    for (int v : {2, 3, 4}) noise(v);
    seeds();
  });
}
