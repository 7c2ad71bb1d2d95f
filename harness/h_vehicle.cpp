// What Autoware is told about its vehicle, and what the vehicle is told by Autoware (C27).
#include <concealer/autoware_universe.hpp>
#include <condition_variable>
#include <cstring>
#include <mutex>
#include <scenario_simulator_exception/exception.hpp>
#include <thread>
#include "mc.hpp"
namespace
{
using mc::cat;
using AU = concealer::AutowareUniverse;
using Control = autoware_control_msgs::msg::Control;
using Gear = autoware_vehicle_msgs::msg::GearCommand;
using Turn = autoware_vehicle_msgs::msg::TurnIndicatorsCommand;
using Mode = autoware_vehicle_msgs::msg::ControlModeReport;
using ModeService = autoware_vehicle_msgs::srv::ControlModeCommand;
using Path = tier4_planning_msgs::msg::PathWithLaneId;
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };

// lets the node's own thread do one thing at a time
struct Spinner
{
  std::mutex m;
  std::condition_variable cv;
  std::function<void()> task;
  bool busy = false, open = true;
  static Spinner & get() { static Spinner s; return s; }
  void turn()  // on the node's thread
  {
    std::unique_lock l(m);
    cv.wait_for(l, std::chrono::milliseconds(20), [&] { return static_cast<bool>(task); });
    if (not task) return;
    auto f = std::move(task);
    task = nullptr;
    struct Done { Spinner & s; ~Done() { s.busy = false; s.cv.notify_all(); } } done{*this};
    f();
  }
  bool run(std::function<void()> f)  // false: the thread does not answer
  {
    std::unique_lock l(m);
    task = std::move(f);
    busy = true;
    cv.notify_all();
    return cv.wait_for(l, std::chrono::seconds(60), [&] { return not busy; });
  }
};
std::vector<std::string> out;
std::string failing;  // publishing on this topic throws
template <typename M, typename F> bool as(const std::any & a, F f) { if (auto * m = std::any_cast<M>(&a)) return f(*m), true; return false; }
std::string show(const geometry_msgs::msg::Pose & p) { return cat(p.position.x, ",", p.position.y, ",", p.position.z, " ", p.orientation.x, ",", p.orientation.y, ",", p.orientation.z, ",", p.orientation.w); }
std::string show(const geometry_msgs::msg::Vector3 & v) { return cat(v.x, ",", v.y, ",", v.z); }
void record(const std::string & topic, const std::any & a)
{
  if (topic == failing) throw Boom("cannot publish " + topic);
  std::string s = topic + " ";
  auto stamp = [](const builtin_interfaces::msg::Time & t) { return cat(t.sec, ".", t.nanosec, " "); };
  const bool known =
    as<geometry_msgs::msg::AccelWithCovarianceStamped>(a, [&](auto & m) {
      s += stamp(m.header.stamp) + m.header.frame_id + " " + show(m.accel.accel.linear) + " " + show(m.accel.accel.angular) + " ";
      for (int i = 0; i < 36; ++i) if (m.accel.covariance[i] != 0) s += cat(i, ":", m.accel.covariance[i], " ");
    }) or
    as<nav_msgs::msg::Odometry>(a, [&](auto & m) { s += stamp(m.header.stamp) + m.header.frame_id + " " + m.child_frame_id + " " + show(m.pose.pose) + " " + show(m.twist.twist.linear) + " " + show(m.twist.twist.angular); }) or
    as<geometry_msgs::msg::PoseWithCovarianceStamped>(a, [&](auto & m) { s += stamp(m.header.stamp) + m.header.frame_id + " " + show(m.pose.pose); }) or
    as<autoware_vehicle_msgs::msg::SteeringReport>(a, [&](auto & m) { s += stamp(m.stamp) + cat(m.steering_tire_angle); }) or
    as<autoware_vehicle_msgs::msg::GearReport>(a, [&](auto & m) { s += stamp(m.stamp) + cat(int(m.report)); }) or
    as<Mode>(a, [&](auto & m) { s += cat(int(m.mode)); }) or
    as<autoware_vehicle_msgs::msg::VelocityReport>(a, [&](auto & m) { s += stamp(m.header.stamp) + m.header.frame_id + cat(" ", m.longitudinal_velocity, ",", m.lateral_velocity, ",", m.heading_rate); }) or
    as<autoware_vehicle_msgs::msg::TurnIndicatorsReport>(a, [&](auto & m) { s += stamp(m.stamp) + cat(int(m.report)); }) or
    as<geometry_msgs::msg::TransformStamped>(a, [&](auto & m) { s += m.header.frame_id + " " + m.child_frame_id + " " + show(m.transform.translation) + " " + cat(m.transform.rotation.x, ",", m.transform.rotation.y, ",", m.transform.rotation.z, ",", m.transform.rotation.w); });
  if (not known) s += "unknown message";
  out.push_back(s);
}
struct Node
{
  std::unique_ptr<AU> au;
  rclcpp::TimerBase::SharedPtr fast, slow, broadcast;
  explicit Node(bool localization)
  {
    rclcpp::TimerBase::all().clear();
    au = std::make_unique<AU>(localization);
    for (auto & w : rclcpp::TimerBase::all())
      if (auto t = w.lock()) {
        if (t->period == std::chrono::milliseconds(20)) fast = t;
        if (t->period == std::chrono::milliseconds(33)) slow = t;
        if (t->period == std::chrono::milliseconds(5)) broadcast = t;
      }
  }
};
struct State
{
  double v = 0, a = 0, steer = 0;
  int gear = 0, turn = 0, mode = Mode::AUTONOMOUS;
  std::vector<std::int64_t> route;
  geometry_msgs::msg::Pose pose;
  geometry_msgs::msg::Twist twist;
  geometry_msgs::msg::Accel accel;
  bool placed = false;
  geometry_msgs::msg::Pose placed_at;
};
const std::vector<std::string> & events()
{
  static const std::vector<std::string> e{"move A", "move B", "command A", "command B", "gear 1", "gear 2", "gear 20", "gear 21", "gear 22", "gear 0", "turn 0", "turn 1", "turn 2", "turn 3", "request 1", "request 4", "request 0", "request 2", "manual", "path A", "path B", "fast", "slow", "broadcast"};
  return e;
}
void histories()
{
  const int depth = mc::thorough() ? 5 : 4;
  const auto & all = events();
  long total = 1;
  for (int i = 0; i < depth; ++i) total *= all.size();
  for (bool localization : {true, false}) {
    std::unique_ptr<Node> node;
    State s;
    for (long h = 0; h < total; ++h) {
      if (not mc::mine()) continue;
      // the node lives on: only what a history observes is compared with what came last
      if (not node) node = std::make_unique<Node>(localization), s = {};
      auto & au = *node->au;
      std::string name = localization ? "" : "ground truth: ";
      for (long r = h, i = 0; i < depth; ++i, r /= all.size()) name += all[r % all.size()] + ", ";
      mc::current(name);
      for (long r = h, i = 0; i < depth; ++i, r /= all.size()) {
        const auto & e = all[r % all.size()];
        const double b = e.back() == 'B';
        rclcpp::stub::now_ns() += 1000000007;
        const auto now = builtin_interfaces::msg::Time(rclcpp::Time(rclcpp::stub::now_ns()));
        const auto stamp = cat(now.sec, ".", now.nanosec, " ");
        bool answered = true;
        std::vector<std::string> want;
        out.clear();
        if (e[0] == 'm' and e[1] == 'o') {
          s.pose.position.x = 10 + b, s.pose.position.y = -2 - b, s.pose.position.z = 0.5;
          s.pose.orientation.z = b ? 0.6 : 0, s.pose.orientation.w = b ? 0.8 : 1;
          s.twist.linear.x = 3 + b, s.twist.linear.y = 0.25, s.twist.angular.z = b ? -0.5 : 0.125;
          s.accel.linear.x = b ? -1.5 : 2, s.accel.angular.z = 0.75;
          au.current_pose.store(s.pose);
          au.current_twist.store(s.twist);
          au.current_acceleration.store(s.accel);
        } else if (e[0] == 'c') {
          Control c;
          c.longitudinal.velocity = s.v = b ? -4 : 5.5, c.longitudinal.acceleration = s.a = b ? -1.25 : 1.5, c.lateral.steering_tire_angle = s.steer = b ? -0.125 : 0.25;
          c.lateral.steering_tire_rotation_rate = 9, c.longitudinal.jerk = 8;
          answered = Spinner::get().run([&] { rclcpp::stub::deliver("/control/command/control_cmd", c); });
        } else if (e[0] == 'g') {
          Gear g;
          g.command = s.gear = std::stoi(e.substr(5));
          answered = Spinner::get().run([&] { rclcpp::stub::deliver("/control/command/gear_cmd", g); });
        } else if (e[0] == 't') {
          Turn t;
          t.command = s.turn = std::stoi(e.substr(5));
          answered = Spinner::get().run([&] { rclcpp::stub::deliver("/control/command/turn_indicators_cmd", t); });
        } else if (e[0] == 'r') {
          ModeService::Request q;
          q.mode = std::stoi(e.substr(8));
          std::any response;
          answered = Spinner::get().run([&] { rclcpp::stub::servers().at("/control/control_mode_request")(q, response); });
          const bool ok = q.mode == ModeService::Request::AUTONOMOUS;
          if (ok) s.mode = Mode::AUTONOMOUS;
          if (std::any_cast<ModeService::Response>(response).success != ok) return mc::violation(name, "the request for control mode " + e.substr(8) + (ok ? " was refused" : " was granted"));
        } else if (e == "manual") {
          au.setManualMode();
          s.mode = Mode::MANUAL;
        } else if (e[0] == 'p') {
          Path p;
          p.points.resize(b ? 1 : 2);
          p.points[0].lane_ids = b ? std::vector<std::int64_t>{} : std::vector<std::int64_t>{34, 20000000003};
          if (not b) p.points[1].lane_ids = {20000000003};
          s.route = b ? std::vector<std::int64_t>{} : std::vector<std::int64_t>{34, 20000000003, 20000000003};
          answered = Spinner::get().run([&] { rclcpp::stub::deliver("/planning/scenario_planning/lane_driving/behavior_planning/path_with_lane_id", p); });
        } else if (e == "fast") {
          answered = Spinner::get().run([&] { node->fast->callback(); });
          const std::string debug = localization ? "" : "/simulation/debug";
          want = {debug + "/localization/acceleration " + stamp + "/base_link " + show(s.accel.linear) + " " + show(s.accel.angular) + " 0:0.001 7:0.001 14:0.001 21:0.001 28:0.001 35:0.001 ",
                  debug + "/localization/kinematic_state " + stamp + "map  " + show(s.pose) + " " + show(s.twist.linear) + " " + show(s.twist.angular),
                  std::string(localization ? "/simulation/debug" : "") + "/localization/pose_estimator/pose_with_covariance " + stamp + "map " + show(s.pose)};
          s.placed = true;
          s.placed_at = s.pose;
        } else if (e == "slow") {
          answered = Spinner::get().run([&] { node->slow->callback(); });
          want = {cat("/vehicle/status/control_mode ", s.mode), "/vehicle/status/gear_status " + stamp + cat(s.gear), "/vehicle/status/steering_status " + stamp + cat(s.steer),
                  "/vehicle/status/velocity_status " + stamp + "base_link " + cat(s.twist.linear.x, ",", s.twist.linear.y, ",", s.twist.angular.z), "/vehicle/status/turn_indicators_status " + stamp + cat(s.turn ? s.turn : 1)};
        } else {
          answered = Spinner::get().run([&] { node->broadcast->callback(); });
          if (s.placed) want = {std::string("/tf map ") + (localization ? "base_link " : "base_link_ground_truth ") + cat(s.placed_at.position.x, ",", s.placed_at.position.y, ",", s.placed_at.position.z, " 0,0,", s.placed_at.orientation.z, ",", s.placed_at.orientation.w)};
        }
        mc::executed();
        if (not answered) return mc::violation(name, "the node does not answer any more");
        std::sort(want.begin(), want.end());
        std::sort(out.begin(), out.end());
        if (out != want) {
          std::string d;
          for (std::size_t k = 0; k < std::max(out.size(), want.size()); ++k)
            if (k >= out.size() or k >= want.size() or out[k] != want[k]) d += "'" + (k < out.size() ? out[k] : "") + "' instead of '" + (k < want.size() ? want[k] : "") + "' ";
          mc::violation(name, "published " + d);
          node.reset();
          break;
        }
        const auto [v, a, steer, sign, gear] = au.getVehicleCommand();
        const double dir = s.gear == Gear::REVERSE or s.gear == Gear::REVERSE_2 ? -1 : s.gear == Gear::NONE ? 0 : 1;
        if (v != s.v or a != s.a or steer != s.steer or sign != dir or gear != s.gear) mc::violation(name, cat("the command is ", v, " ", a, " ", steer, " ", sign, " ", gear, " instead of ", s.v, " ", s.a, " ", s.steer, " ", dir, " ", s.gear));
        if (au.getRouteLanelets() != s.route) mc::violation(name, "the route differs");
        if (int(au.getControlModeReport().mode) != s.mode) mc::violation(name, cat("the control mode is ", int(au.getControlModeReport().mode), " instead of ", s.mode));
        try {
          au.rethrow();
        } catch (...) {
          return mc::violation(name, "reported a failure although there was none");
        }
        mc::state(cat(localization, s.v, s.gear, s.turn, s.mode, s.route.size(), s.pose.position.x, s.placed, s.placed_at.position.x, " ", e));
      }
      mc::outcome(name);
    }
  }
}
void failures()
{
  const std::vector<std::string> topics{"/localization/acceleration", "/localization/kinematic_state", "/simulation/debug/localization/pose_estimator/pose_with_covariance", "/vehicle/status/control_mode", "/vehicle/status/gear_status", "/vehicle/status/steering_status", "/vehicle/status/velocity_status", "/vehicle/status/turn_indicators_status", "/tf"};
  for (auto & t : topics)
    for (int before = 0; before < 3; ++before) {
      if (not mc::mine()) continue;
      const auto name = cat("publishing ", t, " fails after ", before, " rounds");
      mc::current(name);
      Node n(true);
      for (int i = 0; i <= before; ++i) {
        failing = i == before ? t : "";
        std::string got = "nothing";
        const bool fast = t.find("local") != std::string::npos, tf = t == "/tf";
        Spinner::get().run([&] {
          if (tf) n.fast->callback(), n.broadcast->callback();
          else (fast ? n.fast : n.slow)->callback();
        });
        // the failure becomes known once the thread has ended
        for (int k = 0; k < (i == before ? 20000 : 1) and got == "nothing"; ++k) {
          try {
            n.au->rethrow();
          } catch (const Boom & e) {
            got = e.what();
          } catch (const std::exception & e) {
            got = std::string("another exception: ") + e.what();
          } catch (...) {
            got = "something that is not the exception";
          }
          if (got == "nothing" and i == before) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        mc::executed();
        const auto want = i == before ? "cannot publish " + t : "nothing";
        if (got != want) mc::violation(name, "round " + std::to_string(i) + " gave " + got);
      }
      failing = "";
      mc::state(name);
    }
}
// errors of the sensors: without spread they are exactly their means
void errors()
{
  using Parameters = rclcpp::node_interfaces::NodeParametersInterface;
  const std::string O = "t.nav_msgs::msg::Odometry.", V = "t.autoware_vehicle_msgs::msg::VelocityReport.", P = "t.geometry_msgs::msg::PoseWithCovarianceStamped.", S = "t.sensor_msgs::msg::Imu.";
  const std::vector<std::string> odometry{"pose.pose.position.local_x", "pose.pose.position.local_y", "pose.pose.position.local_z", "pose.pose.orientation.y", "twist.twist.linear.x", "twist.twist.linear.y", "twist.twist.linear.z", "twist.twist.angular.x", "twist.twist.angular.y", "twist.twist.angular.z", "pose.pose.orientation.r", "pose.pose.orientation.p"};
  const std::vector<std::string> velocity{"longitudinal_velocity", "lateral_velocity", "heading_rate"};
  const std::vector<std::string> posed{"pose.pose.position.local_x", "pose.pose.position.local_y", "pose.pose.position.local_z", "pose.pose.orientation.r", "pose.pose.orientation.p", "pose.pose.orientation.y", "pose.covariance.x_x", "pose.covariance.y_y", "pose.covariance.z_z", "pose.covariance.roll_roll", "pose.covariance.pitch_pitch", "pose.covariance.yaw_yaw"};
  const std::vector<std::string> imu{"orientation.r", "orientation.p", "orientation.y", "angular_velocity.x", "angular_velocity.y", "angular_velocity.z", "linear_acceleration.x", "linear_acceleration.y", "linear_acceleration.z", "orientation_covariance.roll_roll", "orientation_covariance.pitch_pitch", "orientation_covariance.yaw_yaw", "angular_velocity_covariance.x_x", "angular_velocity_covariance.y_y", "angular_velocity_covariance.z_z", "linear_acceleration_covariance.x_x", "linear_acceleration_covariance.y_y", "linear_acceleration_covariance.z_z"};
  auto near = [](double a, double b) { return std::abs(a - b) < 1e-6; };
  auto turn = [](double yaw, double pitch = 0, double roll = 0) {
    geometry_msgs::msg::Quaternion q;
    const double cy = std::cos(yaw / 2), sy = std::sin(yaw / 2), cp = std::cos(pitch / 2), sp = std::sin(pitch / 2), cr = std::cos(roll / 2), sr = std::sin(roll / 2);
    q.w = cr * cp * cy + sr * sp * sy, q.x = sr * cp * cy - cr * sp * sy, q.y = cr * sp * cy + sr * cp * sy, q.z = cr * cp * sy - sr * sp * cy;
    return q;
  };
  auto same = [&](const geometry_msgs::msg::Quaternion & a, const geometry_msgs::msg::Quaternion & b) { return std::abs(std::abs(a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w) - 1) < 1e-6; };
  // every single error and every pair of errors
  auto each = [&](const std::string & prefix, const std::vector<std::string> & fields, auto run) {
    for (std::size_t i = 0; i < fields.size(); ++i)
      for (std::size_t j = i; j < fields.size(); ++j)
        for (double add : {0.0, 0.25})
          for (double factor : {0.0, 0.5})
            for (double yaw : {0.0, 0.5, 1.5, -2.0})
              for (double speed : {0.0, 1.0, 4.0})
                for (double threshold : {0.0, 1.0}) {
                  if (not mc::mine()) continue;
                  auto p = std::make_shared<Parameters>();
                  std::map<std::string, std::pair<double, double>> mean;
                  for (auto k : {i, j}) {
                    p->values[prefix + fields[k] + ".error.additive.mean"] = rclcpp::ParameterValue(add);
                    p->values[prefix + fields[k] + ".error.multiplicative.mean"] = rclcpp::ParameterValue(factor);
                    mean[fields[k]] = {add, factor};
                  }
                  p->values[prefix + "speed_threshold"] = rclcpp::ParameterValue(threshold);
                  p->values["t.seed"] = rclcpp::ParameterValue(7);
                  const auto name = cat("errors of ", prefix, fields[i], " and ", fields[j], ": ", add, " and ", factor, " at heading ", yaw, " speed ", speed, " threshold ", threshold);
                  mc::current(name);
                  mc::executed();
                  mc::state(name);
                  run(p, name, yaw, speed, speed >= threshold, [mean](const std::string & f, double v) {
                    const auto m = mean.find(f);
                    return m == mean.end() ? v : v * (m->second.second + 1) + m->second.first;
                  });
                }
  };
  each(O, odometry, [&](auto & p, const std::string & name, double yaw, double speed, bool on, auto f) {
    const bool tilted = f("pose.pose.orientation.r", 0.0) != 0 or f("pose.pose.orientation.p", 0.0) != 0;
    concealer::NormalDistribution<nav_msgs::msg::Odometry> d(p, "t");
    nav_msgs::msg::Odometry m;
    m.pose.pose.position.x = 3, m.pose.pose.position.y = -4, m.pose.pose.position.z = 1;
    m.pose.pose.orientation = turn(yaw);
    m.twist.twist.linear.x = speed * 0.6, m.twist.twist.linear.y = speed * 0.8, m.twist.twist.angular.x = 0.1, m.twist.twist.angular.y = 0.2, m.twist.twist.angular.z = 0.3;
    const auto r = d(m);
    auto g = [&](const std::string & s, double v) { return on ? f(s, v) : v; };
    const double x = g("pose.pose.position.local_x", 0), y = g("pose.pose.position.local_y", 0), z = g("pose.pose.position.local_z", 0);
    if (not near(r.pose.pose.position.x, 3 + x * std::cos(yaw) - y * std::sin(yaw)) or not near(r.pose.pose.position.y, -4 + x * std::sin(yaw) + y * std::cos(yaw)) or not near(r.pose.pose.position.z, 1 + z)) mc::violation(name, "the position became " + show(r.pose.pose));
    // Euler angles are unique only up to representation when they are scaled: judged where they are shifted, and about one axis
    if ((not on or (not tilted and near(g("pose.pose.orientation.y", 1) - g("pose.pose.orientation.y", 0), 1))) and not same(r.pose.pose.orientation, turn(on ? yaw + g("pose.pose.orientation.y", 0) : yaw))) mc::violation(name, "the orientation became " + show(r.pose.pose));
    if (not near(r.twist.twist.linear.x, g("twist.twist.linear.x", speed * 0.6)) or not near(r.twist.twist.linear.y, g("twist.twist.linear.y", speed * 0.8)) or not near(r.twist.twist.linear.z, g("twist.twist.linear.z", 0)) or not near(r.twist.twist.angular.x, g("twist.twist.angular.x", 0.1)) or not near(r.twist.twist.angular.y, g("twist.twist.angular.y", 0.2)) or not near(r.twist.twist.angular.z, g("twist.twist.angular.z", 0.3)))
      mc::violation(name, "the speed became " + show(r.twist.twist.linear) + " " + show(r.twist.twist.angular));
    mc::outcome(show(r.pose.pose));
  });
  each(V, velocity, [&](auto & p, const std::string & name, double, double speed, bool, auto f) {
    concealer::NormalDistribution<autoware_vehicle_msgs::msg::VelocityReport> d(p, "t");
    autoware_vehicle_msgs::msg::VelocityReport m;
    m.longitudinal_velocity = -speed, m.lateral_velocity = speed * 0.5, m.heading_rate = 0.25;
    const auto r = d(m);
    const bool on = std::hypot(double(m.longitudinal_velocity), double(m.lateral_velocity)) >= p->values[V + "speed_threshold"].v.index() * 0 + std::get<double>(p->values[V + "speed_threshold"].v);
    auto g = [&](const std::string & s, double v) { return on ? f(s, v) : v; };
    if (not near(r.longitudinal_velocity, g("longitudinal_velocity", -speed)) or not near(r.lateral_velocity, g("lateral_velocity", speed * 0.5)) or not near(r.heading_rate, g("heading_rate", 0.25))) mc::violation(name, cat("became ", r.longitudinal_velocity, " ", r.lateral_velocity, " ", r.heading_rate));
  });
  each(P, posed, [&](auto & p, const std::string & name, double yaw, double, bool, auto f) {
    concealer::NormalDistribution<geometry_msgs::msg::PoseWithCovarianceStamped> d(p, "t");
    geometry_msgs::msg::PoseWithCovarianceStamped m;
    m.pose.pose.position.x = 3, m.pose.pose.position.y = -4, m.pose.pose.position.z = 1;
    m.pose.pose.orientation = turn(yaw);
    const auto r = d(m);
    const double x = f("pose.pose.position.local_x", 0), y = f("pose.pose.position.local_y", 0), z = f("pose.pose.position.local_z", 0);
    if (not near(r.pose.pose.position.x, 3 + x * std::cos(yaw) - y * std::sin(yaw)) or not near(r.pose.pose.position.y, -4 + x * std::sin(yaw) + y * std::cos(yaw)) or not near(r.pose.pose.position.z, 1 + z)) mc::violation(name, "the position became " + show(r.pose.pose));
    const auto e = turn(f("pose.pose.orientation.y", 0), f("pose.pose.orientation.p", 0), f("pose.pose.orientation.r", 0)), o = m.pose.pose.orientation;
    geometry_msgs::msg::Quaternion q;
    q.w = o.w * e.w - o.x * e.x - o.y * e.y - o.z * e.z, q.x = o.w * e.x + o.x * e.w + o.y * e.z - o.z * e.y, q.y = o.w * e.y - o.x * e.z + o.y * e.w + o.z * e.x, q.z = o.w * e.z + o.x * e.y - o.y * e.x + o.z * e.w;
    if (not same(q, r.pose.pose.orientation)) mc::violation(name, "the orientation became " + show(r.pose.pose));
    const char * c[] = {"x_x", "y_y", "z_z", "roll_roll", "pitch_pitch", "yaw_yaw"};
    for (int i = 0; i < 36; ++i)
      if (not near(r.pose.covariance[i], i % 7 ? 0 : f(std::string("pose.covariance.") + c[i / 7], 0))) mc::violation(name, cat("covariance ", i, " became ", r.pose.covariance[i]));
  });
  for (bool active : {true, false})
    each(S, imu, [&](auto & p, const std::string & name, double yaw, double speed, bool, auto f) {
      concealer::NormalDistribution<sensor_msgs::msg::Imu> d(p, "t");
      d.active = active;
      sensor_msgs::msg::Imu m;
      m.orientation = turn(yaw, 0.25, -0.125);
      m.angular_velocity.x = 0.1, m.angular_velocity.y = 0.2, m.angular_velocity.z = 0.3;
      m.linear_acceleration.x = speed, m.linear_acceleration.y = -1, m.linear_acceleration.z = 9.75;
      const auto r = d(m);
      auto g = [&](const std::string & s, double v) { return active ? f(s, v) : v; };
      if (not same(r.orientation, turn(g("orientation.y", yaw), g("orientation.p", 0.25), g("orientation.r", -0.125)))) mc::violation(name, "the orientation differs");
      if (not near(r.angular_velocity.x, g("angular_velocity.x", 0.1)) or not near(r.angular_velocity.y, g("angular_velocity.y", 0.2)) or not near(r.angular_velocity.z, g("angular_velocity.z", 0.3))) mc::violation(name, "the angular velocity became " + show(r.angular_velocity));
      if (not near(r.linear_acceleration.x, g("linear_acceleration.x", speed)) or not near(r.linear_acceleration.y, g("linear_acceleration.y", -1)) or not near(r.linear_acceleration.z, g("linear_acceleration.z", 9.75))) mc::violation(name, "the acceleration became " + show(r.linear_acceleration));
      const char * rpy[] = {"roll_roll", "pitch_pitch", "yaw_yaw"};
      const char * xyz[] = {"x_x", "y_y", "z_z"};
      for (int i = 0; i < 9; ++i) {
        if (not near(r.orientation_covariance[i], i % 4 ? 0 : g(std::string("orientation_covariance.") + rpy[i / 4], 0))) mc::violation(name, cat("orientation covariance ", i, " became ", r.orientation_covariance[i]));
        if (not near(r.angular_velocity_covariance[i], i % 4 ? 0 : g(std::string("angular_velocity_covariance.") + xyz[i / 4], 0))) mc::violation(name, cat("angular velocity covariance ", i, " became ", r.angular_velocity_covariance[i]));
        if (not near(r.linear_acceleration_covariance[i], i % 4 ? 0 : g(std::string("linear_acceleration_covariance.") + xyz[i / 4], 0))) mc::violation(name, cat("linear acceleration covariance ", i, " became ", r.linear_acceleration_covariance[i]));
      }
    });
}
void all()
{
  mc::st().rule = "every sequence of movements, commands, requests and timers up to the depth; every failing publisher; every pair of sensor errors without spread";
  rclcpp::stub::Bus::hook() = record;
  rclcpp::stub::spin_hook() = [] { Spinner::get().turn(); };
  histories();
  failures();
  errors();
}
}  // namespace
int main(int argc, char ** argv)
{
  rclcpp::stub::overrides()["architecture_type"] = std::string("awf/universe/20240605");
  return mc::run(argc, argv, all);
}
