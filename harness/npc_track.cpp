// Entities that follow trajectories (C40).
#include "npc.hpp"
namespace npc
{
namespace
{
using Pose = geometry_msgs::msg::Pose;
struct Stop { double x, y; double time; };
struct Track
{
  std::string name;
  double dt, v0, target;   // target < 0: none
  bool relative, walks;
  int limits;
  std::vector<Stop> stops;
  std::string show() const
  {
    std::string r = cat(name, walks ? " walking" : "", ", dt ", dt, ", speed ", v0, ", target ", target, ", limits ", limits, relative ? ", relative times" : "", ":");
    for (auto & s : stops) r += cat(" (", s.x, ",", s.y, std::isnan(s.time) ? std::string() : cat(" at ", s.time), ")");
    return r;
  }
};
Net & field() { static Net n = [] { auto r = grid({500.5}, {1}, 0, false); for (auto & c : r.cells) c.speed = 50; return r; }(); return n; }
struct Bounds { double up, upRate, down, downRate, speed; };
constexpr Bounds LIMITS[] = {{10, 3, 10, 3, 30}, {3, 2, 4, 3, 20}};
void follow(const Track & h)
{
  mc::current(h.show());
  mc::state(h.show());
  Sim s(field(), h.dt);
  Pose p;
  const double yaw = std::atan2(h.stops[1].y - h.stops[0].y, h.stops[1].x - h.stops[0].x);
  p.position.x = h.stops[0].x; p.position.y = h.stops[0].y;
  p.orientation.z = std::sin(yaw / 2); p.orientation.w = std::cos(yaw / 2);
  if (h.walks) {
    traffic_simulator_msgs::msg::PedestrianParameters w;
    w.name = "walker"; w.bounding_box.dimensions.x = w.bounding_box.dimensions.y = 0.8; w.bounding_box.dimensions.z = 1.8;
    s.em->spawnEntity<PedestrianEntity>("a", p, w, 0);
  } else {
    traffic_simulator_msgs::msg::VehicleParameters v;
    v.name = "car";
    v.bounding_box.dimensions.x = 4; v.bounding_box.dimensions.y = 1.8; v.bounding_box.dimensions.z = 1.5; v.bounding_box.center.x = 1;
    v.axles.front_axle.track_width = v.axles.rear_axle.track_width = 1.6;
    v.performance.max_speed = 50; v.performance.max_acceleration = v.performance.max_deceleration = 50; v.performance.max_acceleration_rate = v.performance.max_deceleration_rate = 50;
    s.em->spawnEntity<VehicleEntity>("a", p, v, 0);
  }
  auto & e = s.em->getEntity("a");
  const auto & l = LIMITS[h.limits];
  auto b = e.getBehaviorParameter();
  b.dynamic_constraints.max_acceleration = l.up; b.dynamic_constraints.max_acceleration_rate = l.upRate; b.dynamic_constraints.max_deceleration = l.down; b.dynamic_constraints.max_deceleration_rate = l.downRate; b.dynamic_constraints.max_speed = l.speed;
  e.setBehaviorParameter(b);
  e.setLinearVelocity(h.v0);
  if (h.target >= 0) e.requestSpeedChange(h.target, true);
  s.em->startNpcLogic(0);
  auto t = std::make_shared<traffic_simulator_msgs::msg::PolylineTrajectory>();
  t->dynamic_constraints_ignorable = true;
  t->base_time = h.relative ? 0 : std::numeric_limits<double>::quiet_NaN();
  for (auto & q : h.stops) { traffic_simulator_msgs::msg::Vertex x; x.time = q.time; x.position.position.x = q.x; x.position.position.y = q.y; x.position.orientation.w = 1; t->shape.vertices.push_back(x); }
  std::string trace = h.show();
  const double goal = h.target < 0 ? h.v0 : h.target, far = std::hypot(h.stops.back().x - h.stops[h.stops.size() - 2].x, h.stops.back().y - h.stops[h.stops.size() - 2].y);
  const bool easy = !h.limits && h.name.find("timed") == std::string::npos && h.v0 <= goal && far > goal * goal / l.down / 2 + goal * l.down / l.downRate + 2;
  const auto say = [&](std::string key, std::string what) { mc::violation(cat(easy ? "EASY " : "hard ", key, " ", h.name), what, trace); };
  double pv = h.v0, pa = 0, px = h.stops[0].x, py = h.stops[0].y;
  int f = 0;
  double fastest = 0, step = 0.1;
  bool done = false;
  const bool timed = std::any_of(h.stops.begin(), h.stops.end(), [](auto & q) { return !std::isnan(q.time); });
  struct Pass { double x, y, time, step; };
  std::vector<Pass> passes{{px, py, 0, std::max(0.1, h.v0 * h.dt)}};
  try {
    e.requestFollowTrajectory(t);
    double length = 0;
    for (std::size_t k = 1; k < h.stops.size(); ++k) length += std::hypot(h.stops[k].x - h.stops[k - 1].x, h.stops[k].y - h.stops[k - 1].y);
    const int frames = std::max(1200, int((length / std::max(goal, 1.0) + 30) / h.dt));
    for (; f < frames; ++f) {
      s.frame();
      if (e.getCurrentAction() != "follow_polyline_trajectory") { done = true; break; }
      const double w = e.getCurrentTwist().linear.x, a = e.getCurrentAccel().linear.x, x = e.getMapPose().position.x, y = e.getMapPose().position.y;
      trace += cat("\n", s.now, ": ", x, ",", y, " speed ", w, " acceleration ", a);
      const double moved = std::hypot(x - px, y - py);
      if (w < -1e-6) { say("backwards", cat("speed ", w)); return; }
      if (std::abs(moved - (pv + w) / 2 * h.dt) > 1e-3) { say("place", cat("moved by ", moved, " instead of ", (pv + w) / 2 * h.dt)); return; }
      if (std::abs(a - (w - pv) / h.dt) > 1e-6) { say("acceleration", cat(a, " instead of ", (w - pv) / h.dt)); return; }
      const double most = timed ? l.speed : std::max(goal, h.v0);
      if (w > most + 1e-6 && w > pv + 1e-9) { say("too fast", cat(w, " instead of at most ", most)); return; }
      if (a > l.up + 1e-6 || a < -l.down - 1e-6) { say("limit", cat(a, ", limits ", l.up, " and ", l.down)); return; }
      if (easy && a - pa > l.upRate * h.dt + 1e-6 && pa >= 0) { say("jerk up", cat((a - pa) / h.dt)); return; }
      // along the way: towards the next stop, or past it by no more than a step
      const auto gap = [&](std::size_t k) { return std::hypot(x - h.stops[k].x, y - h.stops[k].y); };
      const auto beside = [&](std::size_t k) {   // from the piece that ends at the stop
        const double ux = h.stops[k].x - h.stops[k - 1].x, uy = h.stops[k].y - h.stops[k - 1].y, n = std::hypot(ux, uy);
        const double q = std::clamp(((x - h.stops[k - 1].x) * ux + (y - h.stops[k - 1].y) * uy) / n, 0.0, easy || k + 1 < h.stops.size() ? n : 1e9);   // (the end can be too near to stop)
        return std::hypot(x - h.stops[k - 1].x - ux / n * q, y - h.stops[k - 1].y - uy / n * q);
      };
      step = std::max({step, w * h.dt, pv * h.dt});
      double least = 1e9;
      for (std::size_t k = 1; k < h.stops.size(); ++k) least = std::min(least, beside(k));
      if (least > step + 0.02) { say("off the way", cat(least, " from it")); return; }
      passes.push_back({x, y, s.now, step});
      fastest = std::max(fastest, w);
      pv = w; pa = a; px = x; py = y;
    }
  } catch (const common::Error & x) {
    // (what the controller cannot do it says)
    if (easy) { std::string what = x.what(); say(cat("refused "), what.substr(what.find("An error"))); return; }
    mc::outcome("refused");
    return;
  } catch (const std::exception & x) {
    say(cat("exception ", std::string(x.what()).substr(0, 60)), x.what());
    return;
  }
  if (!done) { if (easy) say("never ends", cat("at ", px, ",", py)); return; }
  const double gap = std::hypot(px - h.stops.back().x, py - h.stops.back().y);
  if (gap > 0.1 + 1e-3 || pv > 1e-9) { say("end", cat("ends ", gap, " from it at speed ", pv)); return; }
  if (easy && far > goal * goal / l.up + 2 * goal * l.up / l.upRate + 25 && fastest < goal - 0.05) { say("slow", cat(fastest, " at most, instead of ", goal)); return; }
  // the stops one after the other, those with a time at it
  double due = 0;
  for (std::size_t k = 1, i = 0; k < h.stops.size(); ++k) {
    const double at = h.stops[k].time + (h.relative ? due : 0);
    double least = 1e9; std::size_t best = i;
    for (std::size_t j = i; j < passes.size(); ++j) {
      const double g = std::hypot(passes[j].x - h.stops[k].x, passes[j].y - h.stops[k].y) - passes[j].step;
      if (g < least && (std::isnan(at) || std::abs(passes[j].time - at) < 2.1 * h.dt)) { least = g; best = j; }
      if (std::isnan(at) && least < 0.05) break;
    }
    if (least > 0.1) { say(std::isnan(at) ? "stop left out" : "time", cat("stop ", k, " missed by ", least)); return; }
    i = best; if (!std::isnan(at)) due = at;
  }
  mc::executed(f);
  mc::outcome(cat(f, " ", px));
}
// without a driver: where it is is what the trajectory says
void carried(double dt, double base, std::vector<std::array<double, 4>> way, double v0, bool walks)   // (time, x, y, yaw)
{
  std::string trace = cat("dt ", dt, ", base ", base, ", speed ", v0, walks ? ", walking:" : ":");
  for (auto & w : way) trace += cat(" (", w[0], ": ", w[1], ",", w[2], " yaw ", w[3], ")");
  mc::current(trace);
  mc::state(trace);
  const auto say = [&](std::string key, std::string what) { mc::violation(cat("carried: ", key), what, trace); };
  Sim s(field(), dt);
  const auto at = [](double x, double y, double yaw) { Pose p; p.position.x = x; p.position.y = y; p.orientation.z = std::sin(yaw / 2); p.orientation.w = std::cos(yaw / 2); return p; };
  const Pose first = at(way[0][1] - 1, way[0][2], way[0][3]);
  if (walks) {
    traffic_simulator_msgs::msg::PedestrianParameters p;
    p.name = "walker"; p.bounding_box.dimensions.x = p.bounding_box.dimensions.y = 0.8; p.bounding_box.dimensions.z = 1.8;
    s.em->spawnEntity<PedestrianEntity>("a", first, p, 0, PedestrianEntity::BuiltinBehavior::doNothing());
  } else {
    traffic_simulator_msgs::msg::VehicleParameters v;
    v.name = "car";
    v.bounding_box.dimensions.x = 4; v.bounding_box.dimensions.y = 1.8; v.bounding_box.dimensions.z = 1.5; v.axles.front_axle.track_width = v.axles.rear_axle.track_width = 1.6;
    s.em->spawnEntity<VehicleEntity>("a", first, v, 0, VehicleEntity::BuiltinBehavior::doNothing());
  }
  auto & e = s.em->getEntity("a");
  e.setLinearVelocity(v0);
  s.em->startNpcLogic(0);
  auto t = std::make_shared<traffic_simulator_msgs::msg::PolylineTrajectory>();
  t->dynamic_constraints_ignorable = true;
  t->base_time = base;
  for (auto & w : way) { traffic_simulator_msgs::msg::Vertex x; x.time = w[0]; x.position = at(w[1], w[2], w[3]); t->shape.vertices.push_back(x); }
  try {
    e.requestFollowTrajectory(t);
    double pv = v0, pa = 0, pw = 0;
    const int frames = int((base + way.back()[0]) / dt) + 5;
    bool ended = false;
    for (int f = 0; f < frames; ++f) {
      const double now = s.now + dt - base;   // at the end of the frame
      const bool edge = std::any_of(way.begin(), way.end(), [&](auto & w) { return std::abs(w[0] - now) < 1e-6; });
      if (edge) return;
      s.frame();
      const auto & p = e.getMapPose();
      const double x = p.position.x, y = p.position.y, yaw = 2 * std::atan2(p.orientation.z, p.orientation.w), v = e.getCurrentTwist().linear.x, a = e.getCurrentAccel().linear.x, w = e.getCurrentTwist().angular.z;
      trace += cat("\n", s.now, ": ", x, ",", y, " yaw ", yaw, " speed ", v, " acceleration ", a, " turning ", w);
      const bool busy = e.getCurrentAction() == "follow_polyline_trajectory";
      if (now < way[0][0]) {
        if (std::hypot(x - first.position.x, y - first.position.y) > 1e-6) return say("moves before the beginning", cat(x, ",", y));
      } else {
        std::size_t k = 1;
        while (k + 1 < way.size() && way[k][0] < now) ++k;
        const double span = way[k][0] - way[k - 1][0], q = std::min(1.0, (now - way[k - 1][0]) / span);
        const double wx = way[k - 1][1] + (way[k][1] - way[k - 1][1]) * q, wy = way[k - 1][2] + (way[k][2] - way[k - 1][2]) * q;
        if (std::hypot(x - wx, y - wy) > 1e-6) return say("place", cat(x, ",", y, " instead of ", wx, ",", wy));
        const double turn = std::remainder(way[k][3] - way[k - 1][3], 2 * M_PI);
        if (!e.isInLanelet() && std::abs(std::remainder(yaw - way[k - 1][3] - turn * q, 2 * M_PI)) > 1e-4) return say("heading", cat(yaw, " instead of ", way[k - 1][3] + turn * q));
        const double speed = ended ? 0 : std::hypot(way[k][1] - way[k - 1][1], way[k][2] - way[k - 1][2]) / span;
        if (std::abs(v - speed) > 1e-6) return say("speed", cat(v, " instead of ", speed));
        if (std::abs(w - (ended ? 0 : turn / span)) > 1e-6) return say("turning", cat(w, " instead of ", turn / span));
        if (std::abs(a - (ended ? 0 : (v - pv) / dt)) > 1e-6) return say("acceleration", cat(a, " instead of ", (v - pv) / dt));
        if (!ended && std::abs(e.getLinearJerk() - (a - pa) / dt) > 1e-5) return say("jerk", cat(e.getLinearJerk(), " instead of ", (a - pa) / dt));
        if (!ended && std::abs(e.getCurrentAccel().angular.z - (w - pw) / dt) > 1e-5) return say("turning faster", cat(e.getCurrentAccel().angular.z, " instead of ", (w - pw) / dt));
        pv = v; pa = a; pw = w;
        if (now > way.back()[0]) ended = true;
      }
      if (now < way[0][0]) { pv = v; pa = a; pw = w; }
      if (busy == (now > way.back()[0])) return say("over", busy ? "not" : "early");
    }
    mc::executed(frames);
    mc::outcome(cat(pv, way.back()[1]));
  } catch (const std::exception & x) { say(cat("exception ", std::string(x.what()).substr(0, 60)), x.what()); }
}
}  // namespace
void track()
{
  mc::st().rule = "all trajectories";
  const double none = std::numeric_limits<double>::quiet_NaN();
  const double y0 = 1.5;
  const bool all = mc::thorough();
  const auto list = [&](std::vector<double> few, std::vector<double> many) { if (all) few.insert(few.end(), many.begin(), many.end()); return few; };
  for (double dt : list({0.05, 0.1}, {0.033})) for (int lim : {0, 1}) for (double v0 : list({0.0, 5.0, 10.0}, {2.3})) for (double d : list({5.0, 12.3, 30.7, 90.2}, {21.9})) for (int shape = 0; shape < 5; ++shape) {
    std::vector<Stop> q;
    if (shape == 0) q = {{20, y0, none}, {20 + d, y0, none}};
    if (shape == 1) q = {{20, -40, none}, {20 + d, -40, none}};
    if (shape == 2) q = {{20, -40, none}, {20 + d, -40, none}, {20 + d, -40 - d, none}};
    if (shape == 3) q = {{20, y0, none}, {20 + d, y0, none}, {40 + d, y0, none}};
    if (shape == 4) q = {{20, -40, none}, {20 + d, -43, none}, {20 + 2 * d, -40, none}, {20 + 2 * d + 25, -40, none}};
    const char * const names[] = {"on the lane", "off the road", "around a corner", "two pieces", "three pieces"};
    for (double target : list({-1.0, 4.0, 8.0, 15.0}, {5.7, 20.0})) {
      if (target < 0 && !v0) continue;
      for (bool walks : {false, true}) if (mc::mine()) follow({names[shape], dt, v0, target, false, walks, lim, q});
    }
    // with times: at the end, at the first stop, at both
    for (int which = 1; which < (q.size() > 2 ? 4 : 2); ++which) for (double mean : list({3.0, 6.0, 9.0}, {7.3, 12.0})) for (bool relative : {false, true}) {
      auto r = q;
      double t = v0 < mean ? (mean - v0) / 2 : 0, far = 0, last = 0;
      for (std::size_t k = 1; k < r.size(); ++k) {
        far += std::hypot(r[k].x - r[k - 1].x, r[k].y - r[k - 1].y);
        const bool timedStop = k + 1 == r.size() ? which & 1 : k == 1 && which & 2;
        if (k + 1 == r.size()) t += mean / 2;
        const double when = std::ceil((t + far / mean) / dt) * dt;
        if (timedStop) { r[k].time = relative ? when - last : when; last = when; }
      }
      for (bool walks : {false, true}) if (mc::mine()) follow({cat(names[shape], " timed"), dt, v0, -1, relative, walks, lim, r});
    }
  }
  for (double dt : list({0.05, 0.1}, {0.033, 1.0 / 60})) for (double base : {0.0, 0.77}) for (double v0 : {0.0, 3.0}) for (bool walks : {false, true})
    for (double t0 : {0.013, 0.42}) for (double t1 : {0.61, 1.37}) for (double t2 : {0.0, 0.53, 1.11}) for (double y : {-40.0, y0}) for (double bend : {0.0, 0.8, -2.0}) for (double dx : {3.0, 11.0}) {
      if (!mc::mine()) continue;
      std::vector<std::array<double, 4>> way{{t0, 20, y, 0}, {t0 + t1, 20 + dx, y, bend}};
      if (t2) way.push_back({t0 + t1 + t2, 20 + dx + 6 * std::cos(bend), y + 6 * std::sin(bend), 2 * bend});
      carried(dt, base, way, v0, walks);
    }
}
}  // namespace npc
