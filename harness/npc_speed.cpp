// How the speed of vehicles follows the requests to change it (C37).
#include "npc.hpp"
namespace npc
{
using ts::speed_change::Constraint;
using ts::speed_change::RelativeTargetSpeed;
using ts::speed_change::Transition;
namespace
{
struct Limits { double up = 10, upRate = 3, down = 10, downRate = 3, speed = 50; };
constexpr double TOP = 30, LIMIT = 50 / 3.6;   // what the vehicle can do, and what the road allows
enum Kind { NONE, PULL, SPAN };                // no constraint, an acceleration, a time
enum Way { AUTO, LINEAR, STEP };
struct Request { Kind kind; Way way; double value; double target; bool keep; int relative = 0; };   // relative: 1 the other's speed plus the target, 2 times the target
const char * const KINDS[] = {"without constraint", "with acceleration", "in time"};
const char * const WAYS[] = {"AUTO", "LINEAR", "STEP"};
std::string show(const Request & r) { return cat(r.relative == 1 ? "other's speed plus " : r.relative == 2 ? "other's speed times " : "speed ", r.target, " ", KINDS[r.kind], r.kind ? cat(" ", r.value, " ", WAYS[r.way]) : "", r.keep ? " continuously" : ""); }
struct Event { int frame; Request request; };
struct Next { double v, a; };
struct History
{
  double dt;
  double v0;
  Limits limits;
  bool custom;
  std::vector<Event> events;
  int frames;
  double other = -1, other2 = -1;   // the speed of another vehicle far ahead, and the one it gets later
  std::string show() const
  {
    std::string r = cat("dt ", dt, ", speed ", v0);
    if (custom) r += cat(", limits ", limits.up, "/", limits.upRate, " ", limits.down, "/", limits.downRate, " ", limits.speed);
    if (other >= 0) r += cat(", the other's speed ", other, " then ", other2);
    for (auto & e : events) r += cat("; frame ", e.frame, ": ", npc::show(e.request));
    return r;
  }
};
// one frame towards the target: the acceleration grows at its rate from none towards the target up to its limit, without passing the target
Next towards(double v, double a, double target, const Limits & l, double dt)
{
  target = std::min(target, l.speed);
  const double gap = target - v;
  double n;
  if (gap >= 0) n = std::clamp(a + dt * l.upRate, 0.0, std::max(0.0, std::min(l.up, gap / dt)));
  else n = std::clamp(a - dt * l.downRate, std::min(0.0, std::max(-l.down, gap / dt)), 0.0);
  return {v + n * dt, n};
}
constexpr double REACHED = 0.01;
struct Model
{
  Limits base, now;
  std::optional<Request> asked;
  double since = 0;       // frames since it was asked for
  double before = 0, beforeV = 0;
  bool timed = false, near = false;
};
void run(const History & h)
{
  static Net road = [] { auto n = grid({1000.5, 1000.5}, {1, 1}, 0, false); for (auto & c : n.cells) c.speed = 50; return n; }();
  mc::current(h.show());
  mc::state(h.show());
  const Id first = road.cells[0].id;
  Sim s(road, h.dt);
  auto & c = s.car("car", pose(first, 20));
  VehicleEntity * o = h.other >= 0 ? &s.car("other", pose(road.cells[1].id, 500)) : nullptr;
  c.setLinearVelocity(h.v0);
  Model m;
  m.base.speed = 50;
  if (h.custom) {
    auto p = c.getBehaviorParameter();
    p.dynamic_constraints.max_acceleration = h.limits.up;
    p.dynamic_constraints.max_acceleration_rate = h.limits.upRate;
    p.dynamic_constraints.max_deceleration = h.limits.down;
    p.dynamic_constraints.max_deceleration_rate = h.limits.downRate;
    p.dynamic_constraints.max_speed = h.limits.speed;
    c.setBehaviorParameter(p);
    m.base = h.limits;
  }
  if (o) { o->setLinearVelocity(h.other); o->requestSpeedChange(h.other, true); }
  m.now = m.base;
  s.em->startNpcLogic(0);
  std::string trace = h.show();
  double others[3] = {h.other, h.other, h.other};
  const auto say = [&](std::string key, std::string what) { mc::violation(key, what, trace); };
  double v = h.v0, a = 0, x = c.getMapPose().position.x, top = 0;
  std::size_t next = 0;
  int steady = 0;
  try {
    for (int f = 0; f < h.frames; ++f) {
      if (o && f == h.frames / 2 && h.other2 != h.other) { o->requestSpeedChange(h.other2, Transition::STEP, Constraint(Constraint::Type::NONE, 0), true); o->setLinearVelocity(h.other2); }
      const bool fresh = next < h.events.size() && h.events[next].frame == f;
      std::optional<double> early;   // the target until the request is heard (for relative ones)
      if (fresh) {
        const auto & r = h.events[next++].request;
        const auto absolute = [&](double ref) { return r.relative == 1 ? ref + r.target : r.relative == 2 ? ref * r.target : r.target; };
        const double t = absolute(others[2]);
        const Transition w = r.way == AUTO ? Transition::AUTO : r.way == LINEAR ? Transition::LINEAR : Transition::STEP;
        const Constraint k(r.kind == NONE ? Constraint::Type::NONE : r.kind == PULL ? Constraint::Type::LONGITUDINAL_ACCELERATION : Constraint::Type::TIME, r.value);
        if (std::abs(v - t) < 0.1 && !r.keep) return;   // (nothing to do: what becomes of an older request is left open)
        if (t < 0) return;
        const bool feasible = std::abs(t - v) <= std::abs(a) * r.value + (t > v ? m.base.upRate : m.base.downRate) * r.value * r.value / 2 - 0.05;
        if (r.kind == SPAN && r.way == AUTO && (!feasible || t > std::min(TOP, m.base.speed) || a * (t - v) < 0)) return;
        if (r.kind == SPAN && r.way == LINEAR && std::abs(t - v) / r.value > std::min(10.0, t > v ? 10.0 : 10.0)) return;
        if (r.kind && r.way == STEP && t > std::min(TOP, m.base.speed)) return;
        if (r.relative) c.requestSpeedChange(RelativeTargetSpeed("other", r.relative == 1 ? RelativeTargetSpeed::Type::DELTA : RelativeTargetSpeed::Type::FACTOR, r.target), w, k, r.keep);
        else c.requestSpeedChange(r.target, w, k, r.keep);
        if (m.asked) early = m.asked->target;
        m.asked = r;
        m.now = m.base;
        m.since = 0; m.before = v; m.near = false;
        m.timed = r.kind == SPAN && r.way == AUTO && std::abs(v - t) > REACHED;
        double pull = r.kind == PULL ? std::abs(r.value) : r.kind == SPAN && r.way == LINEAR ? std::abs(t - v) / r.value : 0;
        if (r.kind && r.way != STEP && !m.timed) {
          if (t >= v || r.relative) m.now.up = std::min(pull, 10.0);
          if (t < v || r.relative) m.now.down = std::min(pull, 10.0);
          if (r.way == LINEAR) a = t >= v ? pull : -pull;
        }
        if (r.kind && r.way == STEP) v = t;
        trace += cat("\nframe ", f, " at speed ", v, ": ", npc::show(r));
      }
      const double now = o ? o->getCurrentTwist().linear.x : 0;
      s.frame();
      const double w = c.getCurrentTwist().linear.x, b = c.getCurrentAccel().linear.x, y = c.getMapPose().position.x;
      top = std::max(top, w);
      std::set<double> targets;
      if (!m.asked) targets.insert(LIMIT);
      else if (!m.asked->relative) targets.insert(m.asked->target);
      else for (double r : {others[0], others[1], others[2], now}) targets.insert(m.asked->relative == 1 ? r + m.asked->target : r * m.asked->target);
      if (fresh && m.asked && m.asked->relative && f == 0) targets.insert(LIMIT);
      bool ok = false;
      Next want{};
      for (double t : targets) {
        const auto p = towards(v, a, t, m.now, h.dt), q = towards(v, a, t, m.base, h.dt);
        want = p;
        const auto is = [&](Next n) { return close(w, n.v, 1e-6) && close(b, n.a, 1e-4); };
        ok = ok || is(p) || (std::abs(t - v) < 2 * REACHED && is(q)) || (m.asked && m.asked->relative && (m.near || m.since < 2 || std::abs(t - v) < 0.1 || targets.size() > 1) && is(q));
      }
      ok = ok || (v < 0 && v > -1e-9 && close(w, v, 0.05));   // (a speed of nothing, rounded)
      const std::string at = cat("frame ", f, ": from speed ", v, " and acceleration ", a, " to ", w, " and ", b);
      const std::string about = m.asked ? cat(KINDS[m.asked->kind], m.asked->kind ? WAYS[m.asked->way] : "", m.asked->relative ? " relative" : "", m.asked->target < m.before ? " slower" : " faster") : std::string("no request");
      if (m.timed) {
        const double t = *targets.begin(), d = t > m.before ? 1 : -1;
        if ((w - v) * d < -1e-9) { say("timed away " + about, at + " is away from the target"); return; }
        if ((w - t) * d > 1e-6) { say("timed beyond " + about, at + " is beyond the target"); return; }
        const bool there = std::abs(w - t) <= REACHED;
        const double time = (m.since + 1) * h.dt;
        if (there && m.since >= 0 && m.asked && m.timed) {
          if (std::abs(time - m.asked->value) > 2.5 * h.dt + 1.1 * REACHED * m.asked->value / std::abs(t - m.before)) { say("timed early " + about, cat(at, ": reached after ", time, " instead of ", m.asked->value)); return; }
          m.timed = false;
          m.now = m.base;
          if (!m.asked->keep) m.asked.reset();
        } else if (time > m.asked->value + 2.5 * h.dt) { say("timed late " + about, cat(at, ": not reached after ", time)); return; }
      } else {
        if (!ok) { say("speed " + about, cat(at, " instead of ", want.v, " and ", want.a)); return; }
        if (m.asked) {
          const bool every = std::all_of(targets.begin(), targets.end(), [&](double t) { return std::abs(w - t) <= REACHED; });
          const bool some = std::any_of(targets.begin(), targets.end(), [&](double t) { return std::abs(w - t) <= REACHED; });
          m.near = m.near || std::any_of(targets.begin(), targets.end(), [&](double t) { return std::abs(w - t) <= 0.1; });
          if (some && !every) return;   // (which of the other's speeds counts is left open)
          if (every) { m.now = m.base; if (!m.asked->keep) m.asked.reset(); }
        }
      }
      if (std::abs(y - x - (v + w) / 2 * h.dt) > 1e-3) { say("place", cat(at, ": moved by ", y - x)); return; }
      if (std::abs(b - (w - v) / h.dt) > 1e-3 && !(fresh && m.asked && m.asked->way == STEP)) { say("acceleration is not the change of speed", at); return; }
      if (w > std::min(m.base.speed, TOP) + 1e-9 && h.custom) { say("above the speed limit", at); return; }
      const auto p = c.getBehaviorParameter().dynamic_constraints;
      const bool same = p.max_acceleration == m.base.up && p.max_deceleration == m.base.down && p.max_acceleration_rate == m.base.upRate && p.max_deceleration_rate == m.base.downRate && (p.max_speed == m.base.speed || p.max_speed == std::min(TOP, m.base.speed));
      steady = m.asked ? 0 : steady + 1;
      if (steady > 2 && !same) { say("limits stay changed", cat(at, ": acceleration ", p.max_acceleration, " rate ", p.max_acceleration_rate, " deceleration ", p.max_deceleration, " rate ", p.max_deceleration_rate, " speed ", p.max_speed)); return; }
      ++m.since;
      if (o) { others[0] = others[1]; others[1] = others[2]; others[2] = o->getCurrentTwist().linear.x; }
      v = w; a = b; x = y;
    }
  } catch (const std::exception & e) {
    say(cat("exception ", std::string(e.what()).substr(0, 60)), e.what());
    return;
  }
  mc::executed(h.frames);
  mc::outcome(cat(v, " ", a, " ", x));
}
std::vector<Request> requests(bool all)
{
  std::vector<Request> r;
  const std::vector<double> targets = all ? std::vector<double>{0, 4.3, 8, 11.1, 20, 40} : std::vector<double>{0, 4.3, 8, 20};
  for (double t : targets) for (bool keep : {false, true}) {
    r.push_back({NONE, AUTO, 0, t, keep});
    for (double x : {0.7, 2.0}) for (Way w : {AUTO, LINEAR}) r.push_back({PULL, w, x, t, keep});
    if (all) r.push_back({PULL, AUTO, 20, t, keep});
    r.push_back({PULL, STEP, 1, t, keep});
    for (double x : {2.2, 5.0}) for (Way w : {AUTO, LINEAR}) r.push_back({SPAN, w, x, t, keep});
    r.push_back({SPAN, STEP, 2, t, keep});
  }
  return r;
}
}  // namespace
void speed()
{
  mc::st().rule = "all sequences of requests to change a vehicle's speed";
  const bool all = mc::thorough();
  const auto rs = requests(all);
  const std::vector<Limits> limits{{}, {4, 2, 3, 1.5, 12}, {10, 3, 6, 3, 30}};
  const std::vector<double> steps = all ? std::vector<double>{0.05, 0.1, 1.0 / 60, 0.033} : std::vector<double>{0.05, 0.1};
  for (double dt : steps) for (double v0 : {0.0, 5.0, 10.3}) for (std::size_t l = 0; l < limits.size(); ++l) for (auto & r : rs) {
    const auto frames = [&](double t) { return int(t / dt); };
    for (int f : {0, frames(0.6)}) {
      if (mc::mine()) run({dt, v0, limits[l], l > 0, {{f, r}}, frames(16)});
      if (l && (f || !all)) continue;
      if (!all && f) continue;
      if (all && dt != 0.05 && v0 != 5) continue;
      for (auto & q : rs) for (double gap : all ? std::vector<double>{0.15, 1, 6} : std::vector<double>{1})
        if (mc::mine()) run({dt, v0, limits[l], l > 0, {{f, r}, {f + frames(gap), q}}, frames(14)});
    }
    // relative to another
    for (int rel : {1, 2}) for (double d : {-3.0, 0.0, 2.5}) for (double o : {3.0, 9.1}) {
      auto q = r;
      if (q.target != 8 || (q.kind == SPAN && q.keep)) continue;
      q.relative = rel; q.target = rel == 1 ? d : 0.4 + d * 0.1;
      for (double o2 : {o, 6.2}) if (mc::mine()) run({dt, v0, limits[l], l > 0, {{frames(0.6), q}}, frames(16), o, o2});
    }
  }
}
}  // namespace npc
