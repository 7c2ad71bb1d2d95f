// Conditions about entities (C19): every condition against what its definition says about the entities' true state.
#include "h_core.hpp"
namespace
{
using namespace core;
struct Body
{
  bool present = false;
  double x = 0, y = 0, yaw = 0, vx = 0, vy = 0, vz = 0, ax = 0, still = 0, length = 4, width = 2;
  std::string action = "follow_lane";
};
struct State
{
  std::map<std::string, Body> e;
  std::set<std::pair<std::string, std::string>> collisions;
  double time = 0;
  bool hit(const std::string & a, const std::string & b) const { return e.at(a).present and e.at(b).present and (collisions.count({a, b}) or collisions.count({b, a})); }
};
constexpr double nan = std::numeric_limits<double>::quiet_NaN();
enum { OPEN = -1 };
const char * rules[] = {"equalTo", "greaterThan", "greaterOrEqual", "lessThan", "lessOrEqual", "notEqualTo"};
int holds(int r, double m, double v, bool exact)
{
  if (std::isnan(m)) return r == 5 ? OPEN : 0;
  if (not exact and std::abs(m - v) < 1e-9) return OPEN;
  switch (r) {
    case 0: return m == v;
    case 1: return m > v;
    case 2: return m >= v;
    case 3: return m < v;
    case 4: return m <= v;
    default: return m != v;
  }
}
struct Case { std::string label, xml; std::function<int(const State &)> truth; };
std::vector<Case> cases;
const std::map<std::string, std::vector<std::string>> selections{{"sab", {"a", "b"}}, {"ped", {"p"}}, {"nest", {"a", "b", "p"}}};
std::vector<std::string> members(const std::string & ref)
{
  if (auto i = selections.find(ref); i != selections.end()) return i->second;
  return {ref};
}
struct Triggering { bool all; std::vector<std::string> refs; };
std::vector<Triggering> wide()
{
  return {{false, {"a"}}, {true, {"a"}}, {false, {"a", "b"}}, {true, {"a", "b"}}, {false, {"b", "a"}}, {true, {"b", "a"}}, {false, {"sab"}}, {true, {"sab"}}, {false, {"sab", "p"}}, {true, {"sab", "p"}}, {false, {"nest", "b"}},
          {true, {"ped", "b"}}, {false, {"a", "n"}}, {true, {"a", "n"}}, {false, {"n", "a"}}, {false, {"n"}}, {false, {"d"}}, {true, {"d"}}, {true, {"a", "d"}}, {false, {"d", "b"}}, {true, {"p", "a", "b"}}, {false, {"p", "a", "b"}}};
}
std::vector<Triggering> narrow() { return {{false, {"a"}}, {true, {"a", "b"}}, {false, {"a", "b"}}, {true, {"sab", "p"}}, {false, {"d"}}, {false, {"n", "sab"}}}; }
using Truth = std::function<int(const State &, const std::string &)>;
void add(const Triggering & t, const std::string & inner, const Truth & member)
{
  std::string refs, label = t.all ? "all of" : "any of";
  for (auto & r : t.refs) refs += "<EntityRef entityRef=\"" + r + "\"/>", label += " " + r;
  cases.push_back({label + ": " + inner, "<Condition name=\"c\" delay=\"0\" conditionEdge=\"none\"><ByEntityCondition><TriggeringEntities triggeringEntitiesRule=\"" + std::string(t.all ? "all" : "any") + "\">" + refs + "</TriggeringEntities><EntityCondition>" + inner + "</EntityCondition></ByEntityCondition></Condition>",
                   [t, member](const State & s) {
                     // a selection satisfies the condition when all its members do
                     int result = t.all;
                     bool open = false;
                     for (auto & r : t.refs) {
                       int one = 1;
                       for (auto & m : members(r))
                         if (const auto v = member(s, m); v == 0) one = 0;
                         else if (v == OPEN and one) one = OPEN;
                       if (one == OPEN) open = true;
                       else if (one != t.all) return int(not t.all);
                     }
                     return open ? int(OPEN) : result;
                   }});
}
// measure: the value of one entity (NaN: there is none)
using Measure = std::function<double(const State &, const std::string &)>;
void add(const Triggering & t, const std::string & tag, const std::string & attrs, const std::string & body, int rule, double v, const Measure & m, bool sign_open = false, const std::function<bool(const State &)> & exact = nullptr)
{
  add(t, mc::cat("<", tag, " rule=\"", rules[rule], "\" value=\"", v, "\"", attrs, ">", body, "</", tag, ">"), [=](const State & s, const std::string & n) -> int {
    const auto x = m(s, n);
    const bool ex = not exact or exact(s);
    const auto r = holds(rule, x, v, ex);
    if (sign_open and r != holds(rule, std::abs(x), v, ex)) return OPEN;
    return r;
  });
}
bool aligned(const State & s)
{
  for (auto & [n, b] : s.e)
    if (b.yaw != 0) return false;
  return true;
}
struct V3 { double x, y, z; };
V3 seen_from(const Body & o, double x, double y)
{
  const auto c = std::cos(o.yaw), n = std::sin(o.yaw);
  return {c * (x - o.x) + n * (y - o.y), -n * (x - o.x) + c * (y - o.y), 0};
}
double gap(double d, double a, double b) { const auto m = (a + b) / 2; return std::isnan(d) ? d : std::abs(d) <= m ? 0 : d > 0 ? d - m : d + m; }
// relative distance as the definitions say (docs/.../distance conditions): what the simulator measured, absolute unless documented otherwise
struct Way { const char * system, * type, * algorithm; bool freespace; };
std::vector<Way> ways()
{
  std::vector<Way> w;
  for (bool f : {false, true}) {
    for (auto t : {"euclidianDistance", "longitudinal", "lateral"}) w.push_back({"entity", t, "undefined", f});
    for (auto t : {"longitudinal", "lateral"})
      for (auto a : {"undefined", "shortest"}) w.push_back({"lane", t, a, f});
  }
  return w;
}
std::string attributes(const Way & w) { return mc::cat(" coordinateSystem=\"", w.system, "\" relativeDistanceType=\"", w.type, "\" routingAlgorithm=\"", w.algorithm, "\" freespace=\"", w.freespace ? "true" : "false", "\""); }
double measured(const Way & w, const Body & f, const Body & t, bool position)
{
  if (not f.present or not t.present) return nan;
  V3 d{};
  if (std::string(w.system) == "entity") d = seen_from(f, t.x, t.y);
  else {
    const bool same = std::llround(f.y / 3) == std::llround(t.y / 3);
    if (std::string(w.algorithm) == "undefined" and not same) return nan;
    d = {t.x - f.x, t.y - f.y, 0};
  }
  if (w.freespace) d.x = gap(d.x, f.length, t.length), d.y = gap(d.y, f.width, t.width);
  const auto v = w.type[0] == 'e' ? std::hypot(d.x, d.y) : w.type[1] == 'o' ? d.x : d.y;
  // signed where the documentation says so: lane coordinates, no routing algorithm
  return std::string(w.system) == "lane" and std::string(w.algorithm) == "undefined" ? v : position and std::string(w.system) == "entity" ? v : std::abs(v);
}
bool sign_open(const Way & w, bool position) { return position and w.type[0] != 'e' and std::string(w.system) == "entity"; }
V3 relative_speed(const Body & triggering, const Body & reference)
{
  if (not triggering.present or not reference.present) return {nan, nan, nan};
  const auto dx = std::cos(triggering.yaw) * triggering.vx - std::cos(reference.yaw) * reference.vx, dy = std::sin(triggering.yaw) * triggering.vx - std::sin(reference.yaw) * reference.vx;
  const auto c = std::cos(reference.yaw), n = std::sin(reference.yaw);
  return {c * dx + n * dy, -n * dx + c * dy, 0};
}
struct Spot { std::string xml; std::function<Body(const State &)> where; bool lane_only_ok; };
std::vector<Spot> spots()
{
  auto fixed = [](double x, double y) { return [=](const State &) { Body b; b.present = true; b.x = x; b.y = y; b.length = b.width = 0; return b; }; };
  return {{"<Position><WorldPosition x=\"130\" y=\"3\" z=\"0\" h=\"0\" p=\"0\" r=\"0\"/></Position>", fixed(130, 3), true},
          {"<Position><LanePosition roadId=\"\" laneId=\"10\" s=\"20\" offset=\"0.5\"><Orientation type=\"relative\" h=\"0\" p=\"0\" r=\"0\"/></LanePosition></Position>", fixed(120, 0.5), true},
          {"<Position><RelativeObjectPosition entityRef=\"p\" dx=\"5\" dy=\"-1\"><Orientation type=\"relative\" h=\"0\" p=\"0\" r=\"0\"/></RelativeObjectPosition></Position>",
           [](const State & s) { auto b = s.e.at("p"); b.x += 5, b.y -= 1; b.length = b.width = 0; return b; }, false}};
}
void build(bool standard)
{
  cases.clear();
  // speed
  for (auto & t : wide())
    for (int r = 0; r < 6; ++r) add(t, "SpeedCondition", " direction=\"longitudinal\"", "", r, 5, [](const State & s, const std::string & n) { auto & b = s.e.at(n); return b.present ? b.vx : nan; });
  for (auto & t : narrow())
    for (int r : {1, 3}) {
      add(t, "SpeedCondition", " direction=\"lateral\"", "", r, 1, [](const State & s, const std::string & n) { auto & b = s.e.at(n); return b.present ? b.vy : nan; });
      add(t, "SpeedCondition", " direction=\"vertical\"", "", r, 1, [](const State & s, const std::string & n) { auto & b = s.e.at(n); return b.present ? b.vz : nan; });
      add(t, "SpeedCondition", "", "", r, 5.5, [standard](const State & s, const std::string & n) { auto & b = s.e.at(n); return not b.present ? nan : standard ? std::sqrt(b.vx * b.vx + b.vy * b.vy + b.vz * b.vz) : b.vx; });
    }
  // acceleration, stand still: of entities that exist
  for (auto & t : {Triggering{false, {"a"}}, {true, {"a", "b"}}, {false, {"b", "a"}}, {false, {"sab", "p"}}}) {
    for (int r = 0; r < 6; ++r) add(t, "AccelerationCondition", "", "", r, -1, [](const State & s, const std::string & n) { return s.e.at(n).ax; });
    for (double v : {0.0, 1.5}) add(t, mc::cat("<StandStillCondition duration=\"", v, "\"/>"), [v](const State & s, const std::string & n) -> int { return s.e.at(n).still == v ? OPEN : s.e.at(n).still > v; });
  }
  // collision
  for (auto & t : wide()) {
    for (auto o : {"a", "p", "d", "n"})
      if (std::none_of(t.refs.begin(), t.refs.end(), [&](auto & r) { return r == o; }))
        add(t, mc::cat("<CollisionCondition><EntityRef entityRef=\"", o, "\"/></CollisionCondition>"), [o](const State & s, const std::string & n) -> int { return n == o ? OPEN : s.hit(n, o); });
    for (auto type : {"vehicle", "pedestrian"})
      add(t, mc::cat("<CollisionCondition><ByType type=\"", type, "\"/></CollisionCondition>"), [type](const State & s, const std::string & n) -> int {
        for (auto & [o, b] : s.e)
          if (o != n and (o == "p") == (type[0] == 'p') and s.hit(n, o)) return 1;
        return 0;
      });
  }
  // reaching a position
  for (auto & spot : spots())
    for (auto & t : narrow())
      for (double v : {3.5, 12.0})
        add(t, mc::cat("<ReachPositionCondition tolerance=\"", v, "\">", spot.xml, "</ReachPositionCondition>"), [v, spot](const State & s, const std::string & n) -> int {
          auto & b = s.e.at(n);
          const auto to = spot.where(s);
          if (not b.present) return 0;
          const auto d = std::hypot(to.x - b.x, to.y - b.y);
          return std::abs(d - v) < 1e-9 ? OPEN : d < v;
        });
  // distances
  for (auto & w : ways()) {
    int k = 0;
    for (auto & t : narrow())
      for (double v : {-6.0, 0.0, 6.0, 10.0}) {
        const int order[] = {1, 3, 4, 2, 0};
        for (int r : {order[k++ % 5]}) {
          if (std::none_of(t.refs.begin(), t.refs.end(), [](auto & x) { return x == "b" or x == "sab"; }))
            add(t, "RelativeDistanceCondition", mc::cat(" entityRef=\"b\"", attributes(w)), "", r, v, [w](const State & s, const std::string & n) { return measured(w, s.e.at(n), s.e.at("b"), false); }, false, aligned);
          else add(t, "RelativeDistanceCondition", mc::cat(" entityRef=\"p\"", attributes(w)), "", r, v, [w](const State & s, const std::string & n) { return n == "p" ? measured(w, s.e.at(n), s.e.at(n), false) : measured(w, s.e.at(n), s.e.at("p"), false); }, false, aligned);
          for (std::size_t i = 0; i < spots().size(); ++i)
            if (const auto spot = spots()[i]; k % 3 == int(i) and (spot.lane_only_ok or w.system[0] == 'e'))
              add(t, "DistanceCondition", attributes(w), spot.xml, r, v, [w, spot](const State & s, const std::string & n) { return measured(w, s.e.at(n), spot.where(s), true); }, sign_open(w, true), aligned);
        }
      }
    add({false, {"a"}}, "RelativeDistanceCondition", mc::cat(" entityRef=\"d\"", attributes(w)), "", 1, -1e9, [w](const State & s, const std::string & n) { return measured(w, s.e.at(n), s.e.at("d"), false); });
    add({false, {"a"}}, "RelativeDistanceCondition", mc::cat(" entityRef=\"n\"", attributes(w)), "", 1, -1e9, [w](const State & s, const std::string & n) { return measured(w, s.e.at(n), s.e.at("n"), false); });
  }
  // relative speed
  for (auto & t : narrow())
    for (auto [r, v] : {std::pair{0, 5.0}, {1, -5.0}, {1, 0.0}, {3, 0.0}, {3, 5.0}})
        for (auto ref : {"p", "d"}) {
          add(t, "RelativeSpeedCondition", mc::cat(" entityRef=\"", ref, "\" direction=\"longitudinal\""), "", r, v, [=](const State & s, const std::string & n) { return relative_speed(s.e.at(n), s.e.at(ref)).x; }, false, aligned);
          add(t, "RelativeSpeedCondition", mc::cat(" entityRef=\"", ref, "\" direction=\"lateral\""), "", r, v, [=](const State & s, const std::string & n) { return relative_speed(s.e.at(n), s.e.at(ref)).y; }, false, aligned);
          add(t, "RelativeSpeedCondition", mc::cat(" entityRef=\"", ref, "\""), "", r, v, [ref](const State & s, const std::string & n) { const auto x = relative_speed(s.e.at(n), s.e.at(ref)); return std::hypot(x.x, x.y); }, false, aligned);
        }
  // time to collision, time headway
  for (auto & t : narrow())
    for (auto [r, v] : {std::pair{1, 1.0}, {3, 3.0}}) {
        for (auto & w : ways()) {
          auto ttc = [](double d, double speed) { return std::isnan(d) or std::isnan(speed) ? nan : speed > 0 ? d / speed : d > 0 ? std::numeric_limits<double>::infinity() : nan; };
          auto judge = [r = r, v = v, ttc](double d, double speed, bool exact) -> int {
            if (std::isnan(d)) return 0;  // a distance that does not exist
            if (not(speed > 1e-9) or not(d > 1e-9)) return r == 1 ? OPEN : d > 1e-9 ? 0 : OPEN;
            return holds(r, ttc(d, speed), v, exact);
          };
          const auto head = mc::cat("<TimeToCollisionCondition rule=\"", rules[r], "\" value=\"", v, "\"", attributes(w), "><TimeToCollisionConditionTarget>"), tail = std::string("</TimeToCollisionConditionTarget></TimeToCollisionCondition>");
          add(t, head + "<EntityRef entityRef=\"p\"/>" + tail, [w, judge](const State & s, const std::string & n) -> int {
            const auto d = measured(w, s.e.at(n), s.e.at("p"), false);
            const auto v = relative_speed(s.e.at(n), s.e.at("p"));
            return n == "p" ? OPEN : judge(d, w.type[0] == 'e' ? std::hypot(v.x, v.y) : w.type[1] == 'o' ? v.x : v.y, aligned(s));
          });
          const auto spot = spots()[0];
          add(t, head + spot.xml + tail, [w, judge, spot](const State & s, const std::string & n) -> int {
            auto & b = s.e.at(n);
            const auto d = measured(w, b, spot.where(s), true);
            return judge(d, w.type[0] == 'e' ? std::sqrt(b.vx * b.vx + b.vy * b.vy + b.vz * b.vz) : w.type[1] == 'o' ? b.vx : b.vy, aligned(s));
          });
        }
        for (auto ref : {"p", "b", "d"})
          add(t, mc::cat("<TimeHeadwayCondition entityRef=\"", ref, "\" rule=\"", rules[r], "\" value=\"", v, "\" freespace=\"false\" alongRoute=\"false\"/>"), [=, r = r, v = v](const State & s, const std::string & n) -> int {
            auto &f = s.e.at(n), &o = s.e.at(ref);
            if (not f.present or not o.present) return 0;
            const auto d = -seen_from(o, f.x, f.y).x;  // how far the triggering entity is behind
            if (n == ref or std::abs(d) < 1e-9 or f.vx < 0) return OPEN;
            if (d < 0) return 0;
            return holds(r, f.vx == 0 ? std::numeric_limits<double>::infinity() : d / f.vx, v, aligned(s));
          });
      }
  // clearance
  struct Range { std::string xml; std::function<bool(int)> in; };
  auto range = [](const char * a) { return std::string("<RelativeLaneRange ") + a + "/>"; };
  const std::vector<Range> ranges{{"", [](int) { return true; }}, {range("from=\"0\" to=\"0\""), [](int k) { return k == 0; }}, {range("from=\"-1\" to=\"0\""), [](int k) { return k == -1 or k == 0; }}, {range("from=\"1\""), [](int k) { return k >= 1; }}, {range("to=\"-1\""), [](int k) { return k <= -1; }}, {range("from=\"1\"") + range("to=\"-1\""), [](int k) { return k; }}};
  for (auto & t : {Triggering{false, {"a"}}, {true, {"a", "b"}}, {false, {"a", "b"}}, {true, {"p", "a"}}, {false, {"b", "a"}}})
    for (auto & g : ranges)
      for (bool free : {false, true})
        for (auto [back, forward] : free ? std::vector<std::pair<double, double>>{{7.0, 5.0}} : std::vector<std::pair<double, double>>{{0.0, 8.0}, {8.0, 0.0}})
          for (auto refs : {std::vector<std::string>{}, {"p"}, {"b", "p"}, {"sab"}, {"e"}}) {
            if (std::any_of(t.refs.begin(), t.refs.end(), [&](auto & x) { return std::any_of(refs.begin(), refs.end(), [&](auto & y) { auto m = members(y); return std::count(m.begin(), m.end(), x); }); })) continue;
            std::string body = g.xml;
            for (auto & r : refs) body += "<EntityRef entityRef=\"" + r + "\"/>";
            add(t, mc::cat("<RelativeClearanceCondition distanceBackward=\"", back, "\" distanceForward=\"", forward, "\" freeSpace=\"", free ? "true" : "false", "\" oppositeLanes=\"false\">", body, "</RelativeClearanceCondition>"),
                [=, back = back, forward = forward](const State & s, const std::string & n) -> int {
                  std::set<std::string> others;
                  for (auto & r : refs)
                    for (auto & m : members(r)) others.insert(m);
                  if (refs.empty())
                    for (auto & [o, b] : s.e)
                      if (b.present and not std::count(t.refs.begin(), t.refs.end(), o)) others.insert(o);
                  auto & f = s.e.at(n);
                  for (auto & o : others) {
                    auto & b = s.e.at(o);
                    const bool turned = std::abs(f.yaw) > 1.57;
                    auto lane = int(std::llround(b.y / 3) - std::llround(f.y / 3));
                    auto d = b.x - f.x;
                    if (free) d = gap(d, f.length, b.length);
                    if (turned) lane = -lane, d = -d;
                    if (g.in(lane) and (d < 0 ? -d <= back : d <= forward)) return 0;
                  }
                  return 1;
                });
          }
  // values by name
  auto by_value = [](const std::string & label, const std::string & inner, const std::function<int(const State &)> & f) { cases.push_back({label, "<Condition name=\"c\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition>" + inner + "</ByValueCondition></Condition>", f}); };
  for (auto n : {"a", "p"})
    for (auto v : {"follow_lane", "lane_change", "stop"})
      for (int r : {0, 5}) {
        const auto x = mc::cat("<UserDefinedValueCondition name=\"", n, ".currentState\" value=\"", v, "\" rule=\"", rules[r], "\"/>");
        by_value(x, x, [n, v, r](const State & s) -> int { return (s.e.at(n).action == v) == (r == 0); });
      }
  for (int r : {1, 3})
    for (double v : {0.1, 1.0, 2.0}) {
      const auto x = mc::cat("<UserDefinedValueCondition name=\"RelativeHeadingCondition(a)\" value=\"", v, "\" rule=\"", rules[r], "\"/>"), y = mc::cat("<UserDefinedValueCondition name=\"RelativeHeadingCondition(b, 10, 20)\" value=\"", v, "\" rule=\"", rules[r], "\"/>");
      by_value(x, x, [r, v](const State & s) { return holds(r, std::abs(s.e.at("a").yaw), v, false); });
      by_value(y, y, [r, v](const State & s) { return holds(r, std::abs(s.e.at("b").yaw), v, false); });
    }
  for (int r = 0; r < 6; ++r)
    for (double v : {1.25, 1.5}) {
      const auto x = mc::cat("<SimulationTimeCondition value=\"", v, "\" rule=\"", rules[r], "\"/>");
      by_value(x, x, [r, v](const State & s) { return holds(r, s.time, v, true); });
    }
}
Doc document()
{
  Doc d;
  for (auto n : {"a", "b", "n", "d"}) d.entities += scenario_object(n);
  d.entities += "<ScenarioObject name=\"p\"><Pedestrian name=\"p\" mass=\"60\" model=\"m\" pedestrianCategory=\"pedestrian\"><BoundingBox><Center x=\"0\" y=\"0\" z=\"1\"/><Dimensions width=\"0.5\" length=\"1\" height=\"2\"/></BoundingBox><Properties/></Pedestrian></ScenarioObject>";
  d.entities += scenario_object("e");
  d.entities += "<EntitySelection name=\"sab\"><Members><EntityRef entityRef=\"a\"/><EntityRef entityRef=\"b\"/></Members></EntitySelection><EntitySelection name=\"ped\"><Members><ByType objectType=\"pedestrian\"/></Members></EntitySelection>"
                "<EntitySelection name=\"nest\"><Members><EntityRef entityRef=\"sab\"/><EntityRef entityRef=\"p\"/></Members></EntitySelection>";
  for (auto n : {"a", "b", "d", "p", "e"}) d.init += priv(n, teleport(10, 20));
  std::string t = "<StartTrigger>";
  for (auto & c : cases) t += "<ConditionGroup>" + c.xml + time_condition("lessThan", -1) + "</ConditionGroup>";
  t += "</StartTrigger>";
  d.stories = story(act(group(maneuver(event(action("<GlobalAction><EntityAction entityRef=\"d\"><DeleteEntityAction/></EntityAction></GlobalAction>", "del"), trigger("StartTrigger", time_condition("greaterOrEqual", 1)), "deletes") +
                                       event(action(set_parameter("x", "1"), "a"), t, "watch")),
                              actors("<EntityRef entityRef=\"a\"/>"))));
  d.parameters = "<ParameterDeclaration name=\"x\" parameterType=\"integer\" value=\"0\"/>";
  return d;
}
void impose(const State & s)
{
  for (auto & [n, b] : s.e) {
    if (not traffic_simulator::API::instance->isEntityExist(n)) continue;
    auto & e = Sim::entity(n);
    e.map_pose.position.x = b.x;
    e.map_pose.position.y = b.y;
    e.map_pose.orientation.w = std::cos(b.yaw / 2);
    e.map_pose.orientation.z = std::sin(b.yaw / 2);
    traffic_simulator::LaneletPose l;
    l.lanelet_id = 10 * std::int64_t(b.x / 100) + std::llround(b.y / 3);
    l.s = std::fmod(b.x, 100);
    l.offset = b.y - 3 * std::llround(b.y / 3);
    l.rpy.z = b.yaw;
    e.lanelet_pose.emplace(l);
    e.twist.linear.x = b.vx, e.twist.linear.y = b.vy, e.twist.linear.z = b.vz;
    e.accel.linear.x = b.ax;
    e.stand_still = b.still;
    e.current_action = b.action;
  }
  mock::world().collisions = s.collisions;
}
std::string show(const State & s)
{
  std::string r;
  for (auto & [n, b] : s.e)
    if (b.present) r += mc::cat(n, " at ", b.x, ",", b.y, " yaw ", b.yaw, " v ", b.vx, ",", b.vy, ",", b.vz, " a ", b.ax, " still ", b.still, " ", b.action, "; ");
  for (auto & [a, b] : s.collisions) r += a + b + " collide; ";
  return r;
}
void entity_conditions()
{
  mc::st().rule = "every combination of the listed poses, speeds, accelerations, stand still times, collisions and states of three entities, before and after a fourth one is deleted, for every listed condition, rule, threshold and set of triggering entities";
  const double pi = boost::math::constants::pi<double>();
  const std::vector<std::array<double, 3>> poses{{120, 0, 0}, {120, 3, 0}, {120, 0, pi}, {120.5, 3.5, 0.3}, {195, 0, 0}, {126, 3, -2.5}};
  for (bool standard : {false, true}) {
    build(standard);
    const auto doc = document();
    for (auto & pose : poses)
      for (int part = 0; part < 4; ++part) {
        if (not mc::mine()) continue;
        const auto name = mc::cat(standard ? "standard" : "legacy", ": a at ", pose[0], ",", pose[1], " yaw ", pose[2], " part ", part);
        mc::current(name);
        rclcpp::stub::overrides()["speed_condition"] = std::string(standard ? "standard" : "legacy");
        Sim sim;
        if (not sim.begin(doc)) {
          mc::violation(name, "the scenario did not start: " + Sim::verdict());
          continue;
        }
        State s;
        for (auto n : {"a", "b", "d", "p", "n", "e"}) s.e[n].present = *n != 'n';
        s.e["p"].length = 1, s.e["p"].width = 0.5, s.e["p"].x = 130, s.e["p"].y = 3, s.e["p"].vx = 1;
        s.e["d"].x = 128, s.e["d"].y = 0, s.e["d"].vx = 5;
        s.e["e"].x = 500, s.e["e"].y = 6;
        auto & a = s.e["a"];
        auto & b = s.e["b"];
        a.x = pose[0], a.y = pose[1], a.yaw = pose[2];
        b.x = 110, b.y = 3;
        double t = 0;
        int bad = 0;
        auto step = [&]() {
          t += 1.0 / 64;
          s.time = t;
          impose(s);
          if (not sim.frame(t)) {
            mc::violation(name + " " + show(s), "the scenario ended: " + Sim::verdict());
            return bad = 100, false;
          }
          // what is deleted during a frame is gone for the conditions evaluated after it in that frame: not judged in that frame
          const bool gone = not traffic_simulator::API::instance->isEntityExist("d");
          if (gone != not s.e["d"].present) {
            s.e["d"].present = not gone;
            return true;
          }
          mc::executed();
          mc::state(show(s) + (standard ? "s" : "l"));
          const auto & events = sim.context.at("OpenSCENARIO").at("Storyboard").at("Story").at(0).at("Act").at(0).at("ManeuverGroup").at(0).at("Maneuver").at(0).at("Event").as_array();
          const auto & groups = events.at(1).at("StartTrigger").at("ConditionGroup").as_array();
          if (groups.size() != cases.size()) return mc::violation(name, "a condition is missing"), bad = 100, false;
          for (std::size_t i = 0; i < cases.size(); ++i) {
            const auto truth = cases[i].truth(s);
            if (truth == OPEN) continue;
            const bool now = groups.at(i).at("Condition").at(0).at("currentValue").as_string() == "true";
            mc::state(mc::cat(standard, " ", i, " ", truth));
            if (now != truth) {
              mc::violation(cases[i].label + " with " + show(s), mc::cat("is ", now ? "true" : "false", ", its definition says ", truth ? "true" : "false"));
              if (++bad > 3) return false;
            }
          }
          return true;
        };
        // where b is and how everyone moves
        const std::vector<double> xs{110, 119, 120, 128, 135, 210};
        for (std::size_t i = part; i < xs.size() and bad <= 3; i += 4)
          for (int lane : {0, 1, 2})
            for (double yaw : {0.0, pi, 0.4}) {
              b.x = xs[i], b.y = 3 * lane, b.yaw = yaw;
              for (auto [va, vb, vp] : {std::tuple{0., 0., 1.}, {5., 0., 0.}, {5., 5., 1.}, {6., 2., 0.}, {-5., 5., 1.}}) {
                a.vx = va, b.vx = vb, s.e["p"].vx = vp;
                if (not step()) break;
              }
            }
        // everything that does not depend on places, before d is deleted and after
        b.yaw = 0, b.x = 110, b.y = 3;
        for (double from : {0.0, 1.0}) {
          t = std::max(t, from);
          int k = 0;
          for (double vy : {0.0, 2.0})
            for (double vz : {0.0, 2.0})
              for (int collide = 0; collide < 32; ++collide) {
                if (bad > 3 or ++k % 4 != part) continue;
                a.vx = b.vx = 5, s.e["p"].vx = 1;
                a.vy = vy, a.vz = b.vz = vz;
                a.ax = collide & 1 ? -1 : 2, b.ax = collide & 2 ? -2 : -1, s.e["p"].ax = collide & 4 ? -1 : 0;
                a.still = collide & 1 ? 1.75 : 0.5, b.still = collide & 8 ? 2 : 0, s.e["p"].still = collide & 16 ? 1.6 : 1.4;
                a.action = collide & 2 ? "lane_change" : "follow_lane", s.e["p"].action = collide & 4 ? "stop" : "walk";
                s.collisions.clear();
                int bit = 1;
                for (auto [x, y] : {std::pair{"a", "b"}, {"a", "p"}, {"b", "p"}, {"a", "d"}, {"b", "d"}}) {
                  if (collide & bit and s.e[x].present and s.e[y].present) s.collisions.emplace(x, y);
                  bit *= 2;
                }
                step();
              }
        }
        mc::outcome(name);
        mc::sample(name);
      }
  }
}
Register r1{"C19", entity_conditions};
}  // namespace
