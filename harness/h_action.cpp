// Actions (C21): what they ask of the simulator, for whom, and when they end.
#include "h_core.hpp"
#include <tier4_simulation_msgs/msg/simulation_events.hpp>
namespace
{
using namespace core;
using traffic_simulator::mock_show::number;
namespace lc = traffic_simulator::lane_change;
namespace sc = traffic_simulator::speed_change;
constexpr double nan = std::numeric_limits<double>::quiet_NaN();
using Strings = std::vector<std::string>;
std::string show(const Strings & s)
{
  std::string r;
  for (auto & x : s) r += "[" + x + "] ";
  return r.empty() ? "nothing" : r;
}
std::string trajectory(const traffic_simulator_msgs::msg::PolylineTrajectory & t)
{
  std::string s = mc::cat("trajectory closed=", t.closed, " ignorable=", t.dynamic_constraints_ignorable, " offset=", number(t.initial_distance_offset), " base=", number(t.base_time), " ");
  for (auto & v : t.shape.vertices) s += mc::cat("(", std::isnan(v.time) ? "-" : number(v.time), " ", traffic_simulator::mock_show::text(v.position), ")");
  return s;
}
// what a goal looks like: whether entity n has reached it, given its level and that of the reference entity
enum End { AT_ONCE, NEVER, REACHED, PROFILE };
struct Variant
{
  std::string xml;
  std::function<Strings(const std::string &)> requests;
  End end = AT_ONCE;
  std::function<void(traffic_simulator::entity::EntityBase &, bool reached, int frame)> behave;
  std::vector<double> speeds;                                              // PROFILE
  std::function<Strings(const std::string &, std::size_t)> entry_requests;  // PROFILE
  bool thin = false;                                                        // a variation of the request alone
};
const double start_time = 1;
double reference_speed(int frame) { return 4 + frame % 2; }
std::string longitudinal(const std::string & s) { return "<PrivateAction><LongitudinalAction>" + s + "</LongitudinalAction></PrivateAction>"; }
std::string lateral(const std::string & s) { return "<PrivateAction><LateralAction>" + s + "</LateralAction></PrivateAction>"; }
std::string routing(const std::string & s) { return "<PrivateAction><RoutingAction>" + s + "</RoutingAction></PrivateAction>"; }
std::string world(double x, double y, double h) { return mc::cat("<Position><WorldPosition x=\"", x, "\" y=\"", y, "\" z=\"0.5\" h=\"", h, "\" p=\"0\" r=\"0\"/></Position>"); }
std::string lane(int id, double s, double offset, double h) { return mc::cat("<Position><LanePosition roadId=\"\" laneId=\"", id, "\" s=\"", s, "\" offset=\"", offset, "\"><Orientation type=\"relative\" h=\"", h, "\" p=\"0\" r=\"0\"/></LanePosition></Position>"); }
std::string relative(const std::string & kind, const std::string & ref, double dx, double dy, double h) { return mc::cat("<Position><", kind, " entityRef=\"", ref, "\" dx=\"", dx, "\" dy=\"", dy, "\"><Orientation type=\"relative\" h=\"", h, "\" p=\"0\" r=\"0\"/></", kind, "></Position>"); }
std::vector<Variant> variants()
{
  std::vector<Variant> r;
  // speed
  for (double value : {0.0, 7.5})
    for (auto shape : {"linear", "step"})
      for (double rate : {0.5, 3.0}) {
        const bool step = shape[0] == 's';
        r.push_back({longitudinal(mc::cat("<SpeedAction><SpeedActionDynamics dynamicsDimension=\"rate\" value=\"", rate, "\" dynamicsShape=\"", shape, "\"/><SpeedActionTarget><AbsoluteTargetSpeed value=\"", value, "\"/></SpeedActionTarget></SpeedAction>")),
                     [=](const std::string & n) { return Strings{mc::cat("requestSpeedChange ", n, " abs ", value, " transition=", int(step ? sc::Transition::STEP : sc::Transition::LINEAR), " constraint=", int(sc::Constraint::Type::LONGITUDINAL_ACCELERATION), ",", rate, " continuous=1")}; },
                     step ? AT_ONCE : REACHED, [value](auto & e, bool reached, int frame) { e.twist.linear.x = reached ? value : value + 1 + frame % 2; }, {}, {}});
        for (bool factor : {false, true})
          for (bool continuous : {false, true})
            r.push_back({longitudinal(mc::cat("<SpeedAction><SpeedActionDynamics dynamicsDimension=\"rate\" value=\"", rate, "\" dynamicsShape=\"", shape, "\"/><SpeedActionTarget><RelativeTargetSpeed entityRef=\"r\" value=\"", value, "\" speedTargetValueType=\"", factor ? "factor" : "delta", "\" continuous=\"", continuous ? "true" : "false", "\"/></SpeedActionTarget></SpeedAction>")),
                         [=](const std::string & n) { return Strings{mc::cat("requestSpeedChange ", n, " rel r type=", int(factor ? sc::RelativeTargetSpeed::Type::FACTOR : sc::RelativeTargetSpeed::Type::DELTA), " ", value, " transition=", int(step ? sc::Transition::STEP : sc::Transition::LINEAR), " constraint=", int(sc::Constraint::Type::LONGITUDINAL_ACCELERATION), ",", rate, " continuous=", continuous)}; },
                         step ? AT_ONCE : continuous ? NEVER : REACHED, [=](auto & e, bool reached, int frame) { e.twist.linear.x = (factor ? reference_speed(frame) * value : reference_speed(frame) + value) + not reached; }, {}, {}});
      }
  // lane changes
  for (auto [dimension, type] : {std::pair{"rate", lc::Constraint::Type::LATERAL_VELOCITY}, {"time", lc::Constraint::Type::TIME}, {"distance", lc::Constraint::Type::LONGITUDINAL_DISTANCE}})
    for (auto [shape, form] : {std::pair{"cubic", lc::TrajectoryShape::CUBIC}, {"linear", lc::TrajectoryShape::LINEAR}})
      for (int target : {-2, 0, 1, 12})
        for (double offset : {0.0, -0.5}) {
          // form of the request: everything in turn; timing: once per kind of target
          const bool thin = not(type == lc::Constraint::Type::TIME and form == lc::TrajectoryShape::CUBIC and offset == 0);
          const auto head = mc::cat("<LaneChangeAction targetLaneOffset=\"", offset, "\"><LaneChangeActionDynamics dynamicsDimension=\"", dimension, "\" value=\"2.5\" dynamicsShape=\"", shape, "\"/><LaneChangeTarget>"), tail = std::string("</LaneChangeTarget></LaneChangeAction>");
          const auto end = mc::cat(" ", offset, " shape=", int(form), " constraint=", int(type), ",2.5,", int(lc::Constraint::Policy::FORCE));
          auto behave = [](auto & e, bool reached, int) { e.current_action = reached ? "follow_lane" : "lane_change"; };
          if (target == 12) r.push_back({lateral(head + "<AbsoluteTargetLane value=\"12\"/>" + tail), [=](const std::string & n) { return Strings{mc::cat("requestLaneChange ", n, " abs 12", end)}; }, REACHED, behave, {}, {}, thin});
          else r.push_back({lateral(head + mc::cat("<RelativeTargetLane entityRef=\"r\" value=\"", target, "\"/>") + tail), [=](const std::string & n) { return Strings{mc::cat("requestLaneChange ", n, " rel r dir=", int(target < 0 ? lc::Direction::RIGHT : target ? lc::Direction::LEFT : lc::Direction::STRAIGHT), " ", std::abs(target), end)}; }, REACHED, behave, {}, {}, thin});
        }
  // trajectories
  for (auto mode : {"position", "follow"})
    for (int timing = 0; timing < 4; ++timing)
      for (bool closed : {false, true}) {
                const double offset = timing & 2 ? 0.5 : 0, scale = timing & 2 ? 2 : 1, distance = timing & 1 ? 1.5 : 0;
        r.push_back({routing(mc::cat("<FollowTrajectoryAction initialDistanceOffset=\"", distance, "\"><TimeReference><Timing domainAbsoluteRelative=\"", "relative", "\" offset=\"", offset, "\" scale=\"", scale, "\"/></TimeReference><TrajectoryFollowingMode followingMode=\"", mode,
                                     "\"/><TrajectoryRef><Trajectory name=\"t\" closed=\"", closed ? "true" : "false", "\"><ParameterDeclarations/><Shape><Polyline><Vertex>", world(130, 1, 0.25), "</Vertex><Vertex time=\"2.5\">", lane(10, 40, 0.5, 0), "</Vertex><Vertex time=\"4\">", world(160, 3, 0), "</Vertex></Polyline></Shape></Trajectory></TrajectoryRef></FollowTrajectoryAction>")),
                     [=, m = std::string(mode)](const std::string & n) {
                       traffic_simulator_msgs::msg::PolylineTrajectory t;
                       t.closed = closed;
                       t.dynamic_constraints_ignorable = m == "position";
                       t.initial_distance_offset = distance;
                       t.base_time = start_time;
                       auto add = [&](double time, double x, double y, double z, double yaw) {
                         traffic_simulator_msgs::msg::Vertex v;
                         v.time = time;
                         v.position.position.x = x, v.position.position.y = y, v.position.position.z = z;
                         v.position.orientation.w = std::cos(yaw / 2), v.position.orientation.z = std::sin(yaw / 2);
                         t.shape.vertices.push_back(v);
                       };
                       const auto own = Sim::entity(n).map_pose;
                       add(nan, own.position.x, own.position.y, own.position.z, 0);
                       add(nan, 130, 1, 0.5, 0.25);
                       add(offset + scale * 2.5, 140, 0.5, 0, 0);
                       add(offset + scale * 4, 160, 3, 0.5, 0);
                       return Strings{"requestFollowTrajectory " + n + " 4", n + " " + trajectory(t)};
                     },
                     closed ? NEVER : REACHED, [](auto & e, bool reached, int) { e.current_action = reached ? "follow_lane" : "follow_polyline_trajectory"; }, {}, {}});
      }
  // routing
  r.push_back({routing("<AssignRouteAction><Route name=\"route\" closed=\"false\"><ParameterDeclarations/><Waypoint routeStrategy=\"shortest\">" + lane(11, 15, 0, 0) + "</Waypoint><Waypoint routeStrategy=\"shortest\">" + world(230, 3, 0) + "</Waypoint><Waypoint routeStrategy=\"shortest\">" + lane(30, 5, -0.5, 0) + "</Waypoint></Route></AssignRouteAction>"),
               [](const std::string & n) { return Strings{"requestAssignRoute " + n + " lane 11,15,0,0 lane 21,30,0,0 lane 30,5,-0.5,0 OPTIONS"}; }, AT_ONCE, {}, {}, {}});
  r.push_back({routing("<AcquirePositionAction>" + world(220, 0, 0) + "</AcquirePositionAction>"), [](const std::string & n) { return Strings{"requestAcquirePosition " + n + " pose 220,0,0.5,0 OPTIONS"}; }, AT_ONCE, {}, {}, {}});
  r.push_back({routing("<AcquirePositionAction>" + lane(20, 30, 0.5, 0.25) + "</AcquirePositionAction>"), [](const std::string & n) { return Strings{"requestAcquirePosition " + n + " lane 20,30,0.5,0.25 OPTIONS"}; }, AT_ONCE, {}, {}, {}});
  r.push_back({routing("<AcquirePositionAction>" + relative("RelativeObjectPosition", "r", 20, 0, 0) + "</AcquirePositionAction>"), [](const std::string & n) { return Strings{"requestAcquirePosition " + n + " lane 12,70,0,0 OPTIONS"}; }, AT_ONCE, {}, {}, {}});
  // teleport
  auto teleporting = [](const std::string & p) { return "<PrivateAction><TeleportAction>" + p + "</TeleportAction></PrivateAction>"; };
  r.push_back({teleporting(world(115, -1, 0.25)), [](const std::string & n) { return Strings{"setStatus " + n + " pose 115,-1,0.5,0.25"}; }, AT_ONCE, {}, {}, {}});
  r.push_back({teleporting(lane(21, 7, -0.25, 0.5)), [](const std::string & n) { return Strings{"setStatus " + n + " lane 21,7,-0.25,0.5"}; }, AT_ONCE, {}, {}, {}});
  for (auto kind : {"RelativeObjectPosition", "RelativeWorldPosition"})
    r.push_back({teleporting(relative(kind, "r", 10, -1, 0.5)), [](const std::string & n) { return Strings{"setStatus " + n + " pose 160,5,0,0.5"}; }, AT_ONCE, {}, {}, {}});
  // controllers
  for (int set = 0; set < 4; ++set) {
    std::string p;
    if (set & 1) p += "<Property name=\"maxSpeed\" value=\"12.5\"/><Property name=\"maxDeceleration\" value=\"4\"/><Property name=\"isBlind\" value=\"true\"/>";
    if (set & 2) p += "<Property name=\"maxAcceleration\" value=\"2\"/><Property name=\"maxAccelerationRate\" value=\"6\"/><Property name=\"maxDecelerationRate\" value=\"7\"/><Property name=\"lateralCollisionThreshold\" value=\"0.75\"/>";
    r.push_back({"<PrivateAction><ControllerAction><AssignControllerAction><Controller name=\"c\"><Properties>" + p + "</Properties></Controller></AssignControllerAction><OverrideControllerValueAction/></ControllerAction></PrivateAction>",
                 [set](const std::string & n) {
                   Strings s{mc::cat("setVelocityLimit ", n, " ", set & 1 ? number(12.5) : number(std::numeric_limits<double>::max())),
                             mc::cat("setBehaviorParameter ", n, " see_around=", not(set & 1), " acc=", set & 2 ? 2 : 10, ",", set & 2 ? 6 : 3, " dec=", set & 1 ? 4 : 10, ",", set & 2 ? 7 : 3, " speed=", set & 1 ? "12.5" : "50")};
                   if (set & 2) s.push_back("setLateralCollisionThreshold " + n + " 0.75");
                   return s;
                 },
                 AT_ONCE, {}, {}, {}});
  }
  // speed profiles
  for (auto mode : {"position", "follow"})
    for (bool timed : {false, true})
      for (bool rel : {false, true})
        for (bool constrained : {false, true}) {
          const std::vector<double> speeds{5, 8, 3};
          std::string e;
          for (std::size_t i = 0; i < speeds.size(); ++i) e += mc::cat("<SpeedProfileEntry speed=\"", speeds[i], "\"", timed and i != 1 ? mc::cat(" time=\"", 0.5 * i + 0.25, "\"") : std::string(), "/>");
          const traffic_simulator_msgs::msg::BehaviorParameter def;
          const auto & c = def.dynamic_constraints;
          auto entry = [=, position = mode[0] == 'p', max = c.max_acceleration, accr = c.max_acceleration_rate, dec = c.max_deceleration, decr = c.max_deceleration_rate, speed = c.max_speed, see = def.see_around](const std::string & n, std::size_t i) {
            const bool has = timed and i != 1;
            return Strings{mc::cat("setBehaviorParameter ", n, " see_around=", see, " acc=", constrained ? 2.5 : max, ",", accr, " dec=", dec, ",", constrained ? 1.5 : decr, " speed=", constrained ? 20 : speed),
                           mc::cat("requestSpeedChange ", n, rel ? " rel r type=" : " abs ", rel ? mc::cat(int(sc::RelativeTargetSpeed::Type::DELTA), " ") : std::string(), speeds[i], " transition=", int(position ? sc::Transition::LINEAR : sc::Transition::AUTO), " constraint=", int(has ? sc::Constraint::Type::TIME : position ? sc::Constraint::Type::LONGITUDINAL_ACCELERATION : sc::Constraint::Type::NONE), ",", has ? 0.5 * i + 0.25 : position ? max : 0, " continuous=", not has)};
          };
          r.push_back({longitudinal(mc::cat("<SpeedProfileAction followingMode=\"", mode, "\"", rel ? " entityRef=\"r\"" : "", ">", constrained ? "<DynamicConstraints maxAcceleration=\"2.5\" maxDecelerationRate=\"1.5\" maxSpeed=\"20\"/>" : "", e, "</SpeedProfileAction>")),
                       [entry](const std::string & n) { return entry(n, 0); }, PROFILE, {}, rel ? std::vector<double>{9, 12, 7} : speeds, entry, timed or constrained});
        }
  return r;
}
struct Actors { Strings refs; Strings members; bool selection; };
const std::vector<Actors> & actor_sets()
{
  static const std::vector<Actors> s{{{"a"}, {"a"}, false}, {{"b", "a"}, {"a", "b"}, false}, {{"sab"}, {"a", "b"}, true}, {{"a", "p"}, {"a", "p"}, false}, {{"sab", "p"}, {"a", "b", "p"}, true}, {{"ped"}, {"p"}, true}, {{"cars"}, {"a", "b", "r"}, true}};
  return s;
}
Doc base(const std::string & actions, const Actors & who, const std::string & parameters = "")
{
  Doc d;
  for (auto n : {"a", "b", "r"}) d.entities += scenario_object(n);
  d.entities += "<ScenarioObject name=\"p\"><Pedestrian name=\"p\" mass=\"60\" model=\"m\" pedestrianCategory=\"pedestrian\"><BoundingBox><Center x=\"0\" y=\"0\" z=\"1\"/><Dimensions width=\"0.5\" length=\"1\" height=\"2\"/></BoundingBox><Properties/></Pedestrian></ScenarioObject>";
  d.entities += "<EntitySelection name=\"sab\"><Members><EntityRef entityRef=\"a\"/><EntityRef entityRef=\"b\"/></Members></EntitySelection><EntitySelection name=\"ped\"><Members><ByType objectType=\"pedestrian\"/></Members></EntitySelection><EntitySelection name=\"cars\"><Members><ByType objectType=\"vehicle\"/></Members></EntitySelection>";
  d.init = priv("a", teleport(10, 10)) + priv("b", teleport(11, 20)) + priv("p", teleport(10, 30)) + priv("r", teleport(12, 50));
  d.parameters = parameters;
  std::string refs;
  for (auto & r : who.refs) refs += "<EntityRef entityRef=\"" + r + "\"/>";
  d.stories = story(act(group(maneuver(event(actions, trigger("StartTrigger", time_condition("greaterOrEqual", start_time)))), actors(refs))));
  return d;
}
struct Run
{
  Sim sim;
  bool ok;
  Strings published;
  explicit Run(const Doc & d)
  {
    auto inner = rclcpp::stub::Bus::hook();
    rclcpp::stub::Bus::hook() = [this, inner](const std::string & topic, const std::any & m) {
      if (auto * e = std::any_cast<tier4_simulation_msgs::msg::SimulationEvents>(&m)) {
        std::string s = "events";
        for (auto & x : e->fault_injection_events) s += mc::cat(" ", x.name, "=", int(x.level));
        published.push_back(s);
      }
      inner(topic, m);
    };
    ok = sim.begin(d) and sim.frame(0.5);
    mock::world().events.clear();
  }
  Strings take()
  {
    Strings r;
    std::swap(r, mock::world().events);
    r.insert(r.end(), published.begin(), published.end());
    published.clear();
    return r;
  }
  std::string state() const { return std::string(sim.context.at("OpenSCENARIO").at("Storyboard").at("Story").at(0).at("Act").at(0).at("ManeuverGroup").at(0).at("Maneuver").at(0).at("Event").at(0).at("currentState").as_string()); }
};
// requests as sets, except that an entity's own come in order
std::string same(const Strings & got, const Strings & want)
{
  auto a = got, b = want;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  return a == b ? "" : "asked the simulator for " + show(got) + "instead of " + show(want);
}
void explore(const Variant & v, const Actors & who)
{
  const auto doc = base(action(v.xml, "action"), who);
  const std::size_t n = who.members.size();
  // one hold: for two frames every member is where the digit says
  const int width = v.end == PROFILE ? 3 : 2, depth = v.end == AT_ONCE ? 1 : v.thin ? (v.end == PROFILE and n < 3 ? 4 - n : n == 1 ? 2 : 1) : v.end == PROFILE ? (n == 1 ? 4 : n == 2 ? 3 : 1) + mc::thorough() : (n == 1 ? 4 : n == 2 ? 3 : 2) + mc::thorough();
  long total = 1, inputs = 1;
  for (std::size_t i = 0; i < n; ++i) inputs *= width;
  for (int i = 0; i < depth; ++i) total *= inputs;
  if (v.end == AT_ONCE) total = 1;
  for (long h = 0; h < total; ++h) {
    std::string name;
    for (auto & r : who.refs) name += r + " ";
    name = mc::cat("actors ", name, v.xml, " history ", h);
    mc::current(name);
    Run run(doc);
    if (not run.ok) return mc::violation(name, "the scenario did not start: " + Sim::verdict());
    double t = start_time;
    int frame = 0;
    std::size_t parity = 0;
    auto reference = [&]() { if (not std::count(who.members.begin(), who.members.end(), "r")) Sim::entity("r").twist.linear.x = v.end == PROFILE ? 4 : reference_speed(frame); };
    for (auto & m : who.members)
      if (v.behave) v.behave(Sim::entity(m), false, frame);
    reference();
    // what is asked for at the start
    if (v.end == AT_ONCE and v.xml.find("entityRef=\"r\"") != std::string::npos and std::count(who.members.begin(), who.members.end(), "r")) return;  // relative to itself
    if (std::count(who.members.begin(), who.members.end(), "r") and v.xml.find("entityRef=\"r\"") != std::string::npos) return;
    Strings want;
    for (auto & m : who.members)
      for (auto s : v.requests(m)) {
        if (const auto o = s.find("OPTIONS"); o != std::string::npos) s = s.substr(0, o) + "fixed";
        want.push_back(s);
      }
    if (not run.sim.frame(t)) return mc::violation(name, "the scenario ended: " + Sim::verdict());
    ++frame;
    for (auto & m : who.members)
      if (v.behave) v.behave(Sim::entity(m), false, frame);
    reference();
    if (not run.sim.frame(t += 0.125)) return mc::violation(name, "the scenario ended: " + Sim::verdict());
    auto got = run.take();
    if (v.xml.find("FollowTrajectory") != std::string::npos)
      for (auto & m : who.members)
        if (auto p = Sim::entity(m).last_trajectory) got.push_back(m + " " + trajectory(*p));
    if (const auto d = same(got, want); not d.empty()) return mc::violation(name, d);
    if (v.end == AT_ONCE) {
      run.sim.frame(t += 0.125);
      run.sim.frame(t += 0.125);
      if (run.state() != "completeState") mc::violation(name, "the event has not ended although its action ends at once");
      mc::executed();
      mc::state(name);
      mc::outcome(show(got));
      return;
    }
    if (run.state() != "runningState") return mc::violation(name, "the event is in " + run.state() + " right after its start");
    std::vector<bool> ever(n, false);
    std::vector<std::size_t> entry(who.refs.size(), 0);
    long rest = h;
    bool must = false;
    for (int d = 0; d < depth; ++d) {
      long digit = rest % inputs;
      rest /= inputs;
      std::vector<int> at(n);
      for (std::size_t i = 0; i < n; ++i) at[i] = digit % width, digit /= width;
      for (int k = 0; k < 2; ++k) {
        ++frame;
        for (std::size_t i = 0; i < n; ++i) {
          auto & e = Sim::entity(who.members[i]);
          if (v.end == PROFILE) e.twist.linear.x = v.speeds[at[i]];
          else v.behave(e, at[i], frame);
        }
        reference();
        if (not run.sim.frame(t += 0.125)) return mc::violation(name, "the scenario ended: " + Sim::verdict());
        mc::executed();
      }
      if (v.end == PROFILE) {
        // every actor moves on to its next entry when all its members have the speed of the current one
        Strings next;
        bool done = true;
        for (std::size_t r = 0; r < who.refs.size(); ++r) {
          const auto & ref = who.refs[r];
          const Strings mine = ref == "sab" ? Strings{"a", "b"} : ref == "ped" ? Strings{"p"} : ref == "cars" ? Strings{"a", "b", "r"} : Strings{ref};
          bool all = true;
          for (auto & m : mine) {
            const auto i = std::find(who.members.begin(), who.members.end(), m) - who.members.begin();
            all &= at[i] == int(entry[r]);
          }
          if (entry[r] < v.speeds.size() and all and ++entry[r] < v.speeds.size())
            for (auto & m : mine)
              for (auto & s : v.entry_requests(m, entry[r])) next.push_back(s);
          done &= entry[r] == v.speeds.size();
        }
        if (const auto x = same(run.take(), next); not x.empty()) return mc::violation(name, mc::cat("after hold ", d, ": ", x));
        must = done;
        if (must != (run.state() == "completeState")) return mc::violation(name, mc::cat("after hold ", d, " the event is in ", run.state(), must ? " although every entry has been reached" : " although an entry has not been reached"));
        mc::state(mc::cat(name.substr(0, name.find(" history")), std::string(entry.begin(), entry.end())));
      } else {
        bool all = true, each = true;
        std::string s;
        for (std::size_t i = 0; i < n; ++i) {
          ever[i] = ever[i] or at[i];
          all &= at[i] != 0;
          each &= ever[i];
          s += ever[i] ? '1' : '0';
        }
        mc::state(name.substr(0, name.find(" history")) + s);
        // each actor on its own; the members of a selection: together at the latest
        must = must or all or (each and not who.selection);
        if (const auto x = same(run.take(), {}); not x.empty()) return mc::violation(name, "while running " + x);
        const bool complete = run.state() == "completeState";
        if (v.end == NEVER ? complete : must ? not complete : complete and not each) return mc::violation(name, mc::cat("after hold ", d, " the event is in ", run.state(), v.end == NEVER ? " although its action has no end" : must ? " although all have reached the goal" : " although not all have reached the goal"));
      }
    }
    mc::outcome(name.substr(0, name.find(" history")) + run.state());
  }
  mc::sample(v.xml);
}
// an action that is executed again is executed as if for the first time
void executions(const Variant & v, const Actors & who)
{
  if (std::count(who.members.begin(), who.members.end(), "r")) return;
  std::string name = "executions of " + v.xml + " by";
  for (auto & r : who.refs) name += " " + r;
  mc::current(name);
  auto d = base("", who);
  d.entities += scenario_object("q");
  d.init += priv("q", teleport(10, 90));
  std::string refs;
  for (auto & r : who.refs) refs += "<EntityRef entityRef=\"" + r + "\"/>";
  d.stories = story(act(group(maneuver(event(action(v.xml, "action"), trigger("StartTrigger", probe_condition("q", "name=\"c\" delay=\"0\" conditionEdge=\"rising\"")), "event", "parallel", 3)), actors(refs))));
  Run run(d);
  double t = start_time;
  int frame = 0;
  auto step = [&](const char * what, bool start, int level) {
    ++frame;
    Sim::probe("q", start);
    for (auto & m : who.members) {
      auto & e = Sim::entity(m);
      if (v.end == PROFILE) e.twist.linear.x = level < 0 ? 99 : v.speeds[level];
      else if (v.behave) v.behave(e, level >= 0, frame);
    }
    if (not std::count(who.members.begin(), who.members.end(), "r")) Sim::entity("r").twist.linear.x = v.end == PROFILE ? 4 : reference_speed(frame);
    mc::executed();
    if (run.sim.frame(t += 0.125)) return true;
    mc::violation(name, mc::cat("the scenario ended ", what, ": ", Sim::verdict()));
    return false;
  };
  if (not run.ok) return mc::violation(name, "the scenario did not start: " + Sim::verdict());
  if (not step("before the first execution", false, -1)) return;
  for (int k = 1; k <= 3; ++k) {
    Strings want;
    for (auto & m : who.members)
      for (auto s : v.requests(m)) {
        if (const auto o = s.find("OPTIONS"); o != std::string::npos) s = s.substr(0, o) + "fixed";
        const auto base = mc::cat(" base=", number(start_time), " ");
        if (const auto o = s.find(base); o != std::string::npos) s.replace(o, base.size(), mc::cat(" base=", number(t + 0.125), " "));
        want.push_back(s);
      }
    const auto in = mc::cat(" in execution ", k);
    if (not run.take().empty()) return mc::violation(name, "requests are made before they should" + in);
    for (auto & m : who.members) Sim::entity(m).last_trajectory.reset();
    if (not step("at the start", true, -1) or not step("running", false, -1)) return;
    auto got = run.take();
    if (v.xml.find("FollowTrajectory") != std::string::npos)
      for (auto & m : who.members)
        if (auto p = Sim::entity(m).last_trajectory) got.push_back(m + " " + trajectory(*p));
    if (const auto x = same(got, want); not x.empty()) return mc::violation(name, x + in);
    const auto over = k < 3 ? "standbyState" : "completeState";
    if (v.end == AT_ONCE) {
      if (not step("ending", false, -1)) return;
    } else {
      if (run.state() != "runningState") return mc::violation(name, "the event is in " + run.state() + " before the goal is reached" + in);
      if (v.end == NEVER) return;
      if (v.end == PROFILE)
        for (std::size_t i = 0; i < v.speeds.size(); ++i) {
          if (not step("between entries", false, -1) or not step("at an entry", false, i)) return;
          Strings next;
          if (i + 1 < v.speeds.size())
            for (auto & m : who.members)
              for (auto & s : v.entry_requests(m, i + 1)) next.push_back(s);
          if (const auto x = same(run.take(), next); not x.empty()) return mc::violation(name, mc::cat("entry ", i, in, ": ", x));
        }
      else if (not step("at the goal", false, 0)) return;
    }
    if (run.state() != over) return mc::violation(name, "the event is in " + run.state() + " after the goal has been reached" + in);
    mc::state(name + in), mc::outcome(name + in);
    if (not step("between executions", false, -1) or not step("between executions", false, -1)) return;
    if (run.state() != over) return mc::violation(name, "the event is in " + run.state() + " though it has not been started again" + in);
  }
}
// actions the simulator provides beyond OpenSCENARIO
void commands()
{
  struct Command { std::string type; Strings want; bool refused = false; };
  const std::vector<Command> all{
    {"WalkStraightAction(p)", {"requestWalkStraight p", "requestWalkStraight a", "requestWalkStraight b"}},
    {"WalkStraightAction()", {"requestWalkStraight a", "requestWalkStraight b"}},
    {"V2ITrafficSignalStateAction(34802, \"red solidOn circle\")", {"v2i set 34802 red solidOn circle"}},
    {"V2ITrafficSignalStateAction(34802, green)", {"v2i set 34802 green"}},
    {"V2ITrafficSignalStateAction(3480200000001, \"green\", 7.5)", {"v2i set 3480200000001 green", "v2i rate 7.5"}},
    {"V2ITrafficSignalStateAction(34802)", {}, true},
    {"V2ITrafficSignalStateAction(34802, red, 1, 2)", {}, true},
    {"V2ITrafficSignalStateAction(x, red)", {}, true},
    {"EnableTrafficSignalV2IFeatureAction@v1(1)", {"v2iFeature 1 1"}},
    {"EnableTrafficSignalV2IFeatureAction@v1(1, 20000000003)", {"v2iFeature 1 1", "v2iFeature 20000000003 1"}},
    {"DisableTrafficSignalV2IFeatureAction@v1(1, 2, 3)", {"v2iFeature 1 0", "v2iFeature 2 0", "v2iFeature 3 0"}},
    {"EnableTrafficSignalV2IFeatureAction@v1()", {}, true},
    {"DisableTrafficSignalV2IFeatureAction@v1(x)", {}, true},
    {"PseudoTrafficSignalDetectorConfidenceSetAction@v1(34802, 0.25)", {"conventional confidence 34802 0.25"}},
    {"PseudoTrafficSignalDetectorConfidenceSetAction@v1(3480200000001, 0.25)", {"conventional confidence 3480200000001 0.25"}},
    {"PseudoTrafficSignalDetectorConfidenceSetAction@v1(34802)", {}, true},
    {"RequestToCooperateCommandAction@v1(intersection, activate)", {}, true},  // there is no ego
    {"FaultInjectionAction(one)", {"events one=" + std::to_string(int(tier4_simulation_msgs::msg::FaultInjectionEvent::ERROR))}},
    {"FaultInjectionAction@v1(one, two)", {mc::cat("events one=", int(tier4_simulation_msgs::msg::FaultInjectionEvent::ERROR), " two=", int(tier4_simulation_msgs::msg::FaultInjectionEvent::ERROR))}},
    {"FaultInjectionAction@v2(OK, x)", {mc::cat("events x=", int(tier4_simulation_msgs::msg::FaultInjectionEvent::OK))}},
    {"FaultInjectionAction@v2(WARN, x)", {mc::cat("events x=", int(tier4_simulation_msgs::msg::FaultInjectionEvent::WARN))}},
    {"FaultInjectionAction@v2(ERROR, x)", {mc::cat("events x=", int(tier4_simulation_msgs::msg::FaultInjectionEvent::ERROR))}},
    {"FaultInjectionAction@v2(STALE, x)", {mc::cat("events x=", int(tier4_simulation_msgs::msg::FaultInjectionEvent::STALE))}},
    {"FaultInjectionAction@v2(FATAL, x)", {}, true},
    {":", {}},
    {"test(1, 2)", {}},
    {"debugError", {}, true},
  };
  for (auto & c : all) {
    if (not mc::mine()) continue;
    std::string q;
    for (char x : c.type) q += x == '"' ? std::string("&quot;") : std::string(1, x);
    mc::current(c.type);
    Run run(base(action(command(q), "action"), actor_sets()[1]));
    if (not run.ok) {
      if (not c.refused) mc::violation(c.type, "the scenario did not start: " + Sim::verdict());
      continue;
    }
    const bool on = run.sim.frame(start_time) and run.sim.frame(start_time + 0.125) and run.sim.frame(start_time + 0.25);
    mc::executed();
    mc::state(c.type);
    if (c.refused) {
      if (on) mc::violation(c.type, "was accepted and asked for " + show(run.take()));
      else if (Sim::verdict().rfind("error", 0) != 0) mc::violation(c.type, "ended as " + Sim::verdict());
    } else if (not on) mc::violation(c.type, "the scenario ended: " + Sim::verdict());
    else {
      if (const auto d = same(run.take(), c.want); not d.empty()) mc::violation(c.type, d);
      if (run.state() != "completeState") mc::violation(c.type, "has not ended");
    }
    mc::outcome(c.type + Sim::verdict());
  }
  // an action that takes a given time
  for (double duration : {0.0, 0.25, 0.3, 1.0})
    if (mc::mine()) {
      Run run(base(action(command(mc::cat("dummyLongRunningAction(", duration, ")")), "action"), actor_sets()[0]));
      const auto name = mc::cat("dummyLongRunningAction(", duration, ")");
      for (int f = 0; f < 14 and run.ok; ++f) {
        const double t = start_time + 0.125 * f;
        run.sim.frame(t);
        const bool complete = run.state() == "completeState";
        if (complete and t - start_time < duration) mc::violation(name, mc::cat("ended after ", t - start_time, " s"));
        if (not complete and t - start_time > duration + 0.25) mc::violation(name, mc::cat("has not ended after ", t - start_time, " s"));
        mc::executed();
      }
    }
}
// who decides about the options of a route: the property of the entity's controller, else the parameter in sight, else no
void route_options()
{
  auto parameter = [](const std::string & n, int v) { return v < 0 ? std::string() : mc::cat("<ParameterDeclaration name=\"RoutingAction__", n, "\" parameterType=\"boolean\" value=\"", v ? "true" : "false", "\"/>"); };
  for (int lanes : {-1, 0, 1})
    for (int modify : {-1, 0, 1})
      for (int property : {-1, 0, 1})
        for (bool assign : {false, true})
          for (bool ego_first : {false, true}) {
            if (not mc::mine()) continue;
            const auto name = mc::cat(assign ? "AssignRoute" : "AcquirePosition", " lanes ", lanes, " modify ", modify, " property of the ego ", property, ego_first ? " ego first" : "");
            mc::current(name);
            Doc d = base(action(assign ? routing("<AssignRouteAction><Route name=\"route\" closed=\"false\"><ParameterDeclarations/><Waypoint routeStrategy=\"shortest\">" + lane(10, 15, 0, 0) + "</Waypoint><Waypoint routeStrategy=\"shortest\">" + lane(20, 15, 0, 0) + "</Waypoint></Route></AssignRouteAction>")
                                       : routing("<AcquirePositionAction>" + lane(20, 15, 0, 0) + "</AcquirePositionAction>"), "action"),
                         ego_first ? Actors{{"ego", "a"}, {}, false} : Actors{{"a", "ego"}, {}, false}, parameter("use_lane_ids_for_routing", lanes) + parameter("allow_goal_modification", modify));
            d.entities += scenario_object("ego", "<ObjectController><Controller name=\"c\"><Properties><Property name=\"isEgo\" value=\"true\"/>" + (property < 0 ? std::string() : mc::cat("<Property name=\"allowGoalModification\" value=\"", property ? "true" : "false", "\"/>")) + "</Properties></Controller></ObjectController>");
            d.init += priv("ego", teleport(11, 70));
            Run run(d);
            if (not run.ok) {
              mc::violation(name, "the scenario did not start: " + Sim::verdict());
              continue;
            }
            run.sim.frame(start_time);
            run.sim.frame(start_time + 0.125);
            mc::executed();
            mc::state(name);
            Strings want;
            for (auto n : {"a", "ego"}) want.push_back(mc::cat(assign ? "requestAssignRoute " : "requestAcquirePosition ", n, assign ? " lane 10,15,0,0" : "", " lane 20,15,0,0", (*n == 'e' and property >= 0 ? property : modify) == 1 ? " modifiable" : " fixed", lanes == 1 ? " by lanes" : ""));
            if (const auto x = same(run.take(), want); not x.empty()) mc::violation(name, x);
          }
}
void actions()
{
  mc::st().rule = "every listed action with every listed set of actors, under every history of which actors have reached the goal up to the depth";
  for (auto & v : variants())
    for (auto & who : actor_sets())
      if (mc::mine()) explore(v, who), executions(v, who);
  commands();
  route_options();
}
Register r1{"C21", actions};
}  // namespace
