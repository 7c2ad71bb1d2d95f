// Conditions, condition groups and triggers (C13): every history of values against a reference evaluation.
#include "h_core.hpp"
namespace
{
using namespace core;
const char * edges[] = {"none", "rising", "falling", "risingOrFalling", "sticky"};
enum { NONE, RISING, FALLING, BOTH, STICKY };
// a condition holds at an evaluation what its edge says about the evaluations that lie at least the delay back
struct Reference
{
  int edge;
  double delay;
  std::vector<std::pair<double, bool>> history;
  std::size_t judged = 0;  // evaluations at least the delay back at the evaluation before
  bool value = false;
  bool evaluate(double t, bool v)
  {
    history.emplace_back(t, v);
    std::size_t n = judged;
    while (n < history.size() and not(history[n].first > t - delay)) ++n;
    bool seen = false;
    for (auto i = judged; i < n; ++i) {
      const bool now = history[i].second, first = i == 0, before = not first and history[i - 1].second;
      if (edge == RISING) seen |= not first and now and not before;
      if (edge == FALLING) seen |= not first and not now and before;
      if (edge == BOTH) seen |= not first and now != before;
      if (edge == STICKY) seen |= now;
    }
    judged = n;
    return value = edge == NONE ? n and history[n - 1].second : edge == STICKY ? value or seen : seen;
  }
};
struct Slot { int probe, edge; double delay; };
using Groups = std::vector<std::vector<Slot>>;
std::string attrs(const Slot & s) { return mc::cat("name=\"c\" delay=\"", s.delay, "\" conditionEdge=\"", edges[s.edge], "\""); }
Doc document(const std::vector<Groups> & triggers, int probes)
{
  Doc d;
  d.entities = scenario_object("e0");
  d.init = priv("e0", teleport(10, 10));
  for (int p = 0; p < probes; ++p) d.entities += scenario_object(mc::cat("p", p)), d.init += priv(mc::cat("p", p), teleport(10, 20 + 10 * p));
  std::string events;
  for (std::size_t i = 0; i < triggers.size(); ++i) {
    std::string t = "<StartTrigger>";
    for (auto & g : triggers[i]) {
      t += "<ConditionGroup>";
      for (auto & s : g) t += s.probe < 0 ? time_condition("lessThan", -1) : probe_condition(mc::cat("p", s.probe), attrs(s));
      t += "</ConditionGroup>";
    }
    // a speed that is never reached: the event stays running
    events += event(action("<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsDimension=\"rate\" value=\"1\" dynamicsShape=\"linear\"/><SpeedActionTarget><AbsoluteTargetSpeed value=\"7\"/></SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>", "a"), t + "</StartTrigger>", mc::cat("e", i));
  }
  d.stories = story(act(group(maneuver(events), actors("<EntityRef entityRef=\"e0\"/>"))));
  return d;
}
struct Run
{
  const std::vector<Groups> & triggers;
  Sim sim;
  std::vector<std::vector<std::vector<Reference>>> references;
  std::vector<char> started;
  bool ok;
  Run(const std::vector<Groups> & t, const Doc & d, int probes) : triggers(t), started(t.size(), 0)
  {
    for (auto & trigger : t) {
      references.emplace_back();
      for (auto & g : trigger) {
        references.back().emplace_back();
        for (auto & s : g) references.back().back().push_back({s.edge, s.delay, {}, 0, false});
      }
    }
    ok = sim.begin(d);
    // the act starts at the first evaluation of the storyboard, its events are evaluated from then on
  }
  std::string step(double t, int input)
  {
    if (not ok) return "the scenario did not start: " + Sim::verdict();
    for (int p = 0; p < 3; ++p)
      if (Sim::entity("e0"), traffic_simulator::API::instance->isEntityExist(mc::cat("p", p))) Sim::probe(mc::cat("p", p), input >> p & 1);
    if (not sim.frame(t)) return "the scenario ended: " + Sim::verdict();
    const auto & events = sim.context.at("OpenSCENARIO").at("Storyboard").at("Story").at(0).at("Act").at(0).at("ManeuverGroup").at(0).at("Maneuver").at(0).at("Event").as_array();
    auto shown = [](const boost::json::value & v) { return v.at("currentValue").as_string() == "true"; };
    for (std::size_t i = 0; i < triggers.size(); ++i) {
      if (started[i]) continue;
      bool any = false;
      std::string out;
      const auto & trigger = events.at(i).at("StartTrigger");
      for (std::size_t g = 0; g < triggers[i].size(); ++g) {
        bool all = true;
        for (std::size_t c = 0; c < triggers[i][g].size(); ++c) {
          const auto & s = triggers[i][g][c];
          const bool v = references[i][g][c].evaluate(t, s.probe >= 0 and (input >> s.probe & 1));
          all &= v;
          if (shown(trigger.at("ConditionGroup").at(g).at("Condition").at(c)) != v) out += mc::cat("condition ", c, " of group ", g, " (", edges[s.edge], ", delay ", s.delay, ") is not ", v ? "true; " : "false; ");
        }
        any |= all;
        if (shown(trigger.at("ConditionGroup").at(g)) != all) out += mc::cat("group ", g, " is not ", all ? "true; " : "false; ");
      }
      if (shown(trigger) != any) out += mc::cat("the trigger is not ", any ? "true; " : "false; ");
      if ((events.at(i).at("currentState").as_string() == "standbyState") == any) out += any ? "the event did not start" : "the event started";
      started[i] = any;
      if (not out.empty()) return show(triggers[i]) + ": " + out;
    }
    return "";
  }
  static std::string show(const Groups & t)
  {
    std::string r = "trigger ";
    for (auto & g : t) {
      r += "(";
      for (auto & s : g)
        if (s.probe >= 0) r += mc::cat(&s == &g[0] ? "" : " and ", "p", s.probe, " ", edges[s.edge], " delay ", s.delay);
      r += ")";
    }
    return r;
  }
};
void conditions()
{
  mc::st().rule = "every history of values and time steps up to the depth for every edge and delay; every single pulse on the simulator's own clock; every history of two "
                  "values for every trigger of up to three conditions in up to two groups; conditions, groups, triggers and event compared after every step";
  // a) edges and delays, regular and irregular steps
  {
    const double unit = 0.125;
    std::vector<Groups> triggers;
    for (int e = 0; e < 5; ++e)
      for (double d : {0.0, 0.5, 1.0, 2.0, 2.5, 3.0}) triggers.push_back({{{0, e, d * unit}, {-1, NONE, 0}}});
    const auto doc = document(triggers, 1);
    for (int steps = 1; steps <= 2; ++steps) {
      const int width = 2 * steps, depth = (steps == 1 ? 8 : 5) + 2 * mc::thorough();
      std::vector<int> h(depth, 0);
      for (;;) {
        if (mc::mine()) {
          std::string name = "values";
          for (int x : h) name += mc::cat(" ", x & 1, x >> 1 ? "(2 steps)" : "");
          mc::current(name);
          Run run(triggers, doc, 1);
          double t = 1;
          for (std::size_t i = 0; i < h.size(); ++i) {
            t += unit * (1 + (h[i] >> 1));
            mc::executed();
            mc::state(name.substr(0, 0) + mc::cat(steps, " ", i) + std::string(h.begin(), h.begin() + i + 1));
            if (const auto d = run.step(t, h[i] & 1); not d.empty()) {
              mc::violation(name, d);
              break;
            }
          }
          mc::outcome(name);
          mc::sample(name);
        }
        int k = depth - 1;
        while (k >= 0 and ++h[k] == width) h[k--] = 0;
        if (k < 0) break;
      }
    }
  }
  // b) a single change or pulse, wherever it comes, on the clock the simulator really has
  {
    std::vector<Groups> triggers;
    for (int e = 0; e < 5; ++e)
      for (double d : {0.1, 0.2, 0.3, 0.5, 1.0}) triggers.push_back({{{0, e, d}, {-1, NONE, 0}}});
    const auto doc = document(triggers, 1);
    const int frames = mc::thorough() ? 300 : 110;
    for (double rate : {30.0, 20.0})
      for (int width : {1, 2, 100000})
        for (int from = 1; from < frames - 40; ++from) {
          if (not mc::mine()) continue;
          const auto name = mc::cat("pulse from frame ", from, " for ", width, " frames at ", rate, " Hz");
          mc::current(name);
          Run run(triggers, doc, 1);
          double t = 0;
          for (int f = 0; f < frames and f < from + 40; ++f) {
            t += 1 / rate;
            mc::executed();
            if (const auto d = run.step(t, f >= from and f < from + width); not d.empty()) {
              mc::violation(name, d);
              break;
            }
          }
          mc::state(name);
          mc::outcome(name);
        }
  }
  // c) groups and triggers
  {
    std::vector<Slot> slots;
    for (int p = 0; p < 2; ++p)
      for (int e : {NONE, RISING, STICKY}) slots.push_back({p, e, 0});
    std::vector<Groups> all{{}};
    for (auto & a : slots) {
      all.push_back({{a}});
      for (auto & b : slots) {
        all.push_back({{a, b}});
        all.push_back({{a}, {b}});
        for (auto & c : slots) all.push_back({{a, b}, {c}}), all.push_back({{a}, {b, c}}), all.push_back({{a, b, c}});
      }
    }
    const std::size_t chunk = 40;
    const int depth = mc::thorough() ? 5 : 3;
    for (std::size_t from = 0; from < all.size(); from += chunk) {
      const std::vector<Groups> triggers(all.begin() + from, all.begin() + std::min(all.size(), from + chunk));
      const auto doc = document(triggers, 2);
      std::vector<int> h(depth, 0);
      for (;;) {
        if (mc::mine()) {
          std::string name = mc::cat("triggers ", from, " values");
          for (int x : h) name += mc::cat(" ", x);
          mc::current(name);
          Run run(triggers, doc, 2);
          for (std::size_t i = 0; i < h.size(); ++i) {
            mc::executed();
            if (const auto d = run.step(0.25 * (i + 1), h[i]); not d.empty()) {
              mc::violation(name, d);
              break;
            }
          }
          mc::state(name);
          mc::outcome(name);
        }
        int k = depth - 1;
        while (k >= 0 and ++h[k] == 4) h[k--] = 0;
        if (k < 0) break;
      }
    }
  }
}
Register r1{"C13", conditions};
}  // namespace
