// Storyboard lifecycle (C11) and event priorities (C12): the real interpreter against a reference state machine.
#include "h_core.hpp"
#include "h_tour.hpp"
namespace
{
using namespace core;
enum Kind { STORYBOARD, STORY, ACT, GROUP, MANEUVER, EVENT, ACTION };
enum St { STANDBY, START, RUNNING, END, STOP, COMPLETE };
const char * names[] = {"standbyState", "startTransition", "runningState", "endTransition", "stopTransition", "completeState"};
const char * types[] = {"", "story", "act", "maneuverGroup", "maneuver", "event", "action"};
const char * list_key[] = {"Story", "Act", "ManeuverGroup", "Maneuver", "Event", "Action"};
struct El
{
  Kind kind;
  std::string name;
  int start = -1, stop = -1;  // probe that is the trigger; -1: started at once / never stopped
  int max = 1;
  std::string priority = "parallel";
  std::vector<int> kids;
  int parent = -1;
  bool step = false;  // action that ends at once
};
struct Shape
{
  std::vector<El> e;
  int probes = 0, actions = 0;
  bool brief = false;    // attributes and triggers that may be left out are left out
  bool watched = false;  // a story before and one after hold a condition for each state of each element
  std::string path(int i) const { return e[i].kind == STORY ? e[i].name : path(e[i].parent) + "::" + e[i].name; }
  std::string watch(const std::string & name) const
  {
    std::string events;
    for (std::size_t i = 1; i < e.size(); ++i)
      for (int s = 0; s < 6; ++s)
        events += event(action(command(":"), "a"), trigger("StartTrigger", mc::cat("<Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><StoryboardElementStateCondition storyboardElementType=\"", types[e[i].kind], "\" storyboardElementRef=\"", path(i), "\" state=\"", names[s], "\"/></ByValueCondition></Condition>") + time_condition("lessThan", -1)), mc::cat("w", events.size()));
    return story(act(group(maneuver(events))), name);
  }
  int add(Kind k, int parent, El x = {})
  {
    x.kind = k;
    x.parent = parent;
    x.name = mc::cat(char("bsagmec"[k]), e.size());
    if (k == ACTION) ++actions;
    e.push_back(x);
    if (parent >= 0) e[parent].kids.push_back(e.size() - 1);
    return e.size() - 1;
  }
  int actions_before(int i) const
  {
    int n = 0;
    for (int j = 0; j < i; ++j) n += e[j].kind == ACTION;
    return n;
  }
  std::string trig(const char * tag, int p) const { return p < 0 ? "" : trigger(tag, probe_condition(mc::cat("p", p))); }
  std::string xml(int i) const
  {
    const auto & x = e[i];
    std::string body;
    for (int k : x.kids) body += xml(k);
    switch (x.kind) {
      case STORY: return story(body, x.name);
      case ACT: return x.start < 0 and brief ? act(body, "", trig("StopTrigger", x.stop), x.name) : x.start < 0 ? act(body, "<StartTrigger><ConditionGroup>" + time_condition("greaterOrEqual", 0) + "</ConditionGroup></StartTrigger>", trig("StopTrigger", x.stop), x.name) : act(body, trig("StartTrigger", x.start), trig("StopTrigger", x.stop), x.name);
      case GROUP: return group(body, actors("<EntityRef entityRef=\"e0\"/>"), x.name, x.max);
      case MANEUVER: return maneuver(body, x.name);
      case EVENT: {
        auto r = event(body, trig("StartTrigger", x.start), x.name, x.priority, x.max);
        const std::string given = " maximumExecutionCount=\"1\"";
        if (brief and x.max == 1) r.erase(r.find(given), given.size());
        return r;
      }
      case ACTION: return action(x.step ? step_action(actions_before(i) + 1) : linear_action(actions_before(i) + 1), x.name);
      default: return "";
    }
  }
  static std::string dynamics(const char * shape, double v) { return mc::cat("<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsDimension=\"rate\" value=\"1\" dynamicsShape=\"", shape, "\"/><SpeedActionTarget><AbsoluteTargetSpeed value=\"", v, "\"/></SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>"); }
  static std::string linear_action(double v) { return dynamics("linear", v); }
  static std::string step_action(double v) { return dynamics("step", v); }
  Doc doc() const
  {
    Doc d;
    d.entities = scenario_object("e0");
    d.init = priv("e0", teleport(10, 10));
    for (int p = 0; p < probes; ++p) d.entities += scenario_object(mc::cat("p", p)), d.init += priv(mc::cat("p", p), teleport(10, 20 + 10 * p));
    if (watched) d.stories += watch("before");
    for (int k : e[0].kids) d.stories += xml(k);
    if (watched) d.stories += watch("after");
    if (e[0].stop >= 0) d.stop = trig("StopTrigger", e[0].stop);
    return d;
  }
};
// ---- the reference: lifecycle of storyboard elements as ASAM OpenSCENARIO describes it ------------------------------------
struct Model
{
  const Shape * shape;
  std::vector<int> state, count;
  std::vector<char> reached;      // action has once been at its goal since it started
  std::vector<std::string> log;   // what was requested in this step
  unsigned probes = 0;
  int speed = 0;
  std::vector<int> was;                // states before this step
  std::vector<unsigned> visited, earlier;  // states gone through in this step and in the one before
  bool restarted = false;
  explicit Model(const Shape & s) : shape(&s), state(s.e.size(), STANDBY), count(s.e.size(), 0), reached(s.e.size(), 0), was(state), visited(s.e.size(), 0), earlier(visited) {}
  std::string key() const
  {
    std::string k;
    for (std::size_t i = 0; i < state.size(); ++i) k += char('0' + state[i]), k += char('0' + count[i]), k += char('0' + reached[i]);
    if (shape->watched)
      for (unsigned v : visited) k += char('0' + v);
    return k;
  }
  bool done() const { return state[0] == COMPLETE or (shape->watched and state[1] == COMPLETE and std::all_of(visited.begin(), visited.end(), [](unsigned v) { return not v; })); }
  bool on(int p) const { return p < 0 or (probes >> p & 1); }
  const El & el(int i) const { return shape->e[i]; }
  void go(int i, int s) { visited[i] |= 1u << (state[i] = s); }
  bool accomplished(int i)
  {
    if (el(i).kind == ACTION) {
      if (el(i).step) return true;
      if (state[i] == RUNNING or state[i] == STOP) reached[i] |= speed == shape->actions_before(i) + 1;
      return reached[i];
    }
    if (el(i).kind == STORYBOARD and shape->watched) return false;  // the conditions never start anything
    for (int k : el(i).kids)
      if (state[k] != COMPLETE) return false;
    return true;
  }
  void start(int i)
  {
    if (el(i).kind == ACTION) {
      reached[i] = 0;
      log.push_back(mc::cat("requestSpeedChange e0 abs ", shape->actions_before(i) + 1));
    }
    if (el(i).kind == MANEUVER)  // executed anew: its events can be, too
      for (int k : el(i).kids)
        if (state[k] == COMPLETE) go(k, STANDBY), count[k] = 0;
    if (el(i).kind == GROUP)
      for (int k : el(i).kids) go(k, START);
    if (el(i).kind == EVENT) {
      if (el(i).priority == "override")  // ends the other running events of its maneuver
        for (int k : el(el(i).parent).kids)
          if (k != i and state[k] == RUNNING) go(k, STOP);
      for (int k : el(i).kids) go(k, START);
    }
  }
  void evaluate(int i)
  {
    if (el(i).stop >= 0 and on(el(i).stop) and state[i] == RUNNING) go(i, STOP);
    for (;;) switch (state[i]) {
        case STANDBY:
          if (not on(el(i).start)) return;
          if (el(i).kind == EVENT and el(i).priority == "skip")
            for (int k : el(el(i).parent).kids)
              if (state[k] == RUNNING) return;
          go(i, START);
          break;
        case START:
          start(i);
          go(i, RUNNING);
          ++count[i];
          break;
        case RUNNING:
          for (int k : el(i).kids) evaluate(k);
          if (not accomplished(i)) return;
          go(i, END);
          break;
        case END:
          go(i, count[i] < el(i).max ? STANDBY : COMPLETE);
          break;
        case STOP:  // everything within ends too, started or not
          for (int k : el(i).kids)
            if (state[k] != COMPLETE) go(k, STOP), evaluate(k);
          go(i, COMPLETE);
          break;
        case COMPLETE: return;
      }
  }
  void step(int input)
  {
    probes = input % (1 << shape->probes);
    speed = input >> shape->probes;
    log.clear();
    was = state;
    earlier = visited;
    visited.assign(visited.size(), 0);
    evaluate(0);
    // how far an action that no longer runs had come does not matter
    for (std::size_t i = 0; i < state.size(); ++i)
      if (el(i).kind == ACTION and state[i] != RUNNING) reached[i] = 0;
  }
};
struct Run
{
  const Shape & shape;
  Sim sim;
  bool ok;
  double t = 0;
  Run(const Shape & s) : shape(s)
  {
    ok = sim.begin(s.doc());
    mock::world().events.clear();
  }
  void states(const boost::json::value & v, int i, std::string & out, const Model & m)
  {
    const auto & o = v.as_object();
    const auto & x = shape.e[i];
    const std::string got(o.at("currentState").as_string().c_str());
    if (got != names[m.state[i]]) out += mc::cat(x.name, " is in ", got, " instead of ", names[m.state[i]], "; ");
    if (x.kind == GROUP or x.kind == EVENT) {
      const auto n = boost::json::value_to<long>(o.at("currentExecutionCount"));
      if (n != m.count[i]) out += mc::cat(x.name, " has been executed ", n, " times instead of ", m.count[i], "; ");
      if (boost::json::value_to<long>(o.at("maximumExecutionCount")) != x.max) out += x.name + " has another maximum; ";
    }
    if (x.kids.empty()) return;
    const auto & kids = o.at(list_key[x.kind]).as_array();
    const std::size_t first = x.kind == STORYBOARD and shape.watched;
    if (kids.size() != x.kids.size() + 2 * first) {
      out += x.name + " has another number of children; ";
      return;
    }
    for (std::size_t k = 0; k < x.kids.size(); ++k) states(kids[k + first], x.kids[k], out, m);
    if (first) watches(kids.front(), m.was, m.earlier, "before", out), watches(kids.back(), m.state, m.visited, "after", out);
  }
  // a condition holds if the element is in the state or has been in it since the last evaluation
  void watches(const boost::json::value & v, const std::vector<int> & now, const std::vector<unsigned> & since, const char * when, std::string & out)
  {
    const auto & events = v.at("Act").at(0).at("ManeuverGroup").at(0).at("Maneuver").at(0).at("Event").as_array();
    std::size_t n = 0;
    for (std::size_t i = 1; i < shape.e.size(); ++i)
      for (int s = 0; s < 6; ++s, ++n) {
        const bool expected = now[i] == s or (since[i] >> s & 1);
        const bool got = events.at(n).at("StartTrigger").at("ConditionGroup").at(0).at("Condition").at(0).at("currentValue").as_string() == "true";
        if (got != expected) out += mc::cat("the condition ", when, " says that ", shape.e[i].name, got ? " is in " : " is not in ", names[s], "; ");
      }
  }
  std::string step(int input, const Model & m)
  {
    if (not ok) return "the scenario did not start: " + Sim::verdict();
    for (int p = 0; p < shape.probes; ++p) Sim::probe(mc::cat("p", p), input >> p & 1);
    Sim::entity("e0").twist.linear.x = input >> shape.probes;
    mock::world().events.clear();
    t += 0.125;
    if (not sim.frame(t)) return "the scenario ended: " + Sim::verdict();
    std::string out;
    states(sim.context.at("OpenSCENARIO").at("Storyboard"), 0, out, m);
    std::vector<std::string> got;
    for (auto & e : mock::world().events) got.push_back(e.substr(0, e.find(" transition=")));
    if (got != m.log) {
      out += "requested [";
      for (auto & g : got) out += g + ",";
      out += "] instead of [";
      for (auto & g : m.log) out += g + ",";
      out += "]";
    }
    return out;
  }
};
void explore(const std::string & name, const Shape & s)
{
  if (not mc::mine()) return;
  const int inputs = (s.actions + 1) << s.probes;
  tour::explore(
    name, Model(s), inputs, [&] { return std::make_unique<Run>(s); },
    [&](int i) {
      std::string r;
      for (int p = 0; p < s.probes; ++p)
        if (i >> p & 1) r += mc::cat("p", p);
      return mc::cat(r.empty() ? "-" : r, "/", i >> s.probes);
    });
}
El trig(int start, int stop = -1, int max = 1, const std::string & priority = "parallel")
{
  El x;
  x.start = start, x.stop = stop, x.max = max, x.priority = priority;
  return x;
}
El instant()
{
  El x;
  x.step = true;
  return x;
}
void lifecycle()
{
  mc::st().rule = "every reachable state of the reference storyboard under every combination of triggers and reached goals, for each shape of storyboard; each transition of "
                  "the model is replayed on the interpreter, which is compared (states, execution counts, requests) after every step; outcomes are the replayed paths";
  // one event: executions x actions x triggers of act and storyboard
  for (int given : {0, 1, 2, 3})
    for (int kind = 0; kind < 4; ++kind)
      for (int triggers = 0; triggers < 16; ++triggers) {
        Shape s;
        s.brief = not given;
        const int max = std::max(given, 1);
        auto next = [&](int bit) { return triggers >> bit & 1 ? s.probes++ : -1; };
        const int b = s.add(STORYBOARD, -1, trig(-1, next(0)));
        const int a = s.add(ACT, s.add(STORY, b), trig(next(1), next(2)));
        const int e = s.add(EVENT, s.add(MANEUVER, s.add(GROUP, a)), trig(next(3), -1, max));
        if (kind != 1) s.add(ACTION, e);
        if (kind == 1 or kind == 2) s.add(ACTION, e, instant());
        if (kind == 3) s.add(ACTION, e);
        explore(mc::cat("one event max ", max, s.brief ? " by default" : "", " kind ", kind, " triggers ", triggers), s);
      }
  // a group that is executed again executes its events again
  for (int group_max : {2, 3})
    for (int max : {1, 2})
      for (int kind = 0; kind < 4; ++kind)
        for (int triggers = 0; triggers < 4; ++triggers) {
          Shape s;
          auto next = [&](int bit) { return triggers >> bit & 1 ? s.probes++ : -1; };
          const int g = s.add(GROUP, s.add(ACT, s.add(STORY, s.add(STORYBOARD, -1)), trig(-1, next(0))), trig(-1, -1, group_max));
          const int e = s.add(EVENT, s.add(MANEUVER, g), trig(next(1), -1, max));
          s.add(ACTION, e, kind & 1 ? instant() : El());
          if (kind & 2) s.add(ACTION, s.add(EVENT, kind == 2 ? s.add(MANEUVER, g) : e - 1, trig(-1, -1, 1)));
          explore(mc::cat("group max ", group_max, " event max ", max, " kind ", kind, " triggers ", triggers), s);
        }
  // two of each level: a completed part next to one still running, stopped from each level
  for (int level = 0; level < 5; ++level)
    for (int stop = 0; stop < 3; ++stop)
      for (int max : {1, 2}) {
        Shape s;
        const int b = s.add(STORYBOARD, -1, trig(-1, stop == 2 ? s.probes++ : -1));
        int parent = b;
        int twin = -1;
        const int stopper = stop == 1 ? s.probes++ : -1;
        auto chain = [&](int parent, int from, int p) {
          for (int k = from; k <= EVENT; ++k) parent = s.add(Kind(k), parent, k == ACT ? trig(from == ACT and p >= 0 ? p : -1, stopper) : k == EVENT ? trig(p, -1, max) : El());
          s.add(ACTION, parent);
        };
        for (int k = STORY; k < STORY + level; ++k) parent = s.add(Kind(k), parent, k == ACT ? trig(-1, stopper) : El());
        (void)twin;
        const int p = s.probes++, q = s.probes++;
        chain(parent, STORY + level, p);
        chain(parent, STORY + level, q);
        explore(mc::cat("two ", list_key[level], " stop ", stop, " max ", max), s);
      }
}
void priorities()
{
  mc::st().rule = "every reachable state of the reference maneuver under every combination of start triggers and reached goals, for every assignment of priorities and "
                  "execution counts to its events; each transition of the model is replayed on the interpreter, which is compared after every step; outcomes are the replayed paths";
  const std::vector<std::string> ps{"parallel", "skip", "override"};
  for (int c = 0; c < 9; ++c)
    for (int max = 0; max < 4; ++max)
      for (int instantaneous = 0; instantaneous < 3; ++instantaneous) {
        Shape s;
        const int m = s.add(MANEUVER, s.add(GROUP, s.add(ACT, s.add(STORY, s.add(STORYBOARD, -1)))));
        s.probes = 2;
        const int e0 = s.add(EVENT, m, trig(0, -1, 1 + max % 2, ps[c % 3]));
        s.add(ACTION, e0, instantaneous == 1 ? instant() : El());
        const int e1 = s.add(EVENT, m, trig(1, -1, 1 + max / 2, ps[c / 3]));
        s.add(ACTION, e1, instantaneous == 2 ? instant() : El());
        explore(mc::cat(ps[c % 3], "*", 1 + max % 2, " ", ps[c / 3], "*", 1 + max / 2, " instantaneous ", instantaneous), s);
      }
  for (int c = 0; c < 27; ++c)
    for (int max = 0; max < (mc::thorough() ? 8 : 1); ++max) {
      Shape s;
      const int m = s.add(MANEUVER, s.add(GROUP, s.add(ACT, s.add(STORY, s.add(STORYBOARD, -1)))));
      s.probes = 3;
      const int of[] = {c % 3, c / 3 % 3, c / 9};
      std::string name;
      for (int i = 0; i < 3; ++i) {
        s.add(ACTION, s.add(EVENT, m, trig(i, -1, 1 + (max >> i & 1), ps[of[i]])));
        name += ps[of[i]] + mc::cat("*", 1 + (max >> i & 1), " ");
      }
      explore(name, s);
    }
  // the events of another maneuver are left alone, and the act can end in the middle
  for (int c = 0; c < 9; ++c) {
    Shape s;
    const int a = s.add(ACT, s.add(STORY, s.add(STORYBOARD, -1)), trig(-1, 2));
    const int g = s.add(GROUP, a);
    s.probes = 3;
    const int m0 = s.add(MANEUVER, g);
    s.add(ACTION, s.add(EVENT, m0, trig(0, -1, 2, ps[c % 3])));
    const int m1 = s.add(MANEUVER, g);
    s.add(ACTION, s.add(EVENT, m1, trig(1, -1, 2, ps[c / 3])));
    explore(mc::cat("two maneuvers ", ps[c % 3], " ", ps[c / 3]), s);
  }
}
void state_conditions()
{
  mc::st().rule = "every reachable state of the reference storyboard (with the transitions of the last step) under every combination of triggers and reached goals, for shapes "
                  "with a condition on every state of every element, evaluated before and after it; each transition of the model is replayed on the interpreter, every condition compared";
  for (int max : {1, 2})
    for (int kind = 0; kind < 2; ++kind)
      for (int triggers = 0; triggers < 8; ++triggers) {
        Shape s;
        s.watched = true;
        auto next = [&](int bit) { return triggers >> bit & 1 ? s.probes++ : -1; };
        const int a = s.add(ACT, s.add(STORY, s.add(STORYBOARD, -1)), trig(next(0), next(1)));
        const int e = s.add(EVENT, s.add(MANEUVER, s.add(GROUP, a)), trig(next(2), -1, max));
        s.add(ACTION, e, kind ? instant() : El());
        explore(mc::cat("watched max ", max, " kind ", kind, " triggers ", triggers), s);
      }
  const std::vector<std::string> ps{"parallel", "skip", "override"};
  for (int c = 0; c < 9; ++c)
    for (int max = 1; max < (mc::thorough() ? 3 : 2); ++max) {
      Shape s;
      s.watched = true;
      const int m = s.add(MANEUVER, s.add(GROUP, s.add(ACT, s.add(STORY, s.add(STORYBOARD, -1)))));
      s.probes = 2;
      s.add(ACTION, s.add(EVENT, m, trig(0, -1, max, ps[c % 3])));
      s.add(ACTION, s.add(EVENT, m, trig(1, -1, max, ps[c / 3])));
      explore(mc::cat("watched ", ps[c % 3], " ", ps[c / 3], " max ", max), s);
    }
}
Register r3{"C24", state_conditions};
Register r1{"C11", lifecycle}, r2{"C12", priorities};
}  // namespace
