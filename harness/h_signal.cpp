// Signal controllers (C18): what every traffic light shows, and what is predicted of it, at every moment of a scenario.
#include "h_core.hpp"
namespace
{
using namespace core;
using mc::cat;
constexpr double inf = std::numeric_limits<double>::infinity();
struct Signal { std::string id, state; };
struct Phase { std::string name; double duration; std::vector<Signal> signals; };
struct Target { long id; bool v2i = false, detected = false; };
Target target(const std::string & s)
{
  std::stringstream ss(s);
  Target t;
  std::string c;
  ss >> t.id >> c;
  t.v2i = c.rfind("v2i", 0) == 0, t.detected = c.size() > 9 and c.substr(c.size() - 9) == "_detected";
  return t;
}
using Lights = std::map<long, std::string>;
struct Controller
{
  std::string name, reference;
  double delay = 0;
  std::vector<Phase> phases;
  // the reference's state
  int phase = -1;
  double since = 0;
  std::vector<double> due;
  std::string xml() const
  {
    std::string r = "<TrafficSignalController name=\"" + name + "\"" + (reference.empty() ? "" : cat(" reference=\"", reference, "\" delay=\"", delay, "\"")) + ">";
    for (auto & p : phases) {
      r += "<Phase name=\"" + p.name + "\"" + (std::isinf(p.duration) ? "" : cat(" duration=\"", p.duration, "\"")) + ">";
      for (auto & s : p.signals) r += "<TrafficSignalState trafficSignalId=\"" + s.id + "\" state=\"" + s.state + "\"/>";
      r += "</Phase>";
    }
    return r + "</TrafficSignalController>";
  }
};
struct Prediction { double at; std::multiset<std::string> states; bool open; };
struct Model
{
  std::vector<Controller> all;
  Lights shown[2], detected[2];
  std::set<long> enabled;
  // what the lights of one controller are predicted to do, once it has changed phase
  std::map<std::string, std::map<long, std::vector<Prediction>>> predicted;
  void clear(const Phase & p) { for (auto & s : p.signals) { auto t = target(s.id); if (t.detected) detected[t.v2i].erase(t.id); else shown[t.v2i][t.id] = ""; } }
  void go(Controller & c, int to, double now)
  {
    if (to == 0) for (auto & o : all) if (o.reference == c.name) o.due.push_back(now + o.delay);
    if (c.phase >= 0) clear(c.phases[c.phase]);
    c.phase = to, c.since = now;
    if (to < 0) return;
    auto & p = c.phases[to];
    clear(p);
    for (auto & s : p.signals) { auto t = target(s.id); auto & x = t.detected ? detected[t.v2i][t.id] : shown[t.v2i][t.id]; x += (x.empty() ? "" : ", ") + s.state; }
    predict(c, now);
  }
  void predict(const Controller & c, double now)
  {
    auto & mine = predicted[c.name];
    mine.clear();
    std::set<long> open, ids;
    for (auto & p : c.phases) for (auto & s : p.signals) { auto t = target(s.id); ids.insert(t.id); if (t.v2i and t.detected) open.insert(t.id); }
    for (auto id : ids) mine[id];
    double at = now + c.phases[c.phase].duration;
    for (int k = 1; k <= 6; ++k) {
      auto & p = c.phases[(c.phase + k) % c.phases.size()];
      if (std::isinf(at)) break;
      for (auto id : ids) {
        Prediction x{at, {}, open.count(id) or std::isinf(p.duration)};
        for (bool v2i : {true, false}) {
          if (x.states.size() or (not v2i and not enabled.count(id))) break;
          for (auto & s : p.signals) { auto t = target(s.id); if (t.id == id and t.v2i == v2i and not t.detected) x.states.insert(s.state); }
        }
        bool ever = false;
        for (auto & q : c.phases) for (auto & s : q.signals) { auto t = target(s.id); ever |= t.id == id and (t.v2i or enabled.count(id)); }
        if (x.states.empty()) { if (not ever) continue; x.open = true; }  // not said what the light does then
        mine[id].push_back(x);
      }
      at += p.duration;
      if (std::isinf(p.duration)) break;
    }
  }
  void frame(double now)
  {
    for (auto & c : all) {
      if (c.reference.empty() and c.phase < 0) { if (c.phases.size()) go(c, 0, now); continue; }
      bool begin = false;
      while (c.due.size() and c.due[0] < now) c.due.erase(c.due.begin()), begin = true;
      if (c.phases.empty()) continue;
      if (begin) go(c, 0, now);
      else if (c.phase >= 0 and c.phases[c.phase].duration <= now - c.since) go(c, (c.phase + 1) % c.phases.size(), now);
    }
  }
};

struct Do { double at; std::string xml; std::function<void(Model &, double)> effect; };
std::string change(const std::string & controller, const std::string & phase) { return "<GlobalAction><InfrastructureAction><TrafficSignalAction><TrafficSignalControllerAction trafficSignalControllerRef=\"" + controller + "\" phase=\"" + phase + "\"/></TrafficSignalAction></InfrastructureAction></GlobalAction>"; }
std::string show(const std::string & light, const std::string & state) { return "<GlobalAction><InfrastructureAction><TrafficSignalAction><TrafficSignalStateAction name=\"" + light + "\" state=\"" + state + "\"/></TrafficSignalAction></InfrastructureAction></GlobalAction>"; }
constexpr long MARK = 9000;
std::string never_condition() { return time_condition("greaterThan", 1e9); }

std::string describe(const std::vector<Controller> & c, const std::string & more = "")
{
  std::string r;
  for (auto & x : c) {
    r += (r.empty() ? "" : " / ") + x.name + (x.reference.empty() ? "" : cat("(", x.delay, "s after ", x.reference, ")")) + ":";
    for (auto & p : x.phases) { r += cat(" ", p.duration, "s["); for (auto & s : p.signals) r += cat(s.id, "=", s.state, ";"); r += "]"; }
  }
  return r + more;
}
void run(const std::vector<Controller> & controllers, const std::vector<Do> & todo, const std::set<long> & enabled, int frames, const std::string & label = "", const std::vector<Do> & init = {}, double dt = 0.25)
{
  const auto name = describe(controllers, label);
  mc::current(name);
  Model m;
  m.all = controllers, m.enabled = enabled;
  Doc d;
  d.road = "<TrafficSignals>";
  for (auto & c : controllers) d.road += c.xml();
  d.road += "</TrafficSignals>";
  std::string events, groups;
  for (std::size_t i = 0; i < todo.size(); ++i) events += event(action(todo[i].xml, "a") + action(show(cat(MARK + i), "green"), "b"), trigger("StartTrigger", time_condition("greaterOrEqual", todo[i].at)), cat("do", i));
  struct Asked { std::string controller, phase; long light = 0; std::string state; };
  std::vector<Asked> asked;
  for (auto & c : controllers) {
    std::set<std::string> seen;
    for (auto & p : c.phases) if (seen.insert(p.name).second) asked.push_back({c.name, p.name});
    if (c.phases.size() and c.phases[0].signals.size()) asked.push_back({"", "", target(c.phases[0].signals[0].id).id, c.phases[0].signals[0].state});
  }
  for (auto & a : asked)
    groups += "<ConditionGroup><Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition>" +
              (a.light ? cat("<TrafficSignalCondition name=\"", a.light, "\" state=\"", a.state, "\"/>") : cat("<TrafficSignalControllerCondition trafficSignalControllerRef=\"", a.controller, "\" phase=\"", a.phase, "\"/>")) + "</ByValueCondition></Condition>" + never_condition() + "</ConditionGroup>";
  events += event(action(show("1", "green"), "never"), "<StartTrigger>" + groups + "</StartTrigger>", "asked");
  for (auto & i : init) d.init += i.xml;
  d.stories = story(act(group(maneuver(events))));
  Sim sim;
  for (auto id : enabled) mock::world().v2i_enabled[id] = true;
  if (not sim.begin(d)) return mc::violation(name, "the scenario did not start: " + Sim::verdict());
  for (auto & i : init) i.effect(m, 0);
  std::vector<bool> done(todo.size());
  for (int k = 1; k <= frames; ++k) {
    const double t = k * dt;
    if (not sim.frame(t)) return mc::violation(name, "the scenario ended: " + Sim::verdict());
    m.frame(t);
    for (std::size_t i = 0; i < todo.size(); ++i)
      if (not done[i] and mock::world().lights.count(MARK + i)) {
        done[i] = true, todo[i].effect(m, t);
        if (t < todo[i].at) mc::violation(name + " early", cat("an action is done at ", t));
      }
    std::string all;
    auto compare = [&](const char * what, const Lights & want, const std::map<std::int64_t, std::string> & got) {
      std::set<long> ids;
      for (auto & [i, s] : want) ids.insert(i);
      for (auto & [i, s] : got) ids.insert(i);
      for (auto i : ids) {
        if (i >= MARK) continue;
        const std::string a = got.count(i) ? got.at(i) : "", b = want.count(i) ? want.at(i) : "";
        all += cat(i, a, ";");
        if (a != b) mc::violation(name, cat("at ", t, " s light ", i, what, " shows '", a, "' instead of '", b, "'"));
      }
    };
    auto & w = mock::world();
    compare("", m.shown[0], w.lights), compare(" (v2i)", m.shown[1], w.v2i_lights), compare(" as detected", m.detected[0], w.detected_lights), compare(" (v2i) as detected", m.detected[1], w.v2i_detected_lights);
    for (auto & [c, lights] : m.predicted)
      for (auto & [id, want] : lights) {
        bool several = false;  // a light with two masters: not judged
        for (auto & [c2, l2] : m.predicted) several |= c2 != c and l2.count(id);
        if (several) continue;
        std::map<double, std::multiset<std::string>> got, expected;
        std::set<double> open;
        for (auto & [at, s] : w.predictions.count(id) ? w.predictions.at(id) : std::vector<std::pair<double, std::string>>()) got[at].insert(s);
        for (auto & p : want) { expected[p.at].insert(p.states.begin(), p.states.end()); if (p.open) open.insert(p.at); }
        for (auto at : open) got.erase(at), expected.erase(at);
        if (got != expected) {
          auto str = [](auto & m) { std::string r; for (auto & [at, s] : m) { r += cat(" ", at, ":"); for (auto & x : s) r += x + "/"; } return r; };
          mc::violation(name, cat("at ", t, " s the predictions of light ", id, " are", str(got), " instead of", str(expected)));
        }
        for (auto & [at, s] : got) all += cat(at - t);
      }
    const auto & e = sim.context.at("OpenSCENARIO").at("Storyboard").at("Story").at(0).at("Act").at(0).at("ManeuverGroup").at(0).at("Maneuver").at(0).at("Event").as_array();
    const auto & g = e.at(todo.size()).at("StartTrigger").at("ConditionGroup").as_array();
    bool acted = false;  // conditions are asked before or after an action of the same frame
    for (std::size_t i = 0; i < todo.size(); ++i) acted |= done[i] and t - todo[i].at < 2 * dt;
    if (not acted)
      for (std::size_t i = 0; i < asked.size(); ++i) {
        bool want = false;
        if (asked[i].light) want = m.shown[0][asked[i].light] == asked[i].state;
        else for (auto & c : m.all) if (c.name == asked[i].controller) want = c.phase >= 0 and c.phases[c.phase].name == asked[i].phase;
        const bool now = g.at(i).at("Condition").at(0).at("currentValue").as_string() == "true";
        if (now != want) mc::violation(name, cat("at ", t, " s ", asked[i].light ? cat("light ", asked[i].light, " is ", now ? "" : "not ", "said to show ", asked[i].state) : cat(asked[i].controller, " is ", now ? "" : "not ", "said to be in phase ", asked[i].phase)));
      }
    mc::executed(controllers.size());
    mc::state(all), mc::outcome(all);
  }
  for (std::size_t i = 0; i < todo.size(); ++i) if (not done[i] and todo[i].at < (frames - 3) * dt) mc::violation(name, "an action was not done");
}

// ---- controllers
std::vector<Signal> content(int k, long l)
{
  const auto a = cat(l), b = cat(l + 1);
  switch (k) {
    case 0: return {{a, "green"}};
    case 1: return {{a, "red"}, {b, "green"}};
    case 2: return {};
    case 3: return {{a, "red"}, {a, "green left"}, {b, "yellow"}};
    case 4: return {{a, "red"}, {a + " v2i", "yellow"}, {b + " v2i", "green"}};
    case 5: return {{a, "green"}, {a + " conventional_detected", "unknown unknown circle"}, {b + " v2i_detected", "red"}};
    default: return {{a + " conventional", "flashing"}, {b, "red"}, {b + " v2i", "red"}, {b + " v2i", "green up"}};
  }
}
void run_signals()
{
  mc::st().rule = "signal controllers with up to three phases (every duration and content of an alphabet, each channel), many in one document; references and delays; phases chosen and lights shown by "
                  "actions at every moment; before each frame's storyboard the lights of both channels, what is detected, predictions and conditions against a model of the controllers";
  // one controller at a time never means one in the document: eight share it
  {
    std::vector<Controller> pack;
    long l = 100;
    std::set<long> enabled;
    int part = 0;
    auto flush = [&](bool all) {
      if (pack.size() < 8 and not all) return;
      if (pack.size() and mc::mine()) run(pack, {}, enabled, 18);
      pack.clear(), enabled.clear(), l = 100;
    };
    const std::vector<double> durations{0.5, 1.375, inf, 0};
    const int contents = mc::thorough() ? 7 : 7;
    std::vector<std::pair<double, int>> options;
    for (auto d : durations) for (int c = 0; c < contents; ++c) options.push_back({d, c});
    std::vector<int> s;
    std::function<void()> rec = [&] {
      if (s.size()) {
        // the third phase: all contents, with fewer durations in the quick tier
        if (s.size() == 3 and not mc::thorough() and (s[0] + 5 * s[1] + 11 * s[2]) % 6) goto next;
        Controller c;
        c.name = cat("c", pack.size());
        for (std::size_t k = 0; k < s.size(); ++k) c.phases.push_back({cat("p", k), options[s[k]].first, content(options[s[k]].second, l)});
        if (++part % 2) enabled.insert(l), part % 4 == 1 ? (void)enabled.insert(l + 1) : (void)0;
        pack.push_back(c), l += 2;
        flush(false);
      }
    next:
      if (s.size() < 3)
        for (std::size_t k = 0; k < options.size(); ++k) s.push_back(k), rec(), s.pop_back();
    };
    rec();
    flush(true);
  }
  auto controller = [](const std::string & n, std::vector<double> d, long l, int first) {
    Controller c;
    c.name = n;
    for (std::size_t k = 0; k < d.size(); ++k) c.phases.push_back({cat("p", k), d[k], content((first + k) % 7, l)});
    return c;
  };
  // references
  const std::vector<std::vector<double>> cycles{{0.5, 1.0}, {1.5}, {0.25, 0.5, 0.75}, {0.375, 1.125}};
  for (auto & da : cycles) for (auto & db : cycles) for (double delay : {0.125, 0.375, 1.125, 1.375, 1.625, 2.125, 4.625}) for (int order = 0; order < 4; ++order) for (int first : {0, 3, 4}) {
    if (not mc::mine()) continue;
    auto a = controller("a", da, 100, first), b = controller("b", db, 200, (first + 1) % 7), c = controller("c", da, 300, first);
    b.reference = "a", b.delay = delay, c.reference = "b", c.delay = 0.625;
    if (order == 0) run({a, b}, {}, {100, 200}, 36);
    if (order == 1) run({b, a}, {}, {100, 200}, 36);
    if (order == 2) run({a, b, c}, {}, {100, 300}, 36);
    if (order == 3) run({c, b, a}, {}, {100, 300}, 36);
  }
  // actions
  for (int to : {0, 1, 2}) for (int to2 : {-1, 0, 2}) for (int light = 0; light < 3; ++light) for (int at = 1; at < 14; ++at) for (int who = 0; who < 2; ++who) for (int first : {0, 4}) {
    if (not mc::mine()) continue;
    auto a = controller("a", {0.5, 1.0, 0.75}, 100, first), b = controller("b", {1.25, 1.0}, 200, 1);
    b.reference = "a", b.delay = 0.625;
    std::vector<Do> todo;
    auto pick = [](const std::string & n, int to) { return [=](Model & m, double t) { for (auto & c : m.all) if (c.name == n) m.go(c, to, t); }; };
    if (who == 0) todo.push_back({at * 0.25, change("a", cat("p", to)), pick("a", to)});
    else todo.push_back({at * 0.25, change("b", cat("p", to % 2)), pick("b", to % 2)});
    if (to2 >= 0) todo.push_back({at * 0.25 + 1, change("a", cat("p", to2)), pick("a", to2)});
    if (light) {
      const long id = light == 1 ? 100 : 500;
      todo.push_back({at * 0.25 + 0.5, show(cat(id), "white"), [=](Model & m, double) { m.shown[0][id] = "white"; }});
    }
    run({a, b}, todo, {100}, 26, cat(" with ", who ? "b" : "a", " to p", to, " at ", at * 0.25, ", ", to2, ", light ", light));
  }
  // chosen before the scenario starts
  for (int to = 0; to < 3; ++to) for (double delay : {0.0, 0.625}) for (int first = 0; first < 7; ++first) {
    if (not mc::mine()) continue;
    auto a = controller("a", {0.5, 1.0, 0.75}, 100, first), b = controller("b", {1.25, 1.0}, 200, 1);
    b.reference = "a", b.delay = 0.625;
    std::vector<Controller> c{a};
    if (delay > 0) c.push_back(b);
    run(c, {}, {100, 200}, 24, cat(" with p", to, " chosen in Init"), {{0, change("a", cat("p", to)), [=](Model & m, double t) { m.go(m.all[0], to, t); }}});
  }
  // what is refused
  struct Bad { std::string road; bool ok; };
  auto ctl = [](const std::string & attrs, const std::string & phases) { return "<TrafficSignalController " + attrs + ">" + phases + "</TrafficSignalController>"; };
  auto ph = [](const std::string & d, const std::string & s = "") { return "<Phase name=\"p\" duration=\"" + d + "\">" + s + "</Phase>"; };
  auto st = [](const std::string & i, const std::string & s) { return "<TrafficSignalState trafficSignalId=\"" + i + "\" state=\"" + s + "\"/>"; };
  std::vector<Bad> bad{{ctl("name=\"a\"", ""), true}, {ctl("name=\"a\"", ph("1")), true}, {ctl("name=\"a\" delay=\"1\"", ph("1")), false}, {ctl("name=\"a\" reference=\"b\"", ph("1")) + ctl("name=\"b\"", ph("1")), false},
    {ctl("name=\"a\" reference=\"b\" delay=\"-1\"", ph("1")) + ctl("name=\"b\"", ph("1")), false}, {ctl("name=\"a\" reference=\"b\" delay=\"0\"", ph("1")) + ctl("name=\"b\"", ph("1")), true},
    {ctl("name=\"a\" reference=\"c\" delay=\"0\"", ph("1")) + ctl("name=\"b\"", ph("1")), false}, {ctl("name=\"a\"", ph("x")), false}, {ctl("", ph("1")), false}};
  const std::vector<std::pair<std::vector<std::string>, double>> sums{{{"1.5", "1.5"}, 3}, {{"3"}, 3}, {{"0.5"}, 0.5}, {{"0.25", "0.25"}, 0.5}, {{"0.1", "0.2"}, 0.3}, {{"0.3"}, 0.3}, {{"0.9"}, 0.9}, {{"2.5", "0.5"}, 3}, {{"2.9"}, 2.9}, {{"INF"}, inf}, {{"1", "INF"}, inf}, {{}, 0}};
  for (auto & [x, a] : sums) for (auto & [y, b] : sums) {
    std::string px, py;
    for (auto & d : x) px += ph(d);
    for (auto & d : y) py += ph(d);
    bad.push_back({ctl("name=\"a\" reference=\"b\" delay=\"1\"", px) + ctl("name=\"b\"", py), a == b or std::abs(a - b) < 1e-9});
  }
  for (auto & [i, ok] : std::vector<std::pair<std::string, bool>>{{"1", true}, {"1 conventional", true}, {"1 v2i", true}, {"1 conventional_detected", true}, {"1 v2i_detected", true}, {"1  v2i", true}, {"1 V2I", false}, {"1 detected", false}, {"1 v2i detected", false}, {"x", false}, {"", false}, {"v2i 1", false}, {"1 v2i_", false}, {"1 v2i_detectedx", false}, {"1.5", false}, {"1x v2i", false}})
    for (auto & [s, truth] : std::vector<std::pair<std::string, bool>>{{"green", true}, {"unknown", false}, {"green unknown", false}})
      bad.push_back({ctl("name=\"a\"", ph("1", st(i, s))), ok and (truth or i.find("_detected") != std::string::npos)});
  for (auto & b : bad) {
    if (not mc::mine()) continue;
    Doc d;
    d.road = "<TrafficSignals>" + b.road + "</TrafficSignals>";
    d.stories = story(act(group(maneuver(event(action(show("1", "green"), "x"), trigger("StartTrigger", never_condition()))))));
    Sim sim;
    const bool started = sim.begin(d) and sim.frame(0.25) and sim.frame(0.5);
    mc::executed(), mc::outcome(cat(started));
    if (started != b.ok) mc::violation(cat("document ", b.road), cat(b.road, started ? " is accepted" : " is refused: ", Sim::verdict()));
  }
  for (auto & [x, ok] : std::vector<std::pair<std::string, bool>>{{change("a", "p0"), true}, {change("a", "p7"), false}, {change("z", "p0"), false}, {change("a", ""), false}, {show("1", "green"), true}, {show("x", "green"), false}}) {
    if (not mc::mine()) continue;
    Doc d;
    d.road = "<TrafficSignals>" + controller("a", {0.5, 1}, 100, 0).xml() + "</TrafficSignals>";
    d.stories = story(act(group(maneuver(event(action(x, "x"), trigger("StartTrigger", time_condition("greaterOrEqual", 0.5)))))));
    Sim sim;
    bool going = sim.begin(d);
    for (int k = 1; k < 8 and going; ++k) going = sim.frame(k * 0.25);
    mc::executed();
    const auto v = Sim::verdict();
    if (going != ok or (not ok and v.find("rror") == std::string::npos)) mc::violation(cat("action ", x), cat(x, going ? " is accepted" : " is refused: ", v));
  }
}
const Register r("C18", run_signals);
}  // namespace
