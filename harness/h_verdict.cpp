// Lifecycle and verdicts of the interpreter node (C14): every history of lifecycle transitions and frames over scenarios of
// every kind, against a reference machine and the report read back from disk.
#include "h_core.hpp"
#include "h_tour.hpp"
namespace
{
using namespace core;
enum When { CONFIGURE, CONSTRUCT, START, INIT, STORY, UPDATE, NEVER };
struct Kind
{
  std::string name, verdict;  // "pass", "failure SimulationFailure", "error SyntaxError", ...
  When when = NEVER;
  int frame = 0;              // STORY, UPDATE: the frame (counted from 0) in which it happens
  std::string xml;            // "" : the file does not exist
  int thrown = -1;            // CONSTRUCT, START, UPDATE: what the simulator throws
};
const char * thrown_names[] = {"AutowareError", "SemanticError", "SimulationError", "SyntaxError", "InternalError", "UnknownError", "InternalError"};
void raise(int what)
{
  switch (what) {
    case 0: throw ::common::AutowareError("thrown ", what);
    case 1: throw ::common::SemanticError("thrown ", what);
    case 2: throw ::common::SimulationError("thrown ", what);
    case 3: throw ::common::SyntaxError("thrown ", what);
    case 4: throw std::runtime_error("thrown 4");
    case 5: throw 5;
    case 6: throw ::common::scenario_simulator_exception::Error("thrown ", what);
  }
}
std::string scenario(const std::string & init, const std::vector<std::pair<std::string, double>> & events, const std::string & stop = never())
{
  Doc d;
  d.init = init;
  std::string es;
  int n = 0;
  for (auto & [a, t] : events) es += event(action(a, mc::cat("a", n)), trigger("StartTrigger", time_condition("greaterOrEqual", t)), mc::cat("e", n)), ++n;
  d.stories = story(act(group(maneuver(es))));
  d.stop = stop;
  return d.xml();
}
const std::vector<Kind> & kinds()
{
  static std::vector<Kind> ks = [] {
    std::vector<Kind> v;
    const auto ok = command("exitSuccess"), ng = command("exitFailure"), err = command("debugError"), nop = command(":");
    auto add = [&](const std::string & n, const std::string & verdict, When w, int frame, const std::string & xml, int thrown = -1) { v.push_back({n, verdict, w, frame, xml, thrown}); };
    add("missing", "error SyntaxError", CONFIGURE, 0, "");
    add("malformed", "error SyntaxError", CONFIGURE, 0, "<OpenSCENARIO><FileHeader");
    add("headless", "error", CONFIGURE, 0, "<?xml version=\"1.0\"?><OpenSCENARIO/>");
    add("distribution", "error", CONFIGURE, 0, "<?xml version=\"1.0\"?><OpenSCENARIO><FileHeader revMajor=\"1\" revMinor=\"1\" date=\"2020-01-01T00:00:00\" description=\"\" author=\"\"/><ParameterValueDistribution><ScenarioFile filepath=\"x.xosc\"/><Deterministic/></ParameterValueDistribution></OpenSCENARIO>");
    add("nostory", "error SyntaxError", CONFIGURE, 0, [] { auto x = scenario("", {{command(":"), 0}}); return x.substr(0, x.find("<Story ")) + x.substr(x.find("</Story>") + 8); }());
    for (int t = 0; t < 7; ++t) {
      const auto error = mc::cat("error ", thrown_names[t]);
      add(mc::cat("construct", t), error, CONSTRUCT, 0, scenario("", {{nop, 99}}), t);
      add(mc::cat("start", t), error, ::START, 0, scenario("", {{nop, 99}}), t);
      add(mc::cat("update", t), error, UPDATE, t % 3, scenario("", {{nop, 99}}), t);
    }
    for (auto & [n, a, verdict] : std::vector<std::tuple<std::string, std::string, std::string>>{{"pass", ok, "pass"}, {"fail", ng, "failure SimulationFailure"}, {"error", err, "error InternalError"}}) {
      add("init" + n, verdict, INIT, 0, scenario("<GlobalAction/>" + std::string(), {{nop, 99}}));
      v.back().xml = scenario(a, {{nop, 99}});
      for (int f = 2; f <= 4; ++f) add(mc::cat(n, f), verdict, ::STORY, f, scenario("", {{a, f}}));
      // the first to be executed decides
      for (auto & [m, b] : std::vector<std::pair<std::string, std::string>>{{"pass", ok}, {"fail", ng}, {"error", err}}) {
        add(n + "then" + m, verdict, ::STORY, 3, scenario("", {{a, 3}, {b, 3}}));
        add(n + "before" + m, verdict, ::STORY, 3, scenario("", {{b, 4}, {a, 3}}));
        add(n + "initthen" + m, verdict, INIT, 0, scenario(a + b, {{b, 2}}));
      }
      add(n + "updatelater", verdict, ::STORY, 3, scenario("", {{a, 3}}), 0);  // the simulator would throw in the same frame
    }
    add("endless", "", NEVER, 0, scenario("", {{nop, 2}}));
    add("stopped", "", NEVER, 0, scenario("", {{ng, 4}}, trigger("StopTrigger", time_condition("greaterOrEqual", 3))));
    return v;
  }();
  return ks;
}
struct Lifecycle
{
  char state = 'U';
  int loaded = -1, frames = 0;
  std::vector<std::pair<int, std::string>> report;  // in order
  std::string key() const { return mc::cat(state, loaded, ".", std::min(frames, 6)); }
  bool done() const { return state == 'F'; }
  void end(const std::string & v)
  {
    report.emplace_back(loaded, v);
    loaded = -1;
    frames = 0;
  }
  void step(int input)
  {
    const auto & ks = kinds();
    switch (input) {
      case 0:
        if (state != 'I' or loaded < 0) return;
        if (const auto w = ks[loaded].when; w == CONSTRUCT or w == ::START or w == INIT)
          end(ks[loaded].verdict);
        else
          state = 'A';
        return;
      case 1:
        if (state != 'A') return;
        if (const auto & k = ks[loaded]; (k.when == ::STORY or k.when == UPDATE) and frames == k.frame)
          end(k.verdict), state = 'I';
        else
          ++frames;
        return;
      case 2:
        if (state == 'A') end("failure Timeout"), state = 'I';
        return;
      case 3:
        if (state == 'I') loaded = -1, state = 'U';
        return;
      case 4:
        state = 'F';
        loaded = -1;
        return;
      default:
        if (state != 'U') return;
        loaded = input - 5;
        if (ks[loaded].when == CONFIGURE)
          end(ks[loaded].verdict);
        else
          state = 'I';
    }
  }
};
std::string show(int i) { static const char * n[] = {"activate", "frame", "deactivate", "cleanup", "shutdown"}; return i < 5 ? n[i] : "configure " + kinds()[i - 5].name; }
using Report = std::map<std::string, std::vector<std::string>>;  // case -> verdicts, sorted
Report read_report(std::string & wrong)
{
  Report r;
  pugi::xml_document d;
  if (not d.load_file(result_path().c_str())) return r;
  for (auto suite : d.child("testsuites").children("testsuite")) {
    if (suite.attribute("name").value() != std::string("suite")) wrong = mc::cat("a suite named ", suite.attribute("name").value());
    for (auto c : suite.children("testcase")) {
      auto & v = r[c.attribute("name").value()];
      for (auto f : c.children("failure")) v.push_back(mc::cat("failure ", f.attribute("type").value()));
      for (auto f : c.children("error")) v.push_back(mc::cat("error ", f.attribute("type").value()));
      if (v.empty()) v.push_back("pass");
    }
  }
  return r;
}
struct Run
{
  Sim sim;
  int frame_count = 0, loaded = -1;
  std::string step(int input, const Lifecycle & m)
  {
    const auto & ks = kinds();
    const int contexts = sim.contexts;
    const bool was_active = sim.active();
    switch (input) {
      case 0:
        if (not sim.active()) {
          frame_count = 0;
          arm();
        }
        sim.node->activate();
        break;
      case 1:
        sim.frame(frame_count++);
        break;
      case 2: sim.node->deactivate(); break;
      case 3: sim.node->cleanup(); break;
      case 4: sim.node->shutdown(); break;
      default:
        sim.node->get_node_parameters_interface()->values["osc_path"] = rclcpp::ParameterValue(scenario_path(ks[input - 5].name));
        if (sim.state() == lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED) loaded = input - 5;
        sim.node->configure();
    }
    static const std::map<std::uint8_t, char> letters{{1, 'U'}, {2, 'I'}, {3, 'A'}, {4, 'F'}};
    if (const char s = letters.count(sim.state()) ? letters.at(sim.state()) : '?'; s != m.state) return mc::cat("the node is in state ", s, " instead of ", m.state);
    if (sim.active() != openscenario_interpreter::SimulatorCore::active()) return mc::cat("in state ", m.state, " the simulator ", sim.active() ? "is gone" : "is still there");
    if (traffic_simulator::API::live != int(sim.active())) return mc::cat(traffic_simulator::API::live, " simulators exist");
    const auto timer = rclcpp::Node::last_timer().lock();
    if (sim.active() and not timer) return "there is no timer in the active state";
    if (not sim.active() and timer and not timer->canceled) return "the timer still runs outside of the active state";
    if (input == 1 and was_active and sim.contexts != contexts + 1) return mc::cat(sim.contexts - contexts, " contexts were published in one frame");
    std::string wrong;
    const auto report = read_report(wrong);
    if (not wrong.empty()) return wrong;
    Report expected;
    for (auto & [k, v] : m.report) expected[ks[k].name].push_back(v);
    for (auto & [c, v] : expected) {  // a case passes only if nothing else was recorded for it
      std::vector<std::string> bad;
      for (auto & x : v) if (x != "pass") bad.push_back(x);
      if (bad.empty()) bad = {"pass"};
      v = bad;
    }
    auto text = [](const Report & r) { std::string s; for (auto & [c, v] : r) { s += c + ":"; for (auto & x : v) s += " " + x + ";"; s += " "; } return s; };
    bool same = report.size() == expected.size();
    for (auto & [c, v] : expected) {
      const auto i = report.find(c);
      if (i == report.end() or i->second.size() != v.size()) { same = false; break; }
      auto a = i->second, b = v;
      std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
      for (std::size_t j = 0; j < a.size(); ++j) same = same and a[j].compare(0, b[j].size(), b[j]) == 0;
    }
    if (not same) return mc::cat("the report says ", text(report), "instead of ", text(expected));
    return "";
  }
  void arm()
  {
    auto & w = mock::world();
    w = mock::World();
    if (loaded < 0) return;
    const auto & k = kinds()[loaded];
    if (k.when == CONSTRUCT) w.on_construct = [&k] { raise(k.thrown); };
    if (k.when == ::START) w.on_update = [&k] { raise(k.thrown); };
    if (k.when == UPDATE or (k.when == ::STORY and k.thrown >= 0)) w.on_update = [&k] { if (mock::world().updates == k.frame + 2) raise(k.thrown); };
  }
};
void verdicts()
{
  const auto & ks = kinds();
  for (auto & k : ks)
    if (not k.xml.empty()) spit(scenario_path(k.name), k.xml);
  const int size = 8;
  for (int from = 0; from < int(ks.size()); from += size)
    if (mc::mine()) {
      struct Part : Lifecycle
      {
        int from;
        void step(int i) { Lifecycle::step(i < 5 ? i : i + from); }
      };
      struct PartRun : ::Run
      {
        int from;
        std::string step(int i, const Part & m) { return ::Run::step(i < 5 ? i : i + from, m); }
      };
      Part initial;
      initial.from = from;
      tour::explore(
        mc::cat("lifecycle ", from), initial, 5 + std::min<int>(size, ks.size() - from),
        [from] { auto r = std::make_shared<PartRun>(); r->from = from; return r; }, [from](int i) { return show(i < 5 ? i : i + from); });
    }
  // several scenarios one after the other on one node, the way the runner does it
  const int n = mc::thorough() ? 3 : 2;
  std::vector<int> pick(n, 0);
  for (;;) {
    bool few = true;  // three only from a representative third of the kinds
    if (n == 3) for (int x : pick) few = few and x % 3 == 0;
    if (few and mc::mine()) {
      Run run;
      Lifecycle m;
      std::string history, difference;
      auto take = [&](int i) {
        history += (history.empty() ? "" : " ; ") + show(i);
        mc::current(history);
        m.step(i);
        mc::executed();
        difference = run.step(i, m);
        return difference.empty();
      };
      auto all = [&] {
        for (int k : pick) {
          if (not take(5 + k)) return;
          if (m.state == 'U') continue;
          while (m.loaded >= 0) {
            if (not take(0)) return;
            for (int f = 0; m.state == 'A'; ++f)
              if (not take(f < 6 ? 1 : 2)) return;
          }
          if (not take(0)) return;
          if (not take(3)) return;
        }
        take(4);
      };
      all();
      if (not difference.empty()) mc::violation("batch: " + history, difference);
      mc::outcome(history);
      mc::state("batch " + history);
    }
    int k = n - 1;
    while (k >= 0 and ++pick[k] == int(ks.size())) pick[k--] = 0;
    if (k < 0) break;
  }
}
Register r1{"C14", verdicts};
}  // namespace
