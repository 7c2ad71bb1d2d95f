// Traffic lights: what the light really shows, what is detected, what is sent by radio, and what is published of it all (C28).
#include <traffic_simulator/traffic_lights/traffic_lights.hpp>
#include "mc.hpp"
namespace
{
using mc::cat;
namespace stub = rclcpp::stub;
using namespace traffic_simulator;
using Id = lanelet::Id;
using V1 = traffic_simulator_msgs::msg::TrafficLightArrayV1;
using Group = autoware_perception_msgs::msg::TrafficLightGroupArray;
using Markers = visualization_msgs::msg::MarkerArray;
using Update = simulation_api_schema::UpdateTrafficLightsRequest;
const std::vector<std::string> colors{"green", "yellow", "red", "white", "unknown"}, statuses{"solidOn", "solidOff", "flashing", "unknown"},
  shapes{"circle", "cross", "left", "down", "up", "right", "lowerLeft", "upperLeft", "lowerRight", "upperRight", "unknown"};
struct Bulb
{
  int c = 0, s = 0, h = 0;
  bool operator<(const Bulb & o) const { return std::tie(c, s, h) < std::tie(o.c, o.s, o.h); }
  bool operator==(const Bulb & o) const { return std::tie(c, s, h) == std::tie(o.c, o.s, o.h); }
  std::string text() const { return colors[c] + " " + statuses[s] + " " + shapes[h]; }
};
using Bulbs = std::set<Bulb>;
std::string text(const Bulbs & b) { std::string r; for (auto & x : b) r += (r.empty() ? "" : ", ") + x.text(); return r; }

int find(const std::vector<std::string> & v, const std::string & s) { for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == s) return i; return -1; }
// the notation, independently: an optional color, status and shape, in this order, with or without space between
std::optional<Bulb> parse(const std::string & s)
{
  static const std::map<std::string, int> C{{"green", 0}, {"Green", 0}, {"yellow", 1}, {"Yellow", 1}, {"amber", 1}, {"red", 2}, {"Red", 2}, {"white", 3}, {"unknown", 4}};
  static const std::map<std::string, int> S{{"solidOn", 0}, {"solidOff", 1}, {"Blank", 1}, {"none", 1}, {"flashing", 2}, {"unknown", 3}};
  static const std::map<std::string, int> H{{"circle", 0}, {"cross", 1}, {"left", 2}, {"down", 3}, {"up", 4}, {"straight", 4}, {"right", 5}, {"lowerLeft", 6}, {"upperLeft", 7}, {"lowerRight", 8}, {"upperRight", 9}, {"unknown", 10}};
  auto skip = [&](std::size_t i) { while (i < s.size() and (s[i] == ' ' or s[i] == '\t' or s[i] == '\n')) ++i; return i; };
  std::optional<Bulb> r;
  // the first of color, status and shape that fits takes the word
  auto shape = [&](std::size_t i, Bulb b) { if (i == s.size()) { r = b; return true; } auto k = H.find(s.substr(i)); if (k == H.end()) return false; b.h = k->second; r = b; return true; };
  auto status = [&](std::size_t i, Bulb b) {
    for (auto & [n, v] : S) if (s.compare(i, n.size(), n) == 0) { auto x = b; x.s = v; if (shape(skip(i + n.size()), x)) return true; }
    return shape(skip(i), b);
  };
  for (auto & [n, v] : C) if (s.compare(0, n.size(), n) == 0) { Bulb x; x.c = v; if (status(skip(n.size()), x)) return r; }
  if (status(skip(0), {})) return r;
  return std::nullopt;
}

struct Light { Bulbs bulbs; double confidence = 1; };
const lanelet::Ids ways{1, 2, 3};
const std::map<Id, lanelet::Ids> relations{{10, {1, 2}}, {11, {3, 1}}};
lanelet::Ids waysOf(Id id) { return relations.count(id) ? relations.at(id) : lanelet::Ids{id}; }
lanelet::Ids relationsOf(Id w) { lanelet::Ids r; for (auto & [k, v] : relations) if (std::count(v.begin(), v.end(), w)) r.push_back(k); return r; }
Bulbs parseAll(const std::string & s)
{
  Bulbs r;
  std::stringstream ss(s);
  for (std::string w; std::getline(ss, w, ',');) { while (w.size() and w[0] == ' ') w.erase(0, 1); r.insert(*parse(w)); }
  return r;
}

int autowareColor(int c) { return std::vector<int>{3, 2, 1, 4, 0}[c]; }
int autowareStatus(int s) { return std::vector<int>{2, 1, 3, 0}[s]; }
bool autowareShape(int h, int got)
{
  static const std::vector<int> m{1, 10, 2, 7, 4, 3, 8, 5, 9, 6, 0};
  return got == m[h] or (got == 0 and (h == 7 or h == 9));  // the two upward diagonal arrows do not exist on every platform
}
int shapeOf(int h) { static const std::vector<int> m{1, 10, 2, 7, 4, 3, 8, 5, 9, 6, 0}; return h == 7 or h == 9 ? 0 : m[h]; }
template <class M> std::string element(const M & e, bool confidence = true)
{
  const int shape = e.shape == 5 or e.shape == 6 ? 0 : e.shape;
  return cat("(", int(e.color), " ", int(e.status), " ", shape, confidence ? cat(" ", e.confidence) : std::string(), ")");
}
std::string element(const Bulb & b, double c, bool confidence = true) { return cat("(", autowareColor(b.c), " ", autowareStatus(b.s), " ", shapeOf(b.h), confidence ? cat(" ", float(c)) : std::string(), ")"); }

struct World  // the real thing beside the reference
{
  std::shared_ptr<rclcpp::Node> node = std::make_shared<rclcpp::Node>("n");
  std::map<std::string, std::any> last;
  std::vector<Markers> markers;
  std::vector<rclcpp::TimerBase::SharedPtr> timers;
  std::shared_ptr<TrafficLights> real;

  std::map<Id, Light> gt[2];
  std::map<Id, Bulbs> detected[2];
  std::set<Id> enabled;
  std::map<Id, std::vector<std::pair<double, Bulbs>>> predictions;
  std::string trace;

  World()
  {
    auto & r = map_stub::Roads::get();
    r.ways = ways, r.relations = relations;
    rclcpp::TimerBase::all().clear();
    stub::now_ns() = 100'000'000'000;
    stub::Bus::hook() = [this](const std::string & topic, const std::any & m) {
      if (auto x = std::any_cast<Markers>(&m)) markers.push_back(*x);
      else last[topic] = m;
    };
    real = std::make_shared<TrafficLights>(node, "awf/universe/20240605");
  }
  ~World() { stub::Bus::hook() = nullptr; }

  void bad(const std::string & what, const std::string & key) { mc::violation(key, what + " after " + trace, trace); }
  template <class F> void real_do(F f)
  {
    try { f(); } catch (const std::exception & e) { bad(cat("refused: ", e.what()), cat("refused ", trace)); }
  }
};

struct Op
{
  std::string name;
  std::function<void(World &)> f;
};
const std::vector<std::string> states{"green", "red solidOn circle, green flashing left", "yellow"};

void change(World & w, int channel, Id id, const std::function<void(Light &)> & f, bool mirror)
{
  for (auto x : waysOf(id)) {
    f(w.gt[channel][x]);
    if (channel == 0 and mirror and w.enabled.count(x)) f(w.gt[1][x]);
  }
}
std::vector<Op> ops(const std::vector<Id> & ids)
{
  std::vector<Op> r;
  for (auto id : ids) {
    for (int c = 0; c < 2; ++c) {
      const std::string n = c ? "v2i" : "conventional";
      auto gt = [c](World & w) -> std::shared_ptr<TrafficLightsBase> { if (c) return w.real->getV2ITrafficLights(); return w.real->getConventionalTrafficLights(); };
      auto det = [c](World & w) { return c ? w.real->getV2IDetectedTrafficLights() : w.real->getConventionalDetectedTrafficLights(); };
      for (auto & s : {states[0], states[1]}) {
        r.push_back({cat(n, " set ", id, " '", s, "'"), [=](World & w) { w.real_do([&] { gt(w)->setTrafficLightsState(id, s); }); change(w, c, id, [&](Light & l) { l.bulbs = parseAll(s); }, true); }});
        if (s == states[0]) continue;
        r.push_back({cat(n, " detect ", id, " '", s, "'"), [=](World & w) { w.real_do([&] { det(w)->setState(id, s); }); for (auto x : waysOf(id)) w.detected[c][x] = parseAll(s); }});
      }
      r.push_back({cat(n, " add ", id, " '", states[2], "'"), [=](World & w) { w.real_do([&] { gt(w)->addTrafficLightsState(id, states[2]); }); change(w, c, id, [&](Light & l) { l.bulbs.merge(parseAll(states[2])); }, true); }});
      r.push_back({cat(n, " clear ", id), [=](World & w) { w.real_do([&] { gt(w)->clearTrafficLightsState(id); }); change(w, c, id, [&](Light & l) { l.bulbs.clear(); }, true); }});
      r.push_back({cat(n, " confidence ", id), [=](World & w) { w.real_do([&] { gt(w)->setTrafficLightsConfidence(id, 0.25); }); change(w, c, id, [&](Light & l) { l.confidence = 0.25; }, false); }});
      r.push_back({cat(n, " detect more ", id), [=](World & w) { w.real_do([&] { det(w)->addState(id, "unknown unknown unknown"); }); for (auto x : waysOf(id)) w.detected[c][x].insert({4, 3, 10}); }});
      r.push_back({cat(n, " forget detected ", id), [=](World & w) {
        bool any = false, got = false;
        for (auto x : waysOf(id)) any |= w.detected[c].erase(x) > 0;
        w.real_do([&] { got = det(w)->clearState(id); });
        if (got != any) w.bad(cat("forgetting what was detected says ", got), cat("forget ", w.trace));
      }});
    }
    for (bool on : {true, false})
      r.push_back({cat(on ? "enable v2i " : "disable v2i ", id), [=](World & w) { w.real_do([&] { w.real->setV2IFeature(id, on); }); for (auto x : waysOf(id)) on ? (void)w.enabled.insert(x) : (void)w.enabled.erase(x); }});
    for (double t : {5.0, 5.25})
      r.push_back({cat("predict ", id, " in ", t, "s"), [=](World & w) {
        const std::string s = t == 5 ? "green" : "red flashing cross, green left";
        w.real_do([&] { if (t == 5) w.real->getV2ITrafficLights()->addTrafficLightsStatePrediction(id, s, t); else for (auto x : {"red flashing cross", "green left"}) w.real->getV2ITrafficLights()->addTrafficLightsStatePrediction(id, x, t); });
        const double at = stub::now_ns() * 1e-9 + t;
        for (auto x : waysOf(id)) {
          auto & p = w.predictions[x];
          auto i = std::find_if(p.begin(), p.end(), [&](auto & y) { return std::abs(y.first - at) < 0.005; });
          if (i == p.end()) p.push_back({at, parseAll(s)}); else i->second.merge(parseAll(s));
        }
      }});
    r.push_back({cat("color ", id), [=](World & w) { w.real_do([&] { w.real->getConventionalTrafficLights()->setTrafficLightsColor(id, TrafficLight::Color::white); }); change(w, 0, id, [&](Light & l) { l.bulbs.insert({3, 0, 0}); }, false); }});
  }
  r.push_back({"a quarter second", [](World &) { stub::now_ns() += 250'000'000; }});
  return r;
}

// ------------------------------------------------------------------------------------------------ what is seen from outside
struct Seen { Bulbs bulbs; double confidence; bool detected; };
std::map<Id, Seen> shown(World & w, int c, bool with_detected)
{
  std::map<Id, Seen> r;
  for (auto & [k, v] : w.gt[c]) if (v.bulbs.size()) r[k] = {v.bulbs, v.confidence, false};
  if (with_detected) for (auto & [k, v] : w.detected[c]) r[k] = {v, 1, true};
  return r;
}
std::string request(const Update & u, std::map<Id, Seen> want, std::string & problem)
{
  std::set<Id> seen;
  std::string all;
  for (auto & s : u.states()) {
    if (not seen.insert(s.id()).second) problem = cat("the signal head ", s.id(), " is reported twice");
    Bulbs b;
    std::multiset<Bulb> mb;
    for (auto & l : s.traffic_light_status()) {
      static const std::map<std::string, int> C{{"GREEN", 0}, {"AMBER", 1}, {"RED", 2}, {"WHITE", 3}, {"UNKNOWN_COLOR", 4}}, S{{"SOLID_ON", 0}, {"SOLID_OFF", 1}, {"FLASHING", 2}, {"UNKNOWN_STATUS", 3}},
        H{{"CIRCLE", 0}, {"CROSS", 1}, {"LEFT_ARROW", 2}, {"DOWN_ARROW", 3}, {"UP_ARROW", 4}, {"RIGHT_ARROW", 5}, {"DOWN_LEFT_ARROW", 6}, {"UP_LEFT_ARROW", 7}, {"DOWN_RIGHT_ARROW", 8}, {"UP_RIGHT_ARROW", 9}, {"UNKNOWN_SHAPE", 10}};
      Bulb x{C.at(simulation_api_schema::TrafficLight_Color_Name(l.color())), S.at(simulation_api_schema::TrafficLight_Status_Name(l.status())), H.at(simulation_api_schema::TrafficLight_Shape_Name(l.shape()))};
      b.insert(x), mb.insert(x);
      auto i = want.find(s.id());
      if (i != want.end() and not i->second.detected and std::abs(l.confidence() - i->second.confidence) > 1e-6) problem = cat("head ", s.id(), " is reported with confidence ", l.confidence(), " instead of ", i->second.confidence);
    }
    if (mb.size() != b.size()) problem = cat("a bulb of ", s.id(), " is reported twice");
    all += cat(s.id(), ":", text(b), ";");
    lanelet::Ids rel(s.relation_ids().begin(), s.relation_ids().end());
    std::sort(rel.begin(), rel.end());
    if (rel != relationsOf(s.id())) problem = cat("head ", s.id(), " is reported with ", rel.size(), " relations, not its own");
    const Bulbs expected = want.count(s.id()) ? want[s.id()].bulbs : Bulbs();
    if (b != expected) problem = cat("head ", s.id(), " is reported as '", text(b), "' instead of '", text(expected), "'");
    want.erase(s.id());
  }
  for (auto & [k, v] : want) if (v.bulbs.size()) problem = cat("head ", k, " is not reported, though it shows '", text(v.bulbs), "'");
  return all;
}
void look(World & w)
{
  const auto & t = w.trace;
  std::string all;
  for (int k = 0; k < 4; ++k) {
    std::string p;
    const bool det = k == 1;
    if (k == 3) continue;
    Update u;
    std::map<Id, Seen> want;
    if (k == 0) u = w.real->getConventionalTrafficLights()->generateUpdateTrafficLightsRequest(), want = shown(w, 0, false);
    if (k == 1) u = w.real->generateConventionalUpdateRequest(), want = shown(w, 0, true);
    if (k == 2) u = w.real->getV2ITrafficLights()->generateUpdateTrafficLightsRequest(), want = shown(w, 1, false);
    all += request(u, want, p) + "|";
    if (p.size()) w.bad(cat(k == 0 ? "conventional ground truth: " : k == 1 ? "conventional, as detected: " : "v2i ground truth: ", p), cat("request", k, " ", t));
  }
  // what is published
  w.last.clear(), w.markers.clear();
  w.real->startTrafficLightsUpdate(10, 20);
  auto fire = [&](std::size_t i) { auto & a = rclcpp::TimerBase::all(); auto x = a[a.size() - 2 + i].lock(); if (not x) return w.bad("there is no timer", "timer"); if (std::abs(x->period.count() - (i ? 5e7 : 1e8)) > 2) w.bad(cat("publishes every ", x->period.count(), " ns"), "period"); x->callback(); };
  fire(0);
  auto v1 = std::any_cast<V1>(&w.last["/simulation/traffic_lights"]);
  if (not v1) w.bad("the conventional lights are not published", cat("unpublished ", t));
  else {
    std::multiset<std::string> got, want;
    for (auto & l : v1->traffic_lights) {
      if (l.traffic_light_bulbs.empty()) continue;
      std::multiset<std::string> e;
      for (auto & b : l.traffic_light_bulbs) e.insert(element(b));
      std::string x = cat(l.lanelet_way_id);
      for (auto & y : e) x += y;
      got.insert(x);
    }
    for (auto & [k, s] : shown(w, 0, false)) {
      std::multiset<std::string> e;
      for (auto & b : s.bulbs) e.insert(element(b, s.confidence));
      std::string x = cat(k);
      for (auto & y : e) x += y;
      want.insert(x);
    }
    if (got != want) w.bad("/simulation/traffic_lights does not carry what the lights show", cat("v1 ", t));
  }
  for (int c = 0; c < 2; ++c) {
    if (c) w.markers.clear(), fire(1);
    if (w.markers.size() != 2 or w.markers[0].markers.size() != 1 or int(w.markers[0].markers[0].action) != 3) { w.bad("the markers are not replaced", cat("markers", c, " ", t)); continue; }
    const auto lights = shown(w, c, false);
    std::set<std::pair<std::string, int>> ids;
    std::map<std::pair<int, int>, double> alpha;  // head, color -> alpha
    for (auto & m : w.markers[1].markers) {
      if (not ids.insert({m.ns, m.id}).second) w.bad("two markers share an id", cat("marker id ", t));
      alpha[{int(m.pose.position.x), int(m.pose.position.y) - 1}] = m.color.a;
    }
    for (auto & [k, s] : lights)
      for (int color = 0; color < 3; ++color) {
        if (k == 2 and color == 1) continue;
        bool lit = false;
        for (auto & b : s.bulbs) lit |= b.c == color and b.h == 0;
        auto i = alpha.find({int(k), color});
        if (i == alpha.end() or (std::abs(i->second - 1) < 1e-3) != lit) w.bad(cat("the ", colors[color], " marker of ", k, " is ", i == alpha.end() ? "missing" : lit ? "not lit" : "lit"), cat("marker", c, " ", t));
      }
  }
  for (auto topic : {"/v2x/traffic_signals", "/perception/traffic_light_recognition/external/traffic_signals"}) {
    auto g = std::any_cast<Group>(&w.last[topic]);
    if (not g) { w.bad(cat(topic, " is not published"), cat("unpublished ", t)); continue; }
    std::multiset<std::string> got, want;
    for (auto & l : g->traffic_light_groups) {
      std::multiset<std::string> e;
      for (auto & b : l.elements) e.insert(element(b, false));
      std::map<std::int64_t, std::set<std::string>> p;
      for (auto & q : l.predictions) {
        auto & x = p[q.predicted_stamp.sec * 1000ll + (q.predicted_stamp.nanosec + 500000) / 1000000];
        if (x.size()) w.bad("two predictions for one moment", cat("predictions ", t));
        for (auto & b : q.simultaneous_elements) x.insert(element(b));
      }
      std::string x = cat(l.traffic_light_group_id);
      for (auto & y : e) x += y;
      for (auto & [at, y] : p) { x += cat("@", at); for (auto & z : y) x += z; }
      got.insert(x);
    }
    for (auto & [k, s] : shown(w, 1, true))
      for (auto rel : relationsOf(k)) {
        if (s.bulbs.empty()) continue;
        std::multiset<std::string> e;
        for (auto & b : s.bulbs) e.insert(element(b, 1, false));
        std::string x = cat(rel);
        for (auto & y : e) x += y;
        std::map<std::int64_t, std::set<std::string>> p;
        for (auto & [at, bulbs] : w.predictions[k]) for (auto & b : bulbs) p[std::llround(at * 1000)].insert(element(b, 1));
        for (auto & [at, y] : p) { x += cat("@", at); for (auto & z : y) x += z; }
        want.insert(x);
      }
    for (auto & x : got) all += x;
    if (got != want) {
      std::string a, b;
      for (auto & x : got) a += " " + x;
      for (auto & x : want) b += " " + x;
      w.bad(cat(topic, " carries", a, " instead of", b), cat("v2i topic ", t));
    }
  }
  // questions
  for (int c = 0; c < 2; ++c) {
    std::shared_ptr<TrafficLightsBase> lights = c ? std::shared_ptr<TrafficLightsBase>(w.real->getV2ITrafficLights()) : w.real->getConventionalTrafficLights();
    for (Id id : {Id(1), Id(2), Id(3), Id(10), Id(11)}) {
      for (auto & s : {std::string(""), std::string("none"), std::string("green"), std::string("green solidOn circle"), std::string("yellow"), std::string("red"), std::string("green flashing left"), std::string("white")}) {
        bool want = true;
        for (auto x : waysOf(id)) want &= s.empty() or s == "none" ? w.gt[c][x].bulbs.empty() : w.gt[c][x].bulbs.count(*parse(s)) > 0;
        if (lights->compareTrafficLightsState(id, s) != want) w.bad(cat("light ", id, want ? " is not said to show '" : " is said to show '", s, "'"), cat("compare", c, " ", t));
      }
      std::multiset<std::string> want, got;
      for (auto x : waysOf(id)) want.insert(text(w.gt[c][x].bulbs));
      const auto composed = lights->getTrafficLightsComposedState(id);
      std::size_t i = 0;
      for (std::size_t k = 0; k < waysOf(id).size(); ++k) { const auto e = composed.find("; ", i); got.insert(composed.substr(i, e == std::string::npos ? e : e - i)); i = e == std::string::npos ? composed.size() : e + 2; }
      if (got != want) w.bad(cat("light ", id, " is described as '", composed, "'"), cat("describe", c, " ", t));
    }
    for (auto x : ways) {
      const bool want = w.gt[c][x].bulbs.count({2, 0, 0}) or w.gt[c][x].bulbs.count({1, 0, 0});
      if (lights->isRequiredStopTrafficLightState(x) != want) w.bad(cat("light ", x, want ? " lets traffic pass" : " stops traffic"), cat("stop", c, " ", t));
    }
  }
  for (Id id : {Id(1), Id(2), Id(3), Id(10), Id(11)}) {
    std::size_t n = 0;
    for (auto x : waysOf(id)) n += w.enabled.count(x);
    const bool on = n == waysOf(id).size();
    if (w.real->isV2ITrafficLightEnabled(id) != on) w.bad(cat("v2i of ", id, on ? " is said to be off" : " is said to be on"), cat("enabled ", t));
  }
  mc::state(all), mc::outcome(all);
}

void histories(const std::vector<Op> & o, int depth, std::vector<int> & s)
{
  for (std::size_t k = 0; k < o.size(); ++k) {
    if (s.size() == 1 and not mc::mine()) continue;  // dealt by the first two operations
    s.push_back(k);
    if (s.size() > 1) {
      World w;
      std::string t;
      for (auto i : s) w.trace += (w.trace.empty() ? "" : "; ") + o[i].name;
      mc::current(w.trace);
      try {
        for (auto i : s) o[i].f(w);
        look(w);
      } catch (const std::exception & e) { w.bad(cat("refused: ", e.what()), cat("refused ", w.trace)); }
      mc::executed(s.size() + 3);
    }
    if (int(s.size()) < depth) histories(o, depth, s);
    s.pop_back();
  }
}

// ------------------------------------------------------------------------------------------------ notation and forms
void notation()
{
  const std::vector<std::string> C{"", "green", "Green", "yellow", "Yellow", "amber", "red", "Red", "white", "unknown", "blue"}, S{"", "solidOn", "solidOff", "Blank", "none", "flashing", "unknown", "On"},
    H{"", "circle", "cross", "left", "down", "up", "straight", "right", "lowerLeft", "upperLeft", "lowerRight", "upperRight", "unknown", "Left"}, W{"", " ", "  ", "\t"};
  for (auto & c : C) for (auto & s : S) {
    if (not mc::mine()) continue;
    for (auto & h : H) for (auto & a : W) for (auto & b : W) {
      const auto x = c + a + s + b + h;
      const auto want = parse(x);
      std::string got;
      try { std::ostringstream o; o << TrafficLight::Bulb(x); got = o.str(); } catch (const std::exception &) { got = "refused"; }
      mc::executed(), mc::outcome(got);
      if (got != (want ? want->text() : "refused")) mc::violation(cat("notation ", x), cat("'", x, "' means '", got, "' instead of '", want ? want->text() : "refused", "'"));
    }
  }
  // lists of bulbs
  const std::vector<std::string> items{"green", "red flashing", "yellow solidOn left", "white  ", "wrong", ""}, seps{",", ", ", ",   "};
  for (auto & a : items) for (auto & b : items) for (auto & c : items) for (auto & sep : seps) for (int n = 1; n <= 3; ++n) {
    if (not mc::mine()) continue;
    const std::string x = n == 1 ? a : n == 2 ? a + sep + b : a + sep + b + sep + c;
    bool ok = true;
    Bulbs want;
    const std::vector<std::string> parts(std::initializer_list<std::string>{a, b, c});
    for (int i = 0; i < n; ++i) {
      if (parts[i].empty()) { ok &= i == n - 1; continue; }  // a comma at the end
      auto p = parse(parts[i]);
      if (p) want.insert(*p); else ok = false;
    }
    map_stub::Roads::get().ways = ways, map_stub::Roads::get().relations = relations;
    TrafficLight light(1);
    std::string got;
    try { light.set(x); std::ostringstream o; o << light; got = o.str(); } catch (const std::exception &) { got = "refused"; }
    mc::executed(n), mc::outcome(got);
    if (got != (ok ? text(want) : "refused")) mc::violation(cat("list ", x), cat("'", x, "' means '", got, "' instead of '", ok ? text(want) : "refused", "'"));
  }
}
void forms()  // every bulb there is, in every form it is sent in
{
  for (int c = 0; c < 5; ++c) for (int s = 0; s < 4; ++s) for (int h = 0; h < 11; ++h) {
    if (not mc::mine()) continue;
    const Bulb b{c, s, h};
    World w;
    w.trace = cat("show '", b.text(), "'");
    for (int k = 0; k < 2; ++k) { std::shared_ptr<TrafficLightsBase> l = k ? std::shared_ptr<TrafficLightsBase>(w.real->getV2ITrafficLights()) : w.real->getConventionalTrafficLights(); l->setTrafficLightsState(1, b.text()); l->setTrafficLightsConfidence(1, 0.5); w.gt[k][1] = {{b}, 0.5}; }
    w.real->getV2ITrafficLights()->addTrafficLightsStatePrediction(1, b.text(), 4), w.predictions[1].push_back({104, {b}});
    look(w);
    mc::executed(6);
    traffic_simulator_msgs::msg::TrafficLightV1 m(w.real->getConventionalTrafficLights()->getTrafficLight(1));
    if (m.lanelet_way_id != 1 or m.traffic_light_bulbs.size() != 1 or m.traffic_light_bulbs[0].color != autowareColor(c) or m.traffic_light_bulbs[0].status != autowareStatus(s) or not autowareShape(h, m.traffic_light_bulbs[0].shape) or m.traffic_light_bulbs[0].confidence != 0.5f)
      w.bad("the message of a light does not carry its bulb", cat("message ", b.text()));
  }
}
struct Line : math::geometry::CatmullRomSplineInterface
{
  double getLength() const override { return 100; }
  std::pair<double, double> getAltitudeRange() const override { return {0, 0}; }
  std::optional<double> getCollisionPointIn2D(const std::vector<geometry_msgs::msg::Point> &, const bool, const std::optional<std::pair<double, double>> &) const override { return std::nullopt; }
  double getSquaredDistanceIn2D(const geometry_msgs::msg::Point &, const double) const override { return 0; }
};
void stop_lines()
{
  const std::vector<std::string> shows{"", "green", "yellow", "red", "red flashing circle", "red left", "green, red"};
  const std::vector<std::optional<double>> ds{std::nullopt, 0.0, 5.0, 9.0};
  for (auto & a : shows) for (auto & b : shows) {
    if (not mc::mine()) continue;
    for (auto & c : {std::string("red"), std::string("")}) for (auto x : ds) for (auto y : ds) for (auto z : {ds[0], ds[2]}) for (int n = 0; n <= 3; ++n) {
      World w;
      auto & r = map_stub::Roads::get();
      r.on_path = lanelet::Ids(ways.begin(), ways.begin() + n);
      r.stop_line[1] = x, r.stop_line[2] = y, r.stop_line[3] = z;
      auto l = w.real->getConventionalTrafficLights();
      l->setTrafficLightsState(1, a), l->setTrafficLightsState(2, b), l->setTrafficLightsState(3, c);
      const auto got = l->getDistanceToActiveTrafficLightStopLine({7}, Line());
      std::optional<double> want;
      const std::string s[] = {a, b, c};
      const std::optional<double> d[] = {x, y, z};
      for (int k = 0; k < n; ++k) { const auto bulbs = parseAll(s[k]); if ((bulbs.count({2, 0, 0}) or bulbs.count({1, 0, 0})) and d[k] and (not want or *d[k] < *want)) want = d[k]; }
      mc::executed(4), mc::outcome(cat(want.value_or(-1)));
      if (got != want) mc::violation(cat("stop line ", a, "/", b, "/", c, " ", n), cat("the next stop line is ", got.value_or(-1), " m ahead instead of ", want.value_or(-1)));
    }
  }
}
void errors()
{
  const std::vector<std::string> texts{"unknown id", "wrong state"};
  for (int k = 0; k < 8; ++k) {
    if (not mc::mine()) continue;
    World w;
    w.trace = cat("error ", k);
    bool thrown = false;
    try {
      auto c = w.real->getConventionalTrafficLights(); auto v = w.real->getV2ITrafficLights();
      if (k == 0) c->setTrafficLightsState(99, "green");
      if (k == 1) c->addTrafficLightsState(99, "green");
      if (k == 2) c->clearTrafficLightsState(99);
      if (k == 3) c->setTrafficLightsState(10, "gren");
      if (k == 4) v->addTrafficLightsStatePrediction(99, "green", 1);
      if (k == 5) v->addTrafficLightsStatePrediction(1, "gren", 1);
      if (k == 6) w.real->getConventionalDetectedTrafficLights()->setState(99, "green");
      if (k == 7) c->compareTrafficLightsState(1, "gren"), (void)(thrown = true);
    } catch (const std::exception &) { thrown = true; }
    mc::executed();
    if (not thrown) w.bad("accepted", cat("error ", k));
    look(w);
  }
  for (auto & [a, ok] : std::vector<std::pair<std::string, bool>>{{"awf/universe", false}, {"awf/universe/20240605", true}, {"awf/universe/20250130", true}, {"awf/universe/20230906", true}, {"awf/universe/20240101", false}}) {
    if (not mc::mine()) continue;
    bool made = true;
    try { TrafficLights t(std::make_shared<rclcpp::Node>("n"), a); } catch (const std::exception &) { made = false; }
    mc::executed();
    if (made != ok) mc::violation(cat("architecture ", a), cat(a, made ? " is accepted" : " is refused"));
  }
  // how often
  for (double a : {1.0, 5.0, 10.0, 30.0}) for (double b : {1.0, 4.0, 50.0}) {
    if (not mc::mine()) continue;
    World w;
    auto & all = rclcpp::TimerBase::all();
    const auto before = all.size();
    auto live = [&] { std::vector<double> r; for (auto i = before; i < all.size(); ++i) if (auto x = all[i].lock()) if (not x->canceled) r.push_back(1e9 / x->period.count()); return r; };
    auto check = [&](std::vector<double> want, const char * when) { auto got = live(); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); bool ok = got.size() == want.size(); for (std::size_t i = 0; ok and i < got.size(); ++i) ok = std::abs(got[i] - want[i]) < 1e-4 * want[i]; if (not ok) mc::violation(cat("rate ", a, " ", b, " ", when), cat("the lights are not published at the rate asked for ", when)); };
    check({}, "before the start");
    w.real->startTrafficLightsUpdate(a, b), check({a, b}, "after the start");
    w.real->startTrafficLightsUpdate(b, a), check({a, b}, "after a second start");
    w.real->getV2ITrafficLights()->resetUpdate(a + b), check({a, a + b}, "after a change");
    w.real->getV2ITrafficLights()->resetUpdate(b), check({a, b}, "after a second change");
    mc::executed(5);
  }
}
}  // namespace

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "every history of operations on three signal heads and two relations that share one, up to the depth, of: showing, adding, clearing and weighing on both channels, detecting "
                    "and forgetting, switching radio on and off, predicting and passing time; after each the questions, requests, topics and markers; the notation of bulbs and lists; every bulb in every form; stop lines";
    notation(), forms(), stop_lines(), errors();
    std::vector<int> s;
    for (int d = 2; d <= 2; ++d) histories(ops({1, 2, 10, 11}), mc::thorough() ? 3 : 3, s);
    if (mc::thorough()) histories(ops({1, 10}), 4, s);
  });
}
