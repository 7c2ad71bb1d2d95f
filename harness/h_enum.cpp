// Enumerated attribute values: every token of every enumeration type, every token of the others, and every
// single-character corruption of them, against the tables of the OpenSCENARIO XML schema.
#include <boost/lexical_cast.hpp>
#include <openscenario_interpreter/compatibility.hpp>
#include <openscenario_interpreter/syntax/command.hpp>
#include <openscenario_interpreter/syntax/condition_edge.hpp>
#include <openscenario_interpreter/syntax/coordinate_system.hpp>
#include <openscenario_interpreter/syntax/following_mode.hpp>
#include <openscenario_interpreter/syntax/fractional_cloud_cover.hpp>
#include <openscenario_interpreter/syntax/parameter_type.hpp>
#include <openscenario_interpreter/syntax/precipitation_type.hpp>
#include <openscenario_interpreter/syntax/priority.hpp>
#include <openscenario_interpreter/syntax/reference_context.hpp>
#include <openscenario_interpreter/syntax/relative_distance_type.hpp>
#include <openscenario_interpreter/syntax/route_strategy.hpp>
#include <openscenario_interpreter/syntax/routing_algorithm.hpp>
#include <openscenario_interpreter/syntax/rule.hpp>
#include <openscenario_interpreter/syntax/storyboard_element_state.hpp>
#include <openscenario_interpreter/syntax/storyboard_element_type.hpp>
#include <openscenario_interpreter/syntax/triggering_entities_rule.hpp>
#include <openscenario_interpreter/syntax/wetness.hpp>
#include <traffic_simulator/data_type/behavior.hpp>
#include <traffic_simulator/data_type/routing_graph_type.hpp>
#include <simulation_interface/constants.hpp>

#include "mc.hpp"
using namespace openscenario_interpreter;
namespace
{
struct Token
{
  const char * text;
  int value;
  const char * printed;  // nullptr: text
  bool supported = true;
};
struct Kind
{
  std::string name;
  std::vector<Token> tokens;
  std::function<std::pair<int, std::string>(const std::string &)> parse;  // value, printed form; throws
  std::function<std::string(int)> print;
  bool printable = true;
};
std::vector<Kind> kinds;

template <typename T>
Kind kind(const char * name, std::vector<Token> tokens)
{
  Kind k;
  k.name = name;
  k.tokens = tokens;
  k.parse = [](const std::string & s) {
    T x{};
    std::istringstream is(s);
    is >> x;
    std::ostringstream os;
    os << x;
    // the way attributes are read must agree with the way streams are read
    if (auto y = boost::lexical_cast<T>(s); static_cast<int>(y.value) != static_cast<int>(x.value)) return std::make_pair(-1, std::string("lexical_cast differs"));
    return std::make_pair(static_cast<int>(x.value), os.str());
  };
  k.print = [](int v) {
    T x{};
    x.value = static_cast<typename T::value_type>(v);
    std::ostringstream os;
    os << x;
    return os.str();
  };
  return k;
}
#define E(T, ID) {#ID, static_cast<int>(T::ID), nullptr}
#define N(T, TEXT, ID) {TEXT, static_cast<int>(T::ID), nullptr}
#define U(T, ID) {#ID, -1, nullptr, false}

void table()
{
  kinds.push_back(kind<Command>("Command", {E(Command, exitFailure), E(Command, exitSuccess), E(Command, nop), E(Command, print)}));
  using CE = ConditionEdge;
  kinds.push_back(kind<CE>("ConditionEdge", {E(CE, none), E(CE, rising), E(CE, falling), E(CE, risingOrFalling), E(CE, sticky)}));
  using CS = CoordinateSystem;
  kinds.push_back(kind<CS>("CoordinateSystem", {E(CS, entity), E(CS, lane), U(CS, road), U(CS, trajectory)}));
  using FM = FollowingMode;
  kinds.push_back(kind<FM>("FollowingMode", {E(FM, follow), E(FM, position)}));
  using FC = FractionalCloudCover;
  kinds.push_back(kind<FC>("FractionalCloudCover", {E(FC, zeroOktas), E(FC, oneOktas), E(FC, twoOktas), E(FC, threeOktas), E(FC, fourOktas), E(FC, fiveOktas), E(FC, sixOktas), E(FC, sevenOktas), E(FC, eightOktas), E(FC, nineOktas)}));
  using PT = ParameterType;
  kinds.push_back(kind<PT>("ParameterType", {N(PT, "boolean", BOOLEAN), N(PT, "dateTime", DATE_TIME), N(PT, "double", DOUBLE), N(PT, "integer", INTEGER), N(PT, "string", STRING), N(PT, "unsignedInt", UNSIGNED_INT), N(PT, "unsignedShort", UNSIGNED_SHORT)}));
  using PR = PrecipitationType;
  kinds.push_back(kind<PR>("PrecipitationType", {E(PR, dry), E(PR, rain), E(PR, snow)}));
  using PY = Priority;
  kinds.push_back(kind<PY>("Priority", {{"override", PY::override, "override"}, {"overwrite", PY::override, "override"}, E(PY, skip), E(PY, parallel)}));
  using RC = ReferenceContext;
  kinds.push_back(kind<RC>("ReferenceContext", {E(RC, relative), U(RC, absolute)}));
  using RD = RelativeDistanceType;
  kinds.push_back(kind<RD>("RelativeDistanceType", {E(RD, lateral), E(RD, longitudinal), E(RD, euclidianDistance), {"cartesianDistance", RD::euclidianDistance, "euclidianDistance"}}));
  using RS = RouteStrategy;
  kinds.push_back(kind<RS>("RouteStrategy", {E(RS, shortest), U(RS, fastest), U(RS, leastIntersections), U(RS, random)}));
  using RA = RoutingAlgorithm;
  kinds.push_back(kind<RA>("RoutingAlgorithm", {N(RA, "assignedRoute", assigned_route), N(RA, "fastest", fastest), N(RA, "leastIntersections", least_intersections), N(RA, "shortest", shortest), N(RA, "undefined", undefined)}));
  kinds.push_back(kind<Rule>("Rule", {E(Rule, equalTo), E(Rule, greaterThan), E(Rule, lessThan), E(Rule, greaterOrEqual), E(Rule, lessOrEqual), E(Rule, notEqualTo)}));
  using SS = StoryboardElementState;
  kinds.push_back(kind<SS>("StoryboardElementState", {E(SS, completeState), E(SS, endTransition), E(SS, runningState), E(SS, skipTransition), E(SS, standbyState), E(SS, startTransition), E(SS, stopTransition)}));
  using ST = StoryboardElementType;
  kinds.push_back(kind<ST>("StoryboardElementType", {E(ST, act), E(ST, action), E(ST, event), E(ST, maneuver), E(ST, maneuverGroup), E(ST, story)}));
  using TE = TriggeringEntitiesRule;
  kinds.push_back(kind<TE>("TriggeringEntitiesRule", {E(TE, all), E(TE, any)}));
  kinds.push_back(kind<Wetness>("Wetness", {E(Wetness, dry), E(Wetness, moist), E(Wetness, wetWithPuddles), E(Wetness, lowFlooded), E(Wetness, highFlooded)}));
  Kind c;
  c.name = "Compatibility";
  c.tokens = {{"legacy", int(Compatibility::legacy), nullptr}, {"standard", int(Compatibility::standard), nullptr}};
  c.parse = [](const std::string & s) {
    Compatibility x{};
    std::istringstream is(s);
    is >> x;
    return std::make_pair(int(x), std::string());
  };
  c.printable = false;
  kinds.push_back(c);
}

void one(const Kind & k, const std::string & text)
{
  if (not mc::mine()) return;
  mc::current(k.name + " <- \"" + text + "\"");
  const Token * expect = nullptr;
  for (auto & t : k.tokens)
    if (text == t.text) expect = &t;
  std::string got;
  std::pair<int, std::string> r;
  bool threw = false, right_type = false;
  try {
    r = k.parse(text);
  } catch (const common::Error & e) {
    threw = true;
    right_type = true;
    got = e.what();
  } catch (const std::exception & e) {
    threw = true;
    got = e.what();
  }
  mc::executed();
  mc::state(k.name + "|" + text);
  mc::outcome(k.name + (threw ? "|throws|" : "|") + (threw ? std::string(expect ? "unsupported" : "unknown") : std::to_string(r.first)));
  const auto key = k.name + " \"" + text + "\"";
  if (expect and expect->supported) {
    mc::count("accepted");
    const std::string printed = expect->printed ? expect->printed : expect->text;
    if (threw)
      mc::violation(key, mc::cat("the value \"", text, "\" of ", k.name, " was refused: ", got));
    else if (r.first != expect->value)
      mc::violation(key, mc::cat("the value \"", text, "\" of ", k.name, " was read as enumerator ", r.first, " instead of ", expect->value));
    else if (k.printable and r.second != printed)
      mc::violation(key, mc::cat("the value \"", text, "\" of ", k.name, " prints as \"", r.second, "\""));
  } else if (text.empty() and (k.name == "RoutingAlgorithm" or k.name == "Compatibility")) {
    if (threw and k.name == "Compatibility") mc::violation(key, "an unset compatibility was refused: " + got);
    if (not threw and r.first != (k.name == "Compatibility" ? int(Compatibility::legacy) : int(RoutingAlgorithm::undefined)))
      mc::violation(key, mc::cat("an unset ", k.name, " is read as enumerator ", r.first));
  } else {
    mc::count(expect ? "refused_unsupported" : "refused_unknown");
    if (not threw)
      mc::violation(key, mc::cat("\"", text, "\" is not a supported value of ", k.name, " but was read as enumerator ", r.first));
    else if (not right_type)
      mc::violation(key, mc::cat("\"", text, "\" for ", k.name, " was refused by an exception other than a scenario error: ", got));
    else if (not text.empty() and got.find(text) == std::string::npos)
      mc::violation(key, mc::cat("the refusal of \"", text, "\" for ", k.name, " does not name the value: ", got));
  }
  mc::sample(key + (threw ? " -> refused: " + got : " -> " + r.second));
}
}  // namespace

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "each case is (enumeration type, attribute text): all schema tokens of all types, each against every type, all their proper prefixes and all single-character deletions, replacements, insertions and case changes; non-trivial: the pair is distinct";
    table();
    std::set<std::string> words;
    for (auto & k : kinds)
      for (auto & t : k.tokens) words.insert(t.text);
    for (auto w : {"TRUE", "true", "0", "1", "-1", "none", "off", "INF", "unknown", "initState"}) words.insert(w);
    // every word against every type, then the neighbourhood of each type's own words
    for (auto & k : kinds) {
      std::set<std::string> texts(words.begin(), words.end());
      texts.insert("");
      for (auto & t : k.tokens) {
        const std::string w = t.text;
        for (std::size_t i = 0; i < w.size(); ++i) {
          texts.insert(w.substr(0, i));
          texts.insert(w.substr(i));
          texts.insert(w.substr(0, i) + w.substr(i + 1));
          auto x = w;
          x[i] = std::isupper(x[i]) ? std::tolower(x[i]) : std::toupper(x[i]);
          texts.insert(x);
        }
        const std::string alphabet = mc::thorough() ? "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.:" : "aeinorstxZ0_-";
        for (std::size_t i = 0; i <= w.size(); ++i)
          for (char c : alphabet) {
            texts.insert(w.substr(0, i) + c + w.substr(i));
            if (i < w.size()) {
              auto x = w;
              x[i] = c;
              texts.insert(x);
            }
          }
        for (auto & u : k.tokens) texts.insert(w + u.text);
      }
      // TriggeringEntitiesRule "none" is outside the property: the schema has it only from 1.3 on
      if (k.name == "TriggeringEntitiesRule") texts.erase("none");
      for (auto & t : texts) one(k, t);
      if (k.printable) {  // printing: every enumerator
        for (auto & t : k.tokens)
          if (t.value >= 0 and mc::mine()) {
            mc::executed();
            std::string p;
            try {
              p = k.print(t.value);
            } catch (const std::exception & e) {
              p = e.what();
            }
            mc::state(k.name + "|print|" + std::to_string(t.value));
            mc::check(p == (t.printed ? t.printed : t.text), k.name + " print " + t.text, mc::cat("enumerator ", t.text, " of ", k.name, " prints as \"", p, "\""));
          }
      }
    }
    // names the rest of the system uses for its own enumerations
    auto name = [](const std::string & key, const std::string & got, const std::string & expected) {
      if (not mc::mine()) return;
      mc::executed();
      mc::state(key);
      mc::check(got == expected, key, key + " is \"" + got + "\" instead of \"" + expected + "\"");
    };
    using traffic_simulator::behavior::Request;
    auto str = [](auto && x) {
      std::ostringstream o;
      o << x;
      return o.str();
    };
    const std::vector<std::pair<Request, std::string>> requests = {{Request::NONE, "none"}, {Request::LANE_CHANGE, "lane_change"}, {Request::FOLLOW_LANE, "follow_lane"}, {Request::FOLLOW_POLYLINE_TRAJECTORY, "follow_polyline_trajectory"}, {Request::WALK_STRAIGHT, "walk_straight"}};
    for (auto & [r, s] : requests) {
      std::string upper = s;
      for (auto & c : upper) c = std::toupper(c);
      name("behavior request string " + s, traffic_simulator::behavior::getRequestString(r), s);
      name("behavior request printed " + s, str(r), upper);
    }
    using traffic_simulator::RoutingGraphType;
    name("routing graph VEHICLE", traffic_simulator::routing_graph_type::to_string(RoutingGraphType::VEHICLE), "VEHICLE");
    name("routing graph PEDESTRIAN", traffic_simulator::routing_graph_type::to_string(RoutingGraphType::PEDESTRIAN), "PEDESTRIAN");
    for (unsigned port : {0u, 1u, 80u, 5555u, 65535u, 4294967295u}) {
      using namespace simulation_interface;
      name("endpoint localhost " + std::to_string(port), getEndPoint(TransportProtocol::TCP, HostName::LOCALHOST, port), "tcp://localhost:" + std::to_string(port));
      name("endpoint any " + std::to_string(port), getEndPoint(TransportProtocol::TCP, HostName::ANY, port), "tcp://*:" + std::to_string(port));
      for (std::string host : {"", "127.0.0.1", "a.b", "*"})
        name("endpoint " + host + " " + std::to_string(port), getEndPoint(TransportProtocol::TCP, host, port), "tcp://" + host + ":" + std::to_string(port));
    }
  });
}
