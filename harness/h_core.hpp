// Drives the real interpreter node (parsing, storyboard, lifecycle, verdict) on the simulator stand-in.
#pragma once
#include <time.h>
#include <unistd.h>

#include <boost/json.hpp>
#include <openscenario_interpreter/openscenario_interpreter.hpp>

#include "mc.hpp"
namespace core
{
using openscenario_interpreter::Interpreter;
inline std::string & dir() { static std::string d; return d; }
inline std::string slurp(const std::string & p)
{
  std::ifstream f(p);
  return {std::istreambuf_iterator<char>(f), {}};
}
inline void spit(const std::string & p, const std::string & s) { std::ofstream(p) << s; }
inline void setup()
{
  const char * t = ::getenv("VERIF_TMP");
  dir() = std::string(t ? t : "/tmp") + "/core-" + std::to_string(::getpid());
  std::filesystem::create_directories(dir() + "/pkg/suite");
  std::filesystem::create_directories(dir() + "/out");
  spit(dir() + "/pkg/suite/map.osm", "<osm/>");
}
inline void teardown() { std::filesystem::remove_all(dir()); }
inline std::string scenario_path(const std::string & name = "case") { return dir() + "/pkg/suite/" + name + ".xosc"; }
inline std::string result_path() { return dir() + "/out/result.junit.xml"; }

// ---- building blocks of a scenario -------------------------------------------------------------------------------------
inline std::string vehicle_body(const std::string & name = "", double l = 4, double w = 2)
{
  return mc::cat("<Vehicle name=\"", name, "\" vehicleCategory=\"car\"><BoundingBox><Center x=\"0\" y=\"0\" z=\"1\"/><Dimensions width=\"", w, "\" length=\"", l,
                 "\" height=\"2\"/></BoundingBox><Performance maxSpeed=\"50\" maxAcceleration=\"5\" maxDeceleration=\"5\"/><Axles><FrontAxle maxSteering=\"0.5\" "
                 "wheelDiameter=\"0.6\" trackWidth=\"1.8\" positionX=\"3\" positionZ=\"0.3\"/><RearAxle maxSteering=\"0.5\" wheelDiameter=\"0.6\" trackWidth=\"1.8\" "
                 "positionX=\"0\" positionZ=\"0.3\"/></Axles><Properties/></Vehicle>");
}
inline std::string scenario_object(const std::string & n, const std::string & controller = "") { return "<ScenarioObject name=\"" + n + "\">" + vehicle_body(n) + controller + "</ScenarioObject>"; }
inline std::string ego_controller() { return "<ObjectController><Controller name=\"c\"><Properties><Property name=\"isEgo\" value=\"true\"/></Properties></Controller></ObjectController>"; }
inline std::string teleport(int lane, double s) { return mc::cat("<PrivateAction><TeleportAction><Position><LanePosition roadId=\"\" laneId=\"", lane, "\" s=\"", s, "\" offset=\"0\"><Orientation type=\"relative\" h=\"0\" p=\"0\" r=\"0\"/></LanePosition></Position></TeleportAction></PrivateAction>"); }
inline std::string priv(const std::string & e, const std::string & actions) { return "<Private entityRef=\"" + e + "\">" + actions + "</Private>"; }
// true while the stand-in says entity `probe` moves faster than 0.5
inline std::string probe_condition(const std::string & probe, const std::string & attrs = "name=\"\" delay=\"0\" conditionEdge=\"none\"")
{
  return "<Condition " + attrs + "><ByEntityCondition><TriggeringEntities triggeringEntitiesRule=\"any\"><EntityRef entityRef=\"" + probe +
         "\"/></TriggeringEntities><EntityCondition><SpeedCondition value=\"0.5\" rule=\"greaterThan\"/></EntityCondition></ByEntityCondition></Condition>";
}
inline std::string trigger(const std::string & tag, const std::string & conditions) { return "<" + tag + "><ConditionGroup>" + conditions + "</ConditionGroup></" + tag + ">"; }
inline std::string time_condition(const std::string & rule, double v, const std::string & attrs = "name=\"\" delay=\"0\" conditionEdge=\"none\"") { return mc::cat("<Condition ", attrs, "><ByValueCondition><SimulationTimeCondition rule=\"", rule, "\" value=\"", v, "\"/></ByValueCondition></Condition>"); }
inline std::string never() { return "<StopTrigger/>"; }
inline std::string command(const std::string & type, const std::string & content = "") { return "<UserDefinedAction><CustomCommandAction type=\"" + type + "\">" + content + "</CustomCommandAction></UserDefinedAction>"; }
// a speed request the stand-in records; ends when the entity has reached the speed (harness sets it)
inline std::string speed_action(double v) { return mc::cat("<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsDimension=\"time\" value=\"0\" dynamicsShape=\"step\"/><SpeedActionTarget><AbsoluteTargetSpeed value=\"", v, "\"/></SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>"); }
inline std::string set_parameter(const std::string & name, const std::string & value) { return "<GlobalAction><ParameterAction parameterRef=\"" + name + "\"><SetAction value=\"" + value + "\"/></ParameterAction></GlobalAction>"; }
struct Doc
{
  std::string parameters, catalogs, road = "", entities, init, stories, stop = never(), version = "1";
  std::string xml() const
  {
    return "<?xml version=\"1.0\" encoding=\"UTF-8\"?><OpenSCENARIO><FileHeader revMajor=\"1\" revMinor=\"1\" date=\"2020-01-01T00:00:00\" description=\"\" author=\"\"/>" +
           (parameters.empty() ? std::string("<ParameterDeclarations/>") : "<ParameterDeclarations>" + parameters + "</ParameterDeclarations>") + "<CatalogLocations>" + catalogs +
           "</CatalogLocations><RoadNetwork><LogicFile filepath=\"" + dir() + "/pkg/suite/map.osm\"/>" + road + "</RoadNetwork><Entities>" + entities + "</Entities><Storyboard><Init><Actions>" +
           init + "</Actions></Init>" + stories + stop + "</Storyboard></OpenSCENARIO>";
  }
};
inline std::string story(const std::string & acts, const std::string & n = "story") { return "<Story name=\"" + n + "\">" + acts + "</Story>"; }
inline std::string act(const std::string & groups, const std::string & start = "<StartTrigger><ConditionGroup><Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><SimulationTimeCondition value=\"0\" rule=\"greaterOrEqual\"/></ByValueCondition></Condition></ConditionGroup></StartTrigger>", const std::string & stop = "", const std::string & n = "act") { return "<Act name=\"" + n + "\">" + groups + start + stop + "</Act>"; }
inline std::string actors(const std::string & refs, bool triggering = false) { return std::string("<Actors selectTriggeringEntities=\"") + (triggering ? "true" : "false") + "\">" + refs + "</Actors>"; }
inline std::string group(const std::string & maneuvers, const std::string & act_ = actors(""), const std::string & n = "group", int max = 1) { return mc::cat("<ManeuverGroup maximumExecutionCount=\"", max, "\" name=\"", n, "\">", act_, maneuvers, "</ManeuverGroup>"); }
inline std::string maneuver(const std::string & events, const std::string & n = "maneuver") { return "<Maneuver name=\"" + n + "\">" + events + "</Maneuver>"; }
inline std::string action(const std::string & a, const std::string & n) { return "<Action name=\"" + n + "\">" + a + "</Action>"; }
inline std::string event(const std::string & actions, const std::string & start, const std::string & n = "event", const std::string & priority = "parallel", int max = 1) { return mc::cat("<Event name=\"", n, "\" priority=\"", priority, "\" maximumExecutionCount=\"", max, "\">", actions, start, "</Event>"); }

// ---- one run of the interpreter ----------------------------------------------------------------------------------------
struct Sim
{
  std::shared_ptr<Interpreter> node;
  boost::json::value context;  // the last context published
  int contexts = 0;
  Sim()
  {
    reset_world();
    auto & o = rclcpp::stub::overrides();
    o["osc_path"] = scenario_path();
    o["output_directory"] = dir() + "/out";
    o["local_frame_rate"] = 30.0;
    std::filesystem::remove(result_path());
    rclcpp::stub::Bus::hook() = [this](const std::string & topic, const std::any & m) {
      if (topic == "context") {
        ++contexts;
        const auto & s = std::any_cast<const openscenario_interpreter_msgs::msg::Context &>(m).data;
        context = s.empty() ? boost::json::value() : boost::json::parse(s);
      }
    };
    node = std::make_shared<Interpreter>(rclcpp::NodeOptions());
  }
  ~Sim()
  {
    if (node) {
      if (state() != lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED) node->shutdown();
      node.reset();
    }
    rclcpp::stub::Bus::hook() = nullptr;
    if (openscenario_interpreter::SimulatorCore::active()) openscenario_interpreter::SimulatorCore::deactivate();
    while (not openscenario_interpreter::Storyboard::thunks.empty()) openscenario_interpreter::Storyboard::thunks.pop();
  }
  static void reset_world() { mock::world() = mock::World(); }
  std::uint8_t state() const { return node->state(); }
  bool configure() { return node->configure().id() == lifecycle_msgs::msg::State::PRIMARY_STATE_INACTIVE; }
  bool activate() { return node->activate().id() == lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE; }
  bool active() const { return state() == lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE; }
  // one frame: the node's timer fires; false when the scenario has ended
  bool frame(double t)
  {
    mock::world().time = t;
    if (auto timer = rclcpp::Node::last_timer().lock(); timer and not timer->canceled) timer->callback();
    return active();
  }
  // starts a scenario up to the point where the simulation time exists
  bool begin(const Doc & d, const std::string & name = "case") { return begin(d.xml(), name); }
  bool begin(const std::string & xml, const std::string & name = "case")
  {
    spit(scenario_path(name), xml);
    return configure() and activate() and frame(0);
  }
  static auto & entity(const std::string & n) { return traffic_simulator::API::instance->getEntity(n); }
  static void probe(const std::string & n, bool v) { entity(n).twist.linear.x = v ? 1 : 0; }
  // verdict as written to the report: "" (none), "pass", or "failure|error type: message"
  static std::string verdict()
  {
    pugi::xml_document d;
    if (not d.load_file(result_path().c_str())) return "";
    std::string s;
    int tests = 0;
    for (auto suite : d.child("testsuites").children("testsuite"))
      for (auto c : suite.children("testcase")) {
        ++tests;
        for (auto f : c.children("failure")) s += std::string("failure ") + f.attribute("type").value() + ": " + f.attribute("message").value();
        for (auto f : c.children("error")) s += std::string("error ") + f.attribute("type").value() + ": " + f.attribute("message").value();
      }
    return not tests ? "empty" : s.empty() ? "pass" : s;
  }
};
using Module = void (*)();
std::map<std::string, Module> & modules();
struct Register
{
  Register(const std::string & n, Module m) { modules()[n] = m; }
};
}  // namespace core
