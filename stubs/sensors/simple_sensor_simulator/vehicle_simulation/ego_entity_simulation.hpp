// Stand-in: records what the server asks of the simulated ego vehicle.
#pragma once
#include <autoware_vehicle_msgs/msg/control_mode_report.hpp>
#include <memory>
#include <rclcpp/rclcpp.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <string>
#include <traffic_simulator_msgs/msg/entity_status.hpp>
#include <traffic_simulator_msgs/msg/vehicle_parameters.hpp>
#include <vector>
namespace traffic_simulator::lanelet_pose
{
struct CanonicalizedLaneletPose { static auto setConsiderPoseByRoadSlope(bool) -> void {} };
}
namespace vehicle_simulation
{
struct StubAutoware
{
  autoware_vehicle_msgs::msg::ControlModeReport report;
  int manual_set = 0;
  auto getControlModeReport() const { return report; }
  auto setManualMode() -> void { report.mode = autoware_vehicle_msgs::msg::ControlModeReport::MANUAL; ++manual_set; }
};
class EgoEntitySimulation
{
public:
  static std::vector<EgoEntitySimulation *> & alive() { static std::vector<EgoEntitySimulation *> v; return v; }
  const std::unique_ptr<StubAutoware> autoware = std::make_unique<StubAutoware>();
  traffic_simulator_msgs::msg::EntityStatus status;
  traffic_simulator_msgs::msg::VehicleParameters vehicle_parameters;
  double step;
  std::vector<std::string> calls;
  explicit EgoEntitySimulation(const traffic_simulator_msgs::msg::EntityStatus & s, const traffic_simulator_msgs::msg::VehicleParameters & p, double step_time, const rclcpp::Parameter &, const bool)
  : status(s), vehicle_parameters(p), step(step_time) { autoware->report.mode = 1, alive().push_back(this); }
  ~EgoEntitySimulation() { auto & v = alive(); for (auto i = v.begin(); i != v.end(); ++i) if (*i == this) { v.erase(i); break; } }
  auto overwrite(const traffic_simulator_msgs::msg::EntityStatus & s, const double t, const double d, bool npc) -> void { call("overwrite", t, d, npc); const auto name = status.name; status = s, status.name = name; }
  auto update(const double t, const double d, const bool npc) -> void { call("update", t, d, npc); status.pose.position.x += 1; }
  auto getStatus() const -> const traffic_simulator_msgs::msg::EntityStatus { return status; }
private:
  void call(const char * what, double t, double d, bool npc) { std::ostringstream o; o << what << ' ' << t << ' ' << d << ' ' << npc; calls.push_back(o.str()); }
};
}  // namespace vehicle_simulation
