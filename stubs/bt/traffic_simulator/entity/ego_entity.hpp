// A vehicle in the place of the one driven by Autoware (which talks to Autoware's processes).
#pragma once
#include <traffic_simulator/entity/vehicle_entity.hpp>
namespace traffic_simulator::entity
{
class EgoEntity : public VehicleEntity
{
public:
  template <typename... Ts>
  explicit EgoEntity(const std::string & name, const CanonicalizedEntityStatus & status, const traffic_simulator_msgs::msg::VehicleParameters & parameters, Ts &&...) : VehicleEntity(name, status, parameters)
  {
  }
  void updateFieldOperatorApplication() {}
};
}  // namespace traffic_simulator::entity
