// Stand-in: the handlers of the server, to be called directly (the transport is checked by C29).
#pragma once
#include <simulation_interface/simulation_api_schema.pb.h>
#include <functional>
#include <rclcpp/rclcpp.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <simulation_interface/constants.hpp>
#include <string>
#include <tuple>
namespace zeromq
{
class MultiServer
{
public:
  static MultiServer *& last() { static MultiServer * p = nullptr; return p; }
  template <class... Ts>
  explicit MultiServer(const simulation_interface::TransportProtocol &, const simulation_interface::HostName &, const unsigned, Ts &&... xs) : handlers(std::forward<Ts>(xs)...) { last() = this; }
#define F(N) std::function<simulation_api_schema::N##Response(const simulation_api_schema::N##Request &)>
  std::tuple<F(Initialize), F(UpdateFrame), F(SpawnVehicleEntity), F(SpawnPedestrianEntity), F(SpawnMiscObjectEntity), F(DespawnEntity), F(UpdateEntityStatus), F(AttachImuSensor), F(AttachLidarSensor),
    F(AttachDetectionSensor), F(AttachOccupancyGridSensor), F(UpdateTrafficLights), F(AttachPseudoTrafficLightDetector), F(UpdateStepTime)> handlers;
#undef F
#define CALL(N) auto call(const simulation_api_schema::N##Request & q) { return std::get<std::function<simulation_api_schema::N##Response(const simulation_api_schema::N##Request &)>>(handlers)(q); }
  CALL(Initialize) CALL(UpdateFrame) CALL(SpawnVehicleEntity) CALL(SpawnPedestrianEntity) CALL(SpawnMiscObjectEntity) CALL(DespawnEntity) CALL(UpdateEntityStatus) CALL(AttachImuSensor) CALL(AttachLidarSensor)
  CALL(AttachDetectionSensor) CALL(AttachOccupancyGridSensor) CALL(UpdateTrafficLights) CALL(AttachPseudoTrafficLightDetector) CALL(UpdateStepTime)
#undef CALL
};
}  // namespace zeromq
