// Entities moved by the simulator, on small road networks.
#pragma once
#ifndef NPC_MAIN
#define NET_WORLD_ELSEWHERE
#endif
#include "h_net.hpp"
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <traffic_simulator/entity/entity_manager.hpp>
namespace npc
{
using namespace net;
void speed();
void book();
void track();
void drives();
using traffic_simulator::entity::EntityBase;
using traffic_simulator::entity::EntityManager;
using traffic_simulator::entity::PedestrianEntity;
using traffic_simulator::entity::VehicleEntity;
struct Node : rclcpp::Node { using rclcpp::Node::Node; };
struct Scratch   // a directory with what is taken for a map
{
  std::filesystem::path path = "/tmp/verif_npc_" + std::to_string(getpid());
  Scratch() { std::filesystem::create_directories(path); std::ofstream(path / "lanelet2_map.osm"); std::ofstream(path / "pointcloud_map.pcd"); }
  ~Scratch() { std::error_code e; std::filesystem::remove_all(path, e); }
};
inline Scratch & scratch() { static Scratch s; return s; }
struct Sim
{
  std::shared_ptr<Node> node = std::make_shared<Node>("npc");
  std::shared_ptr<ts::TrafficLights> lights;
  std::unique_ptr<EntityManager> em;
  double now = 0, dt = 0.05;
  Sim(Net & n, double step) : dt(step)
  {
    enter(n);
    em = std::make_unique<EntityManager>(node, ts::Configuration(scratch().path, ""), node->get_node_parameters_interface());
    lights = std::make_shared<ts::TrafficLights>(node, "awf/universe/20240605");
    em->setTrafficLights(lights);
  }
  VehicleEntity & car(const std::string & name, LP p)
  {
    traffic_simulator_msgs::msg::VehicleParameters v;
    v.name = "car";
    v.bounding_box.dimensions.x = 4; v.bounding_box.dimensions.y = 1.8; v.bounding_box.dimensions.z = 1.5; v.bounding_box.center.x = 1;
    v.axles.front_axle.track_width = v.axles.rear_axle.track_width = 1.6;
    em->spawnEntity<VehicleEntity>(name, ts::CanonicalizedLaneletPose(p), v, now);
    return dynamic_cast<VehicleEntity &>(em->getEntity(name));
  }
  void frame() { em->update(now, dt); now += dt; }
};
}  // namespace npc
