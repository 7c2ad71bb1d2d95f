#pragma once
#include <prelude.hpp>
#include <pugixml.hpp>
#include <boost/json.hpp>
#include <boost/lexical_cast.hpp>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <rclcpp/rclcpp.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <traffic_simulator/api/api.hpp>
#include <openscenario_interpreter/error.hpp>
#include <openscenario_interpreter/expression.hpp>
#include <openscenario_interpreter/object.hpp>
#include <openscenario_interpreter/pointer.hpp>
