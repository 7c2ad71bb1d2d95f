// What the project's own precompiled header brings in for the sources that need nothing of ROS.
#pragma once
#include <boost/lexical_cast.hpp>
#include <cstdint>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <openscenario_interpreter/error.hpp>
#include <openscenario_interpreter/expression.hpp>
#include <openscenario_interpreter/pointer.hpp>
#include <pugixml.hpp>
#include <openscenario_interpreter/object.hpp>
