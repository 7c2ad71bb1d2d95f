#pragma once
#include <string>
namespace traffic_simulator::lanelet_map { inline std::string & activated() { static std::string s; return s; } template <class T> void activate(const T & path, int = 0) { activated() = path; } }
