// The share directory of a simulation package is its source directory.
#pragma once
#include <cstdlib>
#include <string>
namespace ament_index_cpp
{
inline std::string get_package_share_directory(const std::string & package) { const char * r = std::getenv("VERIF_REPO_DIR"); return std::string(r ? r : "/repo") + "/simulation/" + package; }
}  // namespace ament_index_cpp
