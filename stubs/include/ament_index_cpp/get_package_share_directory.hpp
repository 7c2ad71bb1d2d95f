#pragma once
#include <cstdlib>
#include <stdexcept>
#include <string>
namespace ament_index_cpp
{
struct PackageNotFoundError : std::out_of_range
{
  explicit PackageNotFoundError(const std::string & p) : std::out_of_range("package '" + p + "' not found"), package_name(p) {}
  std::string package_name;
};
inline std::string get_package_share_directory(const std::string & p)
{
  if (p == "missing_package") throw PackageNotFoundError(p);
  return "/share/" + p;
}
}  // namespace ament_index_cpp
