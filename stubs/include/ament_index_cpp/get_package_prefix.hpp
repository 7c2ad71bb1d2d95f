#pragma once
#include <functional>
#include <stdexcept>
#include <string>
namespace ament_index_cpp
{
struct PackageNotFoundError : std::out_of_range { using std::out_of_range::out_of_range; };
inline bool (*& package_exists())(const std::string &) { static bool (*f)(const std::string &) = nullptr; return f; }
inline std::string get_package_prefix(const std::string & n)
{
  if (package_exists() and package_exists()(n)) return "/opt/" + n;
  throw PackageNotFoundError(n);
}
}  // namespace ament_index_cpp
