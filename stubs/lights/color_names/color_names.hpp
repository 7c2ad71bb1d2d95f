#pragma once
#include <std_msgs/msg/color_rgba.hpp>
#include <boost/lexical_cast.hpp>
#include <string>
namespace color_names
{
inline auto makeColorMsg(const std::string & name, double alpha = 1.0)
{
  std_msgs::msg::ColorRGBA c;
  c.r = name == "red" or name == "yellow" or name == "white";
  c.g = name == "green" or name == "yellow" or name == "white";
  c.b = name == "white";
  c.a = alpha;
  return c;
}
}  // namespace color_names
