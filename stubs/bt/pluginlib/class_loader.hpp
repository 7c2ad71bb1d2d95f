#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
namespace pluginlib
{
template <class Base>
struct Registry
{
  static std::map<std::string, std::function<std::shared_ptr<Base>()>> & classes()
  {
    static std::map<std::string, std::function<std::shared_ptr<Base>()>> m;
    return m;
  }
};
template <class Base>
class ClassLoader
{
public:
  ClassLoader(const std::string &, const std::string &) {}
  std::shared_ptr<Base> createSharedInstance(const std::string & name)
  {
    const auto last = [](const std::string & s) {
      const auto p = s.find_last_of("/:");
      return p == std::string::npos ? s : s.substr(p + 1);
    };
    const std::string wanted = last(name) == "DoNothingPlugin" ? "DoNothingBehavior" : last(name);   // (as plugins.xml says)
    for (auto & [n, f] : Registry<Base>::classes())
      if (last(n) == wanted) return f();
    throw std::runtime_error("no plugin " + name);
  }
};
}  // namespace pluginlib
