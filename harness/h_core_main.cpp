#include "h_core.hpp"
#include <status_monitor/status_monitor.hpp>
std::map<std::string, core::Module> & core::modules() { static std::map<std::string, Module> m; return m; }
// the interpreter waits for real time only to let others catch up: there are no others here
extern "C" int nanosleep(const struct timespec *, struct timespec *) { return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { return 0; }
namespace common  // checked by its own harness (C02)
{
StatusMonitor::StatusMonitor() {}
StatusMonitor::~StatusMonitor() {}
auto StatusMonitor::updateThreshold(const std::chrono::seconds &) -> void {}
auto StatusMonitor::write() const -> void {}
}  // namespace common
int main(int argc, char ** argv)
{
  core::setup();
  const auto rc = mc::run(argc, argv, [] {
    const auto i = core::modules().find(mc::st().property);
    if (i == core::modules().end()) throw std::runtime_error("no such module");
    i->second();
  });
  core::teardown();
  return rc;
}
