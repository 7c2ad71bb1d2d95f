// StatusMonitor under every schedule within the bound: destruction terminates, the health file says exactly what
// the touches imply, no data race. The implementation is included so that one instance owns the globals.
#include <errno.h>
#include <stdio.h>
#include <unistd.h>
static char exe[64];
// before any other static: the monitor's file is named after the program
__attribute__((constructor(101))) static void rename_program()
{
  snprintf(exe, sizeof exe, "verif-status-monitor-%d", (int)getpid());
  program_invocation_name = exe;
}

#include STATUS_MONITOR_CPP

#include <nlohmann/json.hpp>
#include <new>

#include "mc.hpp"
#include "sched.hpp"

namespace
{
enum Op { TOUCH, SLEEP3, SLEEP11, OVERRIDE, THRESH, SECOND, OPS };
const char * op_name[] = {"touch", "sleep 3s", "sleep 11s", "override threshold 30s {touch; sleep 11s}", "set threshold 5s",
                          "construct and destroy a second monitor"};
std::vector<int> g_main, g_other;
bool g_with_other;
alignas(common::StatusMonitor) char storage[sizeof(common::StatusMonitor)];
alignas(common::StatusMonitor) char storage2[sizeof(common::StatusMonitor)];
std::string path;
// what the main thread did, on the virtual clock (whole seconds)
std::vector<long> touched;
std::vector<std::pair<long, long>> thresholds;  // (time, value)
long destroyed_at;
long sec() { return sched::now_ns() / 1000000000ull; }
void log_touch(bool main) { sched::Quiet q; if (main) touched.push_back(sec()); }
void log_threshold(bool main, long v) { sched::Quiet q; if (main) thresholds.emplace_back(sec(), v); }

void client(common::StatusMonitor & m, const std::vector<int> & ops, bool main)
{
  for (int op : ops) switch (op) {
      case TOUCH: m.touch("client"), log_touch(main); break;
      case SLEEP3: std::this_thread::sleep_for(std::chrono::seconds(3)); break;
      case SLEEP11: std::this_thread::sleep_for(std::chrono::seconds(11)); break;
      case OVERRIDE:
        log_threshold(main, 30);
        log_touch(main);
        m.overrideThreshold(std::chrono::seconds(30), [&] {
          m.touch("client");
          std::this_thread::sleep_for(std::chrono::seconds(11));
          return 0;
        });
        log_touch(main);
        if (main) log_threshold(true, thresholds.size() > 1 ? thresholds[thresholds.size() - 2].second : 10);
        break;
      case THRESH: m.updateThreshold(std::chrono::seconds(5)), log_threshold(main, 5); break;
      case SECOND: {
        auto * x = new (storage2) common::StatusMonitor();
        x->~StatusMonitor();
        break;
      }
    }
}
void body()
{
  auto * m = new (storage) common::StatusMonitor();
  m->updateThreshold(std::chrono::seconds(10));
  std::thread other;
  if (g_with_other) other = std::thread([&] { client(*m, g_other, false); });
  client(*m, g_main, true);
  if (g_with_other) other.join();
  {
    sched::Quiet q;
    destroyed_at = sec();
  }
  m->~StatusMonitor();
}
}  // namespace

int main(int argc, char ** argv)
{
  // the instance the header defines was constructed before main(), with a free-running watchdog: end it
  common::status_monitor.~StatusMonitor();
  return mc::run(argc, argv, [&] {
    path = "/tmp/" + std::string(exe) + "_status.json";
    mc::st().rule =
      "client programs of one or two threads over the monitor's operations x schedule (every choice of running thread at every "
      "lock, atomic, sleep, thread start and join, within the deviation bound, on a virtual clock)";
    auto explore_program = [&](const std::string & text, int bound) {
      sched::Options opt;
      opt.bound = bound;
      mc::current(text);
      std::uint64_t n = 0;
      sched::explore([&] { ::unlink(path.c_str()); touched.clear(); thresholds.assign(1, {0, 10}); destroyed_at = 0; }, body, opt, [&](const sched::Result & r) {
        ++n;
        mc::executed(r.steps);
        std::string tr = text + " schedule[" + r.log + "]";
        auto bad = [&](const std::string & k, const std::string & w) { mc::violation(k + " | " + text, w + "; " + r.blocked, tr); };
        mc::state(tr);
        if (r.deadlock) bad("deadlock", "no thread can proceed");
        if (r.horizon) bad("livelock", "the execution does not end");
        for (auto & x : r.races) mc::violation("data race: " + x, x, tr);
        if (r.deadlock or r.horizon) return false;
        // no timer expired early: the virtual clock stands still while anyone runs
        const bool undisturbed = r.choices == std::vector<int>(r.choices.size(), 0);
        std::ifstream f(path);
        std::string line, h = text;
        int lines = 0;
        while (std::getline(f, line)) {
          ++lines;
          nlohmann::json j;
          try {
            j = nlohmann::json::parse(line);
          } catch (...) {
            bad("malformed", "a line of the status file is not JSON: " + line);
            continue;
          }
          bool all = true;
          const long T = j["unix_time"].get<long>();
          long th = j["threshold"].get<long>();
          for (auto & t : j["threads"]) {
            bool good = t["good"].get<bool>();
            all = all and good;
            long s = t["since_last_access_ms"].get<long>();
            const bool may_have_exited = T >= destroyed_at or text.find("second") != std::string::npos;
            if (good != (s < th * 1000) and not(good and may_have_exited)) bad("health", "a thread silent for " + std::to_string(s) + " ms with threshold " + std::to_string(th) + " s is reported " + (good ? "good" : "bad"));
          }
          if (not g_with_other and undisturbed) {  // against the main thread's own record of what it did
            bool any = false;
            long last = -1, at = -1;
            for (long t : touched) if (t < T) last = std::max(last, t), any = true; else if (t == T) at = T;
            if (any and j["threads"].size() != 1) bad("missing thread", "a thread that reported is missing: " + line);
            if (not any and at < 0 and j["threads"].size()) bad("unknown thread", "a thread that never reported is listed: " + line);
            for (auto & t : j["threads"]) {
              long s = t["since_last_access_ms"].get<long>();
              if (not((any and s == (T - last) * 1000) or (at >= 0 and s == 0))) bad("staleness", "wrong time since the last report: " + line);
            }
            std::set<long> ok;
            long before = 10;
            for (auto & [t, v] : thresholds) if (t < T) before = v; else if (t == T) ok.insert(v);
            ok.insert(before);
            if (not ok.count(th)) bad("threshold", "threshold is not the one in force: " + line);
          }
          if (all != j["good"].get<bool>()) bad("overall health", "overall health disagrees with the threads': " + line);
          if (th != 10 and th != 30 and th != 5) bad("threshold", "unknown threshold " + line);
          h += " " + std::to_string(j["threads"].size()) + (all ? "g" : "b") + std::to_string(th);
        }
        if (not lines and undisturbed and text.find("sleep") != std::string::npos) bad("no status", "the status file was never written");
        mc::outcome(h);
        mc::sample(tr + " -> " + h);
        return true;
      });
      mc::count("programs");
      mc::st().counters["max schedules of one program"] = std::max(mc::st().counters["max schedules of one program"], n);
      ::unlink(path.c_str());
      if (sched::abandoned()) {
        mc::write_result();
        _exit(0);
      }
    };
    auto name = [](const std::vector<int> & p) {
      std::string s;
      for (int o : p) s += std::string(op_name[o]) + "; ";
      return s;
    };
    const int len = mc::thorough() ? 3 : 2;
    std::vector<std::vector<int>> programs{{}};
    for (std::size_t i = 0; i < programs.size(); ++i)
      if ((int)programs[i].size() < len)
        for (int op = 0; op < OPS; ++op) {
          auto p = programs[i];
          p.push_back(op);
          programs.push_back(p);
        }
    for (auto & p : programs) {
      if (not mc::mine()) continue;
      g_main = p;
      g_with_other = false;
      explore_program("main{" + name(p) + "destroy}", mc::thorough() ? 3 : p.size() < 2 ? 2 : 1);
    }
    const std::vector<std::vector<int>> small{{TOUCH}, {TOUCH, SLEEP3}, {OVERRIDE}, {TOUCH, SLEEP11}, {THRESH}};
    for (auto & a : small)
      for (auto & b : small) {
        if (not mc::mine()) continue;
        g_main = a;
        g_other = b;
        g_with_other = true;
        explore_program("main{" + name(a) + "}||{" + name(b) + "} destroy", mc::thorough() ? 2 : 1);
      }
    mc::write_result();
    _exit(0);
  });
}
