// Controlled scheduler: every interleaving of the synchronisation operations of real threads, up to a bound
// on deviations (preemptions and early timer expiries), with happens-before race detection on every plain
// memory access of the instrumented code.
//
// The code under test is compiled with -fsanitize=thread, but linked with sched.cpp instead of the TSan
// runtime: the compiler's access callbacks feed the race detector, and its atomic callbacks are scheduling
// points. pthread_*, sleeps and clocks are interposed.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched
{
struct Result
{
  bool deadlock = false, horizon = false, diverged = false;
  std::vector<std::string> races;
  std::vector<int> choices, widths, costs;  // one entry per scheduling decision with more than one option
  std::uint64_t steps = 0;
  std::string log;       // who ran at each decision
  std::string blocked;   // at a deadlock: what each thread waits for
};
struct Options
{
  int bound = 2;           // deviations
  std::uint64_t horizon = 5000;
};
// Runs body under the scheduler with the given decisions, then default decisions.
// Returns after every thread it created has been joined, or when the execution cannot go on (deadlock or
// horizon): then stuck threads are left behind and `abandoned()` is true: the process must end soon.
Result run(const std::function<void()> & body, const std::vector<int> & prefix, std::uint64_t horizon);
bool abandoned();
void point(const char * what);        // explicit scheduling point for harness code
void note(const std::string &);       // annotates the log
struct Quiet { Quiet(); ~Quiet(); };  // harness bookkeeping: neither scheduled nor checked for races
std::uint64_t now_ns();               // virtual clock
bool active();

// depth-first enumeration within the bound; on_execution returns false to stop
struct Stats
{
  std::uint64_t executions = 0, steps = 0, decisions = 0;
};
Stats explore(
  const std::function<void()> & reset, const std::function<void()> & body, const Options &,
  const std::function<bool(const Result &)> & on_execution);
}  // namespace sched
