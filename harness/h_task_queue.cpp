// TaskQueue under every schedule within the bound: FIFO, exactly once, completion before "empty", failures
// reach the client, destruction terminates, no data race.
#include <concealer/task_queue.hpp>
#include <memory>
#include <rclcpp/rclcpp.hpp>
#include <stdexcept>

#include "mc.hpp"
#include "sched.hpp"


namespace
{
// operations of the client program
enum Op { TASK, FAIL, NEST, SLOW, EMPTY, SLEEP, RETHROW, OPS };
const char * op_name[] = {"delay(task)", "delay(throwing task)", "delay(task that delays another)", "delay(slow task)",
                          "empty()", "sleep(150ms)", "rethrow()"};
struct Observed  // written by the threads under test, read by the oracle; not instrumented
{
  std::vector<int> accepted, started, finished;
  int failed = -1;
  bool failing = false, overlapped = false, running = false, foreign_thread = false, empty_too_early = false,
       accepted_after_failure = false, lost_failure = false, wrong_failure = false, drained = false, ran_after_failure = false,
       never_drained = false;
  int surfaced = 0;
  unsigned long client = 0;
} O;
int next_id;
}  // namespace
static void begin(int id)
{
  sched::Quiet quiet;
  if (O.running) O.overlapped = true;
  O.running = true;
  if ((unsigned long)pthread_self() == O.client) O.foreign_thread = true;
  if (O.failing) O.ran_after_failure = true;
  O.started.push_back(id);
}
static void end(int id)
{
  sched::Quiet quiet;
  O.finished.push_back(id);
  O.running = false;
}
static void accept(int id) { sched::Quiet quiet; O.accepted.push_back(id); }
static void unaccept() { sched::Quiet quiet; O.accepted.pop_back(); }
static void fail(int id)
{
  sched::Quiet quiet;
  O.failed = id;
  O.failing = true;
  O.running = false;
}
static std::size_t accepted_now() { sched::Quiet quiet; return O.accepted.size(); }
static bool finished_all(std::size_t n) { sched::Quiet quiet; return O.finished.size() >= n; }
static void set(bool & b) { sched::Quiet quiet; b = true; }
static int fresh() { sched::Quiet quiet; return next_id++; }
static bool surfaced() { sched::Quiet quiet; return O.surfaced > 0; }
static bool get(const bool & b) { sched::Quiet quiet; return b; }

static void client(concealer::TaskQueue & q, const std::vector<int> & ops)
{
  auto guarded = [&](auto && f) {
    try {
      f();
      return true;
    } catch (const std::runtime_error & e) {
      sched::Quiet quiet;
      ++O.surfaced;
      if (std::string(e.what()) != "task failed" or not get(O.failing)) set(O.wrong_failure);
      return false;
    }
  };
  for (int op : ops) {
    switch (op) {
      case TASK:
      case SLOW:
      case NEST:
      case FAIL: {
        int id = fresh();
        accept(id);  // before the call: a task may start before delay() returns
        bool was_surfaced = surfaced();
        bool ok = guarded([&] {
          if (op == TASK)
            q.delay([id] { begin(id), sched::point("task body"), end(id); });
          else if (op == SLOW)
            q.delay([id] { begin(id), std::this_thread::sleep_for(std::chrono::milliseconds(250)), end(id); });
          else if (op == FAIL)
            q.delay([id] { begin(id), fail(id); throw std::runtime_error("task failed"); });
          else
            q.delay([id, &q] {
              begin(id);
              int inner = 100 + id;
              accept(inner);
              q.delay([inner] { begin(inner), end(inner); });
              end(id);
            });
        });
        if (not ok) unaccept();
        if (ok and was_surfaced) set(O.accepted_after_failure);
        break;
      }
      case EMPTY: {
        std::size_t n = accepted_now();
        bool e = q.empty();
        if (e and not finished_all(n)) set(O.empty_too_early);
        break;
      }
      case SLEEP:
        std::this_thread::sleep_for(std::chrono::milliseconds(150));
        break;
      case RETHROW: {
        bool was = surfaced();
        bool threw = not guarded([&] { q.rethrow(); });
        if (was and not threw) set(O.lost_failure);
        break;
      }
    }
  }
}

static std::vector<int> g_ops;
static bool g_wait, g_second;
static std::vector<int> g_ops2;
static void body()
{
  {
    sched::Quiet quiet;
    O.client = (unsigned long)pthread_self();
  }
  {
    concealer::TaskQueue q;
    std::thread other;
    if (g_second) other = std::thread([&] { client(q, g_ops2); });
    client(q, g_ops);
    if (g_second) other.join();
    if (g_wait) {  // poll, as a client does, until everything accepted was done or the failure surfaced
      bool done = false;
      for (int i = 0; i < 40 and not done; ++i) {
        try {
          q.rethrow();
        } catch (const std::runtime_error &) {
          sched::Quiet quiet;
          ++O.surfaced;
          done = true;
          break;
        }
        std::size_t n = accepted_now();
        if (q.empty()) {
          if (not finished_all(n) and not get(O.failing)) set(O.empty_too_early);
          set(O.drained);
          done = true;
        }
        if (not done) std::this_thread::sleep_for(std::chrono::milliseconds(100));
      }
      if (not done) set(O.never_drained);
    }
  }
}

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [&] {
    mc::st().rule =
      "a client program (sequence of queue operations) x schedule (every choice of running thread at every lock, atomic, "
      "sleep, thread start and join, within the deviation bound); an outcome is program + observable history";
    const int len = mc::thorough() ? 4 : 3;
    std::vector<std::vector<int>> programs{{}};
    for (std::size_t i = 0; i < programs.size(); ++i)
      if ((int)programs[i].size() < len)
        for (int op = 0; op < OPS; ++op) {
          auto p = programs[i];
          p.push_back(op);
          int sleeps = 0, tasks = 0;
          for (int o : p) sleeps += (o == SLEEP), tasks += o <= SLOW;
          if (sleeps <= 1) programs.push_back(p);
        }
    sched::Options opt;
    opt.bound = mc::thorough() ? 3 : 2;
    auto explore_program = [&](const std::string & text) {
      std::uint64_t n = 0;
      auto stats = sched::explore(
        [&] {
          O = Observed();
          next_id = 0;
        },
        body, opt, [&](const sched::Result & r) {
          ++n;
          mc::executed(r.steps);
          std::string h = text + " started:";
          for (int i : O.started) h += std::to_string(i) + ",";
          h += " finished:" + std::to_string(O.finished.size()) + " surfaced:" + std::to_string(O.surfaced) +
               (O.drained ? " drained" : "");
          mc::outcome(h);
          mc::state(h + r.log);
          std::string tr = text + " schedule[" + r.log + "]";
          mc::sample(tr + " -> " + h);
          auto bad = [&](const std::string & k, const std::string & w) {
            mc::violation(k + " | " + text, w + "; observed: " + h + "; " + r.blocked, tr);
          };
          if (r.deadlock) bad("deadlock", "no thread can proceed");
          if (r.horizon) bad("livelock", "the execution does not end");
          for (auto & x : r.races) mc::violation("data race: " + x, x, tr);
          if (r.deadlock or r.horizon) return false;
          if (O.overlapped) bad("overlap", "two tasks ran at the same time");
          if (O.foreign_thread) bad("caller thread", "a task ran on the client's thread");
          if (O.ran_after_failure) bad("ran after failure", "a task ran after a task had failed");
          if (O.empty_too_early) bad("early empty", "the queue reported empty while an accepted task had not finished");
          if (O.accepted_after_failure) bad("accepted after failure", "a task was accepted after the failure had been reported");
          if (O.lost_failure) bad("failure forgotten", "a reported failure was not reported again");
          if (O.wrong_failure) bad("wrong failure", "an exception surfaced that no task threw");
          if (O.never_drained) bad("not drained", "the queue never became empty and no failure surfaced");
          if (not g_second) {
            // with one client, tasks start in the order they were accepted; nested tasks are appended behind
            std::vector<int> expect = O.accepted;
            for (std::size_t i = 0; i < O.started.size(); ++i)
              if (std::count(O.started.begin(), O.started.end(), O.started[i]) != 1)
                bad("duplicate", "a task ran more than once");
            std::vector<int> plain, plain_started;
            for (int i : expect) if (i < 100) plain.push_back(i);
            for (int i : O.started) if (i < 100) plain_started.push_back(i);
            if (plain_started.size() > plain.size() or not std::equal(plain_started.begin(), plain_started.end(), plain.begin()))
              bad("order", "tasks did not run in the order in which they were accepted");
            if (g_wait and O.drained and O.failed < 0 and O.started.size() != O.accepted.size())
              bad("lost task", "an accepted task never ran although the queue became empty");
            if (g_wait and O.failed >= 0 and not O.surfaced) bad("lost failure", "the task's exception never reached the client");
          } else {
            std::set<int> once(O.started.begin(), O.started.end());
            if (once.size() != O.started.size()) bad("duplicate", "a task ran more than once");
            if (g_wait and O.drained and O.failed < 0 and O.started.size() != O.accepted.size())
              bad("lost task", "an accepted task never ran although the queue became empty");
          }
          return true;
        });
      mc::count("programs");
      mc::st().counters["max schedules of one program"] = std::max(mc::st().counters["max schedules of one program"], n);
      (void)stats;
      if (sched::abandoned()) {
        mc::write_result();
        _exit(0);
      }
    };
    for (auto & p : programs)
      for (int wait = 0; wait < 2; ++wait) {
        if (not mc::mine()) continue;
        g_ops = p;
        g_wait = wait;
        g_second = false;
        std::string text = "program{";
        for (int o : p) text += std::string(op_name[o]) + "; ";
        text += wait ? "wait; destroy}" : "destroy}";
        mc::current(text);
        explore_program(text);
      }
    // two clients
    const std::vector<std::vector<int>> small{{TASK}, {TASK, TASK}, {TASK, EMPTY}, {NEST}, {FAIL}, {TASK, RETHROW}};
    opt.bound = mc::thorough() ? 2 : 1;
    for (auto & a : small)
      for (auto & b : small) {
        if (not mc::mine()) continue;
        g_ops = a;
        g_ops2 = b;
        g_second = true;
        g_wait = true;
        // one client may see the failure of the other between its own accept and the queue: only single failure programs
        std::string text = "clients{";
        for (int o : a) text += std::string(op_name[o]) + "; ";
        text += "}||{";
        for (int o : b) text += std::string(op_name[o]) + "; ";
        text += "} wait; destroy";
        mc::current(text);
        explore_program(text);
      }
  });
}
