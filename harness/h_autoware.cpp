// Driving Autoware (C26): every program of an operator against every behaviour of a modelled Autoware.
#include <sys/wait.h>
#include <signal.h>
#include <ament_index_cpp/get_package_prefix.hpp>
#include <array>
#include <concealer/field_operator_application.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <set>
#include "mc.hpp"

namespace { std::int64_t virtual_ns = 0; }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration(virtual_ns)); }

// processes: nothing real is touched
namespace
{
struct Processes
{
  std::vector<std::string> log;
  std::function<int(pid_t, int *, int)> wait;
  std::function<int()> timed;
} processes;
}  // namespace
extern "C" {
int __wrap_kill(pid_t p, int s) { processes.log.push_back("kill " + std::to_string(p) + " " + std::to_string(s)); return 0; }
int __wrap_killpg(pid_t p, int s) { processes.log.push_back("killpg " + std::to_string(p) + " " + std::to_string(s)); return 0; }
pid_t __wrap_waitpid(pid_t p, int * status, int options) { processes.log.push_back("waitpid " + std::to_string(p) + (options & WNOHANG ? " nohang" : "")); return processes.wait ? processes.wait(p, status, options) : (errno = ECHILD, -1); }
int __wrap_sigtimedwait(const sigset_t * s, siginfo_t *, const timespec * t) { processes.log.push_back("sigtimedwait " + std::to_string(sigismember(s, SIGCHLD)) + " " + std::to_string(t->tv_sec)); return processes.timed ? processes.timed() : (errno = EAGAIN, -1); }
}

namespace
{
using mc::cat;
using FOA = concealer::FieldOperatorApplication;
using concealer::LegacyAutowareState;
using Loc = autoware_adapi_v1_msgs::msg::LocalizationInitializationState;
using Route = autoware_adapi_v1_msgs::msg::RouteState;
using Mode = autoware_adapi_v1_msgs::msg::OperationModeState;
using Mrm = autoware_adapi_v1_msgs::msg::MrmState;
namespace asrv = autoware_adapi_v1_msgs::srv;
namespace tsrv = tier4_external_api_msgs::srv;
constexpr std::int64_t second = 1000000000;
void pass(std::int64_t ns) { virtual_ns += ns, rclcpp::stub::now_ns() += ns; }
struct Hang {};
enum L { I, W, P, E, D, A };
const char * names[] = {"INITIALIZING", "WAITING_FOR_ROUTE", "PLANNING", "WAITING_FOR_ENGAGE", "DRIVING", "ARRIVED_GOAL"};
std::string pose_text(const geometry_msgs::msg::Pose & p) { return cat("(", p.position.x, ",", p.position.y, ")"); }
geometry_msgs::msg::Pose pose(double x, double y) { geometry_msgs::msg::Pose p; p.position.x = x, p.position.y = y; return p; }

struct Request { std::string name, content; L at; std::int64_t time; bool accepted; };
struct Task { char op; std::string expected; std::vector<Request> requests; L begin, end; std::int64_t begin_time, end_time; enum { NORMAL, AUTOWARE, OTHER, HANG } how; std::string what; bool unready = false; std::int64_t unready_since = 0; };

struct Autoware
{
  mc::Chooser & c;
  int budget;
  L state;
  L goal;  // of the transitions under way
  std::int64_t arrived = 0, changed = 0;
  bool frozen = false;
  std::set<std::string> broken, away;
  Task * task = nullptr;
  FOA * foa = nullptr;
  std::string probe;
  bool failed = false;
  int ticks = 0;
  Autoware(mc::Chooser & c, int budget, L start) : c(c), budget(budget), state(start), goal(start) {}
  int choose(int n)
  {
    if (not budget) return 0;
    const int x = c(n);
    budget -= x != 0;
    return x;
  }
  L legacy() const { return state == A and rclcpp::stub::now_ns() - arrived >= 2 * second ? W : state; }
  void set(L s)
  {
    state = s;
    if (s == A) arrived = rclcpp::stub::now_ns();
    ticks = 0;
    publish();
  }
  void publish()
  {
    Loc l;
    l.state = state == I ? Loc::UNINITIALIZED : Loc::INITIALIZED;
    Route r;
    r.state = state <= W ? Route::UNSET : state == A ? Route::ARRIVED : Route::SET;
    r.stamp = rclcpp::Time(arrived);
    Mode m;
    m.mode = state == D ? Mode::AUTONOMOUS : Mode::STOP;
    m.is_autoware_control_enabled = true;
    m.is_autonomous_mode_available = state >= E;
    rclcpp::stub::deliver("/api/localization/initialization_state", l);
    rclcpp::stub::deliver("/api/routing/state", r);
    rclcpp::stub::deliver("/api/operation_mode/state", m);
  }
  void tick(std::int64_t ns)
  {
    pass(ns);
    if (++ticks > 260) throw Hang();
    if (state != goal and not frozen) {
      const int x = choose(3);  // at once, one tick later, never
      if (x == 0) set(state == A ? goal : L(state + 1));
      if (x == 2) frozen = true;
    }
    look();
  }
  void look()
  {
    if (not foa or not probe.empty() or failed) return;
    const bool idle = concealer::TaskQueue::current()->thunks.empty();
    try {
      if (foa->engaged() != (idle and legacy() == D)) probe = cat("engaged() was ", not(idle and legacy() == D), " in ", names[legacy()], idle ? "" : " with requests under way");
      if (foa->engageable() != (idle and legacy() == E)) probe = cat("engageable() was ", not(idle and legacy() == E), " in ", names[legacy()], idle ? "" : " with requests under way");
      if (std::string(foa->getLegacyAutowareState()) != names[legacy()]) probe = cat("the state was ", std::string(foa->getLegacyAutowareState()), " instead of ", names[legacy()]);
    } catch (...) {
      probe = "the state could not be asked for although nothing had failed";
    }
  }
  bool ready(const std::string & name)
  {
    if (away.count(name)) return false;
    const int x = choose(3);  // there, there at the next try, never there
    if (x == 2) {
      away.insert(name);
      if (task) task->unready = true, task->unready_since = virtual_ns;
    }
    return x == 0;
  }
  static std::string content(const std::any & q)
  {
    if (auto * r = std::any_cast<asrv::SetRoutePoints::Request>(&q)) {
      std::string s = cat(r->header.frame_id, " goal ", pose_text(r->goal), " via");
      for (auto & w : r->waypoints) s += pose_text(w);
      return s + (r->option.allow_goal_modification ? " modifiable" : "");
    }
    if (auto * r = std::any_cast<asrv::SetRoute::Request>(&q)) {
      std::string s = cat(r->header.frame_id, " goal ", pose_text(r->goal), " via");
      for (auto & w : r->segments) {
        s += cat(" ", w.preferred.id, w.preferred.type);
        for (auto & a : w.alternatives) s += cat("/", a.id, a.type);
      }
      return s + (r->option.allow_goal_modification ? " modifiable" : "");
    }
    if (auto * r = std::any_cast<asrv::InitializeLocalization::Request>(&q)) {
      std::string s;
      for (auto & p : r->pose) s += cat(p.header.frame_id, pose_text(p.pose.pose));
      return s;
    }
    if (auto * r = std::any_cast<tsrv::Engage::Request>(&q)) return r->engage ? "on" : "off";
    if (auto * r = std::any_cast<tsrv::SetVelocityLimit::Request>(&q)) return cat(r->velocity);
    if (auto * r = std::any_cast<tier4_rtc_msgs::srv::AutoModeWithModule::Request>(&q)) return cat(int(r->module.type), r->enable ? " on" : " off");
    if (auto * r = std::any_cast<tier4_rtc_msgs::srv::CooperateCommands::Request>(&q)) {
      std::string s = cat(r->stamp.sec);
      for (auto & x : r->commands) s += cat(" ", int(x.module.type), ":", int(x.uuid[0]), ":", int(x.command.type));
      return s;
    }
    return "";
  }
  static void mark(std::any & r, bool ok)
  {
    auto adapi = [&](auto * p) { if (p) p->status.success = ok; return p != nullptr; };
    auto tier4 = [&](auto * p) { if (p) p->status.code = ok ? tier4_external_api_msgs::msg::ResponseStatus::SUCCESS : tier4_external_api_msgs::msg::ResponseStatus::ERROR; return p != nullptr; };
    if (adapi(std::any_cast<asrv::SetRoutePoints::Response>(&r)) or adapi(std::any_cast<asrv::SetRoute::Response>(&r)) or adapi(std::any_cast<asrv::InitializeLocalization::Response>(&r)) or adapi(std::any_cast<asrv::ClearRoute::Response>(&r)) or
        adapi(std::any_cast<asrv::ChangeOperationMode::Response>(&r)) or tier4(std::any_cast<tsrv::Engage::Response>(&r)) or tier4(std::any_cast<tsrv::SetVelocityLimit::Response>(&r)))
      return;
    if (auto * p = std::any_cast<tier4_rtc_msgs::srv::AutoModeWithModule::Response>(&r)) p->success = ok;
    if (auto * p = std::any_cast<tier4_rtc_msgs::srv::CooperateCommands::Response>(&r)) {
      p->responses.resize(2);
      p->responses[0].success = true;
      p->responses[1].success = ok;
    }
  }
  bool answer(const std::string & name, const std::any & request, std::any & response, std::int64_t patience)
  {
    Request r{name, content(request), legacy(), virtual_ns, false};
    const int x = broken.count(name) ? 2 : choose(4);  // accepted, refused once, refused for ever, no answer
    if (x == 2) broken.insert(name);
    r.accepted = x == 0;
    if (r.accepted) accept(name);
    if (task) task->requests.push_back(r);
    if (x == 3) {
      pass(patience);
      return false;
    }
    mark(response, r.accepted);
    return true;
  }
  void accept(const std::string & name)
  {
    auto start = [&](L to) {
      goal = to;
      frozen = false;
      const int x = choose(2);  // the first step is taken at once, or under way
      if (x == 0) set(state == A ? P : L(state + 1));
    };
    if (name == "/api/routing/clear_route") {
      if (state >= W) set(W), goal = W;
    } else if (name == "/api/localization/initialize") {
      if (state == I) start(W);
    } else if (name == "/api/routing/set_route" or name == "/api/routing/set_route_points") {
      if (legacy() == W) state = W, start(E);
    } else if (name == "/api/external/set/engage") {
      if (state == E) start(D);
    }
  }
};

// operations: i, j initial poses; p, q routes by points, by segments; e engage; c clear the route; v velocity limit; r automatic mode; o control on; a arrive; t three seconds pass
struct Program { std::string ops; bool eager; };
std::string service_of(char op)
{
  switch (op) {
    case 'i': case 'j': return "/api/localization/initialize";
    case 'p': return "/api/routing/set_route_points";
    case 'q': return "/api/routing/set_route";
    case 'e': return "/api/external/set/engage";
    case 'c': return "/api/routing/clear_route";
    case 'v': return "/api/autoware/set/velocity_limit";
    case 'r': return "/api/external/set/rtc_auto_mode";
    case 'o': return "/api/operation_mode/enable_autoware_control";
    default: return "/api/operation_mode/change_to_stop";
  }
}
void explore(const Program & program, L start, int deviations)
{
  mc::Chooser c;
  do {
    c.pos = 0;
    virtual_ns = 1000 * second;
    rclcpp::stub::now_ns() = 500 * second;
    Autoware w(c, deviations, start);
    w.arrived = rclcpp::stub::now_ns();
    std::vector<Task> tasks;
    std::string trouble;
    rclcpp::stub::sleep_hook() = [&](std::chrono::nanoseconds d) { w.tick(d.count()); };
    rclcpp::stub::Services::get().ready = [&](const std::string & n) { return w.ready(n); };
    rclcpp::stub::Services::get().answer = [&](const std::string & n, const std::any & q, std::any & r, std::chrono::nanoseconds d) { return w.answer(n, q, r, d.count()); };
    std::deque<std::pair<char, std::string>> pending;
    bool first = true, stopped = false, engaged_once = false;
    const auto limit = virtual_ns + 10 * second;
    std::vector<bool> lifted;
    {
      FOA foa(0);
      auto & queue = *concealer::TaskQueue::current();
      w.publish();
      w.foa = &foa;
      pending.emplace_back('s', "");
      auto drain = [&] {
        while (not queue.thunks.empty() and not stopped) {
          Task t{};
          std::tie(t.op, t.expected) = pending.front();
          pending.pop_front();
          t.begin = w.legacy(), t.begin_time = virtual_ns;
          w.task = &t;
          w.ticks = 0;
          try {
            auto f = queue.thunks.front();
            f();
            t.how = Task::NORMAL;
            queue.thunks.pop_front();
          } catch (const Hang &) {
            t.how = Task::HANG;
            queue.thunks.pop_front();
            stopped = true;
          } catch (const common::AutowareError & e) {
            t.how = Task::AUTOWARE, t.what = e.what();
            queue.thrown = std::current_exception();
            stopped = true;
          } catch (const std::exception & e) {
            t.how = Task::OTHER, t.what = e.what();
            queue.thrown = std::current_exception();
            stopped = true;
          }
          w.failed = stopped;
          w.task = nullptr;
          t.end = w.legacy(), t.end_time = virtual_ns;
          lifted.push_back(engaged_once);
          if (t.op == 'e' and t.how == Task::NORMAL and not t.requests.empty()) engaged_once = true;
          tasks.push_back(t);
          w.look();
        }
      };
      if (program.eager) drain();
      for (char op : program.ops) {
        if (stopped) break;
        switch (op) {
          case 'i': case 'j': {
            const double x = op == 'i' ? 1 : 2;
            if (first) pending.emplace_back(op, cat("map(", x, ",", x + 0.5, ")"));
            first = false;
            foa.initialize(pose(x, x + 0.5));
          } break;
          case 'p': {
            FOA::RouteOption option;
            option.allow_goal_modification = program.ops.size() % 2;
            if (program.eager) {
              std::vector<geometry_msgs::msg::PoseStamped> route(3);
              route[0].pose = pose(3, 4), route[1].pose = pose(5, 6), route[2].pose = pose(9, 8);
              foa.plan(route, option.allow_goal_modification);
            } else
              foa.plan(pose(9, 8), {pose(3, 4), pose(5, 6)}, option);
            pending.emplace_back(op, cat("map goal (9,8) via(3,4)(5,6)", option.allow_goal_modification ? " modifiable" : ""));
          } break;
          case 'q': {
            FOA::RouteOption option;
            option.allow_goal_modification = program.ops.size() % 2 == 0;
            std::vector<autoware_adapi_v1_msgs::msg::RouteSegment> s(2);
            s[0].preferred.id = 11, s[0].preferred.type = "lane";
            s[0].alternatives.resize(1);
            s[0].alternatives[0].id = 12;
            s[1].preferred.id = 20000000003;
            foa.plan(pose(9, 8), s, option);
            pending.emplace_back(op, cat("map goal (9,8) via 11lane/12 20000000003", option.allow_goal_modification ? " modifiable" : ""));
          } break;
          case 'e': foa.engage(), pending.emplace_back(op, "on"); break;
          case 'c': foa.clearRoute(), pending.emplace_back(op, ""); break;
          case 'v': foa.setVelocityLimit(12.5), pending.emplace_back(op, "12.5"); break;
          case 'r': foa.requestAutoModeForCooperation("INTERSECTION", true), pending.emplace_back(op, cat(int(tier4_rtc_msgs::msg::Module::INTERSECTION), " on")); break;
          case 'o': foa.enableAutowareControl(), pending.emplace_back(op, ""); break;
          case 'a': if (program.eager and w.state == D) w.set(A), w.goal = A; break;
          case 't': if (program.eager) pass(3 * second); break;
        }
        if (program.eager) drain();
        w.look();
      }
      drain();
      const auto name = cat("program ", program.ops, program.eager ? " step by step" : " at once", " from ", names[start], " environment ", c.text());
      mc::current(name);
      mc::executed(tasks.size());
      auto bad = [&](const std::string & s) { if (trouble.empty()) trouble = s; };
      if (not w.probe.empty()) bad(w.probe);
      // a failure reaches the operator; without one there is none
      const bool failed = not tasks.empty() and (tasks.back().how == Task::AUTOWARE or tasks.back().how == Task::OTHER);
      bool threw = false;
      try { foa.spinSome(); } catch (...) { threw = true; }
      if (threw != failed) bad(failed ? "the failure did not reach the operator" : "an operator without failures got one");
      if (not stopped and not pending.empty()) bad("a request was never made");
      std::size_t k = 0;
      for (auto & t : tasks) {
        const auto service = service_of(t.op);
        const bool unlimited = lifted[k++];
        const auto who = cat("operation ", t.op, " (begun in ", names[t.begin], "): ");
        for (auto & r : t.requests) {
          if (r.name != service) bad(who + "asked " + r.name);
          if (r.content != t.expected) bad(who + "asked for '" + r.content + "' instead of '" + t.expected + "'");
          if (&r != &t.requests.back() and r.accepted) bad(who + "asked again after it had been accepted");
          const bool allowed = t.op == 'i' or t.op == 'j' ? r.at == I or r.at == W : t.op == 'p' or t.op == 'q' ? r.at == W : t.op == 'e' ? r.at == E : true;
          if (not allowed) bad(who + "asked " + r.name + " in " + names[r.at]);
        }
        for (std::size_t a = 1; a < t.requests.size(); ++a)
          if (t.requests[a].time < t.requests[a - 1].time + second) bad(who + "asked again without a pause");
        const bool accepted = not t.requests.empty() and t.requests.back().accepted, allowed = t.op == 'i' or t.op == 'j' ? t.begin <= W : t.op == 'p' or t.op == 'q' ? t.begin <= W or t.begin == A : t.op == 'e' ? t.begin != A : true;
        const bool nothing_to_do = t.op == 'e' and t.begin == D;
        const L reach = t.op == 'i' or t.op == 'j' ? W : t.op == 'p' or t.op == 'q' ? E : t.op == 'e' ? D : I;
        if (t.requests.size() > 30) bad(who + cat("asked ", t.requests.size(), " times"));
        switch (t.how) {
          case Task::NORMAL:
            if (not allowed) bad(who + "is not possible, but nothing was reported");
            if (nothing_to_do ? not t.requests.empty() : not accepted) bad(who + (nothing_to_do ? "asked although there is nothing to do" : "ended without having been accepted"));
            if (t.end < reach) bad(who + "ended in " + names[t.end]);
            break;
          case Task::AUTOWARE:
            if (allowed and not accepted and t.requests.empty() and t.unready) {
              if (t.what.find(service) == std::string::npos or t.end_time - t.begin_time < 180 * second or t.end_time - t.unready_since > 190 * second) bad(who + "gave up on a service: " + t.what);
            } else if (allowed and not accepted and not t.requests.empty()) {
              if (t.requests.size() != 30 or t.what.find(service) == std::string::npos) bad(who + cat("gave up after ", t.requests.size(), " attempts: ", t.what));
            } else if (allowed) {
              if (t.end_time < limit or unlimited) bad(who + "gave up waiting although there was time: " + t.what);
              if (t.what.find(names[t.end]) == std::string::npos) bad(who + "did not name the state " + names[t.end] + ": " + t.what);
              if (accepted and t.end >= reach) bad(who + "gave up although done");
            } else {
              if (not t.requests.empty()) bad(who + "made a request although impossible");
              if (t.what.find(names[t.begin]) == std::string::npos) bad(who + "did not name the state " + names[t.begin] + ": " + t.what);
            }
            break;
          case Task::OTHER: bad(who + "failed as " + t.what); break;
          case Task::HANG:
            if (not unlimited) bad(who + "waits for ever");
            break;
        }
        mc::state(cat(t.op, t.begin, t.end, t.how, t.requests.size(), unlimited, accepted, program.eager));
      }
      std::string o;
      for (auto & t : tasks) o += cat(t.op, int(t.how), t.requests.size(), " ");
      mc::outcome(o);
      if (not trouble.empty()) mc::violation(name, trouble);
      w.foa = nullptr;
    }
  } while (c.next());
}
void programs()
{
  const std::string ops = "ijpqecvroat";
  auto each = [&](int length, int deviations, const std::vector<L> & starts, const std::string & alphabet) {
    long total = 1;
    for (int i = 0; i < length; ++i) total *= alphabet.size();
    for (long h = 0; h < total; ++h) {
      std::string p;
      for (long r = h, i = 0; i < length; ++i, r /= alphabet.size()) p += alphabet[r % alphabet.size()];
      for (bool eager : {true, false})
        for (L s : starts)
          if (mc::mine()) explore({p, eager}, s, deviations);
    }
  };
  const bool deep = mc::thorough();
  each(1, deep ? 5 : 4, {I, W, P, E, D, A}, ops);
  each(2, deep ? 4 : 3, {I, W, P, E, D, A}, ops);
  each(3, deep ? 3 : 2, {I, W, D, A}, "ipqecvat");
  each(4, deep ? 2 : 1, {I, W, D}, "ipqecat");
  if (mc::mine()) explore({"ipe", false}, I, deep ? 6 : 5);
  if (mc::mine()) explore({"ipe", true}, I, deep ? 5 : 4);
  if (mc::mine()) explore({"iqeatcqe", true}, I, deep ? 4 : 3);
  if (mc::mine()) explore({"ipecpe", false}, I, deep ? 4 : 3);
  if (mc::mine()) explore({"ipeape", true}, I, deep ? 4 : 3);
}
// the state Autoware is in, from its messages
void states()
{
  rclcpp::stub::sleep_hook() = {};
  rclcpp::stub::Services::get() = {};
  FOA foa(0);
  for (int l = 0; l <= 4; ++l)
    for (int r = 0; r <= 5; ++r)
      for (int m = 0; m <= 5; ++m)
        for (bool control : {false, true})
          for (bool available : {false, true})
            for (std::int64_t age : {0L, 1999999999L, 2000000000L, 2000000001L, 60000000000L}) {
              if (not mc::mine()) continue;
              Loc loc;
              loc.state = l;
              Route route;
              route.state = r;
              rclcpp::stub::now_ns() = 1000 * second;
              route.stamp = rclcpp::Time(rclcpp::stub::now_ns() - age);
              Mode mode;
              mode.mode = m, mode.is_autoware_control_enabled = control, mode.is_autonomous_mode_available = available;
              rclcpp::stub::deliver("/api/localization/initialization_state", loc);
              rclcpp::stub::deliver("/api/routing/state", route);
              rclcpp::stub::deliver("/api/operation_mode/state", mode);
              std::string want = "";
              if (l == Loc::UNKNOWN or r == Route::UNKNOWN or m == Mode::UNKNOWN or l == Loc::UNINITIALIZED or l == Loc::INITIALIZING) want = "INITIALIZING";
              else if (l == Loc::INITIALIZED) {
                if (r == Route::UNSET) want = "WAITING_FOR_ROUTE";
                if (r == Route::ARRIVED) want = age < 2 * second ? "ARRIVED_GOAL" : "WAITING_FOR_ROUTE";
                if ((r == Route::SET or r == Route::CHANGING) and m <= Mode::REMOTE) want = m != Mode::STOP and control ? "DRIVING" : available ? "WAITING_FOR_ENGAGE" : "PLANNING";
              }
              const auto name = cat("localization ", l, " route ", r, " mode ", m, control ? " control" : "", available ? " available" : "", " age ", age);
              const std::string got = foa.getLegacyAutowareState();
              mc::executed();
              mc::state(name);
              mc::outcome(got);
              if (got != want) mc::violation(name, "is '" + got + "' instead of '" + want + "'");
              if (foa.engaged()) mc::violation(name, "engaged although the first request is still to be made");
            }
  for (int s = 0; s <= 8; ++s)
    if (mc::mine() and s >= 1 and s <= 7) {
      autoware_system_msgs::msg::AutowareState m;
      m.state = s;
      const std::string got = LegacyAutowareState(m);
      const char * all[] = {"INITIALIZING", "WAITING_FOR_ROUTE", "PLANNING", "WAITING_FOR_ENGAGE", "DRIVING", "ARRIVED_GOAL", "FINALIZING"};
      mc::executed();
      if (got != all[s - 1]) mc::violation(cat("AutowareState ", s), "is '" + got + "'");
    }
  // minimum risk maneuvers and emergencies
  for (int s = 0; s <= 5; ++s)
    for (int b = 0; b <= 5; ++b) {
      if (not mc::mine()) continue;
      const char * ss[] = {"UNKNOWN", "NORMAL", "MRM_OPERATING", "MRM_SUCCEEDED", "MRM_FAILED"};
      const char * bs[] = {"UNKNOWN", "NONE", "EMERGENCY_STOP", "COMFORTABLE_STOP", "PULL_OVER"};
      Mrm m;
      m.state = s, m.behavior = b;
      FOA one(0);
      rclcpp::stub::spin_hook() = [&] { rclcpp::stub::deliver("/api/fail_safe/mrm_state", m); };
      bool threw = false;
      try { one.spinSome(); } catch (const common::Error &) { threw = true; }
      const auto name = cat("MrmState ", s, " ", b);
      mc::executed();
      if (threw != (s > 4 or b > 4)) mc::violation(name, threw ? "was refused" : "was accepted");
      else if (not threw and (one.minimum_risk_maneuver_state != ss[s] or one.minimum_risk_maneuver_behavior != bs[b])) mc::violation(name, "is " + one.minimum_risk_maneuver_state + " " + one.minimum_risk_maneuver_behavior);
    }
  for (bool emergency : {false, true}) {
    if (not mc::mine()) continue;
    FOA one(0);
    rclcpp::stub::spin_hook() = [&] { tier4_external_api_msgs::msg::Emergency m; m.emergency = emergency; rclcpp::stub::deliver("/api/external/get/emergency", m); };
    bool threw = false;
    try { one.spinSome(); } catch (const common::Error &) { threw = true; }
    mc::executed();
    if (threw != emergency) mc::violation(cat("emergency ", emergency), threw ? "ended the scenario" : "was ignored");
  }
  rclcpp::stub::spin_hook() = {};
}
// cooperation: each request of Autoware is answered at most once, and only if it is the one meant
void cooperation()
{
  using Status = tier4_rtc_msgs::msg::CooperateStatus;
  using Module = tier4_rtc_msgs::msg::Module;
  static int serial = 0;  // what has been answered is remembered for the whole process
  const std::vector<std::array<double, 3>> kinds{{Module::INTERSECTION, 0, 5}, {Module::INTERSECTION, 1, 5}, {Module::INTERSECTION, 0, -20}, {Module::INTERSECTION, 0, -20.5}, {Module::CROSSWALK, 0, 5}};
  const std::vector<std::pair<std::string, std::string>> commands{{"INTERSECTION", "ACTIVATE"}, {"INTERSECTION", "DEACTIVATE"}, {"CROSSWALK", "ACTIVATE"}};
  // statuses in the array: every sequence of kinds up to three; commands: every sequence up to three; the array is republished with the commands' effects or not
  for (int n = 0; n <= 3; ++n)
    for (int h = 0, total = n == 0 ? 1 : n == 1 ? 5 : n == 2 ? 25 : 125; h < total; ++h)
      for (int q = 0; q < 27; ++q)
        for (bool republish : {false, true}) {
          if (not mc::mine()) continue;
          std::vector<Status> now;
          for (int i = 0, r = h; i < n; ++i, r /= 5) {
            Status s;
            s.uuid.fill(0);
            s.uuid[0] = i + 1, s.uuid[1] = serial & 255, s.uuid[2] = serial >> 8 & 255, s.uuid[3] = serial >> 16;
            s.module.type = kinds[r % 5][0];
            s.command_status.type = kinds[r % 5][1];
            s.finish_distance = kinds[r % 5][2];
            s.start_distance = -s.finish_distance;
            now.push_back(s);
          }
          ++serial;
          const auto name = cat("statuses ", n, ":", h, " commands ", q, republish ? " republished" : "");
          mc::current(name);
          std::vector<std::string> sent;
          rclcpp::stub::Services::get().answer = [&](const std::string & service, const std::any & request, std::any & response, std::chrono::nanoseconds) {
            if (service == "/api/external/set/rtc_commands") sent.push_back(Autoware::content(request));
            Autoware::mark(response, true);
            return true;
          };
          FOA foa(0);
          auto publish = [&] {
            tier4_rtc_msgs::msg::CooperateStatusArray a;
            a.stamp.sec = 7;
            a.statuses = now;
            rclcpp::stub::deliver("/api/external/get/rtc_status", a);
          };
          publish();
          std::vector<Status> used;
          std::string trace;
          for (int i = 0, r = q; i < 3; ++i, r /= 3) {
            const auto & [module, command] = commands[r % 3];
            const int type = module[0] == 'I' ? Module::INTERSECTION : Module::CROSSWALK, to = command[0] == 'A';
            Status * hit = nullptr;
            for (auto & s : now)
              if (not hit and s.module.type == type and s.command_status.type != to and s.finish_distance >= -20 and not std::count_if(used.begin(), used.end(), [&](auto & u) { return u.uuid == s.uuid and u.command_status.type == s.command_status.type; })) hit = &s;
            bool threw = false;
            sent.clear();
            try {
              foa.sendCooperateCommand(module, command);
            } catch (const common::Error &) {
              threw = true;
            }
            auto & queue = *concealer::TaskQueue::current();
            for (; not queue.thunks.empty(); queue.thunks.pop_front()) queue.thunks.front()();
            mc::executed();
            const auto want = hit ? cat("7 ", type, ":", int(hit->uuid[0]), ":", to) : std::string();
            const auto got = sent.empty() ? std::string() : sent[0];
            trace += got + ";";
            if (threw != not hit or got != want or sent.size() > 1) {
              mc::violation(name, cat("command ", i, " ", module, " ", command, threw ? " was refused" : " sent '" + got + "'", " instead of ", hit ? "'" + want + "'" : "being refused"));
              break;
            }
            if (hit) {
              used.push_back(*hit);
              if (republish) hit->command_status.type = to, publish();
            }
          }
          mc::state(cat(n, h, republish, trace));
        }
  // an answer that is not success throughout is none: the request is repeated until it is, at most so many times
  for (int refusals = 0; refusals <= 32; ++refusals) {
    if (not mc::mine()) continue;
    int asked = 0;
    rclcpp::stub::Services::get().answer = [&](const std::string & service, const std::any &, std::any & response, std::chrono::nanoseconds) {
      Autoware::mark(response, service != "/api/external/set/rtc_commands" or asked++ >= refusals);
      return true;
    };
    FOA foa(0);
    tier4_rtc_msgs::msg::CooperateStatusArray a;
    a.statuses.resize(1);
    a.statuses[0].uuid.fill(200), a.statuses[0].uuid[0] = refusals;
    a.statuses[0].module.type = Module::INTERSECTION, a.statuses[0].finish_distance = 1;
    rclcpp::stub::deliver("/api/external/get/rtc_status", a);
    bool failed = false;
    try {
      foa.sendCooperateCommand("INTERSECTION", "ACTIVATE");
      auto & queue = *concealer::TaskQueue::current();
      for (; not queue.thunks.empty(); queue.thunks.pop_front()) queue.thunks.front()();
    } catch (const common::Error &) {
      failed = true;
    }
    mc::executed();
    if (failed ? asked <= refusals and refusals < 30 : asked != refusals + 1)
      mc::violation(cat("cooperation refused in part ", refusals, " times"), cat("asked ", asked, " times and ", failed ? "failed" : "took it for success"));
  }
  rclcpp::stub::Services::get() = {};
  FOA foa(0);
  auto refused = [&](const std::string & what, auto f) {
    if (not mc::mine()) return;
    mc::executed();
    try {
      f();
      auto & queue = *concealer::TaskQueue::current();
      for (; not queue.thunks.empty(); queue.thunks.pop_front()) queue.thunks.front()();
    } catch (const common::Error &) {
      return;
    }
    mc::violation(what, "was accepted");
  };
  rclcpp::stub::Services::get().answer = [&](const std::string &, const std::any &, std::any & response, std::chrono::nanoseconds) { return Autoware::mark(response, true), true; };
  refused("command activate", [&] { foa.sendCooperateCommand("INTERSECTION", "activate"); });
  refused("module intersection", [&] { foa.sendCooperateCommand("intersection", "ACTIVATE"); });
  refused("automatic mode of module X", [&] { foa.requestAutoModeForCooperation("X", true); });
  ament_index_cpp::package_exists() = +[](const std::string & n) { return n == "rtc_auto_mode_manager"; };
  refused("automatic mode besides rtc_auto_mode_manager", [&] { foa.requestAutoModeForCooperation("INTERSECTION", true); });
  ament_index_cpp::package_exists() = nullptr;
  const std::vector<std::pair<std::string, int>> modules{{"NONE", Module::NONE}, {"LANE_CHANGE_LEFT", Module::LANE_CHANGE_LEFT}, {"LANE_CHANGE_RIGHT", Module::LANE_CHANGE_RIGHT}, {"AVOIDANCE_LEFT", Module::AVOIDANCE_LEFT}, {"AVOIDANCE_RIGHT", Module::AVOIDANCE_RIGHT}, {"GOAL_PLANNER", Module::GOAL_PLANNER}, {"START_PLANNER", Module::START_PLANNER}, {"TRAFFIC_LIGHT", Module::TRAFFIC_LIGHT}, {"INTERSECTION", Module::INTERSECTION}, {"CROSSWALK", Module::CROSSWALK}, {"BLIND_SPOT", Module::BLIND_SPOT}, {"DETECTION_AREA", Module::DETECTION_AREA}, {"NO_STOPPING_AREA", Module::NO_STOPPING_AREA}, {"OCCLUSION_SPOT", Module::OCCLUSION_SPOT}, {"EXT_REQUEST_LANE_CHANGE_LEFT", Module::EXT_REQUEST_LANE_CHANGE_LEFT}, {"EXT_REQUEST_LANE_CHANGE_RIGHT", Module::EXT_REQUEST_LANE_CHANGE_RIGHT}, {"NO_DRIVABLE_LANE", Module::NO_DRIVABLE_LANE}};
  for (auto & [n, type] : modules)
    for (bool on : {false, true}) {
      if (not mc::mine()) continue;
      std::vector<std::string> sent;
      rclcpp::stub::Services::get().answer = [&](const std::string & service, const std::any & request, std::any & response, std::chrono::nanoseconds) {
        if (service == "/api/external/set/rtc_auto_mode") sent.push_back(Autoware::content(request));
        return Autoware::mark(response, true), true;
      };
      FOA one(0);
      one.requestAutoModeForCooperation(n, on);
      auto & queue = *concealer::TaskQueue::current();
      for (; not queue.thunks.empty(); queue.thunks.pop_front()) queue.thunks.front()();
      mc::executed();
      if (sent != std::vector<std::string>{cat(type, on ? " on" : " off")}) mc::violation("automatic mode of " + n, cat("asked ", sent.size(), " times, first for ", sent.empty() ? "" : sent[0]));
    }
  rclcpp::stub::Services::get() = {};
}
// the process of Autoware
void process()
{
  enum { ALIVE, GONE, EXITED, EXITED0, SIGNALLED };
  for (int when = 0; when < 4; ++when)
    for (int how : {ALIVE, GONE, EXITED, EXITED0, SIGNALLED})
      for (int response = 0; response < 4; ++response) {  // to the interrupt: ends, ends late, wait interrupted, invalid
        if (not mc::mine()) continue;
        const auto name = cat("process ends ", how, " at spin ", when, " response ", response);
        mc::current(name);
        processes = {};
        int spins = 0, reaped = 0;
        processes.wait = [&](pid_t p, int * status, int options) -> int {
          if (options & WNOHANG) {
            if (spins++ < when or how == ALIVE) return 0;
            if (how == GONE) return errno = ECHILD, -1;
            *status = how == EXITED ? 3 << 8 : how == SIGNALLED ? SIGSEGV : 0;
            ++reaped;
            return p;
          }
          *status = 0;
          ++reaped;
          return p;
        };
        processes.timed = [&]() -> int { return response == 0 ? SIGCHLD : (errno = response == 1 ? EAGAIN : response == 2 ? EINTR : EINVAL, -1); };
        std::string thrown;
        bool again = false;
        {
          FOA foa(12345);
          for (int i = 0; i < 5 and thrown.empty(); ++i) try {
              foa.spinSome();
              if (i >= when and how != ALIVE) mc::violation(name, "the end of the process went unnoticed");
            } catch (const common::AutowareError & e) {
              thrown = e.what();
            }
          processes.log.clear();
          try { foa.spinSome(); } catch (...) { again = true; }
          if (how != ALIVE and not processes.log.empty()) mc::violation(name, "the ended process was waited for again");
          processes.log.clear();
        }
        mc::executed();
        std::string log;
        for (auto & l : processes.log) log += l + "; ";
        mc::state(name);
        mc::outcome(log + thrown);
        if ((how == ALIVE) != thrown.empty()) mc::violation(name, "reported '" + thrown + "'");
        if (how == EXITED and thrown.find("3") == std::string::npos) mc::violation(name, "the exit code is missing: " + thrown);
        if (how == SIGNALLED and thrown.find(std::to_string(SIGSEGV)) == std::string::npos) mc::violation(name, "the signal is missing: " + thrown);
        if (again) mc::violation(name, "reported twice");
        const auto want = how != ALIVE ? "" : cat("kill 12345 ", SIGINT, "; sigtimedwait 1 4; ", response == 1 ? cat("killpg 12345 ", SIGKILL, "; ") : "", "waitpid 12345; ");
        if (log != want) mc::violation(name, "at the end: " + log + "instead of: " + want);
      }
}
void all()
{
  mc::st().rule = "every program of operations up to the length from every state, against every behaviour of Autoware within the deviations; every combination of state messages; every history of cooperation; every end of the process";
  programs();
  states();
  cooperation();
  process();
}
}  // namespace
int main(int argc, char ** argv)
{
  rclcpp::stub::overrides()["initialize_duration"] = std::int64_t(10);
  rclcpp::stub::overrides()["initialize_localization"] = std::int64_t(5);
  rclcpp::stub::overrides()["sigterm_timeout"] = std::int64_t(4);
  rclcpp::stub::overrides()["architecture_type"] = std::string("awf/universe/20240605");
  return mc::run(argc, argv, all);
}
