#include "sched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <map>
#include <set>
#include <unordered_map>

#define NOINST __attribute__((no_sanitize("thread")))

namespace
{
constexpr int MAX = 10;
struct VC
{
  std::uint32_t c[MAX] = {0};
  void join(const VC & o)
  {
    for (int i = 0; i < MAX; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
enum Status { RUNNABLE, ON_MUTEX, ON_COND, ON_JOIN, SLEEPING, DONE };
struct Thread
{
  int id = 0;
  pthread_t handle{};
  Status status = RUNNABLE;
  const void * on = nullptr;
  int join_target = -1;
  std::uint64_t wake = 0;
  bool timed = false, timed_out = false;
  void * (*fn)(void *) = nullptr;
  void * arg = nullptr;
  VC vc;
  volatile int go = 0;
  std::string what;
};
struct Access
{
  std::uint32_t w_clock = 0;
  int w_tid = -1;
  std::uint32_t r[MAX] = {0};
};
struct World
{
  std::vector<Thread *> threads;
  std::map<const void *, int> owner;
  std::map<const void *, VC> mutex_vc, atomic_vc;
  std::map<const void *, std::vector<int>> cond_waiters;
  std::unordered_map<std::uintptr_t, Access> shadow;
  std::set<std::string> races;
  std::vector<int> prefix;
  sched::Result res;
  std::uint64_t now = 1'000'000'000'000ull, horizon = 5000;
  bool dead = false;
};
World * W = nullptr;
volatile bool g_active = false;
bool g_abandoned = false;
thread_local int self = -1;
thread_local int inside = 0;

struct Guard
{
  NOINST Guard() { ++inside; }
  NOINST ~Guard() { --inside; }
};

int futex(volatile int * p, int op, int v)
{
  return syscall(SYS_futex, p, op, v, nullptr, nullptr, 0);
}
void park(Thread * t)
{
  while (not __atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
void unpark(Thread * t)
{
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}
void park_forever()
{
  for (;;) pause();
}

bool enabled(Thread * t)
{
  switch (t->status) {
    case RUNNABLE: return true;
    case ON_MUTEX: return W->owner.find(t->on) == W->owner.end();
    case ON_JOIN: return W->threads[t->join_target]->status == DONE;
    default: return false;
  }
}
bool sleeper(Thread * t) { return t->status == SLEEPING or (t->status == ON_COND and t->timed); }

bool g_finished_early = false;
// the execution cannot go on: hand control back to the thread that called run()
void give_up()
{
  W->dead = true;
  g_abandoned = true;
  W->res.blocked.clear();
  for (auto t : W->threads)
    if (t->status != DONE) {
      static const char * n[] = {"runnable", "waits for mutex", "waits on condition", "joins", "sleeps", "done"};
      W->res.blocked += "thread " + std::to_string(t->id) + " " + n[t->status] +
                        (t->status == ON_JOIN ? " thread " + std::to_string(t->join_target) : "") +
                        (t->what.empty() ? "" : " (in " + t->what + ")") + "; ";
    }
}
[[noreturn]] void escape();

// Picks who runs next. Options in canonical order: the caller when still enabled, then other enabled threads
// by id, then sleepers by wake time (their timer may expire before the others have finished).
void schedule(bool yielding = false)
{
  Thread * me = W->threads[self];
  if (++W->res.steps > W->horizon) {
    W->res.horizon = true;
    give_up();
    escape();
  }
  std::vector<Thread *> opt;
  std::vector<int> cost;
  bool me_enabled = enabled(me);
  if (me_enabled) opt.push_back(me), cost.push_back(0);
  for (auto t : W->threads)
    if (t != me and enabled(t)) opt.push_back(t), cost.push_back(me_enabled ? 1 : 0);
  std::size_t n = opt.size();
  std::vector<Thread *> sl;
  for (auto t : W->threads)
    if (sleeper(t)) sl.push_back(t);
  for (std::size_t i = 0; i < sl.size(); ++i)
    for (std::size_t j = i + 1; j < sl.size(); ++j)
      if (sl[j]->wake < sl[i]->wake) std::swap(sl[i], sl[j]);
  for (std::size_t i = 0; i < sl.size(); ++i) opt.push_back(sl[i]), cost.push_back(n or i ? 1 : 0);
  (void)yielding;
  if (opt.empty()) {
    W->res.deadlock = true;
    give_up();
    escape();
  }
  int pick = 0;
  if (opt.size() > 1) {
    std::size_t k = W->res.choices.size();
    if (k < W->prefix.size()) {
      pick = W->prefix[k];
      if (pick >= static_cast<int>(opt.size())) {
        W->res.diverged = true;
        give_up();
        escape();
      }
    }
    W->res.choices.push_back(pick);
    W->res.widths.push_back(opt.size());
    int c = 0;  // cost of the pick, and of the alternatives (bit mask)
    for (std::size_t i = 0; i < opt.size(); ++i)
      if (cost[i]) c |= 1 << i;
    W->res.costs.push_back(c);
    if (pick) W->res.log += "@" + std::to_string(k) + "->T" + std::to_string(opt[pick]->id) + "(" + me->what + ") ";
  }
  Thread * t = opt[pick];
  if (sleeper(t)) {
    if (t->wake > W->now) W->now = t->wake;
    if (t->status == ON_COND) {
      auto & v = W->cond_waiters[t->on];
      for (auto i = v.begin(); i != v.end(); ++i)
        if (*i == t->id) {
          v.erase(i);
          break;
        }
      t->timed_out = true;
    }
    t->status = RUNNABLE;
  }
  if (t->status == ON_JOIN) t->status = RUNNABLE;
  if (t->status == ON_MUTEX) t->status = RUNNABLE;
  if (t != me) {
    unpark(t);
    if (me->status == DONE) return;
    park(me);
  }
}
int g_main_done = 0;
void escape()
{
  // control returns to the controller, which waits on g_main_done
  __atomic_store_n(&g_main_done, 1, __ATOMIC_RELEASE);
  futex(&g_main_done, FUTEX_WAKE_PRIVATE, 8);
  park_forever();
  abort();
}

bool on() { return g_active and self >= 0 and not inside; }

void lock_mutex(const void * m, const char * what)
{
  Guard g;
  Thread * me = W->threads[self];
  me->what = what;
  schedule();
  while (W->owner.count(m)) {
    me->status = ON_MUTEX;
    me->on = m;
    schedule();
  }
  W->owner[m] = self;
  me->vc.join(W->mutex_vc[m]);
}
void unlock_mutex(const void * m, const char * what, bool point = true)
{
  Guard g;
  Thread * me = W->threads[self];
  W->mutex_vc[m] = me->vc;
  ++me->vc.c[self];
  W->owner.erase(m);
  me->what = what;
  if (point) schedule();
}

void race(const void * p, const char * a, const char * b, int t1, int t2)
{
  char where[200] = "memory";
  Dl_info i{};
  if (dladdr(const_cast<void *>(p), &i) and i.dli_sname) snprintf(where, sizeof where, "%s", i.dli_sname);
  W->races.insert(std::string(a) + " by thread " + std::to_string(t1) + " and " + b + " by thread " +
                  std::to_string(t2) + " of " + where + " are not ordered");
}
void access(const void * p, std::size_t n, bool write)
{
  if (not on()) return;
  Guard g;
  Thread * me = W->threads[self];
  auto a = reinterpret_cast<std::uintptr_t>(p);
  for (std::size_t i = 0; i < n; ++i) {
    Access & s = W->shadow[a + i];
    if (s.w_tid >= 0 and s.w_tid != self and s.w_clock > me->vc.c[s.w_tid])
      race(p, "write", write ? "write" : "read", s.w_tid, self);
    if (write) {
      for (int t = 0; t < MAX; ++t)
        if (t != self and s.r[t] > me->vc.c[t]) race(p, "read", "write", t, self);
      s.w_tid = self;
      s.w_clock = me->vc.c[self];
    } else
      s.r[self] = me->vc.c[self];
  }
}
void atomic_point(const char * what)
{
  if (not on()) return;
  Guard g;
  W->threads[self]->what = what;
  schedule();
}
void acquire(const volatile void * p, int mo)
{
  if (not on() or mo == __ATOMIC_RELAXED) return;
  Guard g;
  auto i = W->atomic_vc.find(const_cast<const void *>(p));
  if (i != W->atomic_vc.end()) W->threads[self]->vc.join(i->second);
}
void release(const volatile void * p, int mo, bool rmw)
{
  if (not on()) return;
  Guard g;
  auto & v = W->atomic_vc[const_cast<const void *>(p)];
  if (mo == __ATOMIC_RELAXED or mo == __ATOMIC_ACQUIRE or mo == __ATOMIC_CONSUME) {
    if (not rmw) v = VC();
    return;
  }
  if (rmw)
    v.join(W->threads[self]->vc);
  else
    v = W->threads[self]->vc;
  ++W->threads[self]->vc.c[self];
}

template <typename F>
F real(const char * n)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
#define REAL(name) \
  static auto f = real<decltype(&name)>(#name)

void * trampoline(void * p)
{
  Thread * t = static_cast<Thread *>(p);
  self = t->id;
  park(t);
  void * r = t->fn(t->arg);
  {
    Guard g;
    t->status = DONE;
    t->what = "exit";
    schedule();
  }
  self = -1;
  return r;
}
}  // namespace

extern "C" {
int pthread_create(pthread_t * h, const pthread_attr_t * a, void * (*fn)(void *), void * arg)
{
  REAL(pthread_create);
  if (not on()) return f(h, a, fn, arg);
  Thread * t;
  {
    Guard g;
    t = new Thread;
    t->id = W->threads.size();
    if (t->id >= MAX) abort();
    t->fn = fn;
    t->arg = arg;
    t->vc = W->threads[self]->vc;
    t->vc.c[t->id] = 1;
    ++W->threads[self]->vc.c[self];
    W->threads.push_back(t);
    int r = f(&t->handle, a, trampoline, t);
    if (r) abort();
    *h = t->handle;
    W->threads[self]->what = "pthread_create";
    schedule();
  }
  return 0;
}
int pthread_join(pthread_t h, void ** ret)
{
  REAL(pthread_join);
  if (not on()) return f(h, ret);
  {
    Guard g;
    int target = -1;
    for (auto t : W->threads)
      if (pthread_equal(t->handle, h) and t->id != 0) target = t->id;
    if (target >= 0) {
      Thread * me = W->threads[self];
      me->what = "join";
      me->join_target = target;
      me->status = ON_JOIN;
      schedule();
      me->vc.join(W->threads[target]->vc);
    }
  }
  Guard g;
  return f(h, ret);
}
int pthread_mutex_lock(pthread_mutex_t * m)
{
  REAL(pthread_mutex_lock);
  if (not on()) return f(m);
  lock_mutex(m, "lock");
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m)
{
  REAL(pthread_mutex_trylock);
  if (not on()) return f(m);
  Guard g;
  Thread * me = W->threads[self];
  me->what = "trylock";
  schedule();
  if (W->owner.count(m)) return EBUSY;
  W->owner[m] = self;
  me->vc.join(W->mutex_vc[m]);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  REAL(pthread_mutex_unlock);
  if (not on()) return f(m);
  unlock_mutex(m, "unlock");
  return 0;
}
static int cond_wait(pthread_cond_t * c, pthread_mutex_t * m, bool timed, std::uint64_t wake)
{
  Guard g;
  Thread * me = W->threads[self];
  W->mutex_vc[m] = me->vc;
  ++me->vc.c[self];
  W->owner.erase(m);
  me->what = "cond_wait";
  me->status = ON_COND;
  me->on = c;
  me->timed = timed;
  me->timed_out = false;
  me->wake = wake;
  W->cond_waiters[c].push_back(self);
  schedule();
  bool to = me->timed_out;
  while (W->owner.count(m)) {
    me->status = ON_MUTEX;
    me->on = m;
    schedule();
  }
  W->owner[m] = self;
  me->vc.join(W->mutex_vc[m]);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  REAL(pthread_cond_wait);
  if (not on()) return f(c, m);
  return cond_wait(c, m, false, 0);
}
static std::uint64_t ns(const struct timespec * t) { return t->tv_sec * 1000000000ull + t->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t)
{
  REAL(pthread_cond_timedwait);
  if (not on()) return f(c, m, t);
  return cond_wait(c, m, true, ns(t));
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t)
{
  REAL(pthread_cond_clockwait);
  if (not on()) return f(c, m, k, t);
  return cond_wait(c, m, true, ns(t));
}
static void wake_cond(pthread_cond_t * c, bool all)
{
  Guard g;
  W->threads[self]->what = "notify";
  auto & v = W->cond_waiters[c];
  while (not v.empty()) {
    Thread * t = W->threads[v.front()];
    v.erase(v.begin());
    t->status = RUNNABLE;
    if (not all) break;
  }
  schedule();
}
int pthread_cond_signal(pthread_cond_t * c)
{
  REAL(pthread_cond_signal);
  if (not on()) return f(c);
  wake_cond(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c)
{
  REAL(pthread_cond_broadcast);
  if (not on()) return f(c);
  wake_cond(c, true);
  return 0;
}
static void do_sleep(std::uint64_t d)
{
  Guard g;
  Thread * me = W->threads[self];
  me->what = "sleep";
  me->status = SLEEPING;
  me->wake = W->now + d;
  schedule();
}
int nanosleep(const struct timespec * t, struct timespec * r)
{
  REAL(nanosleep);
  if (not on()) return f(t, r);
  do_sleep(ns(t));
  return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec * t, struct timespec * r)
{
  REAL(clock_nanosleep);
  if (not on()) return f(k, flags, t, r);
  std::uint64_t v = ns(t);
  do_sleep(flags ? (v > W->now ? v - W->now : 0) : v);
  return 0;
}
int sched_yield()
{
  REAL(sched_yield);
  if (not on()) return f();
  do_sleep(0);
  return 0;
}
int usleep(useconds_t u)
{
  REAL(usleep);
  if (not on()) return f(u);
  do_sleep(u * 1000ull);
  return 0;
}
int clock_gettime(clockid_t k, struct timespec * t)
{
  REAL(clock_gettime);
  if (not on()) return f(k, t);
  t->tv_sec = W->now / 1000000000ull;
  t->tv_nsec = W->now % 1000000000ull;
  return 0;
}
extern void __libc_free(void *);
void free(void * p)
{
  if (p and g_active and self >= 0 and not inside and not W->shadow.empty()) {
    Guard g;
    std::size_t n = malloc_usable_size(p);
    auto a = reinterpret_cast<std::uintptr_t>(p);
    if (n < 65536)
      for (std::size_t i = 0; i < n; ++i) W->shadow.erase(a + i);
  }
  __libc_free(p);
}
int __cxa_guard_acquire(long long int * g)
{
  if (__atomic_load_n(reinterpret_cast<char *>(g), __ATOMIC_ACQUIRE)) {
    acquire(g, __ATOMIC_ACQUIRE);
    return 0;
  }
  if (on()) {
    lock_mutex(g, "static guard");
    if (__atomic_load_n(reinterpret_cast<char *>(g), __ATOMIC_ACQUIRE)) {
      unlock_mutex(g, "static guard", false);
      return 0;
    }
  }
  return 1;
}
void __cxa_guard_release(long long int * g)
{
  release(g, __ATOMIC_RELEASE, false);
  __atomic_store_n(reinterpret_cast<char *>(g), 1, __ATOMIC_RELEASE);
  if (on()) unlock_mutex(g, "static guard", false);
}
void __cxa_guard_abort(long long int * g)
{
  if (on()) unlock_mutex(g, "static guard", false);
}

// ---- compiler callbacks (-fsanitize=thread without its runtime)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                        \
  void __tsan_read##n(void * p) { access(p, n, false); }             \
  void __tsan_write##n(void * p) { access(p, n, true); }             \
  void __tsan_unaligned_read##n(void * p) { access(p, n, false); }   \
  void __tsan_unaligned_write##n(void * p) { access(p, n, true); }   \
  void __tsan_volatile_read##n(void * p) { access(p, n, false); }    \
  void __tsan_volatile_write##n(void * p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void * p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void ** p, void *) { access(p, sizeof(void *), true); }
void __tsan_vptr_read(void ** p) { access(p, sizeof(void *), false); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T)                                                                         \
  T __tsan_atomic##bits##_load(const volatile T * p, int mo)                                \
  {                                                                                         \
    atomic_point("atomic load");                                                            \
    acquire(p, mo);                                                                         \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                            \
  }                                                                                         \
  void __tsan_atomic##bits##_store(volatile T * p, T v, int mo)                             \
  {                                                                                         \
    atomic_point("atomic store");                                                           \
    release(p, mo, false);                                                                  \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                               \
  }                                                                                         \
  T __tsan_atomic##bits##_exchange(volatile T * p, T v, int mo)                             \
  {                                                                                         \
    atomic_point("atomic exchange");                                                        \
    acquire(p, mo);                                                                         \
    release(p, mo, true);                                                                   \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                     \
  }                                                                                         \
  T __tsan_atomic##bits##_fetch_add(volatile T * p, T v, int mo)                            \
  {                                                                                         \
    atomic_point("atomic add");                                                             \
    acquire(p, mo);                                                                         \
    release(p, mo, true);                                                                   \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                      \
  }                                                                                         \
  T __tsan_atomic##bits##_fetch_sub(volatile T * p, T v, int mo)                            \
  {                                                                                         \
    atomic_point("atomic sub");                                                             \
    acquire(p, mo);                                                                         \
    release(p, mo, true);                                                                   \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                      \
  }                                                                                         \
  T __tsan_atomic##bits##_fetch_and(volatile T * p, T v, int mo)                            \
  {                                                                                         \
    atomic_point("atomic and");                                                             \
    acquire(p, mo);                                                                         \
    release(p, mo, true);                                                                   \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                      \
  }                                                                                         \
  T __tsan_atomic##bits##_fetch_or(volatile T * p, T v, int mo)                             \
  {                                                                                         \
    atomic_point("atomic or");                                                              \
    acquire(p, mo);                                                                         \
    release(p, mo, true);                                                                   \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                       \
  }                                                                                         \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T * p, T * e, T v, int mo, int) \
  {                                                                                         \
    atomic_point("atomic cas");                                                             \
    acquire(p, mo);                                                                         \
    bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) release(p, mo, true);                                                           \
    return ok;                                                                              \
  }                                                                                         \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T * p, T * e, T v, int mo, int f) \
  {                                                                                         \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, f);                   \
  }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
}

namespace sched
{
Quiet::Quiet() { ++inside; }
Quiet::~Quiet() { --inside; }
bool abandoned() { return g_abandoned; }
bool active() { return on(); }
void point(const char * what) { atomic_point(what); }
void note(const std::string & s)
{
  if (self < 0 or not g_active) return;
  Guard g;
  W->res.log += "[" + s + "] ";
}
std::uint64_t now_ns() { return W ? W->now : 0; }

static const std::function<void()> * g_body;
static void * main_thread(void *)
{
  self = 0;
  (*g_body)();
  {
    Guard g;
    Thread * me = W->threads[0];
    me->status = DONE;
    // threads that are still there (detached) are not waited for: the harness joins what it starts
  }
  self = -1;
  __atomic_store_n(&g_main_done, 1, __ATOMIC_RELEASE);
  futex(&g_main_done, FUTEX_WAKE_PRIVATE, 8);
  return nullptr;
}
Result run(const std::function<void()> & body, const std::vector<int> & prefix, std::uint64_t horizon)
{
  static auto create = real<decltype(&pthread_create)>("pthread_create");
  static auto join = real<decltype(&pthread_join)>("pthread_join");
  delete W;
  W = new World;
  W->prefix = prefix;
  W->horizon = horizon;
  Thread * t = new Thread;
  t->vc.c[0] = 1;
  W->threads.push_back(t);
  g_body = &body;
  g_main_done = 0;
  g_active = true;
  create(&t->handle, nullptr, main_thread, nullptr);
  while (not __atomic_load_n(&g_main_done, __ATOMIC_ACQUIRE)) futex(&g_main_done, FUTEX_WAIT_PRIVATE, 0);
  g_active = false;
  if (not W->dead) {
    join(t->handle, nullptr);
    for (auto x : W->threads) delete x;
    W->threads.clear();
  }
  W->res.races.assign(W->races.begin(), W->races.end());
  return W->res;
}
Stats explore(
  const std::function<void()> & reset, const std::function<void()> & body, const Options & o,
  const std::function<bool(const Result &)> & on_execution)
{
  Stats s;
  struct Item
  {
    std::vector<int> prefix;
    int deviations;
  };
  std::vector<Item> stack{{{}, 0}};
  while (not stack.empty()) {
    Item it = stack.back();
    stack.pop_back();
    reset();
    Result r = run(body, it.prefix, o.horizon);
    ++s.executions;
    s.steps += r.steps;
    s.decisions += r.choices.size();
    if (r.diverged) {
      fprintf(stderr, "mc: divergence in a schedule prefix\n");
      _exit(3);
    }
    if (not on_execution(r)) return s;
    if (g_abandoned) return s;
    // alternatives at every decision after the prefix
    int dev = it.deviations;
    std::vector<Item> more;
    for (std::size_t i = it.prefix.size(); i < r.choices.size(); ++i) {
      for (int a = 1; a < r.widths[i]; ++a) {
        int d = dev + ((r.costs[i] >> a) & 1);
        if (d > o.bound) continue;
        Item n{std::vector<int>(r.choices.begin(), r.choices.begin() + i), d};
        n.prefix.push_back(a);
        more.push_back(std::move(n));
      }
      // the default decision here may itself cost (never: option 0 is free)
    }
    for (auto i = more.rbegin(); i != more.rend(); ++i) stack.push_back(std::move(*i));
  }
  return s;
}
}  // namespace sched
