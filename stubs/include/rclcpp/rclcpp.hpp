// Minimal single-process stand-in for rclcpp (ROS 2 is not installed in this sandbox).
#pragma once
#include <any>
#include <builtin_interfaces/msg/duration.hpp>
#include <builtin_interfaces/msg/time.hpp>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#if __has_include(<rcl_interfaces/srv/list_parameters.hpp>)
#include <rcl_interfaces/srv/list_parameters.hpp>
#endif

struct rmw_qos_profile_t {};
inline const rmw_qos_profile_t rmw_qos_profile_services_default{};
enum rcl_clock_type_e { RCL_ROS_TIME = 1, RCL_SYSTEM_TIME = 2, RCL_STEADY_TIME = 3 };
using rcl_clock_type_t = rcl_clock_type_e;

namespace rclcpp
{
namespace stub
{
inline std::int64_t & now_ns() { static std::int64_t t = 0; return t; }
inline std::ostream *& log() { static std::ostream * os = nullptr; return os; }
inline std::map<std::string, std::variant<bool, std::int64_t, double, std::string, std::vector<std::string>, std::vector<double>>> & overrides()
{
  static std::map<std::string, std::variant<bool, std::int64_t, double, std::string, std::vector<std::string>, std::vector<double>>> m;
  return m;
}
struct Bus  // every publish is handed to this hook, if set
{
  static std::function<void(const std::string &, const std::any &)> & hook()
  {
    static std::function<void(const std::string &, const std::any &)> f;
    return f;
  }
};
inline std::multimap<std::string, std::weak_ptr<std::function<void(const std::any &)>>> & subscribers()
{
  static std::multimap<std::string, std::weak_ptr<std::function<void(const std::any &)>>> m;
  return m;
}
inline void deliver(const std::string & topic, const std::any & message)
{
  const auto [b, e] = subscribers().equal_range(topic);
  std::vector<std::shared_ptr<std::function<void(const std::any &)>>> all;
  for (auto i = b; i != e; ++i)
    if (auto f = i->second.lock()) all.push_back(f);
  for (auto & f : all) (*f)(message);
}
inline std::function<void(std::chrono::nanoseconds)> & sleep_hook() { static std::function<void(std::chrono::nanoseconds)> f; return f; }
inline std::function<void()> & spin_hook() { static std::function<void()> f; return f; }
inline std::map<std::string, std::function<void(const std::any &, std::any &)>> & servers()
{
  static std::map<std::string, std::function<void(const std::any &, std::any &)>> m;
  return m;
}
struct Services  // who answers the requests of clients
{
  std::function<bool(const std::string &)> ready;
  std::function<bool(const std::string &, const std::any &, std::any &, std::chrono::nanoseconds)> answer;  // request, response, how long the client waits
  static Services & get() { static Services s; return s; }
};
}  // namespace stub

class Duration
{
public:
  std::int64_t ns = 0;
  Duration() = default;
  Duration(std::int32_t s, std::uint32_t n) : ns(std::int64_t(s) * 1000000000 + n) {}
  explicit Duration(std::int64_t n) : ns(n) {}
  template <class R, class P> Duration(std::chrono::duration<R, P> d) : ns(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  Duration(const builtin_interfaces::msg::Duration & d) : ns(std::int64_t(d.sec) * 1000000000 + d.nanosec) {}
  static Duration from_seconds(double s) { return Duration(static_cast<std::int64_t>(std::llround(s * 1e9))); }
  static Duration from_nanoseconds(std::int64_t n) { return Duration(n); }
  double seconds() const { return ns * 1e-9; }
  std::int64_t nanoseconds() const { return ns; }
  template <class D> D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns)); }
  operator builtin_interfaces::msg::Duration() const { builtin_interfaces::msg::Duration d; d.sec = ns / 1000000000; d.nanosec = ns % 1000000000; return d; }
  bool operator<(const Duration & o) const { return ns < o.ns; }
  bool operator>(const Duration & o) const { return ns > o.ns; }
  bool operator<=(const Duration & o) const { return ns <= o.ns; }
  bool operator>=(const Duration & o) const { return ns >= o.ns; }
  bool operator==(const Duration & o) const { return ns == o.ns; }
  Duration operator+(const Duration & o) const { return Duration(ns + o.ns); }
  Duration operator-(const Duration & o) const { return Duration(ns - o.ns); }
  Duration operator*(double k) const { return Duration(static_cast<std::int64_t>(ns * k)); }
};

class Time
{
public:
  std::int64_t ns = 0;
  rcl_clock_type_t type = RCL_SYSTEM_TIME;
  Time() = default;
  explicit Time(std::int64_t n, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns(n), type(t) {}
  Time(std::int32_t s, std::uint32_t n, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns(std::int64_t(s) * 1000000000 + n), type(t) {}
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME) : ns(std::int64_t(m.sec) * 1000000000 + m.nanosec), type(t) {}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time m;
    std::int64_t s = ns / 1000000000, r = ns % 1000000000;
    if (r < 0) { r += 1000000000; --s; }
    m.sec = static_cast<std::int32_t>(s);
    m.nanosec = static_cast<std::uint32_t>(r);
    return m;
  }
  double seconds() const { return ns * 1e-9; }
  std::int64_t nanoseconds() const { return ns; }
  rcl_clock_type_t get_clock_type() const { return type; }
  bool operator<(const Time & o) const { return ns < o.ns; }
  bool operator>(const Time & o) const { return ns > o.ns; }
  bool operator<=(const Time & o) const { return ns <= o.ns; }
  bool operator>=(const Time & o) const { return ns >= o.ns; }
  bool operator==(const Time & o) const { return ns == o.ns; }
  bool operator!=(const Time & o) const { return ns != o.ns; }
  Duration operator-(const Time & o) const { return Duration(ns - o.ns); }
  Time operator-(const Duration & o) const { return Time(ns - o.ns, type); }
  Time operator+(const Duration & o) const { return Time(ns + o.ns, type); }
  Time & operator+=(const Duration & o) { ns += o.ns; return *this; }
};

inline builtin_interfaces::msg::Time convert_rcl_time_to_sec_nanos(std::int64_t ns) { return Time(ns); }

class Logger
{
public:
  enum class Level { Unset, Debug, Info, Warn, Error, Fatal };
  std::string name;
  Logger get_child(const std::string & n) const { return Logger{name + "." + n}; }
  void set_level(Level) {}
  const char * get_name() const { return name.c_str(); }
};
inline Logger get_logger(const std::string & n) { return Logger{n}; }

class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  rcl_clock_type_t type;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : type(t) {}
  Time now() const { return Time(stub::now_ns(), type); }
};

struct KeepLast { explicit KeepLast(std::size_t) {} };
struct KeepAll {};
class QoS
{
public:
  QoS(std::size_t) {}
  QoS(KeepLast) {}
  QoS(KeepAll) {}
  QoS & reliable() { return *this; }
  QoS & best_effort() { return *this; }
  QoS & transient_local() { return *this; }
  QoS & durability_volatile() { return *this; }
};
template <class A> struct PublisherOptionsWithAllocator {};
using PublisherOptions = PublisherOptionsWithAllocator<std::allocator<void>>;
template <class A> struct SubscriptionOptionsWithAllocator {};
using SubscriptionOptions = SubscriptionOptionsWithAllocator<std::allocator<void>>;

struct ParameterValue
{
  std::variant<bool, std::int64_t, double, std::string, std::vector<std::string>, std::vector<double>> v;
  ParameterValue() = default;
  ParameterValue(bool b) : v(b) {}
  ParameterValue(int b) : v(std::int64_t(b)) {}
  ParameterValue(std::int64_t b) : v(b) {}
  ParameterValue(double b) : v(b) {}
  ParameterValue(const char * b) : v(std::string(b)) {}
  ParameterValue(const std::string & b) : v(b) {}
  ParameterValue(const std::vector<std::string> & b) : v(b) {}
  ParameterValue(const std::vector<double> & b) : v(b) {}
};
class Parameter
{
public:
  std::string name;
  ParameterValue value;
  Parameter() = default;
  template <class T> Parameter(const std::string & n, T && t) : name(n), value(std::forward<T>(t)) {}
  template <class T> auto get_value() const
  {
    if constexpr (std::is_same_v<T, bool>) return std::get<bool>(value.v);
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(std::get<std::int64_t>(value.v));
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(std::get<double>(value.v));
    else return std::get<T>(value.v);
  }
  std::string as_string() const { return get_value<std::string>(); }
  double as_double() const { return get_value<double>(); }
  bool as_bool() const { return get_value<bool>(); }
  std::int64_t as_int() const { return get_value<std::int64_t>(); }
};

namespace node_interfaces
{
struct NodeParametersInterface
{
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  std::map<std::string, ParameterValue> values;
  bool has_parameter(const std::string & n) const { return values.count(n) or stub::overrides().count(n); }
  void declare_parameter(const std::string & n, const ParameterValue & v)
  {
    auto & o = stub::overrides();
    if (auto i = o.find(n); i != o.end()) { ParameterValue p; p.v = i->second; values[n] = p; }
    else values.emplace(n, v);
  }
  Parameter get_parameter(const std::string & n) const
  {
    Parameter p;
    p.name = n;
    if (auto i = values.find(n); i != values.end()) p.value = i->second;
    else p.value.v = stub::overrides().at(n);
    return p;
  }
};
struct NodeBaseInterface { using SharedPtr = std::shared_ptr<NodeBaseInterface>; };
struct NodeTimersInterface { using SharedPtr = std::shared_ptr<NodeTimersInterface>; };
struct NodeTopicsInterface { using SharedPtr = std::shared_ptr<NodeTopicsInterface>; };
}  // namespace node_interfaces

class NodeOptions
{
public:
  NodeOptions & automatically_declare_parameters_from_overrides(bool) { return *this; }
  NodeOptions & allow_undeclared_parameters(bool) { return *this; }
  NodeOptions & use_global_arguments(bool) { return *this; }
  NodeOptions & arguments(const std::vector<std::string> &) { return *this; }
};

template <class M, class A = std::allocator<void>>
class Publisher
{
public:
  using SharedPtr = std::shared_ptr<Publisher>;
  using ROSMessageType = M;
  std::string topic;
  explicit Publisher(const std::string & t) : topic(t) {}
  virtual ~Publisher() = default;
  const char * get_topic_name() const { return topic.c_str(); }
  virtual void publish(const M & m) { if (auto & h = stub::Bus::hook()) h(topic, std::any(m)); }
  void publish(std::unique_ptr<M> m) { publish(*m); }
};
template <class M>
class Subscription
{
public:
  using SharedPtr = std::shared_ptr<Subscription>;
  std::string topic;
  std::function<void(const M &)> callback;
  std::shared_ptr<std::function<void(const std::any &)>> registration;
  void announce()
  {
    auto & all = stub::subscribers();
    const auto [b, e] = all.equal_range(topic);
    for (auto i = b; i != e;) i = i->second.expired() ? all.erase(i) : std::next(i);
    registration = std::make_shared<std::function<void(const std::any &)>>([f = callback](const std::any & m) { f(std::any_cast<const M &>(m)); });
    all.emplace(topic, registration);
  }
};
template <class S>
class Client
{
public:
  using SharedPtr = std::shared_ptr<Client>;
  using Response = typename S::Response::SharedPtr;
  std::string name;
  explicit Client(const std::string & n) : name(n) {}
  bool service_is_ready() const { return not stub::Services::get().ready or stub::Services::get().ready(name); }
  struct Future
  {
    std::string name;
    typename S::Request::SharedPtr request;
    std::shared_ptr<typename S::Response> response;
    template <class D> std::future_status wait_for(D d)
    {
      std::any r = typename S::Response();
      if (stub::Services::get().answer and not stub::Services::get().answer(name, std::any(*request), r, std::chrono::duration_cast<std::chrono::nanoseconds>(d))) return std::future_status::timeout;
      response = std::make_shared<typename S::Response>(std::any_cast<typename S::Response>(r));
      return std::future_status::ready;
    }
    std::shared_ptr<typename S::Response> get() { return response; }
  };
  Future async_send_request(const typename S::Request::SharedPtr & r) { return Future{name, r, nullptr}; }
};
class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  std::function<void()> callback;
  std::chrono::nanoseconds period{0};
  bool canceled = false;
  std::chrono::nanoseconds time_until_trigger() { return std::chrono::nanoseconds(0); }
  void cancel() { canceled = true; }
  void reset() { canceled = false; }
  bool is_canceled() { return canceled; }
  static std::vector<std::weak_ptr<TimerBase>> & all() { static std::vector<std::weak_ptr<TimerBase>> v; return v; }
  static void announce(const SharedPtr & t)
  {
    auto & v = all();
    if (v.size() > 64) v.erase(v.begin(), v.begin() + 32);
    v.push_back(t);
  }
};
using WallTimer = TimerBase;
template <class S> struct Service { using SharedPtr = std::shared_ptr<Service>; std::function<void(std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)> callback; };

namespace stub
{
template <class M, class F> std::function<void(const M &)> wrap(F f)
{
  if constexpr (std::is_invocable_v<F, const M &>) return [f](const M & m) mutable { f(m); };
  else if constexpr (std::is_invocable_v<F, std::shared_ptr<M>>) return [f](const M & m) mutable { f(std::make_shared<M>(m)); };
  else return [f](const M & m) mutable { f(std::make_shared<const M>(m)); };
}
}  // namespace stub

class Node : public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  std::string name_;
  std::shared_ptr<node_interfaces::NodeParametersInterface> parameters_ = std::make_shared<node_interfaces::NodeParametersInterface>();
  explicit Node(const std::string & n, const NodeOptions & = NodeOptions()) : name_(n) {}
  Node(const std::string & n, const std::string &, const NodeOptions & = NodeOptions()) : name_(n) {}
  virtual ~Node() = default;
  template <class... Ts> static SharedPtr make_shared(Ts &&... xs) { return std::make_shared<Node>(std::forward<Ts>(xs)...); }
  Logger get_logger() const { return Logger{name_}; }
  const char * get_name() const { return name_.c_str(); }
  Time now() const { return Time(stub::now_ns(), RCL_ROS_TIME); }
  Clock::SharedPtr get_clock() const { return std::make_shared<Clock>(RCL_ROS_TIME); }
  auto get_node_parameters_interface() const { return parameters_; }
  auto get_node_base_interface() const { return std::make_shared<node_interfaces::NodeBaseInterface>(); }
  auto get_node_timers_interface() const { return std::make_shared<node_interfaces::NodeTimersInterface>(); }
  template <class T> T declare_parameter(const std::string & n, const T & v = T{}) { parameters_->declare_parameter(n, ParameterValue(v)); return parameters_->get_parameter(n).template get_value<T>(); }
  template <class T> bool get_parameter(const std::string & n, T & v) const { if (!parameters_->has_parameter(n)) return false; v = parameters_->get_parameter(n).template get_value<T>(); return true; }
  Parameter get_parameter(const std::string & n) const { return parameters_->get_parameter(n); }
  bool has_parameter(const std::string & n) const { return parameters_->has_parameter(n); }
  Parameter get_parameter_or(const std::string & n, const Parameter & p) const { return parameters_->has_parameter(n) ? parameters_->get_parameter(n) : p; }
  struct ListParametersResult { std::vector<std::string> names; };
  ListParametersResult list_parameters(const std::vector<std::string> &, std::uint64_t) const
  {
    std::map<std::string, int> all;
    for (auto & [n, v] : parameters_->values) all[n];
    for (auto & [n, v] : stub::overrides()) all[n];
    ListParametersResult r;
    for (auto & [n, v] : all) r.names.push_back(n);
    return r;
  }
  template <class M, class A = std::allocator<void>, class... Ts> auto create_publisher(const std::string & t, Ts &&...) { return std::make_shared<Publisher<M>>(t); }
  template <class M, class F, class... Ts> auto create_subscription(const std::string & t, const QoS &, F f, Ts &&...) { auto s = std::make_shared<Subscription<M>>(); s->topic = t; s->callback = stub::wrap<M>(std::move(f)); s->announce(); return s; }
  template <class R, class P, class F> auto create_wall_timer(std::chrono::duration<R, P> d, F f) { auto t = std::make_shared<TimerBase>(); t->period = d; t->callback = f; last_timer() = t; TimerBase::announce(t); return t; }
  template <class S, class F, class... Ts> auto create_service(const std::string & n, F f, Ts &&...)
  {
    auto s = std::make_shared<Service<S>>();
    s->callback = f;
    stub::servers()[n] = [s](const std::any & q, std::any & r) {
      auto response = std::make_shared<typename S::Response>();
      s->callback(std::make_shared<typename S::Request>(std::any_cast<typename S::Request>(q)), response);
      r = *response;
    };
    return s;
  }
  template <class S, class... Ts> auto create_client(const std::string & n, Ts &&...) { return std::make_shared<Client<S>>(n); }
  static std::weak_ptr<TimerBase> & last_timer() { static std::weak_ptr<TimerBase> t; return t; }
};
namespace node_interfaces
{
template <class N> auto get_node_parameters_interface(N && n)
{
  if constexpr (std::is_convertible_v<N, NodeParametersInterface::SharedPtr>) return NodeParametersInterface::SharedPtr(n);
  else if constexpr (std::is_base_of_v<Node, std::decay_t<N>>) return NodeParametersInterface::SharedPtr(n.get_node_parameters_interface());
  else return NodeParametersInterface::SharedPtr(n->get_node_parameters_interface());
}
}  // namespace node_interfaces
template <class M, class A = std::allocator<void>, class P = Publisher<M>, class N, class... Ts> auto create_publisher(N &&, const std::string & t, const QoS &, Ts &&...) { return std::make_shared<P>(t); }
template <class M, class N, class F, class... Ts> auto create_subscription(N &&, const std::string & t, const QoS &, F f, Ts &&...) { auto s = std::make_shared<Subscription<M>>(); s->topic = t; s->callback = stub::wrap<M>(std::move(f)); s->announce(); return s; }
template <class N, class F> auto create_timer(N &&, Clock::SharedPtr, Duration d, F f) { auto t = std::make_shared<TimerBase>(); t->period = std::chrono::nanoseconds(d.ns); t->callback = f; Node::last_timer() = t; TimerBase::announce(t); return t; }
template <class B, class T, class F> auto create_timer(B &&, T &&, Clock::SharedPtr, Duration d, F f) { auto t = std::make_shared<TimerBase>(); t->period = std::chrono::nanoseconds(d.ns); t->callback = f; Node::last_timer() = t; TimerBase::announce(t); return t; }

inline bool & ok_flag() { static bool b = true; return b; }
inline bool ok() { return ok_flag(); }
inline void init(int, const char * const *) { ok_flag() = true; }
inline bool shutdown() { ok_flag() = false; return true; }
template <class T> void spin_some(T &&) {}
template <class T> void spin(T &&) {}
template <class C> struct GenericRate
{
  std::chrono::nanoseconds period_;
  explicit GenericRate(double hz) : period_(static_cast<std::int64_t>(1e9 / hz)) {}
  template <class R, class P> explicit GenericRate(std::chrono::duration<R, P> d) : period_(std::chrono::duration_cast<std::chrono::nanoseconds>(d)) {}
  bool sleep() { if (auto & f = stub::sleep_hook()) f(period_); return true; }
  void reset() {}
  std::chrono::nanoseconds period() const { return period_; }
};
struct WallRate : GenericRate<int> { using GenericRate<int>::GenericRate; };
namespace executors { struct SingleThreadedExecutor { using SharedPtr = std::shared_ptr<SingleThreadedExecutor>; template <class T> void add_node(T &&) {} void spin_some() { if (auto & f = stub::spin_hook()) f(); } void spin() {} }; }
template <class T> struct stub_component {};
namespace exceptions { struct ParameterNotDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; }; struct InvalidParameterTypeException : std::runtime_error { using std::runtime_error::runtime_error; }; }
}  // namespace rclcpp

#define STUB_LOG_STREAM(level, logger, args) \
  do { if (auto * stub_os = ::rclcpp::stub::log()) { (void)(logger); *stub_os << "[" level "] " << args << std::endl; } else { std::ostringstream stub_ss; stub_ss << args; (void)(logger); } } while (0)
#define RCLCPP_INFO_STREAM(logger, args) STUB_LOG_STREAM("INFO", logger, args)
#define RCLCPP_WARN_STREAM(logger, args) STUB_LOG_STREAM("WARN", logger, args)
#define RCLCPP_ERROR_STREAM(logger, args) STUB_LOG_STREAM("ERROR", logger, args)
#define RCLCPP_DEBUG_STREAM(logger, args) STUB_LOG_STREAM("DEBUG", logger, args)
#define RCLCPP_WARN_STREAM_ONCE(logger, args) STUB_LOG_STREAM("WARN", logger, args)
#define RCLCPP_INFO(...) do { } while (0)
#define RCLCPP_WARN(...) do { } while (0)
#define RCLCPP_ERROR(...) do { } while (0)
#define RCLCPP_DEBUG(...) do { } while (0)
#define RCLCPP_WARN_ONCE(...) do { } while (0)
