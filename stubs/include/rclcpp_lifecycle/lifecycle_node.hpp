#pragma once
#include <lifecycle_msgs/msg/state.hpp>
#include <lifecycle_msgs/msg/transition.hpp>
#include <rclcpp/rclcpp.hpp>
namespace rclcpp_lifecycle
{
struct State
{
  std::uint8_t i = 0;
  std::string l;
  State(std::uint8_t id = 0, const std::string & label = "") : i(id), l(label) {}
  std::uint8_t id() const { return i; }
  std::string label() const { return l; }
};
namespace node_interfaces
{
struct LifecycleNodeInterface
{
  enum class CallbackReturn : std::uint8_t { SUCCESS = 97, FAILURE = 98, ERROR = 99 };
  virtual CallbackReturn on_configure(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_cleanup(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_shutdown(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_activate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_deactivate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_error(const State &) { return CallbackReturn::SUCCESS; }
  virtual ~LifecycleNodeInterface() = default;
};
}  // namespace node_interfaces
template <class M, class A = std::allocator<void>>
class LifecyclePublisher : public rclcpp::Publisher<M>
{
  bool active = false;

public:
  using SharedPtr = std::shared_ptr<LifecyclePublisher>;
  using rclcpp::Publisher<M>::Publisher;
  void on_activate() { active = true; }
  void on_deactivate() { active = false; }
  bool is_activated() const { return active; }
  void publish(const M & m) override { if (active) rclcpp::Publisher<M>::publish(m); }
};
// Follows rcl_lifecycle's state machine for the transitions the interpreter uses.
class LifecycleNode : public rclcpp::Node, public node_interfaces::LifecycleNodeInterface
{
  std::uint8_t state_ = lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED;
  using R = CallbackReturn;
  using S = lifecycle_msgs::msg::State;

  R error() 
  {
    const auto r = on_error(State());
    state_ = r == R::SUCCESS ? S::PRIMARY_STATE_UNCONFIGURED : S::PRIMARY_STATE_FINALIZED;
    return R::ERROR;
  }
  R go(std::uint8_t from, std::uint8_t ok, std::uint8_t ng, R (LifecycleNodeInterface::*f)(const State &))
  {
    if (state_ != from) return R::ERROR;
    R r;
    try { r = (this->*f)(State(from)); } catch (...) { r = R::ERROR; }
    if (r == R::ERROR) return error();
    state_ = r == R::SUCCESS ? ok : ng;
    return r;
  }

public:
  using rclcpp::Node::Node;
  const std::uint8_t & state() const { return state_; }
  State get_current_state() const { return State(state_); }
  State configure() { go(S::PRIMARY_STATE_UNCONFIGURED, S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_UNCONFIGURED, &LifecycleNodeInterface::on_configure); return State(state_); }
  State activate() { go(S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_ACTIVE, S::PRIMARY_STATE_INACTIVE, &LifecycleNodeInterface::on_activate); return State(state_); }
  State deactivate() { go(S::PRIMARY_STATE_ACTIVE, S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_ACTIVE, &LifecycleNodeInterface::on_deactivate); return State(state_); }
  State cleanup() { go(S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_UNCONFIGURED, S::PRIMARY_STATE_INACTIVE, &LifecycleNodeInterface::on_cleanup); return State(state_); }
  State shutdown() { go(state_, S::PRIMARY_STATE_FINALIZED, S::PRIMARY_STATE_FINALIZED, &LifecycleNodeInterface::on_shutdown); return State(state_); }
  template <class M, class A = std::allocator<void>, class... Ts> auto create_publisher(const std::string & t, Ts &&...) { return std::make_shared<LifecyclePublisher<M>>(t); }
  auto shared_from_this() { return std::static_pointer_cast<LifecycleNode>(rclcpp::Node::shared_from_this()); }
};
}  // namespace rclcpp_lifecycle
