// A stand-in for BehaviorTree.CPP v3: the semantics of its fallback and sequence nodes (with memory), leaves, ports, blackboard and status subscriptions.
#pragma once
#include <any>
#include <chrono>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace BT
{
enum class NodeStatus { IDLE = 0, RUNNING, SUCCESS, FAILURE };
enum class NodeType { UNDEFINED = 0, ACTION, CONDITION, CONTROL, DECORATOR, SUBTREE };
enum class PortDirection { INPUT, OUTPUT, INOUT };
enum class TimestampType { absolute, relative };
using TimePoint = std::chrono::high_resolution_clock::time_point;
using Duration = std::chrono::high_resolution_clock::duration;

class BehaviorTreeException : public std::exception
{
public:
  explicit BehaviorTreeException(std::string m) : message(std::move(m)) {}
  const char * what() const noexcept override { return message.c_str(); }

private:
  std::string message;
};
struct LogicError : BehaviorTreeException { using BehaviorTreeException::BehaviorTreeException; };
struct RuntimeError : BehaviorTreeException { using BehaviorTreeException::BehaviorTreeException; };

struct PortInfo
{
  PortDirection direction_ = PortDirection::INOUT;
  PortDirection direction() const { return direction_; }
};
using PortsList = std::unordered_map<std::string, PortInfo>;
using PortsRemapping = std::unordered_map<std::string, std::string>;
template <typename T = void>
std::pair<std::string, PortInfo> InputPort(const std::string & n, const std::string & = {}) { return {n, PortInfo{PortDirection::INPUT}}; }
template <typename T = void>
std::pair<std::string, PortInfo> OutputPort(const std::string & n, const std::string & = {}) { return {n, PortInfo{PortDirection::OUTPUT}}; }
template <typename T = void>
std::pair<std::string, PortInfo> BidirectionalPort(const std::string & n, const std::string & = {}) { return {n, PortInfo{PortDirection::INOUT}}; }

struct TreeNodeManifest
{
  NodeType type;
  std::string registration_ID;
  PortsList ports;
};

class Blackboard
{
public:
  using Ptr = std::shared_ptr<Blackboard>;
  static Ptr create() { return std::make_shared<Blackboard>(); }
  template <typename T>
  bool get(const std::string & key, T & value) const
  {
    auto it = data.find(key);
    if (it == data.end() or not it->second.has_value()) return false;
    if (auto p = std::any_cast<T>(&it->second)) {
      value = *p;
      return true;
    }
    throw RuntimeError("Any::cast failed for " + key);
  }
  template <typename T>
  T get(const std::string & key) const
  {
    auto it = data.find(key);
    if (it == data.end() or not it->second.has_value()) throw RuntimeError("Blackboard::get() error. Missing key [" + key + "]");
    if (auto p = std::any_cast<T>(&it->second)) return *p;
    throw RuntimeError("Any::cast failed for " + key);
  }
  template <typename T>
  void set(const std::string & key, const T & value) { data[key] = value; }

private:
  std::unordered_map<std::string, std::any> data;
};

struct NodeConfiguration
{
  Blackboard::Ptr blackboard;
  PortsRemapping input_ports, output_ports;
};

struct Result
{
  bool ok;
  explicit operator bool() const { return ok; }
  bool operator!() const { return not ok; }
};

class TreeNode
{
public:
  using Ptr = std::shared_ptr<TreeNode>;
  using StatusChangeCallback = std::function<void(TimePoint, const TreeNode &, NodeStatus, NodeStatus)>;
  using StatusChangeSubscriber = std::shared_ptr<StatusChangeCallback>;
  TreeNode(std::string name, NodeConfiguration config) : name_(std::move(name)), config_(std::move(config)) {}
  virtual ~TreeNode() = default;
  virtual NodeStatus executeTick()
  {
    const auto s = tick();
    setStatus(s);
    return s;
  }
  virtual void halt() = 0;
  NodeStatus status() const { return status_; }
  void setStatus(NodeStatus s)
  {
    const auto previous = status_;
    status_ = s;
    if (previous != s) {
      for (auto & w : subscribers_)
        if (auto p = w.lock()) (*p)(std::chrono::high_resolution_clock::now(), *this, previous, s);
    }
  }
  const std::string & name() const { return name_; }
  virtual NodeType type() const = 0;
  StatusChangeSubscriber subscribeToStatusChange(StatusChangeCallback callback)
  {
    auto p = std::make_shared<StatusChangeCallback>(std::move(callback));
    subscribers_.push_back(p);
    return p;
  }
  template <typename T>
  Result getInput(const std::string & key, T & destination) const
  {
    auto it = config_.input_ports.find(key);
    if (it == config_.input_ports.end()) return {false};
    if (not config_.blackboard) return {false};
    return {config_.blackboard->get<T>(target(key, it->second), destination)};
  }
  template <typename T>
  Result setOutput(const std::string & key, const T & value)
  {
    auto it = config_.output_ports.find(key);
    if (it == config_.output_ports.end() or not config_.blackboard) return {false};
    config_.blackboard->set<T>(target(key, it->second), value);
    return {true};
  }
  const NodeConfiguration & config() const { return config_; }

protected:
  virtual NodeStatus tick() = 0;

private:
  static std::string target(const std::string & key, const std::string & remap)
  {
    if (remap == "=") return key;
    if (remap.size() > 2 and remap.front() == '{' and remap.back() == '}') return remap.substr(1, remap.size() - 2);
    throw RuntimeError("port " + key + " bound to a literal");
  }
  std::string name_;
  NodeConfiguration config_;
  NodeStatus status_ = NodeStatus::IDLE;
  std::vector<std::weak_ptr<StatusChangeCallback>> subscribers_;
};

class ActionNodeBase : public TreeNode
{
public:
  using TreeNode::TreeNode;
  NodeType type() const override final { return NodeType::ACTION; }
};

class ControlNode : public TreeNode
{
public:
  using TreeNode::TreeNode;
  std::vector<TreeNode *> children_;
  void addChild(TreeNode * c) { children_.push_back(c); }
  void haltChildren()
  {
    for (auto c : children_) {
      if (c->status() == NodeStatus::RUNNING) c->halt();
      c->setStatus(NodeStatus::IDLE);
    }
  }
  void halt() override
  {
    current_ = 0;
    haltChildren();
    setStatus(NodeStatus::IDLE);
  }
  NodeType type() const override final { return NodeType::CONTROL; }

protected:
  size_t current_ = 0;
  NodeStatus run(NodeStatus stop, NodeStatus next)
  {
    setStatus(NodeStatus::RUNNING);
    while (current_ < children_.size()) {
      const auto s = children_[current_]->executeTick();
      if (s == NodeStatus::RUNNING) return s;
      if (s == stop) {
        haltChildren();
        current_ = 0;
        return s;
      }
      if (s != next) throw LogicError("A child node must never return IDLE");
      ++current_;
    }
    haltChildren();
    current_ = 0;
    return next;
  }
};
struct FallbackNode : ControlNode
{
  using ControlNode::ControlNode;
  NodeStatus tick() override { return run(NodeStatus::SUCCESS, NodeStatus::FAILURE); }
};
struct SequenceNode : ControlNode
{
  using ControlNode::ControlNode;
  NodeStatus tick() override { return run(NodeStatus::FAILURE, NodeStatus::SUCCESS); }
};

template <typename F>
void applyRecursiveVisitor(TreeNode * node, const F & visitor)
{
  if (not node) throw LogicError("One of the children of a DecoratorNode or ControlNode is nullptr");
  auto f = visitor;
  f(node);
  if (auto control = dynamic_cast<ControlNode *>(node))
    for (auto c : control->children_) applyRecursiveVisitor(c, visitor);
}
}  // namespace BT
