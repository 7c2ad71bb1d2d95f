#pragma once
#include <behaviortree_cpp_v3/behavior_tree.h>

#include <map>
#include <pugixml.hpp>
#include <set>
namespace BT
{
class Tree
{
public:
  std::vector<TreeNode::Ptr> nodes;
  Blackboard::Ptr blackboard;
  TreeNode * rootNode() const { return nodes.empty() ? nullptr : nodes.front().get(); }
  Blackboard::Ptr rootBlackboard() { return blackboard; }
};

class BehaviorTreeFactory
{
public:
  using Builder = std::function<TreeNode::Ptr(const std::string &, const NodeConfiguration &)>;
  BehaviorTreeFactory()
  {
    for (auto n : {"Fallback", "Sequence"}) {
      manifests_[n] = TreeNodeManifest{NodeType::CONTROL, n, {}};
      builtin_.insert(n);
    }
    builders_["Fallback"] = [](auto & n, auto & c) { return std::make_shared<FallbackNode>(n, c); };
    builders_["Sequence"] = [](auto & n, auto & c) { return std::make_shared<SequenceNode>(n, c); };
  }
  template <typename T>
  void registerNodeType(const std::string & id)
  {
    if (builders_.count(id)) throw BehaviorTreeException("ID [" + id + "] already registered");
    manifests_[id] = TreeNodeManifest{NodeType::ACTION, id, T::providedPorts()};
    builders_[id] = [](auto & n, auto & c) { return std::make_shared<T>(n, c); };
  }
  const std::unordered_map<std::string, TreeNodeManifest> & manifests() const { return manifests_; }
  const std::set<std::string> & builtinNodes() const { return builtin_; }
  Tree createTreeFromText(const std::string & text, Blackboard::Ptr blackboard = Blackboard::create())
  {
    pugi::xml_document doc;
    if (not doc.load_string(text.c_str())) throw RuntimeError("Error parsing the XML");
    auto root = doc.child("root").child("BehaviorTree");
    if (not root or not root.first_child()) throw RuntimeError("no BehaviorTree");
    Tree tree;
    tree.blackboard = blackboard;
    build(root.first_child(), nullptr, tree);
    return tree;
  }

private:
  void build(const pugi::xml_node & xml, ControlNode * parent, Tree & tree)
  {
    const std::string id = xml.name();
    auto b = builders_.find(id);
    if (b == builders_.end()) throw RuntimeError("Node not recognized: " + id);
    const auto & manifest = manifests_.at(id);
    NodeConfiguration config;
    config.blackboard = tree.blackboard;
    std::string name = id;
    for (auto a : xml.attributes()) {
      const std::string key = a.name();
      if (key == "name") {
        name = a.value();
      } else if (key == "ID") {
      } else {
        auto p = manifest.ports.find(key);
        if (p == manifest.ports.end()) throw RuntimeError("Possible typo? In the XML, you tried to remap port \"" + key + "\" in node [" + id + "]");
        if (p->second.direction() != PortDirection::OUTPUT) config.input_ports.emplace(key, a.value());
        if (p->second.direction() != PortDirection::INPUT) config.output_ports.emplace(key, a.value());
      }
    }
    auto node = b->second(name, config);
    tree.nodes.push_back(node);
    if (parent) parent->addChild(node.get());
    auto control = dynamic_cast<ControlNode *>(node.get());
    for (auto c : xml.children()) {
      if (c.type() != pugi::node_element) continue;
      if (not control) throw RuntimeError("a leaf has children: " + id);
      build(c, control, tree);
    }
  }
  std::unordered_map<std::string, TreeNodeManifest> manifests_;
  std::map<std::string, Builder> builders_;
  std::set<std::string> builtin_;
};
}  // namespace BT
