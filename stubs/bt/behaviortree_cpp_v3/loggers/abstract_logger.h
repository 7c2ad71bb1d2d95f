#pragma once
#include <behaviortree_cpp_v3/behavior_tree.h>
