#pragma once
#include <pluginlib/class_loader.hpp>
#define PLUGINLIB_CAT_(a, b) a##b
#define PLUGINLIB_CAT(a, b) PLUGINLIB_CAT_(a, b)
#define PLUGINLIB_EXPORT_CLASS(Derived, Base) \
  static const bool PLUGINLIB_CAT(pluginlib_registered_, __LINE__) = (pluginlib::Registry<Base>::classes()[#Derived] = [] { return std::static_pointer_cast<Base>(std::make_shared<Derived>()); }, true);
