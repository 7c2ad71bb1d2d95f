#pragma once
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry_msgs/msg/transform.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <geometry_msgs/msg/vector3.hpp>
#include <tf2/LinearMath/Transform.h>
namespace tf2
{
inline void fromMsg(const geometry_msgs::msg::Quaternion & i, Quaternion & o) { o = Quaternion(i.x, i.y, i.z, i.w); }
inline void fromMsg(const geometry_msgs::msg::Vector3 & i, Vector3 & o) { o = Vector3(i.x, i.y, i.z); }
inline void fromMsg(const geometry_msgs::msg::Point & i, Vector3 & o) { o = Vector3(i.x, i.y, i.z); }
inline void fromMsg(const geometry_msgs::msg::Pose & i, Transform & o) { o = Transform(Quaternion(i.orientation.x, i.orientation.y, i.orientation.z, i.orientation.w), Vector3(i.position.x, i.position.y, i.position.z)); }
inline void fromMsg(const geometry_msgs::msg::Transform & i, Transform & o) { o = Transform(Quaternion(i.rotation.x, i.rotation.y, i.rotation.z, i.rotation.w), Vector3(i.translation.x, i.translation.y, i.translation.z)); }
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & q) { geometry_msgs::msg::Quaternion m; m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); return m; }
inline geometry_msgs::msg::Vector3 toMsg(const Vector3 & v) { geometry_msgs::msg::Vector3 m; m.x = v.x(); m.y = v.y(); m.z = v.z(); return m; }
inline void toMsg(const Vector3 & v, geometry_msgs::msg::Point & m) { m.x = v.x(); m.y = v.y(); m.z = v.z(); }
inline void toMsg(const Transform & t, geometry_msgs::msg::Pose & m) { toMsg(t.origin, m.position); m.orientation = toMsg(t.getRotation()); }
inline geometry_msgs::msg::Transform toMsg(const Transform & t) { geometry_msgs::msg::Transform m; m.translation = toMsg(t.origin); m.rotation = toMsg(t.getRotation()); return m; }
inline void doTransform(const geometry_msgs::msg::Pose & i, geometry_msgs::msg::Pose & o, const geometry_msgs::msg::TransformStamped & t) { Transform a, b; fromMsg(t.transform, a); fromMsg(i, b); toMsg(a * b, o); }
inline void doTransform(const geometry_msgs::msg::Point & i, geometry_msgs::msg::Point & o, const geometry_msgs::msg::TransformStamped & t) { Transform a; Vector3 v; fromMsg(t.transform, a); fromMsg(i, v); toMsg(a * v, o); }
}  // namespace tf2
