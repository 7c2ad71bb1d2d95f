#pragma once
#include <tf2_ros/transform_broadcaster.h>
namespace tf2_ros
{
struct StaticTransformBroadcaster : TransformBroadcaster { using TransformBroadcaster::TransformBroadcaster; };
}  // namespace tf2_ros
