#pragma once
#include <cstring>
#include <pcl/point_cloud.h>
#include <sensor_msgs/msg/point_cloud2.hpp>
namespace pcl
{
inline void toROSMsg(const PointCloud<PointXYZI> & c, sensor_msgs::msg::PointCloud2 & m)
{
  m.width = c.width, m.height = c.height, m.is_dense = c.is_dense, m.point_step = sizeof(PointXYZI), m.row_step = m.point_step * m.width;
  m.data.resize(c.size() * sizeof(PointXYZI));
  if (c.size()) std::memcpy(m.data.data(), c.points.data(), m.data.size());
}
}  // namespace pcl
