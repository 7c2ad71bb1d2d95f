#pragma once
#include <cstdint>
#include <memory>
#include <utility>
#include <vector>
namespace pcl
{
struct PointXYZI { float x = 0, y = 0, z = 0, intensity = 0; };
template <class T> struct PointCloud
{
  using Ptr = std::shared_ptr<PointCloud>;
  using ConstPtr = std::shared_ptr<const PointCloud>;
  std::vector<T> points;
  std::uint32_t width = 0, height = 0;
  bool is_dense = true;
  template <class... A> T & emplace_back(A &&... a) { points.emplace_back(std::forward<A>(a)...); width = points.size(), height = 1; return points.back(); }
  void push_back(const T & p) { points.push_back(p); width = points.size(), height = 1; }
  std::size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  T & operator[](std::size_t i) { return points[i]; }
  const T & operator[](std::size_t i) const { return points[i]; }
  T & at(std::size_t i) { return points.at(i); }
  auto begin() { return points.begin(); }
  auto end() { return points.end(); }
  auto begin() const { return points.begin(); }
  auto end() const { return points.end(); }
  void clear() { points.clear(); width = height = 0; }
};
}  // namespace pcl
