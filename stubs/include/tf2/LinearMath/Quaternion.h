// Small re-implementation of the parts of tf2/LinearMath used by the repository (same formulas, double precision).
#pragma once
#include <cmath>
typedef double tf2Scalar;
namespace tf2
{
class Vector3
{
public:
  double m[4] = {0, 0, 0, 0};
  Vector3() = default;
  Vector3(double x, double y, double z) : m{x, y, z, 0} {}
  double x() const { return m[0]; }
  double y() const { return m[1]; }
  double z() const { return m[2]; }
  double getX() const { return m[0]; }
  double getY() const { return m[1]; }
  double getZ() const { return m[2]; }
  void setX(double v) { m[0] = v; }
  void setY(double v) { m[1] = v; }
  void setZ(double v) { m[2] = v; }
  double operator[](int i) const { return m[i]; }
  double & operator[](int i) { return m[i]; }
  double dot(const Vector3 & o) const { return m[0] * o.m[0] + m[1] * o.m[1] + m[2] * o.m[2]; }
  double length2() const { return dot(*this); }
  double length() const { return std::sqrt(length2()); }
  Vector3 cross(const Vector3 & o) const { return {m[1] * o.m[2] - m[2] * o.m[1], m[2] * o.m[0] - m[0] * o.m[2], m[0] * o.m[1] - m[1] * o.m[0]}; }
  Vector3 normalized() const { const double l = length(); return {m[0] / l, m[1] / l, m[2] / l}; }
};
inline Vector3 operator+(const Vector3 & a, const Vector3 & b) { return {a.x() + b.x(), a.y() + b.y(), a.z() + b.z()}; }
inline Vector3 operator-(const Vector3 & a, const Vector3 & b) { return {a.x() - b.x(), a.y() - b.y(), a.z() - b.z()}; }
inline Vector3 operator-(const Vector3 & a) { return {-a.x(), -a.y(), -a.z()}; }
inline Vector3 operator*(const Vector3 & a, double k) { return {a.x() * k, a.y() * k, a.z() * k}; }
inline Vector3 operator*(double k, const Vector3 & a) { return a * k; }
inline Vector3 operator/(const Vector3 & a, double k) { return {a.x() / k, a.y() / k, a.z() / k}; }
class Quaternion
{
public:
  double m[4] = {0, 0, 0, 0};
  Quaternion() = default;
  Quaternion(double x, double y, double z, double w) : m{x, y, z, w} {}
  Quaternion(const Vector3 & axis, double angle) { setRotation(axis, angle); }
  void setRotation(const Vector3 & axis, double angle)
  {
    const double d = axis.length(), s = std::sin(angle * 0.5) / d;
    m[0] = axis.x() * s; m[1] = axis.y() * s; m[2] = axis.z() * s; m[3] = std::cos(angle * 0.5);
  }
  void setRPY(double roll, double pitch, double yaw)
  {
    const double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    const double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    m[0] = sr * cp * cy - cr * sp * sy;
    m[1] = cr * sp * cy + sr * cp * sy;
    m[2] = cr * cp * sy - sr * sp * cy;
    m[3] = cr * cp * cy + sr * sp * sy;
  }
  double x() const { return m[0]; }
  double y() const { return m[1]; }
  double z() const { return m[2]; }
  double w() const { return m[3]; }
  double getX() const { return m[0]; }
  double getY() const { return m[1]; }
  double getZ() const { return m[2]; }
  double getW() const { return m[3]; }
  double length2() const { return m[0] * m[0] + m[1] * m[1] + m[2] * m[2] + m[3] * m[3]; }
  double length() const { return std::sqrt(length2()); }
  Quaternion & normalize() { const double l = length(); for (double & v : m) v /= l; return *this; }
  Quaternion normalized() const { Quaternion q(*this); return q.normalize(); }
  Quaternion inverse() const { return {-m[0], -m[1], -m[2], m[3]}; }
};
inline Quaternion operator*(const Quaternion & a, const Quaternion & b)
{
  return {a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(), a.w() * b.y() + a.y() * b.w() + a.z() * b.x() - a.x() * b.z(),
          a.w() * b.z() + a.z() * b.w() + a.x() * b.y() - a.y() * b.x(), a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z()};
}
inline Vector3 quatRotate(const Quaternion & q, const Vector3 & v)
{
  const Quaternion r = q * Quaternion(v.x(), v.y(), v.z(), 0) * q.inverse();
  return {r.x(), r.y(), r.z()};
}
}  // namespace tf2
