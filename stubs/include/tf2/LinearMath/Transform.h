#pragma once
#include <tf2/LinearMath/Matrix3x3.h>
namespace tf2
{
class Transform
{
public:
  Matrix3x3 basis;
  Vector3 origin;
  Transform() = default;
  Transform(const Matrix3x3 & b, const Vector3 & o) : basis(b), origin(o) {}
  Transform(const Quaternion & q, const Vector3 & o = Vector3()) : basis(q), origin(o) {}
  const Matrix3x3 & getBasis() const { return basis; }
  const Vector3 & getOrigin() const { return origin; }
  Quaternion getRotation() const { Quaternion q; basis.getRotation(q); return q; }
  void setOrigin(const Vector3 & o) { origin = o; }
  void setRotation(const Quaternion & q) { basis.setRotation(q); }
  Transform inverse() const { const Matrix3x3 t = basis.transpose(); return {t, t * -origin}; }
  Vector3 operator()(const Vector3 & v) const { return basis * v + origin; }
  Vector3 operator*(const Vector3 & v) const { return (*this)(v); }
  Transform operator*(const Transform & o) const { return {basis * o.basis, (*this)(o.origin)}; }
};
}  // namespace tf2
