#pragma once
#include <tf2/LinearMath/Quaternion.h>
namespace tf2
{
class Matrix3x3
{
public:
  Vector3 r[3];
  Matrix3x3() = default;
  explicit Matrix3x3(const Quaternion & q) { setRotation(q); }
  Matrix3x3(double xx, double xy, double xz, double yx, double yy, double yz, double zx, double zy, double zz) : r{{xx, xy, xz}, {yx, yy, yz}, {zx, zy, zz}} {}
  void setRotation(const Quaternion & q)
  {
    const double s = 2.0 / q.length2();
    const double xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const double wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs, xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    r[0] = {1 - (yy + zz), xy - wz, xz + wy};
    r[1] = {xy + wz, 1 - (xx + zz), yz - wx};
    r[2] = {xz - wy, yz + wx, 1 - (xx + yy)};
  }
  const Vector3 & operator[](int i) const { return r[i]; }
  Vector3 & operator[](int i) { return r[i]; }
  const Vector3 & getRow(int i) const { return r[i]; }
  Matrix3x3 transpose() const { return {r[0].x(), r[1].x(), r[2].x(), r[0].y(), r[1].y(), r[2].y(), r[0].z(), r[1].z(), r[2].z()}; }
  Matrix3x3 inverse() const { return transpose(); }
  void getRPY(double & roll, double & pitch, double & yaw, unsigned = 1) const
  {
    if (std::fabs(r[2].x()) >= 1) {
      yaw = 0;
      const double delta = std::atan2(r[2].y(), r[2].z());
      if (r[2].x() < 0) { pitch = M_PI / 2; roll = delta; } else { pitch = -M_PI / 2; roll = delta; }
    } else {
      pitch = -std::asin(r[2].x());
      roll = std::atan2(r[2].y() / std::cos(pitch), r[2].z() / std::cos(pitch));
      yaw = std::atan2(r[1].x() / std::cos(pitch), r[0].x() / std::cos(pitch));
    }
  }
  void getEulerYPR(double & y, double & p, double & ro) const { getRPY(ro, p, y); }
  void getRotation(Quaternion & q) const
  {
    const double t = r[0].x() + r[1].y() + r[2].z();
    double v[4];
    if (t > 0) {
      double s = std::sqrt(t + 1);
      v[3] = s * 0.5; s = 0.5 / s;
      v[0] = (r[2].y() - r[1].z()) * s; v[1] = (r[0].z() - r[2].x()) * s; v[2] = (r[1].x() - r[0].y()) * s;
    } else {
      const int i = r[0].x() < r[1].y() ? (r[1].y() < r[2].z() ? 2 : 1) : (r[0].x() < r[2].z() ? 2 : 0), j = (i + 1) % 3, k = (i + 2) % 3;
      double s = std::sqrt(r[i][i] - r[j][j] - r[k][k] + 1);
      v[i] = s * 0.5; s = 0.5 / s;
      v[3] = (r[k][j] - r[j][k]) * s; v[j] = (r[j][i] + r[i][j]) * s; v[k] = (r[k][i] + r[i][k]) * s;
    }
    q = Quaternion(v[0], v[1], v[2], v[3]);
  }
};
inline Vector3 operator*(const Matrix3x3 & m, const Vector3 & v) { return {m[0].dot(v), m[1].dot(v), m[2].dot(v)}; }
inline Matrix3x3 operator*(const Matrix3x3 & a, const Matrix3x3 & b)
{
  Matrix3x3 c;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) s += a[i][k] * b[k][j]; c[i][j] = s; }
  return c;
}
}  // namespace tf2
