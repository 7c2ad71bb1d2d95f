// Boxes, segments, rotations and frames against plane and space geometry worked out another way (C25).
#include <boost/geometry.hpp>
#include <boost/geometry/geometries/point_xy.hpp>
#include <boost/geometry/geometries/polygon.hpp>
#include <geometry/bounding_box.hpp>
#include <geometry/distance.hpp>
#include <geometry/intersection/collision.hpp>
#include <geometry/intersection/intersection.hpp>
#include <geometry/plane.hpp>
#include <geometry/polygon/line_segment.hpp>
#include <geometry/polygon/polygon.hpp>
#include <geometry/quaternion/direction_to_quaternion.hpp>
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <geometry/quaternion/get_angle_difference.hpp>
#include <geometry/quaternion/get_normal_vector.hpp>
#include <geometry/quaternion/get_rotation.hpp>
#include <geometry/quaternion/get_rotation_matrix.hpp>
#include <geometry/quaternion/make_quaternion.hpp>
#include <geometry/quaternion/norm.hpp>
#include <geometry/quaternion/normalize.hpp>
#include <geometry/quaternion/operator.hpp>
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include <geometry/quaternion/slerp.hpp>
#include <geometry/transform.hpp>
#include <geometry/vector3/cross_2d.hpp>
#include <geometry/vector3/hypot.hpp>
#include <geometry/vector3/inner_product.hpp>
#include <geometry/vector3/internal_angle.hpp>
#include <geometry/vector3/is_finite.hpp>
#include <geometry/vector3/norm.hpp>
#include <geometry/vector3/normalize.hpp>
#include <geometry/vector3/operator.hpp>
#include <geometry/vector3/scalar_to_direction_vector.hpp>
#include <geometry/vector3/truncate.hpp>
#include <geometry/vector3/vector3.hpp>
#include <array>
#include <cmath>
#include <optional>
#include "mc.hpp"

namespace
{
using mc::cat;
namespace g = math::geometry;
using Point = geometry_msgs::msg::Point;
using Vector = geometry_msgs::msg::Vector3;
using Pose = geometry_msgs::msg::Pose;
using Quat = geometry_msgs::msg::Quaternion;
using Box = traffic_simulator_msgs::msg::BoundingBox;

struct P2 { double x, y; };
P2 operator+(P2 a, P2 b) { return {a.x + b.x, a.y + b.y}; }
P2 operator-(P2 a, P2 b) { return {a.x - b.x, a.y - b.y}; }
P2 operator*(P2 a, double k) { return {a.x * k, a.y * k}; }
double dot(P2 a, P2 b) { return a.x * b.x + a.y * b.y; }
double cross(P2 a, P2 b) { return a.x * b.y - a.y * b.x; }
double len(P2 a) { return std::sqrt(dot(a, a)); }
std::string show(P2 p) { return cat("(", p.x, ", ", p.y, ")"); }
std::string show(const Point & p) { return cat("(", p.x, ", ", p.y, ", ", p.z, ")"); }
double away(P2 p, P2 a, P2 b)
{
  const P2 d = b - a;
  const double n = dot(d, d), t = n > 0 ? std::min(1.0, std::max(0.0, dot(p - a, d) / n)) : 0;
  return len(p - (a + d * t));
}
Point pt(double x, double y, double z = 0) { return geometry_msgs::build<Point>().x(x).y(y).z(z); }
bool near(double a, double b, double e) { return std::abs(a - b) <= e; }

// ---------------------------------------------------------------- rotations, the long way
using M = std::array<std::array<double, 3>, 3>;
M mul(const M & a, const M & b)
{
  M r{};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
M transposed(const M & a)
{
  M r{};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = a[j][i];
  return r;
}
M about(int axis, double a)
{
  const double c = std::cos(a), s = std::sin(a);
  if (axis == 0) return {{{1, 0, 0}, {0, c, -s}, {0, s, c}}};
  if (axis == 1) return {{{c, 0, s}, {0, 1, 0}, {-s, 0, c}}};
  return {{{c, -s, 0}, {s, c, 0}, {0, 0, 1}}};
}
M rpy(double r, double p, double y) { return mul(about(2, y), mul(about(1, p), about(0, r))); }
using V = std::array<double, 3>;
V mul(const M & a, const V & v) { V r{}; for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) r[i] += a[i][k] * v[k]; return r; }
double apart(const M & a, const M & b) { double d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d = std::max(d, std::abs(a[i][j] - b[i][j])); return d; }
double turn(const M & a, const M & b)  // the angle of the rotation from a to b
{
  const M r = mul(transposed(a), b);
  const double s = std::sqrt(std::pow(r[2][1] - r[1][2], 2) + std::pow(r[0][2] - r[2][0], 2) + std::pow(r[1][0] - r[0][1], 2));
  return std::atan2(s, r[0][0] + r[1][1] + r[2][2] - 1);
}
Quat quat(double r, double p, double y)
{
  const double cr = std::cos(r / 2), sr = std::sin(r / 2), cp = std::cos(p / 2), sp = std::sin(p / 2), cy = std::cos(y / 2), sy = std::sin(y / 2);
  return geometry_msgs::build<Quat>().x(sr * cp * cy - cr * sp * sy).y(cr * sp * cy + sr * cp * sy).z(cr * cp * sy - sr * sp * cy).w(cr * cp * cy + sr * sp * sy);
}
M matrix(const Quat & q)  // by turning the axes, v + 2 w (u x v) + 2 u x (u x v)
{
  M m{};
  for (int j = 0; j < 3; ++j) {
    V v{}; v[j] = 1;
    const V u{q.x, q.y, q.z};
    auto x = [](const V & a, const V & b) { return V{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; };
    const V t = x(u, v), tt = x(u, t);
    for (int i = 0; i < 3; ++i) m[i][j] = v[i] + 2 * q.w * t[i] + 2 * tt[i];
  }
  return m;
}

// ---------------------------------------------------------------- boxes
struct Placed { Pose pose; Box box; std::array<P2, 4> corner; double low, high; std::string text; };
Placed place(P2 at, double yaw, double z, double sx, double sy, double sz, double cx, double cy, double cz)
{
  Placed r;
  r.pose.position = pt(at.x, at.y, z);
  r.pose.orientation = quat(0, 0, yaw);
  r.box.center = pt(cx, cy, cz);
  r.box.dimensions.x = sx, r.box.dimensions.y = sy, r.box.dimensions.z = sz;
  const double c = std::cos(yaw), s = std::sin(yaw);
  const double xs[4] = {cx + sx / 2, cx - sx / 2, cx - sx / 2, cx + sx / 2}, ys[4] = {cy + sy / 2, cy + sy / 2, cy - sy / 2, cy - sy / 2};
  for (int i = 0; i < 4; ++i) r.corner[i] = {at.x + c * xs[i] - s * ys[i], at.y + s * xs[i] + c * ys[i]};
  r.low = z + cz - sz / 2, r.high = z + cz + sz / 2;
  r.text = cat("a box of ", sx, " x ", sy, " around (", cx, ", ", cy, ") at ", show(at), " turned by ", yaw);
  return r;
}
// by how much the two rectangles overlap (> 0) or are separated (< 0) along the best axis
double overlap(const Placed & a, const Placed & b)
{
  double least = 1e300;
  for (const auto * p : {&a, &b})
    for (int e = 0; e < 2; ++e) {
      P2 d = p->corner[e + 1] - p->corner[e];
      const double n = len(d);
      if (n == 0) continue;
      d = d * (1 / n);
      double a0 = 1e300, a1 = -1e300, b0 = 1e300, b1 = -1e300;
      for (int i = 0; i < 4; ++i) {
        const double u = dot(a.corner[i] - a.corner[0], d), v = dot(b.corner[i] - a.corner[0], d);
        a0 = std::min(a0, u), a1 = std::max(a1, u), b0 = std::min(b0, v), b1 = std::max(b1, v);
      }
      least = std::min(least, std::min(a1, b1) - std::max(a0, b0));
    }
  return least;
}
double gap(const Placed & a, const Placed & b)
{
  double d = 1e300;
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) {
      d = std::min(d, away(a.corner[i], b.corner[j], b.corner[(j + 1) % 4]));
      d = std::min(d, away(b.corner[i], a.corner[j], a.corner[(j + 1) % 4]));
    }
  return d;
}
double edge(const Placed & a, P2 p) { double d = 1e300; for (int i = 0; i < 4; ++i) d = std::min(d, away(p, a.corner[i], a.corner[(i + 1) % 4])); return d; }

void pair(const Placed & a, const Placed & b)
{
  const std::string what = cat(a.text, " and ", b.text);
  mc::current(what);
  const double over = overlap(a, b), d = over < 0 ? gap(a, b) : 0;
  constexpr double close = 1e-6;
  mc::executed();
  if (std::abs(over) < close) { mc::outcome("borderline"); return; }
  auto bad = [&](const std::string & key, const std::string & text) { mc::violation(key, text, what); };
  const auto distance = g::getPolygonDistance(a.pose, a.box, b.pose, b.box);
  const auto poses = g::getClosestPoses(a.pose, a.box, b.pose, b.box);
  auto ring = [](const Placed & p) { std::vector<Point> r; for (int i = 0; i < 5; ++i) r.push_back(pt(p.corner[i % 4].x, p.corner[i % 4].y)); return r; };
  const double between = g::getDistance2D(ring(a), ring(b));
  if (!near(between, d, 1e-6)) bad("distance between polygons", cat("getDistance2D gives ", between, " instead of ", d, " for ", what));
  if (over > 0) {
    mc::outcome("overlap");
    if (distance) bad("distance of overlapping boxes", cat("a distance of ", *distance, " is given although they overlap: ", what));
    if (poses) bad("closest points of overlapping boxes", cat("closest points are given although they overlap: ", what));
  } else {
    mc::outcome("apart");
    if (!distance) bad("no distance", cat("no distance is given although they are ", d, " apart: ", what));
    else if (!near(*distance, d, 1e-6)) bad("wrong distance", cat("the distance is given as ", *distance, ", it is ", d, ": ", what));
    if (!poses) bad("no closest points", cat("no closest points are given although they are ", d, " apart: ", what));
    else {
      const P2 f{poses->first.position.x, poses->first.position.y}, s{poses->second.position.x, poses->second.position.y};
      if (!near(len(f - s), d, 1e-6)) bad("closest points not closest", cat(show(f), " and ", show(s), " are ", len(f - s), " apart, the boxes ", d, ": ", what));
      if (edge(b, f) > 1e-6 || edge(a, s) > 1e-6) bad("closest points swapped", cat("the first point, ", show(f), ", is to lie on the second box and the second, ", show(s), ", on the first: ", what));
    }
  }
  // collision: the same in the plane, and the heights overlap
  for (const double lift : {0.0, 0.75, 1.75, -1.25}) {
    Pose up = b.pose;
    up.position.z += lift;
    const double height = std::min(a.high, b.high + lift) - std::max(a.low, b.low + lift);
    if (std::abs(height) < close) continue;
    const bool hit = g::checkCollision2D(a.pose, a.box, up, b.box), hit2 = g::checkCollision2D(up, b.box, a.pose, a.box);
    if (hit != (over > 0 && height > 0)) bad(hit ? "collision invented" : "collision missed", cat(hit ? "a collision is reported" : "no collision is reported", " with the second box lifted by ", lift, ": ", what));
    if (hit != hit2) bad("collision not symmetric", cat("the answer depends on the order, with the second box lifted by ", lift, ": ", what));
  }
}

void boxes()
{
  const std::vector<std::array<double, 6>> shapes = {{4, 2, 1.5, 1, 0, 0.75}, {1, 1, 1.5, 0, 0, 0.5}, {0.5, 3, 1, -0.5, 0.75, 0.5}, {5, 0.25, 2, 2, -1, 1}};
  std::vector<double> yaws = {0, 0.3, M_PI / 4, M_PI / 2, 2.2, M_PI, -1.1, -M_PI / 2};
  if (mc::thorough()) for (double y : {0.01, 0.9, 1.5, 2.9, -0.6, -2.0, -2.7}) yaws.push_back(y);
  const double step = mc::thorough() ? 0.75 : 1.25;
  std::vector<double> grid;
  for (double v = -6.25; v <= 6.3; v += step) grid.push_back(v);
  for (const P2 base : {P2{0, 0}, P2{3735.5, 73812.25}})
    for (std::size_t i = 0; i < shapes.size(); ++i)
      for (std::size_t j = 0; j < shapes.size(); ++j)
        for (const double ya : {0.0, 0.7, -2.4})
          for (const double yb : yaws) {
            if (!mc::mine()) continue;
            const auto & s = shapes[i];
            const auto & t = shapes[j];
            const auto a = place(base, ya, 10, s[0], s[1], s[2], s[3], s[4], s[5]);
            for (const double x : grid)
              for (const double y : grid) pair(a, place(base + P2{x, y}, yb, 10.2, t[0], t[1], t[2], t[3], t[4], t[5]));
            mc::state(mc::cat("boxes", i, j, ya, yb, base.x));
          }
}

// the corners of one box, in its own frame and widened
void corners()
{
  for (const double sx : {4.0, 0.5}) for (const double sy : {2.0, 0.25}) for (const double sz : {1.5, 1.0}) for (const double cx : {1.0, -0.5}) for (const double cy : {0.0, 0.3}) for (const double cz : {0.75, -0.1})
  for (const double right : {0.0, 0.5}) for (const double left : {0.0, 0.2}) for (const double front : {0.0, 1.0}) for (const double rear : {0.0, 0.4}) {
    if (!mc::mine()) continue;
    mc::executed();
    const auto p = place({0, 0}, 0, 0, sx, sy, sz, cx, cy, cz);
    const auto d = g::getDistancesFromCenterToEdge(p.box);
    const std::string what = p.text;
    mc::current(what);
    if (!near(d.front, cx + sx / 2, 1e-9) || !near(d.rear, cx - sx / 2, 1e-9) || !near(d.left, cy + sy / 2, 1e-9) || !near(d.right, cy - sy / 2, 1e-9) || !near(d.up, p.high, 1e-9) || !near(d.down, p.low, 1e-9))
      mc::violation("edges of a box", cat("front ", d.front, " rear ", d.rear, " left ", d.left, " right ", d.right, " up ", d.up, " down ", d.down), what);
    const auto pts = g::getPointsFromBbox(p.box, right, left, front, rear);
    const P2 want[4] = {{cx + sx / 2 + front, cy + sy / 2 + left}, {cx - sx / 2 - rear, cy + sy / 2 + left}, {cx - sx / 2 - rear, cy - sy / 2 - right}, {cx + sx / 2 + front, cy - sy / 2 - right}};
    bool good = pts.size() == 4;
    for (int i = 0; good && i < 4; ++i) good = near(pts[i].x, want[i].x, 1e-9) && near(pts[i].y, want[i].y, 1e-9) && near(pts[i].z, p.high, 1e-9);
    if (!good) mc::violation("corners of a box", cat("widened by right ", right, " left ", left, " front ", front, " rear ", rear), what);
    auto hull = g::toPolygon2D(p.box);
    good = hull.size() == 5 && hull.front() == hull.back();
    for (int i = 0; good && i < 4; ++i) {
      bool found = false;
      for (const auto & h : hull) found |= near(h.x, p.corner[i].x, 1e-9) && near(h.y, p.corner[i].y, 1e-9) && h.z == 0;
      good = found;
    }
    if (!good) mc::violation("outline of a box", "the outline in the plane is not the closed ring of its four corners", what);
    // what lies inside, and the nearest point of the outline
    g::boost_polygon ring = g::toBoostPolygon(pts);
    for (double x = -4; x <= 5; x += 0.62) for (double y = -2; y <= 2; y += 0.37) {
      const bool in = x < p.corner[0].x && x > p.corner[1].x && y < p.corner[0].y && y > p.corner[2].y;
      if (edge(p, {x, y}) < 1e-9) continue;
      if (g::contains(hull, pt(x, y)) != in) mc::violation("point inside the outline", cat(show(P2{x, y}), " is ", in ? "inside" : "outside"), what);
      const auto c = g::getClosestPointOnPolygon({x, y}, ring);
      double best = 1e300;
      for (int i = 0; i < 4; ++i) best = std::min(best, away({x, y}, want[i], want[(i + 1) % 4]));
      double on = 1e300;
      for (int i = 0; i < 4; ++i) on = std::min(on, away({c.x(), c.y()}, want[i], want[(i + 1) % 4]));
      if (on > 1e-9 || !near(len(P2{c.x(), c.y()} - P2{x, y}), best, 1e-9)) mc::violation("nearest point of an outline", cat(show(P2{c.x(), c.y()}), " for ", show(P2{x, y}), ", the outline is ", best, " away"), what);
    }
  }
}

// ---------------------------------------------------------------- segments
struct Frame { double scale; P2 at; double turn; };
void segments(const std::vector<Frame> & frames, int n)
{
  for (const auto & f : frames) {
    const P2 ex{f.scale * std::cos(f.turn), f.scale * std::sin(f.turn)}, ey{-ex.y, ex.x};
    const bool exact = f.turn == 0 && f.scale == 1;
    auto put = [&](int i, int z) { return pt(f.at.x + ex.x * (i % n) + ey.x * (i / n), f.at.y + ex.y * (i % n) + ey.y * (i / n), z); };
    const double tiny = 1e-6 * f.scale + 1e-8;
    for (int a = 0; a < n * n; ++a) for (int b = 0; b < n * n; ++b) {
      if (!mc::mine()) continue;
      if (a == b) continue;
      const g::LineSegment s(put(a, 1), put(b, 3));
      const P2 A{double(a % n), double(a / n)}, B{double(b % n), double(b / n)};
      const std::string base = cat("the segment from ", show(s.start_point), " to ", show(s.end_point));
      for (int c = 0; c < n * n; ++c) for (int d = 0; d < n * n; ++d) {
        if (c == d) continue;
        const P2 C{double(c % n), double(c / n)}, D{double(d % n), double(d / n)};
        const double side = cross(B - A, D - C);
        const double c1 = cross(B - A, C - A), c2 = cross(B - A, D - A), c3 = cross(D - C, A - C), c4 = cross(D - C, B - C);
        auto sgn = [](double v) { return (v > 0) - (v < 0); };
        auto within = [](P2 p, P2 u, P2 v) { return std::min(u.x, v.x) <= p.x && p.x <= std::max(u.x, v.x) && std::min(u.y, v.y) <= p.y && p.y <= std::max(u.y, v.y); };
        const bool line = side == 0 && c1 == 0;
        const bool touch = line ? within(A, C, D) || within(B, C, D) || within(C, A, B) || within(D, A, B) : sgn(c1) * sgn(c2) <= 0 && sgn(c3) * sgn(c4) <= 0;
        const bool proper = sgn(c1) * sgn(c2) < 0 && sgn(c3) * sgn(c4) < 0;
        // points computed in floating point cannot tell a touch from a near miss
        if (!exact && touch && !proper) continue;
        if (!exact && line) continue;
        mc::executed();
        const g::LineSegment t(put(c, 0), put(d, 0));
        auto text = [&] { return cat(base, " and the one from ", show(t.start_point), " to ", show(t.end_point)); };
        mc::outcome(line ? "in one line" : proper ? "crossing" : touch ? "touching" : "apart");
        const bool got = s.isIntersect2D(t), free = g::isIntersect2D(std::vector<g::LineSegment>{s, t});
        if (got != touch || free != touch) { mc::violation(got ? "intersection invented" : "intersection missed", cat("reported: ", got ? "intersecting" : "apart", ", ", text()), text()); continue; }
        std::optional<Point> at;
        bool thrown = false;
        try { at = s.getIntersection2D(t); } catch (const std::exception &) { thrown = true; }
        if (thrown) {
          if (!(line && touch)) mc::violation("intersection point raises", cat("no intersection point can be asked for: ", text()), text());
          continue;
        }
        if (at.has_value() != touch && !line) { mc::violation("intersection point presence", cat(at ? "a point is given" : "no point is given", ", ", text()), text()); continue; }
        if (!touch || line) continue;
        const double u = c3 / (c3 - c4);  // position along s
        const P2 want{s.start_point.x + s.vector.x * u, s.start_point.y + s.vector.y * u};
        if (len(P2{at->x, at->y} - want) > tiny) mc::violation("intersection point", cat("given as ", show(*at), ", it is at ", show(want), ": ", text()), text());
        for (const bool metres : {false, true}) {
          std::optional<double> v;
          try { v = s.get2DIntersectionSValue(t, metres); } catch (const std::exception & e) { mc::violation("position of a crossing raises", cat(e.what(), ": ", text()), text()); continue; }
          const double expect = u * (metres ? s.length : 1);
          if (!v) mc::violation("position of a crossing missing", cat("the segments cross, but no position along the first is given: ", text()), text());
          else if (!near(*v, expect, 1e-6 * (metres ? s.length : 1) + tiny)) mc::violation("position of a crossing", cat("given as ", *v, " instead of ", expect, ": ", text()), text());
        }
      }
      // the segment by itself
      const double l2 = len(B - A) * f.scale, l3 = std::sqrt(l2 * l2 + 4);
      auto check = [&](bool good, const std::string & key, const std::string & detail) { if (!good) mc::violation(key, cat(detail, ", ", base), base); };
      mc::current(base);
      check(near(s.length, l3, tiny) && near(s.length_2d, l2, tiny), "length of a segment", cat("length ", s.length, " and ", s.length_2d, " in the plane"));
      const double yaw = std::atan2(s.end_point.y - s.start_point.y, s.end_point.x - s.start_point.x), pitch = -std::atan2(2.0, l2);
      for (int k = 0; k <= 10; ++k) {
        const double u = k / 10.0;
        for (const bool metres : {false, true}) {
          if (metres && (k == 0 || k == 10)) continue;
          const double v = metres ? u * s.length : u;
          const Point p = s.getPoint(v, metres);
          const Point want = pt(s.start_point.x + s.vector.x * u, s.start_point.y + s.vector.y * u, 1 + 2 * u);
          check(std::abs(p.x - want.x) < tiny && std::abs(p.y - want.y) < tiny && std::abs(p.z - want.z) < 1e-9, "point of a segment", cat("at ", v, ": ", show(p), " instead of ", show(want)));
          for (const bool fill : {false, true}) {
            const Pose q = s.getPose(v, metres, fill);
            check(q.position == p && apart(matrix(q.orientation), rpy(0, fill ? pitch : 0, yaw)) < 1e-6, "direction of a segment", cat("at ", v, fill ? " with" : " without", " pitch"));
          }
          check(near(s.getSquaredDistanceIn2D(pt(p.x + 3, p.y - 4, 9), v, metres), 25, 1e-6 + tiny), "squared distance to a segment", cat("at ", v));
          const auto w = s.getSquaredDistanceVector(pt(p.x + 3, p.y - 4, p.z + 9), v, metres);
          check(near(w.x, 3, 1e-6) && near(w.y, -4, 1e-6) && near(w.z, 9, 1e-6), "vector to a segment", cat("at ", v));
          // a point on the segment is found again, one beside it is not
          if (const auto back = s.get2DIntersectionSValue(p, metres); !back) check(false, "position of a point of the segment missing", cat("the point at ", v, ", ", show(p), ", is not found on it"));
          else check(near(*back, v, (metres ? l3 : 1) * 1e-6 + tiny), "position of a point of the segment", cat("the point at ", v, " is found at ", *back));
          for (const double off : {0.05, -0.05}) {
            const Point beside = pt(p.x - off * f.scale * std::sin(yaw), p.y + off * f.scale * std::cos(yaw));
            check(!s.isIntersect2D(beside), "point beside the segment", cat(show(beside), " is taken as lying on it"));
            check(s.relativePointPosition2D(beside) == (off > 0 ? 1 : -1), "side of a segment", cat(show(beside), " lies to the ", off > 0 ? "left" : "right"));
          }
          // a pose across it: the position is where its lateral axis meets the segment
          for (const double off : {0.0, 0.6, -0.6, 1.4, -1.4}) for (const double skew : {0.0, 0.5, -0.9, 3.0}) {
            if (k == 0 || k == 10) continue;
            Pose pose;
            const double h = yaw + skew;
            pose.position = pt(p.x - off * std::sin(h), p.y + off * std::cos(h), 7);
            pose.orientation = quat(0, 0, h);
            const auto found = s.getSValue(pose, 1.0, metres);
            check(found.has_value() == (std::abs(off) < 1), found ? "position of a far pose" : "position of a near pose missing", cat("a pose ", off, " away along its lateral axis from the point at ", v, ", turned by ", skew));
            if (found) check(near(*found, v, (metres ? l3 : 1) * 1e-6 + tiny), "position of a pose", cat("a pose ", off, " away from the point at ", v, ", turned by ", skew, " is found at ", *found));
          }
        }
      }
      for (const double u : {-0.01, 1.01}) {
        const double v = u * s.length;
        auto raises = [](auto fn) { try { fn(); } catch (const std::exception &) { return true; } return false; };
        check(raises([&] { s.getPoint(u); }) && raises([&] { s.getPoint(v, true); }), "position outside a segment accepted", cat("at ", u));
        const Point p = pt(s.start_point.x + s.vector.x * u, s.start_point.y + s.vector.y * u);
        check(!s.get2DIntersectionSValue(p) && !s.isIntersect2D(p), "point beyond the segment", cat(show(p), " is taken as lying on it"));
      }
      const auto normal = s.getNormalVector();
      check(near(normal.x, -s.vector.y, 1e-6) && near(normal.y, s.vector.x, 1e-6) && normal.z == 0, "normal of a segment", cat("(", normal.x, ", ", normal.y, ")"));
      if (exact) {
        bool thrown = false; double slope = 0;
        try { slope = s.get2DVectorSlope(); } catch (const std::exception &) { thrown = true; }
        check(thrown == (A.x == B.x), thrown ? "slope of a segment raises" : "slope of a vertical segment", cat("slope ", slope));
        if (!thrown) check(near(slope, (B.y - A.y) / (B.x - A.x), 1e-9), "slope of a segment", cat("given as ", slope));
      }
    }
  }
  // chains of segments
  for (int m = 0; m < 256; ++m) for (const bool close : {false, true}) for (int size = 0; size <= 4; ++size) {
    if (!mc::mine()) continue;
    if (m >> (2 * size)) continue;
    std::vector<Point> points;
    for (int i = 0; i < size; ++i) points.push_back(pt((m >> (2 * i)) & 1, (m >> (2 * i + 1)) & 1));
    std::vector<std::pair<Point, Point>> want;
    for (int i = 0; i + 1 < size; ++i) if (!(points[i] == points[i + 1])) want.push_back({points[i], points[i + 1]});
    if (close && size > 1 && !(points.back() == points.front())) want.push_back({points.back(), points.front()});
    const auto got = g::getLineSegments(points, close);
    bool same = got.size() == want.size();
    for (std::size_t i = 0; same && i < got.size(); ++i) same = got[i].start_point == want[i].first && got[i].end_point == want[i].second;
    mc::executed();
    if (!same) mc::violation("segments of a chain", cat(got.size(), " segments of a chain of ", size, " points, ", close ? "closed" : "open", ", case ", m), cat("case ", m));
  }
}

// ---------------------------------------------------------------- rotations and frames
void frames()
{
  std::vector<double> yaws, pitches = {0, 0.4, -0.9, 1.3}, rolls = {0, 0.6, -1.2, 2.5};
  for (int i = -8; i <= 8; ++i) yaws.push_back(i * M_PI / 8 + (std::abs(i) == 8 ? -0.01 * i / 8 : 0));
  struct R { double r, p, y; };
  std::vector<R> all;
  for (double y : yaws) for (double p : pitches) for (double r : rolls) all.push_back({r, p, y});
  for (std::size_t i = 0; i < all.size(); ++i) {
    if (!mc::mine()) continue;
    const auto [r, p, y] = all[i];
    const M m = rpy(r, p, y);
    const std::string what = cat("roll ", r, " pitch ", p, " yaw ", y);
    mc::current(what);
    auto check = [&](bool good, const std::string & key, const std::string & detail) { if (!good) mc::violation(key, cat(detail, ", ", what), what); };
    Vector e; e.x = r, e.y = p, e.z = y;
    const Quat q = g::convertEulerAngleToQuaternion(e);
    check(apart(matrix(q), m) < 1e-9, "orientation of angles", "the orientation made of the angles turns otherwise");
    check(near(g::norm(q), 1, 1e-9), "length of an orientation", cat(g::norm(q)));
    const auto back = g::convertQuaternionToEulerAngle(q);
    check(apart(rpy(back.x, back.y, back.z), m) < 1e-9 && near(back.x, r, 1e-9) && near(back.y, p, 1e-9) && near(back.z, y, 1e-9), "angles of an orientation", cat("given as ", back.x, " ", back.y, " ", back.z));
    const auto em = g::getRotationMatrix(q);
    M got{}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) got[a][b] = em(a, b);
    check(apart(got, m) < 1e-9, "rotation matrix", "");
    const auto n = g::getNormalVector(q);
    check(near(n.x, m[0][2], 1e-9) && near(n.y, m[1][2], 1e-9) && near(n.z, m[2][2], 1e-9), "normal of an orientation", "");
    for (const double k : {-2.0, 0.5, 7.0}) {
      const auto d = g::scalarToDirectionVector(k, q);
      check(near(d.x, k * m[0][0], 1e-9) && near(d.y, k * m[1][0], 1e-9) && near(d.z, k * m[2][0], 1e-9), "vector along an orientation", cat("of length ", k));
    }
    const auto dir = g::convertDirectionToQuaternion(3 * m[0][0], 3 * m[1][0], 3 * m[2][0]);
    check(apart(matrix(dir), rpy(0, p, y)) < 1e-9, "orientation of a direction", "");
    Quat scaled = q; scaled.x *= 5, scaled.y *= 5, scaled.z *= 5, scaled.w *= 5;
    check(apart(matrix(g::normalize(scaled)), m) < 1e-9, "normalised orientation", "");
    for (std::size_t j = mc::thorough() ? 0 : i % 3; j < all.size(); j += mc::thorough() ? 1 : 3) {
      const auto & o = all[j];
      const M m2 = rpy(o.r, o.p, o.y);
      Vector e2; e2.x = o.r, e2.y = o.p, e2.z = o.y;
      const Quat q2 = g::convertEulerAngleToQuaternion(e2);
      const double angle = turn(m, m2);
      auto both = [&](bool good, const std::string & key, const std::string & detail) { if (!good) mc::violation(key, cat(detail, ", ", what, " and roll ", o.r, " pitch ", o.p, " yaw ", o.y), what); };
      mc::executed();
      using g::operator*;
      both(apart(matrix(q * q2), mul(m, m2)) < 1e-9, "product of orientations", "");
      both(apart(matrix(g::getRotation(q, q2)), mul(transposed(m), m2)) < 1e-9, "rotation between orientations", "");
      const double given = g::getAngleDifference(q, q2);
      both(near(std::min(given, 2 * M_PI - given), angle, 1e-6), "angle between orientations", cat("given as ", given, ", it is ", angle));
      for (const double t : {0.0, 0.25, 0.5, 0.9, 1.0}) {
        if (angle > M_PI - 1e-3) continue;  // both ways round are as long
        const Quat s = g::slerp(q, q2, t);
        const M ms = matrix(s);
        both(near(g::norm(s), 1, 1e-6), "length between orientations", cat("at ", t, ": ", g::norm(s)));
        both(near(turn(m, ms), t * angle, 1e-5) && near(turn(ms, m2), (1 - t) * angle, 1e-5), "way between orientations", cat("at ", t, " of the way, ", angle, " long, the orientation is ", turn(m, ms), " from the first and ", turn(ms, m2), " from the second"));
      }
      // frames
      Pose from, to;
      from.position = pt(12.5, -7, 3), from.orientation = q;
      to.position = pt(-4, 80.5, 1.5), to.orientation = q2;
      const V delta{to.position.x - from.position.x, to.position.y - from.position.y, to.position.z - from.position.z};
      const V rel = mul(transposed(m), delta);
      const Pose relative = g::getRelativePose(from, to);
      both(near(relative.position.x, rel[0], 1e-6) && near(relative.position.y, rel[1], 1e-6) && near(relative.position.z, rel[2], 1e-6), "relative position", show(relative.position));
      both(apart(matrix(relative.orientation), mul(transposed(m), m2)) < 1e-9, "relative orientation", "");
      for (const V & v : {V{1, 0, 0}, V{0, 2, 0}, V{-1, 3, 0.5}}) {
        const V w = mul(m2, v);
        const Point moved = g::transformPoint(to, pt(v[0], v[1], v[2]));
        both(near(moved.x, to.position.x + w[0], 1e-6) && near(moved.y, to.position.y + w[1], 1e-6) && near(moved.z, to.position.z + w[2], 1e-6), "point of a frame", show(moved));
        const V seen = mul(transposed(m), V{delta[0] + w[0], delta[1] + w[1], delta[2] + w[2]});
        const Point sensed = g::transformPoint(to, from, pt(v[0], v[1], v[2]));
        both(near(sensed.x, seen[0], 1e-6) && near(sensed.y, seen[1], 1e-6) && near(sensed.z, seen[2], 1e-6), "point seen from a sensor", cat(show(sensed), " instead of (", seen[0], ", ", seen[1], ", ", seen[2], ")"));
        const auto many = g::transformPoints(to, {pt(v[0], v[1], v[2]), pt(0, 0, 0)});
        both(many.size() == 2 && many[0] == moved && many[1] == to.position, "points of a frame", "");
        const auto far = g::transformPoints(to, from, {pt(0, 0, 0), pt(v[0], v[1], v[2])});
        both(far.size() == 2 && far[1] == sensed, "points seen from a sensor", "");
      }
    }
  }
}

// ---------------------------------------------------------------- vectors
void vectors()
{
  std::vector<double> c = {0, 1, -2, 0.3, 1e5, -0.007};
  std::vector<Vector> all;
  for (double x : c) for (double y : c) for (double z : c) { Vector v; v.x = x, v.y = y, v.z = z; all.push_back(v); }
  auto N = [](const Vector & v) { return double(std::sqrt((long double)v.x * v.x + (long double)v.y * v.y + (long double)v.z * v.z)); };
  for (std::size_t i = 0; i < all.size(); ++i) {
    if (!mc::mine()) continue;
    const auto & a = all[i];
    const std::string what = cat("(", a.x, ", ", a.y, ", ", a.z, ")");
    mc::current(what);
    auto check = [&](bool good, const std::string & key, const std::string & detail) { if (!good) mc::violation(key, cat(detail, ", ", what), what); };
    auto rel = [](double u, double v) { return std::abs(u - v) <= 1e-9 * (1 + std::abs(v)); };
    check(rel(g::norm(a), N(a)), "length of a vector", cat(g::norm(a)));
    check(g::isfinite(a), "finite vector", "");
    for (int k = 0; k < 3; ++k) for (const double odd : {NAN, INFINITY, -INFINITY}) { Vector b = a; (k == 0 ? b.x : k == 1 ? b.y : b.z) = odd; check(!g::isfinite(b), "vector that is not finite", cat("component ", k)); }
    bool thrown = false; Vector u;
    try { u = g::normalize(a); } catch (const std::exception &) { thrown = true; }
    check(thrown == (N(a) == 0), "unit vector", thrown ? "raises" : "of nothing");
    if (!thrown) check(rel(u.x * N(a), a.x) && rel(u.y * N(a), a.y) && rel(u.z * N(a), a.z), "unit vector", "");
    for (const double most : {0.5, 3.0, 1e6}) {
      const auto t = g::truncate(a, most);
      const double k = N(a) > most ? most / N(a) : 1;
      check(rel(t.x, a.x * k) && rel(t.y, a.y * k) && rel(t.z, a.z * k), "truncated vector", cat("to ", most));
    }
    for (const auto & b : all) {
      mc::executed();
      const double ip = a.x * b.x + a.y * b.y + a.z * b.z;
      check(rel(g::innerProduct(a, b), ip), "inner product", "");
      using g::operator+; using g::operator-; using g::operator*; using g::operator/; using g::operator+=; using g::operator==;
      const Vector s = a + b, d = a - b, m = a * 2.5, q = a / 4.0;
      check(s.x == a.x + b.x && s.y == a.y + b.y && s.z == a.z + b.z && d.x == a.x - b.x && d.y == a.y - b.y && d.z == a.z - b.z && m.x == a.x * 2.5 && m.y == a.y * 2.5 && m.z == a.z * 2.5 && q.x == a.x / 4 && q.y == a.y / 4 && q.z == a.z / 4, "vector arithmetic", "");
      Vector w = a; w += b; check(w.x == s.x && w.y == s.y && w.z == s.z, "vector arithmetic", "in place");
      check((a == b) == (a.x == b.x && a.y == b.y && a.z == b.z), "equality of vectors", "");
      check(rel(g::cross2d(a, b), a.x * b.y - a.y * b.x), "cross product in the plane", "");
      const double h = std::sqrt(std::pow(a.x - b.x, 2) + std::pow(a.y - b.y, 2) + std::pow(a.z - b.z, 2));
      check(rel(g::hypot(pt(a.x, a.y, a.z), pt(b.x, b.y, b.z)), h) && rel(g::getDistance(pt(a.x, a.y, a.z), pt(b.x, b.y, b.z)), h), "distance of points", "");
      if (N(a) > 0 && N(b) > 0) {
        const double cx = a.y * b.z - a.z * b.y, cy = a.z * b.x - a.x * b.z, cz = a.x * b.y - a.y * b.x;
        const double angle = std::atan2(std::sqrt(cx * cx + cy * cy + cz * cz), ip);
        double given = -1;
        try { given = g::getInternalAngle(a, b); } catch (const std::exception & e) { mc::violation("angle between vectors raises", cat("between ", what, " and (", b.x, ", ", b.y, ", ", b.z, ")"), what); continue; }
        check(near(given, angle, 1e-6), "angle between vectors", cat("given as ", given, ", it is ", angle));
      }
      if (N(b) > 0) {
        const g::Plane plane(pt(a.x, a.y, a.z), b);
        check(near(plane.offset(pt(a.x, a.y, a.z)), 0, 1e-4), "plane through a point", cat(plane.offset(pt(a.x, a.y, a.z))));
        check(near(plane.offset(pt(a.x + b.x, a.y + b.y, a.z + b.z)) / (N(b) * N(b)), 1, 1e-3 + 1e-4 / (N(b) * N(b))), "offset from a plane", "");
      }
    }
  }
}

// hulls and extents of point sets
void hulls()
{
  const int n = 4;
  for (int set = 1; set < (1 << (mc::thorough() ? 12 : 9)); ++set) {
    if (!mc::mine()) continue;
    std::vector<Point> points;
    const int w = mc::thorough() ? n : 3;
    for (int i = 0; i < w * 3; ++i) if (set >> i & 1) points.push_back(pt(i % w - 1.5, i / w * 2 + 0.25, i));
    mc::executed();
    const std::string what = cat("point set ", set);
    double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9, z0 = 1e9, z1 = -1e9;
    for (const auto & p : points) x0 = std::min(x0, p.x), x1 = std::max(x1, p.x), y0 = std::min(y0, p.y), y1 = std::max(y1, p.y), z0 = std::min(z0, p.z), z1 = std::max(z1, p.z);
    if (g::getMinValue(points, g::Axis::X) != x0 || g::getMaxValue(points, g::Axis::X) != x1 || g::getMinValue(points, g::Axis::Y) != y0 || g::getMaxValue(points, g::Axis::Y) != y1 || g::getMinValue(points, g::Axis::Z) != z0 || g::getMaxValue(points, g::Axis::Z) != z1)
      mc::violation("extent of points", what, what);
    // a point is a corner of the hull iff it is not between or inside others
    bool flat = true;
    for (const auto & a : points) for (const auto & b : points) flat &= cross({points[0].x - a.x, points[0].y - a.y}, {b.x - a.x, b.y - a.y}) == 0;
    if (flat) continue;
    std::set<std::pair<double, double>> want, got;
    for (const auto & p : points) {
      bool corner = false;  // some half plane holds p alone
      for (int k = 0; k < 720 && !corner; ++k) {
        const P2 d{std::cos(k * M_PI / 360 + 1e-3), std::sin(k * M_PI / 360 + 1e-3)};
        bool alone = true;
        for (const auto & o : points) if (!(o == p)) alone &= dot({o.x - p.x, o.y - p.y}, d) < -1e-9;
        corner = alone;
      }
      if (corner) want.insert({p.x, p.y});
    }
    const auto hull = g::get2DConvexHull(points);
    for (const auto & h : hull) got.insert({h.x, h.y});
    if (got != want || hull.size() != want.size() + 1 || !(hull.front() == hull.back())) mc::violation("hull of points", cat(what, ": ", hull.size(), " points around ", want.size(), " corners"), what);
  }
}
}  // namespace

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "every pair of box shapes × turns × places on a lattice, at the origin and far from it; every pair of segments of a lattice in five frames; every pair of orientations of a grid; every pair of vectors and every set of points of a small lattice";
    boxes();
    corners();
    segments({{1, {0, 0}, 0}, {1, {-2, -1}, 0}, {0.37, {0.1, 0.2}, 0.0}, {3.1, {3735.42, 73812.77}, 0.83}, {0.9, {-89123.1, 43567.9}, -2.2}}, mc::thorough() ? 5 : 4);
    frames();
    vectors();
    hulls();
  });
}
