// Splines, their crossings and the equations behind them against a curve worked out another way (C33).
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <geometry/solver/polynomial_solver.hpp>
#include <geometry/spline/catmull_rom_spline.hpp>
#include <geometry/spline/catmull_rom_subspline.hpp>
#include <geometry/spline/hermite_curve.hpp>
#include <cmath>
#include <array>
#include <optional>
#include "mc.hpp"

namespace
{
using mc::cat;
namespace g = math::geometry;
using Point = geometry_msgs::msg::Point;
using Pose = geometry_msgs::msg::Pose;
using V = std::array<double, 3>;
V operator+(V a, V b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
V operator-(V a, V b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
V operator*(V a, double k) { return {a[0] * k, a[1] * k, a[2] * k}; }
double flat(V a) { return std::hypot(a[0], a[1]); }
double len(V a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
double cross(V a, V b) { return a[0] * b[1] - a[1] * b[0]; }
double dot(V a, V b) { return a[0] * b[0] + a[1] * b[1]; }
V of(const Point & p) { return {p.x, p.y, p.z}; }
Point pt(V v) { return geometry_msgs::build<Point>().x(v[0]).y(v[1]).z(v[2]); }
std::string show(V v) { return cat("(", v[0], ", ", v[1], ", ", v[2], ")"); }
bool near(double a, double b, double e) { return std::abs(a - b) <= e; }
bool near(V a, V b, double e) { return near(a[0], b[0], e) && near(a[1], b[1], e) && near(a[2], b[2], e); }
geometry_msgs::msg::Quaternion quat(double p, double y)
{
  const double cp = std::cos(p / 2), sp = std::sin(p / 2), cy = std::cos(y / 2), sy = std::sin(y / 2);
  return geometry_msgs::build<geometry_msgs::msg::Quaternion>().x(-sp * sy).y(sp * cy).z(cp * sy).w(cp * cy);
}
double apart(const geometry_msgs::msg::Quaternion & a, const geometry_msgs::msg::Quaternion & b) { return 1 - std::abs(a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w); }

// The curve: pieces between the points; a piece leaves and reaches a point along half the way between its neighbours,
// and an end piece has no bend of its own at the end (quadratic).
struct Curve
{
  std::vector<V> p;
  std::size_t pieces() const { return p.size() - 1; }
  V leave(std::size_t i) const
  {
    if (i == 0) { const V in = (p[2] - p[0]) * 0.5; return (p[1] - p[0]) * 2 - in; }
    if (i + 1 == p.size()) { const V in = (p[i] - p[i - 2]) * 0.5; return (p[i] - p[i - 1]) * 2 - in; }
    return (p[i + 1] - p[i - 1]) * 0.5;
  }
  V at(std::size_t i, double u) const
  {
    const V m0 = leave(i), m1 = leave(i + 1);
    const double h = 1 - u;
    return p[i] * (h * h * (1 + 2 * u)) + m0 * (u * h * h) + p[i + 1] * (u * u * (3 - 2 * u)) + m1 * (-u * u * h);
  }
  V speed(std::size_t i, double u) const
  {
    const V m0 = leave(i), m1 = leave(i + 1);
    return (p[i + 1] - p[i]) * (6 * u * (1 - u)) + m0 * ((1 - u) * (1 - 3 * u)) + m1 * (u * (3 * u - 2));
  }
  V bend(std::size_t i, double u) const
  {
    const V m0 = leave(i), m1 = leave(i + 1);
    return (p[i + 1] - p[i]) * (6 - 12 * u) + m0 * (6 * u - 4) + m1 * (6 * u - 2);
  }
};
constexpr int N = 160;
struct Sampled { Curve c; std::vector<std::array<V, N + 1>> q; };
Sampled sample(const std::vector<V> & p)
{
  Sampled s{{p}, {}};
  s.q.resize(p.size() - 1);
  for (std::size_t i = 0; i + 1 < p.size(); ++i) for (int k = 0; k <= N; ++k) s.q[i][k] = s.c.at(i, double(k) / N);
  return s;
}
struct Hit { std::size_t piece; double u; V at; };
// crossings that no rounding can remove: well inside the edge and at a clear angle
std::vector<Hit> sure(const Sampled & s, V a, V b)
{
  std::vector<Hit> r;
  const V e = b - a;
  const double l = flat(e);
  for (std::size_t i = 0; i < s.q.size(); ++i) {
    double before = cross(e, s.q[i][0] - a) / l;
    for (int k = 0; k < N; ++k) {
      const double after = cross(e, s.q[i][k + 1] - a) / l;
      if ((before < 0) != (after < 0)) {
        double lo = double(k) / N, hi = double(k + 1) / N;
        for (int n = 0; n < 45; ++n) { const double m = (lo + hi) / 2; ((cross(e, s.c.at(i, m) - a) < 0) == (before < 0) ? lo : hi) = m; }
        const V x = s.c.at(i, lo), v = s.c.speed(i, lo);
        const double w = dot(x - a, e) / (l * l), angle = std::abs(cross(e, v)) / (l * flat(v));
        if (w > 0.002 && w < 0.998 && angle > 0.03) r.push_back({i, lo, x});
      }
      before = after;
    }
  }
  return r;
}
double away(V p, V a, V b)
{
  const V e = b - a;
  const double n = dot(e, e), t = n > 0 ? std::clamp(dot(p - a, e) / n, 0.0, 1.0) : 0;
  return flat(p - (a + e * t));
}

struct Made { std::vector<V> points; std::string text; };
std::vector<Made> curves(V base, double start, bool coarse)
{
  std::vector<double> turns = coarse ? std::vector<double>{-0.7, 0, 0.35} : std::vector<double>{-1.2, -0.3, 0, 0.05, 0.6, 1.5}, steps = coarse ? std::vector<double>{2, 7} : std::vector<double>{1, 4.5, 9};
  std::vector<Made> r;
  const int n = turns.size() * steps.size();
  for (int count = 2; count <= (coarse ? 4 : 3); ++count) {
    int all = 1;
    for (int i = 0; i < count; ++i) all *= n;
    for (int c = 0; c < all; ++c) {
      V at = base;
      double h = start;
      Made m;
      m.points.push_back(at);
      int code = c;
      for (int i = 0; i < count; ++i) {
        const double t = turns[code % turns.size()]; code /= turns.size();
        const double d = steps[code % steps.size()]; code /= steps.size();
        if (i) h += t;
        at = at + V{d * std::cos(h), d * std::sin(h), i % 2 ? 0.4 : -0.3};
        m.points.push_back(at);
        if (i == 0 && t != turns[0]) { m.points.clear(); break; }
      }
      if (m.points.empty()) continue;
      m.text = "the curve through";
      for (const auto & p : m.points) m.text += " " + show(p);
      r.push_back(m);
    }
  }
  return r;
}

void spline(const Made & made)
{
  const auto ref = sample(made.points);
  const auto & c = ref.c;
  std::vector<Point> control;
  for (const auto & p : made.points) control.push_back(pt(p));
  std::string doing = made.text;
  mc::current(doing);
  auto check = [&](bool good, const char * key, auto detail) { if (!good) mc::violation(key, cat(detail(), ": ", made.text), made.text); };
  const g::CatmullRomSpline s(control);
  mc::executed(), mc::state(made.text);
  const double big = std::max({1.0, std::abs(made.points[0][0]), std::abs(made.points[0][1])});
  const double eps = 1e-9 * big + 1e-7;
  // lengths
  const auto & lengths = s.getLengths();
  check(lengths.size() == c.pieces(), "number of pieces", [&] { return cat(lengths.size()); });
  if (lengths.size() != c.pieces()) return;
  std::vector<double> from{0};
  for (std::size_t i = 0; i < c.pieces(); ++i) {
    double l = 0;
    for (int k = 0; k < N; ++k) l += len(ref.q[i][k + 1] - ref.q[i][k]);
    const double slack = std::abs(len(c.speed(i, 1)) - len(c.speed(i, 0))) / 180 + 2e-3 * l;
    check(near(lengths[i], l, slack), "length of a piece", [&] { return cat("piece ", i, " is given as ", lengths[i], " long, it is ", l); });
    from.push_back(from.back() + lengths[i]);
  }
  const double L = s.getLength();
  check(near(L, from.back(), 1e-9 * L), "length of a curve", [&] { return cat("given as ", L, ", the pieces add up to ", from.back()); });
  double low = 1e300, high = -1e300;
  for (const auto & p : made.points) low = std::min(low, p[2]), high = std::max(high, p[2]);
  check(s.getAltitudeRange() == std::make_pair(low, high), "altitudes of a curve", [&] { return cat(s.getAltitudeRange().first, " to ", s.getAltitudeRange().second); });
  // points, directions, offsets
  double sharpest = 0;
  auto curvature = [&](std::size_t i, double u) { const V v = c.speed(i, u), b = c.bend(i, u); return cross(v, b) / std::pow(flat(v), 3); };
  for (std::size_t i = 0; i < c.pieces(); ++i) for (int k = 0; k <= 10; ++k) if (std::abs(curvature(i, k / 10.0)) > std::abs(sharpest)) sharpest = curvature(i, k / 10.0);
  if (std::abs(sharpest) < 1e3) check(near(std::abs(s.getMaximum2DCurvature()), std::abs(sharpest), 1e-4 + 1e-3 * std::abs(sharpest)), "sharpest bend", [&] { return cat("given as ", s.getMaximum2DCurvature(), ", it is ", sharpest); });
  for (std::size_t i = 0; i < c.pieces(); ++i)
    for (int k = 0; k <= 8; ++k) {
      const double u = k / 8.0, at = i + 1 == c.pieces() && k == 8 ? L : from[i] + lengths[i] * u;
      const V want = c.at(i, u), v = c.speed(i, u);
      const V got = of(s.getPoint(at));
      check(near(got, want, eps), "point of a curve", [&] { return cat("at ", at, " given as ", show(got), ", it is ", show(want)); });
      if (flat(v) < 0.05 * lengths[i]) continue;  // turning on the spot
      const double yaw = std::atan2(v[1], v[0]), pitch = std::atan2(-v[2], flat(v));
      for (const bool fill : {true, false}) {
        const auto pose = s.getPose(at, fill);
        check(near(of(pose.position), want, eps) && apart(pose.orientation, quat(fill ? pitch : 0, yaw)) < 1e-9, "pose on a curve", [&] { return cat("at ", at, fill ? " with" : " without", " pitch"); });
      }
      const auto n = s.getNormalVector(at), t = s.getTangentVector(at);
      check(near(V{t.x, t.y, t.z}, v, 1e-6 * (1 + len(v)) + eps), "direction of a curve", [&] { return cat("at ", at, " given as ", show({t.x, t.y, t.z}), ", it is ", show(v)); });
      check(near(V{n.x, n.y, 0}, V{-v[1], v[0], 0}, 1e-6 * (1 + len(v)) + eps), "normal of a curve", [&] { return cat("at ", at); });
      for (const double off : {1.5, -0.7}) {
        const V beside = want + V{-std::sin(yaw), std::cos(yaw), 0} * off;
        check(near(of(s.getPoint(at, off)), beside, eps), "point beside a curve", [&] { return cat("at ", at, " and ", off, " aside"); });
        check(near(s.getSquaredDistanceIn2D(pt(beside), at), off * off, 1e-6 + 10 * eps), "squared distance to a curve", [&] { return cat("at ", at, " and ", off, " aside"); });
        const auto w = s.getSquaredDistanceVector(pt(beside + V{0, 0, 3}), at);
        check(near(V{w.x, w.y, w.z}, beside + V{0, 0, 3} - want, 1e-6 + eps), "vector to a curve", [&] { return cat("at ", at); });
      }
      // a pose beside the curve
      for (const double skew : {0.0, 0.3, -0.5, 3.0}) for (const double off : {0.0, 0.8, -0.8, 1.3, -2.4}) {
        const double h = yaw + skew;
        Pose pose;
        pose.position = pt(want + V{-std::sin(h), std::cos(h), 0} * off);
        pose.orientation = quat(0, h);
        const V a = of(pose.position) + V{-std::sin(h), std::cos(h), 0}, b = of(pose.position) - V{-std::sin(h), std::cos(h), 0};
        const auto found = s.getSValue(pose, 1.0);
        const auto hits = sure(ref, a, b);
        auto where = [&] { return cat("a pose ", off, " beside the point at ", at, ", turned by ", skew); };
        if (found) {
          const V p = of(s.getPoint(*found));
          check(away(p, a, b) < 1e-4 && *found >= 0 && *found <= L + 1e-9, "position of a pose on a curve", [&] { return cat(where(), " is found at ", *found, ", ", away(p, a, b), " from its lateral axis"); });
        }
        if (!hits.empty()) {
          const double first = from[hits[0].piece] + hits[0].u * lengths[hits[0].piece];
          check(found.has_value(), "position of a pose on a curve missing", [&] { return cat(where(), " is not found, its lateral axis crosses the curve at ", first); });
          if (found) check(*found <= first + 1e-4 * L, "first position of a pose on a curve", [&] { return cat(where(), " is found at ", *found, ", its lateral axis crosses the curve at ", first, " already"); });
        }
      }
      // edges and outlines
      for (const double turn : {0.1, 0.6, M_PI / 2, 2.5}) for (const bool axis : {false, true}) for (const double shift : {0.0, 0.45, -0.49, 0.7}) for (const double l : {0.4, 6.0}) {
        if (axis && turn != 0.1 && turn != M_PI / 2) continue;
        const double h = axis ? (turn == 0.1 ? 0 : M_PI / 2) : yaw + turn;
        const V d{std::cos(h) * l, std::sin(h) * l, 0};
        const V a = want + d * (0.5 + shift), b = want + d * (shift - 0.5), third = b + V{-d[1], d[0], 0} * 0.7;
        for (int shape = 0; shape < 3; ++shape) {
          if (shape == 2 && (k % 4 || axis)) continue;
          std::vector<V> outline = shape == 2 ? std::vector<V>{a, b, third} : std::vector<V>{a, b};
          std::vector<Hit> hits = sure(ref, a, b);
          if (shape == 2) for (const auto & more : {sure(ref, b, third), sure(ref, third, a)}) hits.insert(hits.end(), more.begin(), more.end());
          auto position = [&](const Hit & x) { return from[x.piece] + x.u * lengths[x.piece]; };
          auto where = [&] { std::string t = shape == 2 ? "the outline" : "the edge"; for (const auto & o : outline) t += " " + show(o); return t; };
          auto distance = [&](double at) { double m = away(of(s.getPoint(at)), a, b); if (shape == 2) m = std::min({m, away(of(s.getPoint(at)), b, third), away(of(s.getPoint(at)), third, a)}); return m; };
          double first = 1e300, last = -1e300;
          for (const auto & x : hits) first = std::min(first, position(x)), last = std::max(last, position(x));
          std::vector<Point> polygon;
          for (const auto & o : outline) polygon.push_back(pt(o));
          auto judge = [&](const std::optional<double> & got, bool backward, const char * by) {
            mc::executed();
            mc::outcome(cat(hits.size(), got ? " hit" : " none"));
            if (got) {
              check(*got >= -1e-9 && *got <= L + 1e-6 && distance(*got) < 1e-4, "crossing invented", [&] { return cat(by, " gives a crossing with ", where(), " at ", *got, ", that is ", distance(*got), " away from it"); });
              if (!hits.empty()) check(backward ? *got >= last - 1e-4 * L : *got <= first + 1e-4 * L, backward ? "last crossing" : "first crossing", [&] { return cat(by, " gives the crossing with ", where(), " at ", *got, ", there is one at ", backward ? last : first); });
            } else
              check(hits.empty(), "crossing missed", [&] { return cat(by, " gives no crossing with ", where(), ", there is one at ", first); });
          };
          for (const bool backward : {false, true}) {
            if (shape == 0) judge(s.getCollisionPointIn2D(pt(a), pt(b), backward), backward, "the search with an edge");
            if (shape == 1 && k % 4) continue;
            if (shape) judge(s.getCollisionPointIn2D(polygon, backward), backward, "the search with an outline");
          }
          if (shape && k % 4 == 0) {
            const auto every = s.getCollisionPointsIn2D(polygon);
            for (const auto v : every) check(distance(v) < 1e-4, "crossing invented", [&] { return cat("among all crossings with ", where(), " is ", v, ", that is ", distance(v), " away from it"); });
            for (const auto & x : hits) {
              bool found = false;
              for (const auto v : every) found |= near(v, position(x), 1e-4 * L);
              check(found, "crossing missed", [&] { return cat("all crossings with ", where(), " do not include the one at ", position(x)); });
            }
            // a part of the curve
            for (const auto & [b0, b1] : {std::pair<double, double>{0, 1}, {0.2, 0.7}, {0.5, 0.55}}) {
              auto shared = std::make_shared<g::CatmullRomSpline>(control);
              const g::CatmullRomSubspline part(shared, b0 * L, b1 * L);
              check(near(part.getLength(), (b1 - b0) * L, 1e-9 * L), "length of a part", [&] { return cat(part.getLength()); });
              double lo = 1e300, hi = -1e300;
              for (const auto & x : hits) { const double y = position(x) - b0 * L; if (y > 1e-3 * L && y < (b1 - b0) * L - 1e-3 * L) lo = std::min(lo, y), hi = std::max(hi, y); }
              for (const bool backward : {false, true}) {
                for (const bool range : {false, true}) {
                  const auto got = range ? part.getCollisionPointIn2D(polygon, backward, std::make_pair(0.0, (b1 - b0) * L)) : part.getCollisionPointIn2D(polygon, backward);
                  if (got) {
                    check(*got >= -1e-6 && *got <= (b1 - b0) * L + 1e-6 && distance(*got + b0 * L) < 1e-4, "crossing of a part invented", [&] { return cat("with ", where(), " at ", *got, " of the part from ", b0 * L, " to ", b1 * L); });
                    if (lo < 1e299) check(backward ? *got >= hi - 1e-4 * L : *got <= lo + 1e-4 * L, "end crossing of a part", [&] { return cat("with ", where(), " at ", *got, " of the part from ", b0 * L, " to ", b1 * L, ", there is one at ", backward ? hi : lo); });
                  } else
                    check(lo > 1e299, "crossing of a part missed", [&] { return cat("with ", where(), " at ", lo, " of the part from ", b0 * L, " to ", b1 * L); });
                }
              }
              double z0 = 1e300, z1 = -1e300;
              for (std::size_t n = 0; n < made.points.size(); ++n) if (from[n] >= b0 * L && from[n] <= b1 * L) z0 = std::min(z0, made.points[n][2]), z1 = std::max(z1, made.points[n][2]);
              const auto [r0, r1] = part.getAltitudeRange();
              check(z0 < 1e299 ? r0 <= z0 + 1e-9 && r1 >= z1 - 1e-9 && r0 >= low && r1 <= high : r0 <= low && r1 >= high, "altitudes of a part", [&] { return cat("given as ", r0, " to ", r1, " for the part from ", b0 * L, " to ", b1 * L); });
              check(near(part.getSquaredDistanceIn2D(pt(want), 0.5 * (b1 - b0) * L), s.getSquaredDistanceIn2D(pt(want), b0 * L + 0.5 * (b1 - b0) * L), 1e-6), "squared distance to a part", [&] { return std::string(); });
            }
          }
        }
      }
    }
  // trajectories
  for (const auto & [b0, b1] : {std::pair<double, double>{0, 1}, {0.9, 0.15}, {0.3, 0.3}}) for (const double res : {1.0, 0.37, -2.5}) {
    const auto line = s.getTrajectory(b0 * L, b1 * L, res, 0.5);
    const auto poses = s.getTrajectoryPoses(b0 * L, b1 * L, res);
    const std::size_t n = std::size_t(std::ceil(std::abs(b1 - b0) * L / std::abs(res) - 1e-9)) + 1;
    check((line.size() == n || line.size() == n + 1) && poses.size() == line.size(), "points of a trajectory", [&] { return cat(line.size(), " points and ", poses.size(), " poses from ", b0 * L, " to ", b1 * L, " at ", res); });
    for (std::size_t k = 0; k < line.size() && k < poses.size(); ++k) {
      const double at = k + 1 == line.size() ? b1 * L : b0 * L + (b1 > b0 ? 1 : -1) * std::abs(res) * k;
      check(near(of(line[k]), of(s.getPoint(at, 0.5)), 1e-6 + eps) && near(of(poses[k].position), of(s.getPoint(at)), 1e-6 + eps), "point of a trajectory", [&] { return cat("number ", k, " from ", b0 * L, " to ", b1 * L, " at ", res); });
    }
  }
  for (const int n : {1, 4}) {
    g::CatmullRomSpline copy(control);
    const auto strip = copy.getPolygon(2.0, n, 0.25);
    check(strip.size() == std::size_t(6 * n), "strip around a curve", [&] { return cat(strip.size(), " points for ", n, " parts"); });
    for (std::size_t k = 0; k < strip.size(); ++k) {
      static const int ahead[6] = {0, 0, 1, 0, 1, 1}, left[6] = {0, 1, 0, 1, 1, 0};
      const double at = std::min(L, L / n * (int(k) / 6 + ahead[k % 6]));
      const V want = of(s.getPoint(at, left[k % 6] ? -1.0 : 1.0)) + V{0, 0, 0.25};
      check(near(of(strip[k]), want, 1e-6 + eps), "strip around a curve", [&] { return cat("point ", k); });
    }
  }
}

// one point, one line
void few()
{
  for (const V base : {V{0, 0, 0}, V{3735.5, 73812.25, 19.3}}) for (const double yaw : {0.0, 0.8, M_PI / 2, 2.9, -1.3}) for (const double l : {0.5, 6.0, 40.0}) {
    if (!mc::mine()) continue;
    mc::executed();
    const V d{l * std::cos(yaw), l * std::sin(yaw), 0.3}, n{-std::sin(yaw), std::cos(yaw), 0};
    const double L = len(d);
    const std::string text = cat("the line of ", l, " m from ", show(base), " at ", yaw);
    mc::current(text);
    auto check = [&](bool good, const char * key, const std::string & detail) { if (!good) mc::violation(key, cat(detail, ": ", text), text); };
    const g::CatmullRomSpline s({pt(base), pt(base + d), pt(base + d)});  // a repeated point does not count
    check(near(s.getLength(), L, 1e-9), "length of a line", cat(s.getLength()));
    for (int k = 0; k <= 10; ++k) {
      const double u = k / 10.0;
      const V want = base + d * u;
      const double at = u * L;
      if (k < 10) check(near(of(s.getPoint(at)), want, 1e-6) && near(of(s.getPoint(at, 1.5)), want + n * 1.5, 1e-6), "point of a line", cat("at ", at));
      if (k < 10) check(near(of(s.getPose(at).position), want, 1e-6) && apart(s.getPose(at, false).orientation, quat(0, yaw)) < 1e-9, "pose on a line", cat("at ", at));
      if (k == 0 || k == 10) continue;
      for (const double off : {0.0, 0.9, -0.9, 1.2, -1.2}) {
        Pose pose; pose.position = pt(want + n * off), pose.orientation = quat(0, yaw);
        const auto found = s.getSValue(pose, 1.0);
        check(found.has_value() == (std::abs(off) < 1) && (!found || near(*found, at, 1e-5)), "position of a pose on a line", cat("a pose ", off, " beside ", at));
      }
      for (const double turn : {0.2, 1.0, M_PI / 2, 2.8}) for (const double shift : {0.0, 0.4, 0.6, -0.6}) {
        const V e{std::cos(yaw + turn) * 2, std::sin(yaw + turn) * 2, 0};
        const V a = want + e * (0.5 + shift), b = want + e * (shift - 0.5);
        const bool hit = std::abs(shift) < 0.5;
        for (const bool backward : {false, true}) {
          const auto x = s.getCollisionPointIn2D(std::vector<Point>{pt(a), pt(b)}, backward), y = s.getCollisionPointIn2D(pt(a), pt(b), backward);
          check(x.has_value() == hit && (!x || near(*x, at, 1e-5)), "crossing of a line with an outline", cat(show(a), " to ", show(b), " ", hit ? "crosses" : "misses", " at ", at));
          check(y.has_value() == hit && (!y || near(*y, at, 1e-5)), "crossing of a line with an edge", cat(show(a), " to ", show(b), " ", hit ? "crosses" : "misses", " at ", at));
          // a triangle of which only the closing side crosses
          const V tip = want + n * 3 + d * (0.001 / l);
          const V q0 = want + n * 1 + d * (0.03 / l), q1 = want + n * -1 + d * (0.03 / l);
          if (q1[0] != tip[0] && turn == 1.0 && shift == 0) {
            const auto z = s.getCollisionPointIn2D(std::vector<Point>{pt(q0), pt(tip), pt(q1)}, backward);
            check(z.has_value(), "crossing of a line with the side that closes an outline", cat("the outline ", show(q0), " ", show(tip), " ", show(q1)));
          }
        }
      }
    }
    const g::CatmullRomSpline p({pt(base), pt(base)});
    check(p.getLength() == 0 && near(of(p.getPoint(0)), base, 0), "curve of one point", "");
    for (const double off : {0.0, 0.3}) {
      const V a = base + n * 1.0 + d * (off / l), b = base - n * 1.0 + d * (off / l);
      if (off == 0 && (base[0] != 0 || yaw != 0)) continue;
      const auto x = p.getCollisionPointIn2D(std::vector<Point>{pt(a), pt(b)});
      check(x.has_value() == (off == 0), "crossing of a single point", cat(off, " away"));
    }
  }
}

// a route of a given shape
void routes()
{
  for (int n = 1; n <= 4; ++n) for (const bool closed : {false, true}) {
    if (!mc::mine()) continue;
    auto t = std::make_shared<traffic_simulator_msgs::msg::PolylineTrajectory>();
    t->closed = closed;
    std::vector<Point> want{pt({0, 0, 0})};
    for (int i = 0; i < n; ++i) {
      traffic_simulator_msgs::msg::Vertex v;
      v.position.position = pt({4.0 * (i + 1), i % 2 ? 3.0 : -2.0, 0.1 * i});
      t->shape.vertices.push_back(v), want.push_back(v.position.position);
    }
    if (closed) want.push_back(want[0]);
    const g::CatmullRomSpline s(want[0], t);
    mc::executed();
    if (s.control_points != want) mc::violation("curve of a route", cat(n, " vertices, ", closed ? "closed" : "open", ": ", s.control_points.size(), " control points"), "");
  }
}

// equations with known solutions
void equations()
{
  g::PolynomialSolver solver;
  const std::vector<double> roots = {-40, -1.5, -0.2, 0.02, 0.1, 0.35, 0.5, 0.65, 0.9, 0.985, 1.3, 7, 300, 2e4, 1e6};
  auto judge = [&](const std::vector<double> & got, const std::vector<double> & want, const std::string & text) {
    mc::executed();
    for (const double w : want) {
      if (w < 0 || w > 1) continue;
      bool found = false;
      for (const double x : got) found |= near(x, w, 1e-5);
      if (!found) { std::string t; for (double x : got) t += cat(" ", x); mc::violation("solution missed", cat(text, " has the solution ", w, ", given are", t), text); }
    }
    for (const double x : got) {
      bool good = x >= 0 && x <= 1;
      double best = 1e300;
      for (const double w : want) best = std::min(best, std::abs(x - w));
      if (!good || best > 1e-5) mc::violation("solution invented", cat(text, " is given the solution ", x), text);
    }
  };
  for (const double k : {1.0, -0.3, 25.0, 1e-3}) {
    for (std::size_t i = 0; i < roots.size(); ++i) {
      if (!mc::mine()) continue;
      const double a = roots[i];
      auto n = [](double r) { return std::max(1.0, std::abs(r)); };  // scaled so that the part that varies in the range does not vanish
      judge(solver.solveLinearEquation(k / n(a), -k * a / n(a), 0, 1), {a}, cat(k / n(a), " (t - ", a, ")"));
      judge(solver.solveQuadraticEquation(0, k / n(a), -k * a / n(a), 0, 1), {a}, cat("0 t^2 + ", k / n(a), " (t - ", a, ")"));
      for (std::size_t j = i; j < roots.size(); ++j) {
        const double b = roots[j], q = k / n(a) / n(b);
        if (std::abs(q) < 2e-7) continue;  // nothing, to the solver
        if (j != i && !(a > 1 && b > 1))
        judge(solver.solveQuadraticEquation(q, -q * (a + b), q * a * b, 0, 1), {a, b}, cat(q, " (t - ", a, ") (t - ", b, ")"));
        if (j != i) judge(solver.solveCubicEquation(0, q, -q * (a + b), q * a * b, 0, 1), {a, b}, cat(q, " (t - ", a, ") (t - ", b, ")"));
        for (std::size_t m = j; m < roots.size(); ++m) {
          const double c = roots[m], l = q / n(c);
          if (std::abs(l) < 2e-7) continue;  // nothing, to the solver
          if (i == j || j == m) {
            // touching: judge a triple one and a touching one by what is well defined
            if (!(i == j && j == m)) {
              const double two = i == j ? a : b, one = i == j ? c : a;
              if (two < 0.01 || two > 0.99 || std::abs(one - two) < 0.25) continue;
              bool found = false;
              mc::executed();
              for (const double x : solver.solveCubicEquation(l, -l * (a + b + c), l * (a * b + b * c + c * a), -l * a * b * c, 0, 1)) found |= near(x, two, 2e-3);
              if (!found) mc::violation("touching solution missed", cat(l, " (t - ", two, ")^2 (t - ", one, ")"), "");
              continue;
            }
          }
          if (i == j && (a < 0.01 || a > 0.99)) continue;
          std::vector<double> got = solver.solveCubicEquation(l, -l * (a + b + c), l * (a * b + b * c + c * a), -l * a * b * c, 0, 1);
          if (i == j) {
            bool found = false;
            for (double x : got) found |= near(x, a, 5e-3);
            if (!found) mc::violation("solution missed", cat(l, " (t - ", a, ")^3 has the solution ", a), "");
            continue;
          }
          judge(got, {a, b, c}, cat(l, " (t - ", a, ") (t - ", b, ") (t - ", c, ")"));
        }
        // one solution and none of the other two real
        for (const double im : {0.02, 0.3, 2.0, 100.0}) {
          const double re = b, l = k / n(a) / std::max(n(b), im) / std::max(n(b), im);
          // (t - a) ((t - re)^2 + im^2)
          if (re > 1000 || std::abs(l) < 2e-7) continue;
          judge(solver.solveCubicEquation(l, -l * (a + 2 * re), l * (2 * a * re + re * re + im * im), -l * a * (re * re + im * im), 0, 1), {a}, cat(l, " (t - ", a, ") ((t - ", re, ")^2 + ", im, "^2)"));
        }
      }
    }
  }
}
}  // namespace

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "every curve of two to four pieces of a lattice of lengths and turns, near the origin and in map coordinates, with poses and edges around every eighth of every piece; every equation of a grid of solutions";
    equations();
    few();
    routes();
    for (const V base : {V{0, 0, 0}, V{3735.5, 73812.25, 19.3}}) for (const double start : {0.0, 0.7, -2.0}) for (const bool coarse : {true, false}) {
      if (start && !mc::thorough() && base[0] == 0 && start > 0) continue;
      for (const auto & m : curves(base, start, coarse)) if (mc::mine()) spline(m);
    }
  });
}
