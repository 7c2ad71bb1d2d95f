// Small road networks: how they are built, and what is true of them worked out from the description alone.
#pragma once
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include <cmath>
#include <limits>
#include <optional>
#include <traffic_simulator/behavior/route_planner.hpp>
#include <traffic_simulator/helper/helper.hpp>
#include <traffic_simulator/lanelet_wrapper/distance.hpp>
#include <traffic_simulator/lanelet_wrapper/lane_change.hpp>
#include <traffic_simulator/lanelet_wrapper/lanelet_map.hpp>
#include <traffic_simulator/lanelet_wrapper/pose.hpp>
#include <traffic_simulator/lanelet_wrapper/route.hpp>
#include <traffic_simulator/lanelet_wrapper/traffic_lights.hpp>
#include <traffic_simulator/utils/distance.hpp>
#include <traffic_simulator/utils/lanelet_map.hpp>
#include <traffic_simulator/utils/pose.hpp>
#include <traffic_simulator/utils/route.hpp>
#include "mc.hpp"

namespace net
{
using mc::cat;
namespace ts = traffic_simulator;
namespace lw = traffic_simulator::lanelet_wrapper;
using lanelet::Id;
using lanelet::Ids;
using Type = ts::RoutingGraphType;
using LP = traffic_simulator_msgs::msg::LaneletPose;
using P3 = std::array<double, 3>;
constexpr double W = 3;   // width of a lane

struct Section { P3 right, step; };                     // the row r of it begins at right + r * step
struct Cell { Id id; int a, ra, b, rb; std::string sub = "road", turn; double speed = 50; };
struct Net
{
  std::vector<Section> sections;
  std::vector<Cell> cells;
  std::set<std::array<int, 4>> dashed;                  // bounds from row ra of a to row rb of b that may be crossed
  lanelet::LaneletMapPtr map;
  P3 at(int s, double r) const { P3 p; for (int i = 0; i < 3; ++i) p[i] = sections[s].right[i] + r * sections[s].step[i]; return p; }
  const Cell & cell(Id i) const { for (auto & c : cells) if (c.id == i) return c; throw std::out_of_range("cell"); }
  bool has(Id i) const { return std::any_of(cells.begin(), cells.end(), [&](auto & c) { return c.id == i; }); }
  P3 begin(Id i) const { auto & c = cell(i); return at(c.a, c.ra + 0.5); }
  P3 end(Id i) const { auto & c = cell(i); return at(c.b, c.rb + 0.5); }
  double len(Id i) const { const auto p = begin(i), q = end(i); return std::hypot(q[0] - p[0], q[1] - p[1]); }
  double yaw(Id i) const { const auto p = begin(i), q = end(i); return std::atan2(q[1] - p[1], q[0] - p[0]); }
  double pitch(Id i) const { const auto p = begin(i), q = end(i); return std::atan2(-(q[2] - p[2]), len(i)); }
  P3 point(Id i, double s, double o) const
  {
    const auto p = begin(i), q = end(i);
    const double k = s / len(i), y = yaw(i);
    return {p[0] + (q[0] - p[0]) * k - o * std::sin(y), p[1] + (q[1] - p[1]) * k + o * std::cos(y), p[2] + (q[2] - p[2]) * k};
  }
  // who may use it
  bool passable(Id i, Type t) const
  {
    const auto & s = cell(i).sub;
    if (t == Type::PEDESTRIAN) return s == "crosswalk" || s == "walkway";
    return s == "road" || s.empty() || (t == Type::VEHICLE_WITH_ROAD_SHOULDER && s == "road_shoulder");
  }
  Ids next(Id i, Type t) const
  {
    Ids r;
    if (passable(i, t)) for (auto & c : cells) if (c.a == cell(i).b && c.ra == cell(i).rb && passable(c.id, t)) r.push_back(c.id);
    return r;
  }
  Ids before(Id i, Type t) const
  {
    Ids r;
    if (passable(i, t)) for (auto & c : cells) if (c.b == cell(i).a && c.rb == cell(i).ra && passable(c.id, t)) r.push_back(c.id);
    return r;
  }
  std::optional<Id> side(Id i, bool left, Type t) const
  {
    const auto & c = cell(i);
    const int k = left ? 1 : 0;
    // (with road shoulders every bound may be crossed)
    if (passable(i, t) && (t == Type::VEHICLE_WITH_ROAD_SHOULDER || dashed.count({c.a, c.ra + k, c.b, c.rb + k})))
      for (auto & o : cells) if (o.a == c.a && o.b == c.b && o.ra == c.ra + (left ? 1 : -1) && o.rb == c.rb + (left ? 1 : -1) && passable(o.id, t)) return o.id;
    return {};
  }
  // every way without coming twice to a lanelet, with its cost: the lengths of the lanelets left at their ends and ten for each lane change
  struct Way { Ids ids; double length = 0, cost = 0; int lefts = 0, rights = 0; };
  void ways(Way w, Id to, Type t, bool change, std::vector<Way> & out) const
  {
    const Id i = w.ids.back();
    if (i == to) { out.push_back(w); return; }
    const auto go = [&](Id n, double l, double c, int x, int y) {
      if (std::find(w.ids.begin(), w.ids.end(), n) != w.ids.end()) return;
      auto v = w;
      v.ids.push_back(n); v.length += l; v.cost += c; v.lefts += x; v.rights += y;
      ways(v, to, t, change, out);
    };
    for (auto n : next(i, t)) go(n, len(i), len(i), 0, 0);
    if (change) {
      if (auto n = side(i, true, t)) go(*n, 0, 10, 1, 0);
      if (auto n = side(i, false, t)) go(*n, 0, 10, 0, 1);
    }
  }
  std::vector<Way> best(Id from, Id to, Type t, bool change) const
  {
    const auto key = std::make_tuple(from, to, int(t), change);
    if (auto k = memo.find(key); k != memo.end()) return k->second;
    std::vector<Way> all, r;
    if (passable(from, t) && passable(to, t)) ways(Way{{from}}, to, t, change, all);
    double m = std::numeric_limits<double>::infinity();
    for (auto & w : all) m = std::min(m, w.cost);
    for (auto & w : all) if (w.cost < m + 1e-6) r.push_back(w);
    return memo[key] = r;
  }
  mutable std::map<std::tuple<Id, Id, int, bool>, std::vector<Way>> memo;
  // the places on lanelets that (id, s) stands for: every end of following the lanes from there
  struct Place { Id id; double s; };
  void places(Id i, double s, Type t, std::vector<Place> & out, bool & ends) const
  {
    if (s < -1e-9) {
      const auto b = before(i, t);
      if (b.empty()) ends = true;
      for (auto n : b) places(n, s + len(n), t, out, ends);
    } else if (s > len(i) + 1e-9) {
      const auto b = next(i, t);
      if (b.empty()) ends = true;
      for (auto n : b) places(n, s - len(i), t, out, ends);
    } else {
      out.push_back({i, s});
    }
  }
  std::vector<Place> places(Id i, double s, Type t, bool & ends) const { std::vector<Place> r; ends = false; places(i, s, t, r, ends); return r; }
  // the same place said in another way: the end of a lanelet is the beginning of the next
  bool same(Id i, double s, Id j, double u) const
  {
    if (i == j && std::abs(s - u) < 1e-6) return true;
    const auto follows = [&](Id x, double p, Id y, double q) { return std::abs(p - len(x)) < 1e-6 && std::abs(q) < 1e-6 && cell(x).b == cell(y).a && cell(x).rb == cell(y).ra; };
    return follows(i, s, j, u) || follows(j, u, i, s);
  }
  bool chain(const Ids & v, Type t) const
  {
    for (std::size_t i = 1; i < v.size(); ++i) { const auto n = next(v[i - 1], t); if (std::find(n.begin(), n.end(), v[i]) == n.end()) return false; }
    return true;
  }
  bool square(Id i) const   // a rectangle
  {
    const auto & c = cell(i);
    const auto upright = [&](int k) { auto & s = sections[k].step; return std::abs(std::hypot(s[0], s[1]) - W) < 1e-9 && std::abs(s[0] * std::cos(yaw(i)) + s[1] * std::sin(yaw(i))) < 1e-9; };
    return c.ra == c.rb && upright(c.a) && upright(c.b);
  }
  std::string show() const
  {
    std::string r = "lanelets:";
    for (auto & c : cells) r += cat(" ", c.id, "(", c.a, ".", c.ra, ">", c.b, ".", c.rb, c.sub == "road" ? "" : " " + c.sub, c.turn.empty() ? "" : " " + c.turn, ")");
    r += "; sections at:";
    for (std::size_t i = 0; i < sections.size(); ++i) r += cat(" ", i, "=(", sections[i].right[0], ",", sections[i].right[1], ",", sections[i].right[2], ")");
    r += "; crossable bounds:";
    for (auto & d : dashed) r += cat(" ", d[0], ".", d[1], ">", d[2], ".", d[3]);
    return r;
  }
  void turned(double yaw, P3 shift)
  {
    const auto turn = [&](P3 p) { return P3{p[0] * std::cos(yaw) - p[1] * std::sin(yaw), p[0] * std::sin(yaw) + p[1] * std::cos(yaw), p[2]}; };
    for (auto & s : sections) { s.right = turn(s.right); s.step = turn(s.step); for (int i = 0; i < 3; ++i) s.right[i] += shift[i]; }
  }
  lanelet::ConstPoint3d corner(int s, int r, std::map<std::pair<int, int>, lanelet::ConstPoint3d> & m) const
  {
    auto & p = m[{s, r}];
    if (!p.d) { const auto q = at(s, r); p = lanelet::ConstPoint3d(10000 + s * 100 + r, q[0], q[1], q[2]); }
    return p;
  }
  void build()
  {
    map = std::make_shared<lanelet::LaneletMap>();
    std::map<std::pair<int, int>, lanelet::ConstPoint3d> corners;
    std::map<std::array<int, 4>, lanelet::ConstLineString3d> bounds;
    const auto bound = [&](int a, int ra, int b, int rb) {
      auto & l = bounds[{a, ra, b, rb}];
      if (!l.d) {
        l = lanelet::ConstLineString3d(20000 + Id(bounds.size()), {corner(a, ra, corners), corner(b, rb, corners)});
        l.d->attributes_["subtype"].v = dashed.count({a, ra, b, rb}) ? "dashed" : "solid";
        map->lineStringLayer.add(l);
      }
      return l;
    };
    for (auto & c : cells) {
      auto d = std::make_shared<lanelet::LaneletData>();
      d->id = c.id;
      d->left = bound(c.a, c.ra + 1, c.b, c.rb + 1);
      d->right = bound(c.a, c.ra, c.b, c.rb);
      d->center = lanelet::ConstLineString3d(30000 + c.id);
      if (!c.sub.empty()) d->attributes_["subtype"].v = c.sub;   // (without one it is a road)
      if (!c.turn.empty()) d->attributes_["turn_direction"].v = c.turn;
      d->attributes_["speed_limit"].v = std::to_string(c.speed);
      map->laneletLayer.add(lanelet::Lanelet(d));
    }
    memo.clear();
  }
};
inline Net * world = nullptr;
inline void enter(Net & n)
{
  if (!n.map) n.build();
  world = &n;
  ts::lanelet_map::activate("/nonexistent/map.osm");
}
inline LP pose(Id i, double s, double o = 0, double yaw = 0)
{
  LP p;
  p.lanelet_id = i; p.s = s; p.offset = o; p.rpy.z = yaw;
  return p;
}
inline geometry_msgs::msg::Pose placed(P3 p, double yaw, double pitch = 0)
{
  geometry_msgs::msg::Pose r;
  r.position.x = p[0]; r.position.y = p[1]; r.position.z = p[2];
  const double cp = std::cos(pitch / 2), sp = std::sin(pitch / 2), cy = std::cos(yaw / 2), sy = std::sin(yaw / 2);
  r.orientation.x = -sp * sy; r.orientation.y = sp * cy; r.orientation.z = cp * sy; r.orientation.w = cp * cy;
  return r;
}
inline std::string show(const LP & p) { return cat("(", p.lanelet_id, ", s ", p.s, ", offset ", p.offset, ")"); }
inline std::string show(const Ids & v) { std::string r = "["; for (auto i : v) r += cat(r.size() > 1 ? " " : "", i); return r + "]"; }
inline std::string show(const std::optional<double> & d) { return d ? cat(*d) : "none"; }
inline std::string show(P3 p) { return cat("(", p[0], ", ", p[1], ", ", p[2], ")"); }
inline bool close(double a, double b, double e = 1e-3) { return std::abs(a - b) <= e; }
inline double wrap(double a) { while (a > M_PI) a -= 2 * M_PI; while (a < -M_PI) a += 2 * M_PI; return a; }

// a straight road of n columns and some rows of lanes: a column holds nothing, the right lane, the left lane, or both with a
// bound that may not or may be crossed
inline Net grid(const std::vector<double> & lengths, const std::vector<int> & columns, int diagonals, bool reverse, double slope = 0)
{
  Net n;
  double x = 0;
  for (std::size_t i = 0; i <= lengths.size(); ++i) { n.sections.push_back({{x, 0, slope * x}, {0, W, 0}}); if (i < lengths.size()) x += lengths[i]; }
  Id id = reverse ? 190 : 110;
  const auto add = [&](int c, int ra, int rb, std::string turn = "") { n.cells.push_back({id, c, ra, c + 1, rb, "road", turn}); id += reverse ? -7 : 7; };
  for (int c = 0; c < int(columns.size()); ++c) {
    if (columns[c] & 1) add(c, 0, 0);
    if (columns[c] & 2) add(c, 1, 1);
    if (columns[c] == 7) n.dashed.insert({c, 1, c + 1, 1});
    if (c == 1 && (diagonals & 1)) add(c, 0, 1, "left");
    if (c == 1 && (diagonals & 2)) add(c, 1, 0, "right");
  }
  if (diagonals && columns.size() > 1) for (auto & c : n.cells) if (c.a == 1 && c.turn.empty()) c.turn = "straight";
  return n;
}
// a ring of four lanelets with ways in and out: bit k of in and out opens them at corner k
inline Net ring(int in, int out, bool reverse, double side = 12)
{
  Net n;
  const P3 corner[4] = {{0, 0, 0}, {side, 0, 0}, {side, side, 0}, {0, side, 0}};
  for (int k = 0; k < 4; ++k) {   // the inside of the ring is on the left: right edge outside
    const double dx = k == 0 || k == 3 ? 1 : -1, dy = k < 2 ? 1 : -1;
    n.sections.push_back({corner[k], {dx * W, dy * W, 0}});
  }
  Id id = reverse ? 190 : 110;
  const auto add = [&](int a, int b, std::string turn = "") { n.cells.push_back({id, a, 0, b, 0, "road", turn}); id += reverse ? -7 : 7; };
  for (int k = 0; k < 4; ++k) add(k, (k + 1) % 4, "straight");
  for (int k = 0; k < 4; ++k) {
    const double dx = k == 0 || k == 3 ? -1 : 1, dy = k < 2 ? -1 : 1;
    const auto away = [&](double d) { return P3{corner[k][0] + dx * d, corner[k][1] + dy * d, 0}; };
    if (in >> k & 1) { n.sections.push_back({away(20), {-dy * W, dx * W, 0}}); std::swap(n.sections.back().right, n.sections.back().right); add(int(n.sections.size()) - 1, k); }
    if (out >> k & 1) { n.sections.push_back({away(30), {-dy * W, dx * W, 0}}); add(k, int(n.sections.size()) - 1, "left"); }
  }
  return n;
}
}  // namespace net
#ifndef NET_WORLD_ELSEWHERE
lanelet::LaneletMapPtr lanelet::world() { return net::world->map; }
#endif
