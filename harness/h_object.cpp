// Stop lines, traffic lights, crosswalks and other entities on small road networks against the networks' description (C36).
#include "h_net.hpp"
#include <geometry/spline/catmull_rom_spline.hpp>
#include <geometry/spline/catmull_rom_subspline.hpp>
#include <traffic_simulator/data_type/entity_status.hpp>
#include <traffic_simulator/utils/traffic_lights.hpp>
using namespace net;
namespace
{
constexpr Type DEFAULT = Type::VEHICLE_WITH_ROAD_SHOULDER;
const Type TYPES[] = {Type::VEHICLE, Type::VEHICLE_WITH_ROAD_SHOULDER, Type::PEDESTRIAN};
using Spline = math::geometry::CatmullRomSpline;
using Subspline = math::geometry::CatmullRomSubspline;
using Points = std::vector<geometry_msgs::msg::Point>;
using Box = traffic_simulator_msgs::msg::BoundingBox;
bool in(Id i, const Ids & v) { return std::find(v.begin(), v.end(), i) != v.end(); }
Ids sorted(Ids v) { std::sort(v.begin(), v.end()); return v; }
Ids unique(Ids v) { v = sorted(v); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }

// what stands on the road
struct Line { Id id; Id lane; double s, from, to; };                          // across: from and to are offsets from the lane's middle
struct Sign { std::string type; std::vector<int> lines; std::vector<int> lanes; };
struct Light { std::vector<int> ways; int line; std::vector<int> lanes; bool bulbs; };   // ways 0, 1: which lamps; line -1: none
P3 placeOf(const Net & n, const Line & l, double o) { return n.point(l.lane, l.s, o); }
struct World
{
  Net n;
  std::vector<Line> lines;
  std::vector<Sign> signs;
  std::vector<Light> lights;
  Id lane(int k) const { return n.cells[k % n.cells.size()].id; }
  Id way(int k) const { return 7000 + k; }
  Id element(int k) const { return 8000 + k; }
  std::string show() const
  {
    std::string r = n.show();
    for (auto & l : lines) r += cat("; line ", l.id, " at s ", l.s, " of ", l.lane, " from ", l.from, " to ", l.to);
    for (auto & s : signs) { r += cat("; ", s.type); for (int i : s.lines) r += cat(" with ", lines[i].id); for (int i : s.lanes) r += cat(" for ", lane(i)); }
    for (std::size_t k = 0; k < lights.size(); ++k) { auto & l = lights[k]; r += cat("; light element ", element(k)); for (int i : l.ways) r += cat(" of ", way(i)); if (l.line >= 0) r += cat(" with ", lines[l.line].id); for (int i : l.lanes) r += cat(" for ", lane(i)); if (!l.bulbs) r += " without bulbs"; }
    return r;
  }
  lanelet::ConstPoint3d point(P3 p) const { static Id id = 50000; return lanelet::ConstPoint3d(++id, p[0], p[1], p[2]); }
  P3 lamp(int k) const { return n.point(lane(0), 1 + 2 * k, 4); }             // the base of lamp k: 2 m wide, 1 m high
  P3 lampEnd(int k) const { return n.point(lane(0), 1 + 2 * k, 6); }
  P3 bulb(int k, int c) const { auto p = n.point(lane(0), 1 + 2 * k, 4.5 + 0.5 * c); p[2] += 5 + 0.1 * c; return p; }
  void build()
  {
    n.map = nullptr;
    n.build();
    std::vector<lanelet::ConstLineString3d> strings;
    for (auto & l : lines) {
      lanelet::ConstLineString3d s(l.id, {point(placeOf(n, l, l.from)), point(placeOf(n, l, l.to))});
      s.d->attributes_["type"].v = "stop_line";
      n.map->lineStringLayer.add(s);
      strings.push_back(s);
    }
    const auto give = [&](auto element, const std::vector<int> & lanes) {
      std::set<Id> once;
      for (int i : lanes) if (once.insert(lane(i)).second) n.map->laneletLayer.get(lane(i)).d->regulatory.push_back(element);
      n.map->regulatoryElementLayer.add(element);
    };
    Id id = 9000;
    for (auto & s : signs) {
      auto e = std::make_shared<lanelet::TrafficSign>();
      e->id_ = id++;
      e->type_ = s.type;
      e->attributes_["subtype"].v = "traffic_sign";
      for (int i : s.lines) e->parameters_["ref_line"].push_back(strings[i]);
      give(e, s.lanes);
    }
    std::map<int, lanelet::ConstLineString3d> ways;
    for (std::size_t k = 0; k < lights.size(); ++k) {
      auto & l = lights[k];
      auto e = std::make_shared<lanelet::autoware::AutowareTrafficLight>();
      e->id_ = element(k);
      e->attributes_["subtype"].v = "traffic_light";
      if (l.line >= 0) e->stop_line_ = strings[l.line];
      for (int i : l.ways) {
        if (!ways[i].d) {
          ways[i] = lanelet::ConstLineString3d(way(i), {point(lamp(i)), point(lampEnd(i))});
          ways[i].d->attributes_["type"].v = "traffic_light";
          ways[i].d->attributes_["height"].v = "1.0";
          n.map->lineStringLayer.add(ways[i]);
        }
        e->parameters_["refers"].push_back(ways[i]);
        if (l.bulbs) {
          lanelet::ConstLineString3d b(7500 + 10 * Id(k) + i);
          b.d->attributes_["type"].v = "light_bulbs";
          b.d->attributes_["traffic_light_id"].v = std::to_string(way(i));
          // an arrow of each colour first, then the round ones
          for (int arrow : {1, 0}) for (int c = 0; c < 3; ++c) {
            auto at = bulb(i, c);
            at[2] += arrow;
            auto q = point(at);
            q.d->attributes_["color"].v = c == 0 ? "red" : c == 1 ? "yellow" : "green";
            if (arrow) q.d->attributes_["arrow"].v = "left";
            b.push_back(q);
          }
          e->parameters_["light_bulbs"].push_back(b);
        }
      }
      give(e, l.lanes);
    }
    n.memo.clear();
  }
};

// straight ways through the network: chains of lanelets of one row
std::vector<Ids> rows(const Net & n)
{
  std::vector<Ids> r;
  std::function<void(Ids)> go = [&](Ids v) {
    r.push_back(v);
    for (auto x : n.next(v.back(), DEFAULT)) if (n.cell(x).ra == n.cell(x).rb && n.cell(v[0]).ra == n.cell(v[0]).rb && !in(x, v)) { auto w = v; w.push_back(x); go(w); }
  };
  for (auto & c : n.cells) if (c.sub == "road" && c.ra == c.rb) go({c.id});
  return r;
}
// where the middle of the way, from its beginning, is crossed by a segment
std::optional<double> crossing(const Net & n, const Ids & way, double start, P3 a, P3 b)
{
  double sum = 0;
  for (auto i : way) sum += n.len(i);
  const auto p = n.begin(way[0]);
  const double y = n.yaw(way[0]);
  const auto local = [&](P3 q) { const double dx = q[0] - p[0], dy = q[1] - p[1]; return std::pair{dx * std::cos(y) + dy * std::sin(y), -dx * std::sin(y) + dy * std::cos(y)}; };
  const auto [ax, ay] = local(a);
  const auto [bx, by] = local(b);
  if ((ay > 0) == (by > 0)) return {};
  const double s = ax + (bx - ax) * (0 - ay) / (by - ay);
  if (s < start || s > sum) return {};
  return s - start;
}
void least(std::optional<double> & m, std::optional<double> x) { if (x && (!m || *x < *m)) m = x; }
bool equal(std::optional<double> a, std::optional<double> b, double e = 0.02) { return a.has_value() == b.has_value() && (!a || close(*a, *b, e)); }

void regulated(World & w, bool deep)
{
  w.build();
  enter(w.n);
  auto & n = w.n;
  mc::state(w.show());
  const auto say = [&](auto key, auto what, std::string more = "") { mc::violation(key, what, w.show() + more); };
  mc::current(w.show());
  // which lines and lights there are
  const auto stops = [&](const Ids * path) {
    Ids r;
    for (auto & c : n.cells) for (auto & s : w.signs) if (s.type == "stop_sign" && std::any_of(s.lanes.begin(), s.lanes.end(), [&](int i) { return w.lane(i) == c.id; }) && (!path || in(c.id, *path))) for (int i : s.lines) r.push_back(w.lines[i].id);
    return sorted(r);
  };
  const auto lamps = [&](const Ids * path) {
    Ids r;
    for (auto & l : w.lights) if (l.bulbs) for (auto & c : n.cells) if (std::any_of(l.lanes.begin(), l.lanes.end(), [&](int i) { return w.lane(i) == c.id; }) && (!path || in(c.id, *path))) for (int i : l.ways) r.push_back(w.way(i));
    return unique(r);
  };
  mc::executed();
  if (sorted(lw::lanelet_map::stopLineIds()) != stops(nullptr)) say("stop-lines", cat("the stop lines of the map are ", net::show(stops(nullptr)), ", but ", net::show(lw::lanelet_map::stopLineIds()), " they were said to be"));
  if (unique(lw::traffic_lights::trafficLightIds()) != lamps(nullptr)) say("lights", cat("the traffic lights of the map are ", net::show(lamps(nullptr)), ", but ", net::show(lw::traffic_lights::trafficLightIds()), " they were said to be"));
  for (auto & l : w.lines) {
    const auto p = lw::lanelet_map::stopLinePolygon(l.id);
    if (p.size() != 2 || !close(p[0].x, placeOf(n, l, l.from)[0]) || !close(p[1].y, placeOf(n, l, l.to)[1])) say("stop-line-points", "a stop line was said to be elsewhere");
    if (lw::traffic_lights::isTrafficLight(l.id) || lw::traffic_lights::isTrafficLightRegulatoryElement(l.id)) say("is-light", "a stop line was said to be a traffic light");
  }
  std::set<int> known, lit;
  for (auto & l : w.lights) for (int i : l.ways) { known.insert(i); if (l.bulbs) lit.insert(i); }
  for (int k = 0; k < 3; ++k) {
    const bool is = known.count(k);
    mc::executed();
    if (lw::traffic_lights::isTrafficLight(w.way(k)) != is || lw::traffic_lights::isTrafficLightRegulatoryElement(w.way(k))) say("is-light", cat(w.way(k), " is", is ? "" : " not", " a traffic light, but the opposite was said"));
    const bool element = k < int(w.lights.size());
    if (lw::traffic_lights::isTrafficLight(w.element(k)) || lw::traffic_lights::isTrafficLightRegulatoryElement(w.element(k)) != element) say("is-element", cat(w.element(k), " is", element ? "" : " not", " a traffic light element, but the opposite was said"));
    // an id of a light or of an element stands for lights
    for (bool relation : {false, true}) {
      const Id id = relation ? w.element(k) : w.way(k);
      Ids want;
      if (relation && element) for (int i : w.lights[k].ways) want.push_back(w.way(i));
      if (!relation && is) want.push_back(id);
      for (bool all : {false, true}) {
        Ids got;
        try { got = all ? ts::traffic_lights::trafficLightsIds(id) : ts::traffic_lights::wayIds(id); } catch (const std::exception &) {}
        mc::executed();
        if (got != want) say("light-ids", cat(id, " stands for the lights ", net::show(want), ", but ", net::show(got), " it was said to"));
      }
      if (!want.empty() && !in(ts::traffic_lights::wayId(id), want)) say("light-id", cat(id, " does not stand for ", ts::traffic_lights::wayId(id)));
    }
    if (!is) {
      bool refused = false;
      try { lw::traffic_lights::trafficLightRegulatoryElementIDsFromTrafficLight(w.way(k)); } catch (const common::Error &) { refused = true; }
      if (!refused) say("elements-of-none", "regulatory elements of a traffic light that is not there were listed");
      continue;
    }
    Ids elements;
    for (std::size_t e = 0; e < w.lights.size(); ++e) for (int i : w.lights[e].ways) if (i == k) elements.push_back(w.element(e));
    if (sorted(lw::traffic_lights::trafficLightRegulatoryElementIDsFromTrafficLight(w.way(k))) != sorted(elements)) say("elements-of", cat("the elements of light ", w.way(k), " are ", net::show(elements), ", but ", net::show(lw::traffic_lights::trafficLightRegulatoryElementIDsFromTrafficLight(w.way(k))), " was said"));
    // where its lamps are
    for (int c = 0; c < 4; ++c) for (bool infer : {false, true}) {
      const std::string colour = c == 0 ? "red" : c == 1 ? "yellow" : c == 2 ? "green" : "white";
      std::optional<P3> want;
      if (lit.count(k) && c < 3) want = w.bulb(k, c);
      else if (infer) {
        const double f = c == 0 ? 0.25 : c == 1 ? 0.5 : 0.75;
        const auto a = w.lamp(k), b = w.lampEnd(k);
        want = P3{a[0] * f + b[0] * (1 - f), a[1] * f + b[1] * (1 - f), a[2] + 0.5};
      }
      const auto got = lw::traffic_lights::trafficLightBulbPosition(w.way(k), colour, infer);
      mc::executed();
      if (got.has_value() != want.has_value() || (want && (!close(got->x, (*want)[0]) || !close(got->y, (*want)[1]) || !close(got->z, (*want)[2]))))
        say("bulb", cat("the ", colour, " bulb of ", w.way(k), " is at ", want ? net::show(*want) : "no known place", ", but ", got ? cat("(", got->x, ", ", got->y, ", ", got->z, ")") : "nothing", " was returned"), infer ? "; allowed to guess" : "");
    }
  }
  const auto linesOf = [&](int k) { std::vector<int> r; for (auto & l : w.lights) if (l.bulbs && l.line >= 0 && std::count(l.ways.begin(), l.ways.end(), k)) r.push_back(l.line); return r; };
  for (int k : lit) {
    Ids want;
    for (int i : linesOf(k)) want.push_back(w.lines[i].id);
    mc::executed();
    const auto got = lw::traffic_lights::trafficLightStopLineIds(w.way(k));
    if (sorted(got) != sorted(want)) say("light-lines", cat("the stop lines of light ", w.way(k), " are ", net::show(want), ", but ", net::show(got), " was said"));
  }
  // along every straight way, from some places on it
  for (auto & way : rows(n)) {
    const std::string route = cat("; along ", net::show(way));
    mc::executed();
    if (sorted(lw::lanelet_map::stopLineIdsOnPath(way)) != stops(&way)) say("path-stop-lines", cat("on the way are the stop lines ", net::show(stops(&way)), ", but ", net::show(lw::lanelet_map::stopLineIdsOnPath(way)), " was said"), route);
    if (unique(lw::traffic_lights::trafficLightIdsOnPath(way)) != lamps(&way)) say("path-lights", cat("on the way are the lights ", net::show(lamps(&way)), ", but ", net::show(lw::traffic_lights::trafficLightIdsOnPath(way)), " was said"), route);
    double length = 0;
    for (auto i : way) length += n.len(i);
    const auto points = lw::lanelet_map::centerPoints(way);
    const auto whole = std::make_shared<Spline>(points);
    for (double start : {0.0, 3.37, 11.9}) {
      if (start >= length - 0.5 || (start && !deep && way.size() < 2)) continue;
      const std::string here = cat(route, " from ", start);
      mc::current(w.show() + here);
      const Subspline rest(whole, start, length);
      std::optional<double> stop, light;
      for (auto id : stops(&way)) for (auto & l : w.lines) if (l.id == id) least(stop, crossing(n, way, start, placeOf(n, l, l.from), placeOf(n, l, l.to)));
      const auto got = ts::distance::distanceToStopLine(way, start ? static_cast<const math::geometry::CatmullRomSplineInterface &>(rest) : *whole);
      mc::executed();
      if (!equal(got, stop)) say("stop-distance", cat("the next stop line is ", net::show(stop), " ahead, but ", net::show(got), " it was said to be"), here);
      if (!start && !equal(ts::distance::distanceToStopLine(way, points), stop)) say("stop-distance-points", cat("by waypoints the next stop line is ", net::show(stop), " ahead, but ", net::show(ts::distance::distanceToStopLine(way, points)), " it was said to be"), here);
      if (!start) for (auto & l : w.lines) {
        const auto want = crossing(n, way, 0, placeOf(n, l, l.from), placeOf(n, l, l.to));
        const auto d = ts::distance::distanceToStopLine(points, l.id);
        mc::executed();
        if (!equal(d, want)) say("one-stop-distance", cat("line ", l.id, " is ", net::show(want), " ahead, but ", net::show(d), " it was said to be"), here);
      }
      const auto distance = [&](auto key, const std::string & what, std::optional<double> want, auto ask) {
        std::optional<double> d;
        mc::executed();
        try { d = ask(); } catch (const std::exception & e) { say(cat(key, "-error"), cat("asking for the distance to the stop line of ", what, " failed: ", std::string(e.what()).substr(0, 120)), here); return; }
        if (!equal(d, want)) say(key, cat("the stop line of ", what, " is ", net::show(want), " ahead, but ", net::show(d), " it was said to be"), here);
      };
      for (int k : lit) {
        std::optional<double> one;
        for (int i : linesOf(k)) { auto & l = w.lines[i]; least(one, crossing(n, way, start, placeOf(n, l, l.from), placeOf(n, l, l.to))); }
        if (in(w.way(k), lamps(&way))) least(light, one);
        distance("light-distance", cat("light ", w.way(k)), one, [&] { return ts::distance::distanceToTrafficLightStopLine(rest, w.way(k)); });
        if (!start) distance("light-distance-points", cat("light ", w.way(k), " by waypoints"), one, [&] { return ts::distance::distanceToTrafficLightStopLine(points, w.way(k)); });
      }
      distance("lights-distance", "the next light", light, [&] { return ts::distance::distanceToTrafficLightStopLine(way, rest); });
      if (!start) distance("lights-distance-points", "the next light by waypoints", light, [&] { return ts::distance::distanceToTrafficLightStopLine(way, points); });
    }
    const Points none;
    if (ts::distance::distanceToStopLine(way, none) || (!w.lines.empty() && ts::distance::distanceToStopLine(none, w.lines[0].id)) || ts::distance::distanceToTrafficLightStopLine(way, none)) say("no-waypoints", "without a way a distance to a stop line was found", route);
  }
}

// --- crosswalks, lanelets near a point, conflicts
using Quad = std::array<P3, 4>;
Quad quad(const Net & n, Id i) { auto & c = n.cell(i); return {n.at(c.a, c.ra), n.at(c.b, c.rb), n.at(c.b, c.rb + 1), n.at(c.a, c.ra + 1)}; }
bool overlap(const Quad & a, const Quad & b)   // convex: is there a line between them
{
  for (auto * q : {&a, &b}) for (int i = 0; i < 4; ++i) {
    const auto & u = (*q)[i], & v = (*q)[(i + 1) % 4];
    const double nx = v[1] - u[1], ny = u[0] - v[0];
    double a0 = 1e18, a1 = -1e18, b0 = 1e18, b1 = -1e18;
    for (auto & p : a) { const double d = p[0] * nx + p[1] * ny; a0 = std::min(a0, d); a1 = std::max(a1, d); }
    for (auto & p : b) { const double d = p[0] * nx + p[1] * ny; b0 = std::min(b0, d); b1 = std::max(b1, d); }
    if (a1 <= b0 + 1e-6 || b1 <= a0 + 1e-6) return false;
  }
  return true;
}
double apart(const Quad & q, P3 p)
{
  double r = 1e18;
  bool inside = true;
  for (int i = 0; i < 4; ++i) {
    const auto & u = q[i], & v = q[(i + 1) % 4];
    const double dx = v[0] - u[0], dy = v[1] - u[1], t = std::clamp(((p[0] - u[0]) * dx + (p[1] - u[1]) * dy) / (dx * dx + dy * dy), 0.0, 1.0);
    r = std::min(r, std::hypot(p[0] - u[0] - t * dx, p[1] - u[1] - t * dy));
    if (dx * (p[1] - u[1]) - dy * (p[0] - u[0]) < 0) inside = false;
  }
  return inside ? 0 : r;
}
Box box(double l, double w) { Box b; b.dimensions.x = l; b.dimensions.y = w; b.dimensions.z = 1.5; return b; }
ts::CanonicalizedEntityStatus entity(const std::string & name, Id i, double s, double o, Box b, double yaw = 0)
{
  const ts::CanonicalizedLaneletPose p(pose(i, s, o, yaw));
  ts::EntityStatus e;
  e.name = name;
  e.bounding_box = b;
  e.pose = static_cast<geometry_msgs::msg::Pose>(p);
  return ts::CanonicalizedEntityStatus(e, p);
}

void around(Net n, bool deep)
{
  enter(n);
  mc::state(n.show());
  mc::current(n.show());
  const auto say = [&](auto key, auto what, std::string more = "") { mc::violation(key, what, n.show() + more); };
  Ids all;
  for (auto & c : n.cells) all.push_back(c.id);
  mc::executed();
  if (sorted(lw::lanelet_map::laneletIds()) != sorted(all)) say("ids", "the lanelets of the map were not listed");
  for (auto sub : {"road", "crosswalk", "road_shoulder", "walkway"}) {
    Ids want;
    for (auto & c : n.cells) if (c.sub == sub) want.push_back(c.id);
    mc::executed();
    if (sorted(lw::lanelet_map::filterLaneletIds(all, sub)) != sorted(want)) say("filter", cat("of the lanelets ", net::show(want), " are of the kind ", sub, ", but ", net::show(lw::lanelet_map::filterLaneletIds(all, sub)), " was said"));
  }
  // near a point
  for (auto & c : n.cells) for (double s : {-1.3, 0.4, n.len(c.id) * 0.6}) for (double o : {-4.2, -0.7, 2.1}) {
    const auto p = n.point(c.id, s, o);
    for (double threshold : {0.1, 1.4, 5.0, 30.0}) for (bool cross : {false, true}) for (std::size_t count : {std::size_t(1), std::size_t(50)}) {
      std::vector<std::pair<double, Id>> ds;
      bool edge = false;
      for (auto & x : n.cells) { const double d = apart(quad(n, x.id), p); edge = edge || std::abs(d - threshold) < 1e-3; ds.push_back({d, x.id}); }
      std::sort(ds.begin(), ds.end());
      if (edge || (count == 1 && ds.size() > 1 && ds[1].first - ds[0].first < 1e-6)) continue;
      if (ds.size() > count) ds.resize(count);
      Ids want;
      for (auto & [d, i] : ds) if (d <= threshold && (cross || n.cell(i).sub != "crosswalk")) want.push_back(i);
      const auto got = ts::lanelet_map::nearbyLaneletIds(placed(p, 0), threshold, cross, count);
      mc::executed();
      if (sorted(got) != sorted(want)) say("nearby", cat("within ", threshold, " m of ", net::show(p), " are ", net::show(want), ", but ", net::show(got), " was said"), cat(cross ? "; with" : "; without", " crosswalks, at most ", count));
      for (std::size_t i = 1; i < got.size(); ++i) if (apart(quad(n, got[i - 1]), p) > apart(quad(n, got[i]), p) + 1e-6) say("nearby-order", cat("of the lanelets near ", net::show(p), " ", got[i], " is nearer than ", got[i - 1]));
    }
  }
  // which lanelets are in each other's way
  const auto connected = [&](Id a, Id b, Type t) {
    if (in(b, n.next(a, t)) || in(b, n.before(a, t))) return true;
    for (bool left : {false, true}) for (auto x = n.side(a, left, t); x; x = n.side(*x, left, t)) if (*x == b) return true;
    return false;
  };
  const auto conflicts = [&](const Ids & v, Type t) {
    Ids r;
    for (auto i : v) if (n.passable(i, t)) for (auto & c : n.cells) if (c.id != i && n.passable(c.id, t) && !connected(i, c.id, t) && overlap(quad(n, i), quad(n, c.id))) r.push_back(c.id);
    return sorted(r);
  };
  const auto crosswalks = [&](const Ids & v) {
    Ids r;
    for (auto i : v) for (auto & c : n.cells) if (c.id != i && n.passable(c.id, Type::PEDESTRIAN) && overlap(quad(n, i), quad(n, c.id))) r.push_back(c.id);
    return sorted(r);
  };
  for (auto & a : n.cells) for (auto & b : n.cells) {
    const Ids v = a.id == b.id ? Ids{a.id} : Ids{a.id, b.id};
    for (auto t : TYPES) {
      mc::executed();
      if (sorted(lw::lanelet_map::conflictingLaneIds(v, t)) != conflicts(v, t)) say("conflicts", cat("in the way of ", net::show(v), " for ", ts::to_string(t), " are ", net::show(conflicts(v, t)), ", but ", net::show(lw::lanelet_map::conflictingLaneIds(v, t)), " was said"));
    }
    if (sorted(lw::lanelet_map::conflictingCrosswalkIds(v)) != crosswalks(v)) say("crosswalks", cat("across ", net::show(v), " go the crosswalks ", net::show(crosswalks(v)), ", but ", net::show(lw::lanelet_map::conflictingCrosswalkIds(v)), " was said"));
  }
  // ways up to a crosswalk or another entity
  const auto crosswalkAhead = [&](const Ids & way, double start, Id k) {
    std::optional<double> r;
    const auto q = quad(n, k);
    for (int i = 0; i < 4; ++i) least(r, crossing(n, way, start, q[i], q[(i + 1) % 4]));
    return r;
  };
  for (auto & way : rows(n)) {
    double length = 0;
    for (auto i : way) length += n.len(i);
    const auto points = lw::lanelet_map::centerPoints(way);
    const auto whole = std::make_shared<Spline>(points);
    const double starts[] = {0.55, n.len(way[0]) * 0.62};
    for (double start : starts) {
      const Subspline rest(whole, start, length);
      const std::string here = cat("; along ", net::show(way), " from ", start);
      mc::current(n.show() + here);
      for (auto & c : n.cells) if (c.sub == "crosswalk") {
        const auto want = crosswalkAhead(way, start, c.id);
        const auto got = ts::distance::distanceToCrosswalk(rest, c.id);
        mc::executed();
        if (!equal(got, want)) say("crosswalk", cat("crosswalk ", c.id, " is ", net::show(want), " ahead, but ", net::show(got), " it was said to be"), here);
        if (start == starts[0] && !equal(ts::distance::distanceToCrosswalk(points, c.id), crosswalkAhead(way, 0, c.id))) say("crosswalk-points", cat("crosswalk ", c.id, " was said to be ", net::show(ts::distance::distanceToCrosswalk(points, c.id)), " ahead by waypoints"), here);
      }
      // other entities beside or on the way
      const auto y = n.yaw(way[0]);
      const auto origin = n.point(way[0], start, 0);
      const auto local = [&](P3 q) { const double dx = q[0] - origin[0], dy = q[1] - origin[1]; return std::pair{dx * std::cos(y) + dy * std::sin(y), -dx * std::sin(y) + dy * std::cos(y)}; };
      for (Box mine : {box(4, 2), box(1, 0.6)}) {
        const auto from = entity("from", way[0], start, 0, mine);
        const auto fromPose = *from.getCanonicalizedLaneletPose();
        // how far ahead the rear of it is, if it is in the way
        std::vector<ts::CanonicalizedEntityStatus> others;
        std::vector<std::optional<double>> ahead;
        for (auto & c : n.cells) if (n.square(c.id) && c.sub == "road") for (double s : {n.len(c.id) * 0.21, n.len(c.id) * 0.83}) for (double o : {0.0, -0.9, 1.2}) for (Box theirs : {box(3, 1.6), box(0.8, 0.8)}) {
          if (!deep && theirs.dimensions.x < 1 && o < 0) continue;
          const auto reach = n.best(way[0], c.id, DEFAULT, true);
          if (reach.empty() || std::any_of(reach.begin(), reach.end(), [&](auto & w) { return std::any_of(w.ids.begin(), w.ids.end(), [&](Id i) { return !n.square(i); }); })) continue;
          const auto to = entity("to", c.id, s, o, theirs);
          const auto [dx, dy] = local(n.point(c.id, s, o));
          const double rear = dx - theirs.dimensions.x / 2, gap = std::max(0.0, std::abs(dy) - theirs.dimensions.y / 2);
          if (dx + theirs.dimensions.x / 2 > length - start - 0.1) continue;   // the way ends before
          const double apartX = dx - theirs.dimensions.x / 2 - mine.dimensions.x / 2;
          if (std::abs(apartX) < 0.01) continue;
          for (double threshold : {-1.0, 0.25, 2.3}) {
            const double reach = threshold < 0 ? mine.dimensions.y / 2 : threshold;
            if (std::abs(gap - reach) < 0.06) continue;
            std::optional<double> want;
            if (apartX > 0 && gap < reach) want = rear;
            const auto got = ts::distance::splineDistanceToBoundingBox(rest, fromPose, mine, *to.getCanonicalizedLaneletPose(), theirs, threshold);
            mc::executed();
            if (!equal(got, want)) say("entity-ahead", cat("the rear of the entity is ", net::show(want), " ahead in the way, but ", net::show(got), " it was said to be"), cat(here, ", ", mine.dimensions.x, " long, to (", c.id, ", ", s, ", ", o, "), ", theirs.dimensions.x, " long, within ", threshold));
            if (threshold < 0) { others.push_back(to); ahead.push_back(want); }
          }
          // beside the way
          const double corner = std::abs(std::abs(dy) - theirs.dimensions.y / 2);
          if (dx > 0.5) {
            const auto d = ts::distance::distanceToSpline(static_cast<geometry_msgs::msg::Pose>(*to.getCanonicalizedLaneletPose()), theirs, rest, dx);
            mc::executed();
            if (d < corner - 1e-3 || d > std::hypot(corner, 0.06) + 1e-3) say("spline-distance", cat("the nearest corner of the entity is ", corner, " beside the way, but ", d, " it was said to be"), cat(here, ", of (", c.id, ", ", s, ", ", o, "), ", theirs.dimensions.x, " long"));
          }
        }
        // whatever is in the way on conflicting lanelets, or on a crosswalk
        std::vector<ts::CanonicalizedEntityStatus> walkers;
        for (auto & c : n.cells) if (c.sub == "crosswalk") for (double s : {0.4, n.len(c.id) * 0.5}) walkers.push_back(entity("walker", c.id, s, 0, box(0.5, 0.5)));
        std::vector<ts::CanonicalizedEntityStatus> everyone = others;
        everyone.insert(everyone.end(), walkers.begin(), walkers.end());
        ts::EntityStatus stray;
        stray.name = "stray";
        stray.bounding_box = box(1, 1);
        stray.pose = placed(n.point(way[0], start + 5, 0), y);
        const ts::CanonicalizedEntityStatus offroad(stray, std::nullopt);
        const auto nearest = [&](const std::vector<ts::CanonicalizedEntityStatus> & list) {
          std::optional<double> r;
          for (auto & e : list) {
            if (!e.isInLanelet()) continue;
            if (in(e.getLaneletId(), crosswalks(way))) least(r, crosswalkAhead(way, start, e.getLaneletId()));
            if (in(e.getLaneletId(), conflicts(way, DEFAULT))) for (std::size_t i = 0; i < others.size(); ++i)
              if (others[i].getLaneletPose() == e.getLaneletPose() && others[i].getBoundingBox() == e.getBoundingBox()) least(r, ahead[i]);
          }
          return r;
        };
        std::vector<std::vector<ts::CanonicalizedEntityStatus>> groups{{}, {offroad}, walkers, everyone};
        for (auto & e : everyone) groups.push_back({e});
        for (auto & w : walkers) for (auto & o : others) if (&w == &walkers[0] && in(o.getLaneletId(), conflicts(way, DEFAULT))) groups.push_back({o, w});
        for (auto & g : groups) {
          const auto want = nearest(g);
          const auto got = ts::distance::distanceToNearestConflictingPose(way, rest, from, g);
          mc::executed();
          if (!equal(got, want)) say("conflicting-pose", cat("the nearest entity that has the way is ", net::show(want), " ahead, but ", net::show(got), " it was said to be"), cat(here, ", ", g.size(), " others", g.empty() || !g[0].isInLanelet() ? "" : cat(" with (", g[0].getLaneletId(), ", ", g[0].getLaneletPose().s, ", ", g[0].getLaneletPose().offset, ")")));
        }
        if (ts::distance::distanceToNearestConflictingPose(way, rest, offroad, everyone)) say("conflicting-offroad", "from beside the road an entity in the way was found", here);
      }
    }
  }
}

// --- poses: relative ones, on slopes, beside, on other lanelets
std::array<double, 9> matrix(const geometry_msgs::msg::Quaternion & q)
{
  const double x = q.x, y = q.y, z = q.z, w = q.w;
  return {1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)};
}
geometry_msgs::msg::Quaternion times(const geometry_msgs::msg::Quaternion & a, const geometry_msgs::msg::Quaternion & b)
{
  geometry_msgs::msg::Quaternion r;
  r.w = a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z;
  r.x = a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y;
  r.y = a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x;
  r.z = a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w;
  return r;
}
bool same(const geometry_msgs::msg::Quaternion & a, const geometry_msgs::msg::Quaternion & b) { return std::abs(std::abs(a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w) - 1) < 1e-6; }
std::string show(const geometry_msgs::msg::Pose & p) { return cat("(", p.position.x, ", ", p.position.y, ", ", p.position.z, "; ", p.orientation.x, ", ", p.orientation.y, ", ", p.orientation.z, ", ", p.orientation.w, ")"); }
void relative()
{
  std::vector<geometry_msgs::msg::Pose> poses;
  for (P3 p : {P3{0, 0, 0}, P3{3, -2, 0.5}, P3{-40, 25, 6}}) for (double yaw : {0.0, 0.7, -2.4, M_PI}) for (double pitch : {0.0, 0.3, -0.8}) for (double roll : {0.0, 0.5}) {
    auto q = placed(p, yaw, pitch);
    geometry_msgs::msg::Quaternion r;
    r.x = std::sin(roll / 2); r.w = std::cos(roll / 2);
    q.orientation = times(q.orientation, r);
    poses.push_back(q);
  }
  for (auto & a : poses) for (auto & b : poses) {
    if (!mc::mine()) continue;
    const std::string here = cat(show(a), " and ", show(b));
    mc::current(here);
    const auto m = matrix(a.orientation);
    geometry_msgs::msg::Pose want;
    const double v[3] = {b.position.x, b.position.y, b.position.z};
    want.position.x = a.position.x + m[0] * v[0] + m[1] * v[1] + m[2] * v[2];
    want.position.y = a.position.y + m[3] * v[0] + m[4] * v[1] + m[5] * v[2];
    want.position.z = a.position.z + m[6] * v[0] + m[7] * v[1] + m[8] * v[2];
    want.orientation = times(a.orientation, b.orientation);
    const auto got = ts::pose::transformRelativePoseToGlobal(a, b);
    mc::executed();
    if (!close(got.position.x, want.position.x) || !close(got.position.y, want.position.y) || !close(got.position.z, want.position.z) || !same(got.orientation, want.orientation))
      mc::violation("global", cat("the second pose, seen from the first, is ", show(want), " in the world, but ", show(got), " it was said to be"), here);
    const auto back = ts::pose::relativePose(a, want);
    mc::executed();
    if (!back || !close(back->position.x, v[0]) || !close(back->position.y, v[1]) || !close(back->position.z, v[2]) || !same(back->orientation, b.orientation))
      mc::violation("relative", cat("seen from the first pose ", show(want), " is at ", show(b), ", but ", back ? show(*back) : "nothing", " it was said to be"), here);
  }
  // boxes apart along one axis of the first
  for (double yaw : {0.0, 0.9, -2.0}) for (double gap : {0.5, 3.0, 11.0}) for (int side = 0; side < 4; ++side) for (Box one : {box(4, 2), box(1, 1)}) for (Box two : {box(3, 1.5), box(0.6, 2)}) {
    if (!mc::mine()) continue;
    const double d = (side < 2 ? one.dimensions.x + two.dimensions.x : one.dimensions.y + two.dimensions.y) / 2 + gap, e = side % 2 ? -d : d;
    const double lx = side < 2 ? e : 0, ly = side < 2 ? 0 : e;
    const auto a = placed({7, -3, 0}, yaw), b = placed({7 + lx * std::cos(yaw) - ly * std::sin(yaw), -3 + lx * std::sin(yaw) + ly * std::cos(yaw), 0}, yaw);
    const auto got = ts::pose::boundingBoxRelativePose(a, one, b, two);
    mc::executed();
    const double x = side < 2 ? (side % 2 ? -gap : gap) : 0, y = side < 2 ? 0 : (side % 2 ? -gap : gap);
    const std::string here = cat("yaw ", yaw, ", boxes ", one.dimensions.x, " by ", one.dimensions.y, " and ", two.dimensions.x, " by ", two.dimensions.y, ", the second at (", lx, ", ", ly, ")");
    if (!got || !close(side < 2 ? got->position.x : got->position.y, side < 2 ? x : y)) mc::violation("box-relative", cat("between the boxes is (", x, ", ", y, "), but ", got ? cat("(", got->position.x, ", ", got->position.y, ")") : "nothing", " it was said to be"), here);
    const auto inside = ts::pose::boundingBoxRelativePose(a, one, placed({7, -3, 0}, yaw), two);
    if (inside) mc::violation("box-relative-inside", "between boxes that overlap something was found", here);
  }
}
void slopes(Net n)
{
  enter(n);
  mc::state(n.show());
  struct Guard { Guard() { ts::CanonicalizedLaneletPose::setConsiderPoseByRoadSlope(true); } ~Guard() { ts::CanonicalizedLaneletPose::setConsiderPoseByRoadSlope(false); } } guard;
  for (auto & c : n.cells) for (double f : {0.05, 0.4, 0.93}) for (double o : {-0.8, 0.0, 1.0}) for (double yaw : {0.0, 0.3, M_PI}) {
    const double s = f * n.len(c.id);
    const std::string here = cat(n.show(), "; ", net::show(pose(c.id, s, o, yaw)), " on a slope");
    mc::current(here);
    const ts::CanonicalizedLaneletPose p(pose(c.id, s, o, yaw));
    const auto m = static_cast<geometry_msgs::msg::Pose>(p);
    mc::executed();
    const auto e = math::geometry::convertQuaternionToEulerAngle(m.orientation);
    if (!close(e.y, n.pitch(c.id)) || !close(wrap(e.z - n.yaw(c.id) - yaw), 0, yaw == 0 || yaw == M_PI ? 1e-3 : 0.1)) mc::violation("slope", cat("with the slope the pitch is ", n.pitch(c.id), " and the yaw ", wrap(n.yaw(c.id) + yaw), ", but ", e.y, " and ", e.z, " they were"), here);
    if (!close(m.position.z, n.point(c.id, s, 0)[2], 0.3)) mc::violation("slope-height", "an entity on a slope is not on the road", here);
  }
}
// the same place on another lanelet that can be reached; distances between lanes that cannot be changed
void beside(Net n)
{
  enter(n);
  mc::state(n.show());
  const auto b = box(2, 1);
  for (auto & f : n.cells) for (auto & c : n.cells) if (n.square(c.id)) for (double part : {0.2, 0.7}) for (double o : {0.0, -1.2, 1.3}) {
    const double s = part * n.len(c.id);
    const std::string here = cat(n.show(), "; from ", f.id, " to ", net::show(pose(c.id, s, o)));
    mc::current(here);
    const ts::CanonicalizedLaneletPose to(pose(c.id, s, o));
    const auto got = ts::pose::findRoutableAlternativeLaneletPoseFrom(f.id, to, b);
    mc::executed();
    const bool direct = !n.best(f.id, c.id, DEFAULT, true).empty();
    if (direct) {
      if (!got || got->getLaneletId() != c.id || got->getLaneletPose().s != s) mc::violation("alternative-direct", "a place that can be reached was replaced", here);
    } else {
      // another lanelet under the same place
      const auto at = n.point(c.id, s, o);
      bool any = false;
      for (auto & x : n.cells) if (n.square(x.id) && x.id != c.id && n.passable(x.id, DEFAULT) && !n.best(f.id, x.id, DEFAULT, true).empty() && std::abs(wrap(n.yaw(x.id) - n.yaw(c.id))) < 0.3) {
        const auto p = n.begin(x.id);
        const double k = n.yaw(x.id), ps = (at[0] - p[0]) * std::cos(k) + (at[1] - p[1]) * std::sin(k), po = -(at[0] - p[0]) * std::sin(k) + (at[1] - p[1]) * std::cos(k);
        if (ps > 0.1 && ps < n.len(x.id) - 0.1 && std::abs(po) < W / 2 - 0.05) any = true;
      }
      if (any && !got) mc::violation("alternative-none", "the place is also on a lanelet that can be reached, but none was found", here);
      if (got && n.best(f.id, got->getLaneletId(), DEFAULT, true).empty()) mc::violation("alternative-unreachable", cat("instead of it ", net::show(got->getLaneletPose()), " was chosen, which cannot be reached"), here);
      if (got && n.square(got->getLaneletId())) {
        const auto q = n.point(got->getLaneletId(), got->getLaneletPose().s, got->getLaneletPose().offset);
        if (!close(q[0], at[0]) || !close(q[1], at[1])) mc::violation("alternative-place", cat("instead of it ", net::show(got->getLaneletPose()), " was chosen, which is elsewhere"), here);
      }
    }
    // along the road, from a lane or one beside it
    if (n.square(f.id)) for (double u : {0.3, 0.9}) for (bool change : {false, true}) for (auto t : {Type::VEHICLE, DEFAULT}) {
      const ts::CanonicalizedLaneletPose from(pose(f.id, u * n.len(f.id), 0));
      ts::RoutingConfiguration config;
      config.allow_lane_change = change;
      config.routing_graph_type = t;
      const auto p = n.point(f.id, u * n.len(f.id), 0), q = n.point(c.id, s, o);
      const double k = n.yaw(f.id), dx = (q[0] - p[0]) * std::cos(k) + (q[1] - p[1]) * std::sin(k);
      if (std::abs(wrap(n.yaw(c.id) - k)) > 1e-6) continue;
      const auto d = ts::distance::longitudinalDistance(from, to, true, false, config);
      const auto straight = ts::distance::longitudinalDistance(from, to, false, false, config);
      mc::executed();
      const std::string there = cat(here, ", from s ", u * n.len(f.id), " ", ts::to_string(t), change ? " changing lanes" : "");
      if (d && !close(*d, dx) && std::all_of(n.cells.begin(), n.cells.end(), [&](auto & x) { return n.square(x.id) || x.sub != "road"; })) mc::violation("adjacent", cat("along the road it is ", dx, ", but ", *d, " it was said to be"), there);
      bool want = straight.has_value();
      for (auto & x : n.cells) if (n.square(x.id) && x.a == c.a && x.b == c.b && n.side(c.id, x.ra > c.ra, t) == x.id && std::abs(q[0] - n.point(x.id, s, 0)[0]) + std::abs(q[1] - n.point(x.id, s, 0)[1]) < 4.9)
        want = want || !n.best(f.id, x.id, t, change).empty() || !n.best(x.id, f.id, t, change).empty();
      if (want && !d) mc::violation("adjacent-none", cat("along the road it is ", dx, " away on the lanes beside, but nothing was found"), there);
    }
  }
}
// bounds of several points: the middle, at most two metres from point to point
void centres(bool custom)
{
  for (int shape = 0; shape < 3; ++shape) for (int left = 2; left <= 6; ++left) for (int right = 2; right <= 6; ++right) for (double length : {0.7, 3.0, 17.3}) for (bool own : {false, true}) {
    if (!mc::mine()) continue;
    Net n;
    n.sections = {{{0, 0, 0}, {0, W, 0}}, {{length, 0, 0}, {0, W, 0}}};
    n.cells = {{500, 0, 0, 1, 0}};
    n.build();
    auto d = n.map->laneletLayer.get(500).d;
    const auto curve = [&](double f, double o) -> P3 {   // straight, uneven; an arc; a slope
      const double u = shape == 0 ? f * f : f;
      if (shape == 1) { const double r = 20 - o, a = u * length / 20; return {r * std::sin(a), 20 - r * std::cos(a), 0}; }
      return {u * length, o, shape == 2 ? 0.2 * u * length : 0};
    };
    Id id = 60000;
    const auto bound = [&](auto & line, int count, double o) { line.d->points.clear(); for (int i = 0; i < count; ++i) { const auto p = curve(double(i) / (count - 1), o); line.push_back(lanelet::ConstPoint3d(++id, p[0], p[1], p[2])); } };
    bound(d->left, left, W / 2);
    bound(d->right, right, -W / 2);
    if (own) { bound(d->center, 3, 0.2); }
    const std::string here = cat("shape ", shape, ", ", left, " points left and ", right, " right, ", length, " m", own ? ", with a centre line of its own" : "");
    mc::current(here);
    mc::state(here);
    world = &n;
    ts::lanelet_map::activate("/nonexistent/map.osm");
    const auto c = lw::lanelet_map::centerPoints(Id(500));
    mc::executed();
    if (own) {
      const auto a = curve(0, 0.2), b = curve(0.5, 0.2);
      if (c.size() != 3 || !close(c[0].x, a[0]) || !close(c[0].y, a[1]) || !close(c[1].x, b[0]) || !close(c[1].y, b[1])) mc::violation("centre-own", cat("the centre line of the map was not used: ", c.size(), " points"), here);
      continue;
    }
    const auto a = curve(0, 0), b = curve(1, 0);
    if (c.size() < 2 || !close(c.front().x, a[0]) || !close(c.front().y, a[1]) || !close(c.front().z, a[2]) || !close(c.back().x, b[0]) || !close(c.back().y, b[1]) || !close(c.back().z, b[2])) { mc::violation("centre-ends", "the centre line does not go from the middle of one end to the middle of the other", here); continue; }
    const double sagitta = shape == 1 ? 20 - 20 * std::cos(length / 20 / 2 / (std::min(left, right) - 1)) + 0.05 : 1e-3;
    double before = -1;
    for (std::size_t i = 0; i < c.size(); ++i) {
      const double o = shape == 1 ? 20 - std::hypot(c[i].x, c[i].y - 20) : c[i].y;
      const double along = shape == 1 ? 20 * std::atan2(c[i].x, 20 - c[i].y) : c[i].x;
      if (std::abs(o) > sagitta * 1.1 || (shape == 2 && !close(c[i].z, 0.2 * c[i].x))) mc::violation("centre-beside", cat("point ", i, " of the centre line is ", o, " beside the middle"), here);
      if (along <= before || (i && along - before > 2.1)) mc::violation("centre-gap", cat("points ", i - 1, " and ", i, " of the centre line are at ", before, " and ", along), here);
      before = along;
    }
  }
  (void)custom;
}

Net crossed(const std::vector<int> & columns, int diagonals, bool reverse, int crosswalks, double yaw, std::string plain = "")
{
  auto n = grid({10, 6, 14}, columns, diagonals, reverse);
  for (int k = 0; k < 2; ++k) if (crosswalks >> k & 1) {   // from the right of the road to its left, and the other way
    const int at = int(n.sections.size());
    const double x = k ? 24.5 : 5.2;
    n.sections.push_back({{x + 1, -2, 0}, {-2.0, 0, 0}});
    n.sections.push_back({{x + 1, 8, 0}, {-2.0, 0, 0}});
    n.cells.push_back({900 + k, at, 0, at + 1, 0, "crosswalk"});
  }
  if (!plain.empty()) n.cells[0].sub = plain;
  if (yaw != 0) n.turned(yaw, {100, -40, 3});
  return n;
}
}  // namespace

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "stop lines, traffic lights, crosswalks and entities on all small road networks against the networks' own description";
    const bool all = mc::thorough();
    // lines and what refers to them
    const std::vector<std::vector<int>> columns{{1, 1, 1}, {3, 3, 3}, {1, 0, 1}, {7, 1, 3}, {2, 3, 2}};
    for (auto & cs : columns) for (double yaw : {0.0, 2.3}) {
      const auto base = crossed(cs, 0, false, 0, yaw);
      const auto lines = [&](World & w) {
        const auto len = [&](int k) { return base.len(w.lane(k)); };
        w.lines = {{1001, w.lane(0), len(0) * 0.77, -1.5, 1.5}, {1002, w.lane(1), len(1) * 0.31, 1.4, -1.4}, {1003, w.lane(0), len(0) * 0.42, -1.45, 4.4}, {1004, w.lane(2), len(2) * 0.6, 0.3, 1.4}, {1005, w.lane(2), len(2) * 0.91, -1.2, 1.3}};
      };
      const std::vector<Sign> signs{{"stop_sign", {0}, {0}}, {"stop_sign", {1}, {1}}, {"stop_sign", {1, 0}, {0, 1}}, {"speed_sign", {2}, {0}}, {"stop_sign", {2}, {2}}, {"stop_sign", {3}, {2}}, {"stop_sign", {4, 3}, {2, 3}}, {"stop_sign", {}, {0}}, {"stop_sign", {2}, {0, 3}}};
      const std::vector<Light> lights{{{0}, 0, {0}, true}, {{0}, 1, {1}, true}, {{1}, 2, {0, 1}, true}, {{0, 1}, 4, {2}, true}, {{1}, 3, {2}, true}, {{0}, -1, {0}, true}, {{2}, 1, {1}, false}, {{2, 0}, 0, {3}, true}, {{1, 2}, -1, {1, 2}, true}, {{0}, 4, {0, 3}, false}};
      for (std::size_t a = 0; a <= signs.size(); ++a) for (std::size_t b = a; b <= signs.size(); ++b) {
        if (!mc::mine()) continue;
        World w{base};
        lines(w);
        if (a < signs.size()) w.signs.push_back(signs[a]);
        if (b < signs.size()) w.signs.push_back(signs[b]);
        regulated(w, all);
        if (all) for (auto & s : signs) { auto v = w; v.signs.push_back(s); regulated(v, true); }
      }
      for (std::size_t a = 0; a <= lights.size(); ++a) for (std::size_t b = 0; b <= lights.size(); ++b) {
        if (!mc::mine()) continue;
        World w{base};
        lines(w);
        if (a < lights.size()) w.lights.push_back(lights[a]);
        if (b < lights.size()) w.lights.push_back(lights[b]);
        w.signs.push_back(signs[a % signs.size()]);
        regulated(w, all);
        if (all) for (auto & l : lights) { auto v = w; v.lights.push_back(l); regulated(v, true); }
      }
    }
    const int kinds[] = {0, 1, 2, 3, 7};
    for (int k = 0; k < 125; ++k) for (int diagonals = 0; diagonals < 4; ++diagonals) for (int crosswalks = 0; crosswalks < 4; ++crosswalks) {
      const std::vector<int> cs{kinds[k % 5], kinds[k / 5 % 5], kinds[k / 25]};
      if (!cs[0] && !cs[1] && !cs[2] && !diagonals) continue;
      if (!all && (crosswalks != (k + diagonals) % 4)) continue;
      if (!mc::mine()) continue;
      around(crossed(cs, diagonals, k % 2, crosswalks, crosswalks % 2 ? 0.7 : 0.0), all);
      if (k % 7 == 0) {
        auto n = crossed(cs, diagonals, k % 2, crosswalks, 0);
        n.cells[0].sub = "";
        if (n.cells.size() > 1) n.cells[1].sub = "road_shoulder";
        around(n, all);
      }
      if (crosswalks == 1 || crosswalks == 2) {
        auto n = crossed(cs, diagonals, k % 2, crosswalks, 0, crosswalks == 1 ? "road_shoulder" : "");
        beside(n);
      }
    }
    relative();
    for (double slope : {0.0, 0.05, 0.2, -0.15}) for (double yaw : {0.0, 1.1, -2.6}) {
      if (!mc::mine()) continue;
      auto n = grid({10, 6, 14}, {3, 7, 1}, 0, false, slope);
      n.turned(yaw, {3, 5, 2});
      slopes(n);
    }
    centres(true);
  });
}
