// A small stand-in for lanelet2: primitives, layers, routing graph, rules and matching as the code under
// test uses them. The relations between lanelets are derived from shared points and bounds as in lanelet2:
// a lanelet follows another one when both of its bounds start where the other's end, it is beside another one
// when they share a bound, and a lane change over that bound is possible when the rules allow to cross it.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <algorithm>
#include <array>
#include <boost/optional.hpp>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

namespace lanelet
{
using Id = std::int64_t;
using Ids = std::vector<Id>;
constexpr Id InvalId = 0;
template <typename T> using Optional = boost::optional<T>;
using BasicPoint2d = Eigen::Vector2d;
using BasicPoint3d = Eigen::Vector3d;
using BasicPoints3d = std::vector<BasicPoint3d>;
using BasicPolygon2d = std::vector<BasicPoint2d>;
struct NoSuchPrimitiveError : std::runtime_error { using std::runtime_error::runtime_error; };

enum class AttributeName { Type, Subtype };
inline std::string name(AttributeName n) { return n == AttributeName::Type ? "type" : "subtype"; }
struct AttributeValueString
{
  static constexpr char Road[] = "road", Highway[] = "highway", BicycleLane[] = "bicycle_lane", PlayStreet[] = "play_street",
    EmergencyLane[] = "emergency_lane", Exit[] = "exit", Walkway[] = "walkway", Crosswalk[] = "crosswalk", Stairs[] = "stairs",
    SharedWalkway[] = "shared_walkway";
};
struct Participants
{
  static constexpr char Vehicle[] = "vehicle", VehicleEmergency[] = "vehicle:emergency", Bicycle[] = "bicycle", Pedestrian[] = "pedestrian";
};
struct Locations { static constexpr char Germany[] = "de"; };
struct Attribute
{
  std::string v;
  const std::string & value() const { return v; }
  Optional<Id> asId() const { try { return Id(std::stoll(v)); } catch (...) { return {}; } }
  Optional<double> asDouble() const { try { return std::stod(v); } catch (...) { return {}; } }
};
struct Attributed
{
  std::map<std::string, Attribute> attributes_;
  bool hasAttribute(const std::string & n) const { return attributes_.count(n); }
  bool hasAttribute(AttributeName n) const { return hasAttribute(name(n)); }
  const Attribute & attribute(const std::string & n) const
  {
    const auto i = attributes_.find(n);
    if (i == attributes_.end()) throw NoSuchPrimitiveError("no attribute " + n);
    return i->second;
  }
  const Attribute & attribute(AttributeName n) const { return attribute(name(n)); }
  std::string attributeOr(const std::string & n, const std::string & d) const { return hasAttribute(n) ? attribute(n).v : d; }
};

// --- points and line strings
struct PointData : Attributed { Id id; BasicPoint3d p; };
class ConstPoint3d
{
public:
  std::shared_ptr<PointData> d;
  ConstPoint3d() = default;
  ConstPoint3d(Id id, double x, double y, double z = 0) : d(std::make_shared<PointData>()) { d->id = id; d->p = {x, y, z}; }
  Id id() const { return d->id; }
  double x() const { return d->p.x(); }
  double y() const { return d->p.y(); }
  double z() const { return d->p.z(); }
  operator BasicPoint3d() const { return d->p; }
  bool hasAttribute(const std::string & n) const { return d->hasAttribute(n); }
  const Attribute & attribute(const std::string & n) const { return d->attribute(n); }
};
using Point3d = ConstPoint3d;
struct LineData : Attributed { Id id; std::vector<ConstPoint3d> points; };
class ConstLineString3d
{
public:
  std::shared_ptr<LineData> d;
  ConstLineString3d() = default;
  explicit ConstLineString3d(Id id) : ConstLineString3d(id, {}) {}
  void push_back(const ConstPoint3d & p) { d->points.push_back(p); }
  ConstLineString3d(Id id, const std::vector<ConstPoint3d> & p) : d(std::make_shared<LineData>()) { d->id = id; d->points = p; }
  Id id() const { return d->id; }
  std::size_t size() const { return d->points.size(); }
  bool empty() const { return d->points.empty(); }
  auto begin() const { return d->points.cbegin(); }
  auto end() const { return d->points.cend(); }
  const ConstPoint3d & front() const { return d->points.front(); }
  const ConstPoint3d & back() const { return d->points.back(); }
  const ConstPoint3d & operator[](std::size_t i) const { return d->points[i]; }
  bool hasAttribute(const std::string & n) const { return d->hasAttribute(n); }
  bool hasAttribute(AttributeName n) const { return d->hasAttribute(n); }
  const Attribute & attribute(const std::string & n) const { return d->attribute(n); }
  const Attribute & attribute(AttributeName n) const { return d->attribute(n); }
  bool isLineString() const { return true; }
};
using LineString3d = ConstLineString3d;
using ConstLineStrings3d = std::vector<ConstLineString3d>;
using LineStringsOrPolygons3d = std::vector<ConstLineString3d>;
using ConstLineStringsOrPolygons3d = std::vector<ConstLineString3d>;
using ConstPolygon3d = ConstLineString3d;
using ConstPolygons3d = std::vector<ConstPolygon3d>;

// --- regulatory elements and lanelets
class RegulatoryElement : public Attributed
{
public:
  Id id_ = 0;
  std::map<std::string, std::vector<ConstLineString3d>> parameters_;
  virtual ~RegulatoryElement() = default;
  Id id() const { return id_; }
  template <typename T> std::vector<T> getParameters(const std::string & role) const
  {
    const auto i = parameters_.find(role);
    return i == parameters_.end() ? std::vector<T>{} : std::vector<T>(i->second.begin(), i->second.end());
  }
};
using RegulatoryElementPtr = std::shared_ptr<RegulatoryElement>;
struct LaneletData;
class ConstLanelet
{
public:
  std::shared_ptr<LaneletData> d;
  ConstLanelet() = default;
  explicit ConstLanelet(std::shared_ptr<LaneletData> x) : d(std::move(x)) {}
  Id id() const;
  const ConstLineString3d & leftBound() const;
  const ConstLineString3d & rightBound() const;
  const ConstLineString3d & centerline() const;
  bool hasCustomCenterline() const;
  void setCenterline(const ConstLineString3d &) const;
  std::vector<ConstPoint3d> polygon3d() const;
  bool hasAttribute(const std::string & n) const;
  bool hasAttribute(AttributeName n) const;
  const Attribute & attribute(const std::string & n) const;
  const Attribute & attribute(AttributeName n) const;
  std::string attributeOr(const std::string & n, const std::string & v) const;
  template <typename T> std::vector<std::shared_ptr<T>> regulatoryElementsAs() const;
  bool operator==(const ConstLanelet & o) const { return d == o.d; }
};
using Lanelet = ConstLanelet;
using Lanelets = std::vector<Lanelet>;
using ConstLanelets = std::vector<ConstLanelet>;
struct LaneletData : Attributed
{
  Id id;
  ConstLineString3d left, right, center;
  std::vector<RegulatoryElementPtr> regulatory;
};
inline Id ConstLanelet::id() const { return d->id; }
inline const ConstLineString3d & ConstLanelet::leftBound() const { return d->left; }
inline const ConstLineString3d & ConstLanelet::rightBound() const { return d->right; }
inline const ConstLineString3d & ConstLanelet::centerline() const { return d->center; }
inline bool ConstLanelet::hasCustomCenterline() const { return !d->center.d->points.empty(); }
inline void ConstLanelet::setCenterline(const ConstLineString3d & l) const { d->center = l; }
inline std::vector<ConstPoint3d> ConstLanelet::polygon3d() const
{
  std::vector<ConstPoint3d> r(d->left.begin(), d->left.end());
  r.insert(r.end(), std::make_reverse_iterator(d->right.end()), std::make_reverse_iterator(d->right.begin()));
  return r;
}
inline bool ConstLanelet::hasAttribute(const std::string & n) const { return d->hasAttribute(n); }
inline bool ConstLanelet::hasAttribute(AttributeName n) const { return d->hasAttribute(n); }
inline const Attribute & ConstLanelet::attribute(const std::string & n) const { return d->attribute(n); }
inline const Attribute & ConstLanelet::attribute(AttributeName n) const { return d->attribute(n); }
inline std::string ConstLanelet::attributeOr(const std::string & n, const std::string & v) const { return d->attributeOr(n, v); }
template <typename T> std::vector<std::shared_ptr<T>> ConstLanelet::regulatoryElementsAs() const
{
  std::vector<std::shared_ptr<T>> r;
  for (auto & x : d->regulatory) if (auto y = std::dynamic_pointer_cast<T>(x)) r.push_back(y);
  return r;
}
class TrafficSign : public RegulatoryElement
{
public:
  std::string type_;
  std::string type() const { return type_; }
  ConstLineStrings3d refLines() const { return getParameters<ConstLineString3d>("ref_line"); }
};
class RightOfWay : public RegulatoryElement
{
public:
  ConstLanelets right_of_way_, yield_;
  const ConstLanelets & rightOfWayLanelets() const { return right_of_way_; }
  const ConstLanelets & yieldLanelets() const { return yield_; }
};
class TrafficLight : public RegulatoryElement
{
public:
  using Ptr = std::shared_ptr<TrafficLight>;
  Optional<ConstLineString3d> stop_line_;
  Optional<ConstLineString3d> stopLine() const { return stop_line_; }
  ConstLineStrings3d trafficLights() const { return getParameters<ConstLineString3d>("refers"); }
};
namespace autoware
{
class AutowareTrafficLight : public TrafficLight
{
public:
  ConstLineStrings3d lightBulbs() const { return getParameters<ConstLineString3d>("light_bulbs"); }
};
class DetectionArea : public RegulatoryElement {};
}  // namespace autoware
using AutowareTrafficLightConstPtr = std::shared_ptr<const autoware::AutowareTrafficLight>;
using DetectionAreaConstPtr = std::shared_ptr<const autoware::DetectionArea>;
struct RoleName { static constexpr char Refers[] = "refers"; };

// --- map
template <typename T>
class Layer
{
public:
  std::map<Id, T> elements;
  struct iterator
  {
    typename std::map<Id, T>::const_iterator i;
    const T & operator*() const { return i->second; }
    const T * operator->() const { return &i->second; }
    iterator & operator++() { ++i; return *this; }
    bool operator!=(const iterator & o) const { return i != o.i; }
    bool operator==(const iterator & o) const { return i == o.i; }
  };
  iterator begin() const { return {elements.begin()}; }
  iterator end() const { return {elements.end()}; }
  std::size_t size() const { return elements.size(); }
  bool empty() const { return elements.empty(); }
  bool exists(Id id) const { return elements.count(id); }
  iterator find(Id id) const { return {elements.find(id)}; }
  T get(Id id) const
  {
    const auto i = elements.find(id);
    if (i == elements.end()) throw NoSuchPrimitiveError("Failed to find id " + std::to_string(id));
    return i->second;
  }
  void add(const T & x) { elements[key(x)] = x; }
private:
  template <typename X> static Id key(const std::shared_ptr<X> & x) { return x->id(); }
  template <typename X> static auto key(const X & x) -> decltype(x.id()) { return x.id(); }
};
struct LaneletMap
{
  Layer<Lanelet> laneletLayer;
  Layer<LineString3d> lineStringLayer;
  Layer<RegulatoryElementPtr> regulatoryElementLayer;
};
using LaneletMapPtr = std::shared_ptr<LaneletMap>;

namespace geometry
{
inline BasicPolygon2d polygon(const ConstLanelet & l)
{
  BasicPolygon2d r;
  for (const auto & p : l.polygon3d()) r.emplace_back(p.x(), p.y());
  return r;
}
inline double distance(const ConstPoint3d & a, const ConstPoint3d & b) { return (a.d->p - b.d->p).norm(); }
inline double length(const ConstLineString3d & l)
{
  double r = 0;
  for (std::size_t i = 1; i < l.size(); ++i) r += distance(l[i - 1], l[i]);
  return r;
}
inline double cross(const BasicPoint2d & a, const BasicPoint2d & b) { return a.x() * b.y() - a.y() * b.x(); }
inline double toSegment(const BasicPoint2d & p, const BasicPoint2d & a, const BasicPoint2d & b)
{
  const BasicPoint2d d = b - a;
  const double n = d.squaredNorm();
  const double t = n > 0 ? std::clamp((p - a).dot(d) / n, 0.0, 1.0) : 0;
  return (p - (a + t * d)).norm();
}
inline bool within(const BasicPolygon2d & q, const BasicPoint2d & p)
{
  bool in = false;
  for (std::size_t i = 0, j = q.size() - 1; i < q.size(); j = i++) {
    if (toSegment(p, q[i], q[j]) < 1e-9) return true;
    if ((q[i].y() > p.y()) != (q[j].y() > p.y()) && p.x() < (q[j].x() - q[i].x()) * (p.y() - q[i].y()) / (q[j].y() - q[i].y()) + q[i].x()) in = !in;
  }
  return in;
}
inline double toPolygon(const BasicPolygon2d & q, const BasicPoint2d & p)
{
  if (within(q, p)) return 0;
  double r = std::numeric_limits<double>::infinity();
  for (std::size_t i = 0; i < q.size(); ++i) r = std::min(r, toSegment(p, q[i], q[(i + 1) % q.size()]));
  return r;
}
inline bool cut(const BasicPoint2d & a, const BasicPoint2d & b, const BasicPoint2d & c, const BasicPoint2d & d, double e)
{
  const double p = cross(b - a, c - a), q = cross(b - a, d - a), r = cross(d - c, a - c), s = cross(d - c, b - c);
  return ((p > e && q < -e) || (p < -e && q > e)) && ((r > e && s < -e) || (r < -e && s > e));
}
// polygons that share area, not only a border
inline bool overlap(const BasicPolygon2d & a, const BasicPolygon2d & b)
{
  for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j)
    if (cut(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()], 1e-9)) return true;
  const auto inner = [](const BasicPolygon2d & q, const BasicPoint2d & p) {
    for (std::size_t i = 0; i < q.size(); ++i) if (toSegment(p, q[i], q[(i + 1) % q.size()]) < 1e-9) return false;
    return within(q, p);
  };
  for (auto & p : a) if (inner(b, p)) return true;
  for (auto & p : b) if (inner(a, p)) return true;
  // any triangle of corners whose centre is in both
  std::vector<BasicPoint2d> all(a.begin(), a.end());
  all.insert(all.end(), b.begin(), b.end());
  for (std::size_t i = 0; i < all.size(); ++i) for (std::size_t j = i + 1; j < all.size(); ++j) for (std::size_t k = j + 1; k < all.size(); ++k) {
    const BasicPoint2d c = (all[i] + all[j] + all[k]) / 3;
    if (inner(a, c) && inner(b, c)) return true;
  }
  return false;
}
inline double apart(const BasicPolygon2d & a, const BasicPolygon2d & b)
{
  if (overlap(a, b)) return 0;
  double r = std::numeric_limits<double>::infinity();
  for (auto & p : a) r = std::min(r, toPolygon(b, p));
  for (auto & p : b) r = std::min(r, toPolygon(a, p));
  return r;
}
inline bool inside(const ConstLanelet & l, const BasicPoint2d & p) { return within(polygon(l), p); }
inline std::vector<std::pair<double, Lanelet>> findNearest(const Layer<Lanelet> & layer, const BasicPoint2d & p, unsigned n)
{
  std::vector<std::pair<double, Lanelet>> r;
  for (const auto & l : layer) r.emplace_back(toPolygon(polygon(l), p), l);
  std::stable_sort(r.begin(), r.end(), [](auto & a, auto & b) { return a.first < b.first; });
  if (r.size() > n) r.resize(n);
  return r;
}
}  // namespace geometry

// --- rules
namespace units
{
struct Velocity { double kmh; };
struct KmHQuantity { double v; KmHQuantity(const Velocity & x) : v(x.kmh) {} double value() const { return v; } };
}  // namespace units
namespace utils
{
template <typename C, typename F> bool anyOf(C && c, F && f) { return std::any_of(c.begin(), c.end(), f); }
inline Id getId() { static Id i = 1000000; return ++i; }
}  // namespace utils
namespace traffic_rules
{
enum class LaneChangeType { ToRight, ToLeft, Both, None };
struct SpeedLimitInformation { units::Velocity speedLimit; bool isMandatory = true; };
class TrafficRules
{
public:
  struct Configuration { std::string participant, location; };
  explicit TrafficRules(Configuration c = {}) : c(c) {}
  virtual ~TrafficRules() = default;
  const std::string & participant() const { return c.participant; }
  const std::string & location() const { return c.location; }
  bool canPass(const ConstLanelet & l) const
  {
    const auto r = canPass(l.attributeOr("subtype", ""), l.attributeOr("location", ""));
    return r && *r;
  }
  bool canPass(const ConstLanelet & from, const ConstLanelet & to) const
  {
    return canPass(from) && canPass(to) && from.leftBound().back().id() == to.leftBound().front().id() &&
           from.rightBound().back().id() == to.rightBound().front().id();
  }
  bool canChangeLane(const ConstLanelet & from, const ConstLanelet & to) const
  {
    if (!canPass(from) || !canPass(to)) return false;
    if (from.leftBound().id() == to.rightBound().id()) { const auto t = laneChangeType(from.leftBound(), true); return t == LaneChangeType::Both || t == LaneChangeType::ToLeft; }
    if (from.rightBound().id() == to.leftBound().id()) { const auto t = laneChangeType(from.rightBound(), true); return t == LaneChangeType::Both || t == LaneChangeType::ToRight; }
    return false;
  }
  SpeedLimitInformation speedLimit(const ConstLanelet & l) const { return {{l.hasAttribute("speed_limit") ? *l.attribute("speed_limit").asDouble() : 50.0}}; }
  virtual LaneChangeType laneChangeType(const ConstLineString3d & line, bool = false) const
  {
    return line.d->attributeOr("subtype", "solid") == "dashed" ? LaneChangeType::Both : LaneChangeType::None;
  }
protected:
  virtual Optional<bool> canPass(const std::string & type, const std::string &) const
  {
    if (c.participant == Participants::Pedestrian) return type == "walkway" || type == "crosswalk";
    return type == "" || type == "road" || type == "highway";
  }
private:
  Configuration c;
};
using TrafficRulesPtr = std::shared_ptr<TrafficRules>;
using TrafficRulesUPtr = std::unique_ptr<TrafficRules>;
class GenericTrafficRules : public TrafficRules { public: using TrafficRules::TrafficRules; using TrafficRules::canPass; };
class GermanVehicle : public GenericTrafficRules { public: using GenericTrafficRules::GenericTrafficRules; };
struct TrafficRulesFactory
{
  static auto & registry() { static std::map<std::pair<std::string, std::string>, std::function<TrafficRulesPtr()>> r; return r; }
  static TrafficRulesPtr create(const std::string & location, const std::string & participant)
  {
    if (const auto i = registry().find({location, participant}); i != registry().end()) return i->second();
    return std::make_shared<GermanVehicle>(TrafficRules::Configuration{participant, location});
  }
};
template <typename T>
struct RegisterTrafficRules
{
  RegisterTrafficRules(const std::string & location, const std::string & participant)
  {
    TrafficRulesFactory::registry()[{location, participant}] = [=] { return std::make_shared<T>(TrafficRules::Configuration{participant, location}); };
  }
};
}  // namespace traffic_rules

namespace utils
{
inline double getLaneletLength2d(const ConstLanelet & l)
{
  double r = 0;
  const auto & c = l.centerline();
  for (std::size_t i = 1; i < c.size(); ++i) r += std::hypot(c[i].x() - c[i - 1].x(), c[i].y() - c[i - 1].y());
  return r;
}
}  // namespace utils

// --- routing
namespace routing
{
using LaneletPath = ConstLanelets;
struct Route { LaneletPath path; const LaneletPath & shortestPath() const { return path; } };
class RoutingGraph
{
public:
  std::map<Id, ConstLanelet> passable;
  std::map<Id, ConstLanelets> next, before, lefts_, rights_, conflicts;   // all lanelets to the side over crossable bounds, nearest first
  static std::shared_ptr<RoutingGraph> build(const LaneletMap & map, const traffic_rules::TrafficRules & rules)
  {
    auto g = std::make_shared<RoutingGraph>();
    for (const auto & l : map.laneletLayer) if (rules.canPass(l)) g->passable.emplace(l.id(), l);
    for (auto & [i, a] : g->passable) for (auto & [j, b] : g->passable) {
      if (rules.TrafficRules::canPass(a, b)) { g->next[i].push_back(b); g->before[j].push_back(a); }
    }
    const auto neighbour = [&](const ConstLanelet & a, bool left) -> Optional<ConstLanelet> {
      for (auto & [j, b] : g->passable)
        if (!(a == b) && (left ? a.leftBound().id() == b.rightBound().id() : a.rightBound().id() == b.leftBound().id()) && rules.canChangeLane(a, b)) return b;
      return {};
    };
    for (auto & [i, a] : g->passable) {
      for (auto n = neighbour(a, true); n; n = neighbour(*n, true)) g->lefts_[i].push_back(*n);
      for (auto n = neighbour(a, false); n; n = neighbour(*n, false)) g->rights_[i].push_back(*n);
    }
    const auto has = [](const ConstLanelets & v, const ConstLanelet & x) { return std::find(v.begin(), v.end(), x) != v.end(); };
    for (auto & [i, a] : g->passable) for (auto & [j, b] : g->passable)
      if (i != j && !has(g->next[i], b) && !has(g->before[i], b) && !has(g->lefts_[i], b) && !has(g->rights_[i], b) && geometry::overlap(geometry::polygon(a), geometry::polygon(b)))
        g->conflicts[i].push_back(b);
    return g;
  }
  ConstLanelets following(const ConstLanelet & l, bool = false) const { return at(next, l); }
  ConstLanelets previous(const ConstLanelet & l, bool = false) const { return at(before, l); }
  ConstLanelets lefts(const ConstLanelet & l) const { return at(lefts_, l); }
  ConstLanelets rights(const ConstLanelet & l) const { return at(rights_, l); }
  Optional<ConstLanelet> left(const ConstLanelet & l) const { return first(at(lefts_, l)); }
  Optional<ConstLanelet> right(const ConstLanelet & l) const { return first(at(rights_, l)); }
  ConstLanelets conflicting(const ConstLanelet & l) const { return at(conflicts, l); }
  // the cheapest path: a lanelet costs its length when it is left at its end, a lane change costs ten
  Optional<Route> getRoute(const ConstLanelet & from, const ConstLanelet & to, int = 0, bool change = true) const
  {
    if (!passable.count(from.id()) || !passable.count(to.id())) return {};
    std::map<Id, std::pair<double, Id>> best{{from.id(), {0, 0}}};
    std::set<std::pair<double, Id>> open{{0, from.id()}};
    while (!open.empty()) {
      const auto [c, i] = *open.begin();
      open.erase(open.begin());
      const auto & a = passable.at(i);
      if (i == to.id()) break;
      const auto go = [&, c = c, i = i](const ConstLanelet & b, double w) {
        const auto k = best.find(b.id());
        if (k != best.end() && k->second.first <= c + w) return;
        if (k != best.end()) open.erase({k->second.first, b.id()});
        best[b.id()] = {c + w, i};
        open.insert({c + w, b.id()});
      };
      for (auto & b : at(next, a)) go(b, utils::getLaneletLength2d(a));
      if (change) {
        if (auto b = left(a)) go(*b, 10);
        if (auto b = right(a)) go(*b, 10);
      }
    }
    if (!best.count(to.id())) return {};
    Route r;
    for (Id i = to.id(); i; i = i == from.id() ? 0 : best.at(i).second) r.path.push_back(passable.at(i));
    std::reverse(r.path.begin(), r.path.end());
    return r;
  }
private:
  static ConstLanelets at(const std::map<Id, ConstLanelets> & m, const ConstLanelet & l) { const auto i = m.find(l.id()); return i == m.end() ? ConstLanelets{} : i->second; }
  static Optional<ConstLanelet> first(const ConstLanelets & v) { if (v.empty()) return {}; return v.front(); }
};
using RoutingGraphPtr = std::shared_ptr<RoutingGraph>;
using RoutingGraphConstPtr = std::shared_ptr<const RoutingGraph>;
class RoutingGraphContainer
{
public:
  std::vector<RoutingGraphConstPtr> graphs;
  explicit RoutingGraphContainer(const std::vector<RoutingGraphConstPtr> & g) : graphs(g) {}
  ConstLanelets conflictingInGraph(const ConstLanelet & l, std::size_t id, double = 0) const
  {
    ConstLanelets r;
    for (auto & [i, o] : graphs.at(id)->passable) if (i != l.id() && geometry::overlap(geometry::polygon(l), geometry::polygon(o))) r.push_back(o);
    return r;
  }
};
}  // namespace routing
namespace utils
{
inline ConstLanelets getConflictingLanelets(const routing::RoutingGraphConstPtr & g, const ConstLanelet & l) { return g->conflicting(l); }
namespace query
{
inline ConstLanelets laneletLayer(const LaneletMapPtr & m)
{
  ConstLanelets r;
  for (const auto & l : m->laneletLayer) r.push_back(l);
  return r;
}
inline std::vector<AutowareTrafficLightConstPtr> autowareTrafficLights(const ConstLanelets & ls)
{
  std::vector<AutowareTrafficLightConstPtr> r;
  for (auto & l : ls) for (auto & x : l.regulatoryElementsAs<const autoware::AutowareTrafficLight>())
    if (std::none_of(r.begin(), r.end(), [&](auto & y) { return y->id() == x->id(); })) r.push_back(x);
  return r;
}
}  // namespace query
}  // namespace utils

// --- loading: the harness hands over the map
struct GPSPoint { double lat, lon, ele = 0; };
struct Origin { GPSPoint position; Origin(GPSPoint p) : position(p) {} };
namespace projection
{
struct MGRSProjector {};
struct TransverseMercatorProjector { TransverseMercatorProjector(const Origin &, double) {} };
}  // namespace projection
using ErrorMessages = std::vector<std::string>;
LaneletMapPtr world();
template <typename P> LaneletMapPtr load(const std::string &, const P &, ErrorMessages *) { return world(); }
template <typename A> void serialize(A &, LaneletMap &, unsigned) {}

namespace matching
{
using Pose2d = Eigen::Transform<double, 2, Eigen::Isometry, Eigen::DontAlign>;
using Hull2d = BasicPolygon2d;
struct Object2d { Id objectId = 0; Pose2d pose = Pose2d::Identity(); Hull2d absoluteHull; };
struct LaneletMatch { Lanelet lanelet; double distance = 0; bool inverted = false; };
// every lanelet within the distance of the hull, once in each direction, nearest first
inline std::vector<LaneletMatch> getDeterministicMatches(const LaneletMap & m, const Object2d & o, double max_distance)
{
  std::vector<LaneletMatch> r;
  for (const auto & l : m.laneletLayer) {
    const auto q = geometry::polygon(l);
    double d = std::numeric_limits<double>::infinity();
    for (auto & p : o.absoluteHull) d = std::min(d, geometry::toPolygon(q, p));
    for (std::size_t i = 0; i + 1 < o.absoluteHull.size(); ++i)
      for (std::size_t j = 0; j < q.size(); ++j)
        if (geometry::cut(o.absoluteHull[i], o.absoluteHull[i + 1], q[j], q[(j + 1) % q.size()], 0)) d = 0;
    if (d <= max_distance) { r.push_back({l, d, false}); r.push_back({l, d, true}); }
  }
  std::stable_sort(r.begin(), r.end(), [](auto & a, auto & b) { return a.distance < b.distance; });
  return r;
}
inline std::vector<LaneletMatch> removeNonRuleCompliantMatches(const std::vector<LaneletMatch> & ms, const traffic_rules::TrafficRulesPtr & rules)
{
  std::vector<LaneletMatch> r;
  for (auto & x : ms) if (!x.inverted && rules->canPass(x.lanelet)) r.push_back(x);
  return r;
}
}  // namespace matching
}  // namespace lanelet
