// Vehicles driven by the behaviour tree among others, lights and stop lines, and changing lanes (C39).
#include "npc.hpp"
#include <traffic_simulator/traffic_lights/traffic_lights.hpp>
namespace npc
{
namespace
{
using Colour = traffic_simulator::TrafficLight::Color;
// a road of one column with two rows, lights and stop lines in the lower one
struct Road
{
  Net n;
  double stop = 0;   // where the line is (0: none)
  bool light = false;
  lanelet::ConstPoint3d point(P3 p) const { static Id id = 50000; return lanelet::ConstPoint3d(++id, p[0], p[1], p[2]); }
  Id lane() const { return n.cells[0].id; }
  void build()
  {
    n.map = nullptr;
    n.build();
    if (!stop) return;
    double s = stop;
    std::size_t k = 0;
    while (s > n.len(n.cells[k].id)) s -= n.len(n.cells[k++].id);
    const Id on = n.cells[k].id;
    lanelet::ConstLineString3d line(6001, {point(n.point(on, s, -1.4)), point(n.point(on, s, 1.4))});
    line.d->attributes_["type"].v = "stop_line";
    n.map->lineStringLayer.add(line);
    const auto give = [&](auto e) { n.map->laneletLayer.get(on).d->regulatory.push_back(e); n.map->regulatoryElementLayer.add(e); };
    if (!light) {
      auto e = std::make_shared<lanelet::TrafficSign>();
      e->id_ = 9000; e->type_ = "stop_sign"; e->attributes_["subtype"].v = "traffic_sign"; e->parameters_["ref_line"].push_back(line);
      give(e);
      return;
    }
    auto e = std::make_shared<lanelet::autoware::AutowareTrafficLight>();
    e->id_ = 8000; e->attributes_["subtype"].v = "traffic_light"; e->stop_line_ = line;
    lanelet::ConstLineString3d way(7000, {point(n.point(on, s, 4)), point(n.point(on, s, 6))});
    way.d->attributes_["type"].v = "traffic_light"; way.d->attributes_["height"].v = "1.0";
    n.map->lineStringLayer.add(way);
    e->parameters_["refers"].push_back(way);
    lanelet::ConstLineString3d b(7500);
    b.d->attributes_["type"].v = "light_bulbs"; b.d->attributes_["traffic_light_id"].v = "7000";
    for (int c = 0; c < 3; ++c) { auto at = n.point(on, s, 4.5 + 0.5 * c); at[2] += 5; auto q = point(at); q.d->attributes_["color"].v = c == 0 ? "red" : c == 1 ? "yellow" : "green"; b.push_back(q); }
    e->parameters_["light_bulbs"].push_back(b);
    give(e);
  }
};
struct Frame { double s, y, v, a; std::string action; };
struct Other { int row; double s, v; double brake = -1; };   // brake: when it begins to stop
struct Scene
{
  double dt, v0, target, s0 = 30;
  std::vector<Other> others;
  std::string light;       // colour until `change`
  double change = 1e9;     // when it turns green
  bool look = true;
  bool swapped = false;    // the others spawned the other way around
  std::string show() const
  {
    std::string r = cat("dt ", dt, ", speed ", v0, ", target ", target, look ? "" : ", not looking around");
    for (auto & o : others) r += cat("; other on row ", o.row, " at ", o.s, " speed ", o.v, o.brake >= 0 ? cat(" stopping at ", o.brake) : std::string());
    if (!light.empty()) r += cat("; light ", light, change < 1e8 ? cat(" until ", change) : std::string());
    return r;
  }
};
std::vector<Frame> drive(Road & road, const Scene & h, double until, std::string & trace, const std::function<bool(Sim &, const Frame &)> & each)
{
  Sim s(road.n, h.dt);
  const auto at = [&](int row, double x) { Id first = 0; for (auto & c : road.n.cells) if (c.ra == row && c.a == 0) { first = c.id; break; } LP p = pose(first, x); return p; };
  const auto on = [&](int row, double x) {
    for (std::size_t k = 0;; ++k) { Id id = 0; for (auto & c : road.n.cells) if (c.a == int(k) && c.ra == row) id = c.id; if (x < road.n.len(id)) return pose(id, x); x -= road.n.len(id); }
  };
  (void)at;
  auto & a = s.car("a", on(0, h.s0));
  std::vector<int> order(h.others.size());
  for (std::size_t k = 0; k < order.size(); ++k) order[k] = h.swapped ? int(order.size() - 1 - k) : int(k);
  for (int k : order) {
    auto & o = s.car(cat("o", k), on(h.others[k].row, h.others[k].s));
    o.setLinearVelocity(h.others[k].v);
    o.requestSpeedChange(h.others[k].v, true);
    auto b = o.getBehaviorParameter(); b.see_around = false; o.setBehaviorParameter(b);
  }
  auto b = a.getBehaviorParameter(); b.see_around = h.look; a.setBehaviorParameter(b);
  a.setLinearVelocity(h.v0);
  if (h.target >= 0) a.requestSpeedChange(h.target, true);
  if (!h.light.empty()) s.lights->getConventionalTrafficLights()->setTrafficLightsState(7000, h.light);
  s.em->startNpcLogic(0);
  std::vector<Frame> r;
  trace = h.show();
  bool green = false;
  std::vector<bool> braked(h.others.size());
  while (s.now < until) {
    if (!h.light.empty() && !green && s.now >= h.change) { green = true; s.lights->getConventionalTrafficLights()->setTrafficLightsState(7000, "green solidOn circle"); }
    for (std::size_t k = 0; k < h.others.size(); ++k) if (h.others[k].brake >= 0 && s.now >= h.others[k].brake && !braked[k]) { braked[k] = true; s.em->getEntity(cat("o", k)).requestSpeedChange(0, true); }
    s.frame();
    auto & e = s.em->getEntity("a");
    r.push_back({e.getMapPose().position.x, e.getMapPose().position.y, e.getCurrentTwist().linear.x, e.getCurrentAccel().linear.x, e.getCurrentAction()});
    trace += cat("\n", s.now, ": ", r.back().s, ",", r.back().y, " speed ", r.back().v, " acceleration ", r.back().a, " ", r.back().action);
    if (each && !each(s, r.back())) break;
  }
  return r;
}
}  // namespace
void drives()
{
  mc::st().rule = "all scenes";
  // (to be replaced)
  Road plain; plain.n = grid({200.3, 300.4}, {3, 3}, 0, false); for (auto & c : plain.n.cells) c.speed = 50; plain.build();
  std::string t;
  if (mc::mine()) { Scene h{0.1, 10, -1, 30}; drive(plain, h, 10, t, {}); mc::violation("A solo", "", t); }
  if (mc::mine()) { Scene h{0.1, 10, 10, 30, {{0, 90, 0}}}; drive(plain, h, 15, t, {}); mc::violation("B standing", "", t); }
  if (mc::mine()) { Scene h{0.1, 10, 10, 30, {{0, 60, 4}}}; drive(plain, h, 25, t, {}); mc::violation("C slower", "", t); }
  Road light = plain; light.stop = 100; light.light = true; light.build();
  if (mc::mine()) { Scene h{0.1, 10, 10, 30, {}, "red solidOn circle", 14}; drive(light, h, 22, t, {}); mc::violation("D light", "", t); }
  Road line = plain; line.stop = 100; line.build();
  if (mc::mine()) { Scene h{0.1, 10, 10, 30}; drive(line, h, 25, t, {}); mc::violation("E line", "", t); }
}
}  // namespace npc
