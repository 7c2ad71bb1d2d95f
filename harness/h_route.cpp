// Routes, route planners, lane changes and rights of way on small road networks against the networks' description (C35).
#include "h_net.hpp"
#include <geometry/spline/hermite_curve.hpp>
using namespace net;
namespace
{
constexpr Type DEFAULT = Type::VEHICLE_WITH_ROAD_SHOULDER;
const Type TYPES[] = {Type::VEHICLE, Type::VEHICLE_WITH_ROAD_SHOULDER, Type::PEDESTRIAN};
bool in(Id i, const Ids & v) { return std::find(v.begin(), v.end(), i) != v.end(); }
template <typename F> auto attempt(F f) -> std::optional<decltype(f())>
{
  try { return f(); } catch (const common::scenario_simulator_exception::Error &) { return {}; }
}

// v[from..] goes on from i, straight on where possible, just far enough
std::string straightOn(const Net & n, Id i, const Ids & v, std::size_t from, double distance, Type t, bool forward, bool strict)
{
  double sum = 0;
  for (std::size_t k = from; ; ++k) {
    auto b = forward ? n.next(i, t) : n.before(i, t);
    const bool enough = strict ? sum > distance + 1e-9 : sum >= distance - 1e-9;
    const bool maybe = std::abs(sum - distance) < 1e-9;
    if (k == v.size()) return enough || maybe || b.empty() ? "" : cat("it ends after ", sum, " m");
    if (enough && !maybe) return cat("it goes on after ", sum, " m");
    Ids straight;
    for (auto x : b) if (n.cell(x).turn == "straight") straight.push_back(x);
    if (!in(v[k], straight.empty() ? b : straight)) return cat("it goes from ", i, " to ", v[k]);
    i = v[k];
    sum += n.len(i);
  }
}

void chains(const Net & n)
{
  for (auto t : TYPES) for (auto & c : n.cells) {
    if (!n.passable(c.id, t)) continue;
    for (double d : {0.0, 3.1, 6.2, 11.3, 21.3, 47.9, 150.3}) {
      const std::string here = cat(n.show(), "; from ", c.id, " over ", d, " m for ", int(t));
      mc::current(here);
      for (bool self : {false, true}) {
        const auto v = ts::route::followingLanelets(c.id, d, self, t);
        mc::executed();
        if (self && (v.empty() || v[0] != c.id)) mc::violation("following-self", cat("the lanelets following a lanelet, with itself, are ", show(v)), here);
        else if (auto e = straightOn(n, c.id, v, self, d, t, true, false); !e.empty()) mc::violation("following", cat("the lanelets that follow are said to be ", show(v), ": ", e), here);
      }
      const auto v = ts::route::previousLanelets(c.id, d, t);
      mc::executed();
      if (v.empty() || v[0] != c.id) mc::violation("previous-self", cat("the lanelets before a lanelet, with itself, are ", show(v)), here);
      else if (auto e = straightOn(n, c.id, v, 1, d, t, false, false); !e.empty()) mc::violation("previous", cat("the lanelets before are said to be ", show(v), ": ", e), here);
      // along routes, connected or not
      std::set<Ids> routes;
      for (auto & a : n.cells) for (auto & b : n.cells) for (auto & w : n.best(a.id, b.id, t, false)) routes.insert(w.ids);
      for (auto & a : n.cells) for (auto & b : n.cells) routes.insert({a.id, b.id});
      for (auto & r : routes) for (bool self : {false, true}) {
        const std::string there = cat(here, "; route ", show(r), self ? " with itself" : "");
        mc::current(there);
        const auto got = attempt([&] { return ts::route::followingLanelets(c.id, r, d, self, t); });
        mc::executed();
        const auto at = std::find(r.begin(), r.end(), c.id);
        if (ts::route::isInRoute(c.id, r) != (at != r.end()) || lw::route::isInRoute(c.id, r) != (at != r.end())) mc::violation("in-route", "a lanelet is wrongly said to be in a route, or not to be", there);
        if (at == r.end()) { if (got) mc::violation("route-foreign", cat("a lanelet that is not in the route was given a way along it: ", show(*got)), there); continue; }
        // walk the route
        double sum = 0;
        Ids want;
        bool broken = false, done = false;
        if (self) want.push_back(c.id);
        Id last = c.id;
        for (auto k = at + 1; k != r.end() && !done; ++k) {
          if (!in(*k, n.next(last, t))) { broken = true; break; }
          want.push_back(*k);
          sum += n.len(*k);
          last = *k;
          done = sum > d;
        }
        if (broken) {
          if (got) mc::violation("route-broken", cat("a route that is not connected was followed: ", show(*got)), there);
          try { ts::route::followingLanelets(c.id, r, d, self, t); }
          catch (const common::scenario_simulator_exception::Error & e) {
            const std::string m = e.what();
            if (m.find(cat(last)) == m.npos || m.find("is not the follower") == m.npos) mc::violation("route-broken-message", cat("a route that is not connected was refused with: ", m), there);
          }
          continue;
        }
        if (!got) { mc::violation("route-refused", "a connected route was refused", there); continue; }
        if (got->size() < want.size() || !std::equal(want.begin(), want.end(), got->begin())) { mc::violation("route-left", cat("along the route go ", show(want), ", but ", show(*got), " was said to"), there); continue; }
        if (done) { if (*got != want) mc::violation("route-far", cat("along the route it is far enough with ", show(want), ", but ", show(*got), " was said"), there); }
        else if (auto e = straightOn(n, last, *got, want.size(), d - sum, t, true, true); !e.empty() && !(std::abs(d - sum) < 1e-9)) {
          if (auto e2 = straightOn(n, last, *got, want.size(), d - sum, t, true, false); !e2.empty()) mc::violation("route-on", cat("after the route it goes on as ", show(*got), ": ", e2), there);
        }
      }
    }
    for (auto & b : n.cells) for (auto t2 : {Type::VEHICLE, DEFAULT}) {
      const double v = ts::route::speedLimit(Ids{c.id, b.id}, t2), want = std::min(c.speed, b.speed) / 3.6;
      mc::executed();
      if (!close(v, want, 1e-6)) mc::violation("speed-limit", cat("the lowest limit is ", want, " m/s, but ", v, " was said"), cat(n.show(), "; ", c.id, " ", b.id));
    }
  }
}

// histories of two planners: waypoints set, cancelled, the entity somewhere
using Place = Net::Place;
void planners(const Net & n, Type ta, Type tb, int depth)
{
  const Type types[2] = {ta, tb};
  for (int k = 0; k < (ta == tb ? 1 : 2); ++k) {
    const auto t = types[k];
    std::vector<std::pair<Place, ts::CanonicalizedLaneletPose>> sp, goals_[2];
    const auto add = [](auto & v, Id i, double s) { v.push_back({{i, s}, ts::CanonicalizedLaneletPose(pose(i, s))}); };
    for (auto & c : n.cells) if (n.passable(c.id, t)) {
      add(sp, c.id, 0.25 * n.len(c.id)), add(sp, c.id, 0.75 * n.len(c.id));
      add(goals_[0], c.id, 0.5 * n.len(c.id)), add(goals_[1], c.id, 0.6 * n.len(c.id));
    }
    const int m = int(sp.size()), g = int(goals_[0].size());
    if (!m) return;
    mc::explore([&](mc::Chooser & c) {
      ts::RoutePlanner p(t);
      int key = 0;
      std::deque<Place> queue;
      std::string trace = cat(n.show(), "; planner for ", int(t), ":");
      for (int step = 0; step < depth; ++step) {
        // waypoints (one or two) or cancel, then a place of the entity; or only a place
        const int what = step >= 2 ? 3 : c(step == 0 ? 2 : 4);
        if (what < 2) {
          queue.clear();
          std::vector<ts::CanonicalizedLaneletPose> w;
          for (int i = 0; i <= what; ++i) {
            const int x = c(g);
            if (step == 0 && i == 0) key = x;
            queue.push_back(goals_[i][x].first);
            w.push_back(goals_[i][x].second);
          }
          trace += " waypoints";
          for (auto x : queue) trace += cat(" ", x.id, "@", x.s);
          p.setWaypoints(w);
          Ids whole;
          for (auto x : queue) if (whole.empty() || whole.back() != x.id) whole.push_back(x.id);
          if (p.getWholeRouteLanelets() != whole) mc::violation("planner-whole", cat("the lanelets of the waypoints are ", show(whole), ", but ", show(p.getWholeRouteLanelets()), " was said"), trace);
        } else if (what == 2) {
          trace += " cancelled";
          p.cancelRoute();
          queue.clear();
        }
        if (what < 3 && p.getGoalPoses().size() != queue.size()) mc::violation("planner-goals", cat(queue.size(), " goals were set, but there are ", p.getGoalPoses().size()), trace);
        const int e = c(m);
        if (step == 0 && (key * m + e) % mc::st().shards != mc::st().shard) return;
        const auto & here = sp[e].first;
        const double horizon = step % 2 ? 15.3 : 60.1;
        trace += cat("; at ", here.id, "@", here.s);
        mc::current(trace);
        const auto got = attempt([&] { return p.getRouteLanelets(sp[e].second, horizon); });
        mc::executed();
        while (!queue.empty() && queue.front().id == here.id && queue.front().s <= here.s) queue.pop_front();
        if (!got) { mc::violation("planner-error", "asking for the route ended with an error", trace); return; }
        mc::outcome(show(*got));
        if (got->empty() || got->front() != here.id || !n.chain(*got, t)) mc::violation("planner-chain", cat("the route is ", show(*got), ", which does not lead along connected lanelets from ", here.id), trace);
        double sum = 0;
        for (std::size_t i = 1; i < got->size(); ++i) { if (sum > horizon + 1e-9) mc::violation("planner-far", cat("the route ", show(*got), " goes on past ", horizon, " m"), trace); sum += n.len((*got)[i]); }
        if (sum < horizon - 1e-9 && !got->empty() && !n.next(got->back(), t).empty()) mc::violation("planner-short", cat("the route ", show(*got), " ends after ", sum, " of ", horizon, " m"), trace);
        const auto best = queue.empty() ? std::vector<Net::Way>{} : n.best(here.id, queue.front().id, t, false);
        if (!best.empty()) {
          if (std::none_of(best.begin(), best.end(), [&](auto & w) { const auto l = std::min(w.ids.size(), got->size()); return std::equal(w.ids.begin(), w.ids.begin() + l, got->begin()); }))
            mc::violation("planner-way", cat("the way to the next waypoint is ", show(best[0].ids), ", but the route is ", show(*got)), trace);
        } else if (auto x = straightOn(n, here.id, *got, 1, horizon, t, true, false); !x.empty()) mc::violation("planner-straight", cat("without a waypoint that can be reached the route is ", show(*got), ": ", x), trace);
        const auto goals = p.getGoalPoses();
        bool same = goals.size() == queue.size();
        for (std::size_t i = 0; same && i < goals.size(); ++i) same = LP(goals[i]).lanelet_id == queue[i].id && LP(goals[i]).s == queue[i].s;
        const auto world = p.getGoalPosesInWorldFrame();
        same = same && world.size() == queue.size();
        for (std::size_t i = 0; same && i < world.size(); ++i) { const auto q = n.point(queue[i].id, queue[i].s, 0); same = close(world[i].position.x, q[0], 0.05) && close(world[i].position.y, q[1], 0.05); }
        if (!same) mc::violation("planner-goals-left", cat(queue.size(), " waypoints are left, but ", goals.size(), ", or others, were said to be"), trace);
      }
    });
  }
}

// backwards on straight roads: every metre, five metres
void backwards(const Net & n)
{
  for (auto & c : n.cells) if (n.passable(c.id, DEFAULT)) for (double s : {0.3, 2.2, 4.6, n.len(c.id) - 0.4}) for (double o : {0.0, 0.7, -1.1}) {
    double room = s;
    for (Id i = c.id; room < 40;) { const auto b = n.before(i, DEFAULT); if (b.size() != 1 || std::abs(wrap(n.yaw(b[0]) - n.yaw(c.id))) > 1e-9) { if (!b.empty()) room = -1; break; } i = b[0]; room += n.len(i); }
    if (room < 5.01) continue;
    const std::string here = cat(n.show(), "; backwards from ", show(pose(c.id, s, o)));
    mc::current(here);
    const auto v = ts::route::moveBackPoints(ts::CanonicalizedLaneletPose(pose(c.id, s, o)));
    mc::executed();
    bool ok = v.size() >= 5;
    for (std::size_t k = 0; ok && k < v.size(); ++k) { const auto p = n.point(c.id, s - double(k), o); ok = (k < 5 || k + 1 == v.size()) && close(v[k].x, p[0], 0.05) && close(v[k].y, p[1], 0.05); }
    if (!ok) {
      std::string r;
      for (auto & p : v) r += cat(" (", p.x, ", ", p.y, ")");
      mc::violation("backwards", cat("the way back goes over", r, ", instead of from ", show(n.point(c.id, s, o)), " to ", show(n.point(c.id, s - 5, o))), here);
    }
  }
}

void laneChanges(const Net & n)
{
  using lw::lane_change::Parameter;
  namespace lc = ts::lane_change;
  for (auto & c : n.cells) {
    for (auto t : TYPES) for (bool left : {false, true}) for (std::uint8_t shift : {0, 1, 2, 3}) {
      std::optional<Id> want = c.id;
      for (int k = 0; want && k < shift; ++k) want = n.side(*want, left, t);
      const auto got = ts::route::laneChangeableLaneletId(c.id, left ? lc::Direction::LEFT : lc::Direction::RIGHT, shift, t);
      mc::executed();
      if (got != want) mc::violation("lane-beside", cat(int(shift), " lanes to the ", left ? "left" : "right", " of ", c.id, " is ", want ? cat(*want) : "none", ", but ", got ? cat(*got) : "none", " was said"), cat(n.show(), "; type ", int(t)));
      if (ts::route::laneChangeableLaneletId(c.id, lc::Direction::STRAIGHT, t) != std::optional<Id>(c.id)) mc::violation("lane-straight", "straight on is not the same lanelet", n.show());
      if (shift == 1 && ts::route::laneChangeableLaneletId(c.id, left ? lc::Direction::LEFT : lc::Direction::RIGHT, t) != want) mc::violation("lane-next", "the lane one change away differs from the next lane", n.show());
    }
    for (auto & o : n.cells) for (auto t : TYPES) for (bool change : {false, true}) {
      ts::RoutingConfiguration config(change);
      config.routing_graph_type = t;
      const auto ways = n.best(c.id, o.id, t, change);
      const auto got = ts::route::countLaneChanges(ts::CanonicalizedLaneletPose(pose(c.id, 1)), ts::CanonicalizedLaneletPose(pose(o.id, 1)), config);
      mc::executed();
      if (ways.empty() ? got.has_value() && c.id != o.id : !got || std::none_of(ways.begin(), ways.end(), [&](auto & w) { return got->first == w.lefts && got->second == w.rights; }))
        mc::violation("lane-changes", cat("between the lanelets there are ", ways.empty() ? "no ways" : cat(ways[0].lefts, " changes to the left and ", ways[0].rights, " to the right"), ", but ", got ? cat(got->first, " and ", got->second) : "none", " were said"), cat(n.show(), "; from ", c.id, " to ", o.id, change ? " with" : " without", " changes for ", int(t)));
    }
    // the curves
    for (auto & o : n.cells) {
      bool beside = false;
      for (bool left : {false, true}) if (auto x = n.side(c.id, left, DEFAULT)) beside |= *x == o.id;
      for (double s : {0.55, 3.05}) for (double off : {0.0, 0.6}) for (auto shape : {lc::TrajectoryShape::CUBIC, lc::TrajectoryShape::LINEAR})
      for (auto [kind, value] : {std::pair{lc::Constraint::Type::NONE, 0.0}, {lc::Constraint::Type::LONGITUDINAL_DISTANCE, 2.5}, {lc::Constraint::Type::LONGITUDINAL_DISTANCE, 7.0}, {lc::Constraint::Type::LATERAL_VELOCITY, 1.0}, {lc::Constraint::Type::TIME, 4.0}}) {
        const double target_offset = kind == lc::Constraint::Type::NONE ? 0 : off;
        const Parameter p(lc::AbsoluteTarget(o.id, target_offset), shape, lc::Constraint(kind, value));
        const std::string here = cat(n.show(), "; from ", show(pose(c.id, s, off)), " to ", o.id, " offset ", target_offset, shape == lc::TrajectoryShape::CUBIC ? " cubic" : " linear", ", constraint ", int(kind), " ", value);
        mc::current(here);
        const auto got = attempt([&] { return ts::route::laneChangeTrajectory(ts::CanonicalizedLaneletPose(pose(c.id, s, off)), p); });
        mc::executed();
        if (!beside) { if (got && *got) mc::violation("change-impossible", "a curve was given to a lanelet to which one cannot change", here); continue; }
        if (!n.square(c.id) || !n.square(o.id)) continue;
        const double l = n.len(o.id);
        // where it ends: on the other lane
        std::set<double> ends;
        if (kind == lc::Constraint::Type::NONE) {
          // at a whole metre at least one metre ahead; of those the one whose curve is closest to 20 m long
          const auto a = n.point(c.id, s, off);
          double best = 1e9;
          std::map<double, double> off_by;
          for (double e = 0; e < l + 1e-9; e += 1) if (e - s > 1 + 1e-9) {
            const auto b = n.point(o.id, e, 0);
            if (std::abs(e - l) < 1e-9) { ends.insert(e); continue; }    // whether the very end counts is open
            off_by[e] = shape == lc::TrajectoryShape::LINEAR ? std::abs(20 - std::hypot(b[0] - a[0], b[1] - a[1])) : 0;
            best = std::min(best, off_by[e]);
          }
          for (auto & [e, x] : off_by) if (x < best + 1e-2) ends.insert(e);
          if (got && !*got && (ends.empty() || *ends.rbegin() - s < 3)) continue;     // the curve may be too sharp
        } else {
          const double q = s + (kind == lc::Constraint::Type::LONGITUDINAL_DISTANCE ? value : 20.0);
          if (std::abs(q - l) < 1e-6) continue;
          if (q < l) ends.insert(q);
          else if (!got) continue;                     // the road may end
          else if (!*got) continue;
          else continue;
        }
        if (!got) { mc::violation("change-error", "a lane change that is possible ended with an error", here); continue; }
        if (ends.empty()) { if (*got) mc::violation("change-without-room", "a curve was given although there is no room for it", here); continue; }
        if (!*got) { mc::violation("change-none", "there is room for the lane change, but no curve was given", here); continue; }
        const auto & [curve, e] = **got;
        if (std::none_of(ends.begin(), ends.end(), [&](double x) { return close(x, e, 1e-3); })) { mc::violation("change-end", cat("the lane change should end at s ", *ends.begin(), " of the other lane, but it ends at ", e), here); continue; }
        const auto a = curve.getPoint(0, false), b = curve.getPoint(1, false);
        const auto wa = n.point(c.id, s, off), wb = n.point(o.id, e, target_offset);
        if (!close(a.x, wa[0], 0.02) || !close(a.y, wa[1], 0.02)) mc::violation("change-begins", cat("the curve begins at (", a.x, ", ", a.y, "), not where the entity is, ", show(wa)), here);
        if (!close(b.x, wb[0], 0.02) || !close(b.y, wb[1], 0.02)) mc::violation("change-lands", cat("the curve ends at (", b.x, ", ", b.y, "), not at its end on the lane, ", show(wb)), here);
        const double ya = std::atan2(curve.getTangentVector(0, false).y, curve.getTangentVector(0, false).x), yb = std::atan2(curve.getTangentVector(1, false).y, curve.getTangentVector(1, false).x);
        const double y = shape == lc::TrajectoryShape::CUBIC ? n.yaw(c.id) : std::atan2(wb[1] - wa[1], wb[0] - wa[0]);
        if (!close(wrap(ya - y), 0, 0.01) || !close(wrap(yb - y), 0, 0.01)) mc::violation("change-direction", cat("the curve leaves in direction ", ya, " and arrives in ", yb, " instead of ", y), here);
        // and the points to follow
        const double length = curve.getLength();
        for (double from : {0.0, 1.3, length - 0.2, length + 3}) {
          const auto v = ts::route::laneChangePoints(curve, from);
          mc::executed();
          // a metre apart, from there or a metre on, up to the end or at most a metre past it
          const double begin = std::min(from, length);
          bool ok = false;
          for (int first : {0, 1}) {
            bool fits = !v.empty();
            for (std::size_t k = 0; fits && k < v.size(); ++k) {
              const auto q = curve.getPoint(begin + double(k + first), true);
              fits = close(v[k].x, q.x, 0.02) && close(v[k].y, q.y, 0.02);
            }
            const double last = begin + double(v.size()) - 1 + first;
            ok |= fits && last > length - 1e-6 - (first ? 0 : 1) && last < length + 1 + 1e-6;
          }
          if (!ok) mc::violation("change-points", cat("the points of the curve from ", from, " m on do not go along it to its end"), here);
        }
      }
      // the goal ahead on the present lane
      for (auto [kind, value] : {std::pair{lc::Constraint::Type::NONE, 20.0}, {lc::Constraint::Type::LONGITUDINAL_DISTANCE, 2.5}, {lc::Constraint::Type::LONGITUDINAL_DISTANCE, 7.0}, {lc::Constraint::Type::LATERAL_VELOCITY, 20.0}}) {
        const auto got = attempt([&] { return ts::route::laneChangeAlongLaneletPose(ts::CanonicalizedLaneletPose(pose(c.id, 1, 0.5)), Parameter(lc::AbsoluteTarget(o.id), lc::TrajectoryShape::CUBIC, lc::Constraint(kind, value))); });
        const auto want = attempt([&] { return lw::pose::alongLaneletPose(pose(c.id, 1, 0.5), value); });
        mc::executed();
        if (got.has_value() != want.has_value() || (got && (got->lanelet_id != want->lanelet_id || !close(got->s, want->s) || got->offset != want->offset))) mc::violation("change-along", "the goal ahead is at another place", n.show());
      }
    }
  }
}

// the areas of two lanelets of one column overlap
bool conflict(const Net & n, Id i, Id j)
{
  const auto & a = n.cell(i), & b = n.cell(j);
  if (i == j || a.a != b.a || a.b != b.b) return false;
  const double begin = a.ra - b.ra, end = a.rb - b.rb;
  return begin * end <= 0 || std::min(std::abs(begin), std::abs(end)) < 1;
}

// who has to give way to whom: every relation of three lanelets
void rightOfWay(Net n)
{
  std::vector<Id> ids;
  for (auto & c : n.cells) if (n.passable(c.id, DEFAULT)) ids.push_back(c.id);
  if (ids.size() < 3) return;
  const int k = std::min<int>(3, int(ids.size()));
  for (int mask = 0; mask < (1 << (k * k)); ++mask) {
    if (!mc::mine()) continue;
    n.build();
    std::set<std::pair<Id, Id>> yields;      // the first gives way to the second
    for (int a = 0; a < k; ++a) {
      auto e = std::make_shared<lanelet::RightOfWay>();
      e->id_ = 5000 + a;
      for (int b = 0; b < k; ++b) if (mask >> (a * k + b) & 1) { yields.insert({ids[a], ids[b]}); e->right_of_way_.push_back(n.map->laneletLayer.get(ids[b])); }
      n.map->laneletLayer.get(ids[a]).d->regulatory.push_back(e);
    }
    enter(n);
    std::string here = cat(n.show(), "; gives way:");
    for (auto & [a, b] : yields) here += cat(" ", a, ">", b);
    mc::current(here);
    std::vector<ts::CanonicalizedLaneletPose> all;
    for (auto i : ids) all.emplace_back(pose(i, 1));
    for (int f = 1; f < (1 << k); ++f) for (int o = 0; o < (1 << k); ++o) {
      Ids following;
      std::vector<ts::CanonicalizedLaneletPose> others;
      for (int i = 0; i < k; ++i) { if (f >> i & 1) following.push_back(ids[i]); if (o >> i & 1) others.push_back(all[i]); }
      bool want = false;
      std::optional<Id> first;
      for (auto i : following) for (auto & x : others) {
        const Id j = LP(x).lanelet_id;
        if (i == j || !yields.count({i, j})) continue;
        if (!yields.count({j, i})) want = true;
        if (!first) first = i;
      }
      const bool got = ts::route::isNeedToRightOfWay(following, others);
      mc::executed();
      const std::string there = cat(here, "; along ", show(following), ", others on mask ", o);
      if (got != want) mc::violation("right-of-way", cat("the entity has ", want ? "" : "not ", "to give way, but the opposite was said"), there);
      // how far until then
      for (auto & c : ids) {
        const auto ref = ts::CanonicalizedLaneletPose(pose(c, 2));
        const auto d = ts::distance::distanceToYieldStop(ref, following, others);
        mc::executed();
        std::optional<double> w;
        std::vector<double> may;
        if (first) {
          // the first of the lanelets at which there is one to wait for and which lies along the way
          for (auto i : following) {
            bool waits = false;
            for (auto & x : others) waits |= LP(x).lanelet_id != i && yields.count({i, LP(x).lanelet_id});
            if (!waits) continue;
            if (i == c) { may.push_back(-2); break; }
            const auto ahead = n.best(c, i, Type::VEHICLE, false), back = n.best(i, c, Type::VEHICLE, false);
            for (auto & x : ahead) may.push_back(x.length - 2);
            if (ahead.empty()) for (auto & x : back) may.push_back(-(x.length + 2));
            if (!may.empty()) break;
          }
        }
        if (d.has_value() == may.empty() || (d && std::none_of(may.begin(), may.end(), [&](double x) { return close(x, *d); })))
          mc::violation("yield-distance", cat("to the lanelet before which to give way there are ", may.empty() ? "none" : cat(may[0]), ", but ", show(d), " was said"), cat(there, "; from ", c, " s 2"));
      }
      // crossing others
      bool crossing = false;
      for (auto i : following) for (auto & x : others) crossing |= conflict(n, i, LP(x).lanelet_id);
      const bool said = ts::route::isAnyConflictingEntity(following, others);
      mc::executed();
      if (said != crossing) mc::violation("conflicting", cat("an entity is ", crossing ? "" : "not ", "on a lanelet that crosses the way, but the opposite was said"), there);
    }
  }
}
}  // namespace

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "routes, route planners' histories, lane changes and rights of way on small road networks against their description";
    const bool all = mc::thorough();
    const int kinds[] = {0, 1, 2, 3, 7};
    for (int k = 0; k < 125; ++k) for (int diagonals = 0; diagonals < 4; ++diagonals) for (bool reverse : {false, true}) {
      const std::vector<int> columns{kinds[k % 5], kinds[k / 5 % 5], kinds[k / 25]};
      if (!columns[0] && !columns[1] && !columns[2] && !diagonals) continue;
      if (!mc::mine()) continue;
      auto n = grid(reverse ? std::vector<double>{4, 12.5, 8} : std::vector<double>{10, 6, 14}, columns, diagonals, reverse);
      n.turned(reverse ? 2.5 : 0.7, {100, -40, 3});
      int i = 0;
      for (auto & c : n.cells) { c.speed = 20 + 10 * (i++ * 7 % 5); if (c.a == 2 && c.ra == 0 && reverse) c.sub = "road_shoulder"; }
      enter(n);
      mc::state(n.show());
      chains(n);
      backwards(n);
      if (diagonals == 0 || all) laneChanges(n);
    }
    // a fork, a fork that joins again, a crossing, a ring; for vehicles and for pedestrians
    std::vector<Net> nets;
    nets.push_back(grid({10, 6, 14}, {3, 0, 3}, 3, false));
    nets.push_back(grid({10, 6, 14}, {1, 1, 3}, 1, false));
    nets.push_back(grid({10, 6, 14}, {1, 3, 1}, 3, true));
    nets.push_back(ring(1, 4, false));
    nets.push_back(ring(0, 5, true));
    for (std::size_t i = 0; i < nets.size(); ++i) for (bool foot : {false, true}) {
      auto n = nets[i];
      if (foot) for (auto & c : n.cells) c.sub = "walkway";
      enter(n);
      planners(n, foot ? Type::PEDESTRIAN : Type::VEHICLE, foot ? Type::PEDESTRIAN : Type::VEHICLE_WITH_ROAD_SHOULDER, all ? 3 : 2);
    }
    for (int d : {1, 3}) for (bool reverse : {false, true}) rightOfWay(grid({10, 6, 14}, {1, 1, 1}, d, reverse));
  });
}
