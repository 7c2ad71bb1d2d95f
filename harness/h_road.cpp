// Poses and distances along the lanes of small road networks against the networks' own description (C34).
#include "h_net.hpp"

namespace
{
using namespace net;
constexpr Type TYPES[] = {Type::VEHICLE, Type::VEHICLE_WITH_ROAD_SHOULDER, Type::PEDESTRIAN};
constexpr Type DEFAULT = Type::VEHICLE_WITH_ROAD_SHOULDER;

template <typename F> auto attempt(F && f) -> std::optional<decltype(f())> { try { return f(); } catch (const common::Error &) { return std::nullopt; } }

void placesOf(const Net & n)
{
  for (auto & c : n.cells) {
    const double l = ts::lanelet_map::laneletLength(c.id);
    for (double s : {-60.3, -17.6, -6.1, -0.5, 0.0, 0.5, l / 2, l, l + 0.5, l + 7.1, l + 17.6, l + 60.3}) {
      const std::string here = cat(n.show(), "; pose ", show(pose(c.id, s, 0.4, 0.2)));
      mc::current(here);
      bool ends = false;
      const auto all = n.places(c.id, s, DEFAULT, ends);
      const auto among = [&](const LP & p) { return std::any_of(all.begin(), all.end(), [&](auto & a) { return n.same(a.id, a.s, p.lanelet_id, p.s); }); };
      const auto got = lw::pose::canonicalizeLaneletPose(pose(c.id, s, 0.4, 0.2));
      mc::executed();
      if (const auto & p = std::get<0>(got)) {
        if (!among(*p) || p->s < -1e-9 || p->s > n.len(p->lanelet_id) + 1e-9) mc::violation("canonicalize-place", cat("the pose was brought to ", show(*p), ", which is not where it is"), here);
        if (p->offset != 0.4 || p->rpy.z != 0.2) mc::violation("canonicalize-offset", "bringing the pose onto its lanelet changed its offset or orientation", here);
        if (std::get<1>(got)) mc::violation("canonicalize-both", "a pose that is on the road was also said to be past its end", here);
      } else {
        if (!ends) mc::violation("canonicalize-refused", "the pose is on the road whichever way one goes, but it was said to be past the end of it", here);
        const auto e = std::get<1>(got);
        if (!e || !n.has(*e) || !(s < 0 ? n.before(*e, DEFAULT) : n.next(*e, DEFAULT)).empty()) mc::violation("canonicalize-end", cat("the road was said to end at ", e ? cat(*e) : "nowhere"), here);
      }
      // every place, each once for each way
      const auto alternatives = lw::pose::alternativeLaneletPoses(pose(c.id, s, 0.4));
      mc::executed();
      std::size_t on = 0;
      for (auto & a : alternatives) {
        if (!among(a)) mc::violation("alternative-place", cat("one of the places the pose may stand for was said to be ", show(a), ", which is not one of them"), here);
        else if (a.offset != 0.4) mc::violation("alternative-offset", "another offset in one of the places a pose may stand for", here);
        else ++on;
      }
      for (auto & p : all) if (std::none_of(alternatives.begin(), alternatives.end(), [&](auto & a) { return n.same(p.id, p.s, a.lanelet_id, a.s); }))
        mc::violation("alternative-missing", cat("the pose may stand for ", show(pose(p.id, p.s)), ", but that is not among the alternatives"), here);
      // along a route: the ways ahead that go on through it
      for (auto & to : n.cells) for (auto & w : n.best(c.id, to.id, DEFAULT, false)) {
        double from = 0;
        std::optional<LP> want;
        for (auto i : w.ids) { if (s - from <= n.len(i) + 1e-9) { want = pose(i, s - from); break; } from += n.len(i); }
        if (s < 0) continue;
        const std::string there = cat(here, "; route ", show(w.ids));
        mc::current(there);
        const auto on_route = lw::pose::canonicalizeLaneletPose(pose(c.id, s, 0.4, 0.2), w.ids);
        mc::executed();
        const auto & p = std::get<0>(on_route);
        if (want) {
          if (!p || !n.same(want->lanelet_id, want->s, p->lanelet_id, p->s)) mc::violation("route-place", cat("along the route the pose is at ", show(*want), ", but it was brought to ", p ? show(*p) : "nothing"), there);
        } else if (p) {
          const auto more = n.next(w.ids.back(), DEFAULT);   // a route that comes back to itself goes on
          if (std::none_of(more.begin(), more.end(), [&](Id x) { return std::find(w.ids.begin(), w.ids.end(), x) != w.ids.end(); })) mc::violation("route-beyond", cat("the pose is past the end of the route, but it was brought to ", show(*p)), there);
        }
        // moving along the route
        if (s >= 0 && s <= n.len(c.id)) for (double d : {0.0, 0.7, 5.1, 19.2, 200.0}) {
          double q = s + d;
          LP w2 = pose(w.ids.back(), n.len(w.ids.back()));
          for (auto i : w.ids) { if (q <= n.len(i) + 1e-9) { w2 = pose(i, q); break; } q -= n.len(i); }
          const auto more = n.next(w.ids.back(), DEFAULT);
          if (std::any_of(more.begin(), more.end(), [&](Id x) { return std::find(w.ids.begin(), w.ids.end(), x) != w.ids.end(); }) && w2.s == n.len(w2.lanelet_id)) continue;
          mc::current(cat(there, "; moved by ", d));
          const auto m = lw::pose::alongLaneletPose(pose(c.id, s, 0.4, 0.2), w.ids, d);
          mc::executed();
          if (!n.same(m.lanelet_id, m.s, w2.lanelet_id, w2.s) || m.offset != 0.4) mc::violation("route-moved", cat("moving ", d, " m along the route leads to ", show(w2), ", but to ", show(m), " it was"), there);
        }
      }
      // moving along the lanes, straight on where there is a way straight on
      if (s >= 0 && s <= l) for (auto t : TYPES) for (double d : {0.0, 0.7, 5.1, 19.2, 30.3, -0.7, -5.1, -19.2}) {
        mc::current(cat(here, "; moved by ", d));
        std::vector<Net::Place> may;
        bool stuck = false;
        const std::function<void(Id, double)> go = [&](Id i, double x) {
          if (x >= n.len(i) - 1e-9 && x <= n.len(i) + 1e-9) may.push_back({i, x});
          if (std::abs(x) <= 1e-9) { may.push_back({i, x}); if (d < 0 && n.before(i, t).empty()) stuck = true; if (d < 0) for (auto k : n.before(i, t)) may.push_back({k, n.len(k) + x}); }
          if (x < 0 || x >= n.len(i) - 1e-9) {
            auto b = x < 0 ? n.before(i, t) : n.next(i, t);
            Ids straight;
            for (auto k : b) if (n.cell(k).turn == "straight") straight.push_back(k);
            if (!straight.empty()) b = straight;
            if (b.empty() || may.size() > 20) stuck = true;
            else for (auto k : b) go(k, x < 0 ? x + n.len(k) : x - n.len(i));
          } else may.push_back({i, x});
        };
        go(c.id, s + d);
        const auto m = attempt([&] { return lw::pose::alongLaneletPose(pose(c.id, s, 0.4, 0.2), d, t); });
        mc::executed();
        if (m ? std::none_of(may.begin(), may.end(), [&](auto & p) { return n.same(p.id, p.s, m->lanelet_id, m->s); }) || m->offset != 0.4 : !stuck)
          mc::violation("along", cat("moving by ", d, " m for ", ts::to_string(t), " leads to ", m ? show(*m) : "nothing"), here);
      }
    }
  }
}

struct Canon { ts::CanonicalizedLaneletPose p; LP raw; std::vector<Net::Place> all; };
void distances(const Net & n)
{
  std::vector<Canon> from, to;
  for (auto & c : n.cells) {
    const double l = ts::lanelet_map::laneletLength(c.id);
    for (auto [s, o] : {std::pair<double, double>{0.5, 0.3}, {l / 2, 0}, {l - 1, -0.6}, {l, 0.2}, {l + 2.25, 0.1}, {-1.75, 0.1}}) {
      bool ends;
      auto all = n.places(c.id, s, DEFAULT, ends);
      if (ends || all.empty()) continue;
      Canon x{ts::CanonicalizedLaneletPose(pose(c.id, s, o)), pose(c.id, s, o), all};
      if (s >= 0 && s <= l) from.push_back(x);
      to.push_back(x);
    }
  }
  for (bool change : {false, true}) for (auto t : TYPES) {
    if (t != DEFAULT && mc::st().tier == "quick" && n.cells.size() > 3) continue;
    ts::RoutingConfiguration config(change);
    config.routing_graph_type = t;
    for (auto & a : from) for (auto & b : to) {
      const std::string here = cat(n.show(), "; from ", show(a.raw), " to ", show(b.raw), change ? " with" : " without", " lane changes for ", ts::to_string(t));
      mc::current(here);
      const Id i = LP(a.p).lanelet_id;
      const double s = LP(a.p).s;
      // the place the other pose stands for that fewest lanelets away
      std::vector<Net::Place> goals;
      if (b.all.size() > 1) {
        std::size_t fewest = SIZE_MAX;
        for (auto & g : b.all) for (auto & w : n.best(i, g.id, t, change)) fewest = std::min(fewest, w.ids.size());
        for (auto & g : b.all) {
          const auto w = n.best(i, g.id, t, change);
          if (fewest == SIZE_MAX || std::any_of(w.begin(), w.end(), [&](auto & x) { return x.ids.size() == fewest; })) goals.push_back(g);
        }
      } else goals.push_back({LP(b.p).lanelet_id, LP(b.p).s});
      std::vector<std::optional<double>> may;
      for (auto & g : goals) {
        std::set<double> f, r;
        bool fn = true, rn = true;
        if (i == g.id) { (g.s >= s ? f : r).insert(std::abs(g.s - s)); (g.s >= s ? fn : rn) = false; if (g.s == s) { r.insert(0); rn = false; } }
        else {
          for (auto & w : n.best(i, g.id, t, change)) if (const double d = w.length - s + g.s; d >= -1e-9) { f.insert(d); fn = false; } else {}
          for (auto & w : n.best(g.id, i, t, change)) if (const double d = w.length - g.s + s; d >= -1e-9) { r.insert(d); rn = false; } else {}
        }
        for (double x : f) may.push_back(rn ? x : std::abs(x) <= *r.rbegin() + 1e-6 ? x : -*r.begin());
        for (double x : r) if (fn || x < *f.rbegin() + 1e-6) may.push_back(-x);
        if (fn && rn) may.push_back(std::nullopt);
      }
      const auto fits = [&](const std::optional<double> & x) { return std::any_of(may.begin(), may.end(), [&](auto & m) { return m ? x && close(*m, *x) : !x; }); };
      std::string want;
      for (auto & m : may) want += (want.empty() ? "" : " or ") + show(m);
      const auto d = ts::distance::longitudinalDistance(a.p, b.p, false, false, config);
      mc::executed();
      mc::outcome(d ? cat(std::round(*d * 4)) : "none");
      if (!fits(d)) mc::violation(b.all.size() > 1 ? "longitudinal-alternatives" : change ? "longitudinal-change" : "longitudinal", cat("along the lanes the distance is ", want, ", but ", show(d), " it was said to be"), here);
      // sideways
      std::vector<std::optional<double>> side;
      const auto lateral = ts::distance::lateralDistance(a.p, b.p, config);
      mc::executed();
      for (auto & w : n.best(i, LP(b.p).lanelet_id, t, change)) side.push_back(LP(b.p).offset - LP(a.p).offset + W * (w.lefts - w.rights));
      const bool ok = side.empty() ? !lateral || i == LP(b.p).lanelet_id : lateral && std::any_of(side.begin(), side.end(), [&](auto & x) { return close(*x, *lateral); });
      if (!ok) mc::violation("lateral", cat("to the side the distance is ", side.empty() ? "none" : show(side[0]), ", but ", show(lateral), " it was said to be"), here);
      for (double m : {0.25, 0.4}) {
        const bool in = std::abs(LP(a.p).offset) <= m && std::abs(LP(b.p).offset) <= m;
        const auto x = ts::distance::lateralDistance(a.p, b.p, m, config);
        if (x.has_value() != (in && lateral) || (x && !close(*x, *lateral))) mc::violation("lateral-matching", cat("with offsets of up to ", m, " the distance to the side was ", show(x)), here);
      }
      // between boxes
      traffic_simulator_msgs::msg::BoundingBox p, q;
      p.center.x = 1; p.center.y = 0.1; p.dimensions.x = 4; p.dimensions.y = 1.6;
      q.center.x = -0.5; q.center.y = -0.2; q.dimensions.x = 2; q.dimensions.y = 1;
      const auto between = [](std::optional<double> x, double ahead, double behind) -> std::optional<double> { if (!x) return x; return *x > 0 ? *x - ahead : *x < 0 ? *x + behind : *x; };
      const auto box = ts::distance::boundingBoxLaneLongitudinalDistance(a.p, p, b.p, q, false, false, config);
      const auto box_want = between(d, 3 + 1.5, 1 + 0.5);
      if (box.has_value() != box_want.has_value() || (box && !close(*box, *box_want))) mc::violation("box-longitudinal", cat("between the boxes there are ", show(box_want), " along the lanes, but ", show(box), " it was said to be"), here);
      const auto given = ts::distance::boundingBoxLaneLongitudinalDistance(d, p, q);
      if (given.has_value() != box_want.has_value() || (given && !close(*given, *box_want))) mc::violation("box-longitudinal", cat("for a distance of ", show(d), " the boxes are ", show(box_want), " apart, but ", show(given), " it was said to be"), here);
      const auto wide = ts::distance::boundingBoxLaneLateralDistance(a.p, p, b.p, q, config);
      const auto wide_want = between(lateral, 0.9 + 0.7, 0.7 + 0.3);
      if (wide.has_value() != wide_want.has_value() || (wide && !close(*wide, *wide_want))) mc::violation("box-lateral", cat("between the boxes there are ", show(wide_want), " to the side, but ", show(wide), " it was said to be"), here);
      const auto rel = ts::pose::relativeLaneletPose(a.p, b.p, config);
      if ((d ? !close(rel.s, *d) : !std::isnan(rel.s)) || (lateral ? !close(rel.offset, *lateral) : !std::isnan(rel.offset))) mc::violation("relative", cat("the relative pose has s ", rel.s, " and offset ", rel.offset, " for distances of ", show(d), " and ", show(lateral)), here);
      const auto count = ts::route::countLaneChanges(a.p, b.p, config);
      mc::executed();
      const auto w = n.best(i, LP(b.p).lanelet_id, t, change);
      if (w.empty() ? count.has_value() && i != LP(b.p).lanelet_id : !count || std::none_of(w.begin(), w.end(), [&](auto & x) { return count->first == x.lefts && count->second == x.rights; }))
        mc::violation("lane-changes", cat("on the way there are ", w.empty() ? -1 : w[0].lefts, " changes to the left and ", w.empty() ? -1 : w[0].rights, " to the right, but ", count ? cat(count->first, " and ", count->second) : "none", " it was said to be"), here);
    }
  }
}

// the place of a pose on the map, and the pose of a place on the map
void conversions(const Net & n)
{
  for (auto & c : n.cells) {
    const double l = ts::lanelet_map::laneletLength(c.id), y = n.yaw(c.id);
    // s is measured along the slope, the length of a lanelet on the flat
    const double e0 = 1e-3 + l * (1 / std::cos(n.pitch(c.id)) - 1) * 1.5;
    const auto close = [e0](double a, double b, double e = 0) { return std::abs(a - b) <= e + e0; };
    for (double s : {0.0, 0.6, l / 2, l - 0.3, l}) for (double o : {0.0, 0.8, -1.2}) for (double yaw : {0.0, 0.4, -2.5}) {
      const std::string here = cat(n.show(), "; pose ", show(pose(c.id, s, o, yaw)));
      mc::current(here);
      const auto at = n.point(c.id, s, o);
      const auto want = placed(at, wrap(y + yaw));
      for (bool fill : {false, true}) {
        const auto got = lw::pose::toMapPose(pose(c.id, s, o, yaw), fill);
        mc::executed();
        if (got.header.frame_id != "map" || !close(got.pose.position.x, at[0]) || !close(got.pose.position.y, at[1]) || !close(got.pose.position.z, at[2]))
          mc::violation("map-position", cat("the pose is at ", show(at), ", but (", got.pose.position.x, ", ", got.pose.position.y, ", ", got.pose.position.z, ") in '", got.header.frame_id, "' it was said to be"), here);
        const auto e = math::geometry::convertQuaternionToEulerAngle(got.pose.orientation);
        if (fill && yaw == 0 && !net::close(e.y, n.pitch(c.id))) mc::violation("map-pitch", cat("the road there has a pitch of ", n.pitch(c.id), ", but ", e.y, " it was"), here);
        if ((!fill || yaw == 0 || n.pitch(c.id) == 0) && !close(wrap(e.z - y - yaw), 0)) mc::violation("map-yaw", cat("the yaw there is ", wrap(y + yaw), ", but ", e.z, " it was"), here);
        if (!fill && !net::close(e.y, 0)) mc::violation("map-pitch", cat("without the slope the pitch was ", e.y), here);
      }
      const ts::CanonicalizedLaneletPose p(pose(c.id, s, o, yaw));
      const auto m = static_cast<geometry_msgs::msg::Pose>(p);
      mc::executed();
      if (!close(m.position.x, at[0]) || !close(m.position.y, at[1])) mc::violation("canonical-position", "the place of the canonical pose is not where its lanelet pose is", here);
      if (!close(p.getAltitude(), at[2], std::abs(n.pitch(c.id)) > 0 ? 0.5 : 1e-3)) mc::violation("canonical-altitude", cat("the altitude of the canonical pose is ", p.getAltitude(), ", but the road is at ", at[2]), here);
      if (p.getLaneletId() != LP(p).lanelet_id || !n.same(c.id, s, LP(p).lanelet_id, LP(p).s) || LP(p).offset != o) mc::violation("canonical-pose", cat("the canonical pose is ", show(LP(p))), here);
      // a bar across the entity cuts the lane where the entity is; further than the bar, higher or lower, or across the lane it is not on it
      for (auto & other : n.cells) for (double z : {0.0, 0.9, -1.1}) for (double th : {1.0, 3.5}) {
        const double k = n.yaw(other.id), dy = wrap(y + yaw - k);
        const auto b = n.begin(other.id);
        const double ex = at[0] - b[0], ey = at[1] - b[1];
        const double ps = ex * std::cos(k) + ey * std::sin(k), po = -ex * std::sin(k) + ey * std::cos(k);
        if (std::abs(std::cos(dy)) < 0.02) continue;
        const double cut = ps + po * std::tan(dy), along = std::abs(po / std::cos(dy));
        auto from = want;
        from.position.z += z;
        if (std::abs(along - th) < 0.02 || std::abs(cut) < 1e-2 || std::abs(cut - n.len(other.id)) < 1e-2) continue;
        const bool hit = along < th && cut > 0 && cut < n.len(other.id);
        const double road = hit ? n.point(other.id, cut, 0)[2] : 0;
        if (hit && std::abs(std::abs(from.position.z - road) - 1) < 0.02) continue;
        const double slope = std::abs(n.pitch(other.id));
        if (std::abs(std::abs(dy) - M_PI / 4) < 0.03 + slope || std::abs(std::abs(dy) - 3 * M_PI / 4) < 0.03 + slope) continue;
        const bool on = hit && std::abs(from.position.z - road) <= 1 && (std::abs(dy) < M_PI / 4 || std::abs(dy) > 3 * M_PI / 4);
        const auto got = lw::pose::toLaneletPose(from, other.id, th);
        mc::executed();
        const std::string there = cat(here, " raised by ", z, ", for lanelet ", other.id, " within ", th);
        if (got.has_value() != on) mc::violation("lanelet-matched", cat("the pose is", on ? "" : " not", " on that lanelet, but it was", got ? "" : " not", " said to be"), there);
        if (got && on && (got->lanelet_id != other.id || !close(got->s, cut, slope * 0.1) || !close(std::abs(got->offset), along, slope * 0.1) || (along > 1e-3 && (got->offset > 0) != (po > 0)) || (slope == 0 && !close(wrap(got->rpy.z - dy), 0))))
          mc::violation("lanelet-pose", cat("on that lanelet it is at s ", cut, ", offset ", po > 0 ? along : -along, ", yaw ", dy, ", but ", show(*got), ", yaw ", got->rpy.z, " it was said to be"), there);
      }
      // of all lanelets: one it is on
      if (yaw == 0) for (bool boxed : {false, true}) {
        traffic_simulator_msgs::msg::BoundingBox box;
        box.dimensions.x = 3; box.dimensions.y = 1.4;
        if (s < 0.5 || s > l - 0.2) continue;
        auto from = want;
        if (n.pitch(c.id) != 0) from = lw::pose::toMapPose(pose(c.id, s, o), true).pose;
        const auto got = boxed ? ts::pose::toCanonicalizedLaneletPose(from, box, false, 3.0) : ts::pose::toCanonicalizedLaneletPose(from, false);
        mc::executed();
        if (!boxed && std::abs(o) > 0.95) continue;
        if (!n.passable(c.id, DEFAULT) || !n.square(c.id)) continue;
        if (!got) { mc::violation("matching-none", "a pose on a lanelet, along it, was said to be on no lanelet", cat(here, boxed ? " with a box" : "")); continue; }
        const LP q = LP(*got);
        const auto back = n.point(q.lanelet_id, q.s, q.offset);
        if (n.square(q.lanelet_id) && (!close(back[0], at[0]) || !close(back[1], at[1]))) mc::violation("matching-place", cat("the lanelet pose found for it, ", show(q), ", is elsewhere"), cat(here, boxed ? " with a box" : ""));
        double least = std::abs(o);
        for (auto & other : n.cells) if (n.passable(other.id, DEFAULT)) if (const auto x = lw::pose::toLaneletPose(from, other.id, 3.0)) least = std::min(least, std::abs(x->offset));
        if (boxed && std::abs(q.offset) > least + 1e-3) mc::violation("matching-nearest", cat("of the lanelets it may be on, ", show(q), " was chosen, but one is only ", least, " away"), here);
        // a route the entity is on comes first
        const auto routed = ts::pose::toCanonicalizedLaneletPose(from, box, Ids{c.id}, false, 3.0);
        mc::executed();
        if (!routed || !n.same(LP(*routed).lanelet_id, LP(*routed).s, c.id, s)) mc::violation("matching-route", cat("an entity on its route was put at ", routed ? show(LP(*routed)) : "nothing"), here);
      }
    }
  }
}

// small questions about the lanelets
void facts(const Net & n)
{
  for (auto & c : n.cells) {
    const double l = ts::lanelet_map::laneletLength(c.id);
    const std::string here = cat(n.show(), "; lanelet ", c.id);
    mc::current(here);
    if (!close(n.len(c.id), l)) mc::violation("length", cat("the lanelet is ", n.len(c.id), " long, but ", ts::lanelet_map::laneletLength(c.id), " it was said to be"), here);
    const auto centre = lw::lanelet_map::centerPoints(c.id);
    mc::executed();
    const auto b = n.begin(c.id), e = n.end(c.id);
    if (centre.size() < 3 || !close(centre.front().x, b[0]) || !close(centre.front().y, b[1]) || !close(centre.back().x, e[0]) || !close(centre.back().y, e[1])) mc::violation("centre-ends", "the centre line does not go from the middle of one end to the middle of the other", here);
    for (std::size_t i = 0; i < centre.size(); ++i) {
      const double d = std::hypot(centre[i].x - b[0], centre[i].y - b[1]);
      const auto p = n.point(c.id, d, 0);
      if (!close(centre[i].x, p[0]) || !close(centre[i].y, p[1]) || !close(centre[i].z, p[2]) || (i && std::hypot(centre[i].x - centre[i - 1].x, centre[i].y - centre[i - 1].y) > 2.01)) mc::violation("centre-line", "the centre line leaves the middle of the lanelet or has a gap of more than 2 m", here);
    }
    for (auto t : TYPES) {
      mc::executed();
      const auto same = [](Ids x, Ids y) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y; };
      if (!same(lw::lanelet_map::nextLaneletIds(c.id, t), n.next(c.id, t)) || !same(lw::lanelet_map::previousLaneletIds(c.id, t), n.before(c.id, t))) mc::violation("neighbours", cat("for ", ts::to_string(t), " other lanelets were said to come before or after it"), here);
      for (auto turn : {"straight", "left", "right"}) {
        Ids want;
        for (auto x : n.next(c.id, t)) if (n.cell(x).turn == turn) want.push_back(x);
        Ids back;
        for (auto x : n.before(c.id, t)) if (n.cell(x).turn == turn) back.push_back(x);
        if (!same(lw::lanelet_map::nextLaneletIds(c.id, turn, t), want) || !same(lw::lanelet_map::previousLaneletIds(c.id, turn, t), back)) mc::violation("neighbours-turn", cat("for ", ts::to_string(t), " other lanelets were said to come ", turn, " before or after it"), here);
      }
      for (auto [d, left] : {std::pair{ts::lane_change::Direction::LEFT, true}, {ts::lane_change::Direction::RIGHT, false}}) {
        std::optional<Id> want = c.id;
        for (int shift = 0; shift < 3; ++shift) {
          const auto got = lw::lane_change::laneChangeableLaneletId(c.id, d, shift, t);
          if (got != want) mc::violation("change-to", cat("for ", ts::to_string(t), " ", shift, " lanes to the ", left ? "left" : "right", " there is ", want ? cat(*want) : "none", ", but ", got ? cat(*got) : "none", " it was said to be"), here);
          if (shift == 1 && lw::lane_change::laneChangeableLaneletId(c.id, d, t) != want) mc::violation("change-to", cat("one lane to the ", left ? "left" : "right", " another lanelet was found"), here);
          if (want) want = n.side(*want, left, t);
        }
      }
      for (auto & o : n.cells) {
        const bool want = n.side(c.id, true, t) == o.id || n.side(c.id, false, t) == o.id;
        if (lw::lane_change::canChangeLane(c.id, o.id, t) != want) mc::violation("can-change", cat("for ", ts::to_string(t), " changing to ", o.id, " was said to be ", want ? "not possible" : "possible"), here);
      }
    }
    if (lw::lanelet_map::isInIntersection(c.id) != !c.turn.empty()) mc::violation("intersection", "wrongly said to be (not) in an intersection", here);
    for (double s : {-0.1, 0.0, l / 2, l, l + 0.1}) if (lw::lanelet_map::isInLanelet(c.id, s) != (s >= 0 && s <= l + 1e-9)) if (s != l) mc::violation("in-lanelet-s", cat("s ", s, " was wrongly said to be (not) on it"), here);
    // where a point is nearest, how the lanelet runs there
    for (double s : {-1.0, 0.0, l * 0.3, l - 0.2, l, l + 2}) {
      const auto p = n.point(c.id, s, 0.3);
      geometry_msgs::msg::Point q;
      q.x = p[0]; q.y = p[1]; q.z = p[2];
      mc::executed();
      try {
        const auto [yaw, one, two] = ts::lanelet_map::laneletYaw(q, c.id);
        if (!close(wrap(yaw - n.yaw(c.id)), 0)) mc::violation("lanelet-yaw", cat("the lanelet runs at a yaw of ", n.yaw(c.id), ", but at ", yaw, " it was said to near s ", s), here);
      } catch (const std::exception & e) {
        mc::violation("lanelet-yaw-end", cat("asking for the yaw of the lanelet near s ", s, " failed: ", e.what()), here);
      }
      const bool inside = std::any_of(n.cells.begin(), n.cells.end(), [&](auto & x) { return x.id == c.id; }) && s > 0 && s < l;
      if (s != 0 && s != l && n.square(c.id) && ts::pose::isInLanelet(q, c.id) != inside) mc::violation("in-lanelet-point", cat("the point at s ", s, " was wrongly said to be (not) on it"), here);
      const auto z = ts::lanelet_map::laneletAltitude(c.id, placed(p, n.yaw(c.id)), 1.0);
      if (inside && (!z || !close(*z, p[2], 1e-3 + std::abs(n.pitch(c.id)) * 0.5))) mc::violation("altitude", cat("at s ", s, " the lanelet is at a height of ", p[2], ", but ", show(z), " it was said to be"), here);
    }
    // at the end of the road, near a lanelet
    for (double s : {0.0, l / 2, l}) {
      const ts::CanonicalizedLaneletPose p(pose(c.id, s));
      const bool end = n.next(c.id, DEFAULT).empty() && s == l;
      mc::executed();
      if (ts::pose::isAtEndOfLanelets(p) != end) mc::violation("road-end", cat("at s ", s, " one is", end ? "" : " not", " at the end of the road, but the opposite was said"), here);
      for (auto & o : n.cells) for (double tolerance : {0.0, 1.0, 6.0, 15.0}) {
        bool in = o.id == c.id;
        double gap = 1;
        const auto reach = [&](Id a, double x, Id b, double y) {   // from a to b, either way
          std::optional<double> r;
          if (a == b) return std::optional<double>(std::abs(y - x));
          for (auto & w : n.best(a, b, DEFAULT, false)) if (const double d = w.length - x + y; !r || d < *r) r = d;
          for (auto & w : n.best(b, a, DEFAULT, false)) if (const double d = w.length - y + x; !r || d < *r) r = d;
          return r;
        };
        for (auto d : {reach(c.id, s, o.id, 0), reach(c.id, s, o.id, n.len(o.id))}) if (d) { in = in || *d <= tolerance; gap = std::min(gap, std::abs(*d - tolerance)); }
        if (o.id != c.id && gap < 1e-6) continue;
        mc::executed();
        if (ts::pose::isInLanelet(p, o.id, tolerance) != in) mc::violation("in-lanelet-tolerance", cat("from s ", s, " the lanelet ", o.id, " is", in ? "" : " not", " within ", tolerance, " m, but the opposite was said"), here);
      }
    }
    // from one lanelet to the next within a step
    for (auto o : n.next(c.id, DEFAULT)) for (double s : {l - 2, l - 0.5}) for (double v : {0.25, 1.0, 3.0, 30.0}) for (double yaw : {0.0, 0.5}) for (bool global : {false, true}) {
      const ts::CanonicalizedLaneletPose p(pose(c.id, s, 0.5, yaw));
      geometry_msgs::msg::Vector3 velocity;
      const auto e = n.yaw(c.id) + yaw;
      velocity.x = global ? v * std::cos(e) : v;
      velocity.y = global ? v * std::sin(e) : 0;
      const double ds = v * std::cos(yaw), dl = v * std::sin(yaw), over = ds - (l - s);
      if (std::abs(over) < 1e-3 || std::abs(over - n.len(o)) < 1e-3 || n.pitch(c.id) != 0) continue;
      mc::executed();
      std::optional<geometry_msgs::msg::Point> got;
      bool failed = false;
      try { got = ts::pose::updatePositionForLaneletTransition(p, o, velocity, global, 1.0); } catch (const common::Error &) { failed = true; }
      const bool far = over > n.len(o);
      const auto q = n.point(o, std::max(over, 0.0), 0.5 + dl);
      if (failed != far || got.has_value() != (over > 0 && !far) || (got && (!close(got->x, q[0]) || !close(got->y, q[1]))))
        mc::violation("transition", cat("from s ", s, " at ", v, " m/s with a yaw of ", yaw, " the next lanelet ", o, " is entered at ", over, ", but ", got ? cat("(", got->x, ", ", got->y, ")") : failed ? "an error" : "none", " was returned"), here);
    }
    // the bounds
    traffic_simulator_msgs::msg::BoundingBox box;
    box.dimensions.x = 0.6; box.dimensions.y = 1;
    if (c.ra == c.rb) for (double o : {-0.5, 0.0, 0.9}) {
      const auto at = placed(n.point(c.id, l / 2, o), n.yaw(c.id));
      const double left = std::abs(W / 2 - o) - 0.5, right = std::abs(-W / 2 - o) - 0.5;
      const auto straight = std::abs(std::hypot(n.sections[c.a].step[0], n.sections[c.a].step[1]) - W) < 1e-6;
      if (!straight) continue;
      mc::executed();
      if (!close(ts::distance::distanceToLeftLaneBound(at, box, c.id), left) || !close(ts::distance::distanceToRightLaneBound(at, box, c.id), right) || !close(ts::distance::distanceToLaneBound(at, box, c.id), std::min(left, right)))
        mc::violation("bounds", cat("a box ", o, " beside the centre is ", left, " and ", right, " from the bounds, but ", ts::distance::distanceToLeftLaneBound(at, box, c.id), " and ", ts::distance::distanceToRightLaneBound(at, box, c.id), " it was said to be"), here);
      double l0 = 1e9, r0 = 1e9;
      Ids all;
      for (auto & x : n.cells) { all.push_back(x.id); l0 = std::min(l0, ts::distance::distanceToLeftLaneBound(at, box, x.id)); r0 = std::min(r0, ts::distance::distanceToRightLaneBound(at, box, x.id)); }
      if (!close(ts::distance::distanceToLeftLaneBound(at, box, all), l0) || !close(ts::distance::distanceToRightLaneBound(at, box, all), r0) || !close(ts::distance::distanceToLaneBound(at, box, all), std::min(l0, r0))) mc::violation("bounds-all", "of several lanelets not the nearest bound was measured", here);
    }
  }
  // the ends of the road
  const auto ends = ts::lanelet_map::noNextLaneletPoses();
  mc::executed();
  for (auto & c : n.cells) {
    const bool want = n.next(c.id, DEFAULT).empty();
    const auto e = std::find_if(ends.begin(), ends.end(), [&](auto & x) { return x.first == c.id; });
    const auto p = n.end(c.id);
    if ((e != ends.end()) != want || (want && (!close(e->second.position.x, p[0], 1e-3 + std::abs(n.pitch(c.id)) * 3) || !close(e->second.position.y, p[1], 1e-3 + std::abs(n.pitch(c.id)) * 3)))) mc::violation("dead-ends", cat("lanelet ", c.id, " is", want ? "" : " not", " a dead end, but the opposite, or another place, was said"), n.show());
  }
}

void check(Net n, int what)
{
  enter(n);
  mc::state(n.show());
  if (what & 1) placesOf(n);
  if (what & 2) distances(n);
  if (what & 4) conversions(n);
  if (what & 8) facts(n);
}
}  // namespace

int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "poses, routes and distances over all small road networks against the networks' own description";
    const bool all = mc::thorough();
    const int kinds[] = {0, 1, 2, 3, 7};
    for (int k = 0; k < 125; ++k) for (int diagonals = 0; diagonals < 4; ++diagonals) for (bool reverse : {false, true}) for (int variant = 0; variant < (all ? 4 : 2); ++variant) {
      const std::vector<int> columns{kinds[k % 5], kinds[k / 5 % 5], kinds[k / 25]};
      if (!columns[0] && !columns[1] && !columns[2] && !diagonals) continue;
      if (variant == 1 && (k % 5 == 0 || diagonals == 0)) continue;
      if (!mc::mine()) continue;
      auto n = grid(variant % 2 ? std::vector<double>{4, 12.5, 8} : std::vector<double>{10, 6, 14}, columns, diagonals, reverse, variant == 3 ? 0.05 : 0);
      if (variant) n.turned(variant == 1 ? 2.5 : 0.7, {100, -40, 3});
      if (variant == 1) for (auto & c : n.cells) if (c.a == 2 && c.ra == 0) c.sub = "road_shoulder";
      check(n, 3);
      if (diagonals == 0 || diagonals == 3) check(n, 12);
    }
    for (int in = 0; in < 16; ++in) for (int out = 0; out < 16; ++out) for (bool reverse : {false, true}) {
      if (!all && __builtin_popcount(in) > 2) continue;
      if (!all && __builtin_popcount(out) > 2) continue;
      if (!mc::mine()) continue;
      auto n = ring(in, out, reverse);
      check(n, 3);
      if (in == out) check(n, 12);
    }
    // slopes, crosswalks beside the road
    for (double slope : {0.0, 0.1, -0.2}) for (double yaw : {0.0, 1.1, 3.0, -1.6}) for (int k : {7, 3}) {
      if (!mc::mine()) continue;
      auto n = grid({8, 11}, {k, k}, 0, false, slope);
      n.cells[1].sub = "road_shoulder";
      n.turned(yaw, {3, 5, 2});
      check(n, 15);
    }
  });
}
