// GridTraversal: every segment between points of a quarter-cell lattice, against exact integer geometry.
#include <simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp>

#include "mc.hpp"
namespace
{
constexpr int U = 4;  // lattice points per cell edge
struct F  // fraction with positive denominator
{
  long n, d;
};
bool lt(F a, F b) { return a.n * b.d < b.n * a.d; }
bool le(F a, F b) { return a.n * b.d <= b.n * a.d; }
int fl(int a) { return a >= 0 ? a / U : -((-a + U - 1) / U); }
// does the segment meet the (open or closed) cell?
bool meets(int x0, int y0, int x1, int y1, int cx, int cy, bool open)
{
  F lo{0, 1}, hi{1, 1};
  bool lo_open = false, hi_open = false;
  auto axis = [&](int p, int q, int a, int b) {
    int v = q - p;
    if (v == 0) return open ? (a < p and p < b) : (a <= p and p <= b);
    F f{a - p, v}, g{b - p, v};
    if (v < 0) std::swap(f, g), f = {-f.n, -f.d}, g = {-g.n, -g.d};
    if (lt(lo, f) or (open and le(lo, f))) lo = f, lo_open = open;
    if (lt(g, hi) or (open and le(g, hi))) hi = g, hi_open = open;
    return true;
  };
  if (not axis(x0, x1, cx * U, cx * U + U) or not axis(y0, y1, cy * U, cy * U + U)) return false;
  return (lo_open or hi_open) ? lt(lo, hi) : le(lo, hi);
}
bool contains(int x, int y, int cx, int cy) { return cx * U <= x and x <= cx * U + U and cy * U <= y and y <= cy * U + U; }
void run(int x0, int y0, int x1, int y1, double ox, double oy)
{
  std::string t = mc::cat("segment (", x0 / double(U) + ox, ",", y0 / double(U) + oy, ")->(", x1 / double(U) + ox, ",", y1 / double(U) + oy, ")");
  mc::current(t);
  simple_sensor_simulator::GridTraversal g(x0 / double(U) + ox, y0 / double(U) + oy, x1 / double(U) + ox, y1 / double(U) + oy);
  std::vector<std::pair<int, int>> v;
  for (auto [x, y] : g) {
    v.emplace_back(x - int(ox), y - int(oy));
    if (v.size() > 200) return mc::violation(t, "the traversal does not end");
  }
  auto show = [&] {
    std::string s;
    for (auto & [x, y] : v) s += mc::cat("(", x, ",", y, ")");
    return s;
  };
  auto bad = [&](const std::string & w) { mc::violation(t, w + "; visited " + show()); };
  for (std::size_t i = 0; i < v.size(); ++i) {
    if (not meets(x0, y0, x1, y1, v[i].first, v[i].second, false)) return bad(mc::cat("cell ", v[i].first, ",", v[i].second, " is not on the segment"));
    if (i) {
      int dx = v[i].first - v[i - 1].first, dy = v[i].second - v[i - 1].second;
      if (std::abs(dx) + std::abs(dy) != 1) return bad("consecutive cells do not share an edge");
      if (dx * (x1 - x0) < 0 or dy * (y1 - y0) < 0 or (dx and x1 == x0) or (dy and y1 == y0)) return bad("the traversal moves against the segment");
    } else if (not contains(x0, y0, v[0].first, v[0].second))
      return bad("the first cell does not hold the start");
  }
  for (int cx = std::min(fl(x0), fl(x1)); cx <= std::max(fl(x0), fl(x1)); ++cx)
    for (int cy = std::min(fl(y0), fl(y1)); cy <= std::max(fl(y0), fl(y1)); ++cy)
      if (meets(x0, y0, x1, y1, cx, cy, true) and not contains(x1, y1, cx, cy) and std::find(v.begin(), v.end(), std::make_pair(cx, cy)) == v.end())
        return bad(mc::cat("cell ", cx, ",", cy, " is crossed but not visited"));
  mc::executed(v.size());
  mc::state(t);
  mc::outcome(show());
  mc::sample(t + " -> " + show());
}
}  // namespace
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "every segment between two points of a lattice with four points per cell edge (so starts and ends on edges and "
                    "corners of cells, and axis-parallel and diagonal segments, all occur); an outcome is the visited cell sequence";
    const int n = mc::thorough() ? 20 : 12;
    for (int x0 = -n; x0 <= n; ++x0)
      for (int y0 = -n; y0 <= n; ++y0) {
        if (not mc::mine()) continue;
        for (int x1 = -n; x1 <= n; ++x1)
          for (int y1 = -n; y1 <= n; ++y1) run(x0, y0, x1, y1, 0, 0);
      }
    // far from the origin, long segments
    const int m = 60;
    for (int x0 : {0, 1, 4, 7})
      for (int y0 : {0, 2, 4, 9}) {
        if (not mc::mine()) continue;
        for (int x1 = 0; x1 <= m; ++x1)
          for (int y1 = 0; y1 <= m; ++y1) run(x0, y0, x1, y1, 100, 1000), run(x1, y1, x0, y0, 100, 1000);
      }
  });
}
