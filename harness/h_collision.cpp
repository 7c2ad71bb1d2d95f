// EgoCollisionMetric: every contact history up to a depth against "a new collision is a contact after more than 0.5 s without one".
#include <string>
#include <unordered_map>
#include <random_test_runner/metrics/ego_collision_metric.hpp>

#include "mc.hpp"
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "every sequence of contacts (other vehicle in {a,b,c}, time since the previous contact in a dyadic set around the 0.5 s "
                    "limit); an outcome is the sequence of answers";
    const std::vector<double> dts{0, 0.25, 0.5, 0.5 + 1.0 / 1024, 0.125, 2};
    const std::vector<std::string> names{"a", "b", "c"};
    const int depth = mc::thorough() ? 6 : 5;
    struct Step { int name; double dt; };
    std::vector<Step> h;
    std::function<void()> rec = [&] {
      if ((int)h.size() == depth) {
        if (not mc::mine()) return;
        EgoCollisionMetric metric;
        double t = 0;
        std::map<int, double> last;
        std::string text, out;
        for (auto & s : h) {
          t += s.dt;
          text += mc::cat(names[s.name], "@", t, " ");
        }
        mc::current(text);
        t = 0;
        for (std::size_t i = 0; i < h.size(); ++i) {
          t += h[i].dt;
          bool expect = not last.count(h[i].name) or t - last[h[i].name] > 0.5;
          last[h[i].name] = t;
          bool got = metric.isThereEgosCollisionWith(names[h[i].name], t);
          out += got ? '1' : '0';
          if (got != expect) {
            mc::violation(text, mc::cat("contact ", i, " reported as ", got ? "new" : "continued", " collision"));
            return;
          }
          std::string c;
          for (auto & [k, v] : last) c += mc::cat(k, ":", std::min(t - v, 4.0), " ");
          mc::state(c);
        }
        mc::executed(h.size());
        mc::outcome(text + out);
        mc::sample(text + "-> " + out);
        return;
      }
      for (int n = 0; n < 3; ++n)
        for (double d : dts) {
          h.push_back({n, d});
          rec();
          h.pop_back();
        }
    };
    rec();
  });
}
