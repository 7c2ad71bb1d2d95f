// JobList: every sequence of appends and updates up to a depth, against a reference model.
#include <traffic_simulator/job/job_list.hpp>

#include "mc.hpp"
using namespace traffic_simulator::job;
namespace
{
struct Op
{
  bool append;
  int type, exclusive, event, life;  // life: number of calls after which the job reports completion, 0: never
  double dt;
};
struct Model
{
  int type;
  bool exclusive;
  int event, life, calls = 0, cleanups = 0;
  double duration = 0;
  bool active = true;
};
struct Seen
{
  int calls = 0, cleanups = 0;
  std::vector<double> durations;
};
std::string text(const Op & o)
{
  return o.append ? mc::cat("append(type ", o.type, o.exclusive ? " exclusive" : " shared", o.event ? " post" : " pre", " done after ", o.life, ")")
                  : mc::cat("update(", o.dt, o.event ? " post)" : " pre)");
}
void run(const std::vector<Op> & ops)
{
  std::string t;
  for (auto & o : ops) t += text(o) + "; ";
  mc::current(t);
  JobList list;
  std::vector<Model> model;
  std::vector<std::unique_ptr<Seen>> seen;
  std::vector<int> order, model_order;  // callbacks in the order in which they happened
  std::string canon;
  int n = 0;
  for (auto & o : ops) {
    ++n;
    if (o.append) {
      for (std::size_t i = 0; i < model.size(); ++i) {
        auto & m = model[i];
        if (m.active and m.type == o.type and m.exclusive == (o.exclusive == 1)) {
          m.active = false;
          ++m.cleanups;
          model_order.push_back(-int(i) - 1);
        }
      }
      int id = model.size();
      model.push_back({o.type, o.exclusive == 1, o.event, o.life});
      seen.push_back(std::make_unique<Seen>());
      Seen * s = seen.back().get();
      list.append(
        [s, id, &order, life = o.life](double d) {
          ++s->calls;
          s->durations.push_back(d);
          order.push_back(id + 1);
          return life and s->calls >= life;
        },
        [s, id, &order] {
          ++s->cleanups;
          order.push_back(-id - 1);
        },
        o.type == 0 ? Type::LINEAR_VELOCITY : o.type == 1 ? Type::LINEAR_ACCELERATION : Type::TRAVELED_DISTANCE, o.exclusive == 1,
        o.event ? Event::POST_UPDATE : Event::PRE_UPDATE);
    } else {
      for (std::size_t i = 0; i < model.size(); ++i) {
        auto & m = model[i];
        if (not m.active or m.event != o.event) continue;
        ++m.calls;
        model_order.push_back(int(i) + 1);
        if (m.life and m.calls >= m.life) {
          m.active = false;
          ++m.cleanups;
          model_order.push_back(-int(i) - 1);
        }
      }
      list.update(o.dt, o.event ? Event::POST_UPDATE : Event::PRE_UPDATE);
    }
    // durations: what each callback saw is the sum of the step times of its earlier calls
    for (std::size_t i = 0; i < model.size(); ++i) {
      auto & m = model[i];
      auto & s = *seen[i];
      if (s.calls != m.calls or s.cleanups != m.cleanups)
        return mc::violation(t, mc::cat("after step ", n, " job ", i, " was called ", s.calls, " times and cleaned up ", s.cleanups,
                                        " times; expected ", m.calls, " and ", m.cleanups));
      canon += mc::cat(m.type, m.exclusive, m.event, m.life, m.calls, m.active, ";");
    }
    if (order != model_order) return mc::violation(t, mc::cat("after step ", n, " callbacks ran in the wrong order"));
    mc::state(canon);
  }
  // durations
  for (std::size_t i = 0, born; i < model.size(); ++i) {
    std::vector<double> expect;
    double d = 0;
    int k = -1;
    born = 0;
    for (auto & o : ops) {
      if (o.append) {
        ++k;
        if (k == int(i)) born = 1;
      } else if (born and o.event == model[i].event and expect.size() < seen[i]->durations.size()) {
        expect.push_back(d);
        d += o.dt;
      }
    }
    if (expect != seen[i]->durations) return mc::violation(t, mc::cat("job ", i, " saw wrong elapsed times"));
  }
  mc::executed(ops.size());
  std::string oc;
  for (int x : order) oc += std::to_string(x) + ",";
  mc::outcome(oc);
  mc::sample(t + "-> callbacks " + oc);
}
}  // namespace
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "every sequence of the operations {append(3 kinds: same type, other type; exclusive or shared; before or after the "
                    "step; finishing at call 1, 2 or never), update(two step lengths, before or after)}; an outcome is the callback order";
    std::vector<Op> alphabet;
    for (int type = 0; type < 2; ++type)
      for (int ex = 1; ex >= 0; --ex)
        for (int ev = 0; ev < 2; ++ev)
          for (int life : {0, 1, 2}) alphabet.push_back({true, type, ex, ev, life, 0});
    for (int ev = 0; ev < 2; ++ev)
      for (double dt : {0.5, 0.25}) alphabet.push_back({false, 0, 0, ev, 0, dt});
    const int depth = mc::thorough() ? 5 : 4;
    std::vector<Op> ops;
    std::function<void()> rec = [&] {
      if ((int)ops.size() == depth) {
        if (mc::mine()) run(ops);
        return;
      }
      for (auto & o : alphabet) {
        ops.push_back(o);
        rec();
        ops.pop_back();
      }
    };
    rec();
    // longer histories over fewer operations
    alphabet = {{true, 0, 1, 1, 2, 0}, {true, 0, 1, 1, 0, 0}, {true, 1, 1, 0, 1, 0}, {true, 0, 0, 1, 2, 0}, {false, 0, 0, 1, 0, 0.5}, {false, 0, 0, 0, 0, 0.25}};
    const int deep = mc::thorough() ? 9 : 7;
    std::function<void()> rec2 = [&] {
      if ((int)ops.size() == deep) {
        if (mc::mine()) run(ops);
        return;
      }
      for (auto & o : alphabet) {
        ops.push_back(o);
        rec2();
        ops.pop_back();
      }
    };
    rec2();
  });
}
