// Exhaustive exploration of a reference model bound to the code: every reachable model state under every input, each such
// transition replayed on the implementation along a path of the model, with the implementation compared after every step.
#pragma once
#include <deque>

#include "mc.hpp"
namespace tour
{
// Model: copyable; std::string key() const; void step(int input) -> changes state; bool done() const (absorbing)
// Run:   constructed afresh for every path; std::string step(int input, const Model & expected) returns "" or the difference
template <class Model, class MakeRun>
void explore(const std::string & name, const Model & initial, int inputs, MakeRun make_run, const std::function<std::string(int)> & show, std::size_t max_states = 200000)
{
  std::map<std::string, int> id;
  std::vector<Model> states;
  std::vector<std::vector<int>> next;  // next[s][i]
  auto add = [&](const Model & m) {
    auto [it, fresh] = id.emplace(m.key(), static_cast<int>(states.size()));
    if (fresh) states.push_back(m);
    return it->second;
  };
  add(initial);
  for (std::size_t s = 0; s < states.size(); ++s) {
    next.emplace_back(inputs, -1);
    if (states[s].done()) continue;
    if (states.size() > max_states) {
      mc::st().exhaustive = false;
      break;
    }
    for (int i = 0; i < inputs; ++i) {
      Model m = states[s];
      m.step(i);
      next[s][i] = add(m);
    }
  }
  next.resize(states.size(), std::vector<int>(inputs, -1));
  for (auto & m : states) mc::state(name + "|" + m.key());
  std::vector<std::vector<char>> covered(states.size(), std::vector<char>(inputs, 0));
  std::vector<int> left(states.size(), 0);
  long todo = 0;
  for (std::size_t s = 0; s < states.size(); ++s)
    for (int i = 0; i < inputs; ++i)
      if (next[s][i] >= 0) ++left[s], ++todo;
  mc::count("model states", states.size());
  mc::count("model transitions", todo);
  // nearest state with something left to cover: path of inputs
  auto route = [&](int from) {
    std::vector<int> prev(states.size(), -2), via(states.size(), -1);
    std::deque<int> q{from};
    prev[from] = -1;
    while (not q.empty()) {
      int s = q.front();
      q.pop_front();
      if (left[s]) {
        std::vector<int> path;
        for (int x = s; prev[x] >= 0; x = prev[x]) path.push_back(via[x]);
        return std::make_pair(true, std::vector<int>(path.rbegin(), path.rend()));
      }
      for (int i = 0; i < inputs; ++i)
        if (int t = next[s][i]; t >= 0 and prev[t] == -2) prev[t] = s, via[t] = i, q.push_back(t);
    }
    return std::make_pair(false, std::vector<int>());
  };
  int failures = 0;
  while (todo > 0 and failures < 3) {
    auto run = make_run();
    int s = 0;
    Model m = initial;
    std::string history;
    bool broken = false;
    auto take = [&](int i) {
      history += (history.empty() ? "" : " ; ") + show(i);
      mc::current(name + ": " + history);
      const int t = next[s][i];
      if (not covered[s][i]) covered[s][i] = 1, --left[s], --todo;
      m.step(i);  // (what a step asks for is not part of the state)
      const std::string difference = run->step(i, m);
      mc::executed();
      s = t;
      if (not difference.empty()) {
        mc::violation(name + ": " + history, difference);
        broken = true;
      }
    };
    for (;;) {
      auto [found, path] = route(s);
      if (not found) break;
      for (int i : path)
        if (not broken) take(i);
      if (broken) break;
      int i = 0;
      while (covered[s][i] or next[s][i] < 0) ++i;
      take(i);
      if (broken) break;
    }
    mc::count("paths");
    mc::outcome(name + "|" + history);
    mc::sample(name + ": " + history);
    if (broken) ++failures;
    if (not route(0).first) break;
  }
}
}  // namespace tour
