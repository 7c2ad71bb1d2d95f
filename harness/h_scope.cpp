// Names (C15): every small tree of scopes with every placement of declarations, every reference from every scope, against a
// reference resolution; parameters declared at every level of a scenario and referred to from everywhere.
#include "h_core.hpp"
namespace
{
using namespace core;
using openscenario_interpreter::Object;
using openscenario_interpreter::Scope;
using openscenario_interpreter::make;
using openscenario_interpreter::syntax::Boolean;
using openscenario_interpreter::syntax::Double;
struct Node { int parent; std::string name; int vars; };  // vars: 0 none, 1 a number, 2 a boolean, 3 two numbers
struct Tree
{
  std::vector<Node> n;
  // what a reference of type number means from scope f: >= 0 the scope whose number it is, -1 nothing, -2 ambiguous, -3 left open
  std::vector<int> level(const std::vector<int> & fs) const  // the unnamed scopes directly inside
  {
    std::vector<int> r;
    for (int f : fs) for (std::size_t i = 1; i < n.size(); ++i) if (n[i].parent == f and n[i].name.empty()) r.push_back(i);
    return r;
  }
  int numbers(int f) const { return n[f].vars == 1 ? 1 : n[f].vars == 3 ? 2 : 0; }
  int inside(int f) const  // declared in f, or in the nearest of the unnamed scopes inside
  {
    for (std::vector<int> fs{f}; not fs.empty(); fs = level(fs)) {
      int total = 0, where = -1;
      for (int g : fs) if (numbers(g)) total += numbers(g), where = g;
      if (total > 1) return -2;
      if (total) return where;
    }
    return -1;
  }
  int nearest(int f) const
  {
    for (; f >= 0; f = n[f].parent) if (const int r = inside(f); r != -1) return r;
    return -1;
  }
  // scopes of that name in f (through unnamed ones): the result, or -1/-2/-3
  int child(int f, const std::string & name) const
  {
    for (std::vector<int> fs{f}; not fs.empty(); fs = level(fs)) {
      std::vector<int> found;
      for (int g : fs) for (std::size_t i = 1; i < n.size(); ++i) if (n[i].parent == g and n[i].name == name) found.push_back(i);
      if (found.size() > 1) return -2;
      if (found.size() == 1) {
        for (auto deeper = level(fs); not deeper.empty(); deeper = level(deeper))
          for (int g : deeper) for (std::size_t i = 1; i < n.size(); ++i) if (n[i].parent == g and n[i].name == name) return -3;  // shadowed
        return found[0];
      }
    }
    return -1;
  }
  int resolve(int f, bool absolute, const std::vector<std::string> & prefixes) const
  {
    if (prefixes.empty()) return absolute ? nearest(0) : nearest(f);
    int at = -1;
    if (absolute) at = child(0, prefixes[0]);
    else {
      if (f != 0 and child(f, prefixes[0]) != -1) return -3;
      for (int g = f == 0 ? 0 : n[f].parent; g >= 0; g = n[g].parent) if (at = child(g, prefixes[0]); at != -1) break;
    }
    for (std::size_t i = 1; i < prefixes.size() and at >= 0; ++i) at = child(at, prefixes[i]);
    return at < 0 ? at : inside(at);
  }
  std::string show() const
  {
    std::string s;
    static const char * v[] = {"", "x", "boolean x", "x twice"};
    for (std::size_t i = 0; i < n.size(); ++i) s += mc::cat(i ? ", " : "", i, i ? mc::cat(" in ", n[i].parent, " named \"", n[i].name, "\"") : std::string(" global"), n[i].vars ? " with " : "", v[n[i].vars]);
    return s;
  }
};
void trees(int inner, const std::vector<int> & vars)
{
  const std::vector<std::string> names{"", "a", "b"};
  std::vector<std::pair<std::string, std::pair<bool, std::vector<std::string>>>> references;
  for (bool absolute : {false, true})
    for (auto & p : std::vector<std::vector<std::string>>{{}, {"a"}, {"b"}, {"c"}, {"a", "a"}, {"a", "b"}, {"b", "a"}, {"a", "c"}}) {
      std::string s = absolute ? "::" : "";
      for (auto & x : p) s += x + "::";
      references.push_back({s + "x", {absolute, p}});
    }
  std::vector<int> parent(inner + 1, 0), name(inner + 1, 0), var(inner + 1, 0);
  auto next = [](std::vector<int> & d, auto limit) { for (int k = d.size() - 1; k >= 0; --k) { if (++d[k] < limit(k)) return true; d[k] = 0; } return false; };
  do {
    do {
      do {
        if (not mc::mine()) continue;
        Tree t;
        std::vector<std::unique_ptr<Scope>> scopes;
        for (int i = 0; i <= inner; ++i) {
          t.n.push_back({i ? parent[i] : -1, i ? names[name[i]] : "", vars[var[i]]});
          scopes.push_back(i ? std::make_unique<Scope>(t.n[i].name, *scopes[parent[i]]) : std::make_unique<Scope>(nullptr));
        }
        for (int i = 0; i <= inner; ++i) {
          const int v = t.n[i].vars;
          if (v == 1 or v == 3) scopes[i]->insert("x", make<Double>(double(i)));
          if (v == 3) scopes[i]->insert("x", make<Double>(100.0 + i));
          if (v == 2) scopes[i]->insert("x", make<Boolean>(true));
        }
        const auto shown = t.show();
        mc::current(shown);
        mc::state(shown);
        for (int f = 0; f <= inner; ++f)
          for (auto & [text, r] : references) {
            const int expected = t.resolve(f, r.first, r.second);
            if (expected == -3) continue;
            std::string got;
            try {
              got = mc::cat("scope ", scopes[f]->ref<Double>(text).data);
            } catch (const openscenario_interpreter::SyntaxError & e) {
              got = "refused";
            } catch (const std::exception & e) {
              got = mc::cat("exception ", e.what());
            }
            mc::executed();
            if (const auto want = expected >= 0 ? mc::cat("scope ", expected) : std::string("refused"); got != want)
              mc::violation(mc::cat(shown, ": ", text, " in ", f), mc::cat("resolves to ", got, " instead of ", want));
          }
        mc::sample(shown);
      } while (next(var, [&](int) { return int(vars.size()); }));
    } while (next(name, [&](int k) { return k ? 3 : 1; }));
  } while (next(parent, [&](int k) { return std::max(k, 1); }));
}
// parameters of a scenario: declared globally, in the story, in the maneuver, in any combination; used everywhere
std::string parameter(const std::string & n, const std::string & type, const std::string & v, const std::string & more = "") { return "<ParameterDeclaration name=\"" + n + "\" parameterType=\"" + type + "\" value=\"" + v + "\">" + more + "</ParameterDeclaration>"; }
std::string set_speed(const std::string & e, const std::string & v) { return "<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsDimension=\"time\" value=\"0\" dynamicsShape=\"step\"/><SpeedActionTarget><AbsoluteTargetSpeed value=\"" + v + "\"/></SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>"; }
void levels()
{
  for (int declared = 0; declared < 32; ++declared)  // global, story, maneuver; y = $x in the story, in the maneuver
    for (int use = 0; use < 5; ++use) {
      if (not mc::mine()) continue;
      const bool g = declared & 1, s = declared & 2, m = declared & 4, ys = declared & 8, ym = declared & 16;
      Doc d;
      d.entities = scenario_object("e");
      if (g) d.parameters += parameter("x", "double", "1");
      d.parameters += parameter("z", "double", "9");
      auto declarations = [](const std::string & x) { return "<ParameterDeclarations>" + x + "</ParameterDeclarations>"; };
      const std::string in_story = declarations((s ? parameter("x", "double", "2") : "") + (ys ? parameter("y", "double", "$x") : ""));
      const std::string in_maneuver = declarations((m ? parameter("x", "double", "3") : "") + (ym ? parameter("y", "double", "$x") : ""));
      // which x the story and the maneuver see
      const int xs = s ? 2 : g ? 1 : 0, xm = m ? 3 : xs, xi = g ? 1 : 0;
      const int y_story = ys ? xs : 0, y_maneuver = ym ? xm : y_story;
      static const char * uses[] = {"$x", "$y", "${$x + 10}", "${2 * $y + $z}", "$z"};
      auto value = [&](int x, int y) { return use == 0 ? x : use == 1 ? y : use == 2 ? (x ? x + 10 : 0) : use == 3 ? (y ? 2 * y + 9 : 0) : 9; };
      const int in_init = value(xi, 0), in_event = value(xm, y_maneuver);
      // a declaration that refers to what is not there fails, too
      const bool declarations_fail = (ys and not xs) or (ym and not xm);
      for (int where = 0; where < 2; ++where) {  // use in Init, or in an event of the maneuver
        d.init = priv("e", teleport(10, 10) + (where == 0 ? set_speed("e", uses[use]) : ""));
        d.stories = "<Story name=\"story\">" + in_story + act(group("<Maneuver name=\"maneuver\">" + in_maneuver + event(action(where == 1 ? set_speed("e", uses[use]) : command(":"), "a"), trigger("StartTrigger", time_condition("greaterThan", -1))) + "</Maneuver>", actors("<EntityRef entityRef=\"e\"/>"))) + "</Story>";
        const auto name = mc::cat("x", g ? " global" : "", s ? " in the story" : "", m ? " in the maneuver" : "", ys ? ", y in the story" : "", ym ? ", y in the maneuver" : "", ": ", uses[use], where ? " in an event" : " in Init");
        mc::current(name);
        Sim sim;
        int got = 0;
        if (sim.begin(d)) sim.frame(0.1), sim.frame(0.2);
        for (auto & e : mock::world().events)
          if (const auto i = e.find("requestSpeedChange e abs "); i == 0) got = std::stod(e.substr(25));
          else if (const auto j = e.find("setStatus"); j == 0) ;
        if (where == 0 and traffic_simulator::API::instance and traffic_simulator::API::instance->isEntityExist("e") and not got) got = std::lround(Sim::entity("e").twist.linear.x);
        const int want = declarations_fail ? 0 : where ? in_event : in_init;
        mc::executed();
        mc::outcome(mc::cat(name, got));
        if (got != want) mc::violation(name, mc::cat("is ", got ? mc::cat(got) : "refused: " + Sim::verdict(), " instead of ", want ? mc::cat(want) : "refused"));
        if (not want and Sim::verdict().find("error") != 0) mc::violation(name, "not reported as an error: " + Sim::verdict());
      }
    }
}
// constraints: a declared value must satisfy all constraints of one of the groups
void constraints()
{
  static const char * rules[] = {"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};
  auto holds = [](int r, int a, int b) { return r == 0 ? a == b : r == 1 ? a > b : r == 2 ? a < b : r == 3 ? a >= b : r == 4 ? a <= b : a != b; };
  using Group = std::vector<std::pair<int, int>>;
  std::vector<Group> groups;
  for (int r = 0; r < 6; ++r) for (int v = 1; v <= 2; ++v) groups.push_back({{r, v}});
  for (int r = 1; r < 6; ++r) for (int q = 1; q < 6; ++q) groups.push_back({{r, 1}, {q, 2}});
  static const char * types[] = {"integer", "double", "unsignedInt", "unsignedShort"};
  for (std::size_t i = 0; i < groups.size(); ++i)
    for (std::size_t j = 0; j <= groups.size(); j += mc::thorough() ? 1 : 3)
      for (int value = 0; value < 4; ++value) {
        if (not mc::mine()) continue;
        std::vector<Group> gs{groups[i]};
        if (j < groups.size()) gs.push_back(groups[j]);
        std::string text, name = mc::cat(types[(i + j) % 4], " ", value, " with");
        bool want = false;
        for (auto & g : gs) {
          bool all = true;
          text += "<ConstraintGroup>", name += " (";
          for (auto & [r, v] : g) text += mc::cat("<ValueConstraint rule=\"", rules[r], "\" value=\"", v, "\"/>"), name += mc::cat(" ", rules[r], " ", v), all &= holds(r, value, v);
          text += "</ConstraintGroup>", name += ")";
          want |= all;
        }
        mc::current(name);
        Doc d;
        d.parameters = parameter("x", types[(i + j) % 4], mc::cat(value), text);
        d.stories = story(act(group(maneuver(event(action(command(":"), "a"), trigger("StartTrigger", time_condition("greaterThan", -1)))))));
        spit(scenario_path(), d.xml());
        Sim sim;
        const bool got = sim.configure();
        mc::executed();
        mc::outcome(name);
        if (got != want) mc::violation(name, got ? "is accepted" : "is refused: " + Sim::verdict());
      }
}
// names beginning with OSC are reserved
void reserved(const std::string & name = "")
{
  if (not name.empty() and mc::mine()) {
    mc::current("reserved " + name);
    Doc d;
    d.parameters = parameter(name, "string", "v");
    d.stories = story(act(group(maneuver(event(action(command(":"), "a"), trigger("StartTrigger", time_condition("greaterThan", -1)))))));
    spit(scenario_path(), d.xml());
    Sim sim;
    const bool got = sim.configure(), want = name.compare(0, 3, "OSC") != 0;
    mc::executed(), mc::outcome("reserved " + name);
    if (got != want) mc::violation("reserved " + name, got ? "is accepted as the name of a parameter" : "is refused as the name of a parameter: " + Sim::verdict());
  }
  if (name.size() < 4) for (char c : std::string("OSCx")) reserved(name + c);
}
void names()
{
  reserved();
  trees(2, {0, 1, 2, 3});
  trees(3, {0, 1, 3});
  if (mc::thorough()) trees(3, {0, 1, 2, 3}), trees(4, {0, 1});
  levels();
  constraints();
}
Register r1{"C15", names};
}  // namespace
