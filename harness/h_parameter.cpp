// Parameters at run time (C17): every sequence of set, add and multiply actions up to a depth on a parameter of every type, every
// comparison after each of them; and, in whole scenarios, which of several parameters of one name an action changes.
#include "h_core.hpp"
#include <openscenario_interpreter/syntax/parameter_action.hpp>
#include <openscenario_interpreter/syntax/parameter_condition.hpp>
namespace
{
using namespace core;
using namespace openscenario_interpreter;
enum Type { BOOLEAN, DOUBLE, INTEGER, STRING, UNSIGNED_INT, UNSIGNED_SHORT };
const char * names[] = {"boolean", "double", "integer", "string", "unsignedInt", "unsignedShort"};
struct V  // a value of a parameter
{
  bool b = false;
  double d = 0;
  __int128 i = 0;
  std::string s;
  bool same(Type t, const V & v) const { return t == BOOLEAN ? b == v.b : t == DOUBLE ? d == v.d : t == STRING ? s == v.s : i == v.i; }
};
std::string show(Type t, const V & v)
{
  std::ostringstream o;
  o << std::setprecision(17);
  if (t == BOOLEAN) o << (v.b ? "true" : "false");
  else if (t == DOUBLE) o << v.d;
  else if (t == STRING) o << v.s;
  else {
    __int128 n = v.i;
    std::string r;
    const bool neg = n < 0;
    if (neg) n = -n;
    do r.insert(r.begin(), '0' + int(n % 10)); while (n /= 10);
    o << (neg ? "-" : "") << r;
  }
  return o.str();
}
bool fits(Type t, __int128 i) { return t == INTEGER ? i >= INT64_MIN and i <= INT64_MAX : t == UNSIGNED_INT ? i >= 0 and i <= UINT64_MAX : i >= 0 and i <= 65535; }
struct Literal { const char * text; V v; };
V B(bool b) { V v; v.b = b; return v; }
V D(double d) { V v; v.d = d; return v; }
V I(__int128 i) { V v; v.i = i; return v; }
V S(const char * s) { V v; v.s = s; return v; }
// the first three of each type are initial values, too
const std::vector<Literal> good[] = {
  {{"true", B(true)}, {"false", B(false)}},
  {{"0", D(0)}, {"2.5", D(2.5)}, {"-1e3", D(-1e3)}, {"1e300", D(1e300)}, {"7", D(7)}},
  {{"0", I(0)}, {"-7", I(-7)}, {"9223372036854775807", I(INT64_MAX)}, {"9007199254740993", I(9007199254740993)}, {"12", I(12)}},
  {{"", S("")}, {"true", S("true")}, {"a b", S("a b")}, {"12", S("12")}},
  {{"0", I(0)}, {"5", I(5)}, {"18446744073709551615", I(UINT64_MAX)}, {"9007199254740993", I(9007199254740993)}},
  {{"0", I(0)}, {"5", I(5)}, {"65535", I(65535)}, {"300", I(300)}}};
const std::vector<const char *> bad[] = {{"", "yes", "2", "TRUE"}, {"", "x", "1,5", "1.0.0"}, {"", "x", "1.5", "9223372036854775808", "1 2"}, {}, {"", "-1", "1.5", "18446744073709551616"}, {"", "-1", "65536", "0.5"}};
const double operands[] = {1, -1, 0.5, 2, 1.5, -3, 0, 1e5, 1e20};
struct Op { int kind; std::string text; double operand; };  // 0 set, 1 add, 2 multiply
std::string show(const Op & o) { return o.kind == 0 ? "set " + o.text : mc::cat(o.kind == 1 ? "add " : "multiply ", o.operand); }
// what the parameter may be afterwards; refused: must the action be refused (1), must not (0), either (2)
struct Expect { std::vector<V> any; int refused; };
Expect apply(Type t, const V & v, const Op & op)
{
  if (op.kind == 0) {
    for (auto & l : good[t]) if (l.text == op.text) return {{l.v}, 0};
    if (t == STRING) return {{S(op.text.c_str())}, 0};
    return {{}, 1};
  }
  if (t == BOOLEAN or t == STRING) return {{}, 1};
  if (t == DOUBLE) return {{D(op.kind == 1 ? v.d + op.operand : v.d * op.operand)}, 0};
  // exactly, in units of one half: every operand is a multiple of it
  const __int128 half = static_cast<__int128>(op.operand * 2);
  const __int128 r = op.kind == 1 ? v.i * 2 + half : v.i * half;
  const __int128 floor = r >= 0 ? r / 2 : (r - 1) / 2;
  if (r % 2 == 0) return fits(t, floor) ? Expect{{I(floor)}, 0} : Expect{{}, 1};
  Expect e{{}, 2};  // a fraction has to be rounded one way or the other
  for (auto n : {floor, floor + 1}) if (fits(t, n)) e.any.push_back(I(n));
  if (e.any.empty()) e.refused = 1;
  return e;
}
Object create(Type t, const V & v)
{
  switch (t) {
    case BOOLEAN: return make<Boolean>(v.b);
    case DOUBLE: return make<Double>(v.d);
    case INTEGER: return make<Integer>(static_cast<std::int64_t>(v.i));
    case STRING: return make<String>(v.s);
    case UNSIGNED_INT: return make<UnsignedInteger>(static_cast<std::uint64_t>(v.i));
    default: return make<UnsignedShort>(static_cast<std::uint16_t>(v.i));
  }
}
V value(Type t, const Object & o)
{
  switch (t) {
    case BOOLEAN: return B(o.as<Boolean>());
    case DOUBLE: return D(o.as<Double>().data);
    case INTEGER: return I(o.as<Integer>().data);
    case STRING: return S(o.as<String>().c_str());
    case UNSIGNED_INT: return I(o.as<UnsignedInteger>().data);
    default: return I(o.as<UnsignedShort>().data);
  }
}
const char * rules[] = {"equalTo", "notEqualTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual"};
bool compare(int rule, int order) { return rule == 0 ? order == 0 : rule == 1 ? order != 0 : rule == 2 ? order > 0 : rule == 3 ? order < 0 : rule == 4 ? order >= 0 : order <= 0; }
struct Env
{
  Scope root{nullptr};
  Scope inner;
  Type t;
  std::string history;
  Env(Type t, const V & v) : inner(root), t(t)
  {
    root.insert("other", make<Double>(42.0));
    root.insert("p", create(t, v));
    history = mc::cat(names[t], " = ", show(t, v));
  }
  V now() { return value(t, root.ref(std::string("p"))); }
  bool act(const Op & op, const char * ref = "p")  // false: refused
  {
    pugi::xml_document d;
    auto a = d.append_child("ParameterAction");
    a.append_attribute("parameterRef") = ref;
    if (op.kind == 0) a.append_child("SetAction").append_attribute("value") = op.text.c_str();
    else a.append_child("ModifyAction").append_child("Rule").append_child(op.kind == 1 ? "AddValue" : "MultiplyByValue").append_attribute("value") = mc::cat(op.operand).c_str();
    try {
      ParameterAction p(a, inner);
      p.start();
      return true;
    } catch (const std::exception &) {
      return false;
    }
  }
  // 1, 0, or -1 when refused
  int holds(const char * rule, const std::string & text, const char * ref = "p")
  {
    pugi::xml_document d;
    auto c = d.append_child("ParameterCondition");
    c.append_attribute("parameterRef") = ref;
    c.append_attribute("rule") = rule;
    c.append_attribute("value") = text.c_str();
    try {
      ParameterCondition p(c, inner);
      return p.evaluate().as<Boolean>() ? 1 : 0;
    } catch (const std::exception &) {
      return -1;
    }
  }
  void conditions(const V & v)
  {
    for (int r = 0; r < 6; ++r) {
      for (auto & l : good[t]) {
        if (r > 1 and (t == BOOLEAN or t == STRING)) continue;  // not ordered
        const int order = v.same(t, l.v) ? 0 : t == DOUBLE ? (v.d < l.v.d ? -1 : 1) : t == BOOLEAN or t == STRING ? 1 : v.i < l.v.i ? -1 : 1;
        mc::executed();
        const int got = holds(rules[r], l.text), want = compare(r, order);
        mc::outcome(mc::cat(names[t], show(t, v), rules[r], l.text, got));
        if (got != want) mc::violation(history + " " + rules[r] + " " + l.text, mc::cat("the condition is ", got < 0 ? "refused" : got ? "true" : "false", ", the value is ", show(t, v)));
      }
      if (t != STRING and r == 0)
        for (auto & b : bad[t])
          if (const int got = holds(rules[r], b); got != -1) mc::violation(history + " " + rules[r] + " '" + b + "'", mc::cat("compares with what is no ", names[t], ": ", got));
    }
    if (holds("equalTo", "1", "q") != -1) mc::violation("undeclared", "a condition on an undeclared parameter is evaluated");
  }
};
std::vector<Op> ops(Type t)
{
  std::vector<Op> r;
  for (auto & l : good[t]) r.push_back({0, l.text, 0});
  for (auto & b : bad[t]) r.push_back({0, b, 0});
  for (double d : operands) r.push_back({1, "", d}), r.push_back({2, "", d});
  return r;
}
void step(Env & e, const V & v, int depth, const std::vector<Op> & all)
{
  mc::state(mc::cat(names[e.t], show(e.t, v)));
  e.conditions(v);
  if (depth == 0) return;
  for (int k = 0; k < 3; ++k)
    if (e.act({k, "1", 1}, "q")) mc::violation("undeclared", mc::cat("an action on an undeclared parameter is carried out: ", k));
  for (auto & op : all) {
    Env next(e.t, v);
    next.history = e.history + ", " + show(op);
    const auto x = apply(e.t, v, op);
    mc::executed();
    mc::current(next.history);
    const bool done = next.act(op);
    const V got = next.now();
    bool ok = false;
    if (done) for (auto & a : x.any) ok = ok or got.same(e.t, a);
    else ok = x.refused != 0 and got.same(e.t, v);
    if (done and x.refused == 1) ok = false;
    if (not ok) mc::violation(next.history, mc::cat("is ", done ? "" : "refused, ", show(e.t, got)));
    else {
      if (next.root.ref(std::string("other")).as<Double>().data != 42.0) mc::violation(next.history, "changes another parameter");
      if (done) {
        mc::sample(next.history + " -> " + show(e.t, got));
        step(next, got, depth - 1, all);
      }
    }
  }
}
// ---- whole scenarios: which of the parameters of one name an action changes, and when -----------------------------------------
// the parameter may be declared by the scenario, the story and the maneuver; the act's stop trigger and the conditions of two events look at it
std::string declare(const std::string & n, int v) { return mc::cat("<ParameterDeclarations><ParameterDeclaration name=\"", n, "\" parameterType=\"integer\" value=\"", v, "\"/></ParameterDeclarations>"); }
std::string is(int v, const std::string & rule = "equalTo") { return mc::cat("<Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><ParameterCondition parameterRef=\"p\" rule=\"", rule, "\" value=\"", v, "\"/></ByValueCondition></Condition>"); }
std::string probe_event(int v, const std::string & n) { return event(action(command("print", ""), n + "a"), trigger("StartTrigger", is(v)), n); }
void levels()
{
  for (int mask = 1; mask < 8; ++mask)
    for (int kind = 0; kind < 3; ++kind)
      for (int from = 0; from < 2; ++from) {  // the action stands in the maneuver that declares, or in the one that does not
        if (not mc::mine()) continue;
        const bool d_scenario = mask & 1, d_story = mask & 2, d_maneuver = mask & 4;
        if (not d_scenario and not d_story) continue;  // the second maneuver would have none
        const auto key = mc::cat("levels ", mask, " ", kind, " ", from);
        mc::current(key);
        const std::string modify = kind == 0 ? set_parameter("p", "100")
                                             : mc::cat("<GlobalAction><ParameterAction parameterRef=\"p\"><ModifyAction><Rule><", kind == 1 ? "AddValue" : "MultiplyByValue", " value=\"10\"/></Rule></ModifyAction></ParameterAction></GlobalAction>");
        auto changed = [&](int v) { return kind == 0 ? 100 : kind == 1 ? v + 10 : v * 10; };
        const int outer = d_story ? 2 : 1, inner = d_maneuver ? 3 : outer;  // as declared
        int outer_after = outer, inner_after = inner;
        if (from == 0) { inner_after = changed(inner); if (not d_maneuver) outer_after = inner_after; }
        else { outer_after = changed(outer); if (not d_maneuver) inner_after = outer_after; }
        const auto go = event(action(modify, "go-a"), trigger("StartTrigger", time_condition("greaterOrEqual", 1)), "go");
        const auto inner_probe = probe_event(inner_after, "inner") + event(action(command("print"), "inner0a"), trigger("StartTrigger", is(inner)), "inner0");
        const auto outer_probe = probe_event(outer_after, "outer") + event(action(command("print"), "outer0a"), trigger("StartTrigger", is(outer)), "outer0");
        const std::string m1 = "<Maneuver name=\"m1\">" + (d_maneuver ? declare("p", 3) : "") + (from == 0 ? go : "") + inner_probe + "</Maneuver>";
        const std::string m2 = maneuver((from == 1 ? go : std::string()) + outer_probe, "m2");
        Doc d;
        if (d_scenario) d.parameters = "<ParameterDeclaration name=\"p\" parameterType=\"integer\" value=\"1\"/>";
        d.stories = "<Story name=\"story\">" + (d_story ? declare("p", 2) : "") + act(group(m1, actors(""), "g1") + group(m2, actors(""), "g2")) + "</Story>";
        Sim s;
        mc::executed();
        if (not s.begin(d)) { mc::violation(key, "the scenario does not start: " + Sim::verdict()); continue; }
        // when each event first leaves standby
        std::map<std::string, double> started;
        for (int k = 1; k <= 12 and s.active(); ++k) {
          s.frame(k * 0.25);
          std::function<void(const boost::json::value &)> walk = [&](const boost::json::value & v) {
            if (v.is_array()) for (auto & x : v.as_array()) walk(x);
            if (not v.is_object()) return;
            auto & o = v.as_object();
            if (auto n = o.if_contains("name"), c = o.if_contains("currentState"); n and c and n->is_string() and c->is_string())
              if (const std::string name = n->as_string().c_str(), state = c->as_string().c_str(); state != "standbyState" and not started.count(name)) started[name] = k * 0.25;
            for (auto & [k2, x] : o) walk(x);
          };
          walk(s.context);
          mc::executed();
        }
        mc::outcome(mc::cat(started["inner"], " ", started["outer"], " ", started["go"]));
        auto expect = [&](const std::string & e, bool before, bool after) {
          const bool have = started.count(e);
          const double at = have ? started[e] : -1;
          const bool ok = before ? have and at < 1 : after ? have and at >= 1 and at <= 1.5 : not have;
          if (not ok) mc::violation(key, mc::cat("event ", e, have ? mc::cat(" starts at ", at) : std::string(" does not start")));
        };
        expect("inner", inner == inner_after, true);
        expect("inner0", true, true);
        expect("outer", outer == outer_after, true);
        expect("outer0", true, true);
        expect("go", false, true);
      }
}
void parameters()
{
  for (int t = 0; t < 6; ++t) {
    const auto all = ops(Type(t));
    for (std::size_t i = 0; i < std::min<std::size_t>(3, good[t].size()); ++i)
      for (auto & first : all) {
        if (not mc::mine()) continue;
        Env e(Type(t), good[t][i].v);
        step(e, good[t][i].v, 1, {first});
        const auto x = apply(Type(t), good[t][i].v, first);
        Env n(Type(t), good[t][i].v);
        n.history += ", " + show(first);
        if (x.refused != 1 and n.act(first)) step(n, n.now(), mc::thorough() ? 2 : 1, all);
      }
  }
  levels();
}
Register r1{"C17", parameters};
}  // namespace
