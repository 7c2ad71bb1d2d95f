// Expressions (C20): every expression up to a depth over literals and parameters, in several spellings, against an evaluator
// that knows nothing of the grammar.
#include "h_core.hpp"
#include <openscenario_interpreter/reader/attribute.hpp>
namespace
{
using namespace core;
using namespace openscenario_interpreter;
struct V
{
  enum { NONE, OPEN, BOOL, INT, REAL } t = NONE;  // NONE: must be refused; OPEN: not stated
  bool b = false;
  __int128 i = 0;
  double d = 0;
  double real() const { return t == INT ? static_cast<double>(i) : d; }
  bool number() const { return t == INT or t == REAL; }
};
V integer(__int128 i) { V v; v.t = i > INT64_MAX or i < INT64_MIN ? V::NONE : V::INT; v.i = i; return v; }
V real(double d) { V v; v.t = std::isfinite(d) ? V::REAL : V::OPEN; v.d = d; return v; }
V boolean(bool b) { V v; v.t = V::BOOL; v.b = b; return v; }
V none() { return {}; }
V open() { V v; v.t = V::OPEN; return v; }
struct E { std::string text; int level; V v; };  // level: 0 or, 1 and, 2 additive, 3 multiplicative, 4 unary, 5 call or leaf
const char * binary[] = {" or ", " and ", "+", "-", "*", "/", "%", "pow"};
const int levels[] = {0, 1, 2, 2, 3, 3, 3, 5};
const char * unary[] = {"-", "not ", "round", "floor", "ceil", "sqrt"};
V apply(int op, const V & a, const V & b)
{
  if (a.t == V::NONE or b.t == V::NONE) return none();
  if (a.t == V::OPEN or b.t == V::OPEN) return open();
  if (op < 2) return a.t == V::BOOL and b.t == V::BOOL ? boolean(op ? a.b and b.b : a.b or b.b) : none();
  if (not a.number() or not b.number()) return none();
  const bool ints = a.t == V::INT and b.t == V::INT;
  switch (op) {
    case 2: return ints ? integer(a.i + b.i) : real(a.real() + b.real());
    case 3: return ints ? integer(a.i - b.i) : real(a.real() - b.real());
    case 4: return ints ? integer(a.i * b.i) : real(a.real() * b.real());
    case 5: return real(a.real() / b.real());
    case 6: return real(std::fmod(a.real(), b.real()));
    default: return real(std::pow(a.real(), b.real()));
  }
}
V apply(int op, const V & a)
{
  if (a.t == V::NONE or a.t == V::OPEN) return a;
  if (op == 1) return a.t == V::BOOL ? boolean(not a.b) : none();
  if (not a.number()) return none();
  switch (op) {
    case 0: return a.t == V::INT ? integer(-a.i) : real(-a.d);
    case 5: return real(std::sqrt(a.real()));
    default: {
      const double r = op == 2 ? std::round(a.real()) : op == 3 ? std::floor(a.real()) : std::ceil(a.real());
      return std::abs(r) < 9e18 ? integer(static_cast<__int128>(r)) : open();
    }
  }
}
std::string wrap(const E & e, int least, bool always) { return always or e.level < least ? "(" + e.text + ")" : e.text; }
E combine(int op, const E & a, const E & b, int style)
{
  const bool always = style == 2;
  const std::string space = style == 1 ? " " : "";
  E e{"", levels[op], apply(op, a.v, b.v)};
  if (op == 7) e.text = "pow" + space + "(" + a.text + "," + space + b.text + space + ")";
  else e.text = wrap(a, levels[op], always) + space + binary[op] + space + wrap(b, levels[op] + 1, always);
  return e;
}
E combine(int op, const E & a, int style)
{
  const std::string space = style == 1 ? " " : "";
  E e{"", op < 2 ? 4 : 5, apply(op, a.v)};
  e.text = op < 2 ? unary[op] + wrap(a, 5, style == 2 or a.text[0] == '-') : unary[op] + space + "(" + space + a.text + ")";
  return e;
}
std::string show(const V & v)
{
  std::ostringstream s;
  s << std::setprecision(17);
  switch (v.t) {
    case V::NONE: return "refused";
    case V::BOOL: return v.b ? "true" : "false";
    case V::INT: s << static_cast<long long>(v.i); return s.str();
    default: s << v.d; return s.str();
  }
}
struct Env
{
  Scope scope{nullptr};
  pugi::xml_document d;
  pugi::xml_node node = d.append_child("Class");
  Env()
  {
    scope.insert("i", make<Integer>(-3));
    scope.insert("big", make<Integer>(std::int64_t(5000000000)));
    scope.insert("u", make<UnsignedInteger>(2));
    scope.insert("s", make<UnsignedShort>(5));
    scope.insert("d", make<Double>(2.25));
    scope.insert("b", make<Boolean>(true));
    scope.insert("t", make<String>("7"));
    node.append_attribute("v");
  }
  template <class T> std::string read(const std::string & text)
  {
    node.attribute("v") = text.c_str();
    try {
      std::ostringstream s;
      if constexpr (std::is_same_v<T, Double>) s << std::setprecision(17) << readAttribute<T>("v", node, scope).data;
      else s << std::boolalpha << readAttribute<T>("v", node, scope);
      return s.str();
    } catch (const std::exception & e) {
      return "refused";
    }
  }
  void judge(const E & e)
  {
    if (e.v.t == V::OPEN) return;
    const auto text = "${" + e.text + "}";
    mc::current(text);
    mc::executed();
    bool ok;
    std::string got, want = show(e.v);
    switch (e.v.t) {
      case V::BOOL: got = read<Boolean>(text); break;
      case V::INT: got = read<Integer>(text); break;
      case V::REAL: got = read<Double>(text); break;
      default: got = read<String>(text);
    }
    mc::outcome(got);
    if (e.v.t == V::REAL) {
      try { ok = got != "refused" and std::stod(got) == e.v.d; } catch (...) { ok = false; }
    } else ok = got == want;
    if (not ok) mc::violation(text, mc::cat("is ", got, " instead of ", want));
    // an integer is a number, too; a fraction is no integer, a truth value no number
    if (e.v.t == V::INT and (got = read<Double>(text), got == "refused" or std::stod(got) != e.v.real())) mc::violation(text, mc::cat("is ", got, " as double instead of ", want));
    if (e.v.t == V::INT and (got = read<UnsignedShort>(text), got != (e.v.i < 0 or e.v.i > 65535 ? "refused" : want))) mc::violation(text, mc::cat("is ", got, " as unsignedShort"));
    if (e.v.t == V::REAL and e.v.d != std::floor(e.v.d) and (got = read<Integer>(text)) != "refused") mc::violation(text, mc::cat("is ", got, " as integer"));
    if (e.v.t == V::BOOL and (got = read<Double>(text)) != "refused") mc::violation(text, mc::cat("is ", got, " as double"));
  }
};
void expressions()
{
  Env env;
  const std::vector<E> leaves{{"0", 5, integer(0)}, {"1", 5, integer(1)}, {"2", 5, integer(2)}, {"7", 5, integer(7)}, {"2147483647", 5, integer(2147483647)}, {"0.5", 5, real(0.5)}, {"2.6", 5, real(2.6)}, {"1.0e-7", 5, real(1e-7)},
                              {"123456789.125", 5, real(123456789.125)}, {"true", 5, boolean(true)}, {"false", 5, boolean(false)}, {"$i", 5, integer(-3)}, {"$big", 5, integer(5000000000)}, {"$u", 5, integer(2)}, {"$s", 5, integer(5)},
                              {"$d", 5, real(2.25)}, {"$b", 5, boolean(true)}, {"$t", 5, none()}, {"$none", 5, none()}};
  const std::vector<E> few{{"2", 5, integer(2)}, {"0.5", 5, real(0.5)}, {"true", 5, boolean(true)}, {"$i", 5, integer(-3)}, {"$u", 5, integer(2)}};
  auto grow = [](const std::vector<E> & as, const std::vector<E> & bs, int style) {
    std::vector<E> r;
    for (int op = 0; op < 8; ++op) for (auto & a : as) for (auto & b : bs) r.push_back(combine(op, a, b, style));
    return r;
  };
  auto grow1 = [](const std::vector<E> & as, int style) {
    std::vector<E> r;
    for (int op = 0; op < 6; ++op) for (auto & a : as) r.push_back(combine(op, a, style));
    return r;
  };
  auto all = [&](const std::vector<E> & es) {
    for (auto & e : es)
      if (mc::mine()) {
        env.judge(e);
        mc::state(e.text);
        mc::sample(e.text);
      }
  };
  all(leaves);
  // texts that are no expressions
  std::vector<E> wrong;
  for (auto & t : {"", " ", "(", ")", "()", "1 2", "1 +", "+ 1", "* 2", "(1", "1)", "not", "and", "true and", "pow(1)", "pow(1,2,3)", "sqrt()", "round 1", "1..2", "$", "$ i", "foo", "foo(1)", "true 1", "1 or", "2147483648 2", "1,2"}) wrong.push_back({t, 5, none()});
  all(wrong);
  for (int style = 0; style < 3; ++style) {
    auto one = grow(leaves, leaves, style);
    auto u = grow1(leaves, style);
    one.insert(one.end(), u.begin(), u.end());
    all(one);
    auto small = grow(few, few, style), small1 = grow1(few, style);
    small.insert(small.end(), small1.begin(), small1.end());
    all(grow(small, mc::thorough() ? leaves : few, style));
    all(grow(mc::thorough() ? leaves : few, small, style));
    all(grow1(one, style));
    if (mc::thorough() and style == 0) all(grow(small, small, style)), all(grow(one, few, style));
  }
}
Register r1{"C20", expressions};
}  // namespace
