// Comparison rules: every pair of values from a boundary set, for every type the interpreter compares.
#include <cmath>
#include <limits>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <openscenario_interpreter/syntax/double.hpp>
#include <openscenario_interpreter/syntax/integer.hpp>
#include <openscenario_interpreter/syntax/rule.hpp>
#include <openscenario_interpreter/syntax/unsigned_integer.hpp>
#include <openscenario_interpreter/syntax/unsigned_short.hpp>

#include "mc.hpp"
using namespace openscenario_interpreter;
namespace
{
const Rule::value_type rules[] = {Rule::equalTo, Rule::greaterThan, Rule::lessThan, Rule::greaterOrEqual, Rule::lessOrEqual, Rule::notEqualTo};
const char * names[] = {"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};
template <typename T>
bool reference(int rule, const T & a, const T & b)
{
  switch (rule) {
    case 0: return a == b;
    case 1: return a > b;
    case 2: return a < b;
    case 3: return a >= b;
    case 4: return a <= b;
    default: return a != b;
  }
}
template <typename T>
std::string show(const T & x) { return mc::cat(x); }

template <typename T, typename R>
void compare(const std::string & type, const std::vector<T> & values, R && apply)
{
  for (const T a : values)
    for (const T b : values) {
      if (not mc::mine()) continue;
      mc::current(mc::cat(type, ": ", show(a), " ? ", show(b)));
      bool got[6];
      for (int i = 0; i < 6; ++i) got[i] = apply(Rule(rules[i]), a, b);
      mc::executed(6);
      mc::state(mc::cat(type, show(a), "|", show(b)));
      std::string o;
      for (bool g : got) o += g ? '1' : '0';
      mc::outcome(type + o);
      bool close = false;
      if constexpr (std::is_floating_point_v<T>) close = a != b and std::abs(a - b) < std::numeric_limits<T>::epsilon();
      for (int i = 0; i < 6; ++i) {
        const auto key = mc::cat(type, " ", show(a), " ", names[i], " ", show(b));
        if (close and (i == 0 or i >= 3)) continue;  // values this near may count as equal
        mc::check(got[i] == reference(i, a, b), key, key + " is " + (got[i] ? "true" : "false"));
      }
      // whatever counts as equal: one rule is the negation of the other
      mc::check(got[0] != got[5], mc::cat(type, " ", show(a), " equalTo/notEqualTo ", show(b)), mc::cat(type, " ", show(a), " is ", got[0] ? "both equalTo and notEqualTo " : "neither equalTo nor notEqualTo ", show(b)));
      mc::sample(mc::cat(type, " ", show(a), " ? ", show(b), ": ", o));
    }
}
}  // namespace
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "each case is a pair of values of one type, compared by all six rules; all pairs of the boundary set; non-trivial: distinct pairs";
    const double inf = std::numeric_limits<double>::infinity(), eps = std::numeric_limits<double>::epsilon();
    std::vector<double> doubles = {0., -0., 1., -1., 0.1, 0.3, 0.1 + 0.2, 0.5, 2., 1e-300, 1e-17, 1e-15, 3 * eps, eps, eps / 2, 1. + eps, 1. - eps / 2, 10., 13.8, 13.8 + 1e-14, 13.800000001, 100., 1e6, 1e6 + 1e-9, 1e16, 1e16 + 2, 1e300, inf, -inf, 5e-324, 1. / 3, 27.77, -0.1, -10.};
    if (mc::thorough())
      for (int e = -18; e <= 18; ++e)
        for (double m : {1., 2., 5., -1., 1. + eps, 3.3}) doubles.push_back(m * std::pow(10., e));
    const std::vector<long> integers = {0, 1, -1, 2, -2, 3, 10, 127, 128, -128, 255, 256, 32767, 32768, -32768, 65535, 65536, 2147483646, 2147483647, -2147483647, -2147483648};
    const std::vector<unsigned> unsigneds = {0, 1, 2, 3, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647u, 2147483648u, 4294967294u, 4294967295u};
    compare<double>("double", doubles, [](const Rule & r, double a, double b) -> bool { return r(a, b); });
    compare<double>("Double", doubles, [](const Rule & r, double a, double b) -> bool { return r(static_cast<double>(Double(a)), static_cast<double>(Double(b))); });
    compare<double>("double/Double", doubles, [](const Rule & r, double a, double b) -> bool { return r(a, Double(b)); });
    compare<long>("Integer", integers, [](const Rule & r, long a, long b) -> bool { return r(Integer(static_cast<int>(a)), Integer(static_cast<int>(b))); });
    compare<unsigned>("UnsignedInteger", unsigneds, [](const Rule & r, unsigned a, unsigned b) -> bool { return r(UnsignedInteger(a), UnsignedInteger(b)); });
    compare<bool>("Boolean", {false, true}, [](const Rule & r, bool a, bool b) -> bool { return r(Boolean(a), Boolean(b)); });
    compare<std::string>("string", {"", "a", "b", "aa", "ab", "A", "1", "10", "9", "hello", "hello ", "hellp", "\x7f"}, [](const Rule & r, const std::string & a, const std::string & b) -> bool { return r(a, b); });
    // vectors of values (the speeds of several entities), against a value each
    for (int n = 1; n <= 3; ++n) {
      const std::vector<double> few = {0., 1., 0.3, 0.1 + 0.2, -1., 13.8, inf};
      std::vector<int> index(n, 0);
      for (;;) {
        for (double b : few) {
          if (mc::mine()) {
            std::valarray<double> a(n);
            for (int i = 0; i < n; ++i) a[i] = few[index[i]];
            std::string t = "(";
            for (double x : a) t += mc::cat(x, " ");
            t += mc::cat(") vs ", b);
            mc::current(t);
            mc::state("valarray" + t);
            std::valarray<bool> equal, unequal;
            for (int k = 0; k < 6; ++k) {
              std::valarray<bool> got = Rule(rules[k])(a, b);
              mc::executed();
              if (k == 0) equal = got;
              if (k == 5) unequal = got;
              if (got.size() != std::size_t(n)) {
                mc::violation(mc::cat(names[k], " ", t), mc::cat("comparing ", t, " by ", names[k], " gives ", got.size(), " results"));
                continue;
              }
              for (int i = 0; i < n; ++i) {
                if ((k == 0 or k >= 3) and a[i] != b and std::abs(a[i] - b) < eps) continue;
                mc::check(got[i] == reference(k, a[i], b), mc::cat(names[k], " ", t), mc::cat("element ", i, " of ", t, " compared by ", names[k], " gives ", got[i]));
              }
            }
            for (std::size_t i = 0; i < equal.size() and i < unequal.size(); ++i)
              mc::check(equal[i] != unequal[i], "equalTo/notEqualTo " + t, mc::cat("element ", i, " of ", t, " is both or neither of equalTo and notEqualTo"));
          }
        }
        int i = 0;
        while (i < n and ++index[i] == int(few.size())) index[i++] = 0;
        if (i == n) break;
      }
    }
  });
}
