// Literals of the primitive parameter types: every string over an alphabet up to a length, against a reference grammar.
#include <boost/lexical_cast.hpp>
#include <cmath>
#include <limits>
#include <openscenario_interpreter/syntax/boolean.hpp>
#include <openscenario_interpreter/syntax/double.hpp>
#include <openscenario_interpreter/syntax/integer.hpp>
#include <openscenario_interpreter/syntax/unsigned_integer.hpp>
#include <openscenario_interpreter/syntax/unsigned_short.hpp>

#include "mc.hpp"
using namespace openscenario_interpreter;
namespace
{
enum Verdict { accept, refuse, unspecified_ };
struct Expect
{
  Verdict verdict;
  double value;
};
bool digits(const std::string & s) { return not s.empty() and s.find_first_not_of("0123456789") == std::string::npos; }
// [+-]? (d+ [. d*] | . d+) ([eE] [+-]? d+)?
Expect real(std::string s)
{
  const auto whole = s;
  if (s == "INF" or s == "+INF") return {accept, std::numeric_limits<double>::infinity()};
  if (s == "-INF") return {accept, -std::numeric_limits<double>::infinity()};
  if (not s.empty() and (s[0] == '+' or s[0] == '-')) s = s.substr(1);
  for (char c : s)
    if (std::strchr("iInNaAtTyY", c)) return {s.find_first_of("0123456789") == std::string::npos ? unspecified_ : refuse, 0};  // "inf", "nan" and the like: no promise
  if (const auto e = s.find_first_of("eE"); e != std::string::npos) {
    auto x = s.substr(e + 1);
    if (not x.empty() and (x[0] == '+' or x[0] == '-')) x = x.substr(1);
    if (not digits(x)) return {refuse, 0};
    s = s.substr(0, e);
  }
  const auto dot = s.find('.');
  bool ok = dot == std::string::npos ? digits(s)
                                     : ((digits(s.substr(0, dot)) and (dot + 1 == s.size() or digits(s.substr(dot + 1)))) or (dot == 0 and digits(s.substr(1))));
  if (not ok) return {refuse, 0};
  const double v = std::strtod(whole.c_str(), nullptr);
  return std::isfinite(v) ? Expect{accept, v} : Expect{refuse, 0};
}
Expect whole(std::string s, double min, double max)
{
  const auto all = s;
  if (not s.empty() and (s[0] == '+' or s[0] == '-')) s = s.substr(1);
  if (not digits(s)) return {refuse, 0};
  const double v = std::strtod(all.c_str(), nullptr);
  if (min == 0 and all[0] == '-' and v == 0) return {unspecified_, 0};
  return v >= min and v <= max ? Expect{accept, v} : Expect{refuse, 0};
}
Expect boolean(const std::string & s)
{
  if (s == "true") return {accept, 1};
  if (s == "false") return {accept, 0};
  if (s == "1" or s == "0") return {unspecified_, 0};
  return {refuse, 0};
}

template <typename T>
std::string read(const std::string & s, bool attribute, double & value)
{
  try {
    // how attributes are read, and how parameter declarations are
    value = attribute ? static_cast<double>(typename T::value_type(boost::lexical_cast<T>(s))) : static_cast<double>(typename T::value_type(T(s)));
    return "value";
  } catch (const common::SyntaxError &) {
    return "SyntaxError";
  } catch (const boost::bad_lexical_cast &) {
    return attribute ? "SyntaxError" : "bad_lexical_cast";  // readAttribute turns it into a SyntaxError
  } catch (const std::exception & e) {
    return std::string("exception ") + e.what();
  }
}
template <typename T, typename F>
void one(const char * type, const std::string & s, F && expectation)
{
  const Expect x = expectation(s);
  for (bool attribute : {false, true}) {
    double v = 0;
    const auto r = read<T>(s, attribute, v);
    mc::executed();
    const auto key = mc::cat(type, attribute ? " attribute \"" : " declared \"", s, "\"");
    mc::outcome(mc::cat(type, attribute, r == "value" ? mc::cat(v) : r));
    if (x.verdict == unspecified_) continue;
    mc::count(x.verdict == accept ? "accepted" : "refused");
    if (x.verdict == accept) {
      mc::state(key);
      if (r != "value")
        mc::violation(key, mc::cat("the ", type, " literal \"", s, "\" was refused (", r, ")"));
      else if (not(v == x.value))
        mc::violation(key, mc::cat("the ", type, " literal \"", s, "\" was read as ", v, " instead of ", x.value));
      mc::sample(key + " = " + mc::cat(v));
    } else if (r == "value")
      mc::violation(key, mc::cat("\"", s, "\" is no ", type, " literal (or out of its range) but was read as ", v));
    else if (r != "SyntaxError")
      mc::violation(key, mc::cat("\"", s, "\" for ", type, " was refused by something else than a syntax error: ", r));
  }
}
void all(const std::string & s)
{
  if (not mc::mine()) return;
  mc::current("literal \"" + s + "\"");
  one<Double>("double", s, real);
  one<Integer>("integer", s, [](auto & s) { return whole(s, std::numeric_limits<Integer::value_type>::min(), std::numeric_limits<Integer::value_type>::max()); });
  one<UnsignedInteger>("unsignedInt", s, [](auto & s) { return whole(s, 0, std::numeric_limits<UnsignedInteger::value_type>::max()); });
  one<UnsignedShort>("unsignedShort", s, [](auto & s) { return whole(s, 0, std::numeric_limits<UnsignedShort::value_type>::max()); });
  one<Boolean>("boolean", s, boolean);
}
void enumerate(const std::string & alphabet, int length, std::string prefix = "")
{
  if (not prefix.empty()) all(prefix);
  if (length == 0) return;
  for (char c : alphabet) enumerate(alphabet, length - 1, prefix + c);
}
template <typename T, typename V>
void round_trip(const char * type, V v)
{
  if (not mc::mine()) return;
  mc::executed();
  std::ostringstream o;
  o << T(v);
  const auto key = mc::cat(type, " printed ", v);
  mc::current(key);
  mc::state(key);
  // the way a parameter reference is read: print, then parse
  try {
    const auto back = typename T::value_type(boost::lexical_cast<T>(o.str()));
    mc::check(back == static_cast<typename T::value_type>(v), key, mc::cat("the ", type, " ", v, " prints as \"", o.str(), "\", which is read back as ", back));
  } catch (const std::exception & e) {
    mc::violation(key, mc::cat("the ", type, " ", v, " prints as \"", o.str(), "\", which cannot be read back: ", e.what()));
  }
}
}  // namespace
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    mc::st().rule = "each case is (type, way of reading, string); all strings over the alphabets up to the stated length; non-trivial: strings the type accepts, counted as distinct states";
    enumerate("0179+-.eEx", mc::thorough() ? 7 : 5);
    enumerate("INFinfa+-1.", mc::thorough() ? 6 : 4);
    // booleans: both words with every single-character edit and every suffix and prefix character
    for (std::string w : {"true", "false"})
      for (char c = '!'; c <= '~'; ++c)
        for (std::size_t i = 0; i <= w.size(); ++i) {
          all(w.substr(0, i) + c + w.substr(i));
          if (i < w.size()) {
            auto x = w;
            x[i] = c;
            all(x);
            all(w.substr(0, i));
            all(w.substr(0, i) + w.substr(i + 1));
          }
        }
    for (std::string w : {"truetrue", "truefalse", "falsetrue", "true0", "True", "TRUE", "FALSE", "yes", "no", "on", "off"}) all(w);
    // the limits of the integral types
    for (long long base : {0ll, 127ll, 128ll, 255ll, 256ll, 32767ll, 32768ll, 65535ll, 65536ll, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 9223372036854775807ll})
      for (long long d = -3; d <= 3; ++d)
        for (std::string sign : {"", "+", "-"})
          for (std::string tail : {"", ".", ".0", "e0", "0", "x", "u"})
            if (base + (d <= 0 ? d : 0) >= 0 and (d <= 0 or base < 9223372036854775804ll)) all(sign + std::to_string(base + d) + tail);
    for (std::string w : {"1e308", "1.7976931348623157e308", "1.8e308", "-1.8e308", "4.9e-324", "0.1", "0.30000000000000004", "123456789.123456789", "1e400", "99999999999999999999", "1_000", "1,5", "0x10", "1d0", "1f", "--1", "+-1", "INFINITE", "INF1", "1INF", "I", "-"}) all(w);
    // printing and reading back
    for (int e = -12; e <= 15; ++e)
      for (double m : {1., 1.5, 1.2345678901234567, 9.999999999999999, 3.3333333333333335})
        for (double s : {1., -1.}) round_trip<Double>("double", s * m * std::pow(10., e));
    for (double d : {0., 0.1, 0.2, 0.3, 1. / 3, 2. / 3, 13.9, 27.77777777777778}) round_trip<Double>("double", d), round_trip<Double>("double", -d);
    for (long long b : {0ll, 1ll, 255ll, 32767ll, 65535ll}) round_trip<UnsignedShort>("unsignedShort", b), round_trip<UnsignedInteger>("unsignedInt", b), round_trip<Integer>("integer", b), round_trip<Integer>("integer", -b);
    round_trip<UnsignedInteger>("unsignedInt", 4294967295u);
    round_trip<Integer>("integer", std::numeric_limits<Integer::value_type>::min());
    round_trip<Integer>("integer", std::numeric_limits<Integer::value_type>::max());
    round_trip<Boolean>("boolean", true);
    round_trip<Boolean>("boolean", false);
  });
}
