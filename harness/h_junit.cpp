// JUnit reports: every history of recorded results up to a depth is written, read back and compared with what was recorded.
#include <algorithm>
#include <cmath>
#include <unordered_map>
#include <vector>
#include <simple_junit/junit5.hpp>
#include <simple_junit/test_suites.hpp>

#include "mc.hpp"
namespace
{
const std::vector<std::string> messages{"", "plain", "<&>\"'", "line\nbreak", "\xe3\x83\x86 \xf0\x9f\x9a\x97", "]]> --> &amp;"};
const std::vector<std::string> suite_names{"s1", "<s&2>"}, case_names{"c1", "c\"2"};
std::string dir;
struct R { int kind, suite, kase, type, message; };  // kind 0 pass 1 failure 2 error 3 touch
const char * kinds[] = {"pass", "failure", "error", "case"};
using Pair = std::pair<std::string, std::string>;
struct Case { int pass = 0; std::vector<Pair> failures, errors; };

void run5(const std::vector<R> & h)
{
  std::string t = "junit5: ";
  for (auto & r : h) t += mc::cat(kinds[r.kind], "(", r.suite, ".", r.kase, " type ", r.type, " message ", r.message, "); ");
  mc::current(t);
  common::junit::JUnit5 report("name <&>");
  std::map<std::string, std::map<std::string, Case>> model;
  for (auto & r : h) {
    auto & s = suite_names[r.suite];
    auto & c = case_names[r.kase];
    auto & k = report.testsuite(s).testcase(c);
    auto & m = model[s][c];
    auto & ty = messages[r.type];
    auto & me = messages[r.message];
    if (r.kind == 0) k.pass.push_back({}), ++m.pass;
    if (r.kind == 1) k.failure.emplace_back(ty, me), m.failures.emplace_back(ty, me);
    if (r.kind == 2) k.error.emplace_back(ty, me), m.errors.emplace_back(ty, me);
  }
  const std::string path = dir + "/r.xml";
  report.write_to(path.c_str(), "  ");
  pugi::xml_document d;
  auto res = d.load_file(path.c_str());
  if (not res) return mc::violation(t, mc::cat("the report is not well-formed XML: ", res.description()));
  auto root = d.child("testsuites");
  auto bad = [&](const std::string & w) { mc::violation(t, w); };
  if (root.attribute("name").value() != std::string("name <&>")) return bad("report name lost");
  std::size_t f = 0, e = 0, p = 0, n = 0;
  for (auto & [sn, cases] : model) {
    auto s = root.find_child_by_attribute("testsuite", "name", sn.c_str());
    if (not s) return bad("suite missing: " + sn);
    ++n;
    std::size_t sf = 0, se = 0, sp = 0, k = 0;
    for (auto & [cn, c] : cases) {
      auto x = s.find_child_by_attribute("testcase", "name", cn.c_str());
      if (not x) return bad("case missing: " + cn);
      ++k;
      auto collect = [&](const char * tag) {
        std::vector<Pair> v;
        for (auto y : x.children(tag)) v.emplace_back(y.attribute("type").value(), y.attribute("message").value());
        return v;
      };
      if (collect("failure") != c.failures) return bad("failures of " + cn + " differ from those recorded");
      if (collect("error") != c.errors) return bad("errors of " + cn + " differ from those recorded");
      sf += c.failures.size(), se += c.errors.size(), sp += c.pass;
    }
    if (std::size_t(std::distance(s.children("testcase").begin(), s.children("testcase").end())) != k) return bad("unrecorded cases");
    if (s.attribute("failures").as_uint(99) != sf or s.attribute("errors").as_uint(99) != se or s.attribute("tests").as_uint(99) != sf + se + sp)
      return bad(mc::cat("counts of suite ", sn, " are wrong"));
    f += sf, e += se, p += sp;
  }
  if (std::size_t(std::distance(root.children("testsuite").begin(), root.children("testsuite").end())) != n) return bad("unrecorded suites");
  if (root.attribute("failures").as_uint(99) != f or root.attribute("errors").as_uint(99) != e or root.attribute("tests").as_uint(99) != f + e + p)
    return bad("counts of the report are wrong");
  mc::executed(h.size() + 1);
  mc::state(t);
  mc::outcome(mc::cat(f, " ", e, " ", p, " ", n, " ", h.empty() ? 0 : h.back().message));
  mc::sample(mc::cat(t, "-> failures ", f, " errors ", e, " tests ", f + e + p));
}
struct T { int suite, kase, time, result, desc; };
const std::vector<double> times{0, 0.25, 0.75, 12.5};
void runS(const std::vector<T> & h)
{
  std::string t = "suites: ";
  for (auto & r : h) t += mc::cat("add(", r.suite, ".", r.kase, " time ", times[r.time], " result ", r.result, " description ", r.desc, "); ");
  mc::current(t);
  junit::TestSuites report;
  std::map<std::string, std::vector<std::pair<std::string, T>>> model;
  for (auto & r : h) {
    auto & s = suite_names[r.suite];
    auto & c = case_names[r.kase];
    auto & m = model[s];
    bool known = std::any_of(m.begin(), m.end(), [&](auto & x) { return x.first == c; });
    if (report.contains(s, c) != known) return mc::violation(t, "contains() is wrong");
    report.addTestCase(s, c, times[r.time], r.result == 0 ? junit::TestResult::SUCCESS : r.result == 1 ? junit::TestResult::FAILURE : junit::TestResult::ERROR, "type", messages[r.desc]);
    if (not known) m.emplace_back(c, r);
  }
  const std::string path = dir + "/s.xml";
  report.write(path);
  pugi::xml_document d;
  auto res = d.load_file(path.c_str(), pugi::parse_default | pugi::parse_ws_pcdata_single);
  auto bad = [&](const std::string & w) { mc::violation(t, w); };
  if (not res) return bad("the report is not well-formed XML");
  auto root = d.child("testsuites");
  double total = 0;
  std::size_t n = 0;
  for (auto & [sn, cases] : model) {
    auto s = root.find_child_by_attribute("testsuite", "name", sn.c_str());
    if (not s) return bad("suite missing");
    if (s.attribute("tests").as_uint(99) != cases.size()) return bad("test count of a suite is wrong");
    auto x = s.child("testcase");
    for (auto & [cn, r] : cases) {
      if (cn != x.attribute("name").value() or sn != x.attribute("classname").value()) return bad("case missing or out of order: " + cn);
      if (x.attribute("time").as_double(-1) != times[r.time]) return bad("case time is wrong");
      if (bool(x.child("failure")) != (r.result == 1) or bool(x.child("error")) != (r.result == 2)) return bad("case outcome is wrong");
      if (r.result and x.child(r.result == 1 ? "failure" : "error").text().get() != messages[r.desc]) return bad("description is wrong");
      total += times[r.time];
      ++n;
      x = x.next_sibling("testcase");
    }
    if (x) return bad("unrecorded case");
  }
  // two ways of being wrong are known; any other is not
  double whole = 0;
  for (auto & [sn, cases] : model) {
    double of_suite = 0;
    for (auto & [cn, r] : cases) of_suite += times[r.time];
    whole += std::floor(of_suite);
  }
  if (const auto got = root.attribute("time").as_double(-1); got != total) {
    if (got != whole) return bad(mc::cat("total time ", root.attribute("time").value(), " but the cases took ", total));
    mc::violation("total time of junit::TestSuites drops the fraction of each suite", t);
  }
  if (const auto got = root.attribute("tests").as_uint(99); got != n) {
    if (got != model.size()) return bad(mc::cat("report counts ", root.attribute("tests").value(), " tests, ", n, " were recorded"));
    mc::violation("tests attribute of junit::TestSuites counts suites", t);
  }
  mc::executed(h.size() + 1);
  mc::state(t);
  mc::outcome(mc::cat("S", total, " ", n));
  mc::sample(mc::cat(t, "-> time ", total, " tests ", n));
}
}  // namespace
int main(int argc, char ** argv)
{
  return mc::run(argc, argv, [] {
    dir = std::string(getenv("VERIF_TMP") ? getenv("VERIF_TMP") : "/tmp") + "/junit-" + std::to_string(getpid());
    std::filesystem::create_directories(dir);
    mc::st().rule = "every history of results recorded under two suites x two cases with types and messages that need escaping; written, read "
                    "back, compared; an outcome is the set of counts";
    std::vector<R> a;
    for (int s = 0; s < 2; ++s)
      for (int c = 0; c < 2; ++c) {
        a.push_back({0, s, c, 0, 0});
        a.push_back({3, s, c, 0, 0});
        for (int k = 1; k < 3; ++k) a.push_back({k, s, c, 1, 2}), a.push_back({k, s, c, 0, 3});
      }
    for (int k = 1; k < 3; ++k)
      for (int ty = 0; ty < (int)messages.size(); ++ty)
        for (int m = 0; m < (int)messages.size(); ++m) a.push_back({k, 0, 0, ty, m});
    const int depth = mc::thorough() ? 3 : 2;
    std::vector<R> h;
    std::function<void(int, int)> rec = [&](int left, int width) {
      if (mc::mine()) run5(h);
      if (not left) return;
      for (int i = 0; i < width; ++i) {
        h.push_back(a[i]);
        rec(left - 1, width);
        h.pop_back();
      }
    };
    rec(depth, a.size());
    rec(mc::thorough() ? 4 : 3, 24);
    std::vector<T> b;
    for (int s = 0; s < 2; ++s)
      for (int c = 0; c < 2; ++c)
        for (int t = 0; t < 4; ++t)
          for (int r = 0; r < 3; ++r) b.push_back({s, c, t, r, 1 + (t + r) % 5});
    std::vector<T> g;
    std::function<void(int)> rec2 = [&](int left) {
      if (mc::mine()) runS(g);
      if (not left) return;
      for (auto & x : b) {
        g.push_back(x);
        rec2(left - 1);
        g.pop_back();
      }
    };
    rec2(mc::thorough() ? 4 - 1 : 2);
    b = {{0, 0, 1, 0, 0}, {0, 1, 2, 1, 3}, {1, 0, 3, 2, 2}, {1, 1, 2, 0, 1}, {0, 0, 2, 1, 4}};
    rec2(mc::thorough() ? 6 : 5);
    std::filesystem::remove_all(dir);
  });
}
