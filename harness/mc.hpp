// Exploration framework shared by the harnesses: choice enumeration, reporting, replay.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc
{
inline std::string esc(const std::string & s)
{
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' or c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 0x20 or c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r;
}
inline std::string q(const std::string & s) { return "\"" + esc(s) + "\""; }

template <typename... Ts>
std::string cat(const Ts &... xs)
{
  std::ostringstream o;
  o.precision(17);
  (void)std::initializer_list<int>{(o << xs, 0)...};
  return o.str();
}

struct Violation
{
  std::string key, what, trace;
  std::int64_t index;
};

struct State
{
  std::string property, tier = "quick", out = "/dev/stdout";
  int shard = 0, shards = 1;
  std::int64_t only_case = -1;  // replay: run just this case
  // coverage
  std::uint64_t evaluations = 0;   // complete executions against the real code
  std::uint64_t transitions = 0;   // operations / steps performed on the real code
  std::unordered_set<std::uint64_t> states;    // distinct states observed (hashed, canonical)
  std::unordered_set<std::uint64_t> outcomes;  // distinct observed outcomes
  std::map<std::string, std::uint64_t> counters;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::set<std::string> seen_keys;
  std::uint64_t violation_count = 0;
  std::uint64_t case_index = 0;
  bool exhaustive = true;
  std::string rule, notes;
  char * cur = nullptr;
};
inline State & st()
{
  static State s;
  return s;
}

inline std::uint64_t hash(const std::string & s)
{
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  return h ^ (h >> 32);
}

inline bool thorough() { return st().tier == "thorough"; }
inline bool replaying() { return st().only_case >= 0; }

// the case now being executed, readable by the driver even when this process dies
inline void current(const std::string & s)
{
  if (st().cur) {
    std::size_t n = std::min<std::size_t>(s.size(), 4000);
    std::memcpy(st().cur, s.data(), n);
    st().cur[n] = 0;
  }
}

// whether this shard is the one that runs the next case (cases are dealt round robin)
inline bool mine()
{
  const auto i = st().case_index++;
  const bool r = st().only_case >= 0 ? static_cast<std::int64_t>(i) == st().only_case
                                     : static_cast<int>(i % st().shards) == st().shard;
  if (r and st().cur) std::snprintf(st().cur, 64, "case %llu", (unsigned long long)i);
  return r;
}
inline void state(const std::string & canonical) { st().states.insert(hash(canonical)); }
inline void outcome(const std::string & canonical) { st().outcomes.insert(hash(canonical)); }
inline void count(const std::string & k, std::uint64_t n = 1) { st().counters[k] += n; }
inline void executed(std::uint64_t transitions = 1)
{
  ++st().evaluations;
  st().transitions += transitions;
}
inline void sample(const std::string & s)
{
  auto & v = st().samples;
  if (v.size() < 4)
    v.push_back(s);
  else if ((st().evaluations & (st().evaluations - 1)) == 0)  // a few spread over the run
    v[3] = s;
}
// key: the specific failing input / history (stable across runs); what: explanation
inline void violation(const std::string & key, const std::string & what, const std::string & trace = "")
{
  ++st().violation_count;
  if (st().seen_keys.insert(key).second and st().violations.size() < 200)
    st().violations.push_back({key, what, trace, static_cast<std::int64_t>(st().case_index) - 1});
}
inline void check(bool ok, const std::string & key, const std::string & what)
{
  if (not ok) violation(key, what);
}

inline void write_result()
{
  std::ofstream o(st().out);
  o << "{\n\"evaluations\":" << st().evaluations << ",\n\"transitions\":" << st().transitions
    << ",\n\"cases\":" << st().case_index << ",\n\"violation_count\":" << st().violation_count
    << ",\n\"exhaustive\":" << (st().exhaustive ? "true" : "false") << ",\n\"rule\":" << q(st().rule)
    << ",\n\"notes\":" << q(st().notes);
  o << ",\n\"counters\":{";
  bool first = true;
  for (auto & [k, v] : st().counters) o << (first ? "" : ",") << q(k) << ":" << v, first = false;
  o << "},\n\"samples\":[";
  first = true;
  for (auto & s : st().samples) o << (first ? "" : ",") << q(s), first = false;
  o << "],\n\"violations\":[";
  first = true;
  for (auto & v : st().violations)
    o << (first ? "" : ",") << "\n{\"key\":" << q(v.key) << ",\"what\":" << q(v.what)
      << ",\"trace\":" << q(v.trace)
      << ",\"case\":" << v.index << "}",
      first = false;
  o << "]\n}\n";
  o.close();
  auto dump = [](const std::string & path, const auto & set) {
    std::ofstream f(path, std::ios::binary);
    for (auto h : set) f.write(reinterpret_cast<const char *>(&h), sizeof h);
  };
  if (st().out != "/dev/stdout") {
    dump(st().out + ".states", st().states);
    dump(st().out + ".outcomes", st().outcomes);
  }
}

inline void init(int argc, char ** argv)
{
  auto & s = st();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--property") s.property = next();
    else if (a == "--tier") s.tier = next();
    else if (a == "--out") s.out = next();
    else if (a == "--replay-case") s.only_case = std::atoll(next().c_str());
    else if (a == "--shard") {
      auto v = next();
      std::sscanf(v.c_str(), "%d/%d", &s.shard, &s.shards);
    }
  }
  if (s.out != "/dev/stdout") {
    int fd = ::open((s.out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0 and ::ftruncate(fd, 4096) == 0) {
      void * p = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) s.cur = static_cast<char *>(p);
    }
  }
}

// Stateless depth-first enumeration of every choice sequence of `body`.
struct Chooser
{
  std::vector<int> choice, width;
  std::size_t pos = 0;
  int operator()(int n)
  {
    if (n <= 0) {
      std::fprintf(stderr, "mc: empty choice\n");
      std::abort();
    }
    if (pos == choice.size()) {
      choice.push_back(0);
      width.push_back(n);
    } else if (width[pos] != n) {  // replay of a prefix diverged: the harness is not deterministic
      std::fprintf(stderr, "mc: divergence at choice %zu (%d vs %d)\n", pos, width[pos], n);
      std::abort();
    }
    return choice[pos++];
  }
  bool flag() { return (*this)(2) == 1; }
  template <typename T>
  const T & of(const std::vector<T> & v)
  {
    return v[(*this)(static_cast<int>(v.size()))];
  }
  bool next()
  {
    choice.resize(pos);
    width.resize(pos);
    while (not choice.empty()) {
      if (++choice.back() < width.back()) {
        pos = 0;
        return true;
      }
      choice.pop_back();
      width.pop_back();
    }
    return false;
  }
  std::string text() const
  {
    std::string s;
    for (std::size_t i = 0; i < pos; ++i) s += (i ? "," : "") + std::to_string(choice[i]);
    return s;
  }
};
// `body` runs once per choice sequence, in the shard the sequence is dealt to. A body that is dealt to
// another shard must still make its choices: it calls c(...) first and `if (not mine()) return;` then.
template <typename F>
void explore(F && body)
{
  Chooser c;
  do {
    c.pos = 0;
    body(c);
  } while (c.next());
}

template <typename F>
int run(int argc, char ** argv, F && f)
{
  init(argc, argv);
  f();
  write_result();
  return 0;
}
}  // namespace mc
