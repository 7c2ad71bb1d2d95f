// Custom commands: call expressions (every string over an alphabet), and external programs run for them
// (every small argument vector, every way for the program to end, every output length).
#include <signal.h>
#include <sys/wait.h>

#include <concealer/execute.hpp>
#include <openscenario_interpreter/posix/fork_exec.hpp>
#include <openscenario_interpreter/regex/function_call_expression.hpp>

#include "mc.hpp"
namespace
{
namespace osc = openscenario_interpreter;
std::string self, dir;

int helper(int argc, char ** argv)  // --helper RECORD MODE ARGS...
{
  const std::string mode = argv[3];
  if (mode[0] == 'o') {  // output of a given length
    const int n = std::atoi(mode.c_str() + 1);
    for (int i = 0; i < n; ++i) std::putchar(i % 61 == 60 ? '\n' : 'a' + i % 26);
    return 0;
  }
  if (mode[0] == 'w') ::usleep(3000);
  std::string text = std::to_string(argc - 4) + "\n";
  for (int i = 4; i < argc; ++i) text += std::string(argv[i]) + "\n";
  const int fd = ::open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd < 0 or ::write(fd, text.data(), text.size()) < 0) return 99;
  ::close(fd);
  if (mode[0] == 'k') ::raise(SIGKILL);
  if (mode[0] == 's') {  // stops itself for a moment; a child of its own wakes it up
    const auto me = ::getpid();
    if (::fork() == 0) {
      ::usleep(5000);
      ::kill(me, SIGCONT);
      ::_exit(0);
    }
    ::raise(SIGSTOP);
    const int fd2 = ::open(argv[2], O_WRONLY | O_APPEND);
    if (fd2 < 0 or ::write(fd2, "resumed\n", 8) < 0) return 99;
  }
  if (mode[0] == 'x') return std::atoi(mode.c_str() + 1);
  return 0;
}
std::string slurp(const std::string & path)
{
  std::ifstream f(path);
  return std::string(std::istreambuf_iterator<char>(f), {});
}
std::string join(const std::vector<std::string> & xs)
{
  std::string s;
  for (auto & x : xs) s += "[" + x + "]";
  return s;
}

// ---- call expressions
struct Call
{
  bool ok = false;
  std::string name;
  std::vector<std::string> arguments;
};
Call reference(const std::string & s)
{
  Call c;
  std::size_t i = 0;
  while (i < s.size() and (std::isalnum(static_cast<unsigned char>(s[i])) or s[i] == '_' or s[i] == '@')) ++i;
  if (i == 0) return c;
  c.name = s.substr(0, i);
  if (i == s.size()) {
    c.ok = true;
    return c;
  }
  if (s[i++] != '(') return c;
  while (i < s.size() and s[i] != ')') {
    const auto begin = i;
    if (s[i] == '"') {
      const auto end = s.find('"', i + 1);
      if (end == std::string::npos) return c;
      i = end + 1;
    } else {
      while (i < s.size() and not std::strchr("(\" ,)\t\n", s[i])) ++i;
      if (i == begin) return c;
    }
    c.arguments.push_back(s.substr(begin, i - begin));
    if (i < s.size() and s[i] == ',') ++i;
    while (i < s.size() and std::isspace(static_cast<unsigned char>(s[i]))) ++i;
  }
  c.ok = i + 1 == s.size();
  return c;
}
void call(const std::string & s)
{
  if (not mc::mine()) return;
  mc::current("call expression \"" + s + "\"");
  using FCE = osc::FunctionCallExpression;
  const auto expected = reference(s);
  std::smatch m;
  const bool ok = std::regex_match(s, m, FCE::pattern());
  mc::executed();
  mc::outcome(ok ? mc::cat(m.str(1).size(), FCE::splitParameters(m.str(3)).size()) : "no");
  const auto key = "call expression \"" + s + "\"";
  if (ok != expected.ok)
    mc::violation(key, key + (ok ? " is accepted" : " is refused"));
  else if (ok) {
    mc::state(s);
    const auto got = FCE::splitParameters(m.str(3));
    mc::check(m.str(1) == expected.name, key, mc::cat(key, " names the function \"", m.str(1), "\""));
    mc::check(got == expected.arguments, key, mc::cat(key, " has the arguments ", join(got), " instead of ", join(expected.arguments)));
    mc::sample(key + " -> " + m.str(1) + join(got));
  }
}
void enumerate(const std::string & alphabet, int length, const std::string & prefix)
{
  if (not prefix.empty()) call(prefix);
  if (length)
    for (char c : alphabet) enumerate(alphabet, length - 1, prefix + c);
}

// ---- external programs
int serial = 0;
// runs `f` with the path of a fresh record, returns the record
template <typename F>
void external(const std::string & what, const std::string & expected, F && f)
{
  if (not mc::mine()) return;
  mc::current(what);
  const auto record = mc::cat(dir, "/", ::getpid(), "-", serial++);
  const auto me = ::getpid();
  pid_t pid = -1;
  std::string failure;
  try {
    pid = f(record);
  } catch (const std::exception & e) {
    failure = e.what();
  }
  if (::getpid() != me) {  // a child process came back out of the call
    std::ofstream(record + ".escaped") << "x";
    ::_exit(0);
  }
  mc::executed();
  mc::state(what);
  const auto got = slurp(record);
  mc::outcome(mc::cat(got.size(), failure));
  mc::check(failure.empty(), what, what + " fails: " + failure);
  mc::check(got == expected, what, mc::cat(what, ": when the call returned the program had recorded \"", got, "\" instead of \"", expected, "\""));
  if (pid > 0) {
    int status;
    const auto r = ::waitpid(pid, &status, WNOHANG);
    mc::check(r < 0 and errno == ECHILD, what, what + ": the program was not waited for to its end");
  }
  mc::check(slurp(record + ".escaped").empty(), what, what + ": the child process went on running the interpreter");
  ::unlink(record.c_str());
  ::unlink((record + ".escaped").c_str());
  mc::sample(what + " -> " + got);
}
std::string record_text(const std::vector<std::string> & args)
{
  std::string s = std::to_string(args.size()) + "\n";
  for (auto & a : args) s += a + "\n";
  return s;
}
void arguments(std::vector<std::string> args, const std::vector<std::string> & words, int depth)
{
  auto vector = [&](const std::string & record, const std::string & mode) {
    std::vector<std::string> v{self, "--helper", record, mode};
    v.insert(v.end(), args.begin(), args.end());
    return v;
  };
  external("fork_exec(vector) " + join(args), record_text(args), [&](auto & record) { return osc::fork_exec(vector(record, "x0")); });
  external("execute(vector) " + join(args), record_text(args), [&](auto & record) {
    const auto pid = ::fork();
    if (pid == 0) {
      concealer::execute(vector(record, "x0"));
      ::_exit(98);
    }
    int status;
    ::waitpid(pid, &status, 0);
    return -1;
  });
  bool plain = true;
  std::string text;
  for (auto & a : args) {
    plain = plain and not a.empty() and a.find_first_of(" \t\n") == std::string::npos;
    text += (text.empty() ? "" : " ") + a;
  }
  if (plain) {
    external("fork_exec(string) " + text, record_text(args), [&](auto & record) { return osc::fork_exec(self + " --helper " + record + " x0" + (text.empty() ? "" : " " + text)); });
    external("fork_exec(program, arguments) " + text, record_text(args), [&](auto & record) { return osc::fork_exec(self, "--helper " + record + " x0" + (text.empty() ? "" : " " + text)); });
  }
  if (depth)
    for (auto & w : words) {
      auto more = args;
      more.push_back(w);
      arguments(more, words, depth - 1);
    }
}
}  // namespace
int main(int argc, char ** argv)
{
  if (argc > 3 and std::string(argv[1]) == "--helper") return helper(argc, argv);
  char buffer[4096];
  const auto n = ::readlink("/proc/self/exe", buffer, sizeof buffer);
  self.assign(buffer, n);
  char name[] = "/tmp/verif-command-XXXXXX";
  dir = ::mkdtemp(name);
  const auto me = ::getpid();
  const auto r = mc::run(argc, argv, [&] {
    mc::st().rule = "call expressions: every string over the alphabet up to the length; programs: every argument vector over the words up to the length, every exit status and way to end, every output length; non-trivial: accepted expressions and distinct program runs";
    enumerate("a@(), \"1", mc::thorough() ? 7 : 6, "");
    for (std::string s : {"exitSuccess", "FaultInjectionAction@v1(a)", "f(foo, \"hello, world!\", 3.14)", "f(\"\")", "f(\"a b\" \"c\")", "f(-1.5e3, +2)", "f(a.b/c-d)", "f(1,2,3,4,5,6,7,8,9,10)", "f()g", "f(a))", "f((a)", "/bin/x", "f(a;b)", "f(a\tb)", "f (a)", "F_1(x)", "é"}) call(s);
    arguments({}, {"a", "-x", "", "*", "$HOME", "b=\"c d\"", ";", "\\"}, mc::thorough() ? 3 : 2);
    for (int status = 0; status < 256; status += mc::thorough() ? 1 : 17)
      external(mc::cat("program exiting with ", status), record_text({"p"}), [&](auto & record) { return osc::fork_exec(std::vector<std::string>{self, "--helper", record, mc::cat("x", status), "p"}); });
    for (int i = 0; i < 4; ++i) {
      external(mc::cat("program ending late ", i), record_text({"p"}), [&](auto & record) { return osc::fork_exec(self, "--helper " + record + " w p"); });
      external(mc::cat("program ended by a signal ", i), record_text({"p"}), [&](auto & record) { return osc::fork_exec(self, "--helper " + record + " k p"); });
      external(mc::cat("program stopped and continued ", i), record_text({"p"}) + "resumed\n", [&](auto & record) { return osc::fork_exec(self, "--helper " + record + " s p"); });
    }
    for (std::string missing : {"/nonexistent/program", "/tmp", "no-such-program-of-this-name"})
      external("missing program " + missing, "", [&](auto &) { return osc::fork_exec(missing, "a"); });
    const int longest = mc::thorough() ? 3000 : 300;
    for (int length = 0; length <= longest; ++length) {
      if (not mc::mine()) continue;
      mc::current(mc::cat("output of length ", length));
      std::string expected;
      for (int i = 0; i < length; ++i) expected += i % 61 == 60 ? '\n' : 'a' + i % 26;
      const auto got = concealer::dollar(mc::cat(self, " --helper - o", length));
      mc::executed();
      mc::state(mc::cat("output", length));
      mc::check(got == expected, mc::cat("output of length ", length), mc::cat("a program printing ", length, " characters is read as ", got.size(), " characters"));
    }
  });
  if (::getpid() == me) ::rmdir(dir.c_str());
  return r;
}
