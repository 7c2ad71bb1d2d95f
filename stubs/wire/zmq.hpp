// Stand-in for cppzmq: request and reply sockets within one process.
#pragma once
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>
#define ZMQ_POLLIN 1
namespace zmq
{
struct error_t : std::runtime_error { using std::runtime_error::runtime_error; };
enum class socket_type { req, rep };
enum class send_flags { none };
enum class recv_flags { none };
struct message_t
{
  std::string bytes;
  message_t() = default;
  explicit message_t(std::size_t n) : bytes(n, '\0') {}
  message_t(const void * p, std::size_t n) : bytes(static_cast<const char *>(p), n) {}
  explicit message_t(const std::string & s) : bytes(s) {}
  void * data() { return &bytes[0]; }
  const void * data() const { return bytes.data(); }
  std::size_t size() const { return bytes.size(); }
  std::string to_string() const { return bytes; }
};
struct context_t { explicit context_t(int = 1) {} };
namespace stub
{
struct Socket;
struct Net
{
  std::mutex m;
  std::condition_variable c;
  std::map<std::string, Socket *> bound;  // by port
  static Net & get() { static Net n; return n; }
};
struct Socket
{
  socket_type type;
  std::string port;
  bool closed = false, waiting = false;
  std::deque<std::pair<Socket *, std::string>> in;  // from whom
  Socket * peer = nullptr;
};
inline std::string port(const std::string & e) { return e.substr(e.rfind(':') + 1); }
}  // namespace stub
struct pollitem_t { void * socket; int fd; short events; short revents; };
class socket_t
{
  std::unique_ptr<stub::Socket> s = std::make_unique<stub::Socket>();
public:
  socket_t(context_t &, socket_type t) { s->type = t; }
  ~socket_t() { close(); }
  void * handle() { return s.get(); }
  void bind(const std::string & e)
  {
    auto & n = stub::Net::get();
    std::lock_guard l(n.m);
    s->port = stub::port(e);
    if (n.bound.count(s->port)) throw error_t("Address already in use");
    n.bound[s->port] = s.get();
  }
  void connect(const std::string & e) { s->port = stub::port(e); }
  void close()
  {
    auto & n = stub::Net::get();
    std::lock_guard l(n.m);
    if (s->type == socket_type::rep and n.bound.count(s->port) and n.bound[s->port] == s.get()) n.bound.erase(s->port);
    s->closed = true;
    n.c.notify_all();
  }
  void send(message_t & m, send_flags)
  {
    auto & n = stub::Net::get();
    std::unique_lock l(n.m);
    if (s->closed) throw error_t("Socket operation on non-socket");
    if (s->type == socket_type::req) {
      if (s->waiting) throw error_t("Operation cannot be accomplished in current state");
      n.c.wait(l, [&] { return n.bound.count(s->port) > 0; });
      n.bound[s->port]->in.emplace_back(s.get(), m.bytes), s->waiting = true;
    } else {
      if (not s->peer) throw error_t("Operation cannot be accomplished in current state");
      s->peer->in.emplace_back(nullptr, m.bytes), s->peer = nullptr;
    }
    n.c.notify_all();
  }
  void send(message_t && m, send_flags f) { send(m, f); }
  void recv(message_t & m, recv_flags)
  {
    auto & n = stub::Net::get();
    std::unique_lock l(n.m);
    if (s->closed) throw error_t("Socket operation on non-socket");
    if (s->type == socket_type::req and not s->waiting) throw error_t("Operation cannot be accomplished in current state");
    if (s->type == socket_type::rep and s->peer) throw error_t("Operation cannot be accomplished in current state");
    n.c.wait(l, [&] { return s->in.size() > 0; });
    m.bytes = s->in.front().second;
    if (s->type == socket_type::rep) s->peer = s->in.front().first; else s->waiting = false;
    s->in.pop_front();
  }
};
inline int poll(pollitem_t * p, std::size_t k, std::chrono::milliseconds t)
{
  auto & n = stub::Net::get();
  std::unique_lock l(n.m);
  int r = 0;
  auto ready = [&] {
    r = 0;
    for (std::size_t i = 0; i < k; ++i) { p[i].revents = 0; if ((p[i].events & ZMQ_POLLIN) and static_cast<stub::Socket *>(p[i].socket)->in.size()) p[i].revents = ZMQ_POLLIN, ++r; }
    return r > 0;
  };
  n.c.wait_for(l, t, ready);
  return r;
}
}  // namespace zmq
