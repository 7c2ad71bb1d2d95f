// Stand-in for the task queue: the harness runs its tasks when it likes (the real one is C01's).
#ifndef CONCEALER__TASK_QUEUE_HPP_
#define CONCEALER__TASK_QUEUE_HPP_
#include <deque>
#include <exception>
#include <functional>
namespace concealer
{
class TaskQueue
{
public:
  std::deque<std::function<void()>> thunks;
  std::exception_ptr thrown;
  static TaskQueue *& current() { static TaskQueue * q = nullptr; return q; }
  explicit TaskQueue() { current() = this; }
  ~TaskQueue() { current() = nullptr; }
  template <typename F> auto delay(F && f) -> void { rethrow(); thunks.emplace_back(std::forward<F>(f)); }
  auto empty() const -> bool { return thunks.empty(); }
  auto rethrow() const -> void { if (thrown) std::rethrow_exception(thrown); }
};
}  // namespace concealer
#endif
