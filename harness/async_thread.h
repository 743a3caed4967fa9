// std::async and std::future on the threads of the engine: a task starts at once on a thread of its own.
#pragma once
#include <atomic>
#include <exception>
#include <functional>
#include <future>
#include <memory>
#include "sym.h"
namespace std {
struct verif_launch { enum policy { verif_async = 1, deferred = 2 }; };
struct verif_task {
  std::function<void()> run;
  std::exception_ptr failed;
  std::atomic<bool> done{false};
  uint64_t thread = 0;
  bool joined = false;
};
template <typename T> class verif_future;
template <> class verif_future<void> {
 public:
  verif_future() {}
  explicit verif_future(std::shared_ptr<verif_task> t) : task_(std::move(t)) {}
  verif_future(verif_future&& o) : task_(std::move(o.task_)) {}
  verif_future& operator=(verif_future&& o) { release(); task_ = std::move(o.task_); return *this; }
  ~verif_future() { release(); }
  bool valid() const { return !!task_; }
  void wait() const { if (!task_->joined) { task_->joined = true; __sym_thread_join(task_->thread); } }
  template <typename D> std::future_status wait_for(const D&) const { return task_->done ? std::future_status::ready : std::future_status::timeout; }
  void get() {
    wait();
    std::shared_ptr<verif_task> t(std::move(task_));
    task_.reset();
    if (t->failed) std::rethrow_exception(t->failed);
  }
 private:
  void release() { if (task_) wait(); task_.reset(); }
  std::shared_ptr<verif_task> task_;
};
static void verif_task_main(void* p) {
  std::shared_ptr<verif_task> t(*static_cast<std::shared_ptr<verif_task>*>(p));
  delete static_cast<std::shared_ptr<verif_task>*>(p);
  try { t->run(); } catch (...) { t->failed = std::current_exception(); }
  t->done = true;
}
template <typename F, typename... A>
verif_future<void> verif_async(verif_launch::policy, F f, A... a) {
  std::shared_ptr<verif_task> t(std::make_shared<verif_task>());
  t->run = std::bind(f, a...);
  t->thread = __sym_thread_create(verif_task_main, new std::shared_ptr<verif_task>(t));
  return verif_future<void>(t);
}
}
#define future verif_future
#define async verif_async
#define launch verif_launch
