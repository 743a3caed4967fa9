// IoService: the thread pool around a service, on every schedule. The service is a small stand-in
// with the documented behaviour of io_service: run() executes posted tasks and returns once there is
// neither a task nor outstanding work.
namespace asio { class io_service; }
namespace boost { namespace asio { class io_service; } }
#include "util.h"
#include <condition_variable>
#include <deque>
#include <functional>
#include "boost/exception/diagnostic_information.hpp"
#include "maidsafe/common/asio_service.h"
namespace maidsafe { namespace log { Logging& Logging::Instance() { static char c[1024]; return *(Logging*)c; } void Logging::Flush() {} } }
using namespace maidsafe;

static int running_threads, ended_threads, executed, works_made;
struct Service {
  struct work {
    explicit work(Service& s) : s(s) { std::lock_guard<std::mutex> l(s.m); ++s.outstanding; ++works_made; }
    ~work() { { std::lock_guard<std::mutex> l(s.m); --s.outstanding; } s.cv.notify_all(); }
    Service& s;
  };
  void run() {
    std::unique_lock<std::mutex> l(m);
    ++running_threads;
    for (;;) {
      if (!tasks.empty()) {
        auto f = std::move(tasks.front());
        tasks.pop_front();
        l.unlock();
        f();
        l.lock();
      } else if (outstanding == 0) {
        break;
      } else {
        cv.wait(l);
      }
    }
    --running_threads;
    ++ended_threads;
  }
  void post(std::function<void()> f) { { std::lock_guard<std::mutex> l(m); tasks.push_back(std::move(f)); } cv.notify_one(); }
  std::mutex m;
  std::condition_variable cv;
  std::deque<std::function<void()>> tasks;
  int outstanding = 0;
};
using Pool = IoService<Service>;
static void stopped(Pool& p, int n) {
  CHECK(p.ThreadCount() == 0, "no threads are left");
  CHECK(running_threads == 0 && ended_threads == n, "every thread of the pool has ended when Stop returns");
  CHECK(p.service().outstanding == 0 && p.service().tasks.empty(), "nothing is left to do");
}
// a = 10 * threads + tasks; stopped by its owner, then again, then destroyed
extern "C" void svc_stop(long a) {
  int n = a / 10, t = a % 10;
  std::vector<int> seen(t, 0);
  std::mutex m;
  {
    Pool p(n);
    CHECK(p.ThreadCount() == (size_t)n, "as many threads as asked for");
    for (int i = 0; i < t; ++i) p.service().post([&seen, &m, i] { std::lock_guard<std::mutex> l(m); ++seen[i]; });
    if (sym_bool("explicit")) {
      CHECK(outcome([&] { p.Stop(); }, CommonErrors::unknown) == 0, "stop succeeds");
      stopped(p, n);
      CHECK(outcome([&] { p.Stop(); }, CommonErrors::unknown) == 0, "stopping twice is harmless");
      stopped(p, n);
      bool late = false;
      p.service().post([&] { late = true; });
      CHECK(!late, "nothing runs after the stop");
      p.service().tasks.clear();
      REACH("explicit");
    }
  }
  CHECK(ended_threads == n && running_threads == 0, "every thread has ended after destruction");
  for (int i = 0; i < t; ++i) CHECK(seen[i] == 1, "each task posted before the stop ran exactly once");
  REACH("stop");
}
extern "C" void svc_zero(long) {
  CHECK(outcome([&] { Pool p(0); }, CommonErrors::invalid_argument) == 1, "a pool without threads is refused");
  CHECK(running_threads == 0 && ended_threads == 0, "and starts nothing");
  REACH("zero");
}
// a = 10 * threads + concurrent stoppers
extern "C" void svc_concurrent(long a) {
  int n = a / 10, k = a % 10;
  {
    Pool p(n);
    int done = 0;
    p.service().post([&] { ++done; });
    std::vector<std::thread> ts;
    for (int i = 1; i < k; ++i)
      ts.emplace_back([&] { CHECK(outcome([&] { p.Stop(); }, CommonErrors::unknown) == 0, "concurrent stops succeed"); CHECK(running_threads == 0 && ended_threads == n, "the pool has ended for every stopper"); });
    CHECK(outcome([&] { p.Stop(); }, CommonErrors::unknown) == 0, "concurrent stops succeed");
    stopped(p, n);
    for (auto& t : ts) t.join();
    CHECK(done == 1, "the task ran once");
  }
  REACH("concurrent");
}
// stop requested from inside the pool: refused, and the pool goes on
extern "C" void svc_inside(long n) {
  {
    Pool p(n);
    bool asked = false;
    int after = 0;
    std::mutex m;
    std::condition_variable cv;
    p.service().post([&] {
      CHECK(outcome([&] { p.Stop(); }, CommonErrors::cannot_invoke_from_this_thread) == 1, "a pool thread cannot stop its own pool");
      std::lock_guard<std::mutex> l(m);
      asked = true;
      cv.notify_one();
    });
    { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return asked; }); }
    CHECK(p.service().outstanding == 1, "the refused stop leaves the pool working");
    CHECK(p.ThreadCount() == (size_t)n, "with all its threads");
    p.service().post([&] { ++after; });
    CHECK(outcome([&] { p.Stop(); }, CommonErrors::unknown) == 0, "the owner can still stop it");
    stopped(p, n);
    CHECK(after == 1, "work posted afterwards still ran");
  }
  REACH("inside");
}
// a pool thread and the owner ask at the same time: nobody waits for ever
extern "C" void svc_race(long n) {
  int r = -1;
  {
    Pool p(n);
    p.service().post([&] { r = outcome([&] { p.Stop(); }, CommonErrors::cannot_invoke_from_this_thread); });
    CHECK(outcome([&] { p.Stop(); }, CommonErrors::unknown) == 0, "the owner can stop it");
    stopped(p, n);
  }
  CHECK(r == 1, "the pool thread was refused");
  REACH("race");
}
