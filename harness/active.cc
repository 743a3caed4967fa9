// Active: tasks run exactly once, in order per sender, before destruction ends; every schedule.
#include "util.h"
#include <memory>
#include <thread>
#include "maidsafe/common/active.h"
using maidsafe::Active;

struct Log {
  std::vector<int> ran;
  std::vector<uint32_t> got;
  int running = 0;
  unsigned long worker = 0;
  void run(int id, uint32_t data = 0) {
    CHECK(running == 0, "tasks do not overlap");
    ++running;
    unsigned long me = __sym_thread_self();
    CHECK(worker == 0 || worker == me, "tasks run on one worker");
    worker = me;
    ran.push_back(id);
    got.push_back(data);
    --running;
  }
};
static uint32_t content[400];
static void check(const Log& l, int senders, int n) {
  std::vector<int> seen(400, 0);
  for (int v : l.ran) ++seen[v];
  for (int s = 0; s < senders; ++s) {
    int next = 100 * s;
    for (int i = 0; i < n; ++i) CHECK(seen[100 * s + i] == 1, "each accepted task ran exactly once before destruction ended");
    for (int v : l.ran) if (v / 100 == s) { CHECK(v >= next, "tasks of one sender run in the order sent"); next = v + 1; }
  }
  for (size_t k = 0; k < l.ran.size(); ++k) CHECK(l.got[k] == content[l.ran[k]], "a task runs with what it captured");
  CHECK((int)l.ran.size() == senders * n, "nothing else ran");
}
static void send(Active& a, Log& l, int s, int n) { for (int i = 0; i < n; ++i) { uint32_t d = content[100 * s + i]; a.Send([&l, s, i, d] { l.run(100 * s + i, d); }); } }
// arg = senders*10 + tasks per sender; the destructor follows at once
extern "C" void active_senders(long arg) {
  int senders = arg / 10, n = arg % 10;
  for (int p = 0; p < senders; ++p) for (int i = 0; i < n; ++i) content[100 * p + i] = sym_u32("content");
  Log l;
  unsigned long me = __sym_thread_self();
  {
    Active a;
    std::vector<std::thread> ts;
    for (int s = 1; s < senders; ++s) ts.emplace_back([&a, &l, s, n] { send(a, l, s, n); });
    send(a, l, 0, n);
    for (auto& t : ts) t.join();
  }
  check(l, senders, n);
  CHECK(l.worker != me || n == 0, "tasks run on the worker, not on the sender");
  REACH("done");
}
// tasks that send further tasks
extern "C" void active_nested(long n) {
  Log l;
  {
    Active a;
    for (long i = 0; i < n; ++i)
      a.Send([&a, &l, i] {
        l.run((int)i);
        a.Send([&l, i] { l.run(100 + (int)i); });
      });
    // all first-generation tasks are accepted before shutdown; the second generation is accepted only while running
  }
  std::vector<int> seen(200, 0);
  for (int v : l.ran) ++seen[v];
  int next = 0, next2 = 100;
  for (int i = 0; i < (int)n; ++i) { CHECK(seen[i] == 1, "each accepted task ran exactly once"); CHECK(seen[100 + i] <= 1, "no task runs twice"); }
  for (int v : l.ran) { if (v < 100) { CHECK(v == next, "order"); ++next; } else { CHECK(v >= next2 && v - 100 < next, "order"); next2 = v + 1; } }
  REACH("nested");
}
// the functor and what it captured are destroyed
extern "C" void active_release(long n) {
  std::shared_ptr<int> p = std::make_shared<int>(7);
  {
    Active a;
    for (long i = 0; i < n; ++i) a.Send([p] { CHECK(*p == 7, "captured state is alive while the task runs"); });
  }
  CHECK(p.use_count() == 1, "tasks are destroyed by the end of destruction");
  REACH("released");
}
// what a task captured may itself use the active object when it is destroyed
struct Sender {
  Active& a; Log& l; int id; uint32_t data;
  Sender(Active& aa, Log& ll, int i, uint32_t d) : a(aa), l(ll), id(i), data(d) {}
  ~Sender() { Log* pl = &l; int i = id; uint32_t d = data; a.Send([pl, i, d] { pl->run(i, d); }); }
};
extern "C" void active_captured(long n) {
  Log l;
  for (long i = 0; i < 2 * n; ++i) content[i] = sym_u32("content");
  {
    Active a;
    for (long i = 0; i < n; ++i) {
      auto s = std::make_shared<Sender>(a, l, (int)(n + i), content[n + i]);
      a.Send([s, &l, i] { l.run((int)i, content[i]); });
    }
    // wait until the second generation has been accepted and run: a task that never finishes shows as a deadlock
    std::mutex m; std::condition_variable c; bool go = false;
    a.Send([&a, &m, &c, &go] {
      a.Send([&m, &c, &go] { std::lock_guard<std::mutex> g(m); go = true; c.notify_one(); });
    });
    std::unique_lock<std::mutex> g(m);
    while (!go) c.wait(g);
  }
  std::vector<int> seen(200, 0);
  for (size_t k = 0; k < l.ran.size(); ++k) { ++seen[l.ran[k]]; CHECK(l.got[k] == content[l.ran[k]], "a task runs with what it captured"); }
  for (int i = 0; i < (int)n; ++i) CHECK(seen[i] == 1 && seen[n + i] <= 1, "each accepted task ran exactly once, also when a destroyed task sent it");
  REACH("captured");
}
