// SafeQueue: single-threaded histories against a model, and thread schedules.
#include "util.h"
#include <thread>
#include "maidsafe/common/safe_queue.h"

struct Item {  // who pushed it, and arbitrary content
  int id = -1;
  uint32_t v = 0;
};
static uint32_t content[200];
static void make_content(int pushers, int n) {
  for (int p = 0; p < pushers; ++p) for (int i = 0; i < n; ++i) content[100 * p + i] = sym_u32("content");
}
// histories: every sequence of n operations (push/try-pop/wait-and-pop/size/empty) with arbitrary values
extern "C" void sq_history(long n) {
  SafeQueue<uint32_t> q;
  std::vector<uint32_t> model;
  size_t head = 0;
  CHECK(q.Empty() && q.Size() == 0, "a new queue is empty");
  for (long i = 0; i < n; ++i) {
    size_t op = sym_choose("op", 3);
    if (op == 0) {
      uint32_t v = sym_u32("v");
      q.Push(v);
      model.push_back(v);
    } else if (op == 1) {
      uint32_t old = sym_u32("old"), e = old;
      bool got = q.TryPop(e);
      CHECK(got == (head < model.size()), "try-pop succeeds exactly when an element is there");
      if (got && head < model.size()) { CHECK(e == model[head], "elements leave in push order"); ++head; }
      else CHECK(e == old, "a failed try-pop leaves the target alone");
      REACH(got ? "popped" : "empty");
    } else {
      if (head == model.size()) continue;
      uint32_t e = 0;
      q.WaitAndPop(e);
      CHECK(e == model[head], "elements leave in push order");
      ++head;
    }
    CHECK(q.Size() == model.size() - head, "the size counts the elements held");
    CHECK(q.Empty() == (model.size() == head), "empty exactly when nothing is held");
  }
}
extern "C" void sq_string(long n) {
  SafeQueue<std::string> q;
  std::string a = sym_string("a", n), b = sym_string("b", n + 1), e;
  q.Push(a); q.Push(b);
  q.WaitAndPop(e);
  CHECK(same_content(e, a), "first content");
  CHECK(q.TryPop(e) && same_content(e, b), "second content");
  CHECK(!q.TryPop(e) && same_content(e, b), "nothing left");
}
// schedules
static void pusher(SafeQueue<Item>& q, int base, int n) { for (int i = 0; i < n; ++i) { Item e; e.id = base + i; e.v = content[base + i]; q.Push(e); }; }
static void check_order(const std::vector<Item>& got, int base, int n) {
  int next = base;
  for (const Item& e : got) if (e.id >= base && e.id < base + n) { CHECK(e.id >= next, "elements of one pusher are popped in push order"); next = e.id + 1; }
}
static void check_all(const std::vector<Item>& a, const std::vector<Item>& b, int pushers, int n) {
  std::vector<int> seen(200, 0);
  for (const Item& e : a) { CHECK(e.id >= 0 && e.id < 200, "only pushed elements come out"); ++seen[e.id]; CHECK(e.v == content[e.id], "the content pushed comes out"); }
  for (const Item& e : b) { CHECK(e.id >= 0 && e.id < 200, "only pushed elements come out"); ++seen[e.id]; CHECK(e.v == content[e.id], "the content pushed comes out"); }
  for (int p = 0; p < pushers; ++p) {
    for (int i = 0; i < n; ++i) CHECK(seen[100 * p + i] == 1, "each pushed element is popped exactly once");
    check_order(a, 100 * p, n);
    check_order(b, 100 * p, n);
  }
  CHECK((long)a.size() + (long)b.size() == (long)pushers * n, "as many pops as pushes");
}
// arg = pushers*100 + poppers*10 + elements per pusher (total must be divisible by the poppers)
extern "C" void sq_threads(long arg) {
  int pushers = arg / 100, poppers = arg / 10 % 10, n = arg % 10;
  make_content(pushers, n);
  SafeQueue<Item> q;
  std::vector<Item> got[2];
  int each = pushers * n / poppers;
  auto pop = [&](int k) { for (int i = 0; i < each; ++i) { Item e; q.WaitAndPop(e); got[k].push_back(e); } };
  std::thread t1([&] { pop(0); });
  std::thread t2, t3;
  if (poppers > 1) t2 = std::thread([&] { pop(1); });
  if (pushers > 1) t3 = std::thread([&] { pusher(q, 100, n); });
  pusher(q, 0, n);
  if (pushers > 1) t3.join();
  t1.join();
  if (poppers > 1) t2.join();
  check_all(got[0], got[1], pushers, n);
  CHECK(q.Empty() && q.Size() == 0, "nothing is left over");
  REACH("done");
}
// try-pop polls, wait-and-pop blocks, on the same queue
extern "C" void sq_mixed(long n) {
  make_content(1, (int)n);
  SafeQueue<Item> q;
  std::vector<Item> a, b;
  std::thread t([&] {
    for (long i = 0; i < n; ++i) { Item e; if (q.TryPop(e)) a.push_back(e); else CHECK(e.id == -1 && e.v == 0, "a failed try-pop leaves the target alone"); }
  });
  std::thread s([&] { pusher(q, 0, (int)n); });
  size_t z = q.Size();
  CHECK(z <= (size_t)n, "the size never exceeds what was pushed");
  t.join(); s.join();
  Item e;
  while (q.TryPop(e)) b.push_back(e);
  check_all(a, b, 1, (int)n);
  if (!a.empty() && !b.empty()) CHECK(a.back().id < b.front().id, "push order over both poppers");
  REACH(a.empty() ? "none" : "some");
}
