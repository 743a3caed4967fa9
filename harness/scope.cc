// on_scope_exit and make_unique.
#include "util.h"
#include <memory>
#include "maidsafe/common/make_unique.h"
#include "maidsafe/common/on_scope_exit.h"
using maidsafe::on_scope_exit;

struct Stop {};
// ops: at each of three points in the scope one of: nothing, release, set another action, throw, return
extern "C" void scope_history(long n) {
  int ran[4] = {0, 0, 0, 0};
  int active = 1, want = 1;  // which action is to run at the end (0: none)
  bool threw = false;
  auto body = [&] {
    on_scope_exit guard([&] { ++ran[1]; });
    for (long i = 0; i < n; ++i) {
      CHECK(ran[1] + ran[2] + ran[3] == 0, "nothing runs before the scope ends");
      switch (sym_choose("op", 6)) {
        case 0: break;
        case 1: guard.Release(); active = 0; break;
        case 2: guard.SetAction([&] { ++ran[2]; }); active = 2; break;
        case 3: guard.SetAction([&] { ++ran[3]; }); active = 3; break;
        case 4: throw Stop();
        case 5: return;
      }
    }
  };
  try { body(); } catch (const Stop&) { threw = true; }
  want = active;
  for (int k = 1; k <= 3; ++k) CHECK(ran[k] == (k == want ? 1 : 0), "exactly the action in force runs, exactly once, however the scope ends");
  REACH(threw ? "threw" : "returned");
  REACH(want ? "ran" : "released");
}
extern "C" void scope_nested(long) {
  std::vector<int> order;
  bool rel1 = sym_bool("r1"), rel2 = sym_bool("r2"), thr = sym_bool("t");
  try {
    on_scope_exit a([&] { order.push_back(1); });
    {
      on_scope_exit b([&] { order.push_back(2); });
      if (rel2) b.Release();
      if (thr) throw Stop();
    }
    if (rel1) a.Release();
  } catch (const Stop&) {}
  size_t want = (rel2 ? 0 : 1) + (rel1 && !thr ? 0 : 1);
  CHECK(order.size() == want, "each scope runs its own action once");
  if (order.size() == 2) CHECK(order[0] == 2 && order[1] == 1, "innermost first");
  REACH("nested");
}
struct Big { uint32_t a, b; std::string s; };
extern "C" void scope_revert(long n) {
  {
    uint64_t old = sym_u64("old"), now = sym_u64("now"), v = old;
    bool commit = sym_bool("commit");
    {
      on_scope_exit strong(on_scope_exit::RevertValue(v));
      v = now;
      CHECK(v == now, "the guarded value can be changed");
      if (commit) strong.Release();
    }
    CHECK(v == (commit ? now : old), "without release the old value is back, with release the new one stays");
  }
  {
    std::string old = sym_string("so", n), now = sym_string("sn", n + 1), v = old;
    try {
      on_scope_exit strong(on_scope_exit::RevertValue(v));
      v = now;
      throw Stop();
    } catch (const Stop&) {}
    CHECK(same_content(v, old), "exception: content restored");
  }
  {
    std::vector<uint32_t> v(n), w;
    for (auto& x : v) x = sym_u32("x");
    w = v;
    {
      on_scope_exit strong(on_scope_exit::RevertValue(v));
      v.push_back(1);
      v[0] = 9;
    }
    CHECK(v.size() == w.size(), "length restored");
    bool same = v.size() == w.size();
    for (size_t i = 0; same && i < v.size(); ++i) same &= v[i] == w[i];
    CHECK(same, "elements restored");
  }
  {  // two guards on the same value: the outermost wins
    uint32_t a = sym_u32("a"), b = sym_u32("b"), v = a;
    {
      on_scope_exit g1(on_scope_exit::RevertValue(v));
      v = b;
      on_scope_exit g2(on_scope_exit::RevertValue(v));
      v = 7;
    }
    CHECK(v == a, "reverts nest");
  }
  REACH("reverted");
}
// registration itself may fail (std::function allocation / copy of the action): the action is then run at once
struct Fragile {
  int* ran; int* copies; int limit; char big[64];
  Fragile(int* r, int* c, int l) : ran(r), copies(c), limit(l) {}
  Fragile(const Fragile& o) : ran(o.ran), copies(o.copies), limit(o.limit) { if (++*copies > limit) throw Stop(); }
  void operator()() const { ++*ran; }
};
extern "C" void scope_fragile(long limit) {
  int ran = 0, copies = 0;
  bool threw = false;
  try {
    Fragile f(&ran, &copies, (int)limit);
    on_scope_exit g(f);
    CHECK(ran == 0, "a registered action waits for the scope end");
  } catch (const Stop&) { threw = true; }
  CHECK(ran == 1 || (threw && copies == 1), "the action runs exactly once even when registering it fails");
  REACH(threw ? "failed" : "registered");
}
struct Counted {
  static int live;
  uint32_t a; std::string s;
  Counted() : a(5), s() { ++live; }
  Counted(uint32_t x, std::string y) : a(x), s(std::move(y)) { ++live; }
  ~Counted() { --live; }
};
int Counted::live = 0;
struct RefTaker { int& r; std::unique_ptr<int> p; RefTaker(int& x, std::unique_ptr<int> q) : r(x), p(std::move(q)) { r = 1; } };
extern "C" void mk_unique(long n) {
  uint32_t x = sym_u32("x");
  std::string s = sym_string("s", n);
  {
    auto p = maidsafe::make_unique<Counted>(x, s);
    CHECK(p && p->a == x && same_content(p->s, s), "constructed from exactly the arguments given");
    auto q = maidsafe::make_unique<Counted>();
    CHECK(q->a == 5 && Counted::live == 2, "one object per call");
    auto arr = maidsafe::make_unique<Counted[]>(n);
    CHECK(Counted::live == 2 + (int)n, "an array has exactly the elements asked for");
    auto ints = maidsafe::make_unique<uint32_t[]>(n);
    for (long i = 0; i < n; ++i) CHECK(ints[i] == 0, "array elements are value-initialised");
    int r = 0;
    auto fw = maidsafe::make_unique<RefTaker>(r, std::unique_ptr<int>(new int(3)));
    CHECK(r == 1 && *fw->p == 3, "references and move-only arguments are forwarded");
    auto i = maidsafe::make_unique<uint64_t>();
    CHECK(*i == 0, "value-initialised");
    auto c = maidsafe::make_unique<const uint32_t>(x);
    CHECK(*c == x, "value");
  }
  CHECK(Counted::live == 0, "everything is destroyed");
  REACH("made");
}
