// LRU cache: histories of operations at arbitrary times against an ideal cache.
#include "util.h"
#include "maidsafe/common/error.h"
#include "maidsafe/common/containers/lru_cache.h"
using namespace maidsafe;
typedef std::chrono::steady_clock SC;
static int64_t now_;
// replaces the library's: the clock shows what the harness chose
SC::time_point SC::now() noexcept { return time_point(duration(now_)); }

struct Entry { uint8_t key; uint32_t value; int64_t at; };
struct Model {  // least recently used first
  std::vector<Entry> e;
  uint64_t capacity;
  int64_t ttl;
  int find(uint8_t k) const { for (size_t i = 0; i < e.size(); ++i) if (e[i].key == k) return (int)i; return -1; }
  void add(uint8_t k, uint32_t v) {
    if (capacity == 0 || find(k) >= 0) return;
    if (e.size() == capacity) e.erase(e.begin());
    while (ttl != 0 && !e.empty() && now_ - e[0].at > ttl) e.erase(e.begin());
    e.push_back(Entry{k, v, now_});
  }
  void touch(int i) { Entry x = e[i]; e.erase(e.begin() + i); e.push_back(x); }
};
static void tick() {
  int64_t t = (int64_t)sym_u64("now");
  sym_assume(t >= now_);
  now_ = t;
}
template <typename C> static void same(const C& c, const Model& m) {  // as many keys, and each of the model held: the same set
  CHECK(c.size() == m.e.size(), "the number of entries");
  for (auto& x : m.e) CHECK(c.Check(x.key), "an entry of the ideal cache is held");
}
static int64_t start(int64_t* ttl, int kind) {
  now_ = (int64_t)sym_u64("start");
  sym_assume(now_ >= 0);  // steady clocks start at 0
  *ttl = 0;
  if (kind) { *ttl = (int64_t)sym_u64("ttl"); sym_assume(*ttl > 0); }
  return *ttl;
}
// arg = kind*100 + capacity*10 + operations; kind 0: capacity only, 1: time to live only, 2: both
extern "C" void lru_history(long arg) {
  int kind = arg / 100; uint64_t cap = arg / 10 % 10; long n = arg % 10;
  int64_t ttl; start(&ttl, kind);
  typedef LruCache<uint8_t, uint32_t> C;
  C* c = kind == 0 ? new C(cap) : kind == 1 ? new C(SC::duration(ttl)) : new C(cap, SC::duration(ttl));
  Model m;
  m.capacity = kind == 1 ? ~0ull : cap; m.ttl = ttl;
  for (long i = 0; i < n; ++i) {
    size_t op = sym_choose("op", 3);
    uint8_t k = sym_u8("key");
    tick();
    if (op == 0) {
      uint32_t v = sym_u32("value");
      c->Add(k, v);
      m.add(k, v);
      REACH("add");
    } else if (op == 1) {
      auto r = c->Get(k);
      int f = m.find(k);
      CHECK(r.valid() == (f >= 0), "a get succeeds exactly when the key is held");
      if (r.valid() && f >= 0) { CHECK(r.value() == m.e[f].value, "a get returns the value added for that key"); m.touch(f); REACH("hit"); }
      if (!r.valid()) { CHECK(r.error().code() == make_error_code(CommonErrors::no_such_element), "the documented error"); REACH("miss"); }
    } else {
      c->Delete(k);
      int f = m.find(k);
      if (f >= 0) { m.e.erase(m.e.begin() + f); REACH("deleted"); }
    }
    if (m.capacity != ~0ull) CHECK(c->size() <= cap, "never more than the capacity");
    same(*c, m);
  }
  delete c;
}
extern "C" void lru_filter(long arg) {
  int kind = arg / 100; uint64_t cap = arg / 10 % 10; long n = arg % 10;
  int64_t ttl; start(&ttl, kind);
  typedef LruCache<uint8_t, void> C;
  C* c = kind == 0 ? new C(cap) : kind == 1 ? new C(SC::duration(ttl)) : new C(cap, SC::duration(ttl));
  Model m;
  m.capacity = kind == 1 ? ~0ull : cap; m.ttl = ttl;
  for (long i = 0; i < n; ++i) {
    uint8_t k = sym_u8("key");
    tick();
    c->Add(k);
    m.add(k, 0);
    same(*c, m);
    REACH("added");
  }
  delete c;
}
// keys and values that own memory
extern "C" void lru_strings(long n) {
  int64_t ttl; start(&ttl, 0);
  LruCache<std::string, std::string> c(2);
  std::string a = sym_string("a", n), b = sym_string("b", n), d = sym_string("d", n + 1), va = sym_string("va", 17), vb = sym_string("vb", 1), vd = sym_string("vd", 20);
  c.Add(a, va);
  c.Add(b, vb);
  bool same = same_content(a, b);
  CHECK(c.size() == (same ? 1u : 2u), "the number of entries");
  auto r = c.Get(a);
  CHECK(r.valid() && same_content(*r, va), "a get returns the value added for that key");
  c.Add(d, vd);
  CHECK(c.Get(d).valid() && same_content(*c.Get(d), vd), "the newest entry is held");
  CHECK(c.Get(a).valid() && same_content(*c.Get(a), va), "the entry used last stays");
  CHECK(c.Check(b) == same, "the least recently used entry went");
  REACH("strings");
}
