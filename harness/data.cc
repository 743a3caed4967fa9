// TaggedValue and Data::NameAndTypeId comparisons, Data accessors.
#include "util.h"
#include "maidsafe/common/tagged_value.h"
#include "maidsafe/common/data_types/data.h"
#include <map>
using namespace maidsafe;
typedef Data::NameAndTypeId Key;

template <typename T>
static void order(const T& a, const T& b, int want) {
  CHECK((a == b) == (want == 0), "== agrees with the contents");
  CHECK((a != b) == (want != 0), "!= agrees with the contents");
  CHECK((a < b) == (want < 0), "< agrees with the contents");
  CHECK((a > b) == (want > 0), "> agrees with the contents");
  CHECK((a <= b) == (want <= 0), "<= agrees with the contents");
  CHECK((a >= b) == (want >= 0), ">= agrees with the contents");
}
extern "C" void tv_order(long) {
  uint64_t x = sym_u64("x"), y = sym_u64("y");
  MemoryUsage a(x), b(y);
  order(a, b, (x > y) - (x < y));
  int32_t p = sym_i32("p"), q = sym_i32("q");
  typedef TaggedValue<int32_t, struct SignedTag> Signed;
  Signed s(p), t(q);
  order(s, t, (p > q) - (p < q));
  Signed u(s);
  Signed v(std::move(u));
  u = t;
  CHECK((int32_t)v == p && (int32_t)u == q && v.data == p && *v.operator->() == p, "copies, moves and conversions keep the value");
  u = std::move(v);
  CHECK(u.data == p, "move assignment keeps the value");
  REACH("order");
}
extern "C" void tv_string(long n) {
  typedef TaggedValue<std::string, struct TextTag> Text;
  std::string x = sym_string("x", n / 4), y = sym_string("y", n % 4);
  Text a(x), b(y);
  order(a, b, lex(x, y));
  Text c(b);
  c = a;
  CHECK(c->size() == x.size() && c == a, "assignment copies the content");
  REACH("order");
}
static Identity id(const char* n, std::vector<unsigned char>* raw) {
  *raw = sym_vec(n, 64);
  return Identity(*raw);
}
extern "C" void key_order(long mode) {
  std::vector<unsigned char> ra, rb;
  Identity ia, ib;
  if (mode & 1) ia = id("a", &ra);
  if (mode & 2) ib = id("b", &rb);
  uint32_t ta = sym_u32("ta"), tb = sym_u32("tb");
  Key a(ia, DataTypeId(ta)), b(ib, DataTypeId(tb));
  int t = (ta > tb) - (ta < tb);
  int n = mode == 3 ? lex(ra, rb) : mode == 0 ? 0 : mode == 1 ? 1 : -1;
  order(a, b, n ? n : t);
  Key c(a);
  Key d(std::move(c));
  CHECK(d == a, "copy then move keeps the key");
  c = b;
  CHECK(c == b, "assignment keeps the key");
  c = std::move(d);
  CHECK(c == a, "move assignment keeps the key");
  REACH("order");
}
// symmetric use as a map key: lookup finds exactly the equal key
extern "C" void key_map(long) {
  std::vector<unsigned char> ra(64, 1), rb(64, 1);
  ra[0] = sym_u8("a0"); rb[0] = sym_u8("b0");
  ra[63] = sym_u8("a63"); rb[63] = sym_u8("b63");
  uint32_t ta = sym_u32("ta"), tb = sym_u32("tb");
  std::map<Key, int> m;
  m[Key(Identity(ra), DataTypeId(ta))] = 1;
  m[Key(Identity(rb), DataTypeId(tb))] = 2;
  bool eq = same_content(ra, rb) && ta == tb;
  CHECK(m.size() == (eq ? 1u : 2u), "equal keys share one entry, different ones do not");
  CHECK(m[Key(Identity(rb), DataTypeId(tb))] == 2, "lookup by the second key");
  CHECK(m[Key(Identity(ra), DataTypeId(ta))] == (eq ? 2 : 1), "lookup by the first key");
  REACH(eq ? "same" : "different");
}
struct Datum : Data {
  Datum() {}
  explicit Datum(Identity n, uint32_t t) : Data(std::move(n)), type(t) {}
  std::uint32_t ThisTypeId() const { return type; }
  uint32_t type = 0;
};
extern "C" void data_access(long) {
  Datum none;
  CHECK(!none.IsInitialised(), "default is uninitialised");
  CHECK(outcome([&] { none.Name(); }, CommonErrors::uninitialised) == 1, "Name of an uninitialised datum throws uninitialised");
  CHECK(outcome([&] { none.TypeId(); }, CommonErrors::uninitialised) == 1, "TypeId of an uninitialised datum throws uninitialised");
  CHECK(outcome([&] { none.NameAndType(); }, CommonErrors::uninitialised) == 1, "NameAndType of an uninitialised datum throws uninitialised");
  CHECK(outcome([&] { Datum x{Identity(), 1}; }, CommonErrors::uninitialised) == 1, "construction from an uninitialised name throws uninitialised");
  std::vector<unsigned char> raw;
  Identity i = id("a", &raw);
  uint32_t t = sym_u32("type");
  Datum d(i, t);
  CHECK(d.IsInitialised() && same_content(d.Name().string(), raw), "Name is the name given");
  CHECK(d.TypeId().data == t, "TypeId is the derived type's id");
  CHECK(same_content(d.NameAndType().name.string(), raw) && d.NameAndType().type_id.data == t, "NameAndType combines both");
  Datum e(d), f;
  f = d;
  CHECK(same_content(e.Name().string(), raw) && same_content(f.Name().string(), raw), "copies keep the name");
  Datum g(std::move(e));
  Datum h;
  h = std::move(f);
  CHECK(same_content(g.Name().string(), raw) && same_content(h.Name().string(), raw), "moves keep the name");
  CHECK(!e.IsInitialised() && !f.IsInitialised(), "moved-from data are uninitialised");
  REACH("access");
}
