// ImmutableData / MutableData: names, values, serialisation. The digest is a stand-in (injective on short content).
#include "util.h"
#include "hash_stub.h"
#include "alloc_limit.h"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/data_types/immutable_data.h"
#include "maidsafe/common/data_types/mutable_data.h"
using namespace maidsafe;
typedef std::vector<byte> Bytes;
static Bytes digest(const Bytes& v) { return crypto::Hash<crypto::SHA512>(v).string(); }
static bool matches(const ImmutableData& d) { return same_content(d.Name().string(), digest(d.Value().string())); }
template <typename D>
static void refuses(const D& d) {
  CHECK(!d.IsInitialised(), "not initialised");
  CHECK(outcome([&] { d.Name(); }, CommonErrors::uninitialised) == 1, "no name");
  CHECK(outcome([&] { d.Value(); }, CommonErrors::uninitialised) == 1, "no value");
  CHECK(outcome([&] { d.TypeId(); }, CommonErrors::uninitialised) == 1, "no type");
  CHECK(outcome([&] { d.NameAndType(); }, CommonErrors::uninitialised) == 1, "no key");
  CHECK(outcome([&] { Serialise(d); }, CommonErrors::uninitialised) == 1, "nothing to store");
}
template <typename D>
static void holds(const D& d, const Bytes& name, const Bytes& value, uint32_t type) {
  CHECK(d.IsInitialised() && same_content(d.Name().string(), name) && same_content(d.Value().string(), value), "name and value are kept");
  CHECK((uint32_t)d.TypeId() == type && d.NameAndType().name == d.Name() && d.NameAndType().type_id == d.TypeId(), "and so is the type");
}
// copies, moves and the archive keep both fields
template <typename D>
static void copies(D& d, const Bytes& name, const Bytes& value, uint32_t type) {
  holds(d, name, value, type);
  D c(d), e;
  refuses(e);
  e = c;
  holds(c, name, value, type);
  holds(e, name, value, type);
  D m(std::move(c));
  holds(m, name, value, type);
  if (c.IsInitialised()) holds(c, name, value, type); else refuses(c);
  D n;
  n = std::move(m);
  holds(n, name, value, type);
  Bytes s = Serialise(n);
  D p = Parse<D>(s);
  holds(p, name, value, type);
  CHECK(same_content(Serialise(p), s), "stored alike again");
  for (size_t k : {size_t(0), size_t(7), size_t(8), size_t(71), size_t(72), size_t(79), s.size() - 1}) {
    Bytes cut(s.begin(), s.begin() + k);
    CHECK(outcome([&] { Parse<D>(cut); }, CommonErrors::parsing_error) == 1, "truncated data is refused");
  }
}
extern "C" void im_make(long n) {
  Bytes v = sym_vec("value", n);
  NonEmptyString value(v);
  ImmutableData d(value);
  copies(d, digest(v), v, 0);
  REACH("made");
}
extern "C" void im_empty(long) {
  refuses(ImmutableData());
  refuses(MutableData());
  CHECK(outcome([] { ImmutableData d{NonEmptyString()}; }, CommonErrors::uninitialised) == 1, "no content, no data");
  Identity id(sym_vec("name", 64));
  CHECK(outcome([&] { MutableData d(id, NonEmptyString()); }, CommonErrors::uninitialised) == 1, "no value, no data");
  CHECK(outcome([&] { MutableData d(Identity(), NonEmptyString(Bytes(1, 1))); }, CommonErrors::uninitialised) == 1, "no name, no data");
  CHECK(outcome([&] { MutableData d{Identity(), NonEmptyString()}; }, CommonErrors::uninitialised) == 1, "nothing, no data");
  REACH("empty");
}
extern "C" void mu_make(long n) {
  Bytes v = sym_vec("value", n), name = sym_vec("name", 64);
  MutableData d{Identity(name), NonEmptyString(v)};
  copies(d, name, v, 1);
  REACH("made");
}
static Bytes stored(const Bytes& name, const Bytes& value) {
  Bytes s = Serialise(name), t = Serialise(value);
  s.insert(s.end(), t.begin(), t.end());
  return s;
}
// any name and content in serialised form; parsed into an empty and into a full instance
extern "C" void im_parse(long n) {
  Bytes v = sym_vec("value", n), name = sym_vec("name", 64), old(2, 7);
  Bytes s = stored(name, v);
  bool good = n > 0 && same_content(name, digest(v));
  ImmutableData fresh, full{NonEmptyString(old)};
  for (ImmutableData* d : {&fresh, &full}) {
    int o = outcome([&] { Parse(s, *d); }, CommonErrors::parsing_error);
    CHECK(o == (good ? 0 : 1), "accepted exactly if the name is the digest of the content");
    if (good) { holds(*d, name, v, 0); REACH("good"); continue; }
    REACH("bad");
    if (d->IsInitialised()) CHECK(matches(*d), "a refused input never leaves a name that does not match the content");
    else refuses(*d);
  }
}
extern "C" void mu_parse(long n) {
  Bytes v = sym_vec("value", n), name = sym_vec("name", 64), old(2, 7), oldname = sym_vec("oldname", 64);
  Bytes s = stored(name, v);
  MutableData fresh, full{Identity(oldname), NonEmptyString(old)};
  CHECK(outcome([&] { Parse(s, fresh); }, CommonErrors::parsing_error) == (n == 0), "only data with a value");
  CHECK(outcome([&] { Parse(s, full); }, CommonErrors::parsing_error) == (n == 0), "only data with a value");
  if (n) { holds(fresh, name, v, 1); holds(full, name, v, 1); }
  else { refuses(fresh); holds(full, oldname, old, 1); }
  REACH("parsed");
}
// arbitrary bytes after a well-formed name
template <typename D>
static void hostile(long n) {
  Bytes name = sym_vec("name", 64), s = Serialise(name), tail = sym_vec("tail", n);
  s.insert(s.end(), tail.begin(), tail.end());
  D d;
  verif_alloc_limit = 300;
  int o = outcome([&] { Parse(s, d); }, CommonErrors::parsing_error);
  verif_alloc_limit = ~(size_t)0;
  CHECK(o == 0 || o == 1, "a value or a parsing error");
  if (o) { refuses(d); REACH("refused"); return; }
  CHECK(d.IsInitialised() && same_content(d.Name().string(), name) && d.Value().string().size() >= 1, "an accepted value is a whole one");
  Bytes back = Serialise(d);
  CHECK(back.size() <= s.size() && same_bytes(back.data(), s.data(), back.size()), "it is exactly what the input says");
  REACH("accepted");
}
extern "C" void im_hostile(long n) { hostile<ImmutableData>(n); }
extern "C" void mu_hostile(long n) { hostile<MutableData>(n); }
// assignments between every combination of initialised and uninitialised instances
template <typename D>
static void same_as(const D& d, bool init, const Bytes& name, const Bytes& value, uint32_t type) {
  if (init) holds(d, name, value, type); else refuses(d);
}
template <typename D, typename Make>
static void assignments(Make make, uint32_t type) {
  Bytes v1 = sym_vec("v1", 2), v2 = sym_vec("v2", 3);
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
    D x, y;
    Bytes n1(64), n2(64);
    if (a) { D t = make(v1); n1 = t.Name().string(); x = t; }
    if (b) { D t = make(v2); n2 = t.Name().string(); y = t; }
    same_as(x, a, n1, v1, type); same_as(y, b, n2, v2, type);
    { D c(x); c = y; same_as(c, b, n2, v2, type); same_as(y, b, n2, v2, type); c = x; same_as(c, a, n1, v1, type); same_as(x, a, n1, v1, type); }
    { D c(x), m(y); c = std::move(m); same_as(c, b, n2, v2, type); if (m.IsInitialised()) holds(m, n2, v2, type); else refuses(m);
      m = x; same_as(m, a, n1, v1, type);  // a moved-from instance can be given a new value
      D k(std::move(c)); same_as(k, b, n2, v2, type); }
    { D c(x); const D& r = c; c = r; same_as(c, a, n1, v1, type); }
    { D c(x), d(y); std::swap(c, d); same_as(c, b, n2, v2, type); same_as(d, a, n1, v1, type); }
    if (a && b) {
      auto kx = x.NameAndType(), ky = y.NameAndType(), kz = kx;
      kz = ky;
      CHECK(kz == ky, "a key assigned"); CHECK((kz == kx) == same_content(n1, n2), "a key is its name and type");
      kz = std::move(kx);
      CHECK(kz.name == x.Name() && kz.type_id == x.TypeId(), "a key moved");
    }
  }
  REACH("assigned");
}
extern "C" void im_assign(long) { assignments<ImmutableData>([](const Bytes& v) { return ImmutableData(NonEmptyString(v)); }, 0); }
extern "C" void mu_assign(long) {
  Bytes name = sym_vec("name", 64), other = sym_vec("other", 64);
  assignments<MutableData>([&](const Bytes& v) { return MutableData(Identity(v.size() == 2 ? name : other), NonEmptyString(v)); }, 1);
}
