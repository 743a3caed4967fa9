// Binary archives: round trips, truncation and arbitrary input.
#include "util.h"
#include "alloc_limit.h"
#include <array>
#include <map>
#include "cereal/types/map.hpp"
#include "cereal/types/utility.hpp"
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/tagged_value.h"
#include "maidsafe/common/identity.h"
#include "maidsafe/common/data_types/data.h"
#include "maidsafe/common/serialisation/types/asio_and_boost_asio.h"
#include "maidsafe/common/serialisation/types/boost_filesystem.h"
using namespace maidsafe;
typedef std::vector<byte> Bytes;
template <typename T> static Bytes raw(const T& t) { Bytes b(sizeof t); memcpy(b.data(), &t, sizeof t); return b; }
template <typename T> static bool same(const T& a, const T& b) { return raw(a) == raw(b); }

template <typename T>
static void number(T v) {
  Bytes s = Serialise(v);
  CHECK(s.size() == sizeof(T), "a number takes its own size");
  CHECK(same_content(s, raw(v)), "and is stored as it is in memory");
  T w = Parse<T>(s), x = T();
  Parse(s, x);
  CHECK(same_content(raw(w), raw(v)) && same_content(raw(x), raw(v)), "the number comes back");
  for (size_t k = 0; k < s.size(); ++k) {
    Bytes cut(s.begin(), s.begin() + k);
    CHECK(outcome([&] { Parse<T>(cut); }, CommonErrors::unknown) == 3, "a truncated number is refused");
  }
  REACH("number");
}
// what can be said about any type: T comes back, every proper prefix is refused, trailing bytes are left alone
template <typename T, typename Eq>
static Bytes round(const T& t, Eq eq) {
  Bytes s = Serialise(t);
  T u;
  CHECK(outcome([&] { u = Parse<T>(s); }, CommonErrors::unknown) == 0, "what was serialised can be parsed");
  CHECK(eq(t, u), "and gives back an equal value");
  CHECK(same_content(Serialise(u), s), "which serialises alike");
  for (size_t k = 0; k < s.size(); ++k) {
    Bytes cut(s.begin(), s.begin() + k);
    CHECK(outcome([&] { Parse<T>(cut); }, CommonErrors::unknown) >= 2, "a truncated value is refused");
  }
  Bytes more(s);
  more.push_back(sym_u8("extra"));
  T v;
  Parse(more, v);
  CHECK(eq(t, v), "bytes after the value do not change it");
  REACH("round");
  return s;
}
// arbitrary input: an exception, or a value whose serialised form is what was read
template <typename T, typename Ok>
static void hostile(size_t n, Ok ok) {
  Bytes in = sym_vec("in", n);
  verif_alloc_limit = 100;
  T t;
  int o = outcome([&] { t = Parse<T>(in); }, CommonErrors::parsing_error);
  verif_alloc_limit = ~(size_t)0;
  if (o) { REACH("refused"); return; }
  CHECK(ok(t), "an accepted value is a valid one");
  Bytes s = Serialise(t);
  CHECK(s.size() <= n && same_bytes(s.data(), in.data(), s.size()), "it is exactly what the input says");
  REACH("accepted");
}
extern "C" void ar_numbers(long) {
  number<uint8_t>(sym_u8("v"));
  number<int8_t>((int8_t)sym_u8("v"));
  number<uint16_t>(sym_u16("v"));
  number<int16_t>((int16_t)sym_u16("v"));
  number<uint32_t>(sym_u32("v"));
  number<int32_t>(sym_i32("v"));
  number<uint64_t>(sym_u64("v"));
  number<int64_t>((int64_t)sym_u64("v"));
  number<bool>(sym_bool("v"));
  number<char>((char)sym_u8("v"));
}

static std::string text(size_t n) { return sym_string("text", n); }
typedef detail::BoundedString<1, 3> Bounded;
typedef detail::BoundedString<2, 3, std::vector<byte>> BoundedBytes;
typedef TaggedValue<uint32_t, struct ArTag> Tagged;
struct Equal { template <typename T> bool operator()(const T& a, const T& b) const { return a == b; } };
struct Valid { template <typename T> bool operator()(const T&) const { return true; } };
struct InBounds {
  bool operator()(const Bounded& b) const { return b.IsInitialised() && b.string().size() >= 1 && b.string().size() <= 3; }
  bool operator()(const BoundedBytes& b) const { return b.IsInitialised() && b.string().size() >= 2 && b.string().size() <= 3; }
  bool operator()(const Identity& b) const { return b.IsInitialised() && b.string().size() == 64; }
};
extern "C" void ar_string(long n) {
  std::string t = text(n);
  Bytes s = round(t, Equal());
  CHECK(s.size() == 8 + (size_t)n && same_bytes(s.data() + 8, t.data(), n), "length and characters");
}
extern "C" void ar_bytes(long n) { round(sym_vec("bytes", n), Equal()); }
extern "C" void ar_vector(long n) {
  std::vector<uint32_t> v;
  for (long i = 0; i < n; ++i) v.push_back(sym_u32("e"));
  round(v, Equal());
}
extern "C" void ar_strings(long a) {
  std::vector<std::string> v;
  for (; a; a /= 10) v.push_back(text(a % 10 - 1));
  round(v, Equal());
}
extern "C" void ar_map(long n) {
  std::map<uint8_t, std::string> m;
  for (long i = 0; i < n; ++i) m[sym_u8("key")] = text(i % 3);
  round(m, Equal());
}
extern "C" void ar_bounded(long n) {
  Bounded b(text(n));
  Bytes s = round(b, Equal());
  CHECK(same_content(s, Serialise(b.string())), "stored like the text itself");
  CHECK(outcome([&] { Serialise(Bounded()); }, CommonErrors::uninitialised) == 1, "an uninitialised value cannot be stored");
  if (n > 1) round(BoundedBytes(sym_vec("bytes", n)), Equal());
}
// a text outside the bounds is not accepted
extern "C" void ar_outside(long n) {
  Bytes s = Serialise(text(n));
  bool fits = n >= 1 && n <= 3;
  Bounded b;
  CHECK(outcome([&] { b = Parse<Bounded>(s); }, CommonErrors::parsing_error) == !fits, "only texts within the bounds");
  CHECK(b.IsInitialised() == fits, "nothing is taken otherwise");
  REACH("outside");
}
extern "C" void ar_identity(long) {
  Identity i(sym_vec("id", 64));
  Bytes s = Serialise(i);
  Identity j = Parse<Identity>(s);
  CHECK(s.size() == 72 && i == j && same_content(Serialise(j), s), "the identity comes back");
  for (size_t k : {0, 7, 8, 71}) { Bytes cut(s.begin(), s.begin() + k); CHECK(outcome([&] { Parse<Identity>(cut); }, CommonErrors::parsing_error) == 1, "a truncated identity is refused"); }
  CHECK(outcome([&] { Serialise(Identity()); }, CommonErrors::uninitialised) == 1, "no identity, nothing to store");
  REACH("identity");
}
extern "C" void ar_tagged(long) {
  round(Tagged(sym_u32("t")), Equal());
  uint32_t t = sym_u32("type");
  Data::NameAndTypeId k(Identity(sym_vec("id", 64)), DataTypeId(t)), l;
  Bytes s = Serialise(k);
  Parse(s, l);
  CHECK(k == l && s.size() == 76, "name and type come back");
  s.resize(75);
  CHECK(outcome([&] { Parse<Data::NameAndTypeId>(s); }, CommonErrors::unknown) >= 2, "a truncated key is refused");
}
extern "C" void ar_error(long) {
  int n = sym_i32("n");
  Bytes s = Serialise(n);
  int o = outcome([&] {
    maidsafe_error e;
    Parse(s, e);
    CHECK(ErrorToInt(e) == n, "the error of that integer");
    CHECK(same_content(Serialise(e), s), "stored as its integer");
    REACH("known");
  }, CommonErrors::parsing_error);
  CHECK(o == (n > -100000 || n <= -1100000), "other integers are not errors");
}
// several objects in one go: in order, and the second is intact whatever the first is
extern "C" void ar_many(long a) {
  uint32_t x = sym_u32("x");
  std::string t = text(a);
  uint8_t y = sym_u8("y");
  Bytes s = Serialise(x, t, y);
  uint32_t x2 = 0;
  std::string t2;
  uint8_t y2 = 0;
  Parse(s, x2, t2, y2);
  CHECK(x2 == x && t2 == t && y2 == y, "all objects come back in order");
  Bytes parts = Serialise(x), p2 = Serialise(t), p3 = Serialise(y);
  parts.insert(parts.end(), p2.begin(), p2.end());
  parts.insert(parts.end(), p3.begin(), p3.end());
  CHECK(same_content(s, parts), "one after the other");
  InputVectorStream in(s);
  CHECK(Parse<uint32_t>(in) == x && Parse<std::string>(in) == t && Parse<uint8_t>(in) == y, "or one at a time from one stream");
  CHECK(outcome([&] { Parse<uint8_t>(in); }, CommonErrors::unknown) == 3, "and then it is exhausted");
  OutputVectorStream out;
  Serialise(out, x);
  CHECK(same_content(Serialise(out, t, y), s), "a stream that is used again goes on where it was");
  REACH("many");
}
// the text flavour
extern "C" void ar_text(long a) {
  uint32_t x = sym_u32("x");
  std::string t = text(a);
  std::string s = ConvertToString(x, t);
  Bytes b = Serialise(x, t);
  CHECK(same_content(s, b), "both flavours write the same bytes");
  uint32_t x2 = 0;
  std::string t2;
  ConvertFromString(s, x2, t2);
  CHECK(x2 == x && t2 == t, "and read them back");
  CHECK(ConvertFromString<uint32_t>(s) == x, "one at a time too");
  std::stringstream st(s);
  CHECK(ConvertFromStream<uint32_t>(st) == x && ConvertFromStream(st, t2) == t, "from one stream");
  for (size_t k = 0; k < s.size(); ++k) CHECK(outcome([&] { ConvertFromString(s.substr(0, k), x2, t2); }, CommonErrors::unknown) == 3, "truncated text is refused");
  REACH("text");
}
extern "C" void ar_hostile_string(long n) { hostile<std::string>(n, Valid()); }
extern "C" void ar_hostile_vector(long n) { hostile<std::vector<uint16_t>>(n, Valid()); }
extern "C" void ar_hostile_map(long n) {
  Bytes in = sym_vec("in", n);
  verif_alloc_limit = 100;
  std::map<uint8_t, uint8_t> m;
  int o = outcome([&] { m = Parse<std::map<uint8_t, uint8_t>>(in); }, CommonErrors::parsing_error);
  verif_alloc_limit = ~(size_t)0;
  if (o) { CHECK(o == 3, "archive exception"); REACH("refused"); return; }
  for (size_t i = 0; i < m.size(); ++i) CHECK(m.count(in[8 + 2 * i]), "the keys are those of the input");
  REACH("accepted");
}
extern "C" void ar_hostile_bounded(long n) { hostile<Bounded>(n, InBounds()); }
extern "C" void ar_hostile_boundedbytes(long n) { hostile<BoundedBytes>(n, InBounds()); }
extern "C" void ar_hostile_identity(long n) { hostile<Identity>(n, InBounds()); }

extern "C" void ar_path(long n) {
  boost::filesystem::path p(text(n)), q;
  Bytes s = Serialise(p);
  Parse(s, q);
  CHECK(p.native() == q.native() && same_content(s, Serialise(p.native())), "a path is stored as its text and comes back");
  REACH("path");
}
template <typename A, typename V4, typename V6>
static void address(bool v6) {
  Bytes raw = sym_vec("address", v6 ? 16 : 4);
  A a, b;
  if (v6) { typename V6::bytes_type t; std::copy(raw.begin(), raw.end(), t.begin()); a = V6(t); } else { typename V4::bytes_type t; std::copy(raw.begin(), raw.end(), t.begin()); a = V4(t); }
  Bytes s = Serialise(a);
  CHECK(s.size() == raw.size() + 1 && s[0] == raw.size() && same_bytes(&s[1], &raw[0], raw.size()), "one byte for the kind, then the address");
  Parse(s, b);
  CHECK(b.is_v6() == v6 && same_content(Serialise(b), s), "the address comes back");
  for (size_t k = 0; k < s.size(); ++k) { Bytes cut(s.begin(), s.begin() + k); CHECK(outcome([&] { Parse<A>(cut); }, CommonErrors::unknown) == 3, "a truncated address is refused"); }
  s[0] = sym_u8("kind");
  int o = outcome([&] { b = Parse<A>(s); }, CommonErrors::parsing_error);
  CHECK(o == (s[0] == 4 ? 0 : s[0] == 16 ? (v6 ? 0 : 3) : 1), "an unknown kind is refused");
  REACH("address");
}
extern "C" void ar_address(long v6) { address<asio::ip::address, asio::ip::address_v4, asio::ip::address_v6>(v6); }
extern "C" void ar_boost_address(long v6) { address<boost::asio::ip::address, boost::asio::ip::address_v4, boost::asio::ip::address_v6>(v6); }
