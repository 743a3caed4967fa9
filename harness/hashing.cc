// Hash framework: the byte stream handed to the algorithm is a function of the value, and injective per type.
#include "util.h"
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <tuple>
#include "cereal/cereal.hpp"
#include "maidsafe/common/hash/hash_algorithms.h"
#include "maidsafe/common/hash/hash_array.h"
#include "maidsafe/common/hash/hash_contiguous.h"
#include "maidsafe/common/hash/hash_data_range.h"
#include "maidsafe/common/hash/hash_forward_list.h"
#include "maidsafe/common/hash/hash_initializer_list.h"
#include "maidsafe/common/hash/hash_iterator_range.h"
#include "maidsafe/common/hash/hash_list.h"
#include "maidsafe/common/hash/hash_map.h"
#include "maidsafe/common/hash/hash_numeric.h"
#include "maidsafe/common/hash/hash_pair.h"
#include "maidsafe/common/hash/hash_range.h"
#include "maidsafe/common/hash/hash_set.h"
#include "maidsafe/common/hash/hash_string.h"
#include "maidsafe/common/hash/hash_string_ref.h"
#include "maidsafe/common/hash/hash_tuple.h"
#include "maidsafe/common/hash/hash_vector.h"
using namespace maidsafe;

// an algorithm that keeps the stream
namespace maidsafe {
struct Recorder : detail::HashAlgorithmBase<Recorder> {
  std::vector<unsigned char> s;
  void Update(const byte* p, std::uint64_t n) { s.insert(s.end(), p, p + n); }
};
}
template <typename... T>
static std::vector<unsigned char> stream(const T&... v) {
  Recorder r;
  r(v...);
  return r.s;
}
static std::array<byte, 16> key() {
  std::array<byte, 16> k;
  for (int i = 0; i < 16; ++i) k[i] = (byte)(i * 7 + 1);
  return k;
}
template <typename T>
static void distinct(const T& a, const T& b, bool equal) {
  auto x = stream(a), y = stream(b);
  CHECK(same_content(x, y) == equal, "streams are equal exactly when the values are equal");
  T c(a);
  CHECK(same_content(stream(c), x), "a copy gives the same stream");
  SipHash h1(key()), h2(key());
  h1(a); h2.Update(x.data(), x.size());
  CHECK(h1.Finalize() == h2.Finalize(), "the hash is the algorithm applied to the stream");
  // appending two values is appending their streams
  auto z = stream(a, b);
  std::vector<unsigned char> w(x);
  w.insert(w.end(), y.begin(), y.end());
  CHECK(same_content(z, w), "hashing several values appends their streams");
  Recorder r;
  r & a & b;
  CHECK(same_content(r.s, w), "operator& appends");
  REACH("compared");
}
template <typename T> static T sym(const char* n) { return (T)__sym_var(n, sizeof(T) * 8); }
template <typename T> static void ints() { T a = sym<T>("a"), b = sym<T>("b"); distinct(a, b, a == b); }

extern "C" void h_ints(long k) {
  switch (k) {
    case 0: ints<uint8_t>(); break;
    case 1: ints<int8_t>(); break;
    case 2: ints<uint16_t>(); break;
    case 3: ints<int16_t>(); break;
    case 4: ints<uint32_t>(); break;
    case 5: ints<int32_t>(); break;
    case 6: ints<uint64_t>(); break;
    case 7: ints<int64_t>(); break;
    case 8: { bool a = sym_bool("a"), b = sym_bool("b"); distinct(a, b, a == b); break; }
    case 9: ints<char16_t>(); break;
    case 10: ints<char32_t>(); break;
  }
}
template <typename F, typename U> static void floats() {
  F a, b;
  U x = sym<U>("a"), y = sym<U>("b");
  memcpy(&a, &x, sizeof a); memcpy(&b, &y, sizeof b);
  sym_assume(a == a && b == b);  // not NaN
  distinct(a, b, a == b);
}
extern "C" void h_floats(long k) { k ? floats<double, uint64_t>() : floats<float, uint32_t>(); }
extern "C" void h_pairs(long k) {
  if (k == 0) {
    std::pair<uint32_t, uint32_t> a(sym_u32("a"), sym_u32("b")), b(sym_u32("c"), sym_u32("d"));
    distinct(a, b, a.first == b.first && a.second == b.second);
  } else if (k == 1) {  // with padding, whose content is arbitrary
    typedef std::pair<uint8_t, uint64_t> P;
    alignas(P) unsigned char r[2][sizeof(P)];
    __sym_bytes(r, sizeof r, "padding");
    P* a = new (r[0]) P; P* b = new (r[1]) P;
    a->first = sym_u8("a"); a->second = sym_u64("b"); b->first = sym_u8("c"); b->second = sym_u64("d");
    distinct(*a, *b, a->first == b->first && a->second == b->second);
  } else if (k == 2) {
    typedef std::tuple<uint8_t, uint32_t, uint16_t> T;
    T a(sym_u8("a"), sym_u32("b"), sym_u16("c")), b(sym_u8("d"), sym_u32("e"), sym_u16("f"));
    distinct(a, b, std::get<0>(a) == std::get<0>(b) && std::get<1>(a) == std::get<1>(b) && std::get<2>(a) == std::get<2>(b));
  } else if (k == 3) {  // a contiguous vector of padded pairs
    typedef std::pair<uint16_t, uint32_t> P;
    std::vector<P> a(2), b(2);
    for (auto& p : a) p = P(sym_u16("a"), sym_u32("b"));
    for (auto& p : b) p = P(sym_u16("c"), sym_u32("d"));
    bool eq = true;
    for (int i = 0; i < 2; ++i) eq &= a[i].first == b[i].first && a[i].second == b[i].second;
    distinct(a, b, eq);
  } else {  // nested
    typedef std::pair<std::pair<uint16_t, uint16_t>, std::tuple<uint8_t, std::string>> T;
    T a(std::make_pair(sym_u16("a"), sym_u16("b")), std::make_tuple(sym_u8("c"), sym_string("s", k - 4)));
    T b(std::make_pair(sym_u16("d"), sym_u16("e")), std::make_tuple(sym_u8("f"), sym_string("t", 1)));
    distinct(a, b, a.first.first == b.first.first && a.first.second == b.first.second && std::get<0>(a.second) == std::get<0>(b.second) &&
                       same_content(std::get<1>(a.second), std::get<1>(b.second)));
  }
}
// sequences of lengths n/10 and n%10
template <typename C> static C seq(const char* n, size_t len) {
  C c;
  for (size_t i = 0; i < len; ++i) c.push_back(sym<typename C::value_type>(n));
  return c;
}
template <typename C> static bool eqseq(const C& a, const C& b) {
  if (std::distance(a.begin(), a.end()) != std::distance(b.begin(), b.end())) return false;
  bool r = true;
  auto j = b.begin();
  for (auto i = a.begin(); i != a.end(); ++i, ++j) r &= *i == *j;
  return r;
}
template <typename C> static void sequences(long n) { C a = seq<C>("a", n / 10), b = seq<C>("b", n % 10); distinct(a, b, eqseq(a, b)); }
extern "C" void h_vector(long n) { sequences<std::vector<uint8_t>>(n); sequences<std::vector<uint32_t>>(n); }
extern "C" void h_string(long n) {
  std::string a = sym_string("a", n / 10), b = sym_string("b", n % 10);
  distinct(a, b, same_content(a, b));
  boost::string_ref ra(a), rb(b);
  distinct(ra, rb, same_content(a, b));
  CHECK(same_content(stream(ra), stream(a)), "a reference to a string hashes like the string");
  sequences<std::u16string>(n);
}
extern "C" void h_list(long n) { sequences<std::list<uint16_t>>(n); }
extern "C" void h_flist(long n) {
  std::forward_list<uint16_t> a, b;
  for (long i = 0; i < n / 10; ++i) a.push_front(sym_u16("a"));
  for (long i = 0; i < n % 10; ++i) b.push_front(sym_u16("b"));
  distinct(a, b, eqseq(a, b));
}
extern "C" void h_array(long n) {
  std::array<uint16_t, 3> a, b;
  uint16_t c[3], d[3];
  for (int i = 0; i < 3; ++i) { a[i] = c[i] = sym_u16("a"); b[i] = d[i] = sym_u16("b"); }
  bool eq = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
  distinct(a, b, eq);
  CHECK(same_content(stream(c), stream(d)) == eq, "C arrays: streams are equal exactly when the elements are");
  std::array<std::string, 2> s, t;
  s[0] = sym_string("s", n / 10); s[1] = sym_string("s", n % 10);
  t[0] = sym_string("t", n % 10); t[1] = sym_string("t", n / 10);
  distinct(s, t, same_content(s[0], t[0]) && same_content(s[1], t[1]));
}
extern "C" void h_ilist(long) {
  uint32_t x = sym_u32("x"), y = sym_u32("y");
  std::initializer_list<uint32_t> a{x, 7}, b{y, 7}, c{x}, d{};
  distinct(a, b, x == y);
  distinct(a, c, false);
  distinct(c, d, false);
  std::vector<uint32_t> v{x, 7}, w{y, 7, 9};
  auto p = boost::make_iterator_range(v.begin(), v.end()), q = boost::make_iterator_range(w.begin(), w.begin() + 2);
  distinct(p, q, x == y);
  std::initializer_list<std::string> s{std::string(1, (char)x)}, t{std::string(1, (char)y)};
  distinct(s, t, (char)x == (char)y);
}
extern "C" void h_set(long n) {
  std::set<uint8_t> a, b;
  for (long i = 0; i < n / 10; ++i) a.insert(sym_u8("a"));
  for (long i = 0; i < n % 10; ++i) b.insert(sym_u8("b"));
  distinct(a, b, eqseq(a, b));
}
extern "C" void h_map(long n) {
  std::map<uint8_t, uint16_t> a, b;
  for (long i = 0; i < n / 10; ++i) { uint8_t k = sym_u8("ak"); a[k] = sym_u16("av"); }
  for (long i = 0; i < n % 10; ++i) { uint8_t k = sym_u8("bk"); b[k] = sym_u16("bv"); }
  bool eq = a.size() == b.size();
  if (eq) { auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) eq &= (i->first == j->first) & (i->second == j->second); }
  distinct(a, b, eq);
}
// two neighbouring containers: the same elements split differently differ
extern "C" void h_neighbours(long n) {
  long la = n / 100, lb = n / 10 % 10, lc = n % 10, ld = la + lb - lc;
  if (ld < 0) return;
  {
    typedef std::pair<std::string, std::string> P;
    P p(sym_string("a", la), sym_string("b", lb)), q(sym_string("c", lc), sym_string("d", ld));
    distinct(p, q, same_content(p.first, q.first) && same_content(p.second, q.second));
  }
  {
    typedef std::vector<std::vector<uint8_t>> V;
    V p{sym_vec("e", la), sym_vec("f", lb)}, q{sym_vec("g", lc), sym_vec("h", ld)};
    distinct(p, q, same_content(p[0], q[0]) && same_content(p[1], q[1]));
    V r{p[0]};
    distinct(p, r, false);
  }
  {
    typedef std::list<std::string> L;
    L p{sym_string("i", la), sym_string("j", lb)}, q{sym_string("k", lc), sym_string("l", ld)};
    distinct(p, q, same_content(p.front(), q.front()) && same_content(p.back(), q.back()));
  }
}
// the same, for every kind of range that is not random access
template <typename C> static C fill(const char* n, long len) {
  C c;
  for (long i = 0; i < len; ++i) c.insert(c.end(), sym<typename C::value_type>(n));
  return c;
}
template <typename C> static void split(long la, long lb, long lc, long ld) {
  C a = fill<C>("a", la), b = fill<C>("b", lb), c = fill<C>("c", lc), d = fill<C>("d", ld);
  bool eq = eqseq(a, c) & eqseq(b, d);
  distinct(std::make_pair(a, b), std::make_pair(c, d), eq);
  distinct(std::vector<C>{a, b}, std::vector<C>{c, d}, eq);
  distinct(std::list<C>{a, b}, std::list<C>{c, d}, eq);
  distinct(std::make_tuple(a, b), std::make_tuple(c, d), eq);
  std::vector<C> one{a}, two{a, b};
  distinct(one, two, false);
  distinct(std::list<C>{a}, std::list<C>{a, b}, false);
  distinct(std::map<uint8_t, C>{{1, a}, {2, b}}, std::map<uint8_t, C>{{1, c}, {2, d}}, eq);
  CHECK(same_content(stream(a, b), stream(c, d)) == eq, "hashing two containers in a row keeps their boundary");
}
extern "C" void h_split(long n) {
  long la = n / 100, lb = n / 10 % 10, lc = n % 10, ld = la + lb - lc;
  if (ld < 0) return;
  split<std::list<uint8_t>>(la, lb, lc, ld);
  split<std::vector<uint8_t>>(la, lb, lc, ld);
  split<std::vector<uint16_t>>(la, lb, lc, ld);
}
extern "C" void h_split_set(long n) {
  long la = n / 100, lb = n / 10 % 10, lc = n % 10, ld = la + lb - lc;
  if (ld < 0) return;
  split<std::set<uint8_t>>(la, lb, lc, ld);
}
// types hashed through their serialisation functions
struct Ser {
  static const bool use_serialize_for_hashing = true;
  uint32_t a; std::string s;
  template <typename A> void serialize(A& ar) { ar(a, s); }
};
struct Sav {
  static const bool use_serialize_for_hashing = true;
  uint32_t a; std::string s;
  template <typename A> void save(A& ar, std::uint32_t const v) const { ar(a, s, v); }
};
struct App {
  uint32_t a; std::string s;
  template <typename A> void HashAppend(A& h) const { h(a, s); }
};
extern "C" void h_custom(long n) {
  uint32_t a = sym_u32("a"), b = sym_u32("b");
  std::string s = sym_string("s", n / 10), t = sym_string("t", n % 10);
  bool eq = a == b && same_content(s, t);
  Ser x{a, s}, y{b, t};
  Recorder r1, r2;
  r1(x); r2(y);
  CHECK(same_content(r1.s, r2.s) == eq, "serialised types: streams are equal exactly when the values are equal");
  CHECK(same_content(r1.s, stream(a, s)), "the serialised members are hashed in order");
  Sav u{a, s}, v{b, t};
  distinct(u, v, eq);
  App p{a, s}, q{b, t};
  distinct(p, q, eq);
  CHECK(same_content(stream(p), r1.s), "member HashAppend is used");
}
