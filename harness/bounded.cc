// BoundedString: size invariant, ordering, conversions, abbreviated representation.
#include "util.h"
#include "maidsafe/common/bounded_string.h"
#include "maidsafe/common/types.h"
using namespace maidsafe;
using maidsafe::detail::BoundedString;
typedef std::vector<unsigned char> Vec;

static std::string str(const std::string& s) { return s; }
static std::string str(const Vec& v) { return std::string(v.begin(), v.end()); }
template <typename S> static S mk(const char* n, size_t len);
template <> std::string mk<std::string>(const char* n, size_t len) { return sym_string(n, len); }
template <> Vec mk<Vec>(const char* n, size_t len) { return sym_vec(n, len); }

template <size_t lo, size_t hi, typename S>
static void invariant(const BoundedString<lo, hi, S>& b) {
  if (b.IsInitialised()) CHECK(b.size() >= lo && b.size() <= hi, "an initialised bounded string has a size within its bounds");
  else CHECK(outcome([&] { b.string(); }, CommonErrors::uninitialised) == 1, "reading an uninitialised bounded string throws uninitialised");
}
template <size_t lo, size_t hi, typename S>
static void construct(size_t n) {
  typedef BoundedString<lo, hi, S> B;
  S in = mk<S>("in", n);
  bool fits = n >= lo && n <= hi;
  B dflt;
  CHECK(dflt.IsInitialised() == (lo == 0), "a default constructed bounded string is initialised only if empty is allowed");
  invariant(dflt);
  if (!dflt.IsInitialised()) {
    CHECK(outcome([&] { dflt.size(); }, CommonErrors::uninitialised) == 1, "size() of uninitialised throws");
    CHECK(outcome([&] { dflt.data(); }, CommonErrors::uninitialised) == 1, "data() of uninitialised throws");
    CHECK(outcome([&] { dflt[0]; }, CommonErrors::uninitialised) == 1, "operator[] of uninitialised throws");
    CHECK(outcome([&] { hex::Encode(dflt); }, CommonErrors::uninitialised) == 1, "hex of uninitialised throws");
    CHECK(outcome([&] { base64::Encode(dflt); }, CommonErrors::uninitialised) == 1, "base64 of uninitialised throws");
  }
  bool viaString = sym_choose("via_std_string", 2);
  B got;
  int r;
  if (viaString) { std::string s = str(in); r = outcome([&] { got = B(s); }, CommonErrors::outside_of_bounds); }
  else r = outcome([&] { got = B(in); }, CommonErrors::outside_of_bounds);
  if (!fits) {
    CHECK(r == 1, "out-of-bounds input is rejected with outside_of_bounds");
    CHECK(got == dflt, "a failed construction leaves the target unchanged");
    REACH("rejected");
    return;
  }
  CHECK(r == 0, "input within bounds is accepted");
  CHECK(got.IsInitialised(), "constructed string is initialised");
  invariant(got);
  CHECK(got.size() == n && same_content(got.string(), in), "content preserved");
  for (size_t i = 0; i < n; ++i) { CHECK((unsigned char)got[i] == (unsigned char)in[i], "operator[]"); CHECK((unsigned char)got.data()[i] == (unsigned char)in[i], "data()"); TRACE("c", (unsigned char)got[i]); }
  CHECK(same_content(hex::Encode(got), hex::Encode(in)), "hex::Encode");
  CHECK(same_content(base64::Encode(got), base64::Encode(in)), "base64::Encode");
  // copies and moves
  B copy(got), assigned;
  assigned = got;
  CHECK(copy == got && assigned == got, "copies compare equal");
  CHECK(same_content(copy.string(), in) && same_content(assigned.string(), in), "copies keep the content");
  B moved(std::move(copy));
  CHECK(same_content(moved.string(), in), "move construction keeps the content");
  invariant(copy);
  B moveAssigned;
  moveAssigned = std::move(assigned);
  CHECK(same_content(moveAssigned.string(), in), "move assignment keeps the content");
  invariant(assigned);
  copy = moved;
  assigned = got;
  CHECK(same_content(copy.string(), in) && same_content(assigned.string(), in), "a moved-from string can be assigned to");
  REACH("accepted");
}
extern "C" void bs_construct_0_3_string(long n) { construct<0, 3, std::string>(n); }
extern "C" void bs_construct_2_5_string(long n) { construct<2, 5, std::string>(n); }
extern "C" void bs_construct_2_5_bytes(long n) { construct<2, 5, Vec>(n); }
extern "C" void bs_construct_3_3_bytes(long n) { construct<3, 3, Vec>(n); }
extern "C" void bs_construct_1_max_bytes(long n) { construct<1, (size_t)-1, Vec>(n); }
extern "C" void bs_construct_17_40_string(long n) { construct<17, 40, std::string>(n); }

// conversion between bounded strings of different type and wider bounds
extern "C" void bs_convert(long n) {
  typedef BoundedString<2, 5, Vec> Inner;
  typedef BoundedString<1, 7, std::string> Outer;
  bool init = sym_choose("init", 2);
  Inner in;
  Vec v = mk<Vec>("in", n);
  if (init) in = Inner(v);
  typedef BoundedString<1, 7, Vec> OuterVec;
  Outer a(in);
  OuterVec b;
  CHECK(a.IsInitialised() == init, "conversion keeps the initialised state");
  b = in;
  CHECK(b.IsInitialised() == init, "converting assignment keeps the initialised state");
  invariant(a); invariant(b);
  if (init) { CHECK(same_content(a.string(), v), "conversion keeps the content"); CHECK(same_content(b.string(), v), "converting assignment keeps the content"); }
  CHECK(in.IsInitialised() == init, "source untouched");
  // assignment over an initialised target
  OuterVec c(std::string("zzzzz"));
  c = in;
  CHECK(c == b, "converting assignment replaces the previous value");
  REACH(init ? "converted" : "uninit");
}

// ordering: total, consistent with lexicographic byte order, uninitialised first
template <typename S>
static void order(size_t code) {
  typedef BoundedString<1, 8, S> B;
  size_t la = code % 5, lb = code / 5;  // 0: uninitialised
  B a, b;
  S sa = mk<S>("a", la), sb = mk<S>("b", lb);
  if (la) a = B(sa);
  if (lb) b = B(sb);
  int want;  // expected comparison
  if (!la || !lb) want = (la ? 1 : 0) - (lb ? 1 : 0);
  else want = lex(sa, sb);
  CHECK((a == b) == (want == 0), "operator==");
  CHECK((a != b) == (want != 0), "operator!=");
  CHECK((a < b) == (want < 0), "operator<");
  CHECK((a > b) == (want > 0), "operator>");
  CHECK((a <= b) == (want <= 0), "operator<=");
  CHECK((a >= b) == (want >= 0), "operator>=");
  CHECK(a == a && !(a < a), "reflexive");
  REACH("ordered");
}
extern "C" void bs_order_string(long c) { order<std::string>(c); }
extern "C" void bs_order_bytes(long c) { order<Vec>(c); }

// XOR of fixed-size strings
extern "C" void bs_xor(long) {
  typedef BoundedString<9, 9, Vec> B;
  size_t which = sym_choose("initialised", 4);
  Vec va = sym_vec("a", 9), vb = sym_vec("b", 9);
  B a, b;
  if (which & 1) a = B(va);
  if (which & 2) b = B(vb);
  if (which != 3) {
    CHECK(outcome([&] { a ^ b; }, CommonErrors::uninitialised) == 1, "XOR with an uninitialised operand throws uninitialised");
    REACH("uninit");
    return;
  }
  B x = a ^ b;
  CHECK(x.IsInitialised() && x.size() == 9, "XOR result size");
  for (int i = 0; i < 9; ++i) CHECK(x[i] == (unsigned char)(va[i] ^ vb[i]), "XOR is bytewise");
  CHECK((x ^ b) == a, "XOR is its own inverse");
  REACH("xor");
}

// abbreviated representations
template <typename S>
static void substr_case(size_t n) {
  S in = mk<S>("in", n);
  std::string h = hex::Encode(in), sh = hex::Substr(in), b = base64::Encode(in), sb = base64::Substr(in);
  auto judge = [](const std::string& full, const std::string& abbr) {
    if (full.size() <= 14) { CHECK(same_content(full, abbr), "short encodings are not abbreviated"); return; }
    CHECK(abbr.size() == 14, "abbreviation is 14 characters");
    CHECK(same_bytes(abbr.data(), full.data(), 6), "abbreviation starts with the first 6 characters");
    CHECK(abbr[6] == '.' && abbr[7] == '.', "abbreviation has two dots");
    CHECK(same_bytes(abbr.data() + 8, full.data() + full.size() - 6, 6), "abbreviation ends with the last 6 characters");
  };
  judge(h, sh);
  judge(b, sb);
  if (n) {
    NonEmptyString ne{Vec(in.begin(), in.end())};
    CHECK(hex::Substr(ne) == sh, "hex::Substr of a bounded string");
    CHECK(base64::Substr(ne) == sb, "base64::Substr of a bounded string");
  }
  REACH(h.size() > 14 ? "long" : "short");
}
extern "C" void substr_string(long n) { substr_case<std::string>(n); }
extern "C" void substr_bytes(long n) { substr_case<Vec>(n); }
