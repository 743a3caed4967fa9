// Version texts, byte counts, random helpers, file names, time stamps.
#include "alloc_limit.h"
#include "util.h"
#include <climits>
#include "maidsafe/common/utils.h"
using namespace maidsafe;
double verif_shown;
int verif_formats;
// the random source: arbitrary values, except (for the characters) the few that the distribution would reject or look at twice
static bool strict;
template <> std::mt19937::result_type std::mt19937::operator()() {
  uint32_t d = sym_u32("draw");
  if (strict) sym_assume((d * 256u >= 256u) & (d * 62u >= 62u));
  return d;
}
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(1234567)); }
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
extern "C" void ut_version(long n) {
  std::string v = sym_string("v", n);
  bool good = n >= 7;
  uint64_t major = 0;
  if (good) {
    for (long i = 0; i < n; ++i) good &= (i == n - 4 || i == n - 6) ? v[i] == '.' : digit(v[i]);
    for (long i = 0; i < n - 6; ++i) major = major * 10 + (unsigned)(v[i] - '0');
  }
  int got = VersionToInt(v);
  if (!good) { CHECK(got == kInvalidVersion, "anything but digits.digit.digits is not a version"); REACH("bad"); return; }
  uint64_t want = major * 10000 + (uint64_t)(v[n - 5] - '0') * 1000 + (v[n - 3] - '0') * 100 + (v[n - 2] - '0') * 10 + (v[n - 1] - '0');
  if (want > INT_MAX) { CHECK(got == kInvalidVersion, "a version beyond the range is not a version"); REACH("large"); }
  else { CHECK((uint64_t)got == want, "the integer made of the three parts"); REACH("good"); }
}
// large major numbers, all digits
extern "C" void ut_major(long n) {
  std::string v = sym_string("v", n + 6);
  for (long i = 0; i < n + 6; ++i) { if (i == n || i == n + 2) v[i] = '.'; else sym_assume(digit(v[i])); }
  uint64_t major = 0;
  for (long i = 0; i < n; ++i) major = major * 10 + (unsigned)(v[i] - '0');
  uint64_t want = major * 10000 + (uint64_t)(v[n + 1] - '0') * 1000 + (v[n + 3] - '0') * 100 + (v[n + 4] - '0') * 10 + (v[n + 5] - '0');
  int got = VersionToInt(v);
  if (want > INT_MAX) CHECK(got == kInvalidVersion, "a version beyond the range is not a version");
  else CHECK((uint64_t)got == want, "the integer made of the three parts");
  REACH("major");
}
extern "C" void ut_units(long binary) {
  static const char* dec[] = {" B", " kB", " MB", " GB", " TB", " PB", " EB"};
  static const char* bin[] = {" B", " KiB", " MiB", " GiB", " TiB", " PiB", " EiB"};
  uint64_t num = sym_u64("num"), k = binary ? 1024 : 1000;
  verif_formats = 0;
  std::string got = binary ? BytesToBinarySiUnits(num) : BytesToDecimalSiUnits(num);
  if (num < k) {
    CHECK(verif_formats == 0 && got == std::to_string(num) + " B", "small counts are shown exactly");
    REACH("bytes");
    return;
  }
  // unit i covers what rounds to below k of it
  uint64_t d = k;
  int unit = 1;
  while (unit < 6 && num >= d * k - d / 2) { d *= k; ++unit; }
  CHECK(verif_formats == 1, "one number");
  CHECK(got == std::string("#") + (binary ? bin : dec)[unit], "two decimals and the unit in which the number is below the next unit");
  CHECK(verif_shown == (double)num / (double)d, "the number is the count in that unit");
  REACH(unit == 1 ? "kilo" : unit == 6 ? "exa" : "middle");
}
static bool alnum(unsigned char c) { return ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
template <typename S> static bool all_alnum(const S& s) { bool r = true; for (auto c : s) r &= alnum((unsigned char)c); return r; }
extern "C" void rn_exact(long n) {
  strict = true;
  std::string s = RandomString((size_t)n);
  std::vector<byte> b = RandomBytes((size_t)n);
  CHECK(s.size() == (size_t)n && b.size() == (size_t)n, "exactly the size asked for");
  std::string a = RandomAlphaNumericString((size_t)n);
  std::vector<byte> c = RandomAlphaNumericBytes((size_t)n);
  CHECK(a.size() == (size_t)n && c.size() == (size_t)n, "exactly the size asked for");
  CHECK(all_alnum(a) && all_alnum(c), "only letters and digits");
  auto t = GetRandomString<std::u16string>(n);
  CHECK(t.size() == (size_t)n, "exactly the size asked for");
  for (auto x : t) CHECK(x < 256, "characters are bytes");
  REACH("exact");
}
// what is longer than the limit shows as a failed allocation
extern "C" void rn_range(long kc) {
  long kind = kc / 10;
  uint32_t lo, hi;
  switch (kc % 10) {
    case 0: lo = sym_choose("min", 4); hi = lo + sym_choose("more", 4); break;
    case 1: lo = 0; hi = 0xffffffff; break;
    case 2: lo = 1; hi = 0xffffffff; break;
    case 3: lo = 0xfffffff0u + sym_choose("min", 16); hi = 0xffffffff; break;
    case 4: lo = 0; hi = 0x80000000u; break;
    default: lo = sym_choose("min", 3); hi = lo + 200; break;
  }
  strict = true;
  verif_alloc_limit = 24;
  size_t n = 0;
  bool big = false, chars = true;
  try {
    if (kind == 0) n = RandomString(lo, hi).size();
    else if (kind == 1) n = RandomBytes(lo, hi).size();
    else if (kind == 2) { auto s = RandomAlphaNumericString(lo, hi); n = s.size(); chars = all_alnum(s); }
    else { auto s = RandomAlphaNumericBytes(lo, hi); n = s.size(); chars = all_alnum(s); }
  } catch (const std::bad_alloc&) { big = true; } catch (const std::length_error&) { big = true; }
  verif_alloc_limit = ~(size_t)0;
  if (big) { CHECK(hi > 20, "a size beyond the range"); REACH("big"); }
  else {
    CHECK(n >= lo && n <= hi, "a size within the range"); CHECK(chars, "only letters and digits"); REACH("small");
    if (n == lo) REACH("least");
    if (n == hi) REACH("most");
  }
}
// a source that keeps to the ends of its range
extern "C" void rn_ints(long) {
  int32_t i = RandomInt32();
  uint32_t u = RandomUint32();
  (void)i; (void)u;
  small_prng::RandomContext a, b;
  uint32_t seed = sym_u32("seed");
  small_prng::Initialise(&a, seed); small_prng::Initialise(&b, seed);
  CHECK(small_prng::RandomValue(&a) == small_prng::RandomValue(&b), "the small generator is a function of its seed");
  REACH("ints");
}
extern "C" void rn_xor(long n) {
  std::vector<byte> a = sym_vec("a", n / 10), b = sym_vec("b", n % 10);
  int o = outcome([&] {
    auto c = a ^ b;
    CHECK(c.size() == a.size(), "as long as the operands");
    for (size_t i = 0; i < c.size(); ++i) CHECK(c[i] == (byte)(a[i] ^ b[i]), "each byte combined");
    CHECK(same_content(c ^ b, a), "undone by itself");
  }, CommonErrors::invalid_argument);
  CHECK(o == (a.size() != b.size()), "only operands of equal length");
  REACH("xor");
}
// file names of data
extern "C" void fn_roundtrip(long k) {
  std::vector<byte> name(64, 0x5a);
  for (long i = 0; i < 4; ++i) name[(i * 21) % 64] = sym_u8("name");
  uint32_t t;
  if (k <= 5) {  // all of k digits
    uint32_t lo = 1;
    for (long i = 1; i < k; ++i) lo *= 10;
    t = sym_u32("type");
    if (k == 1) sym_assume(t < 10); else sym_assume((t >= lo) & (t < lo * 10));
  } else {  // some of more digits, up to the largest
    static const uint32_t from[] = {999900, 1000000, 98765400, 123456700, 2147483600, 4294967232u};
    t = from[k - 6] + (sym_u8("type") & 63);
  }
  Data::NameAndTypeId d{Identity(name), DataTypeId(t)};
  std::string s = detail::GetFileName(d).string(), h = hex::Encode(Identity(name));
  CHECK(same_content(s, h + "_" + std::to_string(t)), "the name in hex and the type");
  Data::NameAndTypeId e = detail::GetDataNameAndTypeId(s);
  CHECK(same_content(e.name.string(), name) && e.type_id == d.type_id, "the file name gives back name and type");
  REACH("name");
}
extern "C" void tm_stamp(long) {
  uint64_t t = sym_u64("stamp");
  sym_assume(t < (1ull << 52));
  auto p = TimeStampToPtime(t);
  CHECK((uint64_t)(p - kMaidSafeEpoch).ticks() == t * 1000, "that many milliseconds after the start of 2000");
  REACH("stamp");
}
