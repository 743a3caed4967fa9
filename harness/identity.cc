// Identity: XOR-metric comparison, common leading bits, text encodings.
#include "util.h"
#include "maidsafe/common/identity.h"
using namespace maidsafe;
typedef std::vector<unsigned char> Vec;

static Identity id(const Vec& v) { return Identity(v); }
// a^t < b^t as big-endian numbers, branch free
static int refCloser(const Vec& a, const Vec& b, const Vec& t) {
  int less = 0, live = 1;
  for (size_t i = 0; i < 64; ++i) {
    unsigned char x = (unsigned char)(a[i] ^ t[i]), y = (unsigned char)(b[i] ^ t[i]);
    less |= live & (x < y);
    live &= (x == y);
  }
  return less;
}
extern "C" void id_closer(long) {
  Vec a = sym_vec("a", 64), b = sym_vec("b", 64), t = sym_vec("t", 64);
  int want = refCloser(a, b, t);
  bool got = CloserToTarget(id(a), id(b), id(t));
  CHECK(got == (want != 0), "CloserToTarget is the XOR metric");
  TRACE("closer", got);
  REACH(got ? "closer" : "notcloser");
}
// exactly one id of two distinct ones is closer
extern "C" void id_closer_order(long) {
  Vec a = sym_vec("a", 64), b = sym_vec("b", 64), t = sym_vec("t", 64);
  Identity ia = id(a), ib = id(b), it = id(t);
  bool ab = CloserToTarget(ia, ib, it), ba = CloserToTarget(ib, ia, it);
  bool eq = same_content(a, b);
  CHECK(!(ab && ba), "asymmetric");
  CHECK(eq == (!ab && !ba), "two distinct ids are never at the same distance from a target");
  CHECK(!CloserToTarget(ia, ia, it), "irreflexive");
  REACH("order");
}
extern "C" void id_closer_uninit(long which) {
  Vec z(64, 7);
  Identity a, b, t;
  if (which & 1) a = id(z);
  if (which & 2) b = id(z);
  if (which & 4) t = id(z);
  int r = outcome([&] { CloserToTarget(a, b, t); }, CommonErrors::invalid_identity);
  CHECK(r == (which == 7 ? 0 : 1), "CloserToTarget with an uninitialised id throws invalid_identity");
  if ((which & 3) != 3) CHECK(outcome([&] { CommonLeadingBits(a, b); }, CommonErrors::invalid_identity) == 1, "CommonLeadingBits with an uninitialised id throws invalid_identity");
  if (!(which & 1)) {
    CHECK(outcome([&] { binary::Encode(a); }, CommonErrors::invalid_identity) == 1, "binary encoding of an uninitialised id throws");
    CHECK(outcome([&] { hex::Encode(a); }, CommonErrors::uninitialised) == 1, "hex encoding of an uninitialised id throws");
    CHECK(outcome([&] { base64::Encode(a); }, CommonErrors::uninitialised) == 1, "base64 encoding of an uninitialised id throws");
  }
  REACH("uninit");
}
extern "C" void id_common_bits(long) {
  Vec a = sym_vec("a", 64), b = sym_vec("b", 64);
  int want = 0, live = 1;
  for (int i = 0; i < 64; ++i) {
    unsigned x = (unsigned char)(a[i] ^ b[i]);
    for (int k = 7; k >= 0; --k) { live &= !((x >> k) & 1); want += live; }
  }
  int got = CommonLeadingBits(id(a), id(b));
  CHECK(got == want, "CommonLeadingBits counts the shared most significant bits");
  TRACE("bits", got);
  REACH(got == 512 ? "equal" : "differ");
}
static Vec pattern() { Vec v(64); for (int i = 0; i < 64; ++i) v[i] = (unsigned char)(i * 37 + 11); return v; }
// one byte free, the others fixed: all three encodings, round trip
extern "C" void id_encodings(long pos) {
  Vec v = pattern();
  v[pos] = sym_u8("byte");
  Identity i = id(v);
  std::string h = hex::Encode(i), b = base64::Encode(i), n = binary::Encode(i);
  CHECK(h.size() == 128 && b.size() == 88 && n.size() == 512, "encoded lengths");
  for (int k = 0; k < 512; ++k) CHECK(n[k] == '0' + ((v[k / 8] >> (7 - k % 8)) & 1), "binary encoding is the bits, most significant first");
  CHECK(MakeIdentity(hex::String(h)) == i, "hex round trip");
  CHECK(MakeIdentity(base64::String(b)) == i, "base64 round trip");
  CHECK(MakeIdentity(binary::String(n)) == i, "binary round trip");
  REACH("encodings");
}
// binary text of n characters, one of them free
extern "C" void id_from_binary(long n) {
  std::string s(n, '0');
  for (long i = 0; i < n; i += 3) s[i] = '1';
  bool ok = true;
  if (n) {
    size_t p = sym_choose("where", 3);
    size_t at = p == 0 ? 0 : p == 1 ? n / 2 : n - 1;
    char c = (char)sym_u8("char");
    s[at] = c;
    ok = (c == '0') | (c == '1');
  }
  Identity out;
  int r = outcome([&] { out = MakeIdentity(binary::String(s)); }, CommonErrors::invalid_identity);
  if (n == 512 && ok) {
    CHECK(r == 0, "512 binary digits make an identity");
    CHECK(same_content(binary::Encode(out), s), "binary text round trip");
    REACH("made");
  } else {
    CHECK(r == 1, "malformed binary text is rejected with invalid_identity");
    CHECK(!out.IsInitialised(), "no identity made");
    REACH("rejected");
  }
}
extern "C" void id_from_hex(long n) {
  std::string s(n, 'a');
  bool ok = true;
  if (n) {
    size_t p = sym_choose("where", 3);
    char c = (char)sym_u8("char");
    s[p == 0 ? 0 : p == 1 ? n / 2 : n - 1] = c;
    ok = ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f'));
  }
  Identity out;
  int r = outcome([&] { out = MakeIdentity(hex::String(s)); }, CommonErrors::invalid_identity);
  if (n == 128 && ok) { CHECK(r == 0, "128 hex digits make an identity"); CHECK(same_content(hex::Encode(out), s), "hex text round trip"); REACH("made"); }
  else { CHECK(r == 1, "malformed hex text is rejected with invalid_identity"); REACH("rejected"); }
}
extern "C" void id_from_base64(long n) {
  std::string s(n, 'Q');
  if (n) {
    size_t p = sym_choose("where", 3);
    s[p == 0 ? 0 : p == 1 ? n / 2 : n - 1] = (char)sym_u8("char");
    if (n == 88) { s[86] = '='; s[87] = '='; }
  }
  Identity out;
  int r = outcome([&] { out = MakeIdentity(base64::String(s)); }, CommonErrors::invalid_identity);
  if (r == 0) { CHECK(n == 88, "only the encoding of 64 bytes makes an identity"); CHECK(same_bytes(base64::Encode(out).data(), s.data(), 85), "base64 text round trip"); REACH("made"); }
  else { CHECK(r == 1, "malformed base64 text is rejected with invalid_identity"); REACH("rejected"); }
}
