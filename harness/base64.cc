// base64 (RFC 4648 section 4): exact encoding, round trip, strict decoding of arbitrary text.
#include "sym.h"
#include "maidsafe/common/encode.h"
#include "maidsafe/common/error.h"
using namespace maidsafe;

static unsigned ref_char(unsigned v) {  // branch-free reference alphabet
  unsigned r = 0;
  r |= (0u - (v < 26)) & ('A' + v);
  r |= (0u - ((v >= 26) & (v < 52))) & ('a' + v - 26);
  r |= (0u - ((v >= 52) & (v < 62))) & ('0' + v - 52);
  r |= (0u - (v == 62)) & '+';
  r |= (0u - (v == 63)) & '/';
  return r & 0xff;
}
// 64 when not in the alphabet
static unsigned ref_val(unsigned char c) {
  unsigned r = 64, m;
  m = 0u - ((c >= 'A') & (c <= 'Z')); r = (r & ~m) | (m & (c - 'A'));
  m = 0u - ((c >= 'a') & (c <= 'z')); r = (r & ~m) | (m & (c - 'a' + 26));
  m = 0u - ((c >= '0') & (c <= '9')); r = (r & ~m) | (m & (c - '0' + 52));
  m = 0u - (c == '+'); r = (r & ~m) | (m & 62);
  m = 0u - (c == '/'); r = (r & ~m) | (m & 63);
  return r;
}
template <typename T>
static void check_encode(const T& in, const std::string& e, size_t n) {
  CHECK(e.size() == (n + 2) / 3 * 4, "base64::Encode output length");
  for (size_t q = 0; q < e.size() / 4; ++q) {
    size_t left = n - 3 * q;
    unsigned a = (unsigned char)in[3 * q], b = left > 1 ? (unsigned char)in[3 * q + 1] : 0, c = left > 2 ? (unsigned char)in[3 * q + 2] : 0;
    CHECK((unsigned char)e[4 * q] == ref_char(a >> 2), "base64::Encode character 0");
    CHECK((unsigned char)e[4 * q + 1] == ref_char((a & 3) << 4 | b >> 4), "base64::Encode character 1");
    CHECK((unsigned char)e[4 * q + 2] == (left > 1 ? ref_char((b & 15) << 2 | c >> 6) : '='), "base64::Encode character 2");
    CHECK((unsigned char)e[4 * q + 3] == (left > 2 ? ref_char(c & 63) : '='), "base64::Encode character 3");
    TRACE("q", (unsigned char)e[4 * q + 1]);
  }
}
extern "C" void b64_encode_string(long n) {
  std::string in = sym_string("in", n);
  check_encode(in, base64::Encode(in), n);
  REACH("encoded");
}
extern "C" void b64_encode_bytes(long n) {
  std::vector<unsigned char> in = sym_vec("in", n);
  check_encode(in, base64::Encode(in), n);
  REACH("encoded");
}
// decode(encode(x)) == x, every byte free
extern "C" void b64_roundtrip(long n) {
  std::string in = sym_string("in", n);
  std::string e = base64::Encode(in);
  if (sym_choose("bytes", 2)) CHECK(same_content(base64::DecodeToBytes(e), in), "base64::DecodeToBytes(Encode(x)) == x");
  else CHECK(same_content(base64::DecodeToString(e), in), "base64::DecodeToString(Encode(x)) == x");
  REACH("roundtrip");
}
static void decode_and_judge(const std::string& in) {
  bool threw = false;
  std::string s;
  bool bytes = sym_choose("bytes", 2);
  try {
    if (bytes) { auto v = base64::DecodeToBytes(in); s.assign(v.begin(), v.end()); }
    else s = base64::DecodeToString(in);
  } catch (const common_error& e) {
    threw = true;
    CHECK(e.code() == make_error_code(CommonErrors::invalid_conversion), "base64 decode error code");
  }
  size_t n = in.size();
  if (n % 4) { CHECK(threw, "text whose length is not a multiple of 4 is rejected"); REACH("badlen"); return; }
  unsigned pad1 = n ? (in[n - 1] == '=') : 0, pad2 = n ? ((in[n - 1] == '=') & (in[n - 2] == '=')) : 0;
  unsigned valid = 1;
  for (size_t i = 0; i < n; ++i) {
    unsigned ok = ref_val(in[i]) < 64;
    if (i == n - 1) ok |= pad1;
    if (n >= 2 && i == n - 2) ok |= pad2;
    valid &= ok;
  }
  CHECK(threw | valid, "malformed text is rejected");
  CHECK(!threw | !valid, "well-formed text is accepted");
  if (threw) { REACH("rejected"); return; }
  size_t len = n / 4 * 3 - pad1 - pad2;
  CHECK(s.size() == len, "decoded length");
  if (s.size() == len)
    for (size_t i = 0; i < len; ++i) {
      unsigned hi = ref_val(in[i / 3 * 4 + i % 3]), lo = ref_val(in[i / 3 * 4 + i % 3 + 1]);
      unsigned want = i % 3 == 0 ? (hi << 2 | lo >> 4) : i % 3 == 1 ? ((hi & 15) << 4 | lo >> 2) : ((hi & 3) << 6 | lo);
      CHECK((unsigned char)s[i] == (want & 0xff), "decoded byte");
      TRACE("d", (unsigned char)s[i]);
    }
  REACH("accepted");
}
// every text of n characters
extern "C" void b64_decode_any(long n) { decode_and_judge(sym_string("in", n)); }
// texts of n characters in which one window of two adjacent characters is arbitrary and the others are letters A-Z
extern "C" void b64_decode_window(long n) {
  std::string in = sym_string("in", n);
  size_t k = sym_choose("window", n - 1);
  for (size_t i = 0; i < (size_t)n; ++i)
    if (i != k && i != k + 1) sym_assume((in[i] >= 'A') & (in[i] <= 'Z'));
  decode_and_judge(in);
}
