// hex: encode/decode round trip, exact RFC-4648 base16 spelling, strict behaviour on arbitrary decoder input.
#include "sym.h"
#include "maidsafe/common/encode.h"
#include "maidsafe/common/error.h"
using namespace maidsafe;

static unsigned hexdigit(unsigned v) { return v < 10 ? '0' + v : 'a' + (v - 10); }

// arg: number of input bytes
extern "C" void hex_roundtrip_string(long n) {
  std::string in = sym_string("in", n);
  std::string e = hex::Encode(in);
  CHECK(e.size() == 2 * (size_t)n, "hex::Encode output length");
  for (long i = 0; i < n; ++i) {
    unsigned v = (unsigned char)in[i];
    CHECK((unsigned char)e[2 * i] == hexdigit(v >> 4), "hex::Encode high nibble");
    CHECK((unsigned char)e[2 * i + 1] == hexdigit(v & 15), "hex::Encode low nibble");
    TRACE("e", (unsigned char)e[2 * i]);
  }
  CHECK(same_content(hex::DecodeToString(e), in), "hex::DecodeToString(Encode(x)) == x");
  CHECK(same_content(hex::DecodeToBytes(e), in), "hex::DecodeToBytes(Encode(x)) == x");
  REACH("roundtrip");
}
extern "C" void hex_roundtrip_bytes(long n) {
  std::vector<unsigned char> in = sym_vec("in", n);
  std::string e = hex::Encode(in);
  CHECK(e.size() == 2 * (size_t)n, "hex::Encode output length");
  CHECK(same_content(hex::DecodeToString(e), in), "hex::DecodeToString(Encode(x)) == x");
  CHECK(same_content(hex::DecodeToBytes(e), in), "hex::DecodeToBytes(Encode(x)) == x");
  REACH("roundtrip");
}
// arbitrary text of n characters
extern "C" void hex_decode_any(long n) {
  std::string in = sym_string("in", n);
  bool bytes = sym_choose("bytes", 2);
  bool threw = false;
  std::string s;
  try {
    if (bytes) { auto v = hex::DecodeToBytes(in); s.assign(v.begin(), v.end()); }
    else s = hex::DecodeToString(in);
  } catch (const common_error& e) {
    threw = true;
    CHECK(e.code() == make_error_code(CommonErrors::invalid_conversion), "hex decode error code");
  }
  if (n % 2) {
    CHECK(threw, "odd-length hex text is rejected");
    REACH("odd");
    return;
  }
  bool valid = true;
  for (long i = 0; i < n; ++i) {
    unsigned char c = in[i];
    valid = valid & (((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')));
  }
  if (valid) { CHECK(!threw, "valid hex text is accepted"); CHECK(same_content(hex::Encode(s), in), "Encode(Decode(t)) == t"); REACH("valid"); }
  else { CHECK(threw, "text with a non-hex character is rejected"); REACH("invalid"); }
}
