// SipHash against the published SipHash-2-4 definition, with arbitrary key, content and chunking.
#include "util.h"
#include "maidsafe/common/hash/algorithms/siphash.h"
using namespace maidsafe;
static uint64_t rotl(uint64_t x, int b) { return (x << b) | (x >> (64 - b)); }
static uint64_t word(const unsigned char* p) {
  uint64_t r = 0;
  for (int i = 0; i < 8; ++i) r |= (uint64_t)p[i] << (8 * i);
  return r;
}
static void round(uint64_t* v) {
  v[0] += v[1]; v[1] = rotl(v[1], 13); v[1] ^= v[0]; v[0] = rotl(v[0], 32);
  v[2] += v[3]; v[3] = rotl(v[3], 16); v[3] ^= v[2];
  v[0] += v[3]; v[3] = rotl(v[3], 21); v[3] ^= v[0];
  v[2] += v[1]; v[1] = rotl(v[1], 17); v[1] ^= v[2]; v[2] = rotl(v[2], 32);
}
static uint64_t reference(const unsigned char* key, const unsigned char* m, size_t n) {
  uint64_t k0 = word(key), k1 = word(key + 8);
  uint64_t v[4] = {k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL};
  unsigned char last[8] = {0, 0, 0, 0, 0, 0, 0, (unsigned char)n};
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t w = word(m + i); v[3] ^= w; round(v); round(v); v[0] ^= w; }
  for (size_t k = 0; i + k < n; ++k) last[k] = m[i + k];
  uint64_t w = word(last);
  v[3] ^= w; round(v); round(v); v[0] ^= w;
  v[2] ^= 0xff;
  for (int r = 0; r < 4; ++r) round(v);
  return v[0] ^ v[1] ^ v[2] ^ v[3];
}
static std::array<unsigned char, 16> key() {
  std::array<unsigned char, 16> k;
  __sym_bytes(k.data(), 16, "key");
  return k;
}
// exactly-sized heap copy so that over-reads are seen
static void feed(SipHash& h, const std::vector<unsigned char>& v, size_t from, size_t to) {
  std::vector<unsigned char> part(v.begin() + from, v.begin() + to);
  h.Update(part.data(), part.size());
}
extern "C" void sip_whole(long n) {
  auto k = key();
  auto m = sym_vec("msg", n);
  SipHash h(k);
  feed(h, m, 0, n);
  uint64_t got = h.Finalize();
  CHECK(got == reference(k.data(), m.data(), n), "one update gives SipHash-2-4");
  CHECK(h.Finalize() == got, "reading the result twice gives the same value");
  TRACE("hash", got);
  REACH("whole");
}
extern "C" void sip_chunks(long n) {
  auto k = key();
  auto m = sym_vec("msg", n);
  size_t a = sym_range("first", 0, n), b = sym_range("second", a, n);
  SipHash h(k);
  feed(h, m, 0, a);
  CHECK(h.Finalize() == reference(k.data(), m.data(), a), "prefix hash after the first chunk");
  feed(h, m, a, b);
  CHECK(h.Finalize() == reference(k.data(), m.data(), b), "prefix hash after the second chunk");
  SipHash copy(h);
  feed(h, m, b, n);
  uint64_t got = h.Finalize();
  CHECK(got == reference(k.data(), m.data(), n), "chunked updates give SipHash-2-4 of the whole");
  feed(copy, m, b, n);
  CHECK(copy.Finalize() == got, "a copy of the state continues identically");
  REACH("chunks");
}
