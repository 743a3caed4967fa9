// The front ends of the cryptographic primitives (the primitives are stand-ins, see cryptopp_shim).
#include <random>
#include <string>
#include <vector>
#include "util.h"
#include "maidsafe/common/crypto.h"
#include "maidsafe/common/authentication/user_credential_utils.h"
#include "maidsafe/common/utils.h"
namespace c = maidsafe::crypto;
using maidsafe::CommonErrors;
using maidsafe::NonEmptyString;
using maidsafe::authentication::UserCredentials;
typedef std::vector<unsigned char> Bytes;
#define V CryptoPP::verif()
extern "C" int verif_mlock(const void*, size_t) { return 0; }
extern "C" int verif_munlock(const void*, size_t) { return 0; }
extern "C" long verif_sysconf(int) { return 4096; }
namespace maidsafe { namespace detail {
std::mt19937& random_number_generator() { static std::mt19937 g(7); return g; }
std::mutex& random_number_generator_mutex() { static std::mutex m; return m; }
} }

static Bytes part(const Bytes& b, size_t from, size_t n) { return Bytes(b.begin() + from, b.begin() + from + n); }

// k: 10 * length + kind
extern "C" void cr_cipher(unsigned k) {
  Bytes text = sym_vec("text", k / 10), key = sym_vec("key", 48);
  c::PlainText plain(text);
  c::AES256KeyAndIV both(key);
  c::CipherText cipher = c::SymmEncrypt(plain, both);
  CHECK(same_content(V.key, part(key, 0, 32)) && same_content(V.iv, part(key, 32, 16)), "the key and the initialisation vector used");
  switch (k % 10) {
    case 0: {
      V.key.clear(); V.iv.clear();
      c::PlainText back = c::SymmDecrypt(cipher, both);
      CHECK(same_content(back.string(), text), "decrypting gives the text back");
      CHECK(same_content(V.key, part(key, 0, 32)) && same_content(V.iv, part(key, 32, 16)), "the key and the initialisation vector used");
      REACH("round");
      break;
    }
    case 1: {
      Bytes b = cipher->string();
      size_t at = sym_choose("at", b.size());
      unsigned char d = sym_u8("delta");
      sym_assume(d != 0);
      b[at] ^= d;
      CHECK(outcome([&] { c::SymmDecrypt(c::CipherText(NonEmptyString(b)), both); }, CommonErrors::symmetric_decryption_error) == 1, "altered text is refused");
      REACH("altered");
      break;
    }
    case 2: {
      size_t at = sym_choose("at", 48);
      unsigned char d = sym_u8("delta");
      sym_assume(d != 0);
      key[at] ^= d;
      CHECK(outcome([&] { c::SymmDecrypt(cipher, c::AES256KeyAndIV(key)); }, CommonErrors::symmetric_decryption_error) == 1, "another key is refused");
      REACH("other key");
      break;
    }
    case 3: {
      Bytes b = cipher->string();
      b.resize(1 + sym_choose("length", b.size() - 1));
      CHECK(outcome([&] { c::SymmDecrypt(c::CipherText(NonEmptyString(b)), both); }, CommonErrors::symmetric_decryption_error) == 1, "shortened text is refused");
      REACH("short");
      break;
    }
    case 4: {
      c::AES256KeyAndIV none;
      CHECK(outcome([&] { c::SymmEncrypt(plain, none); }, CommonErrors::uninitialised) == 1, "no key");
      CHECK(outcome([&] { c::SymmEncrypt(c::PlainText(), both); }, CommonErrors::uninitialised) == 1, "no text");
      CHECK(outcome([&] { c::SymmDecrypt(cipher, none); }, CommonErrors::uninitialised) == 1, "no key");
      CHECK(outcome([&] { c::SymmDecrypt(c::CipherText(NonEmptyString()), both); }, CommonErrors::uninitialised) == 1, "no text");
      V.fail = true;
      CHECK(outcome([&] { c::SymmEncrypt(plain, both); }, CommonErrors::symmetric_encryption_error) == 1, "a failing cipher is reported");
      CHECK(outcome([&] { c::SymmDecrypt(cipher, both); }, CommonErrors::symmetric_decryption_error) == 1, "a failing cipher is reported");
      V.fail = false;
      REACH("refused");
      break;
    }
  }
  CHECK(V.filters == 0, "no part of the cipher is left behind");
}
extern "C" void cr_zip(unsigned n) {
  Bytes text = sym_vec("text", n);
  uint16_t level = sym_u16("level");
  c::UncompressedText plain(text);
  c::CompressedText small;
  int r = outcome([&] { small = c::Compress(plain, level); }, CommonErrors::invalid_argument);
  if (level > 9) {
    CHECK(r == 1, "a level above the limit is refused");
    CHECK(V.level == -1, "nothing is compressed with a wrong level");
    REACH("level");
    return;
  }
  CHECK(r == 0 && V.level == level, "compressed with the level given");
  CHECK(same_content(c::Uncompress(small).string(), text), "uncompressing gives the text back");
  CHECK(outcome([&] { c::Compress(c::UncompressedText(), level); }, CommonErrors::uninitialised) == 1, "no text");
  CHECK(outcome([&] { c::Uncompress(c::CompressedText(NonEmptyString())); }, CommonErrors::uninitialised) == 1, "no text");
  Bytes b = small->string();
  size_t at = sym_choose("at", 2);
  unsigned char d = sym_u8("delta");
  sym_assume(d != 0);
  b[at] ^= d;
  CHECK(outcome([&] { c::Uncompress(c::CompressedText(NonEmptyString(b))); }, CommonErrors::uncompression_error) == 1, "text that is not compressed is refused");
  V.fail = true;
  CHECK(outcome([&] { c::Compress(plain, level); }, CommonErrors::compression_error) == 1, "a failing compression is reported");
  CHECK(outcome([&] { c::Uncompress(small); }, CommonErrors::uncompression_error) == 1, "a failing decompression is reported");
  CHECK(V.filters == 0, "no filter is left behind");
  REACH("zip");
}
// k: digits = lengths of password, salt, label
extern "C" void cr_password(unsigned k) {
  Bytes pw = sym_vec("password", k / 100), salt = sym_vec("salt", k / 10 % 10);
  uint32_t pin = sym_u32("pin");
  std::string label = k % 10 ? sym_string("label", k % 10) : c::kMaidSafeVersionLabel;
  NonEmptyString p(pw);
  c::Salt s(salt);
  c::SecurePassword r = k % 10 ? c::CreateSecurePassword(p, s, pin, label) : c::CreateSecurePassword(p, s, pin);
  CHECK(same_content(V.password, pw), "the password is used");
  Bytes context = salt;
  context.insert(context.end(), label.begin(), label.end());
  CHECK(same_content(V.context, context), "the salt and the label are used");
  CHECK(V.iterations == 10000 + pin % 10000, "the number of rounds follows from the pin");
  Bytes want(48);
  CryptoPP::PKCS5_PBKDF2_HMAC<CryptoPP::SHA512>().DeriveKey(want.data(), 48, 0, pw.data(), pw.size(), context.data(), context.size(), 10000 + pin % 10000);
  CHECK(same_content(r->string(), want), "the derived bytes are the password");
  V.derivations = 0;
  CHECK(outcome([&] { c::CreateSecurePassword(NonEmptyString(), s, pin); }, CommonErrors::uninitialised) == 1, "no password");
  CHECK(outcome([&] { c::CreateSecurePassword(p, c::Salt(), pin); }, CommonErrors::uninitialised) == 1, "no salt");
  CHECK(V.derivations == 0, "nothing is derived from missing values");
  REACH("password");
}
template <typename H, typename S>
static void hash_one(const S& text) {
  auto r = c::Hash<H>(text);
  Bytes in(text.begin(), text.end()), want;
  CHECK(same_content(V.digested, in), "the whole text is digested");
  H().digest(in, want);
  CHECK(r.IsInitialised() && same_content(r.string(), want), "the digest is returned");
  V.fail = true;
  CHECK(outcome([&] { c::Hash<H>(text); }, CommonErrors::hashing_error) == 1, "a failing digest is reported");
  V.fail = false;
  CHECK(V.filters == 0, "no filter is left behind");
}
extern "C" void cr_hash(unsigned n) {
  Bytes b = sym_vec("text", n);
  std::string t(b.begin(), b.end());
  switch (sym_choose("kind", 5)) {
    case 0: hash_one<c::SHA512>(b); break;
    case 1: hash_one<c::SHA512>(t); break;
    case 2: hash_one<c::SHA1>(t); break;
    case 3: hash_one<c::SHA256>(b); break;
    case 4: {
      hash_one<c::SHA384>(t);
      if (!n) { CHECK(outcome([&] { c::Hash<c::SHA512>(NonEmptyString()); }, CommonErrors::uninitialised) == 1, "no text"); break; }
      NonEmptyString x(b);
      auto r = c::Hash<c::SHA512>(x);
      Bytes want;
      CryptoPP::SHA512().digest(b, want);
      CHECK(same_content(r.string(), want), "the digest of a bounded text");
      break;
    }
  }
  REACH("hash");
}
// kind 0: secret sharing, 1: dispersal
static c::DataParts share(unsigned kind, int32_t t, int32_t n, const c::PlainText& d) { return kind ? c::InfoDisperse(t, n, d) : c::SecretShareData(t, n, d); }
static c::PlainText recover(unsigned kind, const c::DataParts& p) { return kind ? c::InfoRetrieve(p) : c::SecretRecoverData(p); }
extern "C" void cr_share_args(unsigned kind) {
  int32_t t = sym_i32("threshold"), n = sym_i32("shares");
  sym_assume((unsigned)(t > n) | (unsigned)(n < 3) | (unsigned)(t < 2));
  c::PlainText d(sym_vec("data", 2));
  CHECK(outcome([&] { share(kind, t, n, d); }, CommonErrors::invalid_argument) == 1, "wrong numbers of shares are refused");
  CHECK(V.shares == 0, "nothing is shared with wrong numbers");
  CHECK(outcome([&] { share(kind, 2, 3, c::PlainText()); }, CommonErrors::uninitialised) == 1, "no data");
  REACH("refused");
}
// k: 100 * kind + 10 * shares + length
extern "C" void cr_share(unsigned k) {
  unsigned kind = k / 100, n = k / 10 % 10;
  unsigned t = (unsigned)sym_range("threshold", 2, n);
  Bytes data = sym_vec("data", k % 10);
  c::DataParts parts = share(kind, (int32_t)t, (int32_t)n, c::PlainText(data));
  CHECK(parts.size() == n && V.threshold == (int)t && V.shares == (int)n, "as many shares as asked for");
  for (auto& p : parts) CHECK(p.IsInitialised() && p.size() == data.size() + 5, "each share is whole");
  // any selection of enough different shares in any order
  c::DataParts some;
  std::vector<bool> used(n, false);
  for (unsigned i = 0; i < t; ++i) {
    size_t x = sym_choose("pick", n);
    if (used[x]) return;
    used[x] = true;
    some.push_back(parts[x]);
  }
  CHECK(same_content(recover(kind, some).string(), data), "enough shares give the data back");
  CHECK(V.threshold == (int)t, "recovered from the shares given");
  CHECK(same_content(recover(kind, parts).string(), data), "all shares give the data back");
  REACH("recovered");
}
// k: 100 * kind + 10 * number of parts + length of each, any content
extern "C" void cr_recover_any(unsigned k) {
  unsigned kind = k / 100, n = k / 10 % 10;
  c::DataParts parts;
  for (unsigned i = 0; i < n; ++i) parts.emplace_back(sym_vec("part", k % 10));
  bool threw = false;
  try {
    auto r = recover(kind, parts);
    CHECK(r.IsInitialised(), "recovered data are not empty");
  } catch (const std::exception&) {
    threw = true;
  }
  if (n == 0) CHECK(threw, "nothing is recovered from no shares");
  if (k % 10 <= 4) CHECK(threw, "nothing is recovered from shares that are too short");
  if (n) {
    parts[n - 1] = NonEmptyString();
    CHECK(outcome([&] { recover(kind, parts); }, CommonErrors::uninitialised) != 0, "missing shares are refused");
  }
  REACH("tried");
}
static Bytes derived(const Bytes& pw, const Bytes& salt, unsigned iterations) {
  Bytes context = salt, out(48);
  context.insert(context.end(), c::kMaidSafeVersionLabel.begin(), c::kMaidSafeVersionLabel.end());
  CryptoPP::PKCS5_PBKDF2_HMAC<CryptoPP::SHA512>().DeriveKey(out.data(), 48, 0, pw.data(), pw.size(), context.data(), context.size(), iterations);
  return out;
}
static Bytes digest(const Bytes& b) {
  Bytes r;
  CryptoPP::SHA512().digest(b, r);
  return r;
}
static Bytes cat(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
struct Secrets {
  UserCredentials u;
  Bytes keyword, password, pin;
  unsigned long number;
  Secrets() {
    std::string k = sym_string("keyword", 2), p = sym_string("password", 2);
    static const char* const pins[] = {"0", "7", "1234", "9999", "54321", "4294967295", "2147483648"};
    static const unsigned long numbers[] = {0, 7, 1234, 9999, 54321, 4294967295ul, 2147483648ul};
    size_t i = sym_choose("pin", 7);
    std::string d = pins[i];
    number = numbers[i];
    keyword.assign(k.begin(), k.end()); password.assign(p.begin(), p.end()); pin.assign(d.begin(), d.end());
    u.keyword.reset(new UserCredentials::Keyword(k));
    u.pin.reset(new UserCredentials::Pin(d));
    u.password.reset(new UserCredentials::Password(p));
  }
};
extern "C" void cr_credentials(unsigned) {
  Secrets s;
  c::SecurePassword r = maidsafe::authentication::CreateSecurePassword(s.u);
  Bytes want = derived(s.password, digest(cat(digest(s.pin), s.password)), 10000 + (uint32_t)s.number % 10000);
  CHECK(same_content(r->string(), want), "derived from the password with a salt of pin and password, the rounds from the pin");
  V.derivations = 0;
  if (sym_bool("which")) s.u.pin.reset(); else s.u.password.reset();
  CHECK(outcome([&] { maidsafe::authentication::CreateSecurePassword(s.u); }, CommonErrors::uninitialised) == 1, "missing credentials");
  CHECK(V.derivations == 0, "nothing is derived from missing credentials");
  REACH("credentials");
}
extern "C" void cr_obfuscate(unsigned n) {
  Secrets s;
  Bytes data = sym_vec("data", n);
  NonEmptyString hidden = maidsafe::authentication::Obfuscate(s.u, NonEmptyString(data));
  Bytes key = derived(s.keyword, digest(cat(s.password, digest(s.pin))), 10000 + (uint32_t)(s.number * 2) % 10000);
  Bytes want = data;
  for (size_t i = 0; i < n; ++i) want[i] ^= key[i % 48];
  CHECK(same_content(hidden.string(), want), "each byte is changed by the key stream, which repeats");
  CHECK(same_content(maidsafe::authentication::Obfuscate(s.u, hidden).string(), data), "obfuscating twice gives the data back");
  V.derivations = 0;
  CHECK(outcome([&] { maidsafe::authentication::Obfuscate(s.u, NonEmptyString()); }, CommonErrors::uninitialised) == 1, "no data");
  V.derivations = 0;
  switch (sym_choose("missing", 3)) {
    case 0: s.u.keyword.reset(); break;
    case 1: s.u.pin.reset(); break;
    case 2: s.u.password.reset(); break;
  }
  CHECK(outcome([&] { maidsafe::authentication::Obfuscate(s.u, NonEmptyString(data)); }, CommonErrors::uninitialised) == 1, "missing credentials");
  CHECK(V.derivations == 0, "nothing is derived from missing credentials");
  REACH("obfuscated");
}
