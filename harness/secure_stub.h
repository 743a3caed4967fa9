// Stand-ins for the third-party pieces of the secure strings: the cipher, its hex filter, and regular expressions.
// The cipher is an invertible function of the passphrase and the text that detects a wrong passphrase.
#pragma once
#include <cstdlib>
#include <memory>
#include <string>
extern "C" int verif_mlock(const void*, size_t);
extern "C" int verif_munlock(const void*, size_t);
#include <sys/mman.h>
#define mlock verif_mlock
#define munlock verif_munlock
extern "C" long verif_sysconf(int);
#include <unistd.h>
#define sysconf verif_sysconf
#define BOOST_RE_REGEX_HPP
#define BOOST_RE_REGEX_HPP_INCLUDED
namespace boost {
struct regex {  // one character class
  unsigned char lo, hi;
};
template <typename S> bool regex_search(const S& s, const regex& r) {
  for (auto c : s) if ((unsigned char)c >= r.lo && (unsigned char)c <= r.hi) return true;
  return false;
}
}
#include "maidsafe/common/crypto.h"
#include "cryptopp/filters.h"
#include "cryptopp/default.h"
#include "cryptopp/hex.h"
#include "cryptopp/secblock.h"
namespace CryptoPP {
struct verif_filter {
  virtual ~verif_filter() {}
  virtual void text(const std::string&) = 0;
};
template <typename S> struct verif_sink : verif_filter {
  explicit verif_sink(S& s) : out(s) {}
  void text(const std::string& t) override { out.append(t.begin(), t.end()); }
  S& out;
};
struct verif_buffered : verif_filter {
  explicit verif_buffered(verif_filter* n) : next(n) {}
  std::unique_ptr<verif_filter> next;
  std::string pending;
  void Put(const unsigned char* p, size_t n) { pending.append(reinterpret_cast<const char*>(p), n); }
  void Put(unsigned char c) { pending.push_back((char)c); }
  void MessageEnd() { std::string p; p.swap(pending); text(p); }
};
struct verif_hex_encoder : verif_buffered {
  explicit verif_hex_encoder(verif_filter* n) : verif_buffered(n) {}
  void text(const std::string& t) override {
    std::string r;
    for (unsigned char c : t) { r.push_back((char)('A' + (c >> 4))); r.push_back((char)('A' + (c & 15))); }
    next->text(r);
  }
};
struct verif_hex_decoder : verif_buffered {
  explicit verif_hex_decoder(verif_filter* n) : verif_buffered(n) {}
  void text(const std::string& t) override {
    std::string r;
    for (size_t i = 0; i + 1 < t.size(); i += 2) r.push_back((char)(((t[i] - 'A') << 4) | ((t[i + 1] - 'A') & 15)));
    next->text(r);
  }
};
struct verif_encryptor : verif_buffered {
  verif_encryptor(const char* passphrase, verif_filter* n) : verif_buffered(n), pass(passphrase) {}
  std::string pass;
  void text(const std::string& t) override {
    std::string r(pass, 0, 2);
    for (char c : t) r.push_back((char)(c ^ 0x5a));
    next->text(r);
  }
};
struct verif_decryptor : verif_buffered {
  verif_decryptor(const char* passphrase, verif_filter* n) : verif_buffered(n), pass(passphrase) {}
  std::string pass;
  void text(const std::string& t) override {
    std::string k(pass, 0, 2);
    if (t.compare(0, k.size(), k) != 0) abort();  // wrong passphrase, or not an encrypted text
    std::string r;
    for (size_t i = k.size(); i < t.size(); ++i) r.push_back((char)(t[i] ^ 0x5a));
    next->text(r);
  }
};
}
#define DefaultEncryptor verif_encryptor
#define DefaultDecryptor verif_decryptor
#define HexEncoder verif_hex_encoder
#define HexDecoder verif_hex_decoder
#define StringSinkTemplate verif_sink
#include <cassert>
#include "maidsafe/common/authentication/detail/secure_string.h"
#undef DefaultEncryptor
#undef DefaultDecryptor
#undef HexEncoder
#undef HexDecoder
#undef StringSinkTemplate
#ifndef VERIF_OWN_HASH
namespace maidsafe { namespace crypto {
template <>
maidsafe::detail::BoundedString<64, 64, authentication::detail::SafeString> Hash<SHA512, authentication::detail::SafeString>(const authentication::detail::SafeString& input);
} }
#endif
