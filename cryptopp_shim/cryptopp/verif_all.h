// A stand-in for the part of Crypto++ which the library uses: the same interface, simple invertible functions instead
// of the primitives.  Every primitive can be made to fail, and records the parameters it was given.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <exception>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace CryptoPP {
typedef unsigned char byte;
typedef uint32_t word32;
const std::string DEFAULT_CHANNEL;

class Exception : public std::exception {
 public:
  explicit Exception(const char* w) : text(w) {}
  const char* what() const noexcept override { return text; }
  const char* text;
};

// ---- what the harness sees and controls
struct Verif {
  bool fail = false;                       // the next primitive fails
  std::vector<byte> key, iv;               // of the last cipher
  int level = -1;                          // of the last compression
  std::vector<byte> password, context;     // of the last key derivation
  unsigned iterations = 0, derivations = 0;
  std::vector<byte> digested;              // of the last digest
  int threshold = 0, shares = 0;           // of the last sharing or recovery
  int filters = 0;                         // alive
};
inline Verif& verif() { static Verif* v = new Verif; return *v; }
inline void verif_try() { if (verif().fail) throw Exception("failed"); }

class BufferedTransformation {
 public:
  BufferedTransformation() { ++verif().filters; }
  virtual ~BufferedTransformation() { --verif().filters; }
  BufferedTransformation(const BufferedTransformation&) = delete;
  void Put(byte b) { Put(&b, 1); }
  void Put(const byte* p, size_t n) { take(p, n); }
  void MessageEnd() { end(); }
  virtual void take(const byte* p, size_t n) = 0;
  virtual void end() {}
};
template <typename S>
class StringSinkTemplate : public BufferedTransformation {
 public:
  explicit StringSinkTemplate(S& s) : out(s) {}
  void take(const byte* p, size_t n) override { out.insert(out.end(), p, p + n); }
  S& out;
};
typedef StringSinkTemplate<std::string> StringSink;
class ArraySink : public BufferedTransformation {
 public:
  ArraySink(byte* b, size_t n) : buffer(b), size(n), total(0) {}
  void take(const byte* p, size_t n) override {
    if (total < size) memcpy(buffer + total, p, std::min(n, size - total));
    total += n;
  }
  uint64_t TotalPutLength() { return total; }
  byte* buffer;
  size_t size, total;
};
// collects a message and turns it into another one
class MessageFilter : public BufferedTransformation {
 public:
  explicit MessageFilter(BufferedTransformation* n) : next(n) {}
  void take(const byte* p, size_t n) override { text.insert(text.end(), p, p + n); }
  void end() override {
    std::vector<byte> out;
    turn(text, out);
    text.clear();
    if (next) {
      if (!out.empty()) next->Put(out.data(), out.size());
      next->MessageEnd();
    }
  }
  virtual void turn(const std::vector<byte>& in, std::vector<byte>& out) = 0;
  std::unique_ptr<BufferedTransformation> next;
  std::vector<byte> text;
};
class ArraySource {
 public:
  ArraySource(const byte* p, size_t n, bool all, BufferedTransformation* a = nullptr) : begin(p), end(p + n), filter(a) { if (all) PumpAll(); }
  void Attach(BufferedTransformation* a) { filter.reset(a); }
  void Pump(size_t n) {
    n = std::min<size_t>(n, end - begin);
    give(begin, n);
    begin += n;
  }
  void PumpAll() {
    if (end != begin) give(begin, end - begin);
    begin = end;
    if (filter) filter->MessageEnd();
  }
  size_t Get(byte* p, size_t n) {
    n = std::min(n, queue.size());
    if (n) memcpy(p, queue.data(), n);
    queue.erase(queue.begin(), queue.begin() + n);
    return n;
  }

 private:
  void give(const byte* p, size_t n) {
    if (filter) filter->Put(p, n);
    else queue.insert(queue.end(), p, p + n);
  }
  const byte *begin, *end;
  std::unique_ptr<BufferedTransformation> filter;
  std::vector<byte> queue;
};
class StringSource : public ArraySource {
 public:
  StringSource(const std::string& s, bool all, BufferedTransformation* a = nullptr) : ArraySource(reinterpret_cast<const byte*>(s.data()), s.size(), all, a) {}
  StringSource(const byte* p, size_t n, bool all, BufferedTransformation* a = nullptr) : ArraySource(p, n, all, a) {}
};
template <typename T>
class member_ptr {
 public:
  void reset(T* p) { ptr.reset(p); }
  T& operator*() { return *ptr; }
  T* operator->() { return ptr.get(); }
  std::unique_ptr<T> ptr;
};
template <typename T>
class vector_member_ptrs {
 public:
  explicit vector_member_ptrs(size_t n) : v(n) {}
  member_ptr<T>& operator[](size_t i) { return v.at(i); }
  std::vector<member_ptr<T>> v;
};
template <typename T>
std::string WordToString(T v) {
  std::string s(sizeof(T), 0);
  for (size_t i = 0; i < sizeof(T); ++i) s[i] = static_cast<char>(v >> (8 * (sizeof(T) - 1 - i)));
  return s;
}
class SecByteBlock {
 public:
  explicit SecByteBlock(size_t n = 0) : v(n) {}
  SecByteBlock(const byte* p, size_t n) : v(p, p + n) {}
  operator byte*() { return v.data(); }
  byte* begin() { return v.data(); }
  byte* data() { return v.data(); }
  const byte* data() const { return v.data(); }
  size_t size() const { return v.size(); }
  byte* BytePtr() { return v.data(); }
  std::vector<byte> v;
};
class Integer {};
class RandomNumberGenerator { public: virtual ~RandomNumberGenerator() {} };
class AES {};
template <typename T> class AutoSeededX917RNG : public RandomNumberGenerator {};
class AutoSeededRandomPool : public RandomNumberGenerator {};

// ---- digests: a function of the length and of every byte
template <int N>
class VerifHash {
 public:
  enum { DIGESTSIZE = N };
  void digest(const std::vector<byte>& in, std::vector<byte>& out) const {
    out.assign(N, static_cast<byte>(in.size()));
    for (size_t i = 0; i < in.size(); ++i) out[i % N] = static_cast<byte>(out[i % N] * 3 + in[i] + N);
  }
};
class SHA1 : public VerifHash<20> {};
class SHA256 : public VerifHash<32> {};
class SHA384 : public VerifHash<48> {};
class SHA512 : public VerifHash<64> {};
template <typename H>
class VerifHashFilter : public MessageFilter {
 public:
  VerifHashFilter(H& h, BufferedTransformation* n) : MessageFilter(n), hash(h) {}
  void turn(const std::vector<byte>& in, std::vector<byte>& out) override {
    verif_try();
    verif().digested = in;
    hash.digest(in, out);
  }
  H& hash;
};
class HashFilter : public MessageFilter {
 public:
  template <int N>
  HashFilter(VerifHash<N>& h, BufferedTransformation* n) : MessageFilter(nullptr), inner(new VerifHashFilter<VerifHash<N>>(h, n)) {}
  void turn(const std::vector<byte>& in, std::vector<byte>&) override {
    inner->Put(in.data(), in.size());
    inner->MessageEnd();
  }
  std::unique_ptr<BufferedTransformation> inner;
};
// ---- key derivation
template <typename H>
class PKCS5_PBKDF2_HMAC {
 public:
  void DeriveKey(byte* out, size_t n, byte, const byte* pw, size_t pn, const byte* salt, size_t sn, unsigned iterations) {
    verif_try();
    auto& v = verif();
    v.password.assign(pw, pw + pn);
    v.context.assign(salt, salt + sn);
    v.iterations = iterations;
    ++v.derivations;
    byte a = static_cast<byte>(iterations), b = static_cast<byte>(iterations >> 8);
    for (size_t i = 0; i < pn; ++i) a = static_cast<byte>(a * 3 + pw[i]);
    for (size_t i = 0; i < sn; ++i) b = static_cast<byte>(b * 5 + salt[i]);
    for (size_t i = 0; i < n; ++i) out[i] = static_cast<byte>(i * 7 + (i % 2 ? a : b));
  }
};
// ---- the authenticated cipher: notices any change of the key, the initialisation vector or the text
enum { GCM_2K_Tables, GCM_64K_Tables };
struct VerifCipher {
  std::vector<byte> key, iv;
  void SetKeyWithIV(const byte* k, size_t n, const byte* i, size_t m) {
    verif_try();
    key.assign(k, k + n);
    iv.assign(i, i + m);
    verif().key = key;
    verif().iv = iv;
  }
};
template <typename C, int T>
struct GCM {
  struct Encryption : VerifCipher {};
  struct Decryption : VerifCipher {};
};
// the tag: the key, the vector and the sum of the text
class AuthenticatedEncryptionFilter : public MessageFilter {
 public:
  AuthenticatedEncryptionFilter(VerifCipher& c, BufferedTransformation* n) : MessageFilter(n), cipher(c) {}
  void turn(const std::vector<byte>& in, std::vector<byte>& out) override {
    verif_try();
    out.push_back(static_cast<byte>(in.size()));
    for (size_t i = 0; i < in.size(); ++i) out.push_back(static_cast<byte>(in[i] ^ (0x5a + i)));
    out.insert(out.end(), cipher.key.begin(), cipher.key.end());
    out.insert(out.end(), cipher.iv.begin(), cipher.iv.end());
    out.insert(out.end(), in.begin(), in.end());
  }
  VerifCipher& cipher;
};
class AuthenticatedDecryptionFilter : public MessageFilter {
 public:
  AuthenticatedDecryptionFilter(VerifCipher& c, BufferedTransformation* n) : MessageFilter(n), cipher(c) {}
  void turn(const std::vector<byte>& in, std::vector<byte>& out) override {
    verif_try();
    size_t over = cipher.key.size() + cipher.iv.size() + 1;
    if (in.size() < over || (in.size() - over) % 2) throw Exception("short");
    size_t n = (in.size() - over) / 2;
    // (the length first: it differs for any shorter text, whatever the bytes are)
    if (n == 0 || in[0] != n) throw Exception("not authentic");
    std::vector<byte> tail(in.begin() + n + 1, in.end());
    unsigned bad = 0;
    for (size_t i = 0; i < n; ++i) {
      out.push_back(static_cast<byte>(in[i + 1] ^ (0x5a + i)));
      bad |= static_cast<unsigned>(out[i] ^ tail[over - 1 + i]);
    }
    for (size_t i = 0; i < cipher.key.size(); ++i) bad |= static_cast<unsigned>(tail[i] ^ cipher.key[i]);
    for (size_t i = 0; i < cipher.iv.size(); ++i) bad |= static_cast<unsigned>(tail[cipher.key.size() + i] ^ cipher.iv[i]);
    if (bad) throw Exception("not authentic");
  }
  VerifCipher& cipher;
};
// ---- compression: a header and the text
class Gzip : public MessageFilter {
 public:
  Gzip(BufferedTransformation* n, unsigned level) : MessageFilter(n) { verif().level = static_cast<int>(level); }
  void turn(const std::vector<byte>& in, std::vector<byte>& out) override {
    verif_try();
    out.push_back(31); out.push_back(139);
    out.insert(out.end(), in.begin(), in.end());
  }
};
class Gunzip : public MessageFilter {
 public:
  explicit Gunzip(BufferedTransformation* n) : MessageFilter(n) {}
  void turn(const std::vector<byte>& in, std::vector<byte>& out) override {
    verif_try();
    if (in.size() < 2 || in[0] != 31 || in[1] != 139) throw Exception("not compressed");
    out.insert(out.end(), in.begin() + 2, in.end());
  }
};
// ---- sharing: each share is the text, masked with its number, and the threshold
class Recovery;
class ChannelSwitch : public BufferedTransformation {
 public:
  ChannelSwitch() : recovery(nullptr) {}
  inline ChannelSwitch(Recovery& r, const std::string& c);
  void AddRoute(const std::string& channel, BufferedTransformation& to, const std::string&) { routes[channel] = &to; }
  inline void take(const byte* p, size_t n) override;
  inline void end() override;
  std::map<std::string, BufferedTransformation*> routes;
  Recovery* recovery;
  std::string channel;
};
class VerifSharing : public MessageFilter {
 public:
  VerifSharing(int t, int n, BufferedTransformation* s) : MessageFilter(s), threshold(t), shares(n) {
    verif().threshold = t;
    verif().shares = n;
  }
  void end() override {
    auto s = static_cast<ChannelSwitch*>(next.get());
    for (int i = 0; i < shares; ++i) {
      auto to = s->routes.find(WordToString<word32>(static_cast<word32>(i)));
      if (to == s->routes.end()) continue;
      std::vector<byte> out(1, static_cast<byte>(threshold));
      for (byte b : text) out.push_back(static_cast<byte>(b ^ (i * 37 + 11)));
      to->second->Put(out.data(), out.size());
      to->second->MessageEnd();
    }
    text.clear();
  }
  void turn(const std::vector<byte>&, std::vector<byte>&) override {}
  int threshold, shares;
};
class SecretSharing : public VerifSharing {
 public:
  SecretSharing(RandomNumberGenerator&, int t, int n, BufferedTransformation* s) : VerifSharing(t, n, s) {}
};
class InformationDispersal : public VerifSharing {
 public:
  InformationDispersal(int t, int n, BufferedTransformation* s) : VerifSharing(t, n, s) {}
};
class Recovery {
 public:
  Recovery(int t, BufferedTransformation* n) : threshold(t), next(n) { verif().threshold = t; }
  void put(const std::string& c, const byte* p, size_t n) { parts[c].insert(parts[c].end(), p, p + n); }
  // enough different shares that agree give the text
  void finish(const std::string& c) {
    verif_try();
    auto& part = parts[c];
    if (c.size() != 4 || part.empty()) return;
    unsigned number = static_cast<byte>(c[3]);
    needed = part[0];
    std::vector<byte> t;
    for (size_t i = 1; i < part.size(); ++i) t.push_back(static_cast<byte>(part[i] ^ (number * 37 + 11)));
    if (!done.empty()) {
      unsigned bad = done[0].size() != t.size();
      for (size_t i = 0; i < t.size() && i < done[0].size(); ++i) bad |= static_cast<unsigned>(t[i] ^ done[0][i]);
      if (bad) return;
    }
    done.push_back(t);
    if (static_cast<int>(done.size()) == threshold && threshold >= needed) {
      next->Put(t.data(), t.size());
      next->MessageEnd();
    }
  }
  int threshold, needed = 0;
  std::unique_ptr<BufferedTransformation> next;
  std::map<std::string, std::vector<byte>> parts;
  std::vector<std::vector<byte>> done;
};
class SecretRecovery : public Recovery { public: using Recovery::Recovery; };
class InformationRecovery : public Recovery { public: using Recovery::Recovery; };
ChannelSwitch::ChannelSwitch(Recovery& r, const std::string& c) : recovery(&r), channel(c) {}
void ChannelSwitch::take(const byte* p, size_t n) { if (recovery) recovery->put(channel, p, n); }
void ChannelSwitch::end() { if (recovery) recovery->finish(channel); }
}  // namespace CryptoPP
