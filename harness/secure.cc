// Secure input: edit histories against a model text.
#include "secure_stub.h"
#include "util.h"
#include "maidsafe/common/authentication/user_credentials.h"
using namespace maidsafe;
using namespace maidsafe::authentication::detail;
using maidsafe::authentication::UserCredentials;

struct Piece { uint64_t pos; std::string text; };
struct Model {
  std::vector<Piece> p;  // in position order
  bool final_ = false;
  std::string whole() const { std::string r; for (auto& x : p) r += x.text; return r; }
  void reopen() {
    if (!final_) return;
    std::string w = whole();
    p.clear();
    for (size_t i = 0; i < w.size(); ++i) p.push_back(Piece{i, std::string(1, w[i])});
    final_ = false;
  }
  size_t find(uint64_t pos) const { for (size_t i = 0; i < p.size(); ++i) if (p[i].pos == pos) return i; return p.size(); }
  void insert(uint64_t pos, const std::string& t) {
    reopen();
    size_t i = 0;
    while (i < p.size() && p[i].pos < pos) ++i;
    bool occupied = i < p.size() && p[i].pos == pos;
    p.insert(p.begin() + i, Piece{pos, t});
    if (occupied) for (size_t k = i + 1; k < p.size(); ++k) p[k].pos = pos + (k - i);  // what follows moves behind it
  }
  bool remove(uint64_t pos, uint64_t len) {
    reopen();
    size_t i = find(pos);
    if (i == p.size() || len == 0 || len > p.size() - i) return false;
    p.erase(p.begin() + i, p.begin() + i + len);
    for (size_t k = i; k < p.size(); ++k) p[k].pos = pos + (k - i);
    return true;
  }
  bool contiguous() const { for (size_t k = 0; k < p.size(); ++k) if (p[k].pos != k) return false; return true; }
};
template <typename In>
static void agree(const In& s, const Model& m) {
  CHECK(s.IsFinalised() == m.final_ && s.IsInitialised() == m.final_, "finalised exactly after a successful finalise or construction");
  if (m.final_) {
    CHECK(same_content(s.string(), m.whole()), "the secret is the characters present, in position order");
    auto h = s.template Hash<crypto::SHA512>();
    CHECK(same_content(h.string(), crypto::Hash<crypto::SHA512>(s.string()).string()), "the hash is that of the secret");
    REACH("final");
  } else {
    CHECK(outcome([&] { s.string(); }, CommonErrors::symmetric_encryption_error) == 1, "reading an unfinalised secret is refused");
    CHECK(outcome([&] { s.template Hash<crypto::SHA512>(); }, CommonErrors::symmetric_encryption_error) == 1, "hashing an unfinalised secret is refused");
    CHECK(outcome([&] { s.Value(); }, CommonErrors::symmetric_encryption_error) == 1, "the value of an unfinalised secret is refused");
    REACH("open");
  }
}
template <typename Predicate, size_t Size>
static void history(long n, SecureInputString<Predicate, Size, PasswordTag>& s, Model& m) {
  agree(s, m);
  for (long i = 0; i < n; ++i) {
    size_t op = sym_choose("op", 4);
    uint64_t pos = sym_u64("pos");
    sym_assume(pos < 6);
    if (op == 0) {
      char c = (char)sym_u8("c");
      s.Insert(pos, c);
      m.insert(pos, std::string(1, c));
      REACH("insert");
    } else if (op == 1) {
      uint64_t len = sym_u64("len");
      bool can = m.remove(pos, len);
      int r = outcome([&] { s.Remove(pos, len); }, CommonErrors::invalid_argument);
      CHECK(r == !can, "a removal succeeds exactly when that many characters are there");
      REACH(can ? "removed" : "refused");
    } else if (op == 2) {
      s.Clear();
      m.p.clear(); m.final_ = false;
      REACH("cleared");
    } else {
      bool count = m.final_ || Predicate()(m.p.size(), Size), ok = m.final_ || (count && m.contiguous());
      int r = outcome([&] { s.Finalise(); }, count ? CommonErrors::invalid_argument : CommonErrors::outside_of_bounds);
      CHECK(r == !ok, "finalising succeeds exactly for a gapless text of permitted length");
      if (ok) m.final_ = true;
      REACH(ok ? "finalised" : "unfinished");
    }
    agree(s, m);
  }
  // whatever happened, the remaining text is what finalising yields
  bool ok = m.final_ || (Predicate()(m.p.size(), Size) && m.contiguous());
  bool got = true;
  try { s.Finalise(); } catch (const maidsafe_error&) { got = false; }
  CHECK(got == ok, "finalising succeeds exactly for a gapless text of permitted length");
  if (ok) { m.final_ = true; agree(s, m); }
}
typedef SecureInputString<std::greater_equal<size_t>, 1, PasswordTag> AtLeast1;
typedef SecureInputString<std::less_equal<size_t>, 2, PasswordTag> AtMost2;
extern "C" void sec_history(long n) { AtLeast1 s; Model m; history(n, s, m); }
extern "C" void sec_most(long n) { AtMost2 s; Model m; history(n, s, m); }
// starting from a text of n/10 characters, n%10 operations
extern "C" void sec_edit(long n) {
  std::string t = sym_string("t", n / 10);
  Model m;
  m.p.push_back(Piece{0, t}); m.final_ = true;
  if (n % 20 >= 10 || n / 10 == 0) {
    std::unique_ptr<AtLeast1> s;
    int r = outcome([&] { s.reset(new AtLeast1(t)); }, CommonErrors::outside_of_bounds);
    CHECK(r == t.empty(), "a text of forbidden length is refused");
    if (s) history(n % 10, *s, m);
  } else {
    std::unique_ptr<AtMost2> s;
    int r = outcome([&] { s.reset(new AtMost2(SafeString(t.begin(), t.end()))); }, CommonErrors::outside_of_bounds);
    CHECK(r == (t.size() > 2), "a text of forbidden length is refused");
    if (s) history(n % 10, *s, m);
  }
  REACH("edited");
}
// texts inserted whole
extern "C" void sec_texts(long n) {
  std::string a = sym_string("a", n / 10), b = sym_string("b", n % 10);
  AtLeast1 s;
  uint64_t p = sym_u64("pos");
  sym_assume(p < 3);
  s.Insert(p, a);
  s.Insert(0, b);
  s.Insert(1, 'x');
  Model m;
  m.insert(p, a); m.insert(0, b); m.insert(1, "x");
  history(0, s, m);
  s.Insert(1, 'y'); m.insert(1, "y");
  history(0, s, m);
  REACH("texts");
}
extern "C" void sec_valid(long n) {
  boost::regex r{sym_u8("lo"), sym_u8("hi")};
  std::string t = sym_string("t", n);
  bool want = n >= 1;
  for (char c : t) want &= ((unsigned char)c >= r.lo) & ((unsigned char)c <= r.hi);
  AtLeast1 s;
  for (long i = 0; i < n; ++i) s.Insert(i, t[i]);
  CHECK(s.IsValid(r) == want, "valid exactly when the length is permitted and every character matches");
  if (n) {
    s.Finalise();
    CHECK(s.IsValid(r) == want, "validity does not change by finalising");
    AtLeast1 d(t);
    CHECK(d.IsValid(r) == want, "a constructed secret is judged alike");
    s.Insert(n + 1, t[0]);
    CHECK(!s.IsValid(r), "a text with a gap is not valid");
  }
  AtMost2 u;
  for (long i = 0; i < n; ++i) u.Insert(i, t[i]);
  CHECK(u.IsValid(r) == (n == 0 || (want && n <= 2)), "valid only within the permitted length");
  REACH("valid");
}
extern "C" void sec_value(long n) {
  std::string t = sym_string("t", n);
  bool digits = true;
  uint64_t v = 0;
  for (char c : t) { digits &= (c >= '0') & (c <= '9'); v = v * 10 + (unsigned char)(c - '0'); }
  UserCredentials::Pin p;
  for (long i = n; i > 0; --i) p.Insert(i - 1, t[i - 1]);
  p.Finalise();
  if (digits) { CHECK(p.Value() == v, "the value of a number text"); REACH("number"); }
  else if ((unsigned char)t[0] >= ':') { bool threw = false; try { p.Value(); } catch (const std::exception&) { threw = true; } CHECK(threw, "no value for a text that does not start with a number"); REACH("text"); }
}
// the text and hash concatenations used for the credentials
extern "C" void sec_concat(long n) {
  std::string a = sym_string("a", n / 10), b = sym_string("b", n % 10);
  SafeString x(a.begin(), a.end()), y(b.begin(), b.end());
  CHECK(same_content(x + y, a + b), "concatenation");
  std::string h = sym_string("h", 64);
  SecureString::Hash H(SafeString(h.begin(), h.end()));
  CHECK(same_content(H + x, h + a), "concatenation after a hash");
  CHECK(same_content(x + H, a + h), "concatenation before a hash");
  SecureString s(a), e;
  CHECK(same_content(s.string(), a), "a secure string gives back its text");
  for (char c : a) e.Append(c);
  e.Append(b);
  e.Finalise();
  CHECK(same_content(e.string(), a + b), "a secure string gives back what was appended");
  e.Clear(); e.Append(b); e.Finalise();
  CHECK(same_content(e.string(), b), "a cleared secure string holds what was appended since");
  UserCredentials u, w;
  u.pin.reset(new UserCredentials::Pin(std::string("1")));
  u.password.reset(new UserCredentials::Password(a + "p"));
  u.keyword.reset(new UserCredentials::Keyword(b + "k"));
  UserCredentials v(std::move(u));
  w = std::move(v);
  CHECK(same_content(w.pin->string(), std::string("1")) && same_content(w.password->string(), a + "p") && same_content(w.keyword->string(), b + "k"), "moved credentials keep each secret in its place");
  CHECK(!v.pin && !v.password && !v.keyword && !u.pin && !u.password && !u.keyword, "moved-from credentials hold none");
  REACH("concat");
}
extern "C" int verif_mlock(const void*, size_t) { return 0; }
extern "C" int verif_munlock(const void*, size_t) { return 0; }
extern "C" long verif_sysconf(int) { return 4096; }
