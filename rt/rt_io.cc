// Engine-only model of the compiled part of libstdc++'s iostreams: classic "C" locale, in-memory streams,
// std::cout/cerr/clog/cin as sinks/empty sources.
#include <cstdlib>
#include <cstring>
#include <bits/localefwd.h>
#include <bits/locale_classes.h>
namespace std {
#define DECL(F) template <> const F* __try_use_facet<F>(const locale&) noexcept; template <> const F& use_facet<F>(const locale&); template <> bool has_facet<F>(const locale&) noexcept;
DECL(ctype<char>) DECL(num_put<char>) DECL(num_get<char>) DECL(numpunct<char>)
}
#include <iostream>
#include <iomanip>
#include <locale>
#include <new>
#include <sstream>
#include <streambuf>
namespace std {
// ---- locale: a single immutable classic locale
static long impl_store[16];  // no installed facets (those of char are found without it)
#define IMPL (reinterpret_cast<locale::_Impl*>(impl_store))
locale::locale() throw() : _M_impl(IMPL) {}
locale::locale(const locale& o) throw() : _M_impl(IMPL) {}
locale::locale(_Impl*) throw() : _M_impl(IMPL) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale&) throw() { return *this; }
bool locale::operator==(const locale&) const throw() { return true; }
string locale::name() const { return "C"; }
static char loc_store[sizeof(locale)];
const locale& locale::classic() { *(void**)loc_store = impl_store; return *reinterpret_cast<locale*>(loc_store); }
locale locale::global(const locale&) { return locale(); }
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
locale::facet::~facet() {}
size_t locale::id::_M_id() const throw() { return 0; }
locale::id ctype<char>::id, ctype<wchar_t>::id;
#define DEFID(T) template <> locale::id T::id;

// ---- ctype<char>
static ctype_base::mask ctab[256];
const ctype_base::mask ctype_base::upper, ctype_base::lower, ctype_base::alpha, ctype_base::digit, ctype_base::xdigit, ctype_base::space, ctype_base::print, ctype_base::graph,
    ctype_base::cntrl, ctype_base::punct, ctype_base::alnum, ctype_base::blank;
static struct CtabInit {
  CtabInit() {
    for (int c = 0; c < 128; ++c) {
      ctype_base::mask m = 0;
      bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9';
      if (up) m |= ctype_base::upper;
      if (lo) m |= ctype_base::lower;
      if (up || lo) m |= ctype_base::alpha;
      if (di) m |= ctype_base::digit;
      if (di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit;
      if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space;
      if (c == ' ' || c == 9) m |= ctype_base::blank;
      if (c >= 32 && c < 127) m |= ctype_base::print;
      if (c < 32 || c == 127) m |= ctype_base::cntrl;
      if (c > 32 && c < 127 && !(up || lo || di)) m |= ctype_base::punct;
      ctab[c] = m;
    }
  }
} ctabInit __attribute__((init_priority(101)));
ctype<char>::ctype(const mask* t, bool, size_t refs) : facet(refs), _M_c_locale_ctype(), _M_del(false), _M_toupper(), _M_tolower(), _M_table(t ? t : ctab), _M_widen_ok(1), _M_narrow_ok(1) {
  for (int i = 0; i < 256; ++i) _M_widen[i] = _M_narrow[i] = (char)i;
}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; ++a) *a = do_toupper(*a); return b; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; ++a) *a = do_tolower(*a); return b; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}

// ---- facets
template <typename F> struct Store { alignas(F) char b[sizeof(F)]; };
static Store<ctype<char>> s_ct; static Store<num_put<char>> s_np; static Store<num_get<char>> s_ng; static Store<numpunct<char>> s_pu; static Store<__numpunct_cache<char>> s_nc;
template <> const ctype<char>* __try_use_facet<ctype<char>>(const locale&) noexcept { return (const ctype<char>*)s_ct.b; }
template <> const num_put<char>* __try_use_facet<num_put<char>>(const locale&) noexcept { return (const num_put<char>*)s_np.b; }
template <> const num_get<char>* __try_use_facet<num_get<char>>(const locale&) noexcept { return (const num_get<char>*)s_ng.b; }
template <> const numpunct<char>* __try_use_facet<numpunct<char>>(const locale&) noexcept { return (const numpunct<char>*)s_pu.b; }
template <> const ctype<char>& use_facet<ctype<char>>(const locale&) { return *(const ctype<char>*)s_ct.b; }
template <> const num_put<char>& use_facet<num_put<char>>(const locale&) { return *(const num_put<char>*)s_np.b; }
template <> const num_get<char>& use_facet<num_get<char>>(const locale&) { return *(const num_get<char>*)s_ng.b; }
template <> const numpunct<char>& use_facet<numpunct<char>>(const locale&) { return *(const numpunct<char>*)s_pu.b; }
template <> bool has_facet<ctype<char>>(const locale&) noexcept { return true; }
template <> bool has_facet<num_put<char>>(const locale&) noexcept { return true; }
template <> bool has_facet<num_get<char>>(const locale&) noexcept { return true; }
template <> bool has_facet<numpunct<char>>(const locale&) noexcept { return true; }
template <> numpunct<char>::~numpunct() {}
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {}
template <> struct __use_cache<__numpunct_cache<char>> {
  const __numpunct_cache<char>* operator()(const locale&) const { return (const __numpunct_cache<char>*)s_nc.b; }
};
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
void __num_base::_S_format_float(const ios_base&, char* f, char m) throw() { f[0] = '%'; f[1] = 'g'; f[2] = 0; }
}  // namespace std
template class std::num_put<char>;
template class std::num_get<char>;
namespace std {
static struct FacetInit {
  FacetInit() {
    new (s_ct.b) ctype<char>(nullptr, false, 1);
    new (s_np.b) num_put<char>(1);
    new (s_ng.b) num_get<char>(1);
    auto* c = new (s_nc.b) __numpunct_cache<char>(1);
    c->_M_grouping = ""; c->_M_grouping_size = 0; c->_M_use_grouping = false;
    c->_M_truename = "true"; c->_M_truename_size = 4; c->_M_falsename = "false"; c->_M_falsename_size = 5;
    c->_M_decimal_point = '.'; c->_M_thousands_sep = ',';
    memcpy(c->_M_atoms_out, __num_base::_S_atoms_out, __num_base::_S_oend);
    memcpy(c->_M_atoms_in, __num_base::_S_atoms_in, __num_base::_S_iend);
    c->_M_allocated = false;
  }
} facetInit __attribute__((init_priority(102)));

// ---- ios_base
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale& l) throw() { return l; }
bool ios_base::sync_with_stdio(bool) { return true; }
void ios_base::_M_move(ios_base& r) noexcept {
  _M_precision = r._M_precision; _M_width = r._M_width; _M_flags = r._M_flags; _M_exception = r._M_exception; _M_streambuf_state = r._M_streambuf_state;
}
void ios_base::_M_swap(ios_base& r) noexcept { std::swap(_M_precision, r._M_precision); std::swap(_M_width, r._M_width); std::swap(_M_flags, r._M_flags); }
ios_base::failure::failure(const string& s) : system_error(make_error_code(io_errc::stream), s) {}
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const noexcept { return "iostream error"; }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(s); }
namespace { struct io_cat : error_category { const char* name() const noexcept override { return "iostream"; } string message(int) const override { return "iostream error"; } }; }
const error_category& iostream_category() noexcept { static io_cat c; return c; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
}  // namespace std
template class std::basic_ios<char>;
template class std::basic_streambuf<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_stringbuf<char>;
template class std::basic_istringstream<char>;
template class std::basic_ostringstream<char>;
template class std::basic_stringstream<char>;
namespace std {
template ostream& endl(ostream&);
template ostream& ends(ostream&);
template ostream& flush(ostream&);
template ostream& operator<<(ostream&, char);
template ostream& operator<<(ostream&, unsigned char);
template ostream& operator<<(ostream&, const char*);
template ostream& operator<<(ostream&, const unsigned char*);
template ostream& operator<<(ostream&, const string&);
template ostream& ostream::_M_insert(long);
template ostream& ostream::_M_insert(unsigned long);
template ostream& ostream::_M_insert(bool);
template ostream& ostream::_M_insert(long long);
template ostream& ostream::_M_insert(unsigned long long);
template ostream& ostream::_M_insert(double);
template ostream& ostream::_M_insert(const void*);
template ostream& __ostream_insert(ostream&, const char*, streamsize);
template istream& ws(istream&);
template istream& operator>>(istream&, char&);
template istream& getline(istream&, string&);
template istream& istream::_M_extract(unsigned short&);
template istream& istream::_M_extract(unsigned int&);
template istream& istream::_M_extract(long&);
template istream& istream::_M_extract(unsigned long&);
template istream& istream::_M_extract(long long&);
template istream& istream::_M_extract(unsigned long long&);
template istream& istream::_M_extract(bool&);
// declared as explicit specialisations by <bits/basic_string.h>
template <> istream& getline(istream& in, string& s, char delim) {
  ios_base::iostate err = ios_base::goodbit;
  size_t n = 0;
  istream::sentry ok(in, true);
  if (ok) {
    s.erase();
    for (;;) {
      int c = in.rdbuf()->sbumpc();
      if (c == EOF) { err |= ios_base::eofbit; break; }
      ++n;
      if ((char)c == delim) break;
      s.push_back((char)c);
    }
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> istream& operator>>(istream& in, string& s) {
  ios_base::iostate err = ios_base::goodbit;
  size_t n = 0;
  istream::sentry ok(in, false);
  if (ok) {
    s.erase();
    streamsize w = in.width(), lim = w > 0 ? w : (streamsize)((size_t)-1 >> 1);
    for (int c = in.rdbuf()->sgetc(); (streamsize)n < lim; c = in.rdbuf()->snextc()) {
      if (c == EOF) { err |= ios_base::eofbit; break; }
      if (ctab[(unsigned char)c] & ctype_base::space) break;
      s.push_back((char)c);
      ++n;
    }
    in.width(0);
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
// the standard streams: memory buffers the harness may inspect (rt_cout) or fill (rt_cin)
}  // namespace std
template <> std::istream& std::istream::ignore(std::streamsize n) { while (n-- > 0 && rdbuf()->sbumpc() != EOF) {} return *this; }
template <> std::istream& std::istream::ignore(std::streamsize n, int d) { while (n-- > 0) { int c = rdbuf()->sbumpc(); if (c == EOF) { setstate(ios_base::eofbit); break; } if (c == d) break; } return *this; }
static char st_buf[4][sizeof(std::stringbuf)] __attribute__((aligned(16)));
namespace std { ostream cout __attribute__((init_priority(103)))((streambuf*)st_buf[0]); ostream cerr __attribute__((init_priority(103)))((streambuf*)st_buf[1]); ostream clog __attribute__((init_priority(103)))((streambuf*)st_buf[2]); istream cin __attribute__((init_priority(103)))((streambuf*)st_buf[3]); }
static struct StInit { StInit() { for (int i = 0; i < 4; ++i) new (st_buf[i]) std::stringbuf(); std::cout.rdbuf((std::streambuf*)st_buf[0]); std::cerr.rdbuf((std::streambuf*)st_buf[1]); std::clog.rdbuf((std::streambuf*)st_buf[2]); std::cin.rdbuf((std::streambuf*)st_buf[3]); } } stInit __attribute__((init_priority(104)));
