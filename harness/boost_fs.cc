// The part of libboost_filesystem the code under analysis uses, on an invented working directory.
#include "sym.h"
#include "boost/filesystem/operations.hpp"
#include "boost/filesystem/path.hpp"
#include <codecvt>
bool fs_cwd_fails = false;
namespace boost { namespace filesystem {
namespace detail {
static size_t parent_size(const std::string& s) {
  size_t n = s.size();
  while (n && s[n - 1] != '/') --n;             // the last component
  while (n > 1 && s[n - 1] == '/') --n;         // its separators, but not the root
  if (n == 1 && s[0] == '/' && s.size() == 1) return 0;
  return n;
}
path::string_type::size_type path_algorithms::find_parent_path_size(path const& p) { return parent_size(p.native()); }
static size_t name_size(const std::string& s) {  // the last component
  size_t n = s.size();
  while (n && s[n - 1] != '/') --n;
  return s.size() - n;
}
static size_t ext_size(const std::string& s) {
  size_t n = name_size(s), b = s.size() - n;
  if (n == 0 || (n == 1 && s[b] == '.') || (n == 2 && s[b] == '.' && s[b + 1] == '.')) return 0;
  for (size_t i = s.size(); i > b; --i) if (s[i - 1] == '.') return s.size() - (i - 1);
  return 0;
}
path::string_type::size_type path_algorithms::find_filename_v4_size(path const& p) { return name_size(p.native()); }
path path_algorithms::filename_v3(path const& p) { size_t n = name_size(p.native()); return path(p.native().substr(p.native().size() - n)); }
path path_algorithms::extension_v3(path const& p) { size_t n = ext_size(p.native()); return path(p.native().substr(p.native().size() - n)); }
void path_algorithms::replace_extension_v3(path& p, path const& e) {
  std::string s = p.native().substr(0, p.native().size() - ext_size(p.native()));
  if (!e.native().empty() && e.native()[0] != '.') s += '.';
  p = path(s + e.native());
}
void path_algorithms::append_v3(path& l, const char* b, const char* e) {
  std::string s = l.native(), r(b, e);
  if (r.empty()) return;
  if (!s.empty() && s[s.size() - 1] != '/' && r[0] != '/') s += '/';
  l = path(s + r);
}
path current_path(system::error_code* ec) {
  if (fs_cwd_fails) {
    if (!ec) throw std::runtime_error("current_path");
    *ec = system::error_code(2, system::generic_category());
    return path();
  }
  return path("/cwd");
}
path absolute(path const& p, path const& base, system::error_code*) {
  if (p.native().size() && p.native()[0] == '/') return p;
  return path(p.empty() ? base.native() : base.native() + "/" + p.native());
}
namespace path_traits {
void convert(const wchar_t* b, const wchar_t* e, std::string& to, const codecvt_type*) { for (; b != e; ++b) to += (char)*b; }
}
}
const path::codecvt_type& path::codecvt() { static char c[64]; return *(const path::codecvt_type*)c; }
} }
