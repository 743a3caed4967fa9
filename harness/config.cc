// The recorded location of the running program.
#include "util.h"
#include <cerrno>
#include <limits.h>
#include <cstring>
#include "maidsafe/common/config.h"
using namespace maidsafe;
extern bool fs_cwd_fails;
static long link_len;        // what the operating system has: -1 = the link cannot be read
static std::string link_text;
static int link_calls;
extern "C" ssize_t verif_readlink(const char* path, char* buf, size_t size) noexcept {
  ++link_calls;
  CHECK(!strcmp(path, "/proc/self/exe"), "the link asked for");
  if (link_len < 0) { errno = EACCES; return -1; }
  size_t n = (size_t)link_len < size ? (size_t)link_len : size;
  for (size_t i = 0; i < n; ++i) buf[i] = link_text[i];
  return (ssize_t)n;
}
static std::string absolute(const std::string& s) {
  if (s.size() && s[0] == '/') return s;
  if (fs_cwd_fails) return s;
  return s.empty() ? "/cwd" : "/cwd/" + s;
}
static std::string parent(const std::string& s) {
  size_t p = s.rfind('/');
  if (p == std::string::npos || s == "/") return "";
  while (p && s[p - 1] == '/') --p;
  return p ? s.substr(0, p) : "/";
}
static std::string path_text(const char* n, size_t len) {
  std::string s = sym_string(n, len);
  for (char c : s) sym_assume(c != 0);
  return s;
}
static void expect(const std::string& want) {
  std::string got;
  int o = outcome([&] { got = ThisExecutablePath().string(); }, CommonErrors::uninitialised);
  if (want.empty()) { CHECK(o == 1, "no path is known: uninitialised"); CHECK(outcome([&] { ThisExecutableDir(); }, CommonErrors::uninitialised) == 1, "nor a directory"); REACH("none"); return; }
  CHECK(o == 0, "the path is known");
  CHECK(same_content(got, want), "the path reported by the system (or else the one the program was started with), made absolute");
  CHECK(same_content(ThisExecutableDir().string(), parent(want)), "the directory is the parent of the path");
}
// a = 10 * length class + length of argv[0]
extern "C" void cfg_path(long a) {
  static const long lens[] = {-1, 0, 1, 2, 3, PATH_MAX - 2, PATH_MAX - 1};
  link_len = lens[a / 10];
  std::string arg = path_text("argv0", a % 10);
  if (link_len > 0) {
    link_text = path_text("link", link_len > 3 ? 3 : link_len);
    if (link_len > 3) link_text += std::string(link_len - 3, 'x');
  }
  fs_cwd_fails = sym_bool("cwd_fails");
  expect("");
  const char* argv[] = {arg.c_str(), nullptr};
  SetThisExecutablePath(argv);
  std::string want = absolute(link_len > 0 ? link_text : arg);
  expect(want);
  link_len = 2;
  link_text = "/z";
  const char* again[] = {"/other", nullptr};
  SetThisExecutablePath(again);
  expect(want);
  REACH("set");
}
// a link text longer than the buffer: whatever is reported, nothing is read or written outside the buffer
extern "C" void cfg_long(long more) {
  link_len = PATH_MAX + more;
  link_text = std::string(link_len, 'x');
  link_text[0] = '/';
  const char* argv[] = {"/fallback", nullptr};
  SetThisExecutablePath(argv);
  std::string got = ThisExecutablePath().string();
  CHECK(got == "/fallback" || (got.size() >= PATH_MAX - 1 && got.size() <= PATH_MAX && got == link_text.substr(0, got.size())), "a prefix of the link, or the start path");
  REACH("long");
}
extern "C" void cfg_wide(long n) {
  std::string s = path_text("argv0", n);
  std::wstring w;
  for (char c : s) { sym_assume((unsigned char)c < 128); w += (wchar_t)c; }
  fs_cwd_fails = sym_bool("cwd_fails");
  const wchar_t* argv[] = {w.c_str(), nullptr};
  SetThisExecutablePath(argv);
  std::string want = absolute(s);
  expect(want);
  const wchar_t* again[] = {L"/other", nullptr};
  SetThisExecutablePath(again);
  expect(want);
  REACH("wide");
}
extern "C" void cfg_target(long) {
  CHECK(kTargetPlatform() == BOOST_PP_STRINGIZE(TARGET_PLATFORM) && kTargetPlatform() == kTargetPlatform(), "platform as built");
  CHECK(kTargetArchitecture() == BOOST_PP_STRINGIZE(TARGET_ARCHITECTURE), "architecture as built");
  CHECK(kApplicationVersion() == BOOST_PP_STRINGIZE(APPLICATION_VERSION_MAJOR) "." BOOST_PP_STRINGIZE(APPLICATION_VERSION_MINOR) "." BOOST_PP_STRINGIZE(APPLICATION_VERSION_PATCH), "version as built");
  REACH("target");
}
