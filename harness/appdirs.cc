// Where an application keeps its files. The account and the environment are stand-ins.
#include "util.h"
#include <cstdlib>
#include <pwd.h>
#include <unistd.h>
extern "C" struct passwd* verif_getpwuid(uid_t);
extern "C" uid_t verif_getuid();
namespace std { char* verif_getenv(const char*); }
#define getpwuid verif_getpwuid
#define getuid verif_getuid
#define getenv verif_getenv
#define COMPANY_NAME MaidSafe
#define APPLICATION_NAME Vault
#include "maidsafe/common/application_support_directories.h"
#undef getpwuid
#undef getuid
#undef getenv
using namespace maidsafe;
static bool account;
static std::string* account_home;
static const char* home;
static uid_t me;
static bool other_asked;
__attribute__((noinline, optnone)) struct passwd* verif_getpwuid(uid_t u) {
  static struct passwd p;
  if (u != me) other_asked = true;
  if (!account) return nullptr;
  p.pw_dir = const_cast<char*>(account_home->c_str());
  return &p;
}
uid_t verif_getuid() { return me; }
namespace std { __attribute__((noinline, optnone)) char* verif_getenv(const char* n) { CHECK(std::string(n) == "HOME", "the variable for the home directory"); return const_cast<char*>(home); } }
// n characters of home directory in the account
extern "C" void ad_home(long n) {
  account = sym_choose("account", 2) == 1;
  me = sym_u32("user");
  account_home = new std::string;
  for (long i = 0; i < n; ++i) { char c = (char)sym_u8("home"); sym_assume(c != 0 && c != '/'); *account_home += c; }
  if (n) *account_home = "/" + *account_home;
  const char* const homes[] = {nullptr, "", "/h", "/root"};
  home = homes[sym_choose("HOME", 4)];
  std::string want = account && n ? *account_home : home ? home : "";
  boost::filesystem::path p, q;
  CHECK(outcome([&] { p = GetHomeDir(); }, CommonErrors::unknown) == 0, "looking for the home directory does not throw");
  CHECK(!other_asked, "the account of this user");
  CHECK(same_content(p.native(), want), "the directory of the account, else HOME, else none");
  CHECK(outcome([&] { q = GetUserAppDir(); }, CommonErrors::unknown) == 0, "nor does looking for that of the application");
  CHECK(same_content(q.native(), want.empty() ? want : want + "/.config/MaidSafe/Vault"), "below the home directory, or none if there is none");
  if (want.empty()) REACH("none"); else REACH("some");
  CHECK(GetSystemAppSupportDir().native() == "/opt/MaidSafe/sbin" && GetAppInstallDir().native() == "/usr/bin/", "the directories for all users");
}
