// Command lines of child processes, whether one runs, and the paths of its neighbours.
#include "util.h"
#include <cerrno>
#include <csignal>
#include "maidsafe/common/config.h"
#include "maidsafe/common/process.h"
using namespace maidsafe;
static int kill_result, kill_errno, kill_calls;
extern "C" int verif_kill(pid_t p, int sig) noexcept {
  ++kill_calls;
  CHECK(sig == 0, "no signal is sent");
  CHECK(p == 4242, "the process asked about");
  if (kill_result) errno = kill_errno;
  return kill_result;
}
extern "C" ssize_t verif_readlink(const char*, char*, size_t) noexcept { errno = EACCES; return -1; }
// arg: decimal digits = lengths of the arguments + 1, first argument first
extern "C" void pr_command(long a) {
  long lens[4], n = 0, rev[4];
  for (; a; a /= 10) rev[n++] = a % 10 - 1;
  for (long i = 0; i < n; ++i) lens[i] = rev[n - 1 - i];
  std::vector<std::string> args;
  for (long i = 0; i < n; ++i) args.push_back(sym_string("arg", lens[i]));
  const std::vector<std::string> before = args;
  std::string got = process::ConstructCommandLine(args);
  std::string want;
  if (n) {
    bool quoted = args[0].size() && args[0][0] == '"';
    want = quoted ? args[0] : "\"" + args[0] + "\"";
    REACH(quoted ? "quoted" : "plain");
    for (long i = 1; i < n; ++i) if (args[i].size()) want += " " + args[i];
  }
  if (got.size() == want.size() + 1) { CHECK(got[want.size()] == ' ', "nothing but a blank follows"); got.resize(want.size()); }
  CHECK(same_content(got, want), "the program in quotes and every argument, in order, separated by one blank");
  REACH("line");
}
extern "C" void pr_running(long k) {
  static const int errs[] = {ESRCH, EPERM, EINVAL};
  errno = sym_choose("stale errno", 2) ? ESRCH : 0;
  kill_result = k ? -1 : 0;
  if (k) kill_errno = errs[k - 1];
  bool r = false;
  int o = outcome([&] { r = process::IsRunning((pid_t)4242); }, CommonErrors::invalid_argument);
  CHECK(kill_calls == 1, "asked once");
  if (k == 0) { CHECK(o == 0 && r, "a process that can be signalled runs"); REACH("runs"); }
  else if (k == 1) { CHECK(o == 0 && !r, "no such process"); REACH("ended"); }
  else { CHECK(o == 1, "not known: reported as an error"); REACH("unknown"); }
}
extern "C" void pr_other(long n) {  // n = 10 * length of the extension of this program + length of the name
  std::string ext(n / 10 ? "." + sym_string("ext", n / 10 - 1) : ""), name = sym_string("name", n % 10);
  for (char c : ext.substr(ext.size() ? 1 : 0)) sym_assume((c != 0) & (c != '/') & (c != '.'));
  for (char c : name) sym_assume((c != 0) & (c != '/') & (c != '.'));
  std::string self = "/bin/here/prog" + ext;
  const char* argv[] = {self.c_str(), nullptr};
  SetThisExecutablePath(argv);
  CHECK(same_content(process::GetOtherExecutablePath(name).string(), "/bin/here/" + name + ext), "beside this program, with its extension");
  REACH("other");
}
