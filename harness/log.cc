// Logging: options, filter, and where a message goes. The terminal, files, clock text and the option parser are stand-ins.
#include "util.h"
#include <cerrno>
#include <climits>
#include <thread>
#include "boost/filesystem/operations.hpp"
#include "maidsafe/common/log.h"
using namespace maidsafe;
using namespace maidsafe::log;
namespace fs = boost::filesystem;
std::vector<std::pair<std::string, std::string>>* verif_config_options;
std::map<std::string, verif_log_file>* verif_log_files;
bool verif_config_there;
verif_net* verif_network;
static long long now_ns = 1000000123;
static std::string* console;
static bool tty;
static const char* term;
static bool folder_there, folder_fails, folder_is_file;
static std::string* folder_asked;
extern "C" int verif_printf(const char* f, ...) {
  va_list a;
  va_start(a, f);
  for (; *f; ++f) {
    if (f[0] == '%' && f[1] == 's') { *console += va_arg(a, const char*); ++f; }
    else *console += *f;
  }
  va_end(a);
  return 0;
}
extern "C" int verif_isatty(int) { return tty; }
extern "C" ssize_t verif_readlink(const char*, char*, size_t) noexcept { errno = EACCES; return -1; }
namespace std {
size_t verif_strftime(char* to, size_t n, const char*, const tm*) { const char t[] = "TIME."; if (n < sizeof t) return 0; for (size_t i = 0; i < sizeof t; ++i) to[i] = t[i]; return sizeof t - 1; }
struct tm* verif_gmtime(const time_t*) { static struct tm t; return &t; }
struct tm* verif_localtime(const time_t*) { static struct tm t; return &t; }
char* verif_getenv(const char*) { return const_cast<char*>(term); }
}
namespace boost { namespace filesystem { namespace detail {
file_status status(path const& p, system::error_code* ec) { if (ec) ec->clear(); *folder_asked = p.native(); return file_status(folder_is_file ? regular_file : folder_there ? directory_file : file_not_found); }
bool create_directories(path const& p, system::error_code* ec) { *folder_asked = p.native(); if (ec) ec->clear(); if (folder_fails) { if (ec) *ec = system::error_code(13, system::generic_category()); return false; } folder_there = true; return true; }
path temp_directory_path(system::error_code*) { return path("/tmp"); }
} } }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(now_ns)); } } } }
static const char* const kNames[] = {"api", "common", "crux", "drive", "encrypt", "launcher", "nfs", "passport", "routing", "vault", "vault_manager"};
static void set_up() {
  verif_config_options = new std::vector<std::pair<std::string, std::string>>;
  verif_log_files = new std::map<std::string, verif_log_file>;
  console = new std::string;
  verif_network = new verif_net;
  folder_asked = new std::string;
}
static std::vector<std::string> start(const std::vector<std::string>& options) {
  std::vector<std::string>* keep = new std::vector<std::string>(options);
  char** argv = new char*[options.size() + 2];
  argv[0] = const_cast<char*>("/bin/prog");
  for (size_t i = 0; i < keep->size(); ++i) argv[i + 1] = const_cast<char*>((*keep)[i].c_str());
  argv[options.size() + 1] = nullptr;
  std::vector<std::vector<char>> r;
  int o = outcome([&] { r = Logging::Instance().Initialise((int)options.size() + 1, argv); }, CommonErrors::unknown);
  CHECK(o == 0, "initialising does not throw");
  std::vector<std::string> back;
  for (auto& v : r) {
    CHECK(v.size() > 0 && v.back() == 0, "an argument handed back ends with a zero");
    back.push_back(std::string(v.begin(), v.end() - 1));
  }
  return back;
}
static const char* const kLevels[6][4] = {{"v", "verbose", "kverbose", "-1"}, {"i", "info", "kinfo", "0"}, {"s", "success", "ksuccess", "1"}, {"w", "warning", "kwarning", "2"}, {"e", "error", "kerror", "3"}, {"a", "always", "kalways", "4"}};
// every spelling of every level, in any case
extern "C" void lg_level(long) {
  set_up();
  int l = (int)sym_choose("level", 6), f = (int)sym_choose("form", 4);
  std::string text = kLevels[l][f];
  for (auto& c : text) {
    bool up = sym_bool("upper");
    bool letter = c >= 'a' && c <= 'z';
    c = (char)(c - (letter ? (unsigned char)up * 32 : 0));
  }
  start({"--log_folder", "", "--log_config", "", "--log_nfs=" + text});
  FilterMap m = Logging::Instance().Filter();
  CHECK(m.size() == 1 && m.count("nfs") == 1, "the named project only");
  CHECK(m["nfs"] == l - 1, "a level as it is spelled, in any case");
  REACH("level");
}
// which projects get which level, and what is handed back: a = number of options
extern "C" void lg_options(long n) {
  set_up();
  std::vector<std::string> args, back;
  const char* const names[] = {"api", "common", "vault", "vault_manager"};
  int want[4] = {-9, -9, -9, -9}, all = -9;
  bool console_off = false, direct = false, help = false;
  args.push_back("--log_folder");
  args.push_back("");
  for (long i = 0; i < n; ++i) {
    int l = (int)sym_choose("level", 2) * 3, k = (int)sym_choose("kind", 11);
    bool split = k < 5 && sym_choose("split", 2) == 1;
    auto opt = [&](const std::string& name) { if (split) { args.push_back(name); args.push_back(kLevels[l][0]); } else args.push_back(name + "=" + kLevels[l][0]); };
    if (k < 4) { if (want[k] != -9) return; opt(std::string("--log_") + names[k]); want[k] = l - 1; }
    else if (k == 4) { if (all != -9) return; opt("--log_*"); all = l - 1; }
    else if (k == 5) { if (console_off) return; args.push_back("--log_no_console"); console_off = true; }
    else if (k == 6) { if (direct) return; args.push_back("--log_no_async"); direct = true; }
    else if (k == 7) { args.push_back("--other=3"); back.push_back("--other=3"); }
    else if (k == 8) { args.push_back("word"); back.push_back("word"); }
    else if (k == 9) { args.push_back("-x"); back.push_back("-x"); }
    else { if (help) return; args.push_back("--help"); help = true; }
  }
  std::vector<std::string> got = start(args);
  if (help) back.push_back("--help");
  CHECK(got.size() == back.size() + 1, "what is no option of logging is handed back, behind the program");
  CHECK(got[0] == "/bin/prog", "first this program");
  for (size_t i = 0; i < back.size(); ++i) CHECK(got[i + 1] == back[i], "what is no option of logging is handed back in order");
  if (help) { REACH("help"); return; }
  FilterMap m = Logging::Instance().Filter();
  size_t size = 0;
  for (auto name : kNames) {
    int w = all;
    for (int k = 0; k < 4; ++k) if (std::string(names[k]) == name && want[k] != -9) w = want[k];
    if (w == -9) { CHECK(m.count(name) == 0, "a project that is not named is not logged"); continue; }
    ++size;
    CHECK(m.count(name) == 1 && m[name] == w, "each project has its own level, else the one for all");
  }
  CHECK(m.size() == size, "no other project");
  CHECK(Logging::Instance().LogToConsole() == !console_off, "to the console unless switched off");
  CHECK(Logging::Instance().Async() == !direct, "in the background unless switched off");
  REACH("options");
}
// the configuration file
extern "C" void lg_config(long) {
  set_up();
  verif_config_there = sym_choose("there", 2) == 1;
  int cmd = (int)sym_choose("command line", 3), file = (int)sym_choose("file", 3);
  std::vector<std::string> args = {"--log_folder", "", "--log_config=/cfg"};
  if (cmd == 1) args.push_back("--log_drive=w");
  if (cmd == 2) args.push_back("--log_*=w");
  if (file == 1) verif_config_options->emplace_back("log_drive", "e");
  if (file == 2) verif_config_options->emplace_back("log_*", "e");
  start(args);
  FilterMap m = Logging::Instance().Filter();
  bool f1 = verif_config_there && file == 1, f2 = verif_config_there && file == 2;
  int drive = cmd == 1 ? 2 : f1 ? 3 : cmd == 2 ? 2 : f2 ? 3 : -9, other = cmd == 2 ? 2 : f2 ? 3 : -9;
  CHECK(drive == -9 ? m.count("drive") == 0 : m.count("drive") == 1 && m["drive"] == drive, "the command line comes before the file, a named project before all");
  CHECK(other == -9 ? m.count("nfs") == 0 : m.count("nfs") == 1 && m["nfs"] == other, "the command line comes before the file");
  REACH("config");
}
// from a path to its project: two directories above "maidsafe"
static void split_path(const std::string& s, std::string& project, std::string& file) {
  size_t p = s.rfind("maidsafe");
  project = "common";
  file = s;
  if (p != std::string::npos && p + 8 < s.size()) {
    file = s.substr(p + 9);
    std::vector<size_t> seps;
    for (size_t i = 0; i < p; ++i) if (s[i] == '/' || s[i] == '\\') seps.push_back(i);
    if (seps.size() >= 2) {
      size_t b = seps.size() >= 3 ? seps[seps.size() - 3] + 1 : 0, e = seps[seps.size() - 2];
      if (e > b) project = s.substr(b, e - b);
    }
  }
  for (auto& c : file) if (c == '\\') c = '/';
}
static void log_one(const std::string& path, int level, const std::string& text) {
  detail::LogMessage(path.c_str(), level) = detail::OstreamBinder<void, void>() << ":" << 7 << "] " << text;
}
static void path_case(const std::string& path, const char* in_filter) {
  Logging& g = Logging::Instance();
  int limit = sym_i32("limit"), level = sym_i32("level");
  g.filter_[in_filter] = limit;
  std::string project, file;
  split_path(path, project, file);
  log_one(path, level, "text");
  bool want = project == in_filter && limit <= level;
  if (!want) { CHECK(console->empty(), "below the level of its project, or of another project: not logged"); REACH("silent"); return; }
  std::string end = " " + file + ":7] text\n";
  CHECK(console->size() > end.size(), "a message at or above the level of its project is logged");
  CHECK(same_content(console->substr(console->size() - end.size()), end), "the file and the text are logged");
  const char letters[] = "VISWEA";
  if (level >= -1 && level <= 4) CHECK((*console)[0] == letters[level + 1], "the letter of the level comes first");
  CHECK((*console)[1] == ' ', "the letter of the level comes first");
  REACH("logged");
}
// arbitrary paths: a = 10 * characters before "maidsafe" (9: not there) + characters after it
extern "C" void lg_path(long a) {
  set_up();
  auto any = [](const char* n, size_t len) {
    std::string s;
    const char of[] = {'/', 'p', '\\'};
    for (size_t i = 0; i < len; ++i) s += of[sym_choose(n, 3)];
    return s;
  };
  std::string path;
  if (a / 10 != 9) { path = any("before", a / 10); path += "maidsafe"; }
  path += any("after", a % 10);
  bool own = sym_choose("project", 2) == 1;
  path_case(path, own ? "p" : "common");
}
extern "C" void lg_path_fixed(long a) {
  set_up();
  const char* const paths[] = {"/home/x/maidsafe/src/routing/src/maidsafe/routing/a/b.cc", "C:\\x\\maidsafe\\src\\routing\\src\\maidsafe\\routing\\b.cc", "/src/routing/include/maidsafe/routing/b.h", "routing/src/maidsafe/routing/b.cc",
                               "src/maidsafe/routing/b.cc", "maidsafe/routing/b.cc", "/maidsafe/b.cc", "b.cc", "/routing/src/maidsafe", "/routing/src/maidsafe/"};
  path_case(paths[a], sym_choose("project", 2) ? "routing" : "common");
}
// where a message goes: a = 100 * projects (0..2) + 10 * colour mode + in the background
extern "C" void lg_sinks(long a) {
  set_up();
  int projects = a / 100, colour = a / 10 % 10;
  bool background = a % 10 != 0;
  tty = sym_choose("terminal", 2) == 1;
  term = tty ? "xterm" : nullptr;
  bool silent = sym_choose("no console", 2) == 1, folder = sym_choose("folder", 2) == 1;
  folder_there = sym_bool("there"); folder_fails = sym_bool("can't be made"); folder_is_file = sym_bool("a file");
  bool files = folder && !folder_is_file && (folder_there || !folder_fails);
  std::vector<std::string> args = {"--log_folder", folder ? "/logs" : "", "--log_colour_mode=" + std::string(1, (char)('0' + colour))};
  if (projects > 0) args.push_back("--log_common=i");
  if (projects > 1) args.push_back("--log_nfs=w");
  if (silent) args.push_back("--log_no_console");
  if (!background) args.push_back("--log_no_async");
  start(args);
  std::string name, third;
  if (colour > 2) { CHECK(Logging::Instance().Filter().empty(), "a colour mode that does not exist is refused"); REACH("refused"); return; }
  console->clear();
  static const struct { const char* path; int level; char letter; bool nfs; } all[] = {{"/x/common/src/maidsafe/common/a.cc", 0, 'I', false}, {"/x/common/src/maidsafe/common/a.cc", -1, 0, false},
      {"/x/nfs/src/maidsafe/nfs/b.cc", 3, 'E', true}, {"/x/nfs/src/maidsafe/nfs/b.cc", 1, 0, true}};
  std::string want[3];         // console, common, nfs
  for (int i = 0; i < 4; ++i) {
    log_one(all[i].path, all[i].level, std::string(1, (char)('0' + i)));
    if (!all[i].letter || projects < (all[i].nfs ? 2 : 1)) continue;
    std::string line = std::string(1, all[i].letter) + " " + (all[i].nfs ? "nfs/b.cc" : "common/a.cc") + ":7] " + (char)('0' + i) + "\n";
    if (!silent) want[0] += line;
    want[1 + all[i].nfs] += line;
  }
  if (background) __sym_thread_settle();
  // letter, thread and time, message -> letter, message; without colours
  auto plain = [](const std::string& s, bool colours) {
    std::string r;
    size_t i = 0;
    while (i < s.size()) {
      std::string line;
      for (; i < s.size() && s[i] != '\n'; ++i) {
        if (s[i] == '\033') { CHECK(colours, "colours on a terminal only, and only if asked for"); while (i < s.size() && s[i] != 'm') ++i; continue; }
        line += s[i];
      }
      ++i;
      if (line.empty()) continue;
      size_t t = line.find("TIME.");
      CHECK(line.size() > 2 && t != std::string::npos, "a line has its level and its time");
      size_t e = line.find(' ', t);
      CHECK(e != std::string::npos, "the message follows the time");
      r += line.substr(0, 1) + line.substr(e) + "\n";
    }
    return r;
  };
  CHECK(plain(*console, tty && colour > 0) == want[0], "the console has the messages, in order, unless switched off");
  if (tty && colour > 0 && want[0].find('E') != std::string::npos) CHECK(console->find("\033[0;31m") != std::string::npos, "errors are red");
  std::string both;
  int n = 0, combined = 0;
  for (auto& f : *verif_log_files) {
    CHECK(files, "files only in a folder that is there");
    CHECK(f.first.compare(0, 6, "/logs/") == 0, "files are in the folder given");
    std::string base = f.first.substr(6), p = plain(f.second.content, false);
    if (base == "TIME.common.log") CHECK(projects >= 1 && p == want[1], "a project's file has the messages of the project");
    else if (base == "TIME.nfs.log") CHECK(projects >= 2 && p == want[2], "a project's file has the messages of the project");
    else {
      CHECK(base == "TIME.combined.log" && projects != 1, "the combined file is there unless there is one project only");
      CHECK(p == want[1] + want[2], "the combined file has every message");
      ++combined;
    }
    ++n;
  }
  if (files) CHECK(n == (projects == 1 ? 1 : projects + 1) && combined == (projects != 1), "every project logged has its file");
  { TestLogMessage(Colour::kGreen).MessageStream() << "plain"; }
  if (background) __sym_thread_settle();
  CHECK(console->find("plain") != std::string::npos, "a test message goes to the console");
  if (files) CHECK((*verif_log_files)[projects == 1 ? "/logs/TIME.common.log" : "/logs/TIME.combined.log"].content.find("plain") != std::string::npos, "a test message goes to the file");
  REACH("sinks");
}

// two threads log at once: every line arrives whole, those of a thread in order; a = in the background
extern "C" void lg_threads(long background) {
  set_up();
  folder_there = true;
  std::vector<std::string> args = {"--log_folder=/logs", "--log_common=v", "--log_nfs=v", "--log_no_console"};
  if (!background) args.push_back("--log_no_async");
  start(args);
  bool same = sym_choose("same project", 2) == 1;
  const char* other = same ? "/x/common/src/maidsafe/common/a.cc" : "/x/nfs/src/maidsafe/nfs/b.cc";
  std::thread t([&] { log_one(other, 0, "1"); log_one(other, 1, "2"); });
  log_one("/x/common/src/maidsafe/common/a.cc", 3, "3");
  t.join();
  if (background) __sym_thread_settle();
  auto letters = [](const std::string& s) {
    std::string r;
    size_t i = 0;
    while (i < s.size()) {
      size_t e = s.find('\n', i);
      CHECK(e != std::string::npos && e - i > 4, "lines are whole");
      const char of[] = {s[i], s[e - 1]};
      r.append(of, 2);
      CHECK((of[0] == 'I' && of[1] == '1') || (of[0] == 'S' && of[1] == '2') || (of[0] == 'E' && of[1] == '3'), "lines are whole");
      CHECK(s.find("TIME.", i) < e && s.find(":7] ", i) == e - 5, "lines are whole");
      i = e + 1;
    }
    return r;
  };
  auto fits = [](const std::string& s) { return s == "I1S2E3" || s == "I1E3S2" || s == "E3I1S2"; };
  CHECK(fits(letters((*verif_log_files)["/logs/TIME.combined.log"].content)), "every message once, those of a thread in order");
  std::string c = letters((*verif_log_files)["/logs/TIME.common.log"].content), n = letters((*verif_log_files)["/logs/TIME.nfs.log"].content);
  if (same) CHECK(fits(c) && n.empty(), "every message once, those of a thread in order");
  else CHECK(c == "E3" && n == "I1S2", "every message once, in the file of its project");
  REACH("threads");
}

// the fraction of a second in a time stamp
extern "C" void lg_time(long utc) {
  set_up();
  static const uint32_t kScale[] = {1, 10, 100, 1000, 10000, 100000, 1000000};
  uint32_t ns = sym_u16("digits");
  sym_assume(ns < 1000);
  ns *= kScale[sym_choose("scale", 7)];
  now_ns = 5000000000 + ns;
  std::string t = utc ? detail::GetUTCTime() : detail::GetLocalTime();
  CHECK(t.size() == 14 && t.compare(0, 5, "TIME.") == 0, "nine digits after the point");
  uint32_t v = 0;
  for (size_t i = 5; i < t.size(); ++i) { CHECK(t[i] >= '0' && t[i] <= '9', "digits after the point"); v = v * 10 + (uint32_t)(t[i] - '0'); }
  CHECK(v == ns, "the fraction of the second is the one of the clock");
  REACH("time");
}
// the visualiser's file and server: a = kind of reply
extern "C" void lg_visualiser(long kind) {
  set_up();
  folder_there = true;
  start({"--log_folder=/logs", "--log_common=v", "--log_no_console", "--log_no_async"});
  Logging& g = Logging::Instance();
  CHECK(outcome([&] { g.VlogPrefix(); }, CommonErrors::unable_to_handle_request) == 1, "no prefix before it is set up");
  CHECK(outcome([&] { g.VlogSessionId(); }, CommonErrors::unable_to_handle_request) == 1, "no session before it is set up");
  const char* const replies[] = {"HTTP/1.1 200 OK\r\n\r\n", "HTTP/1.1 404 Not Found\r\n\r\nmore", "", "HTTP/1.1 ", "x y z", "HTTP/1.1 99999999999999999999 z\r", "a 500 b"};
  verif_network->reply = replies[kind];
  verif_network->down = sym_choose("down", 2) == 1;
  uint16_t port = (uint16_t)(sym_choose("port", 2) ? 65535 : 80);
  std::string id = sym_choose("session", 2) ? "sess" : "";
  CHECK(outcome([&] { g.InitialiseVlog("pre", id, "host", port, "/dir"); }, CommonErrors::unknown) == 0, "set up whether or not the server is there");
  CHECK(g.VlogPrefix() == "pre" && g.VlogSessionId() == id, "prefix and session as given");
  CHECK(outcome([&] { g.InitialiseVlog("other", "o", "h", 1, "/"); }, CommonErrors::already_initialised) == 1 && g.VlogPrefix() == "pre", "set up once only");
  CHECK(verif_network->peer == "host:" + std::to_string((unsigned)port) && verif_network->calls == 1, "the server given");
  g.WriteToVisualiserLogfile("line\n");
  g.WriteToVisualiserLogfile("next\n");
  CHECK((*verif_log_files)["/logs/TIME.visualiser.log"].content == "line\nnext\n", "the messages are in the file for the visualiser");
  const std::string texts[] = {"", "{\"a\": 1}", std::string(120, 'x')};
  std::string want;
  for (int i = 0; i < 2; ++i) {
    const std::string& m = texts[sym_choose("message", 3)];
    int calls = verif_network->calls;
    bool broken = !g.visualiser_.server_stream, down = verif_network->down;
    CHECK(outcome([&] { g.WriteToVisualiserServer(m); }, CommonErrors::unknown) == 0, "sending does not throw, whatever the server says");
    CHECK(verif_network->calls == calls + broken, "connected again if the connection is lost");
    if (!broken || !down) want += "POST /dir HTTP/1.1\r\nHost: host:" + std::to_string((unsigned)port) + "\r\nContent-Type: application/json\r\nContent-Length: " + std::to_string(m.size()) + "\r\n\r\n" + m + "\r\n";
    CHECK(verif_network->sent == want, "a message is sent as one well-formed request with its length");
    if (broken && down) REACH("lost"); else REACH("sent");
    verif_network->down = sym_choose("down now", 2) == 1;
  }
}

// which terminals get colours: a = kind of terminal
extern "C" void lg_terminal(long a) {
  set_up();
  const char* const terms[] = {"xterm", "xterm-color", "xterm-256color", "screen", "linux", "cygwin", "dumb", "", nullptr};
  term = terms[a];
  tty = sym_choose("terminal", 2) == 1;
  start({"--log_folder", "", "--log_config", "", "--log_colour_mode=2", "--log_common=v", "--log_no_async"});
  int level = (int)sym_choose("level", 6) - 1;
  log_one("/x/common/src/maidsafe/common/a.cc", level, "text");
  const char* const codes[] = {"\033[0;36m", "", "\033[0;32m", "\033[0;33m", "\033[0;31m", ""};
  std::string code = tty && a < 6 ? codes[level + 1] : "";
  CHECK(console->size() > 20, "the message is on the console");
  CHECK(console->compare(0, code.size(), code) == 0 && console->find('\033', code.size()) == (code.empty() ? std::string::npos : console->size() - 3), "the colour of the level, on a terminal that has colours, and off again at the end");
  if (!code.empty()) CHECK(console->compare(console->size() - 3, 3, "\033[m") == 0, "off again at the end");
  CHECK((*console)[code.size()] == "VISWEA"[level + 1], "the letter of the level");
  REACH("shown");
}
