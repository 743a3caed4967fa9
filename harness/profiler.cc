// Profiler: every recorded interval is added once to the entry of its own location.
#include "util.h"
#include <chrono>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <thread>
#include "maidsafe/common/profiler.h"
using namespace maidsafe::profile;
typedef std::chrono::high_resolution_clock::duration D;

static int64_t readings[16];
static int taken;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(readings[taken++ & 15])); }

std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { static int64_t t = 0; return time_point(duration(t += 1000)); }
// how a location is shown: forward slashes, the path below the first-party directory, line and function
static std::string shown(std::string file, int line, const std::string& function) {
  for (auto& c : file) if (c == '\\') c = '/';
  size_t p = file.rfind("maidsafe");
  if (p != std::string::npos && p != 0 && p + 9 <= file.size()) file = file.substr(p + 9);
  return file + ":" + std::to_string(line) + "] " + function;
}
static Profiler& fresh() {  // never destroyed: the report is checked separately
  static char store[sizeof(Profiler)] __attribute__((aligned(16)));
  return *new (store) Profiler();
}
static void drain(Profiler& p) { p.background_.reset(); }
typedef std::map<std::string, std::pair<uint64_t, int64_t>> Model;
static void compare(Profiler& p, const Model& m) {
  CHECK(p.entries_.size() == m.size(), "one entry per location");
  auto i = p.entries_.begin();
  auto j = m.begin();
  for (; i != p.entries_.end() && j != m.end(); ++i, ++j) {
    CHECK(same_content(i->first, j->first), "entries are kept under the location");
    CHECK(i->second.first == j->second.first, "each interval is counted once");
    CHECK(i->second.second.count() == j->second.second, "the total is the sum of the intervals");
  }
}
static int64_t length() { int64_t d = (int64_t)sym_u64("interval"); sym_assume(d > -((int64_t)1 << 55) && d < ((int64_t)1 << 55)); return d; }
static const struct { const char* file; int line; const char* fn; } kPlaces[] = {
    {"/src/maidsafe/common/a.cc", 1, "f"}, {"/src/maidsafe/common/a.cc", 2, "f"}, {"/src/maidsafe/common/a.cc", 1, "g"}, {"C:\\src\\maidsafe\\b.cc", 1, "f"}};
// n intervals at freely chosen locations
extern "C" void prof_totals(long n) {
  Profiler& p = fresh();
  Model m;
  for (long i = 0; i < n; ++i) {
    auto& q = kPlaces[sym_choose("place", 4)];
    int64_t d = length();
    p.AddEntry(ProfileEntry::Location(q.file, q.line, q.fn), D(d));
    auto& e = m[shown(q.file, q.line, q.fn)];
    ++e.first;
    e.second += d;
  }
  drain(p);
  compare(p, m);
  REACH("totals");
}
// arbitrary file texts around the directory marker
extern "C" void prof_location(long a) {
  std::string pre = sym_string("pre", a / 10), post = sym_string("post", a % 10), fn = sym_string("fn", 1);
  std::string file = pre + "maidsafe" + post;
  if (a >= 100) file = sym_string("file", a - 100);
  static const int lines[] = {0, 1, -1, 2147483647};
  int line = lines[sym_choose("line", 4)];
  Profiler& p = fresh();
  int64_t d = length();
  p.AddEntry(ProfileEntry::Location(file, line, fn), D(d));
  drain(p);
  Model m;
  m[shown(file, line, fn)] = {1, d};
  compare(p, m);
  REACH("location");
}
// several recorders at once
extern "C" void prof_threads(long a) {
  int senders = a / 10, n = a % 10;
  Profiler& p = fresh();
  Model m;
  int64_t d[4][4];
  for (int s = 0; s < senders; ++s) for (int i = 0; i < n; ++i) {
    d[s][i] = length();
    auto& q = kPlaces[(s + i) % 2];
    auto& e = m[shown(q.file, q.line, q.fn)];
    ++e.first;
    e.second += d[s][i];
  }
  auto record = [&](int s) { for (int i = 0; i < n; ++i) { auto& q = kPlaces[(s + i) % 2]; p.AddEntry(ProfileEntry::Location(q.file, q.line, q.fn), D(d[s][i])); } };
  std::vector<std::thread> ts;
  for (int s = 1; s < senders; ++s) ts.emplace_back(record, s);
  record(0);
  for (auto& t : ts) t.join();
  drain(p);
  compare(p, m);
  REACH("threads");
}
// the scope guard: the interval runs from construction to destruction, nested guards included
extern "C" void prof_scope(long nested) {
  for (int i = 0; i < 4; ++i) {
    readings[i] = (int64_t)(sym_u64("reading") >> 8);
    if (i) sym_assume(readings[i] >= readings[i - 1]);
  }
  taken = 0;
  Model m;
  {
    ProfileEntry e("/x/maidsafe/outer.cc", 3, "o");
    if (nested) { ProfileEntry f("/x/maidsafe/inner.cc", 4, "i"); }
  }
  CHECK(taken == (nested ? 4 : 2), "one reading at each end");
  m[shown("/x/maidsafe/outer.cc", 3, "o")] = {1, readings[nested ? 3 : 1] - readings[0]};
  if (nested) m[shown("/x/maidsafe/inner.cc", 4, "i")] = {1, readings[2] - readings[1]};
  Profiler& p = Profiler::Instance();
  drain(p);
  compare(p, m);
  REACH("scope");
}
// locations: order and copies
extern "C" void prof_order(long n) {
  typedef ProfileEntry::Location L;
  std::string f1 = sym_string("f1", n / 10), f2 = sym_string("f2", n % 10), g1 = sym_string("g1", 1), g2 = sym_string("g2", 1);
  int32_t l1 = sym_i32("l1"), l2 = sym_i32("l2");
  L a(f1, l1, g1), b(f2, l2, g2);
  int c = lex(f1, f2), l = (l1 > l2) - (l1 < l2), g = lex(g1, g2);
  int want = c ? c : l ? l : g;
  CHECK((a < b) == (want < 0), "ordered by file, line, function");
  CHECK((b < a) == (want > 0), "ordered by file, line, function");
  L d(a);
  CHECK(same_content(d.file, f1) && d.line == l1 && same_content(d.function, g1), "copy");
  d = b;
  CHECK(same_content(d.file, f2) && d.line == l2 && same_content(d.function, g2), "assign");
  L e(std::move(d));
  CHECK(same_content(e.file, f2) && e.line == l2 && same_content(e.function, g2), "move");
  swap(a, e);
  CHECK(same_content(a.file, f2) && a.line == l2 && same_content(e.file, f1) && e.line == l1 && same_content(e.function, g1), "swap");
  REACH("order");
}
// the report printed at the end: each section lists every location once with its figures, in its order
extern "C" void prof_report(long variant) {
  static const int64_t base[][3] = {{5, 7, 2000000001}, {1500000000, 3, 4}, {0, 0, 0}, {1800000000000000000, 5, 1700000000000000001}, {-999999990, 1, 1}, {3, -20, -99}, {-1800000000000000000, -1000000000, 20}, {99999999999999990, 0, 99999999999999999}};
  int64_t ds[9][3];
  int64_t extra = (int64_t)sym_u8("extra");
  sym_assume(extra < 10);
  for (int i = 0; i < 3; ++i) ds[variant][i] = base[variant][i];
  ds[variant][1] += extra;
  std::ostringstream os;
  std::streambuf* old = std::cout.rdbuf(os.rdbuf());
  std::string order = "";
  {
    Profiler& p = fresh();
    p.AddEntry(ProfileEntry::Location("/m/maidsafe/x.cc", 1, "f"), D(ds[variant][0]));
    p.AddEntry(ProfileEntry::Location("/m/maidsafe/x.cc", 1, "f"), D(ds[variant][1]));
    p.AddEntry(ProfileEntry::Location("/m/maidsafe/y.cc", 2, "g"), D(ds[variant][2]));
    drain(p);
    p.~Profiler();
  }
  std::cout.rdbuf(old);
  std::string s = os.str();
  auto fmt = [](int64_t n) { std::string x = (n < 0 ? "-" : "") + std::to_string((n < 0 ? -n : n) / 1000000000), y = std::to_string((n < 0 ? -n : n) % 1000000000); return std::string(x.size() < 8 ? 8 - x.size() : 0, ' ') + x + "." + std::string(9 - y.size(), '0') + y + " s"; };
  auto block = [&](const std::string& k, int count, int64_t total) {
    return k + "\n  Called:                   " + std::to_string(count) + " times\n  Average duration:  " + fmt(total / count) + "\n  Total duration:    " + fmt(total) + "\n\n";
  };
  std::string X = block("x.cc:1] f", 2, ds[variant][0] + ds[variant][1]), Y = block("y.cc:2] g", 1, ds[variant][2]);
  size_t at = 0;
  const char* sections[] = {"Sorted by name", "Sorted by call count", "Sorted by average duration", "Sorted by total duration"};
  int64_t tx = ds[variant][0] + ds[variant][1], ty = ds[variant][2];
  bool yfirst[] = {false, false, ty > tx / 2, ty > tx};
  for (int i = 0; i < 4; ++i) {
    at = s.find(sections[i], at);
    CHECK(at != std::string::npos, "section present");
    if (at == std::string::npos) return;
    size_t end = i < 3 ? s.find(sections[i + 1], at) : s.size();
    size_t x = s.find(X, at), y = s.find(Y, at);
    CHECK(x != std::string::npos && y != std::string::npos && x < end && y < end, "each section shows the figures of every location");
    CHECK((i == 2 && ty == tx / 2) || (i == 3 && ty == tx) || (y < x) == yfirst[i], "in the order of the section");
  }
  REACH("report");
}
