// Command-line front end: Get, TokeniseLine, GetPassword, Menu and MenuItem.
#include "util.h"
#include <iostream>
#include <sstream>
#include <termios.h>
#include <limits>
#include "hash_stub.h"
#include "maidsafe/common/cli.h"
#include "maidsafe/common/menu.h"
#include "maidsafe/common/menu_item.h"
using namespace maidsafe;

// terminal and display: stand-ins that record
static int echo_on = 1;
extern "C" int tcgetattr(int, struct termios* t) noexcept { t->c_lflag = (echo_on ? ECHO : 0) | ICANON; return 0; }
extern "C" int tcsetattr(int, int, const struct termios* t) noexcept { echo_on = (t->c_lflag & ECHO) ? 1 : 0; return 0; }
static std::string shown;
namespace maidsafe { namespace log {
TestLogMessage::TestLogMessage(Colour c) : kColour_(c), stream_() {}
TestLogMessage::~TestLogMessage() { shown += stream_.str(); }
} }

struct EchoBuf : std::stringbuf {  // remembers whether the terminal echoed while input was read
  int reads = 0, echoed = 0;
  explicit EchoBuf(const std::string& s) : std::stringbuf(s, std::ios_base::in) {}
  int_type underflow() override { ++reads; return std::stringbuf::underflow(); }
};
struct Feed {
  std::stringbuf buf;
  std::streambuf* old;
  explicit Feed(const std::string& s) : buf(s, std::ios_base::in), old(std::cin.rdbuf(&buf)) { std::cin.clear(); }
  ~Feed() { std::cin.rdbuf(old); std::cin.clear(); }
};
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string line_of(long n) {
  std::string s = sym_string("line", n);
  for (long i = 0; i < n; ++i) sym_assume(s[i] != '\n');
  return s;
}
// what a decimal int at the start of a line means: false if there is none or it does not fit
static bool number(const std::string& s, int& out) {
  size_t i = 0;
  while (i < s.size() && space(s[i])) ++i;
  bool neg = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  int64_t v = 0;
  size_t digits = 0;
  for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i, ++digits)
    if (v < ((int64_t)1 << 40)) v = v * 10 + (s[i] - '0');
  if (neg) v = -v;
  if (!digits || v > std::numeric_limits<int>::max() || v < std::numeric_limits<int>::min()) return false;
  out = (int)v;
  return true;
}
static std::string word(const std::string& s) {
  size_t i = 0, j;
  while (i < s.size() && space(s[i])) ++i;
  for (j = i; j < s.size() && !space(s[j]); ++j) {}
  return s.substr(i, j - i);
}

extern "C" void cli_tokens(long n) {
  std::string s = sym_string("line", n);
  CLI cli;
  std::vector<std::string> got = cli.TokeniseLine(s), want;
  std::string all = "--" + s, cur;
  for (size_t i = 0; i <= all.size(); ++i) {
    if (i == all.size() || all[i] == ' ') { if (!cur.empty()) want.push_back(cur); cur.clear(); }
    else cur += all[i];
  }
  CHECK(got.size() == want.size(), "one token per word, the first marked with two dashes");
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) CHECK(same_content(got[i], want[i]), "each token is exactly its word");
  REACH("tokens");
}
static void get_int(const std::string& s, bool eof) {
  int want = 0, got = -7;
  bool ok = number(s, want), echo = sym_bool("echo");
  Feed f(eof ? s : s + "\nrest\n");
  shown.clear();
  CLI cli("prompt");
  int o = outcome([&] { got = cli.Get<int>("message", echo); }, CommonErrors::invalid_argument);
  if (eof && s.empty()) { CHECK(o == 2, "no input at all is reported as an error"); }
  else if (ok) { CHECK(o == 0, "a number is accepted"); CHECK(got == want, "the number typed is the number returned"); REACH("number"); }
  else { CHECK(o == 1, "anything else is an invalid argument"); REACH("invalid"); }
  CHECK(echo_on == 1, "echo is on again afterwards");
  CHECK(shown == "message\npromptprompt", "message and prompt are shown");
  if (!eof) {
    std::string next;
    std::getline(std::cin, next);
    CHECK(next == "rest", "exactly one line is consumed");
  }
}
extern "C" void cli_get_int(long n) { get_int(line_of(n), n == 0 && sym_bool("eof")); }
extern "C" void cli_get_edge(long k) {
  static const char* pre[] = {"214748364", "-214748364", "+214748364", "99999999999", "-99999999999", "000000000000"};
  get_int(pre[k] + line_of(1), false);
}
extern "C" void cli_get_string(long n) {
  std::string s = line_of(n), want = word(s), got;
  Feed f(s + "\n");
  CLI cli;
  bool echo = sym_bool("echo");
  EchoBuf eb(s + "\n");
  std::cin.rdbuf(&eb);
  int o = outcome([&] { got = cli.Get<std::string>("m", echo); }, CommonErrors::invalid_argument);
  if (want.empty()) CHECK(o == 1, "an empty line is an invalid argument");
  else { CHECK(o == 0, "a word is accepted"); CHECK(same_content(got, want), "the word typed is the word returned"); REACH("word"); }
  CHECK(echo_on == 1, "echo is on again afterwards");
  std::cin.rdbuf(&f.buf);
}

// ---- menus
struct Ran { int id; };
static std::vector<int> ran;
struct Node { int id; Node* parent; std::vector<Node*> kids; std::string name; };
struct OpError {};
static int thrower = 0;  // 1-based id of the operation that fails
static MenuItem::Functor op(int id) {
  return [id] { ran.push_back(id); if (thrower == id) BOOST_THROW_EXCEPTION(MakeError(CommonErrors::defaulted)); };
}
// shapes: 1: three leaves; 2: leaf + submenu(leaf, submenu(leaf)); 3: twelve leaves; 4: sub-menu with operation that has a leaf; 0: no items at all
struct Tree {
  std::vector<std::unique_ptr<Node>> own;
  Node* root;
  Node* add(Node* p, std::string name) {
    own.emplace_back(new Node{(int)own.size(), p, {}, name});
    if (p) p->kids.push_back(own.back().get());
    return own.back().get();
  }
};
static void build(long shape, Menu& m, Tree& t) {
  t.root = t.add(nullptr, "Main");
  auto top = [&](const char* n) { Node* x = t.add(t.root, n); return std::make_pair(m.AddItem(n, op(x->id)), x); };
  auto sub = [&](std::pair<MenuItem*, Node*> p, const char* n, bool run) { Node* x = t.add(p.second, n); return std::make_pair(p.first->AddChildItem(n, run ? op(x->id) : nullptr), x); };
  if (shape == 1) { top("a"); top("b"); top("c"); }
  if (shape == 2) { top("a"); auto s = top("s"); sub(s, "x", true); auto q = sub(s, "q", true); sub(q, "y", true); }
  if (shape == 3) for (const char* n : {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}) top(n);
}
static std::string screen(Node* n) {  // the numbered entries shown for a menu
  std::string s;
  for (size_t i = 0; i < n->kids.size(); ++i) s += std::to_string(i + 1) + (i < 9 ? " " : "") + "  " + n->kids[i]->name + "\n";
  if (n->parent) s += "99  Back to: " + n->parent->name + "\n";
  return s;
}
static void menu_session(long shape, const std::vector<std::string>& lines) {
  thrower = (int)sym_choose("thrower", shape == 2 ? 2 : 1) * 3;
  std::string input;
  for (auto& l : lines) input += l + "\n";
  Feed f(input);
  Tree t;
  Menu m("Main", "> ");
  build(shape, m, t);
  ran.clear();
  shown.clear();
  int rc = m.Run();
  // the documented behaviour
  std::vector<int> want;
  std::string seen;
  Node* cur = t.root;
  bool quit = false, failed = false, show = true;
  for (size_t i = 0; i < lines.size() && !quit && !failed; ++i) {
    int v;
    if (show) { if (cur->kids.empty() && cur->parent) cur = cur->parent; seen += screen(cur); show = false; }
    if (!number(lines[i], v)) continue;
    if (v == 0) { quit = true; break; }
    if (v == 99 && cur->parent) { cur = cur->parent; if (cur->id) { want.push_back(cur->id); failed = thrower == cur->id; } show = true; }
    else if (v >= 1 && (size_t)v <= cur->kids.size()) { cur = cur->kids[v - 1]; want.push_back(cur->id); failed = thrower == cur->id; show = true; }
  }
  if (show && !quit && !failed) { if (cur->kids.empty() && cur->parent) cur = cur->parent; seen += screen(cur); }
  bool same = ran.size() == want.size();
  for (size_t i = 0; same && i < ran.size(); ++i) same &= ran[i] == want[i];
  CHECK(same, "exactly the selected entries are performed, in order");
  std::string got;  // what was displayed, without rules, titles and prompts
  std::istringstream is(shown);
  std::string l;
  while (std::getline(is, l)) if (l.size() > 4 && (l[0] >= '1' && l[0] <= '9') && (l[1] == ' ' || (l[1] >= '0' && l[1] <= '9')) && l[2] == ' ') got += l + "\n";
  CHECK(got == seen, "the menu shown after each step lists the entries under their numbers");
  if (quit) { CHECK(rc == 0, "quitting is success"); REACH("quit"); }
  else if (failed) { CHECK(rc == ErrorToInt(MakeError(CommonErrors::defaulted)), "a failing operation ends the menu with its error"); REACH("failed"); }
  else { CHECK(rc != 0, "input that ends without quitting is not success"); REACH("eof"); }
}
// arg: shape, then the length of each line
extern "C" void menu_run(long a) {
  long shape = a, len[6], k = 0;
  while (shape >= 10) { len[k++] = shape % 10; shape /= 10; }
  std::vector<std::string> lines;
  for (long i = k; i-- > 0;) lines.push_back(line_of(len[i]));
  menu_session(shape, lines);
}
// numbers at the ends of the integer range and beyond
extern "C" void menu_edge(long k) {
  static const char* pre[] = {"214748364", "-214748364", "4294967", "-99999999999", "+9", "-"};
  menu_session(1, {pre[k] + line_of(k < 2 ? 1 : 2), "1"});
}
static std::string digest_of(const std::string& s) { return crypto::Hash<crypto::SHA512>(s).string(); }
extern "C" void cli_password(long n) {
  std::string a = line_of(n), b = line_of(n), c = "zz", w1 = word(a), w2 = word(b);
  EchoBuf eb(a + "\n" + b + "\n" + c + "\n" + c + "\n");
  std::streambuf* old = std::cin.rdbuf(&eb);
  std::cin.clear();
  eb.reads = eb.echoed = 0;
  CLI cli;
  bool repeat = sym_bool("repeat");
  std::string got;
  int o = outcome([&] { got = cli.GetPassword(repeat); }, CommonErrors::invalid_argument);
  std::cin.rdbuf(old);
  std::cin.clear();
  CHECK(echo_on == 1, "echo is on again afterwards");
  if (w1.empty() || (repeat && w2.empty())) { CHECK(o == 1, "an empty password is refused"); REACH("empty"); return; }
  CHECK(o == 0, "a password is accepted");
  if (repeat && !same_content(w1, w2)) { CHECK(same_content(got, digest_of(c)), "two different entries are never accepted: the user is asked again"); REACH("again"); }
  else { CHECK(same_content(got, digest_of(w1)), "the digest of the password typed"); REACH("password"); }
}
// adding: names must be non-empty and unique among siblings; a rejected item is not added
extern "C" void menu_add(long n) {
  Menu m("Main");
  std::string a = sym_string("a", n), b = sym_string("b", n ? n : 1);
  MenuItem *pa = nullptr, *pb = nullptr;
  int o = outcome([&] { pa = m.AddItem(a); }, CommonErrors::invalid_argument);
  CHECK(n ? o == 0 && same_content(pa->kName_, a) : o == 1, "an entry needs a name");
  o = outcome([&] { pb = m.AddItem(b); }, CommonErrors::invalid_argument);
  bool dup = n && same_content(a, b);
  CHECK(dup ? o == 1 : o == 0, "two entries of one menu never share a name");
  if (pa) {
    MenuItem* c = nullptr;
    CHECK(outcome([&] { c = pa->AddChildItem(a); }, CommonErrors::invalid_argument) == 0, "a sub-menu may reuse the name of its parent");
    CHECK(c && c->kParent_ == pa && pa->Child(0) == c && !pa->HasNoChildren() && c->HasNoChildren(), "links");
    int32_t i = sym_i32("index");
    const MenuItem* got = nullptr;
    bool threw = false;
    try { got = pa->Child(i); } catch (const std::exception&) { threw = true; }
    CHECK(i == 0 ? !threw && got == c : threw, "an index outside the menu never yields an entry");
    REACH("child");
  }
  REACH(dup ? "dup" : "distinct");
}
