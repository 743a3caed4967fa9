// Messages for the visualiser: what is sent to the server and written to the file, for any field contents.
// The Logging object is a stand-in that records.
#include <map>
#include <new>
#include <string>
#include <vector>
#include "util.h"
#include "maidsafe/common/type_macros.h"
#include "maidsafe/common/visualiser_log.h"

namespace {
DEFINE_OSTREAMABLE_ENUM_VALUES(Persona, int32_t, (Node)(Getter)(Cache))
DEFINE_OSTREAMABLE_ENUM_VALUES(Action, uint64_t, (Put)(Get)(Transfer)(Count))

std::string* stamp;
std::string* prefix;
std::string* session;
std::vector<std::string>*sent, *written;
int queued, running;
bool initialised = true;
alignas(maidsafe::log::Logging) unsigned char storage[sizeof(maidsafe::log::Logging)];

void prepare(bool async) {
  stamp = new std::string; prefix = new std::string; session = new std::string;
  sent = new std::vector<std::string>; written = new std::vector<std::string>;
  auto& l = maidsafe::log::Logging::Instance();
  l.no_async_ = !async;
  new (&l.background_) std::unique_ptr<maidsafe::Active>(async ? reinterpret_cast<maidsafe::Active*>(8) : nullptr);
}
bool is_alpha_num(unsigned c) { return (unsigned)((c >= '0') & (c <= '9')) | (unsigned)((c >= 'A') & (c <= 'Z')) | (unsigned)((c >= 'a') & (c <= 'z')); }
unsigned hexv(unsigned c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
// decodes a form field; anything literal must be unreserved
std::string form_decode(const std::string& t) {
  std::string o;
  for (size_t i = 0; i < t.size(); ++i) {
    unsigned char c = (unsigned char)t[i];
    if (c == '%') {
      CHECK(i + 2 < t.size(), "an escape is complete");
      unsigned h = hexv((unsigned char)t[i + 1]), l = hexv((unsigned char)t[i + 2]);
      CHECK(h < 16 && l < 16, "an escape has two hex digits");
      o += (char)(h * 16 + l);
      i += 2;
    } else if (c == '+') {
      o += ' ';
    } else {
      CHECK((unsigned)is_alpha_num(c) | (unsigned)(c == '-') | (unsigned)(c == '_') | (unsigned)(c == '.') | (unsigned)(c == '~'), "only unreserved characters appear literally");
      o += (char)c;
    }
  }
  return o;
}
std::vector<std::pair<std::string, std::string>> form_fields(const std::string& t) {
  std::vector<std::pair<std::string, std::string>> f;
  std::string key, value;
  bool in_value = false;
  for (size_t i = 0; i <= t.size(); ++i) {
    if (i == t.size() || t[i] == '&') {
      CHECK(in_value, "each field of the message has a value");
      f.emplace_back(key, value);
      key.clear(); value.clear(); in_value = false;
    } else if (!in_value && t[i] == '=') {
      in_value = true;
    } else {
      (in_value ? value : key) += t[i];
    }
  }
  return f;
}
// an object whose values are all texts
std::vector<std::pair<std::string, std::string>> json_fields(const std::string& t, bool& good) {
  std::vector<std::pair<std::string, std::string>> f;
  size_t p = 0;
  auto blank = [&] { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t')) ++p; };
  auto text = [&](std::string& o) {
    blank();
    if (p >= t.size() || t[p] != '"') return false;
    for (++p; p < t.size(); ++p) {
      unsigned char c = (unsigned char)t[p];
      if (c == '"') { ++p; return true; }
      if (c < 0x20) return false;
      if (c != '\\') { o += (char)c; continue; }
      if (++p >= t.size()) return false;
      switch (t[p]) {
        case 'b': o += '\b'; break;
        case 'f': o += '\f'; break;
        case 'n': o += '\n'; break;
        case 'r': o += '\r'; break;
        case 't': o += '\t'; break;
        case '"': case '\\': case '/': o += t[p]; break;
        case 'u': {
          unsigned v = 0;
          for (int k = 0; k < 4; ++k) {
            if (++p >= t.size()) return false;
            unsigned h = hexv((unsigned char)t[p]);
            if (h > 15) return false;
            v = v * 16 + h;
          }
          if (v > 0x7f) return false;
          o += (char)v;
          break;
        }
        default: return false;
      }
    }
    return false;
  };
  good = false;
  blank();
  if (p >= t.size() || t[p++] != '{') return f;
  for (;;) {
    std::string k, v;
    if (!text(k)) return f;
    blank();
    if (p >= t.size() || t[p++] != ':') return f;
    if (!text(v)) return f;
    f.emplace_back(k, v);
    blank();
    if (p >= t.size()) return f;
    if (t[p] == ',') { ++p; continue; }
    if (t[p++] != '}') return f;
    break;
  }
  blank();
  good = p == t.size();
  return f;
}
std::string hex_of(const std::string& b) {
  std::string o;
  for (unsigned char c : b) { o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; }
  return o;
}
}  // namespace

namespace maidsafe {
namespace log {
Logging& Logging::Instance() { return *reinterpret_cast<Logging*>(storage); }
void Logging::Send(std::function<void()> f) {
  ++queued;
  ++running;
  f();
  --running;
}
void Logging::WriteToVisualiserServer(const std::string& m) {
  CHECK(running == 1, "the server is written to from the background only");
  sent->push_back(m);
}
void Logging::WriteToVisualiserLogfile(const std::string& m) {
  CHECK(running == (Async() ? 1 : 0), "the file is written to from the background if there is one");
  written->push_back(m);
}
std::string Logging::VlogPrefix() const {
  if (!initialised) BOOST_THROW_EXCEPTION(MakeError(CommonErrors::unable_to_handle_request));
  return *prefix;
}
std::string Logging::VlogSessionId() const {
  if (!initialised) BOOST_THROW_EXCEPTION(MakeError(CommonErrors::unable_to_handle_request));
  return *session;
}
namespace detail {
std::string GetUTCTime() { return *stamp; }
}
}  // namespace log
}  // namespace maidsafe
using maidsafe::log::VisualiserLogMessage;
using maidsafe::Identity;

// k: digits = lengths of the time stamp, vault name and session name (each byte arbitrary)
extern "C" void vl_stopped(unsigned k) {
  prepare(false);
  *stamp = sym_string("time", k / 100 % 10);
  std::string v = sym_string("vault", k / 10 % 10), s = sym_string("session", k % 10);
  static const int codes[] = {0, 1, -1, 9, 137, -2147483647 - 1, 2147483647};
  static const char* const text[] = {"0", "1", "-1", "9", "137", "-2147483648", "2147483647"};
  size_t e = sym_choose("exit", k < 100 ? 7 : 1);
  VisualiserLogMessage::SendVaultStoppedMessage(v, s, codes[e]);
  CHECK(sent->size() == 1 && written->empty(), "one message is sent");
  auto f = form_fields((*sent)[0]);
  CHECK(f.size() == 5, "the message has exactly its five fields");
  if (f.size() != 5) return;
  CHECK(f[0].first == "ts" && f[1].first == "vaultId" && f[2].first == "sessionId" && f[3].first == "actionId" && f[4].first == "valueOne", "the fields of the message");
  CHECK(same_content(form_decode(f[0].second), *stamp), "decoding gives the time stamp");
  CHECK(same_content(form_decode(f[1].second), v), "decoding gives the vault");
  CHECK(same_content(form_decode(f[2].second), s), "decoding gives the session");
  CHECK(f[3].second == "18", "the action of a stopped vault");
  CHECK(f[4].second == text[e], "the exit code of the vault");
  REACH("stopped");
}
// the whole alphabet at one place of a longer time stamp
extern "C" void vl_place(unsigned k) {
  prepare(false);
  std::string t = "2014-12-18 10:11:12.5";
  t[k] = (char)sym_u8("char");
  *stamp = t;
  VisualiserLogMessage::SendVaultStoppedMessage("0123456..89abcde", "54ca73ce-0c3c-4155-c9e3-c89d74ad5602", 3);
  CHECK(sent->size() == 1, "one message is sent");
  auto f = form_fields((*sent)[0]);
  CHECK(f.size() == 5 && same_content(form_decode(f[0].second), t) && f[1].second == "0123456..89abcde" && f[2].second == "54ca73ce-0c3c-4155-c9e3-c89d74ad5602" && f[4].second == "3", "the fields of the message");
  REACH("place");
}

namespace {
std::string id_text(const char* name, bool whole) {
  std::string t(64, 'i');
  if (whole) { t[0] = (char)sym_u8(name); t[63] = (char)sym_u8(name); }
  t[31] = 0;
  return t;
}
struct Want { std::string value1, value2, persona_name, persona_value, action_name, action_value; };
std::string shown(const std::string& v, bool debug) {
  if (v.size() != 64) return v;
  std::string h = hex_of(v);
  return debug ? h.substr(0, 6) + ".." + h.substr(h.size() - 6) : h;
}
void check(const Want& w) {
  if (session->empty()) {
    CHECK(sent->empty() && written->empty(), "nothing is sent without a session");
    REACH("silent");
    return;
  }
  CHECK(sent->size() == 1 && written->size() == 1, "one message is sent and one line is written");
  if (sent->size() != 1 || written->size() != 1) return;
  bool good = false;
  auto f = json_fields((*sent)[0], good);
  CHECK(good, "the message is a well-formed object");
  std::vector<std::pair<std::string, std::string>> want = {{"ts", *stamp}, {"vaultId", *prefix}, {"sessionId", *session}, {"valueOne", shown(w.value1, false)}, {"actionId", w.action_value}};
  if (!w.value2.empty()) want.emplace_back("valueTwo", shown(w.value2, false));
  if (!w.persona_name.empty()) want.emplace_back("personaId", w.persona_value);
  CHECK(f.size() == want.size(), "the message has exactly its fields");
  for (auto& x : want) {
    int n = 0;
    for (auto& y : f) {
      if (y.first != x.first) continue;
      ++n;
      CHECK(same_content(y.second, x.second), "a field of the message reads back");
    }
    CHECK(n == 1, "each field is there once");
  }
  std::string line = *stamp + ',' + *prefix + ',' + *session + ',' + (w.persona_name.empty() ? "" : w.persona_name + ',') + w.action_name + ',' + shown(w.value1, true) + (w.value2.empty() ? "" : ',' + shown(w.value2, true)) + '\n';
  CHECK(same_content((*written)[0], line), "the line in the file");
  REACH("message");
}
const char* const actions[] = {"Put", "Get", "Transfer", "Count"};
const char* const numbers[] = {"0", "1", "2", "3"};
const char* const personas[] = {"Node", "Getter", "Cache"};
}  // namespace

// k: 1000*(length of the session) + 100*async + kind
extern "C" void vl_message(unsigned k) {
  prepare(k / 100 % 10);
  *stamp = "12:00";
  *prefix = sym_string("prefix", k / 1000 ? 1 : 0);
  *session = sym_string("session", k / 1000);
  unsigned kind = k % 100;
  size_t a = sym_choose("action", 4), p = sym_choose("persona", 3);
  auto act = static_cast<Action>(a);
  auto per = static_cast<Persona>(p);
  Want w{"", "", "", "", actions[a], numbers[a]};
  std::string t1 = id_text("first", true), t2 = id_text("second", true);
  auto person = [&] { w.persona_name = personas[p]; w.persona_value = numbers[p]; };
  switch (kind) {
    case 0: person(); w.value1 = t1; { VisualiserLogMessage m(per, act, Identity(t1)); } break;
    case 1: person(); w.value1 = t1; w.value2 = t2; { VisualiserLogMessage m(per, act, Identity(t1), Identity(t2)); } break;
    case 2: person(); w.value1 = "-42"; { VisualiserLogMessage m(per, act, -42); } break;
    case 3: w.value1 = t1; { VisualiserLogMessage m(act, Identity(t1)); } break;
    case 4: w.value1 = t1; w.value2 = t2; { VisualiserLogMessage m(act, Identity(t1), Identity(t2)); } break;
    case 5: w.value1 = t1; w.value2 = sym_string("text", 2); { VisualiserLogMessage m(act, Identity(t1), w.value2); } break;
    case 6: w.value1 = "18446744073709551615"; { VisualiserLogMessage m(act, ~0ull); } break;
    case 7: w.value1 = sym_string("text", 2); { VisualiserLogMessage m(act, w.value1); } break;
    case 8: w.value1 = sym_string("text", 1); { VisualiserLogMessage m(act, w.value1.c_str()); } w.value1 = w.value1.c_str(); break;
    case 9: { w.value1 = "a"; *stamp = sym_string("time", 1); *prefix = sym_string("vault", 2); VisualiserLogMessage m(act, w.value1); } break;
  }
  check(w);
}
// values outside the enumerations, missing identities and an uninitialised log are refused
extern "C" void vl_refused(unsigned k) {
  prepare(false);
  *session = "s";
  std::string t1 = id_text("first", false);
  uint64_t a = sym_u64("action");
  int32_t p = sym_i32("persona");
  auto act = static_cast<Action>(a);
  auto per = static_cast<Persona>(p);
  bool act_good = a < 4, per_good = (unsigned)(p >= 0) & (unsigned)(p < 3);
  initialised = k < 10;
  auto expected = maidsafe::CommonErrors::invalid_argument;
  bool good = false;
  int r = -1;
  switch (k % 10) {
    case 0: good = act_good; r = outcome([&] { VisualiserLogMessage m(act, 1); }, expected); break;
    case 1: good = (unsigned)act_good & (unsigned)per_good; r = outcome([&] { VisualiserLogMessage m(per, act, 1); }, expected); break;
    case 2: good = (unsigned)act_good & (unsigned)per_good; r = outcome([&] { VisualiserLogMessage m(per, act, Identity(t1)); }, expected); break;
    case 3: good = act_good; r = outcome([&] { VisualiserLogMessage m(act, Identity(t1), "x"); }, expected); break;
    case 4: good = false; expected = maidsafe::CommonErrors::uninitialised; r = outcome([&] { VisualiserLogMessage m(Action::kGet, Identity()); }, expected); break;
    case 5: good = false; expected = maidsafe::CommonErrors::uninitialised; r = outcome([&] { VisualiserLogMessage m(Persona::kNode, Action::kGet, Identity()); }, expected); break;
  }
  if (!initialised) {
    CHECK(r != 0, "refused before the log is ready");
    CHECK(sent->empty() && written->empty(), "nothing is sent");
    REACH("not ready");
  } else if (good) {
    CHECK(r == 0, "accepted");
    CHECK(sent->size() == 1 && written->size() == 1, "sent");
    REACH("accepted");
  } else {
    CHECK(r == 1, "refused with the documented error");
    CHECK(sent->empty() && written->empty(), "nothing is sent");
    REACH("refused");
  }
}
