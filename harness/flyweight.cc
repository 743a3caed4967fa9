// Shared values (boost::flyweight) in an archive: stored once, read back equal and shared. The archive is a stand-in
// with the numbering of shared pointers that cereal has.
#include "util.h"
#include <map>
#include <memory>
#include "maidsafe/common/serialisation/types/boost_flyweight.h"
#include "boost/flyweight/no_locking.hpp"
using namespace maidsafe;
typedef boost::flyweight<std::string> Shared;
struct Out {
  std::vector<uint32_t> ids;
  std::vector<std::string> texts;
  std::map<const void*, uint32_t> known;
  uint32_t registerSharedPointer(const void* p) {
    if (!p) return 0;
    auto i = known.find(p);
    if (i != known.end()) return i->second;
    uint32_t id = (uint32_t)known.size() + 1;
    known[p] = id;
    return id | cereal::detail::msb_32bit;
  }
  uint32_t registerSharedPointer(const std::shared_ptr<const void>& p) { return registerSharedPointer(p.get()); }
  void put(uint32_t v) { ids.push_back(v); }
  void put(const std::string& v) { texts.push_back(v); }
  template <typename T> void put(const cereal::NameValuePair<T>& v) { put(v.value); }
  template <typename... T> void operator()(T&&... v) { int all[] = {(put(v), 0)...}; (void)all; }
};
struct In {
  const std::vector<uint32_t>* ids;
  const std::vector<std::string>* texts;
  size_t i = 0, t = 0;
  std::map<uint32_t, std::shared_ptr<void>> known;
  std::shared_ptr<void> getSharedPointer(uint32_t id) {
    if (id == 0) return std::shared_ptr<void>();
    auto f = known.find(id);
    if (f == known.end()) throw cereal::Exception("could not find id");
    return f->second;
  }
  void registerSharedPointer(uint32_t id, std::shared_ptr<void> p) { known[id & ~cereal::detail::msb_32bit] = p; }
  void get(uint32_t& v) { if (i >= ids->size()) throw cereal::Exception("end"); v = (*ids)[i++]; }
  void get(std::string& v) { if (t >= texts->size()) throw cereal::Exception("end"); v = (*texts)[t++]; }
  template <typename T> void get(const cereal::NameValuePair<T>& v) { get(v.value); }
  template <typename... T> void operator()(T&&... v) { int all[] = {(get(v), 0)...}; (void)all; }
};
static std::string text(const char* n) { std::string s; s += (char)('a' + sym_choose(n, 3)); return s; }
// n shared values: what comes back is equal, and equal ones are stored once
extern "C" void fw_round(long n) {
  std::vector<std::string> t;
  for (long i = 0; i < n; ++i) t.push_back(text("text"));
  Out out;
  for (auto& s : t) { Shared f(s); cereal::CEREAL_SAVE_FUNCTION_NAME(out, f); }
  REACH("stored");
  // a value that is gone may be stored again: keep them all for the count
  std::vector<Shared> keep;
  for (auto& s : t) keep.emplace_back(s);
  Out once;
  for (auto& f : keep) cereal::CEREAL_SAVE_FUNCTION_NAME(once, f);
  std::vector<std::string> distinct;
  for (auto& s : t) if (std::find(distinct.begin(), distinct.end(), s) == distinct.end()) distinct.push_back(s);
  CHECK(once.texts == distinct, "a value that is shared is stored once");
  In in;
  in.ids = &once.ids;
  in.texts = &once.texts;
  for (long i = 0; i < n; ++i) {
    Shared f;
    cereal::CEREAL_LOAD_FUNCTION_NAME(in, f);
    CHECK(f.get() == t[i], "every value comes back");
    CHECK(f == keep[i] && &f.get() == &keep[i].get(), "and is shared");
  }
  Shared f;
  bool thrown = false;
  try { cereal::CEREAL_LOAD_FUNCTION_NAME(in, f); } catch (const std::exception&) { thrown = true; }
  CHECK(thrown, "a truncated archive is refused");
}
// arbitrary numbers: a value, or an exception
extern "C" void fw_hostile(long n) {
  std::vector<uint32_t> ids;
  std::vector<std::string> texts;
  for (long i = 0; i < n; ++i) ids.push_back(sym_u32("id"));
  long m = sym_choose("texts", n + 1);
  for (long i = 0; i < m; ++i) texts.push_back(std::string(1, (char)('a' + i)));
  In in;
  in.ids = &ids;
  in.texts = &texts;
  std::map<uint32_t, std::string> known;
  size_t used = 0;
  for (long i = 0; i < n; ++i) {
    Shared f;
    bool thrown = false;
    try { cereal::CEREAL_LOAD_FUNCTION_NAME(in, f); } catch (const std::exception&) { thrown = true; }
    bool data = ids[i] >> 31;
    uint32_t id = ids[i] & 0x7fffffff;
    if (data ? used >= texts.size() : id == 0 || !known.count(id)) { CHECK(thrown, "a reference to nothing is refused"); REACH("refused"); return; }
    CHECK(!thrown, "a value is read");
    if (data) known[id] = texts[used++];
    CHECK(f.get() == known[id], "the value referred to");
  }
  REACH("read");
}
