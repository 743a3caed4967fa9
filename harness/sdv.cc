// StructuredDataVersions against a model of the documented version tree. Names come from a small pool (chosen) or are
// symbolic; the limits are symbolic. The circularity checks the code starts with std::async run when they are waited for.
#include "util.h"
#include "alloc_limit.h"
#include <algorithm>
#include <map>
#include "maidsafe/common/serialisation/serialisation.h"
#include "maidsafe/common/data_types/structured_data_versions.h"
#include "maidsafe/common/data_types/structured_data_versions_cereal.h"
using namespace maidsafe;
typedef StructuredDataVersions SDV;
typedef SDV::VersionName VN;
typedef std::vector<byte> Bytes;

struct N {  // a version name: index, and an id told by its first byte (or no id at all)
  uint64_t index; bool has; uint8_t id;
};
static bool eq(const N& a, const N& b) {
  return (a.index == b.index) & (a.has == b.has) & (!a.has | (a.id == b.id));
}
static bool less(const N& a, const N& b) {
  return (a.index < b.index) | ((a.index == b.index) & ((!a.has & b.has) | (a.has & b.has & (a.id < b.id))));
}
static const N none = {UINT64_MAX, false, 0};
static VN real(const N& n) {
  if (!n.has) return VN();
  Bytes b(64, 7);
  b[0] = n.id;
  return VN(n.index, Identity(b));
}
static bool same(const VN& v, const N& n) {
  if (v.index != n.index || v.id.IsInitialised() != n.has) return false;
  if (!n.has) return true;
  const Bytes& b(v.id.string());
  if (b.size() != 64) return false;
  unsigned d = b[0] ^ n.id;
  for (size_t i = 1; i < 64; ++i) d |= b[i] ^ 7;
  return d == 0;
}

enum Result { kNothing, kRemoved, kInvalid, kLimit, kMissing, kOther };

struct Model {
  struct Node { N name, parent; };
  std::vector<Node> v;
  int root = -1;
  uint32_t max_versions, max_branches;

  int find(const N& n) const {
    for (size_t i = 0; i < v.size(); ++i) if (eq(v[i].name, n)) return (int)i;
    return -1;
  }
  // a version is attached to its parent if that is present; a root which was put over a present version is not
  int parent_of(int i) const { return find(v[i].parent); }
  int children(int i) const { int c = 0; for (auto& x : v) c += eq(x.parent, v[i].name); return c; }
  int tips() const { int t = 0; for (size_t i = 0; i < v.size(); ++i) t += children((int)i) == 0; return t; }
  void lowest_start() {  // of the versions whose parent is not there, the lowest becomes the root
    root = -1;
    for (size_t i = 0; i < v.size(); ++i)
      if (parent_of((int)i) < 0 && (root < 0 || less(v[i].name, v[root].name))) root = (int)i;
  }
  void lowest_child_of(const N& n) {
    root = -1;
    for (size_t i = 0; i < v.size(); ++i)
      if (eq(v[i].parent, n) && (root < 0 || less(v[i].name, v[root].name))) root = (int)i;
  }
  void erase(int i) {
    v.erase(v.begin() + i);
    if (root > i) --root;
  }
  void erase_root() {
    N gone = v[root].name;
    bool had = children(root) > 0;
    erase(root);
    if (had) lowest_child_of(gone); else lowest_start();
  }
  // no version with index 0 may be put onto a version which is present (callers must not, so this is assumed)
  bool allowed(const N& old_version, const N& new_version) const {
    return !(new_version.has && new_version.index == 0 && old_version.has && find(old_version) >= 0);
  }
  Result put(const N& o, const N& n, N& removed) {
    if (!n.has || eq(o, n)) return kInvalid;
    int at = find(n);
    if (at >= 0) return eq(v[at].parent, o) ? kNothing : kInvalid;
    bool is_root = !o.has || v.empty() || n.index == 0;
    if (is_root && root >= 0 && !v[root].parent.has) return kInvalid;  // a second root
    int p = is_root ? -1 : find(o);
    bool is_orphan = p < 0 && !is_root;
    bool adopts_root = root >= 0 && eq(v[root].parent, n);
    int adopts = 0;
    for (auto& x : v) adopts += eq(x.parent, n);
    for (int i = p; i >= 0; i = parent_of(i)) if (eq(v[i].parent, n)) return kInvalid;  // a circle
    if (is_orphan && v[root].name.index == 0 && o.index == 0 && v[root].name.id != o.id) return kInvalid;  // implies a second root
    bool pop = false;
    if (v.size() == max_versions) {
      if (is_root || adopts_root) { removed = n; return kRemoved; }  // would be the root to be removed
      pop = true;
    }
    if ((uint32_t)tips() == max_branches && adopts == 0 && (p < 0 || children(p) > 0)) {
      if (is_root || children(root) > 0) return kLimit;
      pop = true;
    }
    v.push_back(Node{n, o});
    if (is_root) root = (int)v.size() - 1;
    else if (adopts_root) {
      root = (int)v.size() - 1;
      while (parent_of(root) >= 0) root = parent_of(root);
    } else if (pop) {
      removed = v[root].name;
      erase_root();
      return kRemoved;
    }
    return kNothing;
  }
  Result remove(const N& tip) {
    int i = find(tip);
    if (i < 0) return kMissing;
    if (children(i) > 0) return kInvalid;
    for (;;) {
      N parent = v[i].parent;
      bool was_root = i == root;
      bool attached = parent_of(i) >= 0;
      if (was_root) root = -1;
      erase(i);
      if (!attached) {
        if (was_root) lowest_start();
        return kNothing;
      }
      i = find(parent);
      if (children(i) > 0) return kNothing;
    }
  }
};

template <typename F>
static Result run(F f) {
  try { return f(); }
  catch (const maidsafe_error& e) {
    if (e.code() == make_error_code(CommonErrors::invalid_argument)) return kInvalid;
    if (e.code() == make_error_code(CommonErrors::cannot_exceed_limit)) return kLimit;
    if (e.code() == make_error_code(CommonErrors::no_such_element)) return kMissing;
  }
  return kOther;
}
// the history shows the tips in order, every branch back to its start, and no other tips
static void shows(const SDV& s, const Model& m) {
  std::vector<N> tips;
  for (size_t i = 0; i < m.v.size(); ++i) if (m.children((int)i) == 0) tips.push_back(m.v[i].name);
  std::sort(tips.begin(), tips.end(), [](const N& a, const N& b) { return less(b, a); });
  std::vector<VN> got = s.Get();
  CHECK(got.size() == tips.size(), "as many tips as the tree has");
  for (size_t i = 0; i < tips.size(); ++i) CHECK(same(got[i], tips[i]), "the tips, highest first");
  for (size_t i = 0; i < m.v.size(); ++i) {
    VN name = real(m.v[i].name);
    if (m.children((int)i) > 0) {
      CHECK(run([&] { s.GetBranch(name); return kNothing; }) == kInvalid, "a version inside a branch is not its tip");
      continue;
    }
    std::vector<VN> branch = s.GetBranch(name);
    size_t k = 0;
    for (int j = (int)i; j >= 0; j = m.parent_of(j), ++k)
      CHECK(k < branch.size() && same(branch[k], m.v[j].name), "the branch from its tip back to its start");
    CHECK(k == branch.size(), "and no further");
  }
  CHECK(m.v.size() <= m.max_versions && tips.size() <= m.max_branches, "within the limits");
}
static Result put(SDV& s, const N& o, const N& n, const Model& m, const N& removed) {
  return run([&] {
    auto r = s.Put(real(o), real(n));
    if (!r) return kNothing;
    return same(*r, removed) ? kRemoved : kOther;
  });
}
static void put_both(SDV& s, Model& m, N o, N n) {
  sym_assume(m.allowed(o, n));
  N removed = none;
  Result want = m.put(o, n, removed);
  CHECK(put(s, o, n, m, removed) == want, "a put is accepted, refused or removes a version as documented");
  if (want == kRemoved) REACH("removed");
  if (want == kInvalid) REACH("invalid");
  if (want == kLimit) REACH("limit");
}
static void remove_both(SDV& s, Model& m, N n) {
  Result want = m.remove(n);
  CHECK(run([&] { s.DeleteBranchUntilFork(real(n)); return kNothing; }) == want, "a branch is deleted or refused as documented");
}
static N pick(const char* what, const N* pool, int n) { return pool[sym_choose(what, n)]; }
static void limits(Model& m) {
  m.max_versions = sym_u32("max_versions");
  m.max_branches = sym_u32("max_branches");
  sym_assume(m.max_versions >= 1 && m.max_branches >= 1);
}
static N any_name(const char* index, const char* id) {
  N n = {sym_u64(index), true, sym_u8(id)};
  return n;
}
static const N pool[] = {{0, true, 1}, {1, true, 9}, {2, true, 4}, {2, true, 5}, {3, true, 2}, {UINT64_MAX, false, 0}};
// any puts of names from the pool, in any order
extern "C" void sdv_puts(long k) {
  Model m;
  limits(m);
  SDV s(m.max_versions, m.max_branches);
  for (long i = 0; i < k; ++i) {
    N o = pick("old", pool, 6), n = pick("new", pool, 5);
    size_t before = m.v.size();
    put_both(s, m, o, n);
    sym_assume(i + 1 == k || m.v.size() > before || before == m.max_versions);  // earlier refusals change nothing
    shows(s, m);
  }
  REACH("put");
}
// two puts of any names
extern "C" void sdv_any(long k) {
  Model m;
  limits(m);
  SDV s(m.max_versions, m.max_branches);
  for (long i = 0; i < k; ++i) {
    N o = sym_bool("has parent") ? any_name("old", "old id") : none, n = any_name("new", "new id");
    put_both(s, m, o, n);
    shows(s, m);
  }
  REACH("put");
}
extern "C" void sdv_limits(long) {
  uint32_t v = sym_u32("max_versions"), b = sym_u32("max_branches");
  int r = outcome([&] { SDV s(v, b); CHECK(s.max_versions() == v && s.max_branches() == b, "the limits are kept"); }, CommonErrors::invalid_argument);
  CHECK(r == (v == 0 || b == 0 ? 1 : 0), "both limits must be at least 1");
  SDV s(3, 2);
  CHECK(s.Get().empty() && run([&] { s.GetBranch(real(pool[1])); return kNothing; }) == kMissing, "nothing yet");
  CHECK(run([&] { s.DeleteBranchUntilFork(real(pool[1])); return kNothing; }) == kMissing, "nothing to delete");
  CHECK(run([&] { s.Put(VN(), VN()); return kNothing; }) == kInvalid, "a version needs an id");
  CHECK(run([&] { s.Put(real(pool[1]), VN(5, Identity())); return kNothing; }) == kInvalid, "a version needs an id");
  CHECK(s.Get().empty(), "still nothing");
  REACH("limits");
}
// histories with forks, orphans and roots which arrive late
static const N A = {0, true, 1}, B = {1, true, 2}, C = {2, true, 3}, D = {2, true, 4}, E = {3, true, 5}, F = {3, true, 6}, X = {5, true, 8}, Y = {6, true, 7}, Z = {7, true, 1};
struct Put2 { N o, n; };
static const std::vector<std::vector<Put2>>& shapes() {
  static const std::vector<std::vector<Put2>> all = {
    {{none, A}, {A, B}, {B, C}, {B, D}},                          // a fork
    {{none, A}, {A, B}, {X, Y}, {Y, Z}},                          // a root branch and an orphan branch
    {{B, C}, {B, D}, {C, E}, {X, Y}},                             // a temporary root and two orphans
    {{A, B}, {B, C}, {X, Y}, {X, Z}},                             // two orphans of one parent
    {{C, E}, {D, F}, {X, Y}},                                     // three starts
    {{none, A}, {D, F}, {C, E}, {A, B}, {B, C}},                  // an orphan adopted
    {{X, Y}, {E, X}, {B, D}, {Y, Z}},                             // the root adopted, an orphan left
    {{none, B}, {B, C}, {B, D}, {B, E}, {C, F}},                  // a wide fork
    {{D, F}, {D, E}, {F, X}, {C, Z}},                             // children of absent parents
  };
  return all;
}
static void build(SDV& s, Model& m, long shape) {
  for (auto& p : shapes()[shape]) put_both(s, m, p.o, p.n);
}
static N known_or_new(const Model& m, const char* what, const char* index, const char* id) {
  int k = sym_choose(what, (int)m.v.size() + 1);
  return k < (int)m.v.size() ? m.v[k].name : any_name(index, id);
}
// any put onto such a history
extern "C" void sdv_shape_put(long shape) {
  Model m;
  limits(m);
  SDV s(m.max_versions, m.max_branches);
  build(s, m, shape);
  shows(s, m);
  int k = sym_choose("parent", (int)m.v.size() + 2);
  N o = k == 0 ? none : k == 1 ? any_name("old", "old id") : m.v[k - 2].name;
  N n = any_name("new", "new id");
  put_both(s, m, o, n);
  shows(s, m);
  REACH("put");
}
// deleting any branch of such a history (or what is not one), then another, then putting
extern "C" void sdv_shape_delete(long shape) {
  Model m;
  limits(m);
  SDV s(m.max_versions, m.max_branches);
  build(s, m, shape);
  remove_both(s, m, known_or_new(m, "first", "first index", "first id"));
  shows(s, m);
  if (sym_bool("delete")) remove_both(s, m, known_or_new(m, "second", "second index", "second id"));
  else {
    static const N p[] = {A, B, C, D, E, X, Y, none};
    N o = pick("old", p, 8), n = pick("new", p, 7);
    put_both(s, m, o, n);
  }
  shows(s, m);
  REACH("deleted");
}
// puts after puts at the limits: what is removed next
extern "C" void sdv_shape_overflow(long shape) {
  Model m;
  limits(m);
  SDV s(m.max_versions, m.max_branches);
  build(s, m, shape);
  static const N p[] = {A, B, C, D, E, F, X, Y, Z, none}, q[] = {{4, true, 1}, {5, true, 8}, {8, true, 8}, {1, true, 9}};
  for (int i = 0; i < 2; ++i) {
    N o = pick("old", p, 10), n = pick("new", q, 4);
    put_both(s, m, o, n);
    shows(s, m);
  }
  REACH("put");
}
extern "C" void sdv_clear(long shape) {
  Model m;
  limits(m);
  SDV s(m.max_versions, m.max_branches);
  build(s, m, shape);
  s.clear();
  m.v.clear();
  m.root = -1;
  shows(s, m);
  build(s, m, shape);
  shows(s, m);
  REACH("cleared");
}
