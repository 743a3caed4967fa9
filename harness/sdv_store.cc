// Storing, restoring and merging version histories; hostile stored forms.
#include "sdv.cc"
typedef detail::StructuredDataVersionsCereal Stored;
typedef detail::StructuredDataVersionsBranchCereal StoredBranch;
static SDV::serialised_type wrap(const Bytes& b) { return SDV::serialised_type(NonEmptyString(b)); }
static const N names[] = {A, B, C, D, E, X, Y, none};
// the restored history shows the same and goes on alike
static void restored(const SDV& s, Model& m, bool goes_on) {
  SDV::serialised_type stored = s.Serialise();
  SDV t(stored);
  CHECK(t.max_versions() == m.max_versions && t.max_branches() == m.max_branches, "the limits are restored");
  shows(t, m);
  CHECK(same_content(t.Serialise()->string(), stored->string()), "and are stored alike again");
  shows(s, m);
  if (goes_on) {
    N o = names[sym_choose("old", 8)], n = names[sym_choose("new", 7)];
    put_both(t, m, o, n);
    shows(t, m);
  }
}
extern "C" void store_shape(long shape) {
  Model m;
  limits(m);
  SDV s(m.max_versions, m.max_branches);
  build(s, m, shape);
  restored(s, m, true);
  REACH("restored");
}
extern "C" void store_puts(long k) {
  Model m;
  limits(m);
  SDV s(m.max_versions, m.max_branches);
  for (long i = 0; i < k; ++i) {
    size_t before = m.v.size();
    N o = pick("old", pool, 6), n = pick("new", pool, 5);
    put_both(s, m, o, n);
    sym_assume(m.v.size() > before || before == m.max_versions);
  }
  restored(s, m, false);
  REACH("restored");
}
extern "C" void store_any(long k) {
  Model m;
  limits(m);
  SDV s(m.max_versions, m.max_branches);
  for (long i = 0; i < k; ++i) put_both(s, m, sym_bool("has parent") ? any_name("old", "old id") : none, any_name("new", "new id"));
  restored(s, m, false);
  REACH("restored");
}
extern "C" void store_deleted(long shape) {
  Model m;
  limits(m);
  SDV s(m.max_versions, m.max_branches);
  build(s, m, shape);
  sym_assume(!m.v.empty());
  remove_both(s, m, m.v[sym_choose("delete", (int)m.v.size())].name);
  restored(s, m, true);
  REACH("restored");
}
// the versions of m below i, parents before children, children in order
static void below(const Model& m, int i, std::vector<Model::Node>& out) {
  out.push_back(m.v[i]);
  std::vector<int> c;
  for (size_t j = 0; j < m.v.size(); ++j) if (eq(m.v[j].parent, m.v[i].name)) c.push_back((int)j);
  std::sort(c.begin(), c.end(), [&](int a, int b) { return less(m.v[a].name, m.v[b].name); });
  for (int j : c) below(m, j, out);
}
static void merge(SDV& s, Model& m, SDV& t, Model& u) {
  std::vector<Model::Node> mine;
  if (m.root >= 0) below(m, m.root, mine);
  std::vector<int> starts;
  for (size_t j = 0; j < m.v.size(); ++j) if ((int)j != m.root && m.parent_of((int)j) < 0) starts.push_back((int)j);
  std::sort(starts.begin(), starts.end(), [&](int a, int b) {
    return less(m.v[a].parent, m.v[b].parent) || (eq(m.v[a].parent, m.v[b].parent) && less(m.v[a].name, m.v[b].name));
  });
  for (int j : starts) below(m, j, mine);
  Model both = u;
  Result r = kNothing;
  for (auto& x : mine) {
    sym_assume(both.allowed(x.parent, x.name));
    N removed;
    Result p = both.put(x.parent, x.name, removed);
    if (p == kInvalid || p == kLimit) { r = p; break; }
  }
  size_t largest = both.v.size();
  (void)largest;
  SDV::serialised_type theirs = t.Serialise();
  CHECK(run([&] { s.ApplySerialised(theirs); return kNothing; }) == r, "what can be merged is merged, what cannot is refused");
  if (r != kNothing) {
    shows(s, m);
    CHECK(s.max_versions() == m.max_versions && s.max_branches() == m.max_branches, "a refused merge changes nothing");
    REACH("refused");
    return;
  }
  CHECK(s.max_versions() == u.max_versions && s.max_branches() == u.max_branches, "the limits are the received ones");
  shows(s, both);
  shows(t, u);
  m = both;
  REACH("merged");
}
extern "C" void merge_shapes(long shape) {
  Model m, u;
  long other = sym_choose("other", (int)shapes().size() + 1);
  m.max_versions = 20;
  m.max_branches = 10;
  limits(u);
  SDV s(m.max_versions, m.max_branches), t(u.max_versions, u.max_branches);
  if (shape >= 0) build(s, m, shape);
  if (other < (long)shapes().size()) build(t, u, other);
  sym_assume(u.v.empty() || u.v.size() >= shapes()[other].size() || u.v.size() == u.max_versions);
  merge(s, m, t, u);
  N o = names[sym_choose("old", 8)], n = names[sym_choose("new", 7)];
  put_both(s, m, o, n);
  shows(s, m);
}
extern "C" void merge_any(long k) {
  Model m, u;
  m.max_versions = u.max_versions = 9;
  m.max_branches = u.max_branches = 9;
  SDV s(9, 9), t(9, 9);
  for (int i = 0; i < 2; ++i) {
    size_t before = m.v.size();
    N o = pick("old", pool, 6), n = pick("new", pool, 5);
    put_both(s, m, o, n);
    sym_assume(m.v.size() > before);
  }
  for (long i = 0; i < k; ++i) {
    size_t before = u.v.size();
    N o = pick("their old", pool, 6), n = pick("their new", pool, 5);
    put_both(t, u, o, n);
    sym_assume(u.v.size() > before);
  }
  merge(s, m, t, u);
}
// swapping exchanges two histories, whichever they are
extern "C" void swap_shapes(long shape) {
  Model m, u;
  long other = sym_choose("other", (int)shapes().size() + 1);
  m.max_versions = 20; m.max_branches = 10;
  u.max_versions = 12; u.max_branches = 9;
  SDV s(20, 10), t(12, 9);
  if (shape >= 0) build(s, m, shape);
  if (other < (long)shapes().size()) build(t, u, other);
  {
    using std::swap;
    swap(s, t);
  }
  shows(s, u);
  shows(t, m);
  CHECK(s.max_versions() == 12 && s.max_branches() == 9 && t.max_versions() == 20 && t.max_branches() == 10, "and the limits");
  N o = names[sym_choose("old", 8)], n = names[sym_choose("new", 7)];
  put_both(s, u, o, n);
  shows(s, u);
  put_both(t, m, o, n);
  shows(t, m);
  REACH("swapped");
}
// whatever was parsed: everything terminates, within the limits, and the tips can be deleted one after the other
static void usable(SDV& s) {
  std::vector<VN> tips = s.Get();
  CHECK(tips.size() <= s.max_branches(), "no more branches than allowed");
  std::map<std::pair<uint64_t, int>, int> all;
  for (auto& t : tips)
    for (auto& v : s.GetBranch(t)) {
      CHECK(v.id.IsInitialised(), "every version has an id");
      all[std::make_pair(v.index, (int)v.id.string()[0])] = 1;
    }
  CHECK(all.size() <= s.max_versions(), "no more versions than allowed");
  SDV again(s.Serialise());
  CHECK(again.Get().size() == tips.size(), "it can be stored again");
  int r = outcome([&] { s.Put(tips.empty() ? VN() : tips[0], real(N{77, true, 77})); }, CommonErrors::invalid_argument);
  CHECK(r <= 2, "versions can be put or are refused");
  r = outcome([&] { s.Put(real(N{78, true, 78}), real(N{79, true, 79})); }, CommonErrors::invalid_argument);
  CHECK(r <= 2, "versions can be put or are refused");
  for (size_t i = 0; i < 9; ++i) {
    tips = s.Get();
    if (tips.empty()) break;
    s.DeleteBranchUntilFork(tips[i % tips.size()]);
  }
  CHECK(s.Get().empty(), "all can be deleted");
}
static void parse(const Bytes& b) {
  bool made = false;
  int r = outcome([&] {
    SDV s(wrap(b));
    verif_alloc_limit = ~(size_t)0;
    made = true;
    usable(s);
  }, CommonErrors::parsing_error);
  verif_alloc_limit = ~(size_t)0;
  if (made) {
    CHECK(r == 0, "a history that was accepted is usable");
    REACH("accepted");
  } else {
    CHECK(r == 1 || r == 2, "what is not accepted is an error");
    REACH("refused");
  }
}
static SDV::VersionName stored_name(const char* what, int n) {
  VN v = real(names[sym_choose(what, n)]);
  return v;
}
// kinds: the number of names in each branch, one decimal digit each
extern "C" void hostile_structure(long kinds) {
  Stored c;
  c.max_versions = sym_u32("max_versions");
  c.max_branches = sym_u32("max_branches");
  std::vector<int> sizes;
  for (long k = kinds; k >= 10; k /= 10) sizes.push_back((int)(k % 10));
  for (int n : sizes) {
    c.branches.emplace_back();
    StoredBranch& b = c.branches.back();
    if (sym_bool("absent parent")) b.absent_parent = stored_name("absent", 2 + (int)sizes.size());
    for (int i = 0; i < n; ++i) {
      b.names.push_back(stored_name("name", 2 + (int)sizes.size()));
      switch (sym_choose("fork", i + 1 == n ? 3 : 2)) {
        case 1: b.names.back().forking_child_count = sym_u32("children"); break;
        case 2: b.names.back().forking_child_count = 2; break;
        default: break;
      }
    }
  }
  parse(Serialise(c));
}
// arbitrary bytes at one place of a well-formed stored history
extern "C" void hostile_bytes(long at) {
  SDV s(5, 4);
  Model m;
  m.max_versions = 5;
  m.max_branches = 4;
  build(s, m, 0);
  Bytes b = s.Serialise()->string();
  size_t width = at / 1000;
  at %= 1000;
  for (size_t i = 0; i < width && at + i < b.size(); ++i) b[at + i] = sym_u8("byte");
  verif_alloc_limit = 700;
  parse(b);
}
extern "C" void hostile_short(long n) {
  Bytes b = sym_vec("stored", n);
  verif_alloc_limit = 700;
  if (n == 0) {
    CHECK(outcome([&] { SDV s{SDV::serialised_type()}; }, CommonErrors::parsing_error) == 1, "nothing is not a history");
    REACH("refused");
    return;
  }
  parse(b);
}
extern "C" void hostile_truncated(long shape) {
  SDV s(9, 5);
  Model m;
  m.max_versions = 9;
  m.max_branches = 5;
  build(s, m, shape);
  Bytes b = s.Serialise()->string();
  for (size_t n = 1; n < b.size(); n += n < 24 ? 1 : n % 7 + 1) {
    Bytes cut(b.begin(), b.begin() + n);
    CHECK(outcome([&] { SDV t(wrap(cut)); }, CommonErrors::parsing_error) == 1, "a truncated history is refused");
  }
  REACH("truncated");
}
