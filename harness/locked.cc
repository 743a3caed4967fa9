// Locked memory: page reference counts of the manager, and the wiping allocators.
#include <cassert>
#include "sym.h"
#include <cstdlib>
#include <new>
#include <vector>
#include <string>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
extern "C" int verif_mlock(const void*, size_t);
extern "C" int verif_munlock(const void*, size_t);
extern "C" long verif_sysconf(int) { return 4096; }
#define mlock verif_mlock
#define munlock verif_munlock
#define sysconf verif_sysconf
#include "maidsafe/common/authentication/detail/safe_allocators.h"
#undef mlock
#undef munlock
using namespace maidsafe::authentication::detail;

// what the system was asked to do, seen at one arbitrary page
static const size_t kPage = 64, kBase = 0x7f12fffff000;  // pages are treated alike: a window of five is enough
static size_t probe;
static int state, locks, unlocks;
static bool bad;
struct Recorder {
  bool Lock(const void* p, size_t n) {
    bad |= ((size_t)p % kPage != 0) | (n != kPage);
    bool at = (size_t)p == probe;
    bad |= at & (state != 0);
    state |= at; locks += at;
    return true;
  }
  bool Unlock(const void* p, size_t n) {
    bad |= ((size_t)p % kPage != 0) | (n != kPage);
    bool at = (size_t)p == probe;
    bad |= at & (state != 1);
    state &= !at; unlocks += at;
    return true;
  }
};
struct Range { size_t at, size; bool live; };
static bool covers(const Range& r, size_t page) { return (r.size != 0) & (r.at < page + kPage) & (r.at + r.size > page); }
// every history of n lock/unlock operations on arbitrary ranges of up to a page and a bit
extern "C" void lk_pages(long n) {
  probe = kBase + kPage * sym_choose("page", 5);
  LockedPageManagerBase<Recorder> m(kPage);
  std::vector<Range> rs;
  for (long i = 0; i < n; ++i) {
    size_t open = 0;
    for (auto& r : rs) open += r.live;
    size_t k = sym_choose("op", 1 + open);
    if (k == 0) {
      Range r{(kBase + kPage * sym_choose("start", 3)) | (size_t)(sym_u8("offset") & 63), (size_t)(sym_u8("size")), true};
      sym_assume(r.size <= kPage + 1);
      m.LockRange((void*)r.at, r.size);
      rs.push_back(r);
      REACH("lock");
    } else {
      for (auto& r : rs) if (r.live && --k == 0) { m.UnlockRange((void*)r.at, r.size); r.live = false; break; }
      REACH("unlock");
    }
    int want = 0;
    for (auto& r : rs) want |= r.live & covers(r, probe);
    CHECK(!bad, "whole pages are locked when unlocked and unlocked when locked");
    CHECK(state == want, "a page is locked exactly while a live range touches it");
    CHECK(locks - unlocks == state, "each lock is undone once");
  }
  for (auto& r : rs) if (r.live) m.UnlockRange((void*)r.at, r.size);
  CHECK(!bad && state == 0 && locks == unlocks, "nothing stays locked at the end");
  CHECK(m.GetLockedPageCount() == 0, "no page is counted as locked at the end");
}
// the count reported: distinct pages
extern "C" void lk_count(long n) {
  LockedPageManagerBase<Recorder> m(kPage);
  size_t a = kBase + (sym_u8("a") & 63), s = sym_u8("s"), b = kBase + sym_u8("b"), t = sym_u8("t");
  probe = 1;
  sym_assume((s <= (size_t)n * kPage) & (b >= a) & (t <= (size_t)n * kPage) & (s > 0) & (t > 0));
  m.LockRange((void*)a, s);
  size_t a0 = a / kPage, a1 = (a + s - 1) / kPage, b0 = b / kPage, b1 = (b + t - 1) / kPage;
  CHECK((size_t)m.GetLockedPageCount() == a1 - a0 + 1, "the pages of one range");
  m.LockRange((void*)b, t);
  size_t both = b0 > a1 ? (a1 - a0 + 1) + (b1 - b0 + 1) : (a1 > b1 ? a1 : b1) - a0 + 1;
  CHECK((size_t)m.GetLockedPageCount() == both, "the pages of two ranges, shared ones once");
  m.UnlockRange((void*)a, s);
  CHECK((size_t)m.GetLockedPageCount() == b1 - b0 + 1, "the pages of the range that is left");
  REACH("count");
}
// the allocators: what is freed has been wiped, and was locked while live
LockedPageManager LockedPageManager::instance;
struct Call { size_t at; bool lock; };
static Call calls[64];
static int ncalls;
static bool page_locked(size_t page) {
  int c = 0;
  for (int i = 0; i < ncalls; ++i) if (calls[i].at == page) c += calls[i].lock ? 1 : -1;
  CHECK(c == 0 || c == 1, "a page is locked once and unlocked once");
  return c == 1;
}
extern "C" int verif_mlock(const void* p, size_t n) { CHECK(n == 4096 && ((size_t)p & 4095) == 0, "whole pages"); if (ncalls < 64) calls[ncalls++] = Call{(size_t)p, true}; return 0; }
extern "C" int verif_munlock(const void* p, size_t n) { CHECK(n == 4096 && ((size_t)p & 4095) == 0, "whole pages"); if (ncalls < 64) calls[ncalls++] = Call{(size_t)p, false}; return 0; }
static bool all_locked(const void* p, size_t n) {
  bool r = true;
  for (size_t g = (size_t)p & ~4095ull; n && g <= (((size_t)p + n - 1) & ~4095ull); g += 4096) r &= page_locked(g);
  return r;
}
#include "free_hook.h"
static const unsigned char* watched;
static size_t watched_size;
static bool seen, wiped;
static void on_free(void* p) {
  if (p != watched) return;
  seen = true; wiped = true;
  for (size_t i = 0; i < watched_size; ++i) wiped &= watched[i] == 0;
}
template <typename A>
static void block(size_t count, bool locking) {
  typedef typename A::value_type T;
  A a;
  T* p = a.allocate(count);
  size_t bytes = count * sizeof(T);
  __sym_bytes(p, bytes, "secret");
  if (locking) CHECK(all_locked(p, bytes), "every page of a live block is locked");
  watched = (unsigned char*)p; watched_size = bytes; seen = wiped = false;
  verif_on_free = on_free;
  a.deallocate(p, count);
  verif_on_free = nullptr;
  CHECK(seen && wiped, "a block is all zero when it is released");
}
extern "C" void al_wipe(long n) {
  block<safe_allocator<char>>(n, true);
  block<safe_allocator<uint32_t>>(n, true);
  block<zero_after_free_allocator<char>>(n, false);
  block<zero_after_free_allocator<uint64_t>>(n, false);
  CHECK(LockedPageManager::instance.GetLockedPageCount() == 0, "nothing stays locked");
  REACH("wiped");
}
// blocks sharing pages, released in every order
extern "C" void al_share(long n) {
  typedef safe_allocator<char> A;
  A a;
  char* p[4]; size_t sz[4] = {1, 40, 5000, 3}; bool live[4] = {true, true, true, true};
  for (long i = 0; i < n; ++i) p[i] = a.allocate(sz[i]);
  for (long k = 0; k < n; ++k) {
    for (long i = 0; i < n; ++i) if (live[i]) CHECK(all_locked(p[i], sz[i]), "every page of a live block is locked");
    size_t c = sym_choose("which", n - k);
    for (long i = 0; i < n; ++i) if (live[i] && c-- == 0) { a.deallocate(p[i], sz[i]); live[i] = false; break; }
  }
  CHECK(LockedPageManager::instance.GetLockedPageCount() == 0, "nothing stays locked");
  for (int i = 0; i < ncalls; ++i) CHECK(!page_locked(calls[i].at), "every page is unlocked at the end");
  REACH("shared");
}
// secrets in strings and vectors: growing, assigning and clearing leave nothing behind
static bool leaked;
static unsigned char secret[3];
static size_t sizes[64]; static void* blocks[64]; static int nblocks;
template <typename T> struct watching : safe_allocator<T> {
  watching() {}
  template <typename U> explicit watching(const watching<U>&) {}
  template <typename O> struct rebind { typedef watching<O> other; };
  T* allocate(size_t n) { T* p = safe_allocator<T>::allocate(n); if (nblocks < 64) { blocks[nblocks] = p; sizes[nblocks++] = n * sizeof(T); } return p; }
};
static void leak_check(void* p) {
  for (int i = 0; i < nblocks; ++i) if (blocks[i] == p) { for (size_t k = 0; k < sizes[i]; ++k) leaked |= ((unsigned char*)p)[k] != 0; blocks[i] = nullptr; }
}
extern "C" void al_string(long n) {
  typedef std::basic_string<char, std::char_traits<char>, watching<char>> S;
  verif_on_free = leak_check;
  {
    S s, t;
    for (long i = 0; i < n; ++i) s.push_back((char)(sym_u8("c") | 1));
    t = s;
    t += s;
    s.clear(); s.shrink_to_fit();
    S u(std::move(t));
    std::vector<uint32_t, watching<uint32_t>> v;
    for (long i = 0; i < 5; ++i) v.push_back(sym_u32("v") | 1);
  }
  verif_on_free = nullptr;
  CHECK(!leaked, "no block that held a secret is released unwiped");
  CHECK(LockedPageManager::instance.GetLockedPageCount() == 0, "nothing stays locked");
  REACH("string");
}
