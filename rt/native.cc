// Native replay runtime: the harness API reads the solver's values from a file, so that a path or a
// counterexample found symbolically is re-executed by the real compiled code of /repo.
//   usage: prog ENTRY ARG INPUTFILE OUTFILE        one run
// Exit codes: 0 end reached, 42 assertion failed, 43 terminate, 44 deadlock, 45 hang, 97 inputs do not fit, 98 assumption false.
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>
#include <exception>
#include <map>
#include <string>
#include <vector>
#include "sym.h"

namespace {
struct In { std::string name; unsigned w; uint64_t v; bool used; };
std::vector<In>* ins;
size_t pos;
FILE* out;
pthread_mutex_t* gl() { static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; return &m; }
void leave(int code, const char* what, const char* msg) {
  fprintf(out, "%s %s\n", what, msg);
  fflush(out);
  fprintf(stderr, "replay: %s %s\n", what, msg);
  fflush(stderr);
  _exit(code);
}
bool coop =
#ifdef COOP
    true;
#else
    false;
#endif
uint64_t next(const char* name, unsigned w) {
  if (!coop) {  // other threads may consume theirs in another order: match by name
    for (size_t i = pos; i < ins->size(); ++i)
      if (!(*ins)[i].used && (*ins)[i].name == name) {
        (*ins)[i].used = true;
        while (pos < ins->size() && (*ins)[pos].used) ++pos;
        return (*ins)[i].v;
      }
    // past the point where the symbolic run stopped: any value will do
    return 0;
  }
  if (pos >= ins->size()) { if (!strcmp(name, "sched")) return 255; return 0; }
  In& x = (*ins)[pos++];
  if (x.name != name) { std::string m = "expected input " + x.name + " but the program asks for " + name; leave(97, "MISMATCH", m.c_str()); }
  return x.v;
}
void onTerm() {
  const char* what = "";
  std::string s;
  if (std::exception_ptr p = std::current_exception()) {
    try { std::rethrow_exception(p); } catch (const std::exception& e) { s = e.what(); } catch (...) { s = "unknown exception"; }
  }
  leave(43, "TERMINATE", s.c_str());
}
void onAlarm(int) { static const char m[] = "replay: HANG\n"; write(2, m, sizeof m - 1); _exit(45); }
}  // namespace

#ifdef COOP
// ------------------------------------------------------------------ cooperative scheduler (mirrors the engine's decision points)
namespace {
enum St { Run, WMutex, WCond, Notified, WJoin, WFutex, WSettle, Done };
struct Th { St st = Run; void* wait = nullptr; void* wait2 = nullptr; bool timed = false; int join = -1; unsigned fval = 0; pthread_cond_t cv; void* (*fn)(void*) = nullptr; void* arg = nullptr; pthread_t real; };
struct Mx { int owner = -1; int count = 0; bool rec = false; };
std::vector<Th*>& ths() { static std::vector<Th*> v; return v; }
std::map<void*, Mx>& mxs() { static std::map<void*, Mx> m; return m; }
__thread int me = 0;
int cur = 0, spurious = 0;
bool ready = false;
template <typename F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
int (*r_lock)(pthread_mutex_t*); int (*r_unlock)(pthread_mutex_t*); int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*); int (*r_cbroad)(pthread_cond_t*);
int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t GC = PTHREAD_COND_INITIALIZER;
void init() {
  if (ready) return;
  r_lock = real<decltype(r_lock)>("pthread_mutex_lock"); r_unlock = real<decltype(r_unlock)>("pthread_mutex_unlock");
  r_cwait = real<decltype(r_cwait)>("pthread_cond_wait"); r_cbroad = real<decltype(r_cbroad)>("pthread_cond_broadcast");
  r_create = real<decltype(r_create)>("pthread_create");
  ths().push_back(new Th());
  ready = true;
}
bool active = false;  // from the first instruction of the entry function
int maxSpurious = 1000;
bool enabled(int t) {
  Th& h = *ths()[t];
  auto freeM = [&](void* m) { auto i = mxs().find(m); return i == mxs().end() || i->second.owner < 0; };
  switch (h.st) {
    case Run: return true;
    case WMutex: return freeM(h.wait);
    case WCond: return freeM(h.wait2);
    case Notified: return freeM(h.wait2);
    case WJoin: return ths()[h.join]->st == Done;
    case WFutex: return *(volatile unsigned*)h.wait != h.fval || h.timed;
    case WSettle: for (size_t i = 0; i < ths().size(); ++i) if ((int)i != t && ths()[i]->st != WSettle && ths()[i]->st != WCond && enabled((int)i)) return false; return true;
    default: return false;
  }
}
void waitTurn() { r_lock(&G); while (cur != me) r_cwait(&GC, &G); r_unlock(&G); }
void yield(bool blocked) {
  if (ths().size() == 1 && !blocked) return;
  bool any = false, runnable = false;
  for (size_t i = 0; i < ths().size(); ++i) {
    if (ths()[i]->st != Done && (int)i != me) any = true;
    Th& h = *ths()[i];
    if (h.st == WCond ? (h.timed && enabled(i)) : enabled(i)) runnable = true;
  }
  if (blocked) { if (!runnable && pos >= ins->size()) leave(44, "DEADLOCK", "no thread can run"); }
  else if (!any) return;
  uint64_t t = next("sched", 8);
  if (t == 255) {  // beyond the recorded prefix: keep going with any runnable thread
    if (!blocked) return;
    t = 0;
    while (t < ths().size() && !enabled(t)) ++t;
    if (t == ths().size()) leave(44, "DEADLOCK", "no thread can run");
  }
  if (t >= ths().size() || !enabled((int)t)) leave(97, "MISMATCH", "scheduled thread cannot run");
  r_lock(&G);
  cur = (int)t;
  r_cbroad(&GC);
  r_unlock(&G);
  if (ths()[me]->st == Done) return;
  waitTurn();
}
void* tramp(void* p) {
  Th* h = (Th*)p;
  for (size_t i = 0; i < ths().size(); ++i) if (ths()[i] == h) me = (int)i;
  waitTurn();
  h->fn(h->arg);
  h->st = Done;
  yield(true);
  return nullptr;
}
int spawn(void* (*f)(void*), void* a) {
  yield(false);
  Th* h = new Th();
  h->fn = f; h->arg = a;
  ths().push_back(h);
  int id = (int)ths().size() - 1;
  r_create(&h->real, nullptr, tramp, h);
  return id;
}
void joinT(int t) {
  Th& h = *ths()[me];
  if (ths()[t]->st != Done) { h.st = WJoin; h.join = t; yield(true); }
  h.st = Run;
}
}  // namespace
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) { init(); *t = (pthread_t)(spawn(f, a) + 1); return 0; }
int pthread_join(pthread_t t, void**) { joinT((int)t - 1); return 0; }
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self(void) { return (pthread_t)(me + 1); }
static int mlock(pthread_mutex_t* m, bool tr) {
  init();
  if (!active) return 0;
  yield(false);
  Mx& x = mxs()[m];
  if (x.owner < 0 && (m->__data.__kind & 3) == 1) x.rec = true;
  if (x.owner == me) {
    if (x.rec) { ++x.count; return 0; }
    if (tr) return EBUSY;
    leave(44, "DEADLOCK", "thread locks a mutex it already holds");
  }
  if (x.owner >= 0) {
    if (tr) return EBUSY;
    ths()[me]->st = WMutex; ths()[me]->wait = m;
    yield(true);
  }
  Mx& y = mxs()[m];
  y.owner = me; y.count = 1;
  ths()[me]->st = Run;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return mlock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mlock(m, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active) return 0;
  Mx& x = mxs()[m];
  if (x.owner != me) leave(42, "FAIL", "unlock of a mutex the thread does not hold");
  if (--x.count == 0) x.owner = -1;
  return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Th& h = *ths()[me];
  Mx& x = mxs()[m];
  x.owner = -1; x.count = 0;
  h.st = WCond; h.wait = c; h.wait2 = m; h.timed = timed;
  yield(true);
  bool to = h.st == WCond;
  Mx& y = mxs()[m];
  y.owner = me; y.count = 1;
  h.st = Run; h.timed = false;
  return to && timed ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cwait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cwait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cwait(c, m, true); }
static int csignal(pthread_cond_t* c, bool all) {
  init();
  if (!active) return 0;
  yield(false);
  std::vector<int> ws;
  for (size_t i = 0; i < ths().size(); ++i) if (ths()[i]->st == WCond && ths()[i]->wait == c) ws.push_back((int)i);
  if (all) { for (int i : ws) ths()[i]->st = Notified; return 0; }
  int w = ws.empty() ? -1 : ws[0];
  if (ws.size() > 1) w = (int)next("wake", 8);
  if (w >= 0) ths()[w]->st = Notified;
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return csignal(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return csignal(c, true); }
int sched_yield(void) { if (active) yield(false); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { if (active) yield(false); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { if (active) yield(false); return 0; }
uint64_t __sym_thread_create(void (*f)(void*), void* a) { init(); return spawn((void* (*)(void*))f, a); }
void __sym_thread_join(uint64_t t) { joinT((int)t); }
uint64_t __sym_thread_self(void) { return me; }
void __sym_thread_yield(void) { yield(false); }
void __sym_thread_settle(void) { if (ths().size() < 2) return; ths()[me]->st = WSettle; yield(true); ths()[me]->st = Run; }
int __sym_futex_wait(unsigned* a, unsigned v, int timed) {
  Th& h = *ths()[me];
  if (*(volatile unsigned*)a == v) { h.st = WFutex; h.wait = a; h.fval = v; h.timed = timed; yield(true); }
  h.st = Run; h.timed = false;
  return *(volatile unsigned*)a != v;
}
// std::future's waiting primitive (out of line in libstdc++)
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* a, unsigned v, bool timed, long, long) { return __sym_futex_wait(a, v, timed); }
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* a, unsigned v, bool timed, long, long) { return __sym_futex_wait(a, v, timed); }
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned*) {}
}
#else
extern "C" {
struct NT { void (*f)(void*); void* a; };
static pthread_t nts[64]; static int nnt = 0; static __thread int nme = 0;
static void* ntramp(void* p) { NT* n = (NT*)p; n->f(n->a); delete n; return nullptr; }
uint64_t __sym_thread_create(void (*f)(void*), void* a) { pthread_create(&nts[++nnt], nullptr, ntramp, new NT{f, a}); return nnt; }
void __sym_thread_join(uint64_t t) { pthread_join(nts[t], nullptr); }
uint64_t __sym_thread_self(void) { return nme; }
void __sym_thread_yield(void) { usleep(1000); }
void __sym_thread_settle(void) { usleep(200000); }
}
#endif

extern "C" {
uint64_t __sym_var(const char* name, unsigned bits) { uint64_t v = next(name, bits); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void __sym_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)next(name, 8); }
uint64_t __sym_choose(const char* name, uint64_t n) { uint64_t v = next(name, 32); return n && v >= n ? 0 : v; }
uint64_t __sym_concretize(uint64_t v) { return v; }
void __sym_assume(int c) { if (!c) leave(98, "ASSUME", "false"); }
void __sym_assert(int c, const char* msg) { if (!c) leave(42, "FAIL", msg); }
void __sym_fail(const char* msg) { leave(42, "FAIL", msg); abort(); }
void __sym_reach(const char* l) { fprintf(out, "R %s\n", l); }
void __sym_trace(const char* l, uint64_t v) { fprintf(out, "T %s %llx\n", l, (unsigned long long)v); }
int __sym_is_symbolic(void) { return 0; }
void __sym_end(void) { fprintf(out, "END\n"); fflush(out); _exit(0); }
}

int main(int argc, char** argv) {
  if (argc < 5) return 96;
  ins = new std::vector<In>();
  FILE* f = fopen(argv[3], "r");
  if (!f) return 96;
  unsigned w;
  unsigned long long v;
  char line[512];
  while (fgets(line, sizeof line, f)) {  // name (may contain blanks), width, value
    char* q = strrchr(line, ' ');
    if (!q) continue;
    *q = 0;
    char* r = strrchr(line, ' ');
    if (!r || sscanf(q + 1, "%llx", &v) != 1 || sscanf(r + 1, "%u", &w) != 1) continue;
    *r = 0;
    if (coop || (strcmp(line, "sched") && strcmp(line, "wake"))) ins->push_back({line, w, v, false});
  }
  fclose(f);
  out = fopen(argv[4], "w");
  if (!out) return 96;
  const char* lim = getenv("REPLAY_TIMEOUT");
  signal(SIGALRM, onAlarm);
  alarm(lim ? atoi(lim) : 20);
  std::set_terminate(onTerm);
  auto entry = (void (*)(long))dlsym(RTLD_DEFAULT, argv[1]);
  if (!entry) { fprintf(stderr, "replay: no entry %s\n", argv[1]); return 96; }
#ifdef COOP
  init();
  active = true;
#endif
  entry(atol(argv[2]));
  fprintf(out, "END\n");
  fflush(out);
  _exit(0);
}
