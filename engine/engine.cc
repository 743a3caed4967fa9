#include "engine.h"
#include <cmath>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <pthread.h>
#include <unistd.h>
using namespace llvm;

Node* const UNINIT = (Node*)8;

std::string Engine::where(const Instruction* i) {
  if (!i) return "?";
  if (auto dl = i->getDebugLoc()) {
    auto* sc = cast<DIScope>(dl.getScope());
    std::string f = sc->getFilename().str();
    if (!f.empty() && f[0] != '/') f = sc->getDirectory().str() + "/" + f;
    return f + ":" + std::to_string(dl.getLine());
  }
  return i->getFunction()->getName().str();
}
static std::string inlinedRepoLoc(const Instruction* i) {
  if (!i) return "";
  const DILocation* l = i->getDebugLoc().get();
  for (; l; l = l->getInlinedAt()) {
    std::string f = l->getFilename().str();
    if (!f.empty() && f[0] != '/') f = l->getDirectory().str() + "/" + f;
    if (f.compare(0, 6, "/repo/") == 0) return f + ":" + std::to_string(l->getLine());
  }
  return "";
}
std::vector<std::string> Engine::stackTrace() {
  std::vector<std::string> r;
  auto& st = T().st;
  for (int i = (int)st.size() - 1; i >= 0; --i) {
    auto& d = st[i]->f->code;
    const Instruction* I = st[i]->pc < d.size() ? d[st[i]->pc].I : nullptr;
    std::string rl = inlinedRepoLoc(I);
    r.push_back(st[i]->f->name.substr(0, 160) + " @ " + where(I) + (rl.empty() ? "" : " [" + rl + "]"));
  }
  return r;
}
std::string Engine::curWhere() {
  auto& st = T().st;
  for (int i = (int)st.size() - 1; i >= 0; --i) {
    const Instruction* I = st[i]->pc < st[i]->f->code.size() ? st[i]->f->code[st[i]->pc].I : nullptr;
    std::string rl = inlinedRepoLoc(I);
    if (!rl.empty()) return rl;
  }
  return st.empty() ? "?" : where(st.back()->pc < st.back()->f->code.size() ? st.back()->f->code[st.back()->pc].I : nullptr);
}

u128 Engine::evalIn(Node* n, const Model& m) {
  static const Model* last = nullptr;
  static std::vector<uint64_t> lastCopy;
  if (&m != last || lastCopy != m) { ++X.epoch; last = &m; lastCopy = m; }
  return evalNode(n, m);
}

// ---------------------------------------------------------------- path control
void Engine::endPath() { throw PathEnd(); }
void Engine::stop(const std::string& why) {
  ++truncated;
  if (incomplete.size() < 20) incomplete.push_back(why + " at " + curWhere());
  throw PathEnd();
}
void Engine::report(const std::string& kind, const std::string& msg, const Model& m) {
  Violation v;
  v.kind = kind; v.msg = msg; v.loc = curWhere();
  v.key = kind + "|" + msg + "|" + (kind == "assert" ? "" : v.loc);
  v.stack = stackTrace();
  if (!vkeys.insert(v.key).second) return;
  for (auto& in : S->inputs) v.inputs.push_back(std::make_tuple(in.first, (unsigned)in.second->w, (uint64_t)evalIn(in.second, m)));
  for (auto* c : S->pc) for (auto x : *c->vars) if (X.vars[x].name.compare(0, 6, "uninit") == 0) v.uninit = true;
  violations.push_back(v);
  if (!opt.found.empty()) { if (FILE* f = fopen(opt.found.c_str(), "wx")) fclose(f); }
  fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), v.loc.c_str());
  for (auto& s : v.stack) fprintf(stderr, "    %s\n", s.c_str());
}
void Engine::fail(const std::string& kind, const std::string& msg) {
  report(kind, msg, S->model);
  throw PathEnd();
}
void Engine::addPc(Node* c) {
  if (isC(c)) return;
  if (c->op == AND) { addPc(c->a); addPc(c->b); return; }
  for (auto* x : S->pc) if (x == c) return;
  S->pc.push_back(c);
}
void Engine::forkRetry(Node* other, const Model& m) {
  State* c = new State(*S);
  c->model = m;
  State* save = S;
  S = c;
  addPc(other);
  S = save;
  ++forks;
  ++forkLoc[curWhere()];
  work.push_back(c);
}
bool Engine::branch(Node* cond) {
  if (isC(cond)) return cond->k != 0;
  bool v = ev(cond) != 0;
  Node* oth = v ? mkNot(cond) : cond;
  Node* mine = v ? cond : mkNot(cond);
  Model m;
  Sat r = may(oth, &m);
  if (r == Sat::unknown) stop("solver timeout");
  if (r == Sat::sat) { forkRetry(oth, m); addPc(mine); }
  return v;
}
void Engine::assume(Node* c) {
  if (isC(c)) { if (!c->k) { ++killed; throw PathEnd(); } return; }
  if (ev(c)) { addPc(c); return; }
  Model m;
  Sat r = may(c, &m);
  if (r == Sat::unknown) stop("solver timeout");
  if (r == Sat::unsat) { ++killed; throw PathEnd(); }
  S->model = m;
  addPc(c);
}
uint64_t Engine::concretize(V v, unsigned w) {
  if (v.conc()) return v.c;
  if (w > 64) { fprintf(stderr, "engine: concretize wide\n"); abort(); }
  uint64_t k = (uint64_t)ev(v.n);
  Node* eq = mkEq(v.n, mkConst(k, w));
  if (isC(eq)) return k;
  Node* ne = mkNot(eq);
  Model m;
  Sat r = may(ne, &m);
  if (r == Sat::unknown) stop("solver timeout");
  if (r == Sat::sat) { forkRetry(ne, m); addPc(eq); }
  return k;
}
Node* Engine::symVar(const std::string& name, unsigned w) {
  static std::map<std::string, Node*> vars;
  int idx = S->nameCount[name]++;
  std::string key = name + "#" + std::to_string(idx) + ":" + std::to_string(w);
  Node*& n = vars[key];
  if (!n) n = mkVar(name + "[" + std::to_string(idx) + "]", w);
  if (S->model.size() < X.vars.size()) S->model.resize(X.vars.size(), 0);
  return n;
}

// ---------------------------------------------------------------- memory
uint64_t Engine::alloc(State* s, uint32_t size, OK kind, bool uninit, const void* tag) {
  Obj* o = new Obj(size);
  o->kind = kind; o->tag = tag;
  if (uninit && size) { o->needSym(); for (uint32_t i = 0; i < size; ++i) o->sym[i] = UNINIT; }
  return (uint64_t)s->mem.add(o) << SLOT;
}
uint32_t Engine::resolve(V addr, uint64_t n, V& off, const char* what, bool write) {
  uint64_t id;
  const uint64_t SM = ((uint64_t)1 << SLOT) - 1;
  if (addr.conc()) {
    id = addr.c >> SLOT;
    off = V(addr.c & SM);
  } else {
    Node* a = addr.n;
    if ((uint64_t)a->umin >> SLOT == (uint64_t)a->umax >> SLOT) id = (uint64_t)a->umin >> SLOT;
    else {
      id = (uint64_t)ev(a) >> SLOT;
      Node* hi = mkExtract(a, SLOT, 64 - SLOT);
      Node* eq = mkEq(hi, mkConst(id, 64 - SLOT));
      if (!isC(eq)) {
        Node* ne = mkNot(eq);
        Model m;
        Sat r = may(ne, &m);
        if (r == Sat::unknown) stop("solver timeout");
        if (r == Sat::sat) { forkRetry(ne, m); addPc(eq); }
      }
    }
    off = V(mkBin(SUB, a, mkConst(id << SLOT, 64)));
    if (!off.conc() && off.n->umax > SM) off = V(mkZExt(mkExtract(off.n, 0, SLOT), 64));
  }
  Obj* o = S->mem.get(id);
  if (!o) {
    if (addr.conc() && addr.c < (1u << 20)) fail("memory", std::string("null pointer dereference (") + what + ")");
    fail("memory", std::string("wild pointer dereference (") + what + ")");
  }
  if (!o->alive) fail("memory", std::string(o->kind == OK::Stack ? "use after return (" : "use after free (") + what + ")");
  if (o->kind == OK::Func) fail("memory", "data access to a function");
  if (write && o->ro) fail("memory", "write to read-only memory");
  if (n > o->size) fail("memory", std::string("out-of-bounds access (") + what + ")");
  if (off.conc()) {
    if (off.c + n > o->size) fail("memory", std::string("out-of-bounds access (") + what + ")");
  } else {
    uint64_t lim = o->size - n;
    Node* bad = mkBin(ULT, mkConst(lim, 64), off.n);
    if (!isC(bad) || bad->k) {
      Model m;
      Sat r = may(bad, &m);
      if (r == Sat::unknown) stop("solver timeout");
      if (r == Sat::sat) {
        report("memory", std::string("out-of-bounds access (") + what + ")", m);
        assume(mkNot(bad));
      }
    }
  }
  return (uint32_t)id;
}
Node* Engine::byteAt(Obj*& o, uint32_t id, uint64_t off) {
  if (!o->sym || !o->sym[off]) return mkConst(o->data[off], 8);
  if (o->sym[off] == UNINIT) {
    o = S->mem.getw(id);
    Node* n = symVar("uninit", 8);
    o->sym[off] = n;
    return n;
  }
  return o->sym[off];
}
V Engine::loadBytes(uint32_t id, uint64_t off, unsigned n, unsigned w) {
  Obj* o = S->mem.get(id);
  bool conc = true;
  if (o->sym) for (unsigned i = 0; i < n; ++i) if (o->sym[off + i]) { conc = false; break; }
  if (conc && n <= 8) {
    uint64_t v = 0;
    memcpy(&v, o->data + off, n);
    if (w < 64) v &= ((uint64_t)1 << w) - 1;
    return V(v);
  }
  Node* r = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    Node* b = byteAt(o, id, off + i);
    r = r ? mkConcat(b, r) : b;
  }
  if (r->w > w) r = mkExtract(r, 0, w);
  return V(r);
}
void Engine::storeBytes(uint32_t id, uint64_t off, V v, unsigned n, unsigned w) {
  Obj* o = S->mem.getw(id);
  if (v.conc() && n <= 8) {
    memcpy(o->data + off, &v.c, n);
    if (o->sym) for (unsigned i = 0; i < n; ++i) o->sym[off + i] = nullptr;
    return;
  }
  Node* x = nodeOf(v, w);
  if (w < n * 8) x = mkZExt(x, n * 8);
  for (unsigned i = 0; i < n; ++i) {
    Node* b = mkExtract(x, i * 8, 8);
    if (isC(b)) { o->data[off + i] = (uint8_t)b->k; if (o->sym) o->sym[off + i] = nullptr; }
    else { o->needSym(); o->sym[off + i] = b; }
  }
}
V Engine::load(V addr, unsigned bytes, unsigned w) {
  V off;
  uint32_t id = resolve(addr, bytes, off, "read", false);
  if (off.conc()) {
    if (S->th.size() > 1) accessRace(((uint64_t)id << SLOT) + off.c, bytes, false, false);
    return loadBytes(id, off.c, bytes, w);
  }
  Obj* o = S->mem.get(id);
  uint64_t lim = o->size - bytes;  // last valid offset
  unsigned bits = 0;
  while (bits < 63 && (lim >> bits)) ++bits;
  if (S->th.size() > 1) for (uint64_t i = 0; i < o->size; ++i) accessRace(((uint64_t)id << SLOT) + i, 1, false, false);
  Node* on = off.n;
  // mux over the offset bits
  std::function<Node*(int, uint64_t)> mux = [&](int bit, uint64_t prefix) -> Node* {
    if (prefix > lim) return nullptr;
    if (bit < 0) {
      if (prefix < on->umin || prefix > on->umax) return nullptr;
      return nodeOf(loadBytes(id, prefix, bytes, w), w);
    }
    Node* b = mkExtract(on, bit, 1);
    if (isC(b)) return mux(bit - 1, prefix | ((uint64_t)b->k << bit));
    Node* hi = mux(bit - 1, prefix | ((uint64_t)1 << bit));
    Node* lo = mux(bit - 1, prefix);
    if (!hi) return lo;
    if (!lo) return hi;
    return mkIte(b, hi, lo);
  };
  Node* r = mux((int)bits - 1, 0);
  if (!r) r = mkConst(0, w);
  return V(r);
}
void Engine::store(V addr, V val, unsigned bytes, unsigned w) {
  V off;
  uint32_t id = resolve(addr, bytes, off, "write", true);
  if (off.conc()) {
    if (S->th.size() > 1) accessRace(((uint64_t)id << SLOT) + off.c, bytes, true, false);
    storeBytes(id, off.c, val, bytes, w);
    return;
  }
  Obj* o0 = S->mem.get(id);
  if (o0->size > 2048) {
    uint64_t k = concretize(off, 64);
    storeBytes(id, k, val, bytes, w);
    return;
  }
  Node* x = nodeOf(val, w);
  if (w < bytes * 8) x = mkZExt(x, bytes * 8);
  Obj* o = S->mem.getw(id);
  if (S->th.size() > 1) for (uint64_t i = 0; i < o->size; ++i) accessRace(((uint64_t)id << SLOT) + i, 1, true, false);
  std::vector<Node*> nb(o->size, nullptr);
  for (uint64_t q = 0; q < o->size; ++q) {
    for (unsigned j = 0; j < bytes && j <= q; ++j) {
      uint64_t p = q - j;
      if (p + bytes > o->size || p < off.n->umin || p > off.n->umax) continue;
      Node* e = mkEq(off.n, mkConst(p, 64));
      if (isC(e, 0)) continue;
      Node* old = nb[q];
      if (!old) { old = byteAt(o, id, q); }
      nb[q] = mkIte(e, mkExtract(x, j * 8, 8), old);
    }
  }
  o = S->mem.getw(id);
  for (uint64_t q = 0; q < o->size; ++q) if (nb[q]) {
    if (isC(nb[q])) { o->data[q] = (uint8_t)nb[q]->k; if (o->sym) o->sym[q] = nullptr; }
    else { o->needSym(); o->sym[q] = nb[q]; }
  }
}
void Engine::memcpyOp(uint64_t dst, uint64_t src, uint64_t n, bool move) {
  if (!n) return;
  V so, d_o;
  uint32_t si = resolve(V(src), n, so, "memcpy source", false), di = resolve(V(dst), n, d_o, "memcpy destination", true);
  if (S->th.size() > 1) { accessRace(src, n, false, false); accessRace(dst, n, true, false); }
  if (!move && si == di && so.c != d_o.c && so.c < d_o.c + n && d_o.c < so.c + n) fail("memory", "memcpy with overlapping ranges");
  Obj* d = S->mem.getw(di);
  Obj* s = S->mem.get(si);
  memmove(d->data + d_o.c, s->data + so.c, n);
  if (s->sym || d->sym) {
    d->needSym();
    if (s->sym) memmove(d->sym + d_o.c, s->sym + so.c, n * sizeof(Node*));
    else memset(d->sym + d_o.c, 0, n * sizeof(Node*));
  }
}
void Engine::freeMem(V p) {
  uint64_t a = concretize(p, 64);
  if (!a) return;
  uint64_t id = a >> SLOT;
  Obj* o = S->mem.get(id);
  if (!o) fail("memory", "free of a wild pointer");
  if (!o->alive) fail("memory", "double free");
  if (o->kind != OK::Heap || (a & ((1ull << SLOT) - 1))) fail("memory", "free of a pointer that was not allocated");
  if (S->th.size() > 1) accessRace(a, o->size, true, false);
  o = S->mem.getw(id);
  o->alive = false;
}
std::string Engine::cstr(uint64_t addr, unsigned max) {
  std::string s;
  for (unsigned i = 0; i < max; ++i) {
    V v = load(V(addr + i), 1, 8);
    if (!v.conc()) { s += '?'; continue; }
    if (!v.c) break;
    s += (char)v.c;
  }
  return s;
}

// ---------------------------------------------------------------- threads
void Engine::vcJoin(VC& a, const VC& b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]);
}
bool Engine::enabled(int t) {
  Thread& th = S->th[t];
  auto freeM = [&](uint64_t m) { auto it = S->mutexes.find(m); return it == S->mutexes.end() || it->second.owner < 0; };
  switch (th.status) {
    case TS::Run: return true;
    case TS::Mutex: return freeM(th.wait);
    case TS::Cond: return ((th.timed && timeoutOk) || S->spurious < opt.spurious) && freeM(th.wait2);
    case TS::Notified: return freeM(th.wait2);
    case TS::Join: return S->th[th.wait].status == TS::Done;
    case TS::Futex: { Obj* o = S->mem.get(th.wait >> SLOT); if (!o || !o->alive) return true; uint32_t v; memcpy(&v, o->data + (th.wait & ((1ull << SLOT) - 1)), 4); return v != th.futexVal || (th.timed && timeoutOk); }
    case TS::Settle: for (int i = 0; i < (int)S->th.size(); ++i) if (i != t && S->th[i].status != TS::Settle && enabled(i)) return false; return true;
    default: return false;
  }
}
void Engine::yield(bool blocked, bool away) {
  if (S->th.size() == 1 && !blocked) return;
  if (T().noYield && !blocked) return;
  std::vector<int> opts;
  timeoutOk = S->timeouts < opt.timeouts;
  // a thread that keeps giving way (polling) does so for good once others can run
  if (away) away = ++S->th[S->cur].yields > 2;
  if (!blocked && !away) opts.push_back(S->cur);
  if (blocked || away || S->preempts < opt.preemptions)
    for (int i = 0; i < (int)S->th.size(); ++i) if ((i != S->cur || (blocked && S->th[i].status != TS::Run)) && enabled(i)) opts.push_back(i);
  // a timed wait may expire at any moment, but only so often while something else can run
  timeoutOk = true;
  if (opts.empty() && blocked) for (int i = 0; i < (int)S->th.size(); ++i) if ((i != S->cur || S->th[i].status != TS::Run) && enabled(i)) opts.push_back(i);
  if (opts.empty() && away) opts.push_back(S->cur);
  if (opts.empty()) {
    std::string s = "deadlock: no thread can run (";
    for (size_t i = 0; i < S->th.size(); ++i) s += (i ? ", " : "") + std::string("t") + std::to_string(i) + (S->th[i].status == TS::Done ? " finished" : S->th[i].status == TS::Mutex ? " waits for a mutex" : S->th[i].status == TS::Cond ? " waits on a condition variable" : S->th[i].status == TS::Join ? " joins" : " blocked");
    fail("deadlock", s + ")");
  }
  bool any = false;
  for (auto& t : S->th) if (t.status != TS::Done && &t != &S->th[S->cur]) any = true;
  if (!any && !blocked) return;
  int self = S->cur;
  S->th[self].noYield = true;
  Node* var = symVar("sched", 8);
  S->inputs.push_back({"sched", var});
  for (size_t i = 1; i < opts.size(); ++i) {
    State* c = new State(*S);
    c->cur = opts[i];
    if (!blocked && !away) ++c->preempts;
    if (c->model.size() <= var->aux) c->model.resize(var->aux + 1, 0);
    c->model[var->aux] = opts[i];
    c->pc.push_back(mkEq(var, mkConst(opts[i], 8)));
    ++forks;
    work.push_back(c);
  }
  S->model[var->aux] = opts[0];
  S->pc.push_back(mkEq(var, mkConst(opts[0], 8)));
  S->cur = opts[0];
  if (S->cur == self && !blocked) { S->th[self].noYield = false; return; }
  throw Switch();
}
void Engine::accessRace(uint64_t addr, unsigned n, bool write, bool atomic) {
  if (!opt.races || atomic) return;
  Thread& t = T();
  int me = S->cur;
  const Instruction* I = t.st.empty() ? nullptr : t.st.back()->f->code[t.st.back()->pc].I;
  auto ordered = [&](const Access& a) { return a.tid < 0 || a.tid == me || (a.tid < (int)t.vc.size() && t.vc[a.tid] >= a.clk); };
  for (unsigned i = 0; i < n; ++i) {
    Shadow& sh = S->shadow[addr + i];
    bool race = !ordered(sh.w);
    const Instruction* other = sh.wi;
    if (write) for (auto& r : sh.r) if (!ordered(r)) { race = true; other = sh.ri; }
    if (race) fail("data-race", std::string("data race: ") + (write ? "write" : "read") + " at " + curWhere() + " unordered with an access at " + (inlinedRepoLoc(other).empty() ? where(other) : inlinedRepoLoc(other)));
    if (write) { sh.w = {me, t.vc[me]}; sh.r.clear(); sh.wi = I; }
    else {
      bool f = false;
      for (auto& r : sh.r) if (r.tid == me) { r.clk = t.vc[me]; f = true; }
      if (!f) sh.r.push_back({me, t.vc[me]});
      sh.ri = I;
    }
  }
}

// ---------------------------------------------------------------- calls
void Engine::jump(Edge& e) {
  Frame& f = F();
  if (e.moves.size() == 1) {
    auto& m = e.moves[0];
    f.regs[m.first] = m.second.reg < 0 ? m.second.c : f.regs[m.second.reg];
  } else if (!e.moves.empty()) {
    std::vector<V> tmp;
    tmp.reserve(e.moves.size());
    for (auto& m : e.moves) tmp.push_back(m.second.reg < 0 ? m.second.c : f.regs[m.second.reg]);
    for (size_t i = 0; i < tmp.size(); ++i) f.regs[e.moves[i].first] = tmp[i];
  }
  f.pc = e.target;
}
void Engine::pushCall(DFunc* d, const std::vector<V>& args, bool ignoreRet) {
  decode(d);
  ++d->execs;
  if (T().st.size() > 2000) fail("stack-overflow", "recursion deeper than 2000 frames");
  Frame* f = new Frame();
  f->f = d;
  f->regs.resize(d->nregs);
  f->ignoreRet = ignoreRet;
  size_t n = std::min(args.size(), d->argreg.size());
  for (size_t i = 0; i < n; ++i) f->regs[d->argreg[i]] = args[i];
  for (size_t i = n; i < args.size(); ++i) f->varargs.push_back(args[i]);
  T().st.push_back(f);
}
void Engine::popFrame(int t) {
  Frame* f = S->th[t].st.back();
  S->th[t].st.pop_back();
  for (auto id : f->allocas) { Obj* o = S->mem.getw(id); o->alive = false; if (S->th.size() > 1) for (uint32_t i = 0; i < o->size; ++i) S->shadow.erase(((uint64_t)id << SLOT) + i); }
  if (--f->rc == 0) delete f;
}
void Engine::finishCall(const std::vector<V>& vals) {
  Frame& f = F();
  DInst& I = f.f->code[f.pc];
  if (I.dst >= 0) for (size_t i = 0; i < vals.size() && i < I.cells.size(); ++i) f.regs[I.dst + i] = vals[i];
  if (I.k == I_INVOKE) jump(I.edges[0]); else ++f.pc;
}
void Engine::doRet(std::vector<V> vals) {
  bool ign = T().st.back()->ignoreRet;
  popFrame(S->cur);
  if (T().st.empty()) {
    // thread finished
    T().status = TS::Done;
    if (S->cur == 0) { finishPath(); throw PathEnd(); }
    try { yield(true); } catch (Switch&) {}
    return;
  }
  if (ign) finishCall({}); else finishCall(vals);
}

static const GlobalVariable* gvFor(Engine* E, uint64_t a) { auto it = E->gvAt.find(a); return it == E->gvAt.end() ? nullptr : it->second; }
bool Engine::canCatch(uint64_t want, uint64_t have, uint64_t obj, uint64_t& adj) {
  if (want == have) { adj = obj; return true; }
  const GlobalVariable* g = gvFor(this, have);
  const GlobalVariable* w = gvFor(this, want);
  if (g && w && g->getName() == w->getName()) { adj = obj; return true; }
  if (!g || !g->hasInitializer()) return false;
  auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
  if (!cs) return false;
  std::string vt;
  if (auto* e = dyn_cast<ConstantExpr>(cs->getOperand(0))) vt = e->getOperand(0)->getName().str();
  auto tiAddr = [&](Constant* c) { return evalConst(c).c; };
  if (vt.find("__si_class_type_info") != std::string::npos) return canCatch(want, tiAddr(cs->getOperand(2)), obj, adj);
  if (vt.find("__vmi_class_type_info") != std::string::npos) {
    unsigned n = cast<ConstantInt>(cs->getOperand(3))->getZExtValue();
    for (unsigned i = 0; i < n; ++i) {
      uint64_t base = tiAddr(cs->getOperand(4 + 2 * i));
      int64_t fl = cast<ConstantInt>(cs->getOperand(5 + 2 * i))->getSExtValue();
      int64_t off = fl >> 8;
      if (!(fl & 2)) continue;  // not public
      uint64_t o = obj;
      if (fl & 1) { if (obj) { uint64_t vptr = ld64(obj); o = obj + (int64_t)ld64(vptr + off); } }
      else o = obj + off;
      if (canCatch(want, base, o, adj)) return true;
    }
    return false;
  }
  if (vt.find("__pointer_type_info") != std::string::npos) {
    // pointer: void* catches any object pointer
    if (w && w->getName() == "_ZTIPv") { adj = obj; return true; }
  }
  return false;
}
void Engine::throwExc(uint64_t addr) {
  Exc& e = S->excs[addr];
  T().inflight = addr;
  // phase 1: is there a handler?
  bool handled = false;
  auto& st = T().st;
  for (int i = (int)st.size() - 1; i >= 0 && !handled; --i) {
    DInst& I = st[i]->f->code[st[i]->pc];
    if (I.k != I_INVOKE) continue;
    auto* lp = cast<InvokeInst>(I.I)->getLandingPadInst();
    for (unsigned c = 0; c < lp->getNumClauses(); ++c) {
      if (lp->isCatch(c)) {
        V t = evalConst(lp->getClause(c));
        uint64_t adj;
        if (t.c == 0 || canCatch(t.c, e.ti, addr, adj)) { handled = true; break; }
      } else {
        // exception specification: only the empty one (throw()) is expected
        handled = true;
        break;
      }
    }
  }
  if (!handled) {
    std::string n = "?";
    if (auto* g = gvFor(this, e.ti)) n = g->getName().str();
    fail("uncaught-exception", "uncaught exception of type " + n);
  }
  // unwind to the nearest invoke with a matching clause or cleanup
  while (!st.empty()) {
    DInst& I = st.back()->f->code[st.back()->pc];
    if (I.k == I_INVOKE) {
      auto* lp = cast<InvokeInst>(I.I)->getLandingPadInst();
      bool enter = lp->isCleanup();
      uint64_t sel = 0, adj = addr;
      for (unsigned c = 0; c < lp->getNumClauses(); ++c) {
        if (lp->isCatch(c)) {
          V t = evalConst(lp->getClause(c));
          if (t.c == 0) { enter = true; sel = 0x7ffffff0; adj = addr; break; }
          if (canCatch(t.c, e.ti, addr, adj)) { enter = true; sel = t.c >> SLOT; break; }
        } else { enter = true; sel = 0xffffffff; break; }
      }
      if (enter) {
        S->excs[addr].adjusted = adj;
        Edge& ed = I.edges[1];
        jump(ed);
        Frame& f = F();
        DInst& L = f.f->code[f.pc];
        if (L.k != I_LPAD) { fprintf(stderr, "engine: no landingpad\n"); abort(); }
        f.regs[L.dst] = V(addr);
        f.regs[L.dst + 1] = V((uint64_t)(uint32_t)sel);
        ++f.pc;
        return;
      }
    }
    if (st.size() == 1) break;
    popFrame(S->cur);
  }
  fail("uncaught-exception", "unwinding reached the bottom of the stack");
}
void Engine::destroyExc(uint64_t addr) {
  Exc e = S->excs[addr];
  S->excs.erase(addr);
  Obj* o = S->mem.get(addr >> SLOT);
  (void)o;
  if (e.dtor) {
    auto it = fnAt.find(e.dtor);
    if (it != fnAt.end() && !it->second->f->isDeclaration()) { pushCall(it->second, {V(addr)}, true); return; }
  }
  finishCall({V((uint64_t)0)});
}

#include "externals.inc"

void Engine::doCall(DInst& I) {
  const CallBase* cb = cast<CallBase>(I.I);
  if (cb->isInlineAsm()) {
    // compiler barriers (asm volatile("" ...)) only
    auto* ia = cast<InlineAsm>(cb->getCalledOperand());
    if (ia->getAsmString().empty() || ia->getAsmString() == "pause" || ia->getAsmString() == "rep; nop") { finishCall({}); return; }
    stop("inline asm");
  }
  DFunc* d = I.callee;
  if (!d) {
    uint64_t a = concretize(get(I.ops[0]), 64);
    auto it = fnAt.find(a);
    if (it == fnAt.end()) { if (a < (1u << 20)) fail("memory", "call through a null function pointer"); fail("memory", "call through a wild function pointer"); }
    d = it->second;
  }
  std::vector<V> args;
  args.reserve(I.ops.size());
  for (size_t i = 1; i < I.ops.size(); ++i) args.push_back(get(I.ops[i]));
  if (d->f->isDeclaration() || d->f->getName().startswith("__sym_")) {
    if (!callExt(I, d->name, args)) { externMissing.insert(d->name); stop("call to external function without a model: " + d->name); }
    return;
  }
  for (auto& bv : I.scales) {  // byval copies
    uint64_t src = concretize(args[bv.second - 1], 64);
    uint64_t cp = alloc(S, bv.first, OK::Heap, true, nullptr);
    memcpyOp(cp, src, bv.first, true);
    args[bv.second - 1] = V(cp);
  }
  pushCall(d, args, false);
}

void Engine::step() {
  Frame* fp = T().st.back();
  DInst& I = fp->f->code[fp->pc];
  ++insts;
  if (++S->insts > opt.maxInsts) {
    report("hang", "step limit of " + std::to_string(opt.maxInsts) + " instructions exceeded on one path", S->model);
    throw PathEnd();
  }
  auto set = [&](int i, V v) { F().regs[I.dst + i] = v; };
  switch (I.k) {
    case I_RET: {
      std::vector<V> v;
      for (auto& o : I.ops) v.push_back(get(o));
      doRet(v);
      return;
    }
    case I_BR: jump(I.edges[0]); return;
    case I_CBR: {
      V c = get(I.ops[0]);
      bool t = c.conc() ? c.c & 1 : branch(c.n);
      jump(I.edges[t ? 0 : 1]);
      return;
    }
    case I_SWITCH: {
      V c = get(I.ops[0]);
      if (c.conc()) {
        size_t e = 0;
        for (size_t i = 0; i < I.cases.size(); ++i) if (I.cases[i] == c.c) { e = i + 1; break; }
        jump(I.edges[e]);
        return;
      }
      // group cases by target edge
      std::map<uint32_t, std::vector<size_t>> groups;
      uint64_t mv = (uint64_t)ev(c.n);
      size_t mine = 0;
      for (size_t i = 0; i < I.cases.size(); ++i) if (I.cases[i] == mv) mine = i + 1;
      // decide case by case through binary branching: is it the model's case?
      Node* cond;
      auto sameEdge = [&](size_t a, size_t b) { return I.edges[a].target == I.edges[b].target && I.edges[a].moves.empty() && I.edges[b].moves.empty(); };
      if (mine) {
        cond = mkConst(0, 1);
        for (size_t i = 0; i < I.cases.size(); ++i) if (i + 1 == mine || sameEdge(i + 1, mine)) cond = mkBin(OR, cond, mkEq(c.n, mkConst(I.cases[i], I.w)));
      } else {
        cond = mkConst(1, 1);
        for (size_t i = 0; i < I.cases.size(); ++i) cond = mkBin(AND, cond, mkNot(mkEq(c.n, mkConst(I.cases[i], I.w))));
      }
      if (!isC(cond)) {
        Model m;
        Sat r = may(mkNot(cond), &m);
        if (r == Sat::unknown) stop("solver timeout");
        if (r == Sat::sat) { forkRetry(mkNot(cond), m); addPc(cond); }
      }
      jump(I.edges[mine]);
      return;
    }
    case I_CALL: case I_INVOKE: doCall(I); return;
    case I_RESUME: {
      uint64_t a = concretize(get(I.ops[0]), 64);
      if (T().st.size() == 1) fail("uncaught-exception", "exception left the entry function");
      popFrame(S->cur);
      throwExc(a);
      return;
    }
    case I_UNREACH: fail("undefined-behaviour", "reached code the compiler proved unreachable (undefined behaviour)");
    case I_BIN:
      for (unsigned l = 0; l < I.lanes; ++l) {
        V a = get(I.ops[l]), b = get(I.ops[I.lanes + l]);
        unsigned w = I.w;
        if (I.op >= UDIV && I.op <= SREM) {
          if (b.conc() && (w <= 64)) { if (b.c == 0) fail("undefined-behaviour", "division by zero"); }
          else if (b.n) {
            Node* z = mkEq(b.n, mkConst(0, w));
            if (!isC(z) || z->k) {
              Model m;
              Sat r = may(z, &m);
              if (r == Sat::unknown) stop("solver timeout");
              if (r == Sat::sat) { report("undefined-behaviour", "division by zero", m); assume(mkNot(z)); }
            }
          }
        }
        if (a.conc() && b.conc() && w <= 64) {
          uint64_t M = w == 64 ? ~0ull : ((1ull << w) - 1), x = a.c, y = b.c, r = 0;
          auto sx = [&](uint64_t v) -> int64_t { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
          switch (I.op) {
            case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break;
            case UDIV: r = x / y; break; case UREM: r = x % y; break;
            case SDIV: r = sx(y) == -1 ? 0 - x : (uint64_t)(sx(x) / sx(y)); break;
            case SREM: r = sx(y) == -1 ? 0 : (uint64_t)(sx(x) % sx(y)); break;
            case AND: r = x & y; break; case OR: r = x | y; break; case XOR: r = x ^ y; break;
            case SHL: r = y >= w ? 0 : x << y; break; case LSHR: r = y >= w ? 0 : x >> y; break;
            case ASHR: r = (uint64_t)(sx(x) >> (y >= w ? w - 1 : y)); break;
          }
          set(l, V(r & M));
        } else set(l, V(mkBin((Op)I.op, nodeOf(a, w), nodeOf(b, w))));
      }
      break;
    case I_FPBIN:
      for (unsigned l = 0; l < I.lanes; ++l) set(l, V(mkFp((Op)I.op, I.w, nodeOf(get(I.ops[l]), I.w), nodeOf(get(I.ops[I.lanes + l]), I.w), 0)));
      break;
    case I_FNEG: for (unsigned l = 0; l < I.lanes; ++l) set(l, V(mkFp(FNEG, I.w, nodeOf(get(I.ops[l]), I.w), nullptr, 0))); break;
    case I_ALLOCA: {
      uint64_t n = concretize(get(I.ops[0]), 64) * I.imm;
      if (n > (1u << 23)) stop("alloca too large");
      uint64_t a = alloc(S, n, OK::Stack, true, I.I);
      F().allocas.push_back(a >> SLOT);
      set(0, V(a));
      break;
    }
    case I_LOAD: {
      V a = get(I.ops[0]);
      if (I.op && S->th.size() > 1) {  // atomic load: acquire
        bool r = opt.races; opt.races = false;
        try { for (size_t i = 0; i < I.cells.size(); ++i) set(i, load(a, I.cells[i].bytes, I.cells[i].w)); } catch (...) { opt.races = r; throw; }
        opt.races = r;
        if (a.conc()) vcJoin(T().vc, S->atomics[a.c]);
        break;
      }
      if (I.cells.size() == 1) {
        V v = load(a, I.cells[0].bytes, I.cells[0].w);
        // one path per object a chosen pointer may refer to
        if (!v.conc() && I.imm && (!a.conc() || v.n->op == ITE) && (uint64_t)v.n->umin >> SLOT != (uint64_t)v.n->umax >> SLOT) v = V(concretize(v, 64));
        set(0, v);
        break;
      }
      std::vector<V> vs;
      for (auto& c : I.cells) vs.push_back(load(a.conc() ? V(a.c + c.off) : V(mkBin(ADD, a.n, mkConst(c.off, 64))), c.bytes, c.w));
      for (size_t i = 0; i < vs.size(); ++i) set(i, vs[i]);
      break;
    }
    case I_STORE: {
      V a = get(I.ops[0]);
      if (I.op && S->th.size() > 1) {
        bool r = opt.races; opt.races = false;
        try { store(a, get(I.ops[1]), I.cells[0].bytes, I.cells[0].w); } catch (...) { opt.races = r; throw; }
        opt.races = r;
        if (a.conc()) { vcJoin(S->atomics[a.c], T().vc); ++T().vc[S->cur]; }
        break;
      }
      for (size_t i = 0; i < I.cells.size(); ++i)
        store(a.conc() ? V(a.c + I.cells[i].off) : V(mkBin(ADD, a.n, mkConst(I.cells[i].off, 64))), get(I.ops[1 + i]), I.cells[i].bytes, I.cells[i].w);
      break;
    }
    case I_GEP: {
      V b = get(I.ops[0]);
      uint64_t off = I.imm;
      Node* sym = b.n;
      if (b.conc()) off += b.c;
      for (size_t i = 0; i < I.scales.size(); ++i) {
        V x = get(I.ops[1 + i]);
        unsigned w = I.scales[i].second;
        if (x.conc()) {
          int64_t v = w >= 64 ? (int64_t)x.c : (int64_t)(x.c << (64 - w)) >> (64 - w);
          off += (uint64_t)v * I.scales[i].first;
        } else {
          Node* y = w < 64 ? mkSExt(x.n, 64) : x.n;
          y = mkBin(MUL, y, mkConst(I.scales[i].first, 64));
          sym = sym ? mkBin(ADD, sym, y) : y;
        }
      }
      set(0, sym ? V(mkBin(ADD, sym, mkConst(off, 64))) : V(off));
      break;
    }
    case I_FENCE: break;
    case I_CMPXCHG: {
      V a = get(I.ops[0]);
      unsigned bytes = (I.w + 7) / 8;
      bool r = opt.races; opt.races = false;
      V old;
      try {
        old = load(a, bytes, I.w);
        Node* eq = mkEq(nodeOf(old, I.w), nodeOf(get(I.ops[1]), I.w));
        bool t = branch(eq);
        if (t) store(a, get(I.ops[2]), bytes, I.w);
        opt.races = r;
        set(0, old); set(1, V((uint64_t)t));
      } catch (...) { opt.races = r; throw; }
      if (S->th.size() > 1 && a.conc()) { vcJoin(T().vc, S->atomics[a.c]); S->atomics[a.c] = T().vc; ++T().vc[S->cur]; }
      break;
    }
    case I_RMW: {
      V a = get(I.ops[0]);
      unsigned bytes = (I.w + 7) / 8;
      bool rc = opt.races; opt.races = false;
      try {
        V old = load(a, bytes, I.w);
        Node *o = nodeOf(old, I.w), *v = nodeOf(get(I.ops[1]), I.w), *n;
        switch (I.op) {
          case AtomicRMWInst::Xchg: n = v; break;
          case AtomicRMWInst::Add: n = mkBin(ADD, o, v); break;
          case AtomicRMWInst::Sub: n = mkBin(SUB, o, v); break;
          case AtomicRMWInst::And: n = mkBin(AND, o, v); break;
          case AtomicRMWInst::Or: n = mkBin(OR, o, v); break;
          case AtomicRMWInst::Xor: n = mkBin(XOR, o, v); break;
          default: stop("atomicrmw");
        }
        store(a, V(n), bytes, I.w);
        set(0, old);
      } catch (...) { opt.races = rc; throw; }
      opt.races = rc;
      if (S->th.size() > 1 && a.conc()) { vcJoin(T().vc, S->atomics[a.c]); S->atomics[a.c] = T().vc; ++T().vc[S->cur]; }
      break;
    }
    case I_TRUNC: case I_ZEXT: case I_SEXT:
      for (unsigned l = 0; l < I.lanes; ++l) {
        V a = get(I.ops[l]);
        if (a.conc() && I.w <= 64 && I.w2 <= 64) {
          uint64_t x = a.c;
          if (I.k == I_SEXT && I.w2 < 64) x = (uint64_t)((int64_t)(x << (64 - I.w2)) >> (64 - I.w2));
          if (I.w < 64) x &= (1ull << I.w) - 1;
          set(l, V(x));
        } else {
          Node* n = nodeOf(a, I.w2);
          set(l, V(I.k == I_TRUNC ? mkExtract(n, 0, I.w) : I.k == I_ZEXT ? mkZExt(n, I.w) : mkSExt(n, I.w)));
        }
      }
      break;
    case I_FPCAST:
      if (I.w > 64 || I.w2 > 64) stop("x87 floating point");
      for (unsigned l = 0; l < I.lanes; ++l) set(l, V(mkFp((Op)I.op, I.w, nodeOf(get(I.ops[l]), I.w2), nullptr, 0)));
      break;
    case I_MOVE: {
      if (I.lanes == 1) { set(0, get(I.ops[0])); break; }
      std::vector<V> vs;
      for (auto& o : I.ops) vs.push_back(get(o));
      for (size_t i = 0; i < vs.size(); ++i) set(i, vs[i]);
      break;
    }
    case I_ICMP:
      for (unsigned l = 0; l < I.lanes; ++l) {
        V a = get(I.ops[l]), b = get(I.ops[I.lanes + l]);
        unsigned w = I.w;
        if (a.conc() && b.conc() && w <= 64) {
          uint64_t x = a.c, y = b.c;
          int64_t sx = w == 64 ? (int64_t)x : (int64_t)(x << (64 - w)) >> (64 - w), sy = w == 64 ? (int64_t)y : (int64_t)(y << (64 - w)) >> (64 - w);
          bool r = false;
          switch (I.op) {
            case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
            case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break;
          }
          set(l, V((uint64_t)r));
        } else {
          Node *x = nodeOf(a, w), *y = nodeOf(b, w), *r = nullptr;
          switch (I.op) {
            case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
            case CmpInst::ICMP_UGT: r = mkBin(ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(ULE, y, x); break;
            case CmpInst::ICMP_ULT: r = mkBin(ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(ULE, x, y); break;
            case CmpInst::ICMP_SGT: r = mkBin(SLT, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(SLE, y, x); break;
            case CmpInst::ICMP_SLT: r = mkBin(SLT, x, y); break; case CmpInst::ICMP_SLE: r = mkBin(SLE, x, y); break;
          }
          set(l, V(r));
        }
      }
      break;
    case I_FCMP:
      if (I.w > 64) stop("x87 floating point");
      for (unsigned l = 0; l < I.lanes; ++l) set(l, V(mkFp(FCMP, 1, nodeOf(get(I.ops[l]), I.w), nodeOf(get(I.ops[I.lanes + l]), I.w), I.op)));
      break;
    case I_SELECT: {
      unsigned nc = I.imm;
      std::vector<V> r;
      for (unsigned l = 0; l < I.lanes; ++l) {
        V c = get(I.ops[nc == 1 ? 0 : l]);
        V a = get(I.ops[nc + l]), b = get(I.ops[nc + I.lanes + l]);
        if (c.conc()) r.push_back(c.c & 1 ? a : b);
        else {
          unsigned w = I.cells[l].w;
          if (I.I->getType()->isPointerTy() && !(a.conc() && b.conc() && a.c >> SLOT == b.c >> SLOT)) r.push_back(branch(c.n) ? a : b);
          else r.push_back(V(mkIte(c.n, nodeOf(a, w), nodeOf(b, w))));
        }
      }
      for (unsigned l = 0; l < I.lanes; ++l) set(l, r[l]);
      break;
    }
    case I_LPAD: fprintf(stderr, "engine: fell into landingpad\n"); abort();
    default: {
      std::string s; raw_string_ostream os(s); I.I->print(os);
      stop("unsupported instruction: " + s);
    }
  }
  ++F().pc;
}

void Engine::finishPath() {
  ++paths;
  for (auto& r : S->reached) ++reachedCount[r];
  // reservoir sampling of completed paths
  ++sampleSeen;
  auto mk = [&]() {
    Sample s;
    for (auto& in : S->inputs) s.inputs.push_back(std::make_tuple(in.first, (unsigned)in.second->w, (uint64_t)ev(in.second)));
    for (auto& t : S->trace) s.trace.push_back({t.first, t.second.conc() ? t.second.c : (uint64_t)ev(t.second.n)});
    for (auto* c : S->pc) for (auto x : *c->vars) if (X.vars[x].name.compare(0, 6, "uninit") == 0) s.usesUninit = true;
    for (auto& t : S->trace) if (t.second.n) for (auto x : *t.second.n->vars) if (X.vars[x].name.compare(0, 6, "uninit") == 0) s.usesUninit = true;
    return s;
  };
  if (samples.size() < opt.samples) samples.push_back(mk());
  else if (opt.samples) {
    rng = rng * 6364136223846793005ull + 1442695040888963407ull;
    uint64_t j = (rng >> 20) % sampleSeen;
    if (j < opt.samples) samples[j] = mk();
  }
}

// the time is up, or a violation was found (by any of the runs that share the marker) a while ago
bool Engine::late() {
  double now = nowS();
  if (now - t0 > opt.maxTime) return true;
  if (opt.found.empty()) return false;
  if (now - lastLook > 1) {
    lastLook = now;
    struct stat st;
    if (!foundAt && stat(opt.found.c_str(), &st) == 0) foundAt = now;
  }
  return foundAt && now - foundAt > 60;
}
void Engine::exec(State* s) {
  S = s;
  try {
    uint64_t n = 0;
    for (;;) {
      try { step(); } catch (Switch&) {}
      if ((++n & 0x3fff) == 0 && late()) stop("time budget exhausted");
    }
  } catch (PathEnd&) {
  }
  delete s;
  S = nullptr;
}

void Engine::setup() {
  State* s = new State();
  S = s;
  s->th.emplace_back();
  s->th[0].vc = {1};
  s->mem.add(new Obj(0));  // keep low ids out of reach of small integers
  s->mem.get(1)->alive = false;
  // addresses
  for (auto& f : *M) {
    uint64_t a = alloc(s, 1, OK::Func, false, &f);
    gaddr[&f] = a;
    fnAt[a] = getFunc(&f);
  }
  for (auto& g : M->globals()) {
    if (g.getName().startswith("llvm.")) { continue; }
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
    if (!g.hasInitializer()) sz = std::max<uint64_t>(sz, 64);
    if (sz >= (1u << SLOT)) { fprintf(stderr, "engine: global too large\n"); exit(3); }
    uint64_t a = alloc(s, sz, OK::Global, false, &g);
    gaddr[&g] = a;
    gvAt[a] = &g;
  }
  for (auto& g : M->globals()) {
    if (!g.hasInitializer() || g.getName().startswith("llvm.")) continue;
    Obj* o = s->mem.get(gaddr[&g] >> SLOT);
    writeConst(o, 0, g.getInitializer());
    o->ro = g.isConstant();
  }
}

void Engine::run() {
  t0 = nowS();
  rng = opt.seed * 0x9E3779B97F4A7C15ull + 12345;
  setup();
  // Static constructors run concretely on the initial state, then the entry function.
  std::vector<std::pair<int, const Function*>> ctors;
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) {
    if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto& op : ca->operands()) {
        auto* cs = cast<ConstantStruct>(op);
        if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
      }
  }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  const Function* entry = M->getFunction(opt.entry);
  if (!entry || entry->isDeclaration()) { fprintf(stderr, "engine: no entry %s\n", opt.entry.c_str()); exit(3); }
  pushCall(getFunc(entry), {V((uint64_t)opt.arg)}, false);
  // ctors are pushed as calls that return to the entry's first instruction without advancing it
  std::vector<DFunc*> cs;
  for (auto& c : ctors) cs.push_back(getFunc(c.second));
  for (auto* d : cs) {
    // run each to completion
    State* s = S;
    size_t depth = s->th[0].st.size();
    pushCall(d, {}, true);
    try {
      while (s->th[0].st.size() > depth) {
        Frame* f = T().st.back();
        if (T().st.size() == depth + 1 && f->f->code[f->pc].k == I_RET) { popFrame(0); break; }
        step();
        if (!work.empty()) { fprintf(stderr, "engine: static constructor forked\n"); exit(3); }
      }
    } catch (PathEnd&) {
      fprintf(stderr, "engine: static constructor %s did not finish: %s\n", d->name.c_str(), incomplete.empty() ? "" : incomplete.back().c_str());
      exit(3);
    }
  }
  S->insts = 0;
  work.push_back(S);
  S = nullptr;
  while (!work.empty()) {
    State* s;
    if (opt.bfs) { s = work.front(); work.erase(work.begin()); }
    else { s = work.back(); work.pop_back(); }
    exec(s);
    if (violations.size() >= opt.maxViolations) { incomplete.push_back("stopped after " + std::to_string(violations.size()) + " violations"); break; }
    if (paths + killed + truncated > opt.maxPaths) { incomplete.push_back("path budget exhausted"); break; }
    if (late()) { if (!work.empty()) incomplete.push_back("time budget exhausted"); break; }
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    if ((uint64_t)ru.ru_maxrss / 1024 > opt.maxRss) { if (!work.empty()) incomplete.push_back("memory budget exhausted"); break; }
  }
}

static std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
void Engine::json(FILE* f) {
  auto ins = [&](const std::vector<std::tuple<std::string, unsigned, uint64_t>>& v) {
    fprintf(f, "[");
    for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s[\"%s\",%u,\"%llx\"]", i ? "," : "", esc(std::get<0>(v[i])).c_str(), std::get<1>(v[i]), (unsigned long long)std::get<2>(v[i]));
    fprintf(f, "]");
  };
  fprintf(f, "{\"entry\":\"%s\",\"arg\":%ld,\"paths\":%llu,\"infeasible\":%llu,\"truncated\":%llu,\"forks\":%llu,\"insts\":%llu,\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f,\"asserts\":%llu,\"assert_queries\":%llu,\"exprs\":%u,",
          opt.entry.c_str(), opt.arg, (unsigned long long)paths, (unsigned long long)killed, (unsigned long long)truncated, (unsigned long long)forks, (unsigned long long)insts,
          (unsigned long long)solver.queries, (unsigned long long)solver.cacheHits, (unsigned long long)solver.satN, (unsigned long long)solver.unsatN, (unsigned long long)solver.unknownN,
          solver.seconds, solver.maxQuery, nowS() - t0, (unsigned long long)asserts, (unsigned long long)assertQueries, X.nextId);
  fprintf(f, "\"complete\":%s,\"incomplete\":[", incomplete.empty() && !truncated ? "true" : "false");
  for (size_t i = 0; i < incomplete.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(incomplete[i]).c_str());
  fprintf(f, "],\"reached\":{");
  bool first = true;
  for (auto& r : reachedCount) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(r.first).c_str(), (unsigned long long)r.second); first = false; }
  fprintf(f, "},\"violations\":[");
  for (size_t i = 0; i < violations.size(); ++i) {
    auto& v = violations[i];
    fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"uninit\":%s,\"inputs\":", i ? "," : "", v.kind.c_str(), esc(v.msg).c_str(), esc(v.loc).c_str(), v.uninit ? "true" : "false");
    ins(v.inputs);
    fprintf(f, ",\"stack\":[");
    for (size_t j = 0; j < v.stack.size(); ++j) fprintf(f, "%s\"%s\"", j ? "," : "", esc(v.stack[j]).c_str());
    fprintf(f, "]}");
  }
  fprintf(f, "],\"samples\":[");
  for (size_t i = 0; i < samples.size(); ++i) {
    fprintf(f, "%s{\"inputs\":", i ? "," : "");
    ins(samples[i].inputs);
    fprintf(f, ",\"uninit\":%s,\"trace\":[", samples[i].usesUninit ? "true" : "false");
    for (size_t j = 0; j < samples[i].trace.size(); ++j) fprintf(f, "%s[\"%s\",\"%llx\"]", j ? "," : "", esc(samples[i].trace[j].first).c_str(), (unsigned long long)samples[i].trace[j].second);
    fprintf(f, "]}");
  }
  fprintf(f, "],\"functions\":[");
  first = true;
  for (auto& kv : funcs) if (kv.second->inRepo && kv.second->execs) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(kv.second->name).c_str()); first = false; }
  fprintf(f, "],\"missing\":[");
  first = true;
  for (auto& m : externMissing) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(m).c_str()); first = false; }
  fprintf(f, "],\"fork_sites\":[");
  std::vector<std::pair<uint64_t, std::string>> fl;
  for (auto& k : forkLoc) fl.push_back({k.second, k.first});
  std::sort(fl.rbegin(), fl.rend());
  for (size_t i = 0; i < fl.size() && i < 12; ++i) fprintf(f, "%s[\"%s\",%llu]", i ? "," : "", esc(fl[i].second).c_str(), (unsigned long long)fl[i].first);
  fprintf(f, "]}\n");
}

static int realMain(int argc, char** argv) {
  Opts o;
  std::string file, out;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") o.entry = nx();
    else if (a == "--arg") o.arg = atol(nx().c_str());
    else if (a == "--max-paths") o.maxPaths = atoll(nx().c_str());
    else if (a == "--max-insts") o.maxInsts = atoll(nx().c_str());
    else if (a == "--max-time") o.maxTime = atof(nx().c_str());
    else if (a == "--found") o.found = nx();
    else if (a == "--preemptions") o.preemptions = atoi(nx().c_str());
    else if (a == "--timeouts") o.timeouts = atoi(nx().c_str());
    else if (a == "--spurious") o.spurious = atoi(nx().c_str());
    else if (a == "--samples") o.samples = atoi(nx().c_str());
    else if (a == "--seed") o.seed = atoi(nx().c_str());
    else if (a == "--max-violations") o.maxViolations = atoi(nx().c_str());
    else if (a == "--max-rss") o.maxRss = atoll(nx().c_str());
    else if (a == "--no-races") o.races = false;
    else if (a == "--bfs") o.bfs = true;
    else if (a == "--out") out = nx();
    else file = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto m = parseIRFile(file, err, ctx);
  if (!m) { err.print("engine", errs()); return 3; }
  Engine E;
  E.M = m.get();
  DataLayout dl(m.get());
  E.DL = &dl;
  E.opt = o;
  if (!out.empty()) E.solver.tmpPrefix = out; else E.solver.tmpPrefix = "/tmp/symex" + std::to_string(getpid());
  E.run();
  FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
  E.json(f);
  if (f != stdout) fclose(f);
  fflush(stdout);
  _exit(0);
}
struct A { int c; char** v; int r; };
int main(int argc, char** argv) {
  // deep expression recursion: run on a large stack
  A a{argc, argv, 0};
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, (size_t)2 << 30);
  pthread_t t;
  if (pthread_create(&t, &at, [](void* p) -> void* { A* a = (A*)p; a->r = realMain(a->c, a->v); return nullptr; }, &a)) { perror("pthread_create"); return 3; }
  pthread_join(t, nullptr);
  return a.r;
}
