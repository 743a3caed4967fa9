// Models of the few functions the engine itself provides (everything else is C++ in /verif/rt).
static bool sw(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }

bool Engine::callExt(DInst& I, const std::string& name, std::vector<V>& a) {
  auto ret = [&](V v) { finishCall({v}); return true; };
  auto done = [&]() { finishCall({}); return true; };
  unsigned w = I.w;
  auto N = [&](int i, unsigned ww) { return nodeOf(a[i], ww); };

  if (sw(name, "llvm.")) {
    if (sw(name, "llvm.lifetime.") || sw(name, "llvm.dbg.") || sw(name, "llvm.experimental.noalias") || sw(name, "llvm.assume") || sw(name, "llvm.prefetch") || sw(name, "llvm.va_end") ||
        sw(name, "llvm.invariant.") || sw(name, "llvm.stackrestore") || sw(name, "llvm.sideeffect") || sw(name, "llvm.donothing"))
      { if (I.dst >= 0) return ret(V((uint64_t)0)); return done(); }
    if (sw(name, "llvm.va_start")) {  // every variable argument goes to the overflow area
      Frame& f = F();
      uint64_t ap = concretize(a[0], 64), n = f.varargs.size();
      uint64_t buf = alloc(S, (uint32_t)(n * 8 + 8), OK::Stack, false, I.I);
      f.allocas.push_back((uint32_t)(buf >> SLOT));
      for (uint64_t i = 0; i < n; ++i) {
        V v = f.varargs[i];
        if (!v.conc()) v = V(v.n->w < 64 ? mkZExt(v.n, 64) : v.n);
        store(V(buf + i * 8), v, 8, 64);
      }
      st32(ap, 48); st32(ap + 4, 304);
      store(V(ap + 8), V(buf), 8, 64);
      store(V(ap + 16), V((uint64_t)0), 8, 64);
      return done();
    }
    if (sw(name, "llvm.va_copy")) { memcpyOp(concretize(a[0], 64), concretize(a[1], 64), 24, true); return done(); }
    if (sw(name, "llvm.memcpy.") || sw(name, "llvm.memmove.")) {
      uint64_t d = concretize(a[0], 64), s = concretize(a[1], 64), n = concretize(a[2], 64);
      memcpyOp(d, s, n, sw(name, "llvm.memmove.") || d == s);
      return done();
    }
    if (sw(name, "llvm.memset.")) {
      uint64_t d = concretize(a[0], 64), n = concretize(a[2], 64);
      if (n) {
        V off;
        uint32_t id = resolve(V(d), n, off, "memset", true);
        if (S->th.size() > 1) accessRace(d, n, true, false);
        Obj* o = S->mem.getw(id);
        if (a[1].conc()) {
          memset(o->data + off.c, (int)a[1].c, n);
          if (o->sym) memset(o->sym + off.c, 0, n * sizeof(Node*));
        } else { o->needSym(); for (uint64_t i = 0; i < n; ++i) o->sym[off.c + i] = a[1].n; }
      }
      return done();
    }
    if (sw(name, "llvm.expect.") || sw(name, "llvm.launder.") || sw(name, "llvm.strip.") || sw(name, "llvm.ssa.copy")) return ret(a[0]);
    if (sw(name, "llvm.threadlocal.address")) {
      uint64_t g = concretize(a[0], 64);
      if (S->cur == 0) return ret(V(g));
      auto key = std::make_pair(S->cur, g);
      auto it = S->tls.find(key);
      if (it == S->tls.end()) {
        auto* gv = gvAt[g];
        uint64_t sz = DL->getTypeAllocSize(gv->getValueType());
        uint64_t c = alloc(S, sz, OK::Global, false, gv);
        if (gv->hasInitializer()) writeConst(S->mem.getw(c >> SLOT), 0, gv->getInitializer());
        it = S->tls.emplace(key, c).first;
      }
      return ret(V(it->second));
    }
    if (sw(name, "llvm.is.constant")) return ret(V((uint64_t)0));
    if (sw(name, "llvm.objectsize")) return ret(V(a[1].c ? (uint64_t)0 : (w == 64 ? ~0ull : (1ull << w) - 1)));
    if (sw(name, "llvm.trap") || sw(name, "llvm.debugtrap")) fail("undefined-behaviour", "trap (undefined behaviour detected by the compiler or an assertion)");
    if (sw(name, "llvm.ubsantrap")) fail("undefined-behaviour", "undefined behaviour sanitizer trap " + std::to_string(a[0].c));
    if (sw(name, "llvm.stacksave")) return ret(V((uint64_t)0));
    if (sw(name, "llvm.eh.typeid.for")) { uint64_t t = concretize(a[0], 64); return ret(V((uint64_t)(uint32_t)(t >> SLOT))); }
    if (sw(name, "llvm.umax.")) return ret(V(mkIte(mkBin(ULT, N(0, w), N(1, w)), N(1, w), N(0, w))));
    if (sw(name, "llvm.umin.")) return ret(V(mkIte(mkBin(ULT, N(0, w), N(1, w)), N(0, w), N(1, w))));
    if (sw(name, "llvm.smax.")) return ret(V(mkIte(mkBin(SLT, N(0, w), N(1, w)), N(1, w), N(0, w))));
    if (sw(name, "llvm.smin.")) return ret(V(mkIte(mkBin(SLT, N(0, w), N(1, w)), N(0, w), N(1, w))));
    if (sw(name, "llvm.abs.")) return ret(V(mkIte(mkBin(SLT, N(0, w), mkConst(0, w)), mkBin(SUB, mkConst(0, w), N(0, w)), N(0, w))));
    if (sw(name, "llvm.fshl.") || sw(name, "llvm.fshr.")) {
      bool l = sw(name, "llvm.fshl.");
      Node *x = N(0, w), *y = N(1, w), *s = mkBin(UREM, N(2, w), mkConst(w, w));
      if (isC(s)) {
        unsigned k = (unsigned)s->k;
        if (k == 0) return ret(V(l ? x : y));
        if (!l) k = w - k;
        return ret(V(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k))));
      }
      Node* inv = mkBin(SUB, mkConst(w, w), s);
      Node* r = l ? mkBin(OR, mkBin(SHL, x, s), mkBin(LSHR, y, inv)) : mkBin(OR, mkBin(SHL, x, inv), mkBin(LSHR, y, s));
      return ret(V(mkIte(mkEq(s, mkConst(0, w)), l ? x : y, r)));
    }
    if (sw(name, "llvm.bswap.")) {
      Node *x = N(0, w), *r = nullptr;
      for (unsigned i = 0; i < w; i += 8) { Node* b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; }
      return ret(V(r));
    }
    if (sw(name, "llvm.ctpop.")) {
      Node *x = N(0, w), *r = mkConst(0, w);
      for (unsigned i = 0; i < w; ++i) r = mkBin(ADD, r, mkZExt(mkExtract(x, i, 1), w));
      return ret(V(r));
    }
    if (sw(name, "llvm.ctlz.") || sw(name, "llvm.cttz.")) {
      Node *x = N(0, w), *r = mkConst(w, w);
      bool lead = sw(name, "llvm.ctlz.");
      for (unsigned k = 0; k < w; ++k) { unsigned i = lead ? k : w - 1 - k; r = mkIte(mkExtract(x, i, 1), mkConst(lead ? w - 1 - i : i, w), r); }
      return ret(V(r));
    }
    auto ovf = [&](Op op, bool sg) {
      w = I.argw[0];
      Node *x = N(0, w), *y = N(1, w);
      unsigned ww = op == MUL ? 2 * w : w + 1;
      if (ww > 128) {  // 64-bit multiply with overflow: 128 bits is enough
        ww = 128;
      }
      Node *X2 = sg ? mkSExt(x, ww) : mkZExt(x, ww), *Y2 = sg ? mkSExt(y, ww) : mkZExt(y, ww);
      Node *wide = mkBin(op, X2, Y2), *r = mkBin(op, x, y);
      Node* back = sg ? mkSExt(r, ww) : mkZExt(r, ww);
      Node* o = mkNot(mkEq(wide, back));
      finishCall({V(r), V(o)});
      return true;
    };
    if (sw(name, "llvm.uadd.with.overflow")) return ovf(ADD, false);
    if (sw(name, "llvm.usub.with.overflow")) { w = I.argw[0]; Node *x = N(0, w), *y = N(1, w); finishCall({V(mkBin(SUB, x, y)), V(mkBin(ULT, x, y))}); return true; }
    if (sw(name, "llvm.umul.with.overflow")) return ovf(MUL, false);
    if (sw(name, "llvm.sadd.with.overflow")) return ovf(ADD, true);
    if (sw(name, "llvm.ssub.with.overflow")) return ovf(SUB, true);
    if (sw(name, "llvm.smul.with.overflow")) return ovf(MUL, true);
    if (sw(name, "llvm.usub.sat.")) return ret(V(mkIte(mkBin(ULT, N(0, w), N(1, w)), mkConst(0, w), mkBin(SUB, N(0, w), N(1, w)))));
    if (sw(name, "llvm.uadd.sat.")) { Node* s = mkBin(ADD, N(0, w), N(1, w)); return ret(V(mkIte(mkBin(ULT, s, N(0, w)), mkConst(maskw(w), w), s))); }
    if (sw(name, "llvm.fabs.")) return ret(V(mkBin(AND, N(0, w), mkConst(maskw(w - 1), w))));
    if (sw(name, "llvm.fmuladd.")) return ret(V(mkFp(FADD, w, mkFp(FMUL, w, N(0, w), N(1, w), 0), N(2, w), 0)));
    if (sw(name, "llvm.is.fpclass")) {  // NaN test only
      return ret(V(mkFp(FCMP, 1, N(0, I.argw[0]), N(0, I.argw[0]), 8)));
    }
    if (sw(name, "llvm.ceil.") || sw(name, "llvm.floor.") || sw(name, "llvm.trunc.") || sw(name, "llvm.rint.") || sw(name, "llvm.round.") || sw(name, "llvm.nearbyint.")) {
      if (!a[0].conc()) stop("symbolic rounding");
      double d; float f;
      if (w == 32) { uint32_t x = a[0].c; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &a[0].c, 8);
      d = sw(name, "llvm.ceil.") ? std::ceil(d) : sw(name, "llvm.floor.") ? std::floor(d) : sw(name, "llvm.trunc.") ? std::trunc(d) : sw(name, "llvm.round.") ? std::round(d) : std::rint(d);
      if (w == 32) { f = d; uint32_t x; memcpy(&x, &f, 4); return ret(V((uint64_t)x)); }
      uint64_t x; memcpy(&x, &d, 8); return ret(V(x));
    }
    return false;
  }

  // ---- verification intrinsics
  if (sw(name, "__sym_")) {
    if (name == "__sym_var") {
      std::string nm = cstr(concretize(a[0], 64));
      unsigned bits = concretize(a[1], 32);
      Node* n = symVar(nm, bits);
      S->inputs.push_back({nm, n});
      return ret(V(mkZExt(n, 64)));
    }
    if (name == "__sym_bytes") {
      uint64_t p = concretize(a[0], 64), n = concretize(a[1], 64);
      std::string nm = cstr(concretize(a[2], 64));
      for (uint64_t i = 0; i < n; ++i) {
        Node* v = symVar(nm, 8);
        S->inputs.push_back({nm, v});
        store(V(p + i), V(v), 1, 8);
      }
      return done();
    }
    if (name == "__sym_choose") {
      // a value in [0, n), explored exhaustively by forking
      std::string nm = cstr(concretize(a[0], 64));
      uint64_t n = concretize(a[1], 64);
      if (n == 0) { ++killed; throw PathEnd(); }
      Node* v = symVar(nm, 32);
      S->inputs.push_back({nm, v});
      for (uint64_t k = 1; k < n; ++k) {
        State* c = new State(*S);
        State* save = S;
        S = c;
        if (c->model.size() <= v->aux) c->model.resize(v->aux + 1, 0);
        c->model[v->aux] = k;
        addPc(mkEq(v, mkConst(k, 32)));
        finishCall({V(k)});
        S = save;
        ++forks;
        work.push_back(c);
      }
      if (S->model.size() <= v->aux) S->model.resize(v->aux + 1, 0);
      S->model[v->aux] = 0;
      addPc(mkEq(v, mkConst(0, 32)));
      return ret(V((uint64_t)0));
    }
    if (name == "__sym_concretize") return ret(V(concretize(a[0], 64)));
    if (name == "__sym_assume") {
      Node* c = mkNot(mkEq(N(0, 32), mkConst(0, 32)));
      assume(c);
      return done();
    }
    if (name == "__sym_assert") {
      ++asserts;
      Node* c = mkNot(mkEq(N(0, 32), mkConst(0, 32)));
      if (isC(c)) { if (!c->k) fail("assert", cstr(concretize(a[1], 64))); return done(); }
      ++assertQueries;
      Model m;
      Sat r = ev(c) ? may(mkNot(c), &m) : (m = S->model, Sat::sat);
      if (r == Sat::unknown && getenv("SYMEX_DUMP")) {
        int d = atoi(getenv("SYMEX_DUMP"));
        std::unordered_set<uint64_t> seen;
        int left = 6;
        std::function<void(Node*, Node*)> diff = [&](Node* x, Node* y) {
          if (x == y || !x || !y || left <= 0 || !seen.insert((uint64_t)x->id << 32 | y->id).second) return;
          if (x->op != y->op || x->aux != y->aux || x->op <= VAR || x->w != y->w) { --left; fprintf(stderr, "DIFF w%d %s\n  vs w%d %s\n", x->w, nodeStr(x, d).c_str(), y->w, nodeStr(y, d).c_str()); return; }
          diff(x->a, y->a); diff(x->b, y->b); diff(x->c, y->c);
        };
        diff(c->a, c->b);
      }
      if (r == Sat::unknown) stop("solver timeout in assertion '" + cstr(concretize(a[1], 64)) + "'");
      if (r == Sat::sat) { 
        report("assert", cstr(concretize(a[1], 64)), m);
        if (ev(c)) { addPc(c); return done(); }
        Model m2;
        unsigned save = solver.timeoutMs;
        solver.timeoutMs = 5000;
        Sat r2 = may(c, &m2);
        solver.timeoutMs = save;
        if (r2 != Sat::sat) { ++killed; throw PathEnd(); }  // violation already reported on this path
        S->model = m2;
        addPc(c);
      }
      return done();
    }
    if (name == "__sym_fail") fail("assert", cstr(concretize(a[0], 64)));
    if (name == "__sym_reach") { S->reached.push_back(cstr(concretize(a[0], 64))); return done(); }
    if (name == "__sym_trace") { S->trace.push_back({cstr(concretize(a[0], 64)), a[1]}); return done(); }
    if (name == "__sym_is_symbolic") return ret(V((uint64_t)1));
    if (name == "__sym_end") { finishPath(); throw PathEnd(); }
    if (name == "__sym_alive") {  // is this heap pointer live?
      uint64_t p = concretize(a[0], 64);
      Obj* o = S->mem.get(p >> SLOT);
      return ret(V((uint64_t)(o && o->alive)));
    }
    if (name == "__sym_thread_create") {
      yield(false);
      T().noYield = false;
      uint64_t fn = concretize(a[0], 64);
      auto it = fnAt.find(fn);
      if (it == fnAt.end()) fail("memory", "thread entry is not a function");
      int parent = S->cur, child = S->th.size();
      S->th.emplace_back();
      VC& pv = S->th[parent].vc;
      if ((int)pv.size() <= parent) pv.resize(parent + 1, 1);
      S->th[child].vc = pv;
      S->th[child].vc.resize(child + 1, 0);
      S->th[child].vc[child] = 1;
      ++S->th[parent].vc[parent];
      S->cur = child;
      pushCall(it->second, {a[1]}, true);
      S->cur = parent;
      return ret(V((uint64_t)child));
    }
    if (name == "__sym_thread_join") {
      uint64_t t = concretize(a[0], 64);
      if (t >= S->th.size()) fail("undefined-behaviour", "join of an unknown thread");
      if (S->th[t].status != TS::Done) {
        T().status = TS::Join; T().wait = t;
        yield(true);
      }
      T().status = TS::Run; T().noYield = false;
      vcJoin(T().vc, S->th[t].vc);
      return done();
    }
    if (name == "__sym_thread_self") return ret(V((uint64_t)S->cur));
    if (name == "__sym_thread_yield") { yield(false, true); T().noYield = false; return done(); }
    if (name == "__sym_thread_settle") {  // goes on once no other thread can run
      if (S->th.size() > 1 && T().status != TS::Settle) { T().status = TS::Settle; yield(true); }
      T().status = TS::Run; T().noYield = false;
      for (auto& th : S->th) vcJoin(T().vc, th.vc);
      return done();
    }
    if (name == "__sym_futex_wait") {  // (addr, val, timed): block while *addr == val; returns 1 when the value changed
      uint64_t p = concretize(a[0], 64);
      uint32_t val = (uint32_t)concretize(a[1], 32);
      bool timed = concretize(a[2], 32) != 0;
      bool r = opt.races; opt.races = false;
      uint32_t now;
      try { now = ld32(p); } catch (...) { opt.races = r; throw; }
      opt.races = r;
      if (now == val && !(timed && T().status == TS::Futex)) {
        T().status = TS::Futex; T().wait = p; T().futexVal = val; T().timed = timed;
        yield(true);
      }
      if (now == val && timed && T().status == TS::Futex) ++S->timeouts;
      T().status = TS::Run; T().noYield = false;
      vcJoin(T().vc, S->atomics[p]);
      return ret(V((uint64_t)(now != val)));
    }
    fprintf(stderr, "engine: unknown intrinsic %s\n", name.c_str());
    return false;
  }

  // ---- C library
  if (name == "malloc" || name == "calloc") {
    uint64_t n = concretize(a[0], 64);
    if (name == "calloc") n *= concretize(a[1], 64);
    if (n >= (1u << SLOT)) { return ret(V((uint64_t)0)); }
    ++S->allocs;
    return ret(V(alloc(S, n, OK::Heap, name == "malloc", I.I)));
  }
  if (name == "free") { freeMem(a[0]); return done(); }
  if (name == "realloc") {
    uint64_t p = concretize(a[0], 64), n = concretize(a[1], 64);
    if (n >= (1u << SLOT)) { return ret(V((uint64_t)0)); }
    uint64_t q = alloc(S, n, OK::Heap, true, I.I);
    ++S->allocs;
    if (p) {
      Obj* o = S->mem.get(p >> SLOT);
      if (!o || !o->alive || o->kind != OK::Heap || (p & ((1ull << SLOT) - 1))) fail("memory", "realloc of a pointer that was not allocated");
      uint64_t m = std::min<uint64_t>(o->size, n);
      if (m) memcpyOp(q, p, m, false);
      freeMem(a[0]);
    }
    return ret(V(q));
  }
  if (name == "memcpy" || name == "memmove") {
    uint64_t d = concretize(a[0], 64), s = concretize(a[1], 64), n = concretize(a[2], 64);
    memcpyOp(d, s, n, name == "memmove");
    return ret(V(d));
  }
  if (name == "memcmp" || name == "bcmp") {
    uint64_t p = concretize(a[0], 64), q = concretize(a[1], 64), n = concretize(a[2], 64);
    if (!n) return ret(V((uint64_t)0));
    std::vector<V> x, y;
    V o1, o2;
    resolve(V(p), n, o1, "memcmp", false);
    resolve(V(q), n, o2, "memcmp", false);
    Node* r = mkConst(0, 32);
    for (uint64_t i = n; i-- > 0;) {
      Node* c1 = nodeOf(load(V(p + i), 1, 8), 8);
      Node* c2 = nodeOf(load(V(q + i), 1, 8), 8);
      Node* d = mkIte(mkBin(ULT, c1, c2), mkConst(maskw(32), 32), mkConst(1, 32));
      r = mkIte(mkEq(c1, c2), r, d);
    }
    return ret(V(r));
  }
  if (name == "abort") fail("abort", "abort() called");
  if (name == "exit" || name == "_exit" || name == "quick_exit") fail("exit", "process exit called");
  if (name == "__assert_fail") fail("assert", "assert() failed: " + cstr(concretize(a[0], 64)));
  if (name == "_ZSt9terminatev") {
    fail("terminate", "std::terminate() called");
  }
  if (name == "__cxa_pure_virtual") fail("undefined-behaviour", "pure virtual call");
  if (name == "__cxa_atexit" || name == "atexit" || name == "__cxa_thread_atexit") return ret(V((uint64_t)0));
  if (name == "__cxa_guard_acquire") {
    uint64_t g = concretize(a[0], 64);
    V v = loadBytes(g >> SLOT, g & ((1ull << SLOT) - 1), 1, 8);
    if (S->th.size() > 1) vcJoin(T().vc, S->atomics[g]);
    return ret(V((uint64_t)(v.conc() && v.c == 0)));
  }
  if (name == "__cxa_guard_release") {
    uint64_t g = concretize(a[0], 64);
    storeBytes(g >> SLOT, g & ((1ull << SLOT) - 1), V((uint64_t)1), 1, 8);
    if (S->th.size() > 1) { vcJoin(S->atomics[g], T().vc); ++T().vc[S->cur]; }
    return done();
  }
  if (name == "__cxa_guard_abort") return done();

  // ---- exceptions
  if (name == "__cxa_allocate_exception") {
    uint64_t n = concretize(a[0], 64);
    uint64_t p = alloc(S, n, OK::Exc, true, I.I);
    return ret(V(p));
  }
  if (name == "__cxa_init_primary_exception") {
    uint64_t p = concretize(a[0], 64);
    S->excs[p] = Exc{concretize(a[1], 64), concretize(a[2], 64), 0, 0, false, p};
    return ret(V(p));
  }
  if (name == "__cxa_free_exception") return done();
  if (name == "__cxa_throw") {
    uint64_t p = concretize(a[0], 64);
    S->excs[p] = Exc{concretize(a[1], 64), concretize(a[2], 64), 1, 0, false, p};
    ++T().uncaught;
    throwExc(p);
    return true;
  }
  if (name == "__cxa_begin_catch") {
    uint64_t p = concretize(a[0], 64);
    auto it = S->excs.find(p);
    if (it == S->excs.end()) { fprintf(stderr, "engine: begin_catch of unknown exception\n"); abort(); }
    ++it->second.handlers;
    it->second.rethrown = false;
    if (T().uncaught) --T().uncaught;
    T().caught.push_back(p);
    return ret(V(it->second.adjusted));
  }
  if (name == "__cxa_get_exception_ptr") { uint64_t p = concretize(a[0], 64); return ret(V(S->excs[p].adjusted)); }
  if (name == "__cxa_end_catch") {
    if (T().caught.empty()) return done();
    uint64_t p = T().caught.back();
    T().caught.pop_back();
    Exc& e = S->excs[p];
    --e.handlers;
    if (e.handlers == 0 && !e.rethrown && --e.refs <= 0) { destroyExc(p); return true; }
    return done();
  }
  if (name == "__cxa_rethrow") {
    if (T().caught.empty()) fail("terminate", "rethrow without an active exception");
    uint64_t p = T().caught.back();
    S->excs[p].rethrown = true;
    ++T().uncaught;
    throwExc(p);
    return true;
  }
  if (name == "__cxa_call_unexpected") fail("terminate", "exception violates its exception specification");
  if (name == "__cxa_current_exception_object") return ret(V(T().caught.empty() ? (uint64_t)0 : T().caught.back()));
  if (name == "__cxa_uncaught_exceptions_count") return ret(V((uint64_t)T().uncaught));
  if (name == "__cxa_exc_addref") { uint64_t p = concretize(a[0], 64); if (p) ++S->excs[p].refs; return done(); }
  if (name == "__cxa_exc_release") {
    uint64_t p = concretize(a[0], 64);
    if (p && --S->excs[p].refs <= 0 && S->excs[p].handlers == 0) { destroyExc(p); return true; }
    return done();
  }
  if (name == "__cxa_exc_rethrow") {  // rethrow_exception
    uint64_t p = concretize(a[0], 64);
    ++S->excs[p].refs;
    ++T().uncaught;
    throwExc(p);
    return true;
  }
  if (name == "__cxa_exc_type") { uint64_t p = concretize(a[0], 64); return ret(V(p ? S->excs[p].ti : (uint64_t)0)); }
  if (name == "__dynamic_cast") {
    uint64_t p = concretize(a[0], 64), dst = concretize(a[2], 64);
    if (!p) return ret(V((uint64_t)0));
    uint64_t vptr = ld64(p);
    int64_t top = (int64_t)ld64(vptr - 16);
    uint64_t ti = ld64(vptr - 8);
    uint64_t adj = 0;
    bool ok = canCatch(dst, ti, p + top, adj);
    return ret(V(ok ? adj : (uint64_t)0));
  }

  // ---- pthread synchronisation
  if (sw(name, "pthread_")) {
    if (name == "pthread_mutexattr_init" || name == "pthread_mutexattr_destroy" || name == "pthread_attr_init" || name == "pthread_attr_destroy" || name == "pthread_cond_init" ||
        name == "pthread_cond_destroy" || name == "pthread_condattr_init" || name == "pthread_condattr_setclock" || name == "pthread_condattr_destroy" || name == "pthread_attr_setdetachstate")
      return ret(V((uint64_t)0));
    if (name == "pthread_mutexattr_settype") { st32(concretize(a[0], 64), concretize(a[1], 32)); return ret(V((uint64_t)0)); }
    if (name == "pthread_mutex_init") {
      uint64_t m = concretize(a[0], 64), at = concretize(a[1], 64);
      S->mutexes[m] = Mutex();
      if (at) S->mutexes[m].recursive = ld32(at) == 1;
      st64(m, 0);
      return ret(V((uint64_t)0));
    }
    if (name == "pthread_mutex_destroy") { S->mutexes.erase(concretize(a[0], 64)); return ret(V((uint64_t)0)); }
    if (name == "pthread_mutex_lock" || name == "pthread_mutex_trylock") {
      uint64_t m = concretize(a[0], 64);
      V off;
      resolve(V(m), 8, off, "mutex", false);
      yield(false);
      Mutex& mx = S->mutexes[m];
      bool isTry = name == "pthread_mutex_trylock";
      // PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP has kind 1 at offset 16
      if (mx.owner < 0 && S->mem.get(m >> SLOT)->size >= off.c + 20) { V k = loadBytes(m >> SLOT, off.c + 16, 4, 32); if (k.conc() && k.c == 1) mx.recursive = true; }
      if (mx.owner == S->cur) {
        if (mx.recursive) { ++mx.count; T().noYield = false; return ret(V((uint64_t)0)); }
        T().noYield = false;
        if (isTry) return ret(V((uint64_t)16));
        fail("deadlock", "thread locks a mutex it already holds");
      }
      if (mx.owner >= 0) {
        if (isTry) { T().noYield = false; return ret(V((uint64_t)16)); }
        T().status = TS::Mutex; T().wait = m;
        yield(true);
      }
      mx.owner = S->cur; mx.count = 1;
      T().status = TS::Run; T().noYield = false;
      vcJoin(T().vc, mx.vc);
      return ret(V((uint64_t)0));
    }
    if (name == "pthread_mutex_unlock") {
      uint64_t m = concretize(a[0], 64);
      Mutex& mx = S->mutexes[m];
      if (mx.owner != S->cur) fail("undefined-behaviour", "unlock of a mutex the thread does not hold");
      if (--mx.count == 0) {
        mx.owner = -1;
        vcJoin(mx.vc, T().vc);
        if (T().vc.size() <= (size_t)S->cur) T().vc.resize(S->cur + 1, 1);
        ++T().vc[S->cur];
      }
      return ret(V((uint64_t)0));
    }
    if (name == "pthread_cond_wait" || name == "pthread_cond_timedwait" || name == "pthread_cond_clockwait") {
      uint64_t cv = concretize(a[0], 64), m = concretize(a[1], 64);
      Thread& t = T();
      if (t.status == TS::Run) {
        Mutex& mx = S->mutexes[m];
        if (mx.owner != S->cur) fail("undefined-behaviour", "condition wait without holding the mutex");
        mx.owner = -1; mx.count = 0;
        vcJoin(mx.vc, t.vc);
        ++t.vc[S->cur];
        t.status = TS::Cond; t.wait = cv; t.wait2 = m; t.timed = name != "pthread_cond_wait";
        yield(true);
      }
      // scheduled again: enabled() made sure the mutex is free
      bool timeout = t.status == TS::Cond;
      if (timeout) ++(t.timed ? S->timeouts : S->spurious);
      Mutex& mx = S->mutexes[m];
      mx.owner = S->cur; mx.count = 1;
      vcJoin(t.vc, mx.vc);
      bool timed = t.timed;
      t.status = TS::Run; t.noYield = false; t.timed = false;
      return ret(V((uint64_t)(timeout && timed ? 110 : 0)));
    }
    if (name == "pthread_cond_signal" || name == "pthread_cond_broadcast") {
      uint64_t cv = concretize(a[0], 64);
      yield(false);
      T().noYield = false;
      std::vector<int> ws;
      for (int i = 0; i < (int)S->th.size(); ++i) if (S->th[i].status == TS::Cond && S->th[i].wait == cv) ws.push_back(i);
      if (name == "pthread_cond_broadcast") { for (int i : ws) S->th[i].status = TS::Notified; return ret(V((uint64_t)0)); }
      if (ws.size() > 1) {
        Node* var = symVar("wake", 8);
        S->inputs.push_back({"wake", var});
        if (S->model.size() <= var->aux) S->model.resize(var->aux + 1, 0);
        for (size_t i = 1; i < ws.size(); ++i) {
          State* c = new State(*S);
          State* save = S;
          S = c;
          c->th[ws[i]].status = TS::Notified;
          c->model[var->aux] = ws[i];
          c->pc.push_back(mkEq(var, mkConst(ws[i], 8)));
          finishCall({V((uint64_t)0)});
          S = save;
          ++forks;
          work.push_back(c);
        }
        S->model[var->aux] = ws[0];
        S->pc.push_back(mkEq(var, mkConst(ws[0], 8)));
      }
      if (!ws.empty()) S->th[ws[0]].status = TS::Notified;
      return ret(V((uint64_t)0));
    }
    if (name == "pthread_self") return ret(V((uint64_t)S->cur + 1));
    if (name == "pthread_key_create" || name == "pthread_key_delete") return ret(V((uint64_t)0));
  }
  if (name == "nanosleep" || name == "clock_nanosleep") { yield(false, true); T().noYield = false; return ret(V((uint64_t)0)); }
  if (name == "sched_yield") { yield(false, true); T().noYield = false; return ret(V((uint64_t)0)); }
  return false;
}
