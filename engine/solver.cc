#include "solver.h"
#include <chrono>
#include <cstring>
#include <fstream>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "engine: z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}
static uint64_t rnd() {
  static uint64_t s = 0x9E3779B97F4A7C15ull;
  s ^= s << 13; s ^= s >> 7; s ^= s << 17;
  return s;
}
Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, zerr);
  Z3_del_config(cfg);
}
static Z3_sort fpSort(Z3_context c, unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }

Z3_ast Solver::lower(Node* n) {
  if (n->z) return (Z3_ast)n->z;
  Z3_ast a = n->a ? lower(n->a) : nullptr, b = n->b ? lower(n->b) : nullptr, c = n->c ? lower(n->c) : nullptr;
  Z3_ast r = nullptr;
  auto B = [&](Z3_ast p) { return Z3_mk_ite(ctx, p, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); };
  auto one = [&]() { return Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)); };
  auto F = [&](Z3_ast x, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, x, fpSort(ctx, w)); };
  auto rne = [&]() { return Z3_mk_fpa_rne(ctx); };
  auto rtz = [&]() { return Z3_mk_fpa_rtz(ctx); };
  switch (n->op) {
    case CONST: {
      Z3_sort s = Z3_mk_bv_sort(ctx, n->w);
      if (n->w <= 64) r = Z3_mk_unsigned_int64(ctx, (uint64_t)n->k, s);
      else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)(n->k >> 64), Z3_mk_bv_sort(ctx, n->w - 64)), Z3_mk_unsigned_int64(ctx, (uint64_t)n->k, Z3_mk_bv_sort(ctx, 64)));
      break;
    }
    case VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, n->aux), Z3_mk_bv_sort(ctx, n->w)); break;
    case ADD: r = Z3_mk_bvadd(ctx, a, b); break;
    case SUB: r = Z3_mk_bvsub(ctx, a, b); break;
    case MUL:
      if (n->w == 64 && isC(n->b) && (n->b->k >> 63) && hasDiv(n->a)) {  // x * -c as -(x * c): the form the integer-based solver follows
        r = Z3_mk_bvneg(ctx, Z3_mk_bvmul(ctx, a, lower(mkConst(-n->b->k, 64))));
        break;
      }
      r = Z3_mk_bvmul(ctx, a, b);
      break;
    case UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
    case UREM: r = Z3_mk_bvurem(ctx, a, b); break;
    case SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
    case AND: r = Z3_mk_bvand(ctx, a, b); break;
    case OR: r = Z3_mk_bvor(ctx, a, b); break;
    case XOR: r = Z3_mk_bvxor(ctx, a, b); break;
    case SHL: r = Z3_mk_bvshl(ctx, a, b); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
    case ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
    case EQ: r = B(Z3_mk_eq(ctx, a, b)); break;
    case ULT: r = B(Z3_mk_bvult(ctx, a, b)); break;
    case ULE: r = B(Z3_mk_bvule(ctx, a, b)); break;
    case SLT: r = B(Z3_mk_bvslt(ctx, a, b)); break;
    case SLE: r = B(Z3_mk_bvsle(ctx, a, b)); break;
    case ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, a, one()), b, c); break;
    case CONCAT: r = Z3_mk_concat(ctx, a, b); break;
    case EXTRACT: r = Z3_mk_extract(ctx, n->aux + n->w - 1, n->aux, a); break;
    case ZEXT: r = Z3_mk_zero_ext(ctx, n->w - n->a->w, a); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, n->w - n->a->w, a); break;
    case FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), F(a, n->w), F(b, n->w))); break;
    case FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), F(a, n->w), F(b, n->w))); break;
    case FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), F(a, n->w), F(b, n->w))); break;
    case FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), F(a, n->w), F(b, n->w))); break;
    case FREM: fprintf(stderr, "engine: symbolic frem\n"); abort();
    case FCMP: {
      Z3_ast x = F(a, n->a->w), y = F(b, n->a->w);
      Z3_ast un = Z3_mk_or(ctx, 2, std::vector<Z3_ast>{Z3_mk_fpa_is_nan(ctx, x), Z3_mk_fpa_is_nan(ctx, y)}.data());
      std::vector<Z3_ast> d;
      if (n->aux & 1) d.push_back(Z3_mk_fpa_eq(ctx, x, y));
      if (n->aux & 2) d.push_back(Z3_mk_fpa_gt(ctx, x, y));
      if (n->aux & 4) d.push_back(Z3_mk_fpa_lt(ctx, x, y));
      if (n->aux & 8) d.push_back(un);
      r = B(d.empty() ? Z3_mk_false(ctx) : Z3_mk_or(ctx, d.size(), d.data()));
      break;
    }
    case FPEXT: case FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), F(a, n->a->w), fpSort(ctx, n->w))); break;
    case FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, rtz(), F(a, n->a->w), n->w); break;
    case FPTOSI: r = Z3_mk_fpa_to_sbv(ctx, rtz(), F(a, n->a->w), n->w); break;
    case UITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), a, fpSort(ctx, n->w))); break;
    case SITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), a, fpSort(ctx, n->w))); break;
    default: abort();
  }
  Z3_inc_ref(ctx, r);  // no-op for contexts without reference counting
  n->z = r;
  return r;
}
bool Solver::hasFp(Node* n) {
  if (n->op >= FADD) return true;
  if (n->op <= VAR) return false;
  auto it = fpMemo.find(n);
  if (it != fpMemo.end()) return it->second;
  bool r = (n->a && hasFp(n->a)) || (n->b && hasFp(n->b)) || (n->c && hasFp(n->c));
  return fpMemo[n] = r;
}
bool Solver::hasDiv(Node* n) {  // a division the bit-blaster finds hard
  if (n->op >= UDIV && n->op <= SREM && n->w > 32) return true;
  if (n->op <= VAR) return false;
  auto it = divMemo.find(n);
  if (it != divMemo.end()) return it->second;
  bool r = (n->a && hasDiv(n->a)) || (n->b && hasDiv(n->b)) || (n->c && hasDiv(n->c));
  return divMemo[n] = r;
}
bool Solver::hasWide(Node* n) {
  if (n->w > 128) return true;
  if (n->op <= VAR) return false;
  auto it = wideMemo.find(n);
  if (it != wideMemo.end()) return it->second;
  bool r = (n->a && hasWide(n->a)) || (n->b && hasWide(n->b)) || (n->c && hasWide(n->c));
  return wideMemo[n] = r;
}

// Queries the library solver gives up on go to other solvers as SMT-LIB text, in parallel; the first answer counts.
Sat Solver::portfolio(const std::string& smt, const VarSet& vs, std::vector<std::pair<uint32_t, uint64_t>>& model) {
  std::string base = tmpPrefix + ".q";
  auto put = [&](const std::string& f, bool cvc) {
    FILE* o = fopen(f.c_str(), "w");
    if (!o) return;
    fprintf(o, "%s(set-option :produce-models true)\n(set-logic %s)\n%s\n(check-sat)\n", "", cvc ? "QF_BV" : "ALL", smt.c_str());
    for (auto v : vs) fprintf(o, "(get-value (k!%u))\n", v);
    fclose(o);
  };
  put(base + ".a.smt2", true);
  put(base + ".b.smt2", false);
  std::string tl = std::to_string(portfolioMs / 1000 + 1);
  std::vector<std::vector<std::string>> cmds = {
      {"timeout", tl, "cvc5", "--solve-bv-as-int=sum", "-q", base + ".a.smt2"},
      {"timeout", tl, "cvc5", "-q", base + ".a.smt2"},
      {"timeout", tl, "z3-new", base + ".b.smt2"}};
  std::vector<pid_t> pids;
  for (size_t i = 0; i < cmds.size(); ++i) {
    std::string out = base + ".out" + std::to_string(i);
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0);
      int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 1); dup2(fd, 2);
      std::vector<char*> av;
      for (auto& x : cmds[i]) av.push_back((char*)x.c_str());
      av.push_back(nullptr);
      execvp(av[0], av.data());
      _exit(127);
    }
    pids.push_back(p);
  }
  Sat res = Sat::unknown;
  size_t left = pids.size();
  while (left && res == Sat::unknown) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    for (size_t i = 0; i < pids.size(); ++i) {
      if (pids[i] != p) continue;
      pids[i] = -1;
      --left;
      std::ifstream f(base + ".out" + std::to_string(i));
      std::string line;
      std::getline(f, line);
      if (line == "unsat") res = Sat::unsat;
      else if (line == "sat") {
        res = Sat::sat;
        for (auto v : vs) {
          uint64_t u = 0;
          if (std::getline(f, line)) {
            size_t q = line.find('#');
            if (q != std::string::npos) u = strtoull(line.c_str() + q + 2, nullptr, line[q + 1] == 'x' ? 16 : 2);
          }
          model.push_back({v, u});
        }
      }
    }
  }
  for (auto p : pids) if (p > 0) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, nullptr, 0); }
  for (const char* x : {".a.smt2", ".b.smt2", ".out0", ".out1", ".out2"}) unlink((base + x).c_str());
  ++portfolioN;
  return res;
}

Sat Solver::check(const std::vector<Node*>& pc, Node* extra, const Model& base, Model* out) {
  if (isC(extra)) {
    if (extra->k == 0) return Sat::unsat;
    if (out) *out = base;
    return Sat::sat;
  }
  // independence slice
  static std::vector<uint32_t> mark;
  static uint32_t stamp = 0;
  if (mark.size() < X.vars.size() + 1) mark.resize(X.vars.size() * 2 + 64, 0);
  ++stamp;
  std::vector<char> taken(pc.size(), 0);
  std::vector<Node*> slice;
  for (auto v : *extra->vars) mark[v] = stamp;
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < pc.size(); ++i) {
      if (taken[i]) continue;
      bool hit = false;
      for (auto v : *pc[i]->vars) if (mark[v] == stamp) { hit = true; break; }
      if (hit) {
        taken[i] = 1;
        slice.push_back(pc[i]);
        for (auto v : *pc[i]->vars) if (mark[v] != stamp) { mark[v] = stamp; changed = true; }
      }
    }
  }
  std::vector<uint32_t> ids;
  for (auto* n : slice) ids.push_back(n->id);
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  ids.push_back(extra->id);
  std::string key((const char*)ids.data(), ids.size() * 4);
  ++queries;
  auto it = cache.find(key);
  if (it == cache.end()) {
    double t0 = nowS();
    // Satisfying assignments are often easy to guess; only a failure to guess goes to the SMT solver.
    VarSet vs = *extra->vars;
    for (auto* n : slice) vs.insert(vs.end(), n->vars->begin(), n->vars->end());
    std::sort(vs.begin(), vs.end());
    vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    bool evaluable = !hasWide(extra);
    for (auto* n : slice) evaluable = evaluable && !hasWide(n);
    Model g = base;
    if (g.size() < X.vars.size()) g.resize(X.vars.size(), 0);
    for (int k = 0; k < (evaluable ? 6 : 0); ++k) {
      for (auto v : *extra->vars) {
        g[v] = v < base.size() ? base[v] : 0;
        if (k >= 3 && (rnd() & 1)) continue;  // perturb only some of the variables
        uint64_t w = X.vars[v].w, r = rnd();
        if (k % 3 == 2) r &= 15;
        g[v] = w >= 64 ? r : r & ((1ull << w) - 1);
      }
      ++X.epoch;
      bool good = evalNode(extra, g) == 1;
      for (size_t i = 0; good && i < slice.size(); ++i) good = evalNode(slice[i], g) == 1;
      if (good) {
        Entry e;
        e.r = Sat::sat;
        for (auto v : vs) e.model.push_back({v, g[v]});
        ++satN; ++guessed;
        it = cache.emplace(key, std::move(e)).first;
        break;
      }
    }
    ++X.epoch;
    if (it != cache.end()) goto done;
    bool fp = hasFp(extra), div = hasDiv(extra);
    for (auto* n : slice) fp = fp || hasFp(n), div = div || hasDiv(n);
    Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), div ? 3000 : timeoutMs);
    Z3_solver_set_params(ctx, s, p);
    auto add = [&](Node* n) { Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, lower(n), lower(mkConst(1, 1)))); };
    for (auto* n : slice) add(n);
    add(extra);
    Z3_lbool r = Z3_solver_check(ctx, s);
    Entry e;
    if (r == Z3_L_UNDEF) {
      std::vector<Z3_ast> as;  // as lowered: the solver above holds simplified assertions
      auto say = [&](Node* n) { as.push_back(Z3_mk_eq(ctx, lower(n), lower(mkConst(1, 1)))); };
      for (auto* n : slice) say(n);
      say(extra);
      std::string smt = Z3_benchmark_to_smtlib_string(ctx, "", "", "", "", (unsigned)as.size() - 1, as.data(), as.back());
      for (const char* cut : {"(check-sat)", "(set-info"})
        for (size_t q; (q = smt.find(cut)) != std::string::npos;) smt.erase(q, smt.find('\n', q) == std::string::npos ? std::string::npos : smt.find('\n', q) - q);
      for (const char* op : {"bvsdiv_i", "bvudiv_i", "bvsrem_i", "bvurem_i", "bvsmod_i"})  // Z3's internal names
        for (size_t q; (q = smt.find(op)) != std::string::npos;) smt.erase(q + strlen(op) - 2, 2);
      e.r = portfolio(smt, vs, e.model);
      Z3_params_dec_ref(ctx, p);
      Z3_solver_dec_ref(ctx, s);
      double dt = nowS() - t0;
      seconds += dt;
      if (dt > maxQuery) maxQuery = dt;
      if (e.r == Sat::sat) ++satN; else if (e.r == Sat::unsat) ++unsatN; else ++unknownN;
      it = cache.emplace(key, std::move(e)).first;
      goto done;
    }
    e.r = r == Z3_L_TRUE ? Sat::sat : r == Z3_L_FALSE ? Sat::unsat : Sat::unknown;
    if (e.r == Sat::sat) {
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      for (auto v : vs) {
        Z3_ast val = nullptr;
        uint64_t u = 0;
        if (Z3_model_eval(ctx, m, lower(X.vars[v].node), true, &val)) Z3_get_numeral_uint64(ctx, val, &u);
        e.model.push_back({v, u});
      }
      Z3_model_dec_ref(ctx, m);
    }
    Z3_params_dec_ref(ctx, p);
    Z3_solver_dec_ref(ctx, s);
    double dt = nowS() - t0;
    seconds += dt;
    if (dt > maxQuery) maxQuery = dt;
    if (e.r == Sat::sat) ++satN; else if (e.r == Sat::unsat) ++unsatN; else ++unknownN;
    it = cache.emplace(key, std::move(e)).first;
  } else {
    ++cacheHits;
  }
done:
  if (it->second.r == Sat::sat && out) {
    *out = base;
    if (out->size() < X.vars.size()) out->resize(X.vars.size(), 0);
    for (auto& kv : it->second.model) (*out)[kv.first] = kv.second;
  }
  return it->second.r;
}
