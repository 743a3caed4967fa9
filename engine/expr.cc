#include "expr.h"
#include <cmath>
ExprCtx X;

static Node* raw(Op op, unsigned w, Node* a, Node* b, Node* c, uint32_t aux, u128 k) {
  ExprCtx::Key key{op, (uint16_t)w, aux, a, b, c, k};
  auto it = X.tab.find(key);
  if (it != X.tab.end()) return it->second;
  Node* n = new Node();
  n->op = op; n->w = w; n->a = a; n->b = b; n->c = c; n->aux = aux; n->k = k;
  n->id = X.nextId++;
  n->vars = &X.emptySet;
  if (a) n->vars = a->vars;
  if (b) n->vars = X.uni(n->vars, b->vars);
  if (c) n->vars = X.uni(n->vars, c->vars);
  u128 M = maskw(w);
  n->umin = 0; n->umax = M;
  switch (op) {
    case CONST: n->umin = n->umax = k; break;
    case VAR: { VarSet s{aux}; n->vars = X.intern(s); break; }
    case ZEXT: n->umin = a->umin; n->umax = a->umax; break;
    case SEXT: if (a->umax < ((u128)1 << (a->w - 1))) { n->umin = a->umin; n->umax = a->umax; } break;
    case CONCAT: n->umin = (a->umin << b->w) | b->umin; n->umax = (a->umax << b->w) | b->umax; break;
    case EXTRACT:
      if (aux == 0) { if (a->umax <= M) { n->umin = a->umin; n->umax = a->umax; } }
      else { u128 mx = a->umax >> aux; if (mx <= M) { n->umax = mx; n->umin = a->umin >> aux; } }
      break;
    case ADD: if (a->umax <= M - b->umax) { n->umin = a->umin + b->umin; n->umax = a->umax + b->umax; }
      else if (b->op == CONST && a->umin >= ((M - b->k) + 1 & M) && b->k) {  // always wraps: subtraction
        u128 s = (M - b->k) + 1; n->umin = a->umin - s; n->umax = a->umax - s; }
      break;
    case SUB: if (a->umin >= b->umax) { n->umin = a->umin - b->umax; n->umax = a->umax - b->umin; } break;
    case MUL: if (w <= 64 && a->umax * b->umax <= M) { n->umin = a->umin * b->umin; n->umax = a->umax * b->umax; } break;
    case UDIV: if (b->umin > 0) { n->umax = a->umax / b->umin; n->umin = a->umin / b->umax; } break;
    case UREM: if (b->umin > 0) { n->umax = std::min(a->umax, b->umax - 1); if (a->umax < b->umin) n->umin = a->umin; } break;
    case AND: n->umax = std::min(a->umax, b->umax); break;
    case OR: case XOR: { u128 m = a->umax | b->umax; unsigned i = 0; while (i < w && (m >> i)) ++i; n->umax = i >= 128 ? ~(u128)0 : maskw(i); if (op == OR) n->umin = std::max(a->umin, b->umin); break; }
    case LSHR: n->umax = a->umax; break;
    case ITE: n->umin = std::min(b->umin, c->umin); n->umax = std::max(b->umax, c->umax); break;
    default: break;
  }
  n->umax &= M;
  X.tab.emplace(key, n);
  return n;
}

Node* mkConst(u128 k, unsigned w) { assert(w > 0 && w <= 128); return raw(CONST, w, 0, 0, 0, 0, k & maskw(w)); }
Node* mkVar(const std::string& name, unsigned w) {
  uint32_t i = X.vars.size();
  X.vars.push_back({name, w, nullptr});
  Node* n = raw(VAR, w, 0, 0, 0, i, 0);
  X.vars[i].node = n;
  return n;
}

static u128 foldBin(Op op, unsigned w, u128 a, u128 b) {
  u128 M = maskw(w);
  s128 sa = sextk(a, w), sb = sextk(b, w);
  switch (op) {
    case ADD: return (a + b) & M;
    case SUB: return (a - b) & M;
    case MUL: return (a * b) & M;
    case UDIV: return b ? a / b : M;
    case UREM: return b ? a % b : a;
    case SDIV: if (!b) return sa < 0 ? 1 : M; if (sb == -1) return (0 - a) & M; return (u128)(sa / sb) & M;
    case SREM: if (!b) return a; if (sb == -1) return 0; return (u128)(sa % sb) & M;
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
    case LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case ASHR: return b >= w ? (sa < 0 ? M : 0) : (u128)(sa >> (unsigned)b) & M;
    case EQ: return a == b;
    case ULT: return a < b;
    case ULE: return a <= b;
    case SLT: return sa < sb;
    case SLE: return sa <= sb;
    default: abort();
  }
}

static bool isCmp(Op o) { return o >= EQ && o <= SLE; }
static bool isComm(Op o) { return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ; }

// view n as concat(hi, lo) split at bit 'at' (structurally cheap only)
static bool splitAt(Node* n, unsigned at, Node*& hi, Node*& lo) {
  if (at == 0 || at >= n->w) return false;
  if (n->op == CONST) { hi = mkConst(n->k >> at, n->w - at); lo = mkConst(n->k, at); return true; }
  if (n->op == CONCAT || n->op == ZEXT) { hi = mkExtract(n, at, n->w - at); lo = mkExtract(n, 0, at); return true; }
  return false;
}
static int splitPoint(Node* n) {
  if (n->op == CONCAT) return n->b->w;
  if (n->op == ZEXT) return n->a->w;
  return 0;
}

// Canonical (sorted, constants folded, XOR pairs cancelled) form of a nested sum or exclusive-or.
static Node* chain(Op op, Node* a, Node* b) {
  std::vector<Node*> v{a, b}, leaves;
  u128 k = 0;
  unsigned w = a->w;
  while (!v.empty()) {
    Node* n = v.back(); v.pop_back();
    if (n->op == op) { v.push_back(n->a); v.push_back(n->b); }
    else if (isC(n)) k = op == ADD ? (k + n->k) & maskw(w) : k ^ n->k;
    else leaves.push_back(n);
    if (leaves.size() > 64) return raw(op, w, a, b, nullptr, 0, 0);
  }
  std::sort(leaves.begin(), leaves.end(), [](Node* x, Node* y) { return x->id < y->id; });
  if (op == XOR) {
    std::vector<Node*> t;
    for (auto* n : leaves) { if (!t.empty() && t.back() == n) t.pop_back(); else t.push_back(n); }
    leaves = t;
  }
  if (leaves.empty()) return mkConst(k, w);
  Node* r = leaves[0];
  for (size_t i = 1; i < leaves.size(); ++i) r = raw(op, w, r, leaves[i], nullptr, 0, 0);
  if (k) r = raw(op, w, r, mkConst(k, w), nullptr, 0, 0);
  return r;
}
Node* mkBin(Op op, Node* a, Node* b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  u128 M = maskw(w);
  unsigned rw = isCmp(op) ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(foldBin(op, w, a->k, b->k), rw);
  if (isComm(op)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  // fold through ite with constant arms
  if (isC(b) && a->op == ITE && isC(a->b) && isC(a->c))
    return mkIte(a->a, mkConst(foldBin(op, w, a->b->k, b->k), rw), mkConst(foldBin(op, w, a->c->k, b->k), rw));
  if (isC(a) && b->op == ITE && isC(b->b) && isC(b->c))
    return mkIte(b->a, mkConst(foldBin(op, w, a->k, b->b->k), rw), mkConst(foldBin(op, w, a->k, b->c->k), rw));
  switch (op) {
    case ADD:
      if (isC(b, 0)) return a;
      if (w == 1) return mkBin(XOR, a, b);
      if (isC(b) && a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkConst(a->b->k + b->k, w));
      if (b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
      if (!isC(b) && a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
      if (a->op == SUB && a->b == b) return a->a;
      if (b->op == SUB && b->b == a) return b->a;
      if (a->op == ZEXT && isC(b) && a->a->umax + b->k <= maskw(a->a->w) && b->k <= maskw(a->a->w) && a->a->umax <= maskw(a->a->w) - b->k)
        return mkZExt(mkBin(ADD, a->a, mkConst(b->k, a->a->w)), w);
      // disjoint: low zero bits concat
      for (int i = 0; i < 2; ++i, std::swap(a, b))
        if (a->op == CONCAT && isC(a->b, 0) && b->umax <= maskw(a->b->w)) return mkConcat(a->a, mkExtract(b, 0, a->b->w));
      if (a->op == ADD || b->op == ADD) return chain(ADD, a, b);
      break;
    case SUB:
      if (isC(b)) return mkBin(ADD, a, mkConst(0 - b->k, w));
      if (a == b) return mkConst(0, w);
      if (a->op == ADD && a->b == b) return a->a;
      if (a->op == ADD && a->a == b) return a->b;
      if (a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
      if (b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(SUB, a, b->a), mkConst(0 - b->b->k, w));
      if (w == 1) return mkBin(XOR, a, b);
      break;
    case MUL:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (w == 1) return mkBin(AND, a, b);
      if (isC(b) && (b->k & (b->k - 1)) == 0) {
        unsigned s = 0; while (((b->k >> s) & 1) == 0) ++s;
        return mkBin(SHL, a, mkConst(s, w));
      }
      if (isC(b) && a->op == MUL && isC(a->b)) return mkBin(MUL, a->a, mkConst(a->b->k * b->k, w));
      break;
    case UDIV:
      if (isC(b, 1)) return a;
      if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) { unsigned s = 0; while (((b->k >> s) & 1) == 0) ++s; return mkBin(LSHR, a, mkConst(s, w)); }
      if (isC(b) && b->k && a->umax < b->k) return mkConst(0, w);
      if (a->op == ZEXT && isC(b) && b->k <= maskw(a->a->w)) return mkZExt(mkBin(UDIV, a->a, mkConst(b->k, a->a->w)), w);
      break;
    case UREM:
      if (isC(b, 1)) return mkConst(0, w);
      if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(AND, a, mkConst(b->k - 1, w));
      if (isC(b) && a->umax < b->k) return a;
      if (a->op == ZEXT && isC(b) && b->k && b->k <= maskw(a->a->w)) return mkZExt(mkBin(UREM, a->a, mkConst(b->k, a->a->w)), w);
      break;
    case SDIV: case SREM:
      if (isC(b, 1)) return op == SDIV ? a : mkConst(0, w);
      if (a->umax < ((u128)1 << (w - 1)) && b->umax < ((u128)1 << (w - 1))) return mkBin(op == SDIV ? UDIV : UREM, a, b);
      break;
    case AND:
      if (isC(b, 0)) return b;
      if (isC(b, M)) return a;
      if (a == b) return a;
      if (w == 1) {
        if (a->op == XOR && a->a == b && isC(a->b)) return mkConst(0, 1);
        if (b->op == XOR && b->a == a && isC(b->b)) return mkConst(0, 1);
        if (a->op == AND && (a->a == b || a->b == b)) return a;
        if (b->op == AND && (b->a == a || b->b == a)) return b;
        break;
      }
      if (isC(b)) {
        if (a->op == AND && isC(a->b)) return mkBin(AND, a->a, mkConst(a->b->k & b->k, w));
        // contiguous mask  0..0 1..1 0..0
        u128 k = b->k; unsigned lo = 0; while (((k >> lo) & 1) == 0) ++lo;
        u128 t = k >> lo; if ((t & (t + 1)) == 0) {
          unsigned len = 0; while (len < 128 && ((t >> len) & 1)) ++len;
          Node* e = mkExtract(a, lo, len);
          if (lo) e = mkConcat(e, mkConst(0, lo));
          return mkZExt(e, w);
        }
      }
      { int s = splitPoint(a); if (!s) s = splitPoint(b); Node *h1, *l1, *h2, *l2;
        if (s && splitAt(a, s, h1, l1) && splitAt(b, s, h2, l2)) return mkConcat(mkBin(AND, h1, h2), mkBin(AND, l1, l2)); }
      break;
    case OR:
      if (isC(b, 0)) return a;
      if (isC(b, M)) return b;
      if (a == b) return a;
      if (w == 1) {
        if (a->op == XOR && a->a == b && isC(a->b)) return mkConst(1, 1);
        if (b->op == XOR && b->a == a && isC(b->b)) return mkConst(1, 1);
        break;
      }
      { int s = splitPoint(a); if (!s) s = splitPoint(b); Node *h1, *l1, *h2, *l2;
        if (s && splitAt(a, s, h1, l1) && splitAt(b, s, h2, l2)) return mkConcat(mkBin(OR, h1, h2), mkBin(OR, l1, l2)); }
      break;
    case XOR:
      if (isC(b, 0)) return a;
      if (a == b) return mkConst(0, w);
      if (isC(b) && a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkConst(a->b->k ^ b->k, w));
      if (a->op == XOR && a->a == b) return a->b;
      if (a->op == XOR && a->b == b) return a->a;
      if (b->op == XOR && b->a == a) return b->b;
      if (b->op == XOR && b->b == a) return b->a;
      if (w == 1 && isC(b, 1)) {
        if (a->op == ULT) return mkBin(ULE, a->b, a->a);
        if (a->op == ULE) return mkBin(ULT, a->b, a->a);
        if (a->op == SLT) return mkBin(SLE, a->b, a->a);
        if (a->op == SLE) return mkBin(SLT, a->b, a->a);
        break;
      }
      if (a->op == ZEXT && (b->op == ZEXT || isC(b))) {
        unsigned iw = b->op == ZEXT ? std::max(a->a->w, b->a->w) : a->a->w;
        if (b->op == ZEXT || b->umax <= maskw(iw)) return mkZExt(mkBin(XOR, mkExtract(a, 0, iw), mkExtract(b, 0, iw)), w);
      }
      // wide exclusive-ors stay whole so that word-level mixing functions have one normal form
      if (w > 1 && w < 64) { int s = splitPoint(a); if (!s) s = splitPoint(b); Node *h1, *l1, *h2, *l2;
        if (s && splitAt(a, s, h1, l1) && splitAt(b, s, h2, l2)) return mkConcat(mkBin(XOR, h1, h2), mkBin(XOR, l1, l2)); }
      if (w > 1 && (a->op == XOR || b->op == XOR)) return chain(XOR, a, b);
      break;
    case SHL:
      if (isC(b)) { if (b->k == 0) return a; if (b->k >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->k; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      break;
    case LSHR:
      if (isC(b)) { if (b->k == 0) return a; if (b->k >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->k; return mkZExt(mkExtract(a, s, w - s), w); }
      break;
    case ASHR:
      if (isC(b)) { if (b->k == 0) return a; unsigned s = b->k >= w ? w - 1 : (unsigned)b->k;
        return mkSExt(mkExtract(a, s, w - s), w); }
      break;
    case EQ:
      if (a == b) return mkConst(1, 1);
      if (a->umax < b->umin || b->umax < a->umin) return mkConst(0, 1);
      if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return mkNot(a); }
      if (isC(b)) {
        if (a->op == ZEXT) return mkEq(a->a, mkConst(b->k, a->a->w));
        if (a->op == SEXT) {
          u128 t = b->k & maskw(a->a->w);
          if (((u128)sextk(t, a->a->w) & M) != b->k) return mkConst(0, 1);
          return mkEq(a->a, mkConst(t, a->a->w));
        }
        if (a->op == CONCAT) return mkBin(AND, mkEq(a->a, mkConst(b->k >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->k, a->b->w)));
        if (a->op == ADD && isC(a->b)) return mkEq(a->a, mkConst(b->k - a->b->k, w));
        if (a->op == XOR && isC(a->b)) return mkEq(a->a, mkConst(b->k ^ a->b->k, w));
        if (a->op == SUB && b->k == 0) return mkEq(a->a, a->b);
        if (a->op == XOR && b->k == 0) return mkEq(a->a, a->b);
        if (a->op == ITE) {
          if (isC(a->b)) return a->b->k == b->k ? mkBin(OR, a->a, mkEq(a->c, b)) : mkBin(AND, mkNot(a->a), mkEq(a->c, b));
          if (isC(a->c)) return a->c->k == b->k ? mkBin(OR, mkNot(a->a), mkEq(a->b, b)) : mkBin(AND, a->a, mkEq(a->b, b));
        }
      }
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == ADD && b->op == ADD && isC(a->b) && a->b == b->b) return mkEq(a->a, b->a);
      if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return mkBin(AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
      break;
    case ULT:
      if (a == b) return mkConst(0, 1);
      if (a->umax < b->umin) return mkConst(1, 1);
      if (a->umin >= b->umax) return mkConst(0, 1);
      if (isC(b, 1)) return mkEq(a, mkConst(0, w));
      if (isC(a, 0)) return mkNot(mkEq(b, a));
      if (isC(b, M)) return mkNot(mkEq(a, b));
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULT, a->a, b->a);
      if (a->op == ZEXT && isC(b) && b->k <= maskw(a->a->w)) return mkBin(ULT, a->a, mkConst(b->k, a->a->w));
      if (b->op == ZEXT && isC(a) && a->k <= maskw(b->a->w)) return mkBin(ULT, mkConst(a->k, b->a->w), b->a);
      break;
    case ULE:
      if (a == b) return mkConst(1, 1);
      if (a->umax <= b->umin) return mkConst(1, 1);
      if (a->umin > b->umax) return mkConst(0, 1);
      if (isC(b) && b->k != M) return mkBin(ULT, a, mkConst(b->k + 1, w));
      if (isC(a) && a->k != 0) return mkBin(ULT, mkConst(a->k - 1, w), b);
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULE, a->a, b->a);
      break;
    case SLT: case SLE: {
      u128 S = (u128)1 << (w - 1);
      if (a == b) return mkConst(op == SLE, 1);
      if (a->umax < S && b->umax < S) return mkBin(op == SLT ? ULT : ULE, a, b);
      if (a->umax < S && b->umin >= S) return mkConst(0, 1);
      if (a->umin >= S && b->umax < S) return mkConst(1, 1);
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
      if (a->op == SEXT && isC(b)) { s128 k = sextk(b->k, w); unsigned aw = a->a->w; s128 mn = -((s128)1 << (aw - 1)), mx = ((s128)1 << (aw - 1)) - 1;
        if (k < mn || (op == SLT && k == mn)) return mkConst(0, 1);
        if (k > mx || (op == SLE && k == mx)) return mkConst(1, 1);
        return mkBin(op, a->a, mkConst((u128)k, aw)); }
      if (b->op == SEXT && isC(a)) { s128 k = sextk(a->k, w); unsigned aw = b->a->w; s128 mn = -((s128)1 << (aw - 1)), mx = ((s128)1 << (aw - 1)) - 1;
        if (k > mx || (op == SLT && k == mx)) return mkConst(0, 1);
        if (k < mn || (op == SLE && k == mn)) return mkConst(1, 1);
        return mkBin(op, mkConst((u128)k, aw), b->a); }
      // sign tests
      if (op == SLT && isC(b, 0)) return mkExtract(a, w - 1, 1);
      if (op == SLT && isC(a, M)) return mkNot(mkExtract(b, w - 1, 1));
      break;
    }
    default: break;
  }
  return raw(op, rw, a, b, nullptr, 0, 0);
}

Node* mkIte(Node* c, Node* a, Node* b) {
  assert(c->w == 1 && a->w == b->w);
  if (isC(c)) return c->k ? a : b;
  if (a == b) return a;
  if (c->op == XOR && isC(c->b, 1)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a, 1) && isC(b, 0)) return c;
    if (isC(a, 0) && isC(b, 1)) return mkNot(c);
    if (isC(b, 0)) return mkBin(AND, c, a);
    if (isC(a, 1)) return mkBin(OR, c, b);
    if (isC(a, 0)) return mkBin(AND, mkNot(c), b);
    if (isC(b, 1)) return mkBin(OR, mkNot(c), a);
  }
  if (a->op == ITE && a->a == c) a = a->b;
  if (b->op == ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return raw(ITE, a->w, c, a, b, 0, 0);
}

Node* mkConcat(Node* hi, Node* lo) {
  unsigned w = hi->w + lo->w;
  if (w <= 128) {
    if (isC(hi) && isC(lo)) return mkConst((hi->k << lo->w) | lo->k, w);
    if (isC(hi, 0)) return mkZExt(lo, w);
  }
  if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->op == ZEXT && w <= 128) return mkZExt(mkConcat(hi->a, lo), w);
  auto adj = [](Node* h, Node* l) -> Node* {
    Node* src; unsigned ll;
    if (h->op != EXTRACT) return nullptr;
    src = h->a;
    if (l->op == EXTRACT && l->a == src) ll = l->aux;
    else if (l == src) return nullptr;
    else return nullptr;
    if (h->aux == ll + l->w) return mkExtract(src, ll, h->w + l->w);
    return nullptr;
  };
  if (Node* m = adj(hi, lo)) return m;
  if (lo->op == CONCAT) { if (Node* m = adj(hi, lo->a)) return mkConcat(m, lo->b);
    if (isC(hi) && isC(lo->a) && hi->w + lo->a->w <= 128) return mkConcat(mkConcat(hi, lo->a), lo->b); }
  if (w <= 128) {
    if (hi->op == ITE && lo->op == ITE && hi->a == lo->a && isC(hi->b) && isC(hi->c) && isC(lo->b) && isC(lo->c))
      return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->op == ITE && isC(lo) && isC(hi->b) && isC(hi->c)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
    if (isC(hi) && lo->op == ITE && isC(lo->b) && isC(lo->c)) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  }
  return raw(CONCAT, w, hi, lo, nullptr, 0, 0);
}

Node* mkExtract(Node* a, unsigned low, unsigned w) {
  assert(low + w <= a->w && w > 0);
  if (w == a->w) return a;
  switch (a->op) {
    case CONST: return mkConst(a->k >> low, w);
    case EXTRACT: return mkExtract(a->a, a->aux + low, w);
    case CONCAT:
      if (low + w <= a->b->w) return mkExtract(a->b, low, w);
      if (low >= a->b->w) return mkExtract(a->a, low - a->b->w, w);
      return mkConcat(mkExtract(a->a, 0, low + w - a->b->w), mkExtract(a->b, low, a->b->w - low));
    case ZEXT:
      if (low >= a->a->w) return mkConst(0, w);
      if (low + w <= a->a->w) return mkExtract(a->a, low, w);
      return mkZExt(mkExtract(a->a, low, a->a->w - low), w);
    case SEXT:
      if (low + w <= a->a->w) return mkExtract(a->a, low, w);
      if (low < a->a->w) return mkSExt(mkExtract(a->a, low, a->a->w - low), w);
      return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case XOR: if (a->w >= 64) break;  // see mkBin
    case AND: case OR: return mkBin(a->op, mkExtract(a->a, low, w), mkExtract(a->b, low, w));
    case ADD: case SUB: case MUL:
      if (a->op == ADD && a->w >= 64 && !isC(a->b) && a->a->op != ZEXT && a->a->op != SEXT && a->b->op != ZEXT && a->b->op != SEXT) break;
      if (low == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    case ITE: return mkIte(a->a, mkExtract(a->b, low, w), mkExtract(a->c, low, w));
    default: break;
  }
  if (a->w <= 128 && (a->umax >> low) == 0) return mkConst(0, w);
  return raw(EXTRACT, w, a, nullptr, nullptr, low, 0);
}
Node* mkZExt(Node* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->k, w);
  if (a->op == ZEXT) return mkZExt(a->a, w);
  if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return raw(ZEXT, w, a, nullptr, nullptr, 0, 0);
}
Node* mkSExt(Node* a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u128)sextk(a->k, a->w), w);
  if (a->op == SEXT) return mkSExt(a->a, w);
  if (a->w > 1 && a->umax < ((u128)1 << (a->w - 1))) return mkZExt(a, w);
  if (a->op == ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  if (a->w == 1) return mkIte(a, mkConst(maskw(w), w), mkConst(0, w));
  return raw(SEXT, w, a, nullptr, nullptr, 0, 0);
}

// ---- floating point (IEEE single/double; x87 not supported) ----
static double toD(u128 v, unsigned w) {
  if (w == 32) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
  uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d;
}
static u128 fromD(double d, unsigned w) {
  if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
  uint64_t x; memcpy(&x, &d, 8); return x;
}
u128 foldFp(Op op, unsigned w, unsigned aw, u128 a, u128 b, unsigned aux) {
  switch (op) {
    case FADD: case FSUB: case FMUL: case FDIV: case FREM: {
      if (aw == 32) {
        float x = (float)toD(a, 32), y = (float)toD(b, 32), r = op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : op == FDIV ? x / y : std::fmod(x, y);
        return fromD(r, 32);
      }
      double x = toD(a, 64), y = toD(b, 64), r = op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : op == FDIV ? x / y : std::fmod(x, y);
      return fromD(r, 64);
    }
    case FNEG: return a ^ ((u128)1 << (aw - 1));
    case FCMP: {
      double x = toD(a, aw), y = toD(b, aw);
      bool un = std::isnan(x) || std::isnan(y);
      bool r = false;
      if (aux & 1) r |= !un && x == y;
      if (aux & 2) r |= !un && x > y;
      if (aux & 4) r |= !un && x < y;
      if (aux & 8) r |= un;
      return r;
    }
    case FPEXT: case FPTRUNC: return fromD(toD(a, aw), w);
    case FPTOUI: { double d = toD(a, aw); return w <= 64 ? (u128)(uint64_t)d & maskw(w) : (u128)d; }
    case FPTOSI: { double d = toD(a, aw); return (u128)(s128)(int64_t)d & maskw(w); }
    case UITOFP: return w == 32 ? fromD((float)(uint64_t)a, 32) : fromD((double)(uint64_t)a, 64);
    case SITOFP: return w == 32 ? fromD((float)(int64_t)sextk(a, aw), 32) : fromD((double)(int64_t)sextk(a, aw), 64);
    default: abort();
  }
}
Node* mkFp(Op op, unsigned w, Node* a, Node* b, unsigned aux) {
  if (isC(a) && (!b || isC(b))) return mkConst(foldFp(op, w, a->w, a->k, b ? b->k : 0, aux), w);
  if (op == FNEG) return mkBin(XOR, a, mkConst((u128)1 << (w - 1), w));
  return raw(op, w, a, b, nullptr, aux, 0);
}

u128 evalNode(Node* n, const Model& m) {
  if (n->op == CONST) return n->k;
  if (n->epoch == X.epoch) return n->ev;
  u128 r = 0;
  switch (n->op) {
    case VAR: r = n->aux < m.size() ? m[n->aux] & maskw(n->w) : 0; break;
    case ITE: r = evalNode(n->a, m) ? evalNode(n->b, m) : evalNode(n->c, m); break;
    case CONCAT: r = n->w <= 128 ? (evalNode(n->a, m) << n->b->w) | evalNode(n->b, m) : 0; break;
    case EXTRACT:
      if (n->a->w > 128) { fprintf(stderr, "engine: eval of wide expression\n"); abort(); }
      r = (evalNode(n->a, m) >> n->aux) & maskw(n->w); break;
    case ZEXT: r = evalNode(n->a, m); break;
    case SEXT: r = (u128)sextk(evalNode(n->a, m), n->a->w) & maskw(n->w); break;
    default:
      if (n->op >= FADD) r = foldFp(n->op, n->w, n->a->w, evalNode(n->a, m), n->b ? evalNode(n->b, m) : 0, n->aux);
      else r = foldBin(n->op, n->a->w, evalNode(n->a, m), evalNode(n->b, m));
  }
  n->epoch = X.epoch; n->ev = r;
  return r;
}

std::string nodeStr(Node* n, int d) {
  static const char* nm[] = {"c", "v", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "=", "<u", "<=u", "<s", "<=s", "ite", "cat", "ext", "zext", "sext", "f+", "f-", "f*", "f/", "f%", "fneg", "fcmp", "fpext", "fptrunc", "fptoui", "fptosi", "uitofp", "sitofp"};
  if (n->op == CONST) return std::to_string((unsigned long long)n->k);
  if (n->op == VAR) return X.vars[n->aux].name + "#" + std::to_string(n->aux);
  if (d == 0) return "..";
  std::string s = std::string("(") + nm[n->op];
  if (n->op == EXTRACT) s += "[" + std::to_string(n->aux + n->w - 1) + ":" + std::to_string(n->aux) + "]";
  for (Node* x : {n->a, n->b, n->c}) if (x) s += " " + nodeStr(x, d - 1);
  return s + ")";
}
