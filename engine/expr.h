// Hash-consed bit-vector expression DAG with eager simplification.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  FADD, FSUB, FMUL, FDIV, FREM, FNEG, FCMP, FPEXT, FPTRUNC, FPTOUI, FPTOSI, UITOFP, SITOFP
};

typedef std::vector<uint32_t> VarSet;

struct Node {
  Op op;
  uint16_t w;
  uint32_t id;
  uint32_t aux;        // EXTRACT: low bit; VAR: var index; FCMP: predicate
  uint32_t epoch = 0;  // evaluation memo
  Node *a, *b, *c;
  u128 k;
  u128 umin, umax;
  u128 ev = 0;
  const VarSet* vars;
  void* z = nullptr;
};

struct VarInfo {
  std::string name;
  unsigned w;
  Node* node;
};

struct ExprCtx {
  std::vector<VarInfo> vars;
  uint32_t nextId = 1;
  uint32_t epoch = 1;
  struct Key {
    Op op; uint16_t w; uint32_t aux; Node *a, *b, *c; u128 k;
    bool operator==(const Key& o) const {
      return op == o.op && w == o.w && aux == o.aux && a == o.a && b == o.b && c == o.c && k == o.k;
    }
  };
  struct KH {
    size_t operator()(const Key& k) const {
      uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w;
      auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
      mix(k.aux); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c); mix((uint64_t)k.k); mix((uint64_t)(k.k >> 64));
      return h;
    }
  };
  std::unordered_map<Key, Node*, KH> tab;
  VarSet emptySet;
  struct VSH { size_t operator()(const VarSet* v) const { size_t h = v->size(); for (auto x : *v) h = h * 1000003 + x; return h; } };
  struct VSE { bool operator()(const VarSet* a, const VarSet* b) const { return *a == *b; } };
  std::unordered_set<const VarSet*, VSH, VSE> sets;
  const VarSet* intern(const VarSet& s) {
    auto it = sets.find(&s);
    if (it != sets.end()) return *it;
    auto* n = new VarSet(s);
    sets.insert(n);
    return n;
  }
  const VarSet* uni(const VarSet* x, const VarSet* y) {
    if (x == y || y->empty()) return x;
    if (x->empty()) return y;
    VarSet r;
    r.reserve(x->size() + y->size());
    std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
    if (r.size() == x->size()) return x;
    if (r.size() == y->size()) return y;
    return intern(r);
  }
};
extern ExprCtx X;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sextk(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 s = (u128)1 << (w - 1);
  return (s128)((v ^ s) - s);
}
inline bool isC(Node* n) { return n->op == CONST; }
inline bool isC(Node* n, u128 k) { return n->op == CONST && n->k == k; }

Node* mkConst(u128 k, unsigned w);
Node* mkVar(const std::string& name, unsigned w);
Node* mkBin(Op op, Node* a, Node* b);
Node* mkIte(Node* c, Node* a, Node* b);
Node* mkConcat(Node* hi, Node* lo);
Node* mkExtract(Node* a, unsigned low, unsigned w);
Node* mkZExt(Node* a, unsigned w);
Node* mkSExt(Node* a, unsigned w);
Node* mkFp(Op op, unsigned w, Node* a, Node* b, unsigned aux);
inline Node* mkNot(Node* a) { return mkBin(XOR, a, mkConst(1, 1)); }
inline Node* mkEq(Node* a, Node* b) { return mkBin(EQ, a, b); }
u128 foldFp(Op op, unsigned w, unsigned aw, u128 a, u128 b, unsigned aux);

typedef std::vector<uint64_t> Model;  // var index -> value (missing = 0)
u128 evalNode(Node* n, const Model& m);  // caller bumps X.epoch when the model changes
std::string nodeStr(Node* n, int depth = 6);
