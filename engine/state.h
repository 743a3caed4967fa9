#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>

// A value in a register: concrete (n == nullptr, width <= 64) or symbolic/wide node.
struct V {
  Node* n = nullptr;
  uint64_t c = 0;
  V() {}
  V(uint64_t k) : c(k) {}
  explicit V(Node* x) { if (x->op == CONST && x->w <= 64) c = (uint64_t)x->k; else n = x; }
  bool conc() const { return !n; }
};
inline Node* nodeOf(const V& v, unsigned w) { return v.n ? v.n : mkConst(v.c, w); }

enum class OK : uint8_t { Global, Stack, Heap, Func, Exc };

struct Obj {
  int rc = 0;
  uint32_t size = 0;
  OK kind = OK::Heap;
  bool ro = false, alive = true;
  uint8_t* data = nullptr;
  Node** sym = nullptr;  // per byte; nullptr = concrete; UNINIT = never written
  const void* tag = nullptr;  // function / global / allocation site
  Obj(uint32_t s) : size(s) { data = (uint8_t*)calloc(s ? s : 1, 1); }
  Obj(const Obj& o) : size(o.size), kind(o.kind), ro(o.ro), alive(o.alive), tag(o.tag) {
    data = (uint8_t*)malloc(size ? size : 1);
    memcpy(data, o.data, size);
    if (o.sym) { sym = (Node**)malloc(sizeof(Node*) * (size ? size : 1)); memcpy(sym, o.sym, sizeof(Node*) * size); }
  }
  ~Obj() { free(data); free(sym); }
  void needSym() { if (!sym) sym = (Node**)calloc(size ? size : 1, sizeof(Node*)); }
};
extern Node* const UNINIT;

struct Chunk {
  int rc = 0;
  Obj* o[256];
  Chunk() { memset(o, 0, sizeof o); }
  Chunk(const Chunk& c) { memcpy(o, c.o, sizeof o); for (auto* x : o) if (x) ++x->rc; }
  ~Chunk() { for (auto* x : o) if (x && --x->rc == 0) delete x; }
};

struct Mem {
  std::vector<Chunk*> ch;
  uint32_t next = 1;
  Mem() {}
  Mem(const Mem& m) : ch(m.ch), next(m.next) { for (auto* c : ch) ++c->rc; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto* c : ch) if (--c->rc == 0) delete c; }
  uint32_t add(Obj* o) {
    uint32_t id = next++;
    while (ch.size() <= id / 256) { ch.push_back(new Chunk()); ch.back()->rc = 1; }
    set(id, o);
    return id;
  }
  Chunk* wchunk(uint32_t id) {
    Chunk*& c = ch[id / 256];
    if (c->rc > 1) { Chunk* n = new Chunk(*c); --c->rc; n->rc = 1; c = n; }
    return c;
  }
  void set(uint32_t id, Obj* o) {
    Chunk* c = wchunk(id);
    ++o->rc;
    if (c->o[id % 256] && --c->o[id % 256]->rc == 0) delete c->o[id % 256];
    c->o[id % 256] = o;
  }
  void drop(uint32_t id) {
    Chunk* c = wchunk(id);
    if (c->o[id % 256]) { if (--c->o[id % 256]->rc == 0) delete c->o[id % 256]; c->o[id % 256] = nullptr; }
  }
  Obj* get(uint64_t id) const { return id / 256 < ch.size() ? ch[id / 256]->o[id % 256] : nullptr; }
  Obj* getw(uint32_t id) {
    Chunk* c = wchunk(id);
    Obj*& o = c->o[id % 256];
    if (o->rc > 1) { Obj* n = new Obj(*o); --o->rc; n->rc = 1; o = n; }
    return o;
  }
};
static const unsigned SLOT = 24;

struct Operand { int reg; V c; };  // reg < 0: constant
struct Edge { uint32_t target; std::vector<std::pair<int, Operand>> moves; };

enum IK : uint8_t {
  I_RET, I_BR, I_CBR, I_SWITCH, I_CALL, I_INVOKE, I_RESUME, I_UNREACH, I_BIN, I_FPBIN, I_FNEG, I_ALLOCA, I_LOAD, I_STORE, I_GEP,
  I_FENCE, I_CMPXCHG, I_RMW, I_TRUNC, I_ZEXT, I_SEXT, I_FPCAST, I_MOVE, I_ICMP, I_FCMP, I_SELECT, I_LPAD, I_BAD
};
struct DFunc;
struct Cell { unsigned w; uint64_t off; unsigned bytes; };
struct DInst {
  IK k;
  int dst = -1;
  unsigned w = 0, w2 = 0;
  unsigned lanes = 1;
  int op = 0;
  std::vector<Operand> ops;
  std::vector<Cell> cells;                 // memory layout of the loaded/stored value
  std::vector<std::pair<uint64_t, int>> scales;  // GEP: scale, width of index
  uint64_t imm = 0;
  std::vector<Edge> edges;
  std::vector<uint64_t> cases;
  DFunc* callee = nullptr;
  int ext = -1;
  std::vector<unsigned> argw;
  std::vector<int> argoff;                 // operand index of each argument
  const llvm::Instruction* I = nullptr;
};
struct DFunc {
  const llvm::Function* f;
  std::string name;
  unsigned nregs = 0;
  std::vector<int> argreg;
  std::vector<DInst> code;
  bool decoded = false;
  bool inRepo = false;
  uint64_t execs = 0;
};

struct Frame {
  int rc = 1;
  DFunc* f;
  uint32_t pc = 0;
  bool ignoreRet = false;
  std::vector<V> regs;
  std::vector<uint32_t> allocas;
  std::vector<V> varargs;
};

typedef std::vector<uint32_t> VC;

struct Exc { uint64_t ti; uint64_t dtor; int refs; int handlers; bool rethrown; uint64_t adjusted; };

enum class TS : uint8_t { Run, Mutex, Cond, Notified, Join, Done, Futex, Flag, Settle };
struct Thread {
  std::vector<Frame*> st;
  TS status = TS::Run;
  uint64_t wait = 0, wait2 = 0;
  bool timed = false, noYield = false;
  int yields = 0, uncaught = 0;
  uint32_t futexVal = 0;
  VC vc;
  std::vector<uint64_t> caught;   // caught exception stack
  uint64_t inflight = 0;
  int lockDepth = 0;
  Thread() {}
  Thread(const Thread& t) = default;
};
struct Mutex { int owner = -1; int count = 0; VC vc; bool recursive = false; };
struct Access { int tid = -1; uint32_t clk = 0; };
struct Shadow { Access w; std::vector<Access> r; const llvm::Instruction* wi = nullptr; const llvm::Instruction* ri = nullptr; };

struct State {
  Mem mem;
  std::vector<Thread> th;
  int cur = 0;
  std::vector<Node*> pc;
  Model model;
  std::vector<std::pair<std::string, Node*>> inputs;  // in creation order
  std::map<std::string, int> nameCount;
  int uninitCount = 0;
  std::map<uint64_t, Exc> excs;
  std::vector<std::pair<std::string, V>> trace;  // width 64
  std::map<uint64_t, Mutex> mutexes;
  std::map<uint64_t, VC> atomics;
  std::map<uint64_t, Shadow> shadow;
  std::map<std::pair<int, uint64_t>, uint64_t> tls;
  std::map<uint64_t, std::string> watch;
  uint64_t insts = 0;
  int preempts = 0;
  int spurious = 0, timeouts = 0;
  int schedN = 0;
  uint64_t depth = 0;
  std::vector<std::string> reached;
  bool flagged = false;
  uint64_t failNew = 0, allocs = 0;
  State() {}
  State(const State& s)
      : mem(s.mem), th(s.th), cur(s.cur), pc(s.pc), model(s.model), inputs(s.inputs), nameCount(s.nameCount), uninitCount(s.uninitCount), excs(s.excs),
        trace(s.trace), mutexes(s.mutexes), atomics(s.atomics), shadow(s.shadow), tls(s.tls), watch(s.watch), insts(s.insts), preempts(s.preempts), spurious(s.spurious), timeouts(s.timeouts),
        schedN(s.schedN), depth(s.depth + 1), reached(s.reached), flagged(s.flagged), failNew(s.failNew), allocs(s.allocs) {
    for (auto& t : th) for (auto* f : t.st) ++f->rc;
  }
  ~State() { for (auto& t : th) for (auto* f : t.st) if (--f->rc == 0) delete f; }
};
