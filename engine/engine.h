#pragma once
#include "solver.h"
#include "state.h"
#include <deque>
#include <functional>
#include <set>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>

struct Violation {
  std::string kind, msg, loc, key;
  std::vector<std::tuple<std::string, unsigned, uint64_t>> inputs;
  std::vector<std::string> stack;
  bool uninit = false;
};
struct Sample {
  std::vector<std::tuple<std::string, unsigned, uint64_t>> inputs;
  std::vector<std::pair<std::string, uint64_t>> trace;
  bool usesUninit = false;
};

struct PathEnd {};   // current path terminated
struct Switch {};    // current thread cannot continue: scheduler decides

struct Opts {
  std::string entry;
  long arg = 0;
  uint64_t maxPaths = 2000000, maxInsts = 20000000;
  double maxTime = 600;
  std::string found;
  int preemptions = 2;
  int spurious = 0, timeouts = 2;
  unsigned samples = 20;
  unsigned seed = 1;
  unsigned maxViolations = 4;
  uint64_t maxRss = 6000;  // MB
  bool races = true;
  bool bfs = false;
};

struct Engine {
  llvm::Module* M;
  const llvm::DataLayout* DL;
  Opts opt;
  Solver solver;
  std::map<const llvm::Function*, DFunc*> funcs;
  std::map<const llvm::GlobalValue*, uint64_t> gaddr;
  std::map<uint64_t, const llvm::GlobalVariable*> gvAt;
  std::map<uint64_t, DFunc*> fnAt;
  std::vector<State*> work;
  State* S = nullptr;   // current
  Mem* initMem = nullptr;

  // statistics
  uint64_t paths = 0, killed = 0, forks = 0, insts = 0, truncated = 0, asserts = 0, assertQueries = 0;
  std::map<std::string, uint64_t> reachedCount;
  std::vector<Violation> violations;
  std::set<std::string> vkeys;
  std::vector<Sample> samples;
  uint64_t sampleSeen = 0;
  std::set<std::string> externMissing;
  std::vector<std::string> incomplete;
  std::map<std::string, uint64_t> forkLoc;
  uint64_t rng;
  double t0;
  double foundAt = 0, lastLook = 0;
  bool late();

  void run();
  void setup();
  DFunc* getFunc(const llvm::Function* f);
  void decode(DFunc* d);
  V evalConst(const llvm::Constant* c);
  void constCells(const llvm::Constant* c, std::vector<V>& out);
  void writeConst(Obj* o, uint64_t off, const llvm::Constant* c);
  void flat(llvm::Type* t, uint64_t off, std::vector<Cell>& out);

  // execution
  void exec(State* s);
  void step();
  Thread& T() { return S->th[S->cur]; }
  Frame& F() {
    Frame*& f = T().st.back();
    if (f->rc > 1) { Frame* n = new Frame(*f); n->rc = 1; --f->rc; f = n; }
    return *f;
  }
  void jump(Edge& e);
  V get(const Operand& o) { return o.reg < 0 ? o.c : T().st.back()->regs[o.reg]; }
  void pushCall(DFunc* d, const std::vector<V>& args, bool ignoreRet);
  void popFrame(int t);
  void doRet(std::vector<V> vals);
  void finishCall(const std::vector<V>& vals);  // write results & advance past call/invoke
  void doCall(DInst& I);
  bool callExt(DInst& I, const std::string& name, std::vector<V>& args);  // returns true when handled incl. advancing
  void throwExc(uint64_t addr);
  bool canCatch(uint64_t catchTi, uint64_t thrownTi, uint64_t obj, uint64_t& adj);
  void destroyExc(uint64_t addr);

  // symbolic helpers
  bool branch(Node* cond);              // decide (and fork)
  void addPc(Node* c);
  void assume(Node* c);
  uint64_t concretize(V v, unsigned w);
  void forkRetry(Node* other, const Model& m);  // other side re-executes the current instruction
  u128 ev(Node* n) { return evalIn(n, S->model); }
  u128 evalIn(Node* n, const Model& m);
  Sat may(Node* c, Model* m) { return solver.check(S->pc, c, S->model, m); }
  [[noreturn]] void fail(const std::string& kind, const std::string& msg);
  void report(const std::string& kind, const std::string& msg, const Model& m);
  [[noreturn]] void endPath();
  void finishPath();
  [[noreturn]] void stop(const std::string& why);  // incomplete path

  // memory
  uint64_t alloc(State* s, uint32_t size, OK kind, bool uninit, const void* tag);
  // resolve a pointer for an access of n bytes; returns object id, offset node/const
  uint32_t resolve(V addr, uint64_t n, V& off, const char* what, bool write);
  V loadBytes(uint32_t id, uint64_t off, unsigned n, unsigned w);
  V load(V addr, unsigned bytes, unsigned w);
  void store(V addr, V val, unsigned bytes, unsigned w);
  void storeBytes(uint32_t id, uint64_t off, V val, unsigned n, unsigned w);
  Node* byteAt(Obj*& o, uint32_t id, uint64_t off);
  void memcpyOp(uint64_t dst, uint64_t src, uint64_t n, bool move);
  void freeMem(V p);
  uint64_t ld64(uint64_t addr) { return concretize(load(V(addr), 8, 64), 64); }
  uint32_t ld32(uint64_t addr) { return concretize(load(V(addr), 4, 32), 32); }
  void st64(uint64_t addr, uint64_t v) { store(V(addr), V(v), 8, 64); }
  void st32(uint64_t addr, uint32_t v) { store(V(addr), V(v), 4, 32); }
  std::string cstr(uint64_t addr, unsigned max = 400);
  Node* symVar(const std::string& name, unsigned w);

  // threads
  void yield(bool blocked, bool away = false);
  bool enabled(int t);
  bool timeoutOk = true;
  void accessRace(uint64_t addr, unsigned n, bool write, bool atomic);
  void vcJoin(VC& a, const VC& b);
  std::string where(const llvm::Instruction* i);
  std::string curWhere();
  std::vector<std::string> stackTrace();
  void json(FILE* f);
};
