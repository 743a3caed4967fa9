#pragma once
#include "expr.h"
#include <z3.h>
#include <memory>

enum class Sat { sat, unsat, unknown };

struct Solver {
  Z3_context ctx;
  uint64_t queries = 0, cacheHits = 0, satN = 0, unsatN = 0, unknownN = 0, guessed = 0;
  double seconds = 0, maxQuery = 0;
  unsigned timeoutMs = 20000, portfolioMs = 60000;
  uint64_t portfolioN = 0;
  std::string tmpPrefix = "/tmp/symex";
  Solver();
  Z3_ast lower(Node* n);
  // Is (pc /\ extra) satisfiable?  On sat, 'out' receives base overwritten with the solver's values for the
  // variables of the relevant slice (pc must be satisfied by base for the result to be a model of everything).
  Sat check(const std::vector<Node*>& pc, Node* extra, const Model& base, Model* out);

 private:
  struct Entry { Sat r; std::vector<std::pair<uint32_t, uint64_t>> model; };
  std::unordered_map<std::string, Entry> cache;
  Sat portfolio(const std::string& smt, const VarSet& vs, std::vector<std::pair<uint32_t, uint64_t>>& model);
  bool hasFp(Node* n), hasDiv(Node* n), hasWide(Node* n);
  std::unordered_map<Node*, bool> fpMemo, divMemo, wideMemo;
};
double nowS();
