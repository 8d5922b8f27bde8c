#pragma once
#include "expr.h"
#include <unordered_map>

enum class Sat { Unsat, Sat, Unknown };

struct SolverStats {
  uint64_t queries = 0;      // queries sent to Z3
  uint64_t cacheHits = 0;    // answered from the query cache
  uint64_t modelHits = 0;    // answered by evaluating a known model
  uint64_t unsat = 0, sat = 0, unknown = 0, modelMismatch = 0;
  uint64_t guessed = 0;
  uint64_t domain = 0;       // decided by the exact truth table of one byte
  double time = 0;
  double maxTime = 0;
};

class Solver {
 public:
  Solver();
  // Is (constraints && cond) satisfiable?  On Sat, `model` (a model of
  // constraints on entry) is updated to a model of the conjunction.
  Sat check(const std::vector<Expr*>& constraints, Expr* cond, Model& model);
  SolverStats stats;
  unsigned timeoutMs = 60000;
  std::string dumpDir;

 private:
  Sat z3check(const std::vector<Expr*>& set, Model& out);
  void confirm(const std::vector<Expr*>& set);
  uint64_t excluded = 0;
  bool guess(const std::vector<Expr*>& set, Model& out);
  void* bv(Expr* e);
  void* bl(Expr* e);
  void* fp(Expr* e);
  void* ctx;
  struct Entry { Sat r; std::vector<std::pair<uint32_t, uint8_t>> m; };
  std::unordered_map<std::string, Entry> cache;
};
