// SMT back end: independence slicing, query cache, Z3 through its C API.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
bool hasIntE(E e);
struct Solver {
  enum R { SAT, UNSAT, UNK };
  Z3_context c; std::unordered_map<u32, Z3_ast> memo;
  std::unordered_map<u32, E> varExpr; // var id -> leaf
  unsigned timeoutMs = 20000;
  u64 queries = 0, cacheHits = 0, satN = 0, unsatN = 0, unkN = 0; double secs = 0, maxq = 0;
  struct Ent { R r; std::vector<std::pair<u32, u128>> m; };
  std::map<std::vector<u32>, Ent> cache;
  FILE *dump = nullptr; int dumped = 0, dumpMax = 0;
  std::vector<std::vector<u128>> models; size_t mnext = 0; u64 reuse = 0, pick = 0; double ema[2] = {0.01, 0.01}; Z3_solver inc = nullptr; unsigned incGen = 0; std::unordered_map<u32, Z3_ast> ind; std::unordered_set<u32> incVars;
  R incCheck(const std::vector<E> &sl, const std::unordered_set<u32> &vs, std::vector<std::pair<u32, u128>> &out);
  void resetStats() { queries = cacheHits = satN = unsatN = unkN = reuse = 0; secs = maxq = 0; }
  Solver();
  void regVar(E v) { varExpr[(u32)v->hi] = v; }
  // cons: full path condition; q: extra conjunct. Updates model (which satisfies cons) on SAT.
  R check(const std::vector<E> &cons, E q, std::vector<u128> *model);
  Z3_ast tr(E e);
};
