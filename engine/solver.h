// SMT back end (Z3): translation of the expression DAG, slicing, model cache, statistics.
#pragma once
#include "expr.h"
enum SRes { SUnsat, SSat, SUnknown };
struct SolverStats {
  u64 queries = 0;    // satisfiability questions asked by the executor that needed more than simplification
  u64 modelHits = 0;  // answered "sat" by a model found earlier
  u64 cacheHits = 0;  // identical question answered earlier
  u64 z3calls = 0, unsat = 0, sat = 0, unknown = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats sstats;
extern unsigned solverTimeoutMs;
extern bool (*solverExpired)(); // true: give up on further queries
typedef std::shared_ptr<Assign> Model;
void solverInit();
SRes solve(const std::vector<E>& conj, Model* m);
SRes solveSliced(const std::vector<E>& pc, E c, Model* m);
bool evalUnder(const Assign& a, E c);
std::string dumpSmt(const std::vector<E>& conj);
