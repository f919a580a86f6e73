// SMT back end: incremental z3 over bit-vectors, with external fallbacks for hard queries.
#pragma once
#include "expr.h"
#include <string>
#include <vector>
enum SatRes { R_SAT, R_UNSAT, R_UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, fallback = 0, nlExact = 0, intUnknown = 0, bvq = 0, badmodel = 0; double seconds = 0, maxq = 0; };
extern SolverStats g_stats;
struct SolverOpts { unsigned timeout_ms = 10000; unsigned fallback_s = 30; std::string mode = "def"; std::string tmp = "/tmp"; };
extern SolverOpts g_sopts;
void solverInit();
// satisfiability of pc /\ extra (extra may be null); fills model on SAT
SatRes solverCheck(const std::vector<E>& pc, E extra, ModelP* out);
std::string toSmt2(const std::vector<E>& pc, E extra, bool ints = false);
