#pragma once
#include "expr.h"
#include <chrono>
#include <set>
#include <unordered_map>

enum class Sat
{
    Unsat,
    Sat,
    Unknown
};

struct SolverStats
{
    uint64_t queries = 0;   // questions asked by the executor
    uint64_t z3calls = 0;   // of which reached z3
    uint64_t trivially = 0; // decided by the expression layer (identical terms / interval)
    uint64_t cacheHits = 0;
    uint64_t unknown = 0;
    uint64_t unsat = 0, sat = 0;
    double   time = 0;
    double   maxTime = 0;
};
extern SolverStats sstats;
extern unsigned    solverTimeoutMs;
extern std::chrono::steady_clock::time_point solverDeadline; // unset: none
extern std::string dumpDir; // when set, dump each decided assertion query as SMT-LIB2 for a second solver

// Is (and constraints...) /\ query satisfiable?  On Sat, model holds values for the relevant symbols
// (others copied from base).
Sat checkSat(const std::vector<E>& constraints, E query, const Model* base, Model* model, bool wantModel,
             bool isAssertion = false);
