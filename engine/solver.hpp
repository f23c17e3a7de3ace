// SMT back end (z3) with independence slicing, an exact byte-domain fast path for path feasibility, and query caching.
#pragma once
#include "expr.hpp"
#include <string>
#include <vector>
struct _Z3_context;
struct _Z3_ast;
struct _Z3_solver;
namespace sx {
struct SolverStats {
    u64    queries = 0, z3Queries = 0, domainQueries = 0, cacheHits = 0, modelHits = 0, unknown = 0;
    double z3Time = 0;
    u64    assertQueries = 0, assertUnsat = 0;
};
extern SolverStats gSS;
enum class Res { Sat, Unsat, Unknown };
// Is (all of pc) and cond satisfiable?  On Sat, model is a full assignment (updated copy of hint).
// pc must be satisfied by 'hint'.
// forceZ3: do not use the fast path (used for deciding assertions).
Res      checkSat(const std::vector<Expr *> &pc, Expr *cond, const Assign &hint, Assign &model, bool forceZ3 = false);
void     solverInit();
void     solverAfterFork();
_Z3_ast *toZ3(Expr *e);
_Z3_ast *toZ3B(Expr *e);
_Z3_context *z3ctx();
extern double (*gDeadline)();
extern unsigned gRlimit;
} // namespace sx
