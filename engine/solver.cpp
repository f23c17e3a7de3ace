#include "solver.hpp"
#include <z3.h>
#include <bitset>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <unordered_map>
#include <algorithm>

namespace sx {
SolverStats       gSS;
unsigned          gRlimit = 0;
double (*gDeadline)() = nullptr;
static Z3_context ctx;
static Z3_solver  slv;
static std::vector<Z3_ast> keep;
_Z3_context      *z3ctx() { return ctx; }

static void errh(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}
void solverInit() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg); // non-RC: asts live as long as the context
    Z3_set_error_handler(ctx, errh);
    Z3_del_config(cfg);
    slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, slv);
}
static void newSolver() {
    Z3_solver_dec_ref(ctx, slv);
    slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, slv);
}
void solverAfterFork() {}

static Z3_sort fpSort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx); }
static Z3_ast  asFp(Expr *e) { return Z3_mk_fpa_to_fp_bv(ctx, toZ3(e), fpSort(e->w)); }
static bool    hasFp = false;

static Z3_ast bvConst(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64) v, Z3_mk_bv_sort(ctx, w));
    Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64) (v >> 64), Z3_mk_bv_sort(ctx, w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64) v, Z3_mk_bv_sort(ctx, 64));
    return Z3_mk_concat(ctx, hi, lo);
}
_Z3_ast *toZ3B(Expr *e) {
    if (e->z3b) return (Z3_ast) e->z3b;
    Z3_ast r;
    switch (e->k) {
    case KConst: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case KEq: r = e->a->w == 1 ? Z3_mk_iff(ctx, toZ3B(e->a), toZ3B(e->b)) : Z3_mk_eq(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KUlt: r = Z3_mk_bvult(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KUle: r = Z3_mk_bvule(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KSlt: r = Z3_mk_bvslt(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KSle: r = Z3_mk_bvsle(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KAnd: { Z3_ast x[2] = { toZ3B(e->a), toZ3B(e->b) }; r = Z3_mk_and(ctx, 2, x); break; }
    case KOr: { Z3_ast x[2] = { toZ3B(e->a), toZ3B(e->b) }; r = Z3_mk_or(ctx, 2, x); break; }
    case KXor:
        if (e->b->isConst()) { r = e->b->v ? Z3_mk_not(ctx, toZ3B(e->a)) : toZ3B(e->a); }
        else r = Z3_mk_xor(ctx, toZ3B(e->a), toZ3B(e->b));
        break;
    case KIte: r = Z3_mk_ite(ctx, toZ3B(e->a), toZ3B(e->b), toZ3B(e->c)); break;
    case KFCmp: {
        hasFp = true;
        Z3_ast x = asFp(e->a), y = asFp(e->b), q = nullptr;
        Z3_ast n[2] = { Z3_mk_fpa_is_nan(ctx, x), Z3_mk_fpa_is_nan(ctx, y) };
        Z3_ast un = Z3_mk_or(ctx, 2, n);
        unsigned p = (unsigned) e->v;
        switch (p & 7) {
        case 0: q = Z3_mk_false(ctx); break;
        case 1: q = Z3_mk_fpa_eq(ctx, x, y); break;
        case 2: q = Z3_mk_fpa_gt(ctx, x, y); break;
        case 3: q = Z3_mk_fpa_geq(ctx, x, y); break;
        case 4: q = Z3_mk_fpa_lt(ctx, x, y); break;
        case 5: q = Z3_mk_fpa_leq(ctx, x, y); break;
        case 6: q = Z3_mk_not(ctx, Z3_mk_fpa_eq(ctx, x, y)); break;
        case 7: q = Z3_mk_true(ctx); break;
        }
        if (p & 8) { Z3_ast z[2] = { un, q }; r = Z3_mk_or(ctx, 2, z); }
        else { Z3_ast z[2] = { Z3_mk_not(ctx, un), q }; r = Z3_mk_and(ctx, 2, z); }
        break;
    }
    default: r = Z3_mk_eq(ctx, toZ3(e), bvConst(1, 1)); break;
    }
    e->z3b = r;
    return r;
}
_Z3_ast *toZ3(Expr *e) {
    if (e->z3) return (Z3_ast) e->z3;
    Z3_ast r;
    bool   boolish = e->w == 1 && (e->k == KEq || (e->k >= KUlt && e->k <= KSle) || e->k == KAnd || e->k == KOr || e->k == KXor || e->k == KIte || e->k == KFCmp);
    if (boolish) {
        r = Z3_mk_ite(ctx, toZ3B(e), bvConst(1, 1), bvConst(0, 1));
        e->z3 = r;
        return r;
    }
    auto rm = [] { return Z3_mk_fpa_round_nearest_ties_to_even(ctx); };
    auto rz = [] { return Z3_mk_fpa_round_toward_zero(ctx); };
    switch (e->k) {
    case KConst: r = bvConst(e->v, e->w); break;
    case KVar: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int) e->v), Z3_mk_bv_sort(ctx, e->w)); break;
    case KAdd: r = Z3_mk_bvadd(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KSub: r = Z3_mk_bvsub(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KMul: r = Z3_mk_bvmul(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KUDiv: r = Z3_mk_bvudiv(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KSDiv: r = Z3_mk_bvsdiv(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KURem: r = Z3_mk_bvurem(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KSRem: r = Z3_mk_bvsrem(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KAnd: r = Z3_mk_bvand(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KOr: r = Z3_mk_bvor(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KXor: r = Z3_mk_bvxor(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KShl: r = Z3_mk_bvshl(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KLShr: r = Z3_mk_bvlshr(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KAShr: r = Z3_mk_bvashr(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KIte: r = Z3_mk_ite(ctx, toZ3B(e->a), toZ3(e->b), toZ3(e->c)); break;
    case KZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toZ3(e->a)); break;
    case KSExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toZ3(e->a)); break;
    case KExtract: r = Z3_mk_extract(ctx, (unsigned) e->v + e->w - 1, (unsigned) e->v, toZ3(e->a)); break;
    case KConcat: r = Z3_mk_concat(ctx, toZ3(e->a), toZ3(e->b)); break;
    case KFAdd: hasFp = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rm(), asFp(e->a), asFp(e->b))); break;
    case KFSub: hasFp = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rm(), asFp(e->a), asFp(e->b))); break;
    case KFMul: hasFp = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rm(), asFp(e->a), asFp(e->b))); break;
    case KFDiv: hasFp = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rm(), asFp(e->a), asFp(e->b))); break;
    case KFRem: hasFp = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_rem(ctx, asFp(e->a), asFp(e->b))); break;
    case KFExt: case KFTrunc: hasFp = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rm(), asFp(e->a), fpSort(e->w))); break;
    case KFToSI: hasFp = true; r = Z3_mk_fpa_to_sbv(ctx, rz(), asFp(e->a), e->w); break;
    case KFToUI: hasFp = true; r = Z3_mk_fpa_to_ubv(ctx, rz(), asFp(e->a), e->w); break;
    case KSIToF: hasFp = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rm(), toZ3(e->a), fpSort(e->w))); break;
    case KUIToF: hasFp = true; r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rm(), toZ3(e->a), fpSort(e->w))); break;
    default: fprintf(stderr, "toZ3: kind %d w %d\n", e->k, e->w); abort();
    }
    e->z3 = r;
    return r;
}

// ---- byte domains: exact set of satisfying values of a constraint over one variable of width<=8
using Dom = std::bitset<256>;
static std::unordered_map<Expr *, Dom> gDom;
static const Dom &domOf(Expr *e) {
    auto it = gDom.find(e);
    if (it != gDom.end()) return it->second;
    uint32_t      var = e->vs->v[0];
    static Assign tmp;
    if (tmp.size() <= var) tmp.resize(gVars.size() + 1, 0);
    unsigned n = 1u << gVars[var].w;
    Dom      d;
    for (unsigned i = 0; i < n; i++) { tmp[var] = i; d[i] = evalExpr(e, tmp) != 0; }
    tmp[var] = 0;
    return gDom[e] = d;
}

// Exact decision for and/or trees over single-byte atoms by splitting; gives up (-1) on anything else or when the budget runs out.
struct Lit { Expr *e; bool neg; };
static int splitSat(std::vector<Lit> todo, std::unordered_map<uint32_t, Dom> &dom, int &budget) {
    std::vector<Lit> ors;
    while (!todo.empty()) {
        if (--budget < 0) return -1;
        Lit l = todo.back(); todo.pop_back();
        Expr *e = l.e;
        if (e->isConst()) { if ((e->v != 0) == l.neg) return 0; continue; }
        if (e->w != 1) return -1;
        if (e->vs->v.size() == 1) {
            uint32_t v = e->vs->v[0];
            if (gVars[v].w > 8) return -1;
            auto it = dom.find(v);
            Dom  d  = domOf(e);
            if (l.neg) d = ~d;
            if (gVars[v].w < 8) for (unsigned i = 1u << gVars[v].w; i < 256; i++) d[i] = false;
            if (it == dom.end()) it = dom.emplace(v, d).first; else it->second &= d;
            if (it->second.none()) return 0;
            continue;
        }
        if (e->k == KXor && e->b->isConst()) { todo.push_back({ e->a, e->b->v ? !l.neg : l.neg }); continue; }
        if (e->k == (l.neg ? KOr : KAnd)) { todo.push_back({ e->a, l.neg }); todo.push_back({ e->b, l.neg }); continue; }
        if (e->k == (l.neg ? KAnd : KOr) || e->k == KIte) { ors.push_back(l); continue; }
        return -1;
    }
    if (ors.empty()) return 1;
    Lit o = ors.back(); ors.pop_back();
    for (int side = 0; side < 2; side++) {
        auto d2 = dom;
        auto t  = ors;
        if (o.e->k == KIte) { t.push_back({ o.e->a, side != 0 }); t.push_back({ side ? o.e->c : o.e->b, o.neg }); }
        else t.push_back({ side ? o.e->b : o.e->a, o.neg });
        int r = splitSat(t, d2, budget);
        if (r < 0) return -1;
        if (r == 1) { dom = d2; return 1; }
    }
    return 0;
}
// ---- rewriting under the byte domains the path condition implies (sound: equivalences under the other constraints of the query)
static Expr *rebuildE(Expr *e, Expr *a, Expr *b) {
    switch (e->k) {
    case KZExt: return mkZExt(a, e->w);
    case KSExt: return mkSExt(a, e->w);
    case KExtract: return mkExtract(a, (unsigned) e->v, e->w);
    case KConcat: return mkConcat(a, b);
    default: return mkBin(e->k, a, b);
    }
}
struct DomSimp {
    std::unordered_map<uint32_t, Dom>                  dom;
    std::unordered_map<Expr *, Expr *>                 memo;
    std::unordered_map<Expr *, std::pair<u128, u128>>  rmemo;
    int                                                budget = 20000;
    static const u128                                  CAP = (u128) 1 << 126;
    bool byteVar(Expr *e, uint32_t &v) { if (e->vs->v.size() != 1) return false; v = e->vs->v[0]; return gVars[v].w <= 8 && dom.count(v); }
    // unsigned range of e under the domains
    std::pair<u128, u128> range(Expr *e) {
        u128 full = maskW(e->w);
        if (e->isConst()) return { e->v, e->v };
        if (e->w > 64 || --budget < 0) return { 0, full };
        auto it = rmemo.find(e);
        if (it != rmemo.end()) return it->second;
        std::pair<u128, u128> r{ 0, full };
        uint32_t v;
        if (byteVar(e, v)) {
            static Assign tmp;
            if (tmp.size() <= v) tmp.resize(gVars.size() + 1, 0);
            u128 lo = full, hi = 0;
            const Dom &d = dom[v];
            for (unsigned i = 0; i < 256; i++) if (d[i]) { tmp[v] = i; u128 x = evalExpr(e, tmp); lo = std::min(lo, x); hi = std::max(hi, x); }
            tmp[v] = 0;
            if (lo <= hi) r = { lo, hi };
        } else switch (e->k) {
            case KZExt: r = range(e->a); break;
            case KIte: { auto x = range(e->b), y = range(e->c); r = { std::min(x.first, y.first), std::max(x.second, y.second) }; break; }
            case KAdd: { auto x = range(e->a), y = range(e->b); if (x.second + y.second <= full) r = { x.first + y.first, x.second + y.second }; else if (x.first + y.first > full) r = { (x.first + y.first) & full, (x.second + y.second) & full }; break; }
            case KSub: { auto x = range(e->a), y = range(e->b); if (x.first >= y.second) r = { x.first - y.second, x.second - y.first }; break; }
            case KMul: { auto x = range(e->a), y = range(e->b); if (x.second < ((u128) 1 << 60) && y.second < ((u128) 1 << 60) && x.second * y.second <= full) r = { x.first * y.first, x.second * y.second }; break; }
            case KAnd: { auto x = range(e->a), y = range(e->b); r = { 0, std::min(x.second, y.second) }; break; }
            case KUDiv: if (e->b->isConst() && e->b->v) { auto x = range(e->a); r = { x.first / e->b->v, x.second / e->b->v }; } break;
            case KURem: if (e->b->isConst() && e->b->v) { auto x = range(e->a); if (x.second < e->b->v) r = x; else r = { 0, e->b->v - 1 }; } break;
            case KLShr: if (e->b->isConst() && e->b->v < e->w) { auto x = range(e->a); r = { x.first >> (unsigned) e->b->v, x.second >> (unsigned) e->b->v }; } break;
            case KShl: if (e->b->isConst() && e->b->v < 60) { auto x = range(e->a); if ((x.second << (unsigned) e->b->v) <= full) r = { x.first << (unsigned) e->b->v, x.second << (unsigned) e->b->v }; } break;
            case KConcat: { auto x = range(e->a), y = range(e->b); r = { (x.first << e->b->w) + y.first, (x.second << e->b->w) + y.second }; break; }
            case KExtract: { auto x = range(e->a); u128 l = x.first >> (unsigned) e->v, h = x.second >> (unsigned) e->v; if (h <= full) r = { l, h }; break; }
            case KSExt: { auto x = range(e->a); if (x.second < ((u128) 1 << (e->a->w - 1))) r = x; break; }
            default: break;
        }
        return rmemo[e] = r;
    }
    Expr *go(Expr *e) {
        if (e->isConst() || e->k == KVar || e->k >= KFAdd) return e;
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        if (--budget < 0) return e;
        Expr *r = e;
        uint32_t v;
        if (e->w == 1 && byteVar(e, v)) {
            const Dom &d = dom[v], &t = domOf(e);
            if ((d & ~t).none()) r = mkConst(1, 1);
            else if ((d & t).none()) r = mkConst(0, 1);
            return memo[e] = r;
        }
        if (e->k == KIte) {
            Expr *c = go(e->a);
            if (c->isConst()) r = go(c->v ? e->b : e->c);
            else { Expr *x = go(e->b), *y = go(e->c); if (c != e->a || x != e->b || y != e->c) r = mkIte(c, x, y); }
        } else {
            Expr *a = go(e->a), *b = e->b ? go(e->b) : nullptr;
            if (a != e->a || b != e->b) r = rebuildE(e, a, b);
        }
        if (r->k == KUlt || r->k == KUle || r->k == KEq || r->k == KSlt || r->k == KSle) {
            auto x = range(r->a), y = range(r->b);
            u128 half = (u128) 1 << (r->a->w - 1);
            bool pos  = x.second < half && y.second < half; // both non-negative
            if (r->k == KUlt || (r->k == KSlt && pos)) { if (x.second < y.first) r = mkConst(1, 1); else if (x.first >= y.second) r = mkConst(0, 1); }
            else if (r->k == KUle || (r->k == KSle && pos)) { if (x.second <= y.first) r = mkConst(1, 1); else if (x.first > y.second) r = mkConst(0, 1); }
            else if (r->k == KEq) { if (x.second < y.first || y.second < x.first) r = mkConst(0, 1); }
            else if (r->k == KSlt || r->k == KSle) { // one side negative, the other not
                if (x.second < half && y.first >= half) r = mkConst(0, 1);
                else if (x.first >= half && y.second < half) r = mkConst(1, 1);
            }
        } else if (r->k == KExtract && r->a->w <= 64) {
            auto x = range(r->a);
            if ((x.second >> (unsigned) r->v) == 0) r = mkConst(0, r->w);
        }
        return memo[e] = r;
    }
};
struct CacheEnt { bool sat; std::vector<std::pair<uint32_t, u128>> model; };
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { u64 h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> gCache;
static std::deque<Assign> gRecent;

Res checkSat(const std::vector<Expr *> &pc, Expr *cond, const Assign &hint, Assign &model, bool forceZ3) {
    gSS.queries++;
    if (cond->isConst()) {
        if (cond->v) { model = hint; return Res::Sat; }
        return Res::Unsat;
    }
    // independence slice
    static std::vector<uint8_t> inVars; 
    std::vector<uint32_t> work(cond->vs->v);
    if (inVars.size() < gVars.size()) inVars.resize(gVars.size(), 0);
    for (auto v : work) inVars[v] = 1;
    std::vector<Expr *> rel;
    std::vector<char>   used(pc.size(), 0);
    bool                changed = true;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < pc.size(); i++) {
            if (used[i]) continue;
            bool hit = false;
            for (auto v : pc[i]->vs->v) if (inVars[v]) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            rel.push_back(pc[i]);
            for (auto v : pc[i]->vs->v) if (!inVars[v]) { inVars[v] = 1; work.push_back(v); changed = true; }
        }
    }
    for (auto v : work) inVars[v] = 0;
    // fast path: everything over a single byte-wide variable
    if (!forceZ3 && work.size() == 1 && gVars[work[0]].w <= 8) {
        Dom d = domOf(cond);
        for (auto *e : rel) { d &= domOf(e); if (d.none()) break; }
        gSS.domainQueries++;
        if (d.none()) return Res::Unsat;
        model = hint;
        if (model.size() < gVars.size()) model.resize(gVars.size(), 0);
        unsigned pick = 0;
        for (unsigned i = 0; i < 256; i++) if (d[i]) { pick = i; break; }
        model[work[0]] = pick;
        return Res::Sat;
    }
    rel.push_back(cond);
    std::vector<uint32_t> key;
    key.reserve(rel.size());
    for (auto *e : rel) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = gCache.find(key);
    if (it != gCache.end()) {
        gSS.cacheHits++;
        if (!it->second.sat) return Res::Unsat;
        model = hint;
        if (model.size() < gVars.size()) model.resize(gVars.size(), 0);
        for (auto &p : it->second.model) model[p.first] = p.second;
        return Res::Sat;
    }
    if (!forceZ3) {
        std::unordered_map<uint32_t, Dom> dom;
        std::vector<Lit> todo;
        for (auto *e : rel) todo.push_back({ e, false });
        int budget = 400, r = splitSat(todo, dom, budget);
        if (r >= 0) {
            gSS.domainQueries++;
            if (r == 0) { gCache[key] = { false, {} }; return Res::Unsat; }
            model = hint;
            if (model.size() < gVars.size()) model.resize(gVars.size(), 0);
            CacheEnt ce{ true, {} };
            for (auto &p : dom) {
                unsigned pick = (unsigned) (p.first < model.size() ? (u64) model[p.first] : 0);
                if (pick > 255 || !p.second[pick]) for (unsigned i = 0; i < 256; i++) if (p.second[i]) { pick = i; break; }
                model[p.first] = pick;
                ce.model.push_back({ p.first, pick });
            }
            newEpoch();
            for (auto *e : rel) if (!evalExprEpoch(e, model)) { fprintf(stderr, "INTERNAL: split model does not satisfy %s\n", exprStr(e, 8).c_str()); abort(); }
            gCache[key] = ce;
            return Res::Sat;
        }
    }
    if (!forceZ3) {
        int tries = 0;
        for (auto &m : gRecent) {
            if (++tries > 12) break;
            newEpoch();
            bool ok = true;
            for (size_t i = rel.size(); i-- > 0;) if (!evalExprEpoch(rel[i], m)) { ok = false; break; }
            if (ok) {
                gSS.modelHits++;
                model = hint;
                if (model.size() < gVars.size()) model.resize(gVars.size(), 0);
                for (auto v : work) model[v] = v < m.size() ? m[v] : 0;
                return Res::Sat;
            }
        }
    }
    std::vector<Expr *> orig = rel;
    { // rewrite the constraints over several variables under the byte domains of the others
        DomSimp ds;
        for (size_t i = 0; i < rel.size(); i++) // conjunctions (and negated disjunctions) as separate constraints
            for (bool more = true; more;) {
                Expr *e = rel[i];
                more    = false;
                if (e->w != 1) break;
                if (e->k == KAnd) { rel[i] = e->a; rel.push_back(e->b); more = true; }
                else if (e->k == KXor && e->b->isConst() && e->b->v && e->a->k == KOr) { rel[i] = mkNot(e->a->a); rel.push_back(mkNot(e->a->b)); more = true; }
            }
        for (auto *e : rel) if (e->vs->v.size() == 1 && gVars[e->vs->v[0]].w <= 8) {
            uint32_t v = e->vs->v[0];
            Dom d = domOf(e);
            auto it = ds.dom.find(v);
            if (it == ds.dom.end()) ds.dom.emplace(v, d); else it->second &= d;
        }
        bool ch = false, dead = false;
        for (auto &p : ds.dom) if (p.second.none()) dead = true;
        if (!ds.dom.empty() && !dead)
            for (auto *&e : rel) if (e->vs->v.size() != 1 || gVars[e->vs->v[0]].w > 8) {
                Expr *n = ds.go(e);
                if (n != e) { e = n; ch = true; }
                if (n->isConst() && !n->v) { dead = true; if (!forceZ3) break; }
            }
        if (dead && !forceZ3) { gSS.domainQueries++; gCache[key] = { false, {} }; return Res::Unsat; }
        if (ch && !forceZ3) {
            std::vector<Lit> todo;
            for (auto *e : rel) if (!e->isConst()) todo.push_back({ e, false });
            std::unordered_map<uint32_t, Dom> dom;
            int budget = 400, r = splitSat(todo, dom, budget);
            if (r == 0) { gSS.domainQueries++; gCache[key] = { false, {} }; return Res::Unsat; }
            if (r == 1) {
                model = hint;
                if (model.size() < gVars.size()) model.resize(gVars.size(), 0);
                for (auto &p : dom) {
                    unsigned pick = (unsigned) (p.first < model.size() ? (u64) model[p.first] : 0);
                    if (pick > 255 || !p.second[pick]) for (unsigned i = 0; i < 256; i++) if (p.second[i]) { pick = i; break; }
                    model[p.first] = pick;
                }
                newEpoch();
                bool ok = true;
                for (auto *e : orig) if (!evalExprEpoch(e, model)) { ok = false; break; }
                if (!ok) { fprintf(stderr, "INTERNAL: domain rewriting model does not satisfy the query\n"); abort(); }
                gSS.domainQueries++;
                CacheEnt ce{ true, {} };
                for (auto v : work) ce.model.push_back({ v, model[v] });
                gCache[key] = ce;
                return Res::Sat;
            }
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    hasFp = false;
    std::vector<Z3_ast> asts;
    for (auto *e : rel) if (!e->isConst() || !e->v) asts.push_back(toZ3B(e));
    bool fp = false;
    { // any float nodes reachable? (kind test on demand)
        std::vector<Expr *> st(rel.begin(), rel.end());
        static u64 dummy = 0; (void) dummy;
        std::unordered_map<Expr *, char> seen;
        while (!st.empty() && !fp) {
            Expr *e = st.back(); st.pop_back();
            if (!seen.emplace(e, 1).second) continue;
            if (e->k >= KFAdd) fp = true;
            if (e->a) st.push_back(e->a);
            if (e->b) st.push_back(e->b);
            if (e->c) st.push_back(e->c);
        }
    }
    Z3_solver s = slv;
    if (fp) { s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV")); Z3_solver_inc_ref(ctx, s); }
    else newSolver(), s = slv;
    double left = gDeadline ? gDeadline() : 300;
    if (left <= 0) { gSS.unknown++; return Res::Unknown; }
    {
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        if (gRlimit) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), gRlimit);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned) (1000 * std::min(left + 1, 300.0)));
        Z3_solver_set_params(ctx, s, p);
        Z3_params_dec_ref(ctx, p);
    }
    for (auto a : asts) Z3_solver_assert(ctx, s, a);
    Z3_lbool r = Z3_solver_check(ctx, s);
    gSS.z3Queries++;
    Res res = Res::Unknown;
    if (r == Z3_L_FALSE) { res = Res::Unsat; gCache[key] = { false, {} }; }
    else if (r == Z3_L_TRUE) {
        res = Res::Sat;
        Z3_model zm = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, zm);
        model = hint;
        if (model.size() < gVars.size()) model.resize(gVars.size(), 0);
        CacheEnt ce{ true, {} };
        for (auto v : work) {
            Z3_ast val;
            u128   x = 0;
            unsigned w = gVars[v].w;
            auto     get = [&](Z3_ast t) -> u64 {
                Z3_ast o; uint64_t y = 0;
                if (Z3_model_eval(ctx, zm, t, true, &o) && Z3_get_ast_kind(ctx, o) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(ctx, o, &y);
                return y;
            };
            val = toZ3(gVarExprs[v]);
            if (w <= 64) x = get(val);
            else x = ((u128) get(Z3_mk_extract(ctx, w - 1, 64, val)) << 64) | get(Z3_mk_extract(ctx, 63, 0, val));
            model[v] = x;
            ce.model.push_back({ v, x });
        }
        Z3_model_dec_ref(ctx, zm);
        // sanity: the model must satisfy the query (guards against translation errors); fp NaN payloads are exempt
        if (!fp) {
            newEpoch();
            for (auto *e : orig) if (!evalExprEpoch(e, model)) { fprintf(stderr, "INTERNAL: z3 model does not satisfy %s\n", exprStr(e, 8).c_str()); abort(); }
        }
        gCache[key] = ce;
        gRecent.push_front(model);
        if (gRecent.size() > 24) gRecent.pop_back();
    } else gSS.unknown++;
    if (fp) Z3_solver_dec_ref(ctx, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSS.z3Time += dt;
    static const char *dbg = getenv("SYMX_SLOWQ");
    if (dbg && dt > atof(dbg)) {
        fprintf(stderr, "slow query %.2fs n=%zu res=%d\n", dt, rel.size(), (int) r);
        if (getenv("SYMX_SLOWQ_DUMP")) fprintf(stderr, "%s\n", exprStr(rel.back(), 14).c_str());
    }
    return res;
}
} // namespace sx
