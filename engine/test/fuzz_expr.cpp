// Validates the expression simplifier: random DAGs are built through mk*, values computed independently.
#include "../expr.hpp"
#include <cstdio>
#include <cstdlib>
#include <random>
using namespace sx;
int main(int argc, char **argv) {
    u64 seed = argc > 1 ? strtoull(argv[1], 0, 0) : 1, iters = argc > 2 ? strtoull(argv[2], 0, 0) : 20000;
    std::mt19937_64 r(seed);
    for (u64 it = 0; it < iters; it++) {
        struct P { Expr *e; u128 v; };
        std::vector<P> pool;
        Assign m(gVars.size(), 0);
        static Expr *vars[6] = { mkVar("a", 8), mkVar("b", 8), mkVar("c", 16), mkVar("d", 32), mkVar("e", 64), mkVar("f", 1) };
        m.resize(gVars.size());
        for (int i = 0; i < 6; i++) { u128 v = r() & (u64) maskW(vars[i]->w); if (r() % 3 == 0) v &= 0x3f; m[(size_t) vars[i]->v] = v & maskW(vars[i]->w); pool.push_back({ vars[i], m[(size_t) vars[i]->v] }); }
        for (int i = 0; i < 6; i++) { unsigned ws[] = { 1, 4, 8, 16, 32, 64 }; unsigned w = ws[r() % 6]; u64 c = r() % 3 ? (r() % 130) : r(); u128 v = c & maskW(w); pool.push_back({ mkConst(v, w), v }); }
        for (int step = 0; step < 25; step++) {
            P a = pool[r() % pool.size()], b = pool[r() % pool.size()], c = pool[r() % pool.size()];
            unsigned w = a.e->w;
            if (r() % 3 && b.e->w != w) { for (int k = 0; k < 10 && b.e->w != w; k++) b = pool[r() % pool.size()]; }
            if (b.e->w != w) { if (b.e->w < w) { b.e = mkZExt(b.e, w); } else { b.e = mkExtract(b.e, 0, w); b.v &= maskW(w); } }
            P o{ nullptr, 0 };
            auto S = [&](u128 x) { return sextW(x, w); };
            switch (r() % 24) {
            case 0: o = { mkBin(KAdd, a.e, b.e), (a.v + b.v) & maskW(w) }; break;
            case 1: o = { mkBin(KSub, a.e, b.e), (a.v - b.v) & maskW(w) }; break;
            case 2: o = { mkBin(KMul, a.e, b.e), (a.v * b.v) & maskW(w) }; break;
            case 3: o = { mkBin(KAnd, a.e, b.e), a.v & b.v }; break;
            case 4: o = { mkBin(KOr, a.e, b.e), a.v | b.v }; break;
            case 5: o = { mkBin(KXor, a.e, b.e), a.v ^ b.v }; break;
            case 6: o = { mkBin(KShl, a.e, b.e), b.v >= w ? 0 : (a.v << (unsigned) b.v) & maskW(w) }; break;
            case 7: o = { mkBin(KLShr, a.e, b.e), b.v >= w ? 0 : a.v >> (unsigned) b.v }; break;
            case 8: o = { mkBin(KAShr, a.e, b.e), (u128) (S(a.v) >> (b.v >= w ? w - 1 : (unsigned) b.v)) & maskW(w) }; break;
            case 9: o = { mkEq(a.e, b.e), a.v == b.v }; break;
            case 10: o = { mkBin(KUlt, a.e, b.e), a.v < b.v }; break;
            case 11: o = { mkBin(KUle, a.e, b.e), a.v <= b.v }; break;
            case 12: o = { mkBin(KSlt, a.e, b.e), S(a.v) < S(b.v) }; break;
            case 13: o = { mkBin(KSle, a.e, b.e), S(a.v) <= S(b.v) }; break;
            case 14: case 15: { Expr *cc = c.e->w == 1 ? c.e : mkEq(c.e, mkConst(c.v, c.e->w)); u128 cv = c.e->w == 1 ? c.v : 1; if (c.e->w != 1 && r() % 2) { cc = mkBin(KUlt, c.e, mkConst(5, c.e->w)); cv = c.v < (5 & maskW(c.e->w)); } o = { mkIte(cc, a.e, b.e), cv ? a.v : b.v }; break; }
            case 16: { unsigned nw[] = { 16, 32, 64 }; unsigned x = nw[r() % 3]; if (x > w) o = { mkZExt(a.e, x), a.v }; break; }
            case 17: { unsigned nw[] = { 16, 32, 64 }; unsigned x = nw[r() % 3]; if (x > w) o = { mkSExt(a.e, x), (u128) S(a.v) & maskW(x) }; break; }
            case 18: case 19: if (w > 1) { unsigned off = (unsigned) (r() % w), n = 1 + (unsigned) (r() % (w - off)); if (r() % 2 && w >= 8) { off = (unsigned) (r() % (w / 4)) * 4; n = std::min(w - off, r() % 2 ? 4u : 8u); } o = { mkExtract(a.e, off, n), (a.v >> off) & maskW(n) }; } break;
            case 20: if (w + b.e->w <= 64) o = { mkConcat(a.e, b.e), (a.v << b.e->w) | b.v }; break;
            case 21: o = { mkNot(a.e), ~a.v & maskW(w) }; break;
            case 22: if (b.v) o = { mkBin(r() % 2 ? KUDiv : KURem, a.e, b.e), 0 }, o.v = 0; if (o.e) { u128 q = evalExpr(o.e, m); (void) q; o.v = q == a.v / b.v ? q : a.v % b.v; } break;
            default: if (b.v) { bool d = r() % 2; i128 x = S(a.v), y = S(b.v); o = { mkBin(d ? KSDiv : KSRem, a.e, b.e), (u128) (d ? x / y : x % y) & maskW(w) }; } break;
            }
            if (!o.e) continue;
            u128 got = evalExpr(o.e, m);
            if (got != o.v) { printf("MISMATCH it=%llu w=%u got=%llx want=%llx\n a=%s\n b=%s\n r=%s\n", (unsigned long long) it, w, (unsigned long long) got, (unsigned long long) o.v, exprStr(a.e, 6).c_str(), exprStr(b.e, 6).c_str(), exprStr(o.e, 6).c_str()); return 1; }
            pool.push_back(o);
        }
    }
    printf("ok %zu exprs\n", exprCount());
}
