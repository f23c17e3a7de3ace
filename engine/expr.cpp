#include "expr.hpp"
#include <cassert>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>

namespace sx {
std::vector<VarInfo>  gVars;
std::vector<Expr *>   gVarExprs;
static uint32_t       gNextId = 1;

struct Hash {
    size_t operator()(const Expr *e) const {
        u64 h = (u64) e->k * 0x9E3779B97F4A7C15ull + e->w;
        auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
        mix((u64) e->v); mix((u64) (e->v >> 64)); mix((u64) (uintptr_t) e->a); mix((u64) (uintptr_t) e->b); mix((u64) (uintptr_t) e->c);
        return h ^ (h >> 29);
    }
};
struct EqE {
    bool operator()(const Expr *x, const Expr *y) const {
        return x->k == y->k && x->w == y->w && x->v == y->v && x->a == y->a && x->b == y->b && x->c == y->c;
    }
};
static std::unordered_set<Expr *, Hash, EqE> gTab;
size_t                                       exprCount() { return gTab.size(); }

// ---- var sets
struct VSHash { size_t operator()(const VarSet *s) const { u64 h = 1469598103934665603ull; for (auto x : s->v) { h ^= x; h *= 1099511628211ull; } return h; } };
struct VSEq { bool operator()(const VarSet *a, const VarSet *b) const { return a->v == b->v; } };
static std::unordered_set<VarSet *, VSHash, VSEq> gVS;
static std::unordered_map<u64, const VarSet *>    gVSU;
static uint32_t                                   gVSId = 0;
static const VarSet *internVS(std::vector<uint32_t> v) {
    VarSet tmp; tmp.v = std::move(v);
    auto it = gVS.find(&tmp);
    if (it != gVS.end()) return *it;
    auto *n = new VarSet(std::move(tmp)); n->id = gVSId++;
    gVS.insert(n);
    return n;
}
static const VarSet *emptyVS() { static const VarSet *e = internVS({}); return e; }
static const VarSet *unionVS(const VarSet *a, const VarSet *b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    if (a->id > b->id) std::swap(a, b);
    u64 key = ((u64) a->id << 32) | b->id;
    auto it = gVSU.find(key);
    if (it != gVSU.end()) return it->second;
    std::vector<uint32_t> r;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    auto *res = internVS(std::move(r));
    gVSU[key] = res;
    return res;
}

static Expr *intern(Expr &t) {
    auto it = gTab.find(&t);
    if (it != gTab.end()) return *it;
    auto *n = new Expr(t);
    n->id = gNextId++;
    const VarSet *vs = emptyVS();
    if (n->k == KVar) vs = internVS({ (uint32_t) n->v });
    if (n->a) vs = unionVS(vs, n->a->vs);
    if (n->b) vs = unionVS(vs, n->b->vs);
    if (n->c) vs = unionVS(vs, n->c->vs);
    n->vs = vs;
    gTab.insert(n);
    return n;
}
static Expr *raw(Kind k, unsigned w, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr, u128 v = 0) {
    Expr t; t.k = k; t.w = (uint16_t) w; t.a = a; t.b = b; t.c = c; t.v = v;
    return intern(t);
}
Expr *mkConst(u128 v, unsigned w) { return raw(KConst, w, nullptr, nullptr, nullptr, v & maskW(w)); }
Expr *mkVar(const std::string &name, unsigned w, bool undef) {
    gVars.push_back({ name, (uint16_t) w, undef });
    auto *e = raw(KVar, w, nullptr, nullptr, nullptr, gVars.size() - 1);
    gVarExprs.push_back(e);
    return e;
}

static double  asD(u128 v) { u64 x = (u64) v; double d; memcpy(&d, &x, 8); return d; }
static float   asF(u128 v) { uint32_t x = (uint32_t) v; float d; memcpy(&d, &x, 4); return d; }
static u128    fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128    fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
template<class T> static bool fcmp(unsigned p, T a, T b) {
    bool un = std::isnan(a) || std::isnan(b);
    switch (p) {
    case 0: return false;
    case 1: return !un && a == b;
    case 2: return !un && a > b;
    case 3: return !un && a >= b;
    case 4: return !un && a < b;
    case 5: return !un && a <= b;
    case 6: return !un && a != b;
    case 7: return !un;
    case 8: return un;
    case 9: return un || a == b;
    case 10: return un || a > b;
    case 11: return un || a >= b;
    case 12: return un || a < b;
    case 13: return un || a <= b;
    case 14: return un || a != b;
    default: return true;
    }
}
u128 evalFloatOp(Kind k, u128 x, u128 y, unsigned aw, unsigned w, u64 extra) {
    auto bin = [&](auto f) -> u128 { return aw == 64 ? fromD(f(asD(x), asD(y))) : fromF((float) f(asF(x), asF(y))); };
    switch (k) {
    case KFAdd: return bin([](auto a, auto b) { return a + b; });
    case KFSub: return bin([](auto a, auto b) { return a - b; });
    case KFMul: return bin([](auto a, auto b) { return a * b; });
    case KFDiv: return bin([](auto a, auto b) { return a / b; });
    case KFRem: return aw == 64 ? fromD(std::fmod(asD(x), asD(y))) : fromF(std::fmod(asF(x), asF(y)));
    case KFNeg: return x ^ ((u128) 1 << (aw - 1));
    case KFCmp: return aw == 64 ? fcmp(extra, asD(x), asD(y)) : fcmp(extra, asF(x), asF(y));
    case KFExt: return fromD((double) asF(x));
    case KFTrunc: return fromF((float) asD(x));
    case KFToSI: { double d = aw == 64 ? asD(x) : asF(x); if (std::isnan(d)) return (u128) 1 << (w - 1); if (w <= 64) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return ((u128) 1 << (w - 1)) & maskW(w); return (u128) (i128) (int64_t) d & maskW(w);} return (u128) (i128) d & maskW(w); }
    case KFToUI: { double d = aw == 64 ? asD(x) : asF(x); if (!(d > -1.0 && d < 18446744073709551616.0)) return maskW(w); return (u128) (u64) d & maskW(w); }
    case KSIToF: { i128 s = sextW(x, aw); return w == 64 ? fromD((double) s) : fromF((float) s); }
    case KUIToF: { return w == 64 ? fromD((double) (x & maskW(aw))) : fromF((float) (x & maskW(aw))); }
    default: return 0;
    }
}

static u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
    u128 m = maskW(w);
    switch (k) {
    case KAdd: return (a + b) & m;
    case KSub: return (a - b) & m;
    case KMul: return (a * b) & m;
    case KUDiv: return b == 0 ? m : (a / b) & m;
    case KURem: return b == 0 ? a : (a % b) & m;
    case KSDiv: { i128 x = sextW(a, w), y = sextW(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128) (-x) & m; return (u128) (x / y) & m; }
    case KSRem: { i128 x = sextW(a, w), y = sextW(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128) (x % y) & m; }
    case KAnd: return a & b;
    case KOr: return a | b;
    case KXor: return a ^ b;
    case KShl: return b >= w ? 0 : (a << (unsigned) b) & m;
    case KLShr: return b >= w ? 0 : (a >> (unsigned) b);
    case KAShr: { i128 x = sextW(a, w); unsigned s = b >= w ? w - 1 : (unsigned) b; return (u128) (x >> s) & m; }
    case KEq: return a == b;
    case KUlt: return a < b;
    case KUle: return a <= b;
    case KSlt: return sextW(a, w) < sextW(b, w);
    case KSle: return sextW(a, w) <= sextW(b, w);
    default: assert(0); return 0;
    }
}
static bool isCmp(Kind k) { return k >= KEq && k <= KSle; }
static bool isComm(Kind k) { return k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor || k == KEq; }
static bool constArmIte(Expr *e) { return e->k == KIte && e->b->isConst() && e->c->isConst(); }

Expr *mkNot(Expr *a) { return mkBin(KXor, a, mkConst(~(u128) 0, a->w)); }

// upper bound of unsigned value (cheap)
static u128 umax(Expr *e, int d = 4) {
    if (e->isConst()) return e->v;
    if (d == 0) return maskW(e->w);
    switch (e->k) {
    case KZExt: return umax(e->a, d - 1);
    case KAnd: return std::min(umax(e->a, d - 1), umax(e->b, d - 1));
    case KIte: return std::max(umax(e->b, d - 1), umax(e->c, d - 1));
    case KURem: if (e->b->isConst() && e->b->v) return e->b->v - 1; break;
    case KUDiv: if (e->b->isConst() && e->b->v) return umax(e->a, d - 1) / e->b->v; break;
    case KAdd: { u128 x = umax(e->a, d - 1), y = umax(e->b, d - 1); u128 s = x + y; if (s >= x && s <= maskW(e->w)) return s; break; }
    case KMul: if (e->w <= 64) { u128 x = umax(e->a, d - 1), y = umax(e->b, d - 1); u128 s = x * y; if ((x >> 64) == 0 && (y >> 64) == 0 && s <= maskW(e->w)) return s; } break;
    default: break;
    }
    return maskW(e->w);
}

// same with a work budget instead of a depth limit
static u128 umaxB(Expr *e, int &budget) {
    if (e->isConst()) return e->v;
    if (--budget < 0) return maskW(e->w);
    switch (e->k) {
    case KZExt: return umaxB(e->a, budget);
    case KAnd: { u128 x = umaxB(e->a, budget), y = umaxB(e->b, budget); return std::min(x, y); }
    case KIte: { u128 x = umaxB(e->b, budget), y = umaxB(e->c, budget); return std::max(x, y); }
    case KAdd: { u128 x = umaxB(e->a, budget), y = umaxB(e->b, budget), s = x + y; if (s >= x && s <= maskW(e->w)) return s; break; }
    case KMul: if (e->w <= 64) { u128 x = umaxB(e->a, budget), y = umaxB(e->b, budget); u128 s = x * y; if ((x >> 64) == 0 && (y >> 64) == 0 && s <= maskW(e->w)) return s; } break;
    default: return umax(e, 2);
    }
    return maskW(e->w);
}
// (x*C + D) / C == x + D/C when nothing overflows
static Expr *divMul(Expr *a, u128 C, u128 limit) {
    Expr *x = a;
    u128  D = 0;
    if (a->k == KAdd && a->b->isConst()) { D = a->b->v; x = a->a; }
    if (x->k != KMul || !x->b->isConst() || x->b->v != C) return nullptr;
    int budget = 200;
    u128 m = umaxB(x->a, budget);
    if ((m >> 64) || (C >> 32) || D >= limit || m * C + D >= limit) return nullptr;
    return mkBin(KAdd, x->a, mkConst(D / C, a->w));
}

Expr *mkBin(Kind k, Expr *a, Expr *b) {
    unsigned w = a->w;
    assert(a->w == b->w);
    unsigned rw = isCmp(k) ? 1 : w;
    if (a->isConst() && b->isConst()) return mkConst(foldBin(k, a->v, b->v, w), rw);
    if (isComm(k)) {
        if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
    }
    bool bc = b->isConst();
    u128 bv = bc ? b->v : 0;
    u128 m  = maskW(w);
    switch (k) {
    case KAdd:
        if (bc) {
            if (bv == 0) return a;
            if (a->k == KAdd && a->b->isConst()) return mkBin(KAdd, a->a, mkConst(a->b->v + bv, w));
            if (constArmIte(a)) return mkIte(a->a, mkConst(a->b->v + bv, w), mkConst(a->c->v + bv, w));
        } else {
            // hoist constants: (x+c)+y -> (x+y)+c
            if (a->k == KAdd && a->b->isConst()) return mkBin(KAdd, mkBin(KAdd, a->a, b), a->b);
            if (b->k == KAdd && b->b->isConst()) return mkBin(KAdd, mkBin(KAdd, a, b->a), b->b);
            // x + (0 - y)
            if (b->k == KSub && b->b == a) return b->a;
            if (a->k == KSub && a->b == b) return a->a;
        }
        break;
    case KSub:
        if (a == b) return mkConst(0, w);
        if (bc) return mkBin(KAdd, a, mkConst((~bv + 1), w));
        if (a->k == KAdd && a->a == b) return a->b;
        if (a->k == KAdd && a->b == b) return a->a;
        if (a->k == KAdd && a->b->isConst()) return mkBin(KAdd, mkBin(KSub, a->a, b), a->b);
        if (b->k == KAdd && b->b->isConst()) return mkBin(KAdd, mkBin(KSub, a, b->a), mkConst(~b->b->v + 1, w));
        break;
    case KMul:
        if (bc) {
            if (bv == 0) return b;
            if (bv == 1) return a;
            if (a->k == KMul && a->b->isConst()) return mkBin(KMul, a->a, mkConst(a->b->v * bv, w));
            if (a->k == KAdd && a->b->isConst()) return mkBin(KAdd, mkBin(KMul, a->a, b), mkConst(a->b->v * bv, w));
            if (constArmIte(a)) return mkIte(a->a, mkConst(a->b->v * bv, w), mkConst(a->c->v * bv, w));
            if ((bv & (bv - 1)) == 0) { unsigned s = 0; while (((u128) 1 << s) != bv) s++; return mkBin(KShl, a, mkConst(s, w)); }
        }
        break;
    case KUDiv:
        if (bc && bv == 1) return a;
        if (bc && bv && (bv & (bv - 1)) == 0) { unsigned s = 0; while (((u128) 1 << s) != bv) s++; return mkBin(KLShr, a, mkConst(s, w)); }
        if (bc && bv && umax(a) < bv) return mkConst(0, w);
        if (bc && bv && w <= 64) if (auto *r = divMul(a, bv, (u128) 1 << w)) return r;
        break;
    case KURem:
        if (bc && bv == 1) return mkConst(0, w);
        if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(KAnd, a, mkConst(bv - 1, w));
        if (bc && bv && umax(a) < bv) return a;
        break;
    case KSDiv:
        if (bc && bv == 1) return a;
        if (bc && bv && w <= 64 && w > 1 && bv < ((u128) 1 << (w - 1))) if (auto *r = divMul(a, bv, (u128) 1 << (w - 1))) return r;
        break;
    case KSRem: if (bc && bv == 1) return mkConst(0, w); break;
    case KAnd:
        if (a == b) return a;
        if (bc) {
            if (bv == 0) return b;
            if (bv == m) return a;
            if (a->k == KAnd && a->b->isConst()) return mkBin(KAnd, a->a, mkConst(a->b->v & bv, w));
            if (a->k == KZExt) {
                unsigned iw = a->a->w;
                return mkZExt(mkBin(KAnd, a->a, mkConst(bv & maskW(iw), iw)), w);
            }
            if (a->k == KConcat) return mkConcat(mkBin(KAnd, a->a, mkConst(bv >> a->b->w, a->a->w)), mkBin(KAnd, a->b, mkConst(bv & maskW(a->b->w), a->b->w)));
            // low mask -> zext(extract)
            if (((bv + 1) & bv) == 0) { unsigned s = 0; while ((((u128) 1 << s) - 1) != bv) s++; return mkZExt(mkExtract(a, 0, s), w); }
            if (constArmIte(a)) return mkIte(a->a, mkConst(a->b->v & bv, w), mkConst(a->c->v & bv, w));
        }
        if (w == 1) {
            // x & !x
            if (b->k == KXor && b->b->isConst() && b->a == a) return mkConst(0, 1);
            if (a->k == KXor && a->b->isConst() && a->a == b) return mkConst(0, 1);
        }
        break;
    case KOr:
        if (a == b) return a;
        if (bc) {
            if (bv == 0) return a;
            if (bv == m) return b;
            if (a->k == KConcat) return mkConcat(mkBin(KOr, a->a, mkConst(bv >> a->b->w, a->a->w)), mkBin(KOr, a->b, mkConst(bv & maskW(a->b->w), a->b->w)));
            if (constArmIte(a)) return mkIte(a->a, mkConst(a->b->v | bv, w), mkConst(a->c->v | bv, w));
        } else {
            // disjoint concat/zext merges:  concat(x,0_n) | zext(y) with y->w<=n
            auto tryMerge = [&](Expr *p, Expr *q) -> Expr * {
                if (p->k == KConcat && p->b->isConst() && p->b->v == 0) {
                    unsigned n = p->b->w;
                    if (q->k == KZExt && q->a->w <= n) return mkConcat(p->a, mkZExt(q->a, n));
                    if (q->k == KConcat && q->a->isConst() && q->a->v == 0 && q->b->w <= n) return mkConcat(p->a, mkZExt(q->b, n));
                }
                // zext(concat(x,0_n)) | zext(y)
                if (p->k == KZExt && p->a->k == KConcat && p->a->b->isConst() && p->a->b->v == 0 && q->k == KZExt && q->a->w <= p->a->b->w)
                    return mkZExt(mkConcat(p->a->a, mkZExt(q->a, p->a->b->w)), p->w);
                return nullptr;
            };
            if (auto *r = tryMerge(a, b)) return r;
            if (auto *r = tryMerge(b, a)) return r;
            if (a->k == KConcat && b->k == KConcat && a->b->w == b->b->w) {
                auto z = [](Expr *e) { return e->isConst() && e->v == 0; };
                if ((z(a->a) || z(b->a)) && (z(a->b) || z(b->b))) return mkConcat(z(a->a) ? b->a : a->a, z(a->b) ? b->b : a->b);
            }
        }
        if (w == 1) {
            if (b->k == KXor && b->b->isConst() && b->a == a) return mkConst(1, 1);
            if (a->k == KXor && a->b->isConst() && a->a == b) return mkConst(1, 1);
        }
        break;
    case KXor:
        if (a == b) return mkConst(0, w);
        if (bc) {
            if (bv == 0) return a;
            if (a->k == KXor && a->b->isConst()) return mkBin(KXor, a->a, mkConst(a->b->v ^ bv, w));
            if (w == 1 && bv == 1) {
                if (a->k == KUlt) return mkBin(KUle, a->b, a->a);
                if (a->k == KUle) return mkBin(KUlt, a->b, a->a);
                if (a->k == KSlt) return mkBin(KSle, a->b, a->a);
                if (a->k == KSle) return mkBin(KSlt, a->b, a->a);
            }
            if (constArmIte(a)) return mkIte(a->a, mkConst(a->b->v ^ bv, w), mkConst(a->c->v ^ bv, w));
        }
        break;
    case KShl:
        if (bc) {
            if (bv == 0) return a;
            if (bv >= w) return mkConst(0, w);
            return mkConcat(mkExtract(a, 0, w - (unsigned) bv), mkConst(0, (unsigned) bv));
        }
        break;
    case KLShr:
        if (bc) {
            if (bv == 0) return a;
            if (bv >= w) return mkConst(0, w);
            return mkZExt(mkExtract(a, (unsigned) bv, w - (unsigned) bv), w);
        }
        break;
    case KAShr:
        if (bc) {
            if (bv == 0) return a;
            unsigned s = bv >= w ? w - 1 : (unsigned) bv;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    case KEq:
        if (a == b) return mkConst(1, 1);
        if (bc) {
            if (w == 1) return bv ? a : mkNot(a);
            switch (a->k) {
            case KZExt: if (bv >> a->a->w) return mkConst(0, 1); return mkBin(KEq, a->a, mkConst(bv, a->a->w));
            case KSExt: { u128 t = bv & maskW(a->a->w); if (((u128) sextW(t, a->a->w) & m) != bv) return mkConst(0, 1); return mkBin(KEq, a->a, mkConst(t, a->a->w)); }
            case KConcat: {
                Expr *lo = mkBin(KEq, a->b, mkConst(bv & maskW(a->b->w), a->b->w));
                if (lo->isConst() && lo->v == 0) return lo;
                Expr *hi = mkBin(KEq, a->a, mkConst(bv >> a->b->w, a->a->w));
                return mkBin(KAnd, hi, lo);
            }
            case KAdd: if (a->b->isConst()) return mkBin(KEq, a->a, mkConst(bv - a->b->v, w)); break;
            case KXor: if (a->b->isConst()) return mkBin(KEq, a->a, mkConst(bv ^ a->b->v, w)); break;
            case KSub: if (bv == 0) return mkBin(KEq, a->a, a->b); break;
            case KIte: {
                bool t = a->b->isConst(), f = a->c->isConst();
                if (t && f) {
                    bool et = a->b->v == bv, ef = a->c->v == bv;
                    if (et && ef) return mkConst(1, 1);
                    if (et) return a->a;
                    if (ef) return mkNot(a->a);
                    return mkConst(0, 1);
                }
                if (t) { Expr *r = mkBin(KEq, a->c, b); return a->b->v == bv ? mkBin(KOr, a->a, r) : mkBin(KAnd, mkNot(a->a), r); }
                if (f) { Expr *r = mkBin(KEq, a->b, b); return a->c->v == bv ? mkBin(KOr, mkNot(a->a), r) : mkBin(KAnd, a->a, r); }
                break;
            }
            default: break;
            }
            if (umax(a) < bv) return mkConst(0, 1);
        } else {
            if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkBin(KEq, a->a, b->a);
            if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkBin(KEq, a->a, b->a);
            if (a->k == KAdd && b->k == KAdd && a->b == b->b) return mkBin(KEq, a->a, b->a);
            if (a->k == KConcat && b->k == KConcat && a->b->w == b->b->w) return mkBin(KAnd, mkBin(KEq, a->a, b->a), mkBin(KEq, a->b, b->b));
        }
        break;
    case KUlt:
        if (a == b) return mkConst(0, 1);
        if (bc && bv == 0) return mkConst(0, 1);
        if (a->isConst() && a->v == m) return mkConst(0, 1);
        if (bc && bv == 1) return mkBin(KEq, a, mkConst(0, w));
        if (a->isConst() && a->v == 0) return mkNot(mkBin(KEq, b, a));
        if (bc && umax(a) < bv) return mkConst(1, 1);
        if (a->isConst() && umax(b) <= a->v) return mkConst(0, 1);
        if (bc && a->k == KZExt) return mkBin(KUlt, a->a, mkConst(bv, a->a->w)); // bv <= umax(a) here
        if (a->isConst() && b->k == KZExt) return mkBin(KUlt, mkConst(a->v, b->a->w), b->a);
        if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkBin(KUlt, a->a, b->a);
        if (bc && constArmIte(a)) return mkIte(a->a, mkConst(a->b->v < bv, 1), mkConst(a->c->v < bv, 1));
        break;
    case KUle:
        if (a == b) return mkConst(1, 1);
        if (bc && bv == m) return mkConst(1, 1);
        if (bc) return mkBin(KUlt, a, mkConst(bv + 1, w));
        if (a->isConst() && a->v == 0) return mkConst(1, 1);
        if (a->isConst()) return mkBin(KUlt, mkConst(a->v - 1, w), b);
        if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return mkBin(KUle, a->a, b->a);
        break;
    case KSlt:
    case KSle: {
        if (a == b) return mkConst(k == KSle, 1);
        auto nonneg = [&](Expr *e) { return umax(e) <= (m >> 1); };
        if (w > 1 && nonneg(a) && nonneg(b)) return mkBin(k == KSlt ? KUlt : KUle, a, b);
        if (bc) {
            i128 sb = sextW(bv, w);
            if (nonneg(a) && sb < 0) return mkConst(0, 1);
            if (a->k == KSExt) {
                unsigned iw = a->a->w; i128 mn = -((i128) 1 << (iw - 1)), mx = ((i128) 1 << (iw - 1)) - 1;
                if (k == KSlt) { if (sb > mx) return mkConst(1, 1); if (sb <= mn) return mkConst(0, 1); }
                else { if (sb >= mx) return mkConst(1, 1); if (sb < mn) return mkConst(0, 1); }
                return mkBin(k, a->a, mkConst((u128) sb, iw));
            }
            if (constArmIte(a)) return mkIte(a->a, mkConst(foldBin(k, a->b->v, bv, w), 1), mkConst(foldBin(k, a->c->v, bv, w), 1));
        }
        if (a->isConst()) {
            i128 sa = sextW(a->v, w);
            if (nonneg(b) && sa < 0) return mkConst(1, 1);
            if (b->k == KSExt) {
                unsigned iw = b->a->w; i128 mn = -((i128) 1 << (iw - 1)), mx = ((i128) 1 << (iw - 1)) - 1;
                if (k == KSlt) { if (sa < mn) return mkConst(1, 1); if (sa >= mx) return mkConst(0, 1); }
                else { if (sa <= mn) return mkConst(1, 1); if (sa > mx) return mkConst(0, 1); }
                return mkBin(k, mkConst((u128) sa, iw), b->a);
            }
        }
        if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
        break;
    }
    default: break;
    }
    return raw(k, rw, a, b);
}
Expr *mkIte(Expr *c, Expr *t, Expr *f) {
    if (c->isConst()) return c->v ? t : f;
    if (t == f) return t;
    if (c->k == KXor && c->b->isConst()) { c = c->a; std::swap(t, f); }
    if (t->w == 1) {
        if (t->isConst() && f->isConst()) return t->v ? c : mkNot(c);
        if (t->isConst()) return t->v ? mkBin(KOr, c, f) : mkBin(KAnd, mkNot(c), f);
        if (f->isConst()) return f->v ? mkBin(KOr, mkNot(c), t) : mkBin(KAnd, c, t);
    }
    if (t->k == KIte && t->a == c) t = t->b;
    if (f->k == KIte && f->a == c) f = f->c;
    if (t == f) return t;
    if (f->k == KIte && f->b == t) return mkIte(mkBin(KOr, c, f->a), t, f->c);
    return raw(KIte, t->w, c, t, f);
}
Expr *mkZExt(Expr *a, unsigned w) {
    assert(w >= a->w);
    if (w == a->w) return a;
    if (a->isConst()) return mkConst(a->v, w);
    if (a->k == KZExt) return mkZExt(a->a, w);
    if (constArmIte(a)) return mkIte(a->a, mkConst(a->b->v, w), mkConst(a->c->v, w));
    return raw(KZExt, w, a);
}
Expr *mkSExt(Expr *a, unsigned w) {
    assert(w >= a->w);
    if (w == a->w) return a;
    if (a->isConst()) return mkConst((u128) sextW(a->v, a->w), w);
    if (a->k == KSExt) return mkSExt(a->a, w);
    if (a->k == KZExt) return mkZExt(a->a, w);
    if (constArmIte(a)) return mkIte(a->a, mkConst((u128) sextW(a->b->v, a->w), w), mkConst((u128) sextW(a->c->v, a->w), w));
    return raw(KSExt, w, a);
}
Expr *mkExtract(Expr *a, unsigned off, unsigned w) {
    assert(off + w <= a->w && w > 0);
    if (w == a->w) return a;
    if (a->isConst()) return mkConst(a->v >> off, w);
    switch (a->k) {
    case KExtract: return mkExtract(a->a, off + (unsigned) a->v, w);
    case KZExt:
        if (off >= a->a->w) return mkConst(0, w);
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        return mkZExt(mkExtract(a->a, off, a->a->w - off), w);
    case KSExt:
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        if (off < a->a->w) return mkSExt(mkExtract(a->a, off, a->a->w - off), w);
        break;
    case KConcat: {
        unsigned lw = a->b->w;
        if (off >= lw) return mkExtract(a->a, off - lw, w);
        if (off + w <= lw) return mkExtract(a->b, off, w);
        return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
    }
    case KAnd: case KOr: case KXor:
        return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case KAdd: case KSub: case KMul:
        if (off == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case KIte:
        if (a->b->isConst() || a->c->isConst()) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
        break;
    default: break;
    }
    return raw(KExtract, w, a, nullptr, nullptr, off);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    assert(w <= 128);
    if (hi->isConst() && lo->isConst()) return mkConst((hi->v << lo->w) | lo->v, w);
    if (hi->isConst() && hi->v == 0) return mkZExt(lo, w);
    auto base = [](Expr *e) { return e->k == KExtract ? e->a : e; };
    auto offs = [](Expr *e) { return e->k == KExtract ? (unsigned) e->v : 0u; };
    if (!hi->isConst() && !lo->isConst() && base(hi) == base(lo) && offs(hi) == offs(lo) + lo->w) return mkExtract(base(lo), offs(lo), w);
    // the low part may have been narrowed (extract of a sum is the sum of extracts)
    if (hi->k == KExtract && hi->v == lo->w && hi->a->k != KConcat && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, w);
    // concat(x, concat(y,z)) re-association so adjacent extracts meet
    if (lo->k == KConcat) {
        Expr *y = lo->a;
        if (!hi->isConst() && !y->isConst() && base(hi) == base(y) && offs(hi) == offs(y) + y->w) return mkConcat(mkExtract(base(y), offs(y), hi->w + y->w), lo->b);
        if (hi->isConst() && y->isConst()) return mkConcat(mkConst((hi->v << y->w) | y->v, hi->w + y->w), lo->b);
    }
    if (hi->k == KConcat) {
        Expr *y = hi->b;
        if (!y->isConst() && !lo->isConst() && base(y) == base(lo) && offs(y) == offs(lo) + lo->w) return mkConcat(hi->a, mkExtract(base(lo), offs(lo), y->w + lo->w));
        if (y->isConst() && lo->isConst()) return mkConcat(hi->a, mkConst((y->v << lo->w) | lo->v, y->w + lo->w));
    }
    // sext pattern: concat(extract(sext)) handled by extract rules
    return raw(KConcat, w, hi, lo);
}
Expr *mkF(Kind k, Expr *a, Expr *b, unsigned w, u64 extra) {
    if (a->isConst() && (!b || b->isConst())) return mkConst(evalFloatOp(k, a->v, b ? b->v : 0, a->w, w, extra), w);
    if (k == KFNeg) return mkBin(KXor, a, mkConst((u128) 1 << (a->w - 1), a->w));
    return raw(k, w, a, b, nullptr, extra);
}

static u64 gEpoch = 1;
void       newEpoch() { gEpoch++; }
u128       evalExprEpoch(Expr *e, const Assign &m) {
    if (e->k == KConst) return e->v;
    if (e->k == KVar) return e->v < m.size() ? (m[(size_t) e->v] & maskW(e->w)) : 0;
    if (e->epoch == gEpoch) return e->ev;
    u128 r = 0;
    switch (e->k) {
    case KIte: r = evalExprEpoch(e->a, m) ? evalExprEpoch(e->b, m) : evalExprEpoch(e->c, m); break;
    case KZExt: r = evalExprEpoch(e->a, m); break;
    case KSExt: r = (u128) sextW(evalExprEpoch(e->a, m), e->a->w) & maskW(e->w); break;
    case KExtract: r = (evalExprEpoch(e->a, m) >> (unsigned) e->v) & maskW(e->w); break;
    case KConcat: r = (evalExprEpoch(e->a, m) << e->b->w) | evalExprEpoch(e->b, m); break;
    case KAnd:
        if (e->w == 1) { r = evalExprEpoch(e->a, m) && evalExprEpoch(e->b, m); break; }
        r = evalExprEpoch(e->a, m) & evalExprEpoch(e->b, m); break;
    case KOr:
        if (e->w == 1) { r = evalExprEpoch(e->a, m) || evalExprEpoch(e->b, m); break; }
        r = evalExprEpoch(e->a, m) | evalExprEpoch(e->b, m); break;
    default:
        if (e->k >= KFAdd) r = evalFloatOp(e->k, evalExprEpoch(e->a, m), e->b ? evalExprEpoch(e->b, m) : 0, e->a->w, e->w, (u64) e->v);
        else r = foldBin(e->k, evalExprEpoch(e->a, m), evalExprEpoch(e->b, m), e->a->w);
    }
    e->epoch = gEpoch; e->ev = r;
    return r;
}
u128 evalExpr(Expr *e, const Assign &m) { newEpoch(); return evalExprEpoch(e, m); }

std::string exprStr(Expr *e, int d) {
    static const char *nm[] = { "const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "zext", "sext", "extract", "concat", "f+", "f-", "f*", "f/", "f%", "fneg", "fcmp", "fext", "ftrunc", "ftosi", "ftoui", "sitof", "uitof" };
    char buf[64];
    if (e->k == KConst) { snprintf(buf, 64, "%lld", (long long) (u64) e->v); return buf; }
    if (e->k == KVar) return gVars[(size_t) e->v].name;
    if (d == 0) return "...";
    std::string s = std::string("(") + nm[e->k];
    if (e->k == KExtract) { snprintf(buf, 64, "[%d+%d]", (int) e->v, e->w); s += buf; }
    for (Expr *x : { e->a, e->b, e->c }) if (x) s += " " + exprStr(x, d - 1);
    return s + ")";
}
} // namespace sx
