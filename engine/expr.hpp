// Hash-consed bit-vector expression DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <unordered_map>

namespace sx {

using u64  = uint64_t;
using u128 = unsigned __int128;
using i128 = __int128;

enum Kind : uint8_t {
    KConst, KVar,
    KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
    KEq, KUlt, KUle, KSlt, KSle,
    KIte, KZExt, KSExt, KExtract, KConcat,
    // IEEE-754 operations on the bit patterns (width = result width; v = source width / predicate)
    KFAdd, KFSub, KFMul, KFDiv, KFRem, KFNeg, KFCmp /* v=LLVM predicate */, KFExt, KFTrunc, KFToSI, KFToUI, KSIToF, KUIToF
};

struct VarSet {
    std::vector<uint32_t> v;
    uint32_t              id;
};

struct Expr {
    Kind          k;
    uint16_t      w;
    uint32_t      id;
    Expr         *a = nullptr, *b = nullptr, *c = nullptr;
    u128          v = 0; // const value / var id / extract offset
    const VarSet *vs = nullptr;
    void         *z3 = nullptr;  // cached bit-vector AST
    void         *z3b = nullptr; // cached bool AST (width 1)
    uint64_t      epoch = 0;     // evaluation memo
    u128          ev = 0;
    bool          isConst() const { return k == KConst; }
    u64           cv() const { return (u64) v; }
};

struct VarInfo {
    std::string name;
    uint16_t    w;
    bool        undef = false;
};
extern std::vector<VarInfo> gVars;
extern std::vector<Expr *>  gVarExprs;

inline u128                 maskW(unsigned w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
inline i128                 sextW(u128 v, unsigned w) {
    if (w >= 128) return (i128) v;
    u128 m = (u128) 1 << (w - 1);
    v &= maskW(w);
    return (i128) ((v ^ m) - m);
}

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w, bool undef = false);
Expr *mkBin(Kind k, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *t, Expr *f);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkExtract(Expr *a, unsigned off, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkNot(Expr *a); // width-1 (or bitwise)
Expr *mkF(Kind k, Expr *a, Expr *b, unsigned w, u64 extra = 0);
inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(KEq, a, b); }
inline Expr *mkAndB(Expr *a, Expr *b) { return mkBin(KAnd, a, b); }
inline Expr *mkOrB(Expr *a, Expr *b) { return mkBin(KOr, a, b); }
u128         evalFloatOp(Kind k, u128 x, u128 y, unsigned aw, unsigned w, u64 extra);

// assignment of variables
using Assign = std::vector<u128>;
u128        evalExpr(Expr *e, const Assign &m);
void        newEpoch();
u128        evalExprEpoch(Expr *e, const Assign &m); // same epoch (memo valid while the model does not change)
std::string exprStr(Expr *e, int depth = 6);
size_t      exprCount();
} // namespace sx
