#include "engine.hpp"
#include "threads.hpp"
#include <llvm/IR/InlineAsm.h>
#include <llvm/Support/raw_ostream.h>
#include <cstring>
#include <cmath>

using namespace llvm;
namespace sx {
static inline u64 msk(u64 x, unsigned w) { return w >= 64 ? x : x & ((1ull << w) - 1); }
static inline int64_t sx64(u64 x, unsigned w) { return w >= 64 ? (int64_t) x : (int64_t) (x << (64 - w)) >> (64 - w); }

V Engine::binop(State &s, unsigned op, V a, V b, unsigned w) {
    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
        if (b.conc() && b.c == 0) fail(s, "div-by-zero", "division by zero");
        if (!b.conc() && branch(s, mkEq(b.e, mkConst(0, w)))) fail(s, "div-by-zero", "division by zero");
    }
    if (a.conc() && b.conc() && w <= 64) {
        switch (op) {
        case Instruction::Add: return V(msk(a.c + b.c, w));
        case Instruction::Sub: return V(msk(a.c - b.c, w));
        case Instruction::Mul: return V(msk(a.c * b.c, w));
        case Instruction::UDiv: return V(a.c / b.c);
        case Instruction::URem: return V(a.c % b.c);
        case Instruction::And: return V(a.c & b.c);
        case Instruction::Or: return V(a.c | b.c);
        case Instruction::Xor: return V(a.c ^ b.c);
        case Instruction::Shl: return V(b.c >= w ? 0 : msk(a.c << b.c, w));
        case Instruction::LShr: return V(b.c >= w ? 0 : a.c >> b.c);
        case Instruction::AShr: return V(msk((u64) (sx64(a.c, w) >> (b.c >= w ? w - 1 : b.c)), w));
        default: break;
        }
    }
    Kind k;
    switch (op) {
    case Instruction::Add: k = KAdd; break;
    case Instruction::Sub: k = KSub; break;
    case Instruction::Mul: k = KMul; break;
    case Instruction::UDiv: k = KUDiv; break;
    case Instruction::SDiv: k = KSDiv; break;
    case Instruction::URem: k = KURem; break;
    case Instruction::SRem: k = KSRem; break;
    case Instruction::And: k = KAnd; break;
    case Instruction::Or: k = KOr; break;
    case Instruction::Xor: k = KXor; break;
    case Instruction::Shl: k = KShl; break;
    case Instruction::LShr: k = KLShr; break;
    case Instruction::AShr: k = KAShr; break;
    case Instruction::FAdd: return V(mkF(KFAdd, a.ex(w), b.ex(w), w));
    case Instruction::FSub: return V(mkF(KFSub, a.ex(w), b.ex(w), w));
    case Instruction::FMul: return V(mkF(KFMul, a.ex(w), b.ex(w), w));
    case Instruction::FDiv: return V(mkF(KFDiv, a.ex(w), b.ex(w), w));
    case Instruction::FRem: return V(mkF(KFRem, a.ex(w), b.ex(w), w));
    default: unsupported["binop"]++; throw Kill{ "unsupported" };
    }
    return V(mkBin(k, a.ex(w), b.ex(w)));
}
V Engine::icmp(unsigned p, V a, V b, unsigned w) {
    if (a.conc() && b.conc() && w <= 64) {
        switch (p) {
        case CmpInst::ICMP_EQ: return V(a.c == b.c);
        case CmpInst::ICMP_NE: return V(a.c != b.c);
        case CmpInst::ICMP_ULT: return V(a.c < b.c);
        case CmpInst::ICMP_ULE: return V(a.c <= b.c);
        case CmpInst::ICMP_UGT: return V(a.c > b.c);
        case CmpInst::ICMP_UGE: return V(a.c >= b.c);
        case CmpInst::ICMP_SLT: return V(sx64(a.c, w) < sx64(b.c, w));
        case CmpInst::ICMP_SLE: return V(sx64(a.c, w) <= sx64(b.c, w));
        case CmpInst::ICMP_SGT: return V(sx64(a.c, w) > sx64(b.c, w));
        case CmpInst::ICMP_SGE: return V(sx64(a.c, w) >= sx64(b.c, w));
        }
    }
    Expr *x = a.ex(w), *y = b.ex(w);
    switch (p) {
    case CmpInst::ICMP_EQ: return V(mkEq(x, y));
    case CmpInst::ICMP_NE: return V(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: return V(mkBin(KUlt, x, y));
    case CmpInst::ICMP_ULE: return V(mkBin(KUle, x, y));
    case CmpInst::ICMP_UGT: return V(mkBin(KUlt, y, x));
    case CmpInst::ICMP_UGE: return V(mkBin(KUle, y, x));
    case CmpInst::ICMP_SLT: return V(mkBin(KSlt, x, y));
    case CmpInst::ICMP_SLE: return V(mkBin(KSle, x, y));
    case CmpInst::ICMP_SGT: return V(mkBin(KSlt, y, x));
    default: return V(mkBin(KSle, y, x));
    }
}
V Engine::castop(unsigned op, V a, unsigned aw, unsigned w) {
    switch (op) {
    case Instruction::ZExt: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::AddrSpaceCast:
        if (aw == w) return a;
        if (aw > w) goto trunc;
        if (a.conc() && w <= 64) return a;
        return V(mkZExt(a.ex(aw), w));
    case Instruction::SExt:
        if (a.conc() && w <= 64) return V(msk((u64) sx64(a.c, aw), w));
        return V(mkSExt(a.ex(aw), w));
    case Instruction::Trunc:
    trunc:
        if (a.conc()) return V(msk(a.c, w));
        return V(mkExtract(a.e, 0, w));
    case Instruction::FPExt: if (aw == 32 && w == 64) return V(mkF(KFExt, a.ex(aw), nullptr, w)); break;
    case Instruction::FPTrunc: if (aw == 64 && w == 32) return V(mkF(KFTrunc, a.ex(aw), nullptr, w)); break;
    case Instruction::FPToSI: if (aw <= 64) return V(mkF(KFToSI, a.ex(aw), nullptr, w)); break;
    case Instruction::FPToUI: if (aw <= 64) return V(mkF(KFToUI, a.ex(aw), nullptr, w)); break;
    case Instruction::SIToFP: if (w <= 64) return V(mkF(KSIToF, a.ex(aw), nullptr, w)); break;
    case Instruction::UIToFP: if (w <= 64) return V(mkF(KUIToF, a.ex(aw), nullptr, w)); break;
    }
    unsupported["cast"]++;
    throw Kill{ "unsupported" };
}

#define OP(i) (ci.ops[i].reg >= 0 ? f->r[ci.ops[i].reg] : ci.ops[i].k)

void Engine::step(State &s) {
    Frame *f  = s.stack.back().p;
    if (f->rc > 1) f = s.stack.back().unshare();
    CInst &ci = f->fn->code[f->pc];
    if (ci.covId >= 0) covHit[ci.covId] = 1;
    switch (ci.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        for (int i = 0; i < ci.nslots; i++) {
            V v = binop(s, ci.op, OP(i), OP(ci.opStart[1] + i), ci.nslots == 1 ? ci.w : ci.aw);
            f->r[ci.dst + i] = v;
        }
        f->pc++;
        return;
    }
    case Instruction::FNeg:
        for (int i = 0; i < ci.nslots; i++) { V a = OP(i); f->r[ci.dst + i] = V(mkF(KFNeg, a.ex(ci.aw), nullptr, ci.aw)); }
        f->pc++;
        return;
    case Instruction::ICmp: {
        unsigned p = cast<ICmpInst>(ci.I)->getPredicate();
        for (int i = 0; i < ci.nslots; i++) f->r[ci.dst + i] = icmp(p, OP(i), OP(ci.opStart[1] + i), ci.aw);
        f->pc++;
        return;
    }
    case Instruction::FCmp: {
        unsigned p = cast<FCmpInst>(ci.I)->getPredicate();
        if (ci.aw > 64) { unsupported["fp80"]++; throw Kill{ "unsupported" }; }
        for (int i = 0; i < ci.nslots; i++) f->r[ci.dst + i] = V(mkF(KFCmp, OP(i).ex(ci.aw), OP(ci.opStart[1] + i).ex(ci.aw), 1, p));
        f->pc++;
        return;
    }
    case Instruction::BitCast:
        if (ci.nslots != (int) ci.ops.size()) {
            // vector <-> scalar reinterpretation
            unsigned tw = 0; std::vector<std::pair<u64, unsigned>> sl, dl;
            leaves(ci.I->getOperand(0)->getType(), 0, sl); leaves(ci.I->getType(), 0, dl);
            Expr *all = nullptr;
            for (size_t i = 0; i < sl.size(); i++) { Expr *e = OP(i).ex(sl[i].second); tw += sl[i].second; if (tw > 128) { unsupported["wide bitcast"]++; throw Kill{ "unsupported" }; } all = all ? mkConcat(e, all) : e; }
            unsigned o = 0;
            for (size_t i = 0; i < dl.size(); i++) { f->r[ci.dst + (int) i] = V(mkExtract(all, o, dl[i].second)); o += dl[i].second; }
            f->pc++;
            return;
        }
        [[fallthrough]];
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: {
        unsigned w = ci.w;
        if (ci.nslots > 1) { Type *t = ci.I->getType(); if (auto *vt = dyn_cast<VectorType>(t)) w = scalarW(vt->getElementType()); }
        for (int i = 0; i < ci.nslots; i++) f->r[ci.dst + i] = ci.op == Instruction::BitCast ? OP(i) : castop(ci.op, OP(i), ci.aw, w);
        f->pc++;
        return;
    }
    case Instruction::Freeze:
        for (int i = 0; i < ci.nslots; i++) f->r[ci.dst + i] = OP(i);
        f->pc++;
        return;
    case Instruction::Select: {
        int nc = ci.opStart[1];
        std::vector<std::pair<u64, unsigned>> lv;
        if (ci.nslots > 1) leaves(ci.I->getType(), 0, lv);
        for (int i = 0; i < ci.nslots; i++) {
            V c = OP(nc > 1 ? i : 0), t = OP(ci.opStart[1] + i), e = OP(ci.opStart[2] + i);
            unsigned w = ci.nslots == 1 ? ci.w : lv[i].second;
            if (c.conc()) f->r[ci.dst + i] = (c.c & 1) ? t : e;
            else if (w == 64 && ci.nslots == 1 && ci.I->getType()->isPointerTy() && t.conc() && e.conc() && (t.c >> OBJ_SHIFT) != (e.c >> OBJ_SHIFT)) {
                bool b = branch(s, c.e);
                f->r[ci.dst + i] = b ? t : e;
            } else f->r[ci.dst + i] = V(mkIte(c.e, t.ex(w), e.ex(w)));
        }
        f->pc++;
        return;
    }
    case Instruction::Br: {
        if (ci.edges.size() == 1) { takeEdge(s, f, ci.edges[0]); return; }
        V    c = OP(0);
        if (!c.conc() && !s.known.count(c.e)) c = underV(s, c);
        if (!c.conc() && gOpt.merge && !s.known.count(c.e) && !s.known.count(mkNot(c.e)) && mergeRegion(s, f)) return;
        bool b = branchV(s, c);
        takeEdge(s, f, ci.edges[b ? 0 : 1]);
        return;
    }
    case Instruction::Switch: {
        V c = OP(0);
        if (c.conc()) {
            for (auto &k : ci.cases) if ((u64) k.first == c.c) { takeEdge(s, f, ci.edges[k.second]); return; }
            takeEdge(s, f, ci.edges[0]);
            return;
        }
        if (gOpt.merge && mergeRegion(s, f)) return;
        // group cases by target
        u64 mv = (u64) evalExpr(c.e, s.model);
        int tgt = 0;
        for (auto &k : ci.cases) if ((u64) k.first == mv) { tgt = k.second; break; }
        Expr *cond = nullptr;
        if (tgt == 0) {
            cond = mkConst(1, 1);
            for (auto &k : ci.cases) if (k.second != 0) cond = mkAndB(cond, mkNot(mkEq(c.e, mkConst(k.first, ci.aw))));
        } else {
            cond = mkConst(0, 1);
            for (auto &k : ci.cases) if (k.second == tgt) cond = mkOrB(cond, mkEq(c.e, mkConst(k.first, ci.aw)));
        }
        bool b = branch(s, cond);
        if (!b) { return; } // (known complement) retry with updated model
        takeEdge(s, f, ci.edges[tgt]);
        return;
    }
    case Instruction::Alloca: {
        auto *ai = cast<AllocaInst>(ci.I);
        u64   n  = concretize(s, OP(0), 64);
        u64   sz = n * (u64) DL->getTypeAllocSize(ai->getAllocatedType());
        Obj  *o  = newObj(s, sz, OStack, "stack variable", true);
        f->allocas.push_back(o->id);
        f->r[ci.dst] = V(o->id << OBJ_SHIFT);
        f->pc++;
        return;
    }
    case Instruction::Load: {
        V a = OP(0), off;
        if (s.tc) {
            V out;
            if (tcLoad(s, ci, a, (unsigned) ci.accSize, ci.leaves.size() == 1 ? ci.leaves[0].second : 0, out)) { f->r[ci.dst] = out; f->pc++; return; }
            a = underV(s, a);
        }
        Obj *o  = resolve(s, a, ci.accSize, off, false);
        u64  id = o->id;
        static thread_local std::vector<V> tmp;
        tmp.clear();
        for (auto &l : ci.leaves) {
            V        o2 = off.conc() ? V(off.c + l.first) : V(mkBin(KAdd, off.e, mkConst(l.first, 64)));
            unsigned n  = (l.second + 7) / 8;
            tmp.push_back(loadAt(s, getObj(s, id), o2, n, l.second));
        }
        for (size_t i = 0; i < tmp.size(); i++) f->r[ci.dst + (int) i] = tmp[i];
        f->pc++;
        return;
    }
    case Instruction::Store: {
        V a = OP(ci.opStart[1]), off;
        if (s.tc) {
            if (tcStore(s, ci, a, (unsigned) ci.accSize, ci.leaves.size() == 1 ? ci.leaves[0].second : 0, OP(0))) { f->pc++; return; }
            a = underV(s, a);
        }
        Obj *o  = resolve(s, a, ci.accSize, off, true);
        u64  id = o->id;
        if (!off.conc() && s.eq.count(off.e)) off = V(s.eq[off.e]);
        if (!off.conc() && (o->size > 512 || ci.leaves.size() > 1)) off = V(concretize(s, off, 64));
        for (size_t i = 0; i < ci.leaves.size(); i++) {
            auto    &l  = ci.leaves[i];
            V        o2 = off.conc() ? V(off.c + l.first) : V(mkBin(KAdd, off.e, mkConst(l.first, 64)));
            unsigned n  = (l.second + 7) / 8;
            storeAt(s, getObj(s, id), o2, n, l.second, OP(i));
        }
        f->pc++;
        return;
    }
    case Instruction::AtomicCmpXchg: {
        V        a = OP(0), off, exp = OP(1), des = OP(2);
        unsigned w = ci.leaves[0].second, n = (unsigned) ci.accSize;
        V        old, ok;
        if (s.tc && tcCmpXchg(s, ci, a, n, w, exp, des, old, ok)) {
            f->r[ci.dst] = old; f->r[ci.dst + 1] = ok; f->pc++; return;
        }
        Obj *o = resolve(s, a, n, off, true);
        u64  c = concretize(s, off, 64);
        u64  id = o->id;
        old    = readBytes(s, getObj(s, id), c, n, w);
        ok     = icmp(CmpInst::ICMP_EQ, old, exp, w);
        V nv   = ok.conc() ? (ok.c ? des : old) : V(mkIte(ok.e, des.ex(w), old.ex(w)));
        writeBytes(s, getObjW(s, id), c, n, w, nv);
        f->r[ci.dst]     = old;
        f->r[ci.dst + 1] = ok;
        f->pc++;
        return;
    }
    case Instruction::AtomicRMW: {
        auto    *rm = cast<AtomicRMWInst>(ci.I);
        V        a = OP(0), off, x = OP(1);
        unsigned w = ci.leaves[0].second, n = (unsigned) ci.accSize;
        auto     fn = [&](Expr *old) -> Expr * {
            Expr *v = x.ex(w);
            switch (rm->getOperation()) {
            case AtomicRMWInst::Xchg: return v;
            case AtomicRMWInst::Add: return mkBin(KAdd, old, v);
            case AtomicRMWInst::Sub: return mkBin(KSub, old, v);
            case AtomicRMWInst::And: return mkBin(KAnd, old, v);
            case AtomicRMWInst::Nand: return mkNot(mkBin(KAnd, old, v));
            case AtomicRMWInst::Or: return mkBin(KOr, old, v);
            case AtomicRMWInst::Xor: return mkBin(KXor, old, v);
            case AtomicRMWInst::Max: return mkIte(mkBin(KSlt, old, v), v, old);
            case AtomicRMWInst::Min: return mkIte(mkBin(KSlt, v, old), v, old);
            case AtomicRMWInst::UMax: return mkIte(mkBin(KUlt, old, v), v, old);
            case AtomicRMWInst::UMin: return mkIte(mkBin(KUlt, v, old), v, old);
            default: unsupported["atomicrmw"]++; throw Kill{ "unsupported" };
            }
        };
        V old;
        if (s.tc && tcRmw(s, ci, a, n, w, fn, old, (unsigned) rm->getOrdering())) { f->r[ci.dst] = old; f->pc++; return; }
        Obj *o  = resolve(s, a, n, off, true);
        u64  c  = concretize(s, off, 64);
        u64  id = o->id;
        old     = readBytes(s, getObj(s, id), c, n, w);
        writeBytes(s, getObjW(s, id), c, n, w, V(fn(old.ex(w))));
        f->r[ci.dst] = old;
        f->pc++;
        return;
    }
    case Instruction::Fence: f->pc++; return;
    case Instruction::GetElementPtr: {
        V p = OP(0);
        bool allc = p.conc();
        for (auto &g : ci.gep) if (!OP(g.first).conc()) allc = false;
        if (allc) {
            u64 a = p.c + ci.off;
            for (size_t i = 0; i < ci.gep.size(); i++) a += (u64) (sx64(OP(ci.gep[i].first).c, ci.gepW[i]) * ci.gep[i].second);
            f->r[ci.dst] = V(a);
        } else {
            Expr *e = mkConst(ci.off, 64);
            for (size_t i = 0; i < ci.gep.size(); i++) {
                Expr *x = OP(ci.gep[i].first).ex(ci.gepW[i]);
                x       = x->w < 64 ? mkSExt(x, 64) : (x->w > 64 ? mkExtract(x, 0, 64) : x);
                e       = mkBin(KAdd, e, mkBin(KMul, x, mkConst((u64) ci.gep[i].second, 64)));
            }
            f->r[ci.dst] = V(mkBin(KAdd, p.ex(64), e));
        }
        f->pc++;
        return;
    }
    case Instruction::ExtractValue: {
        auto *ev = cast<ExtractValueInst>(ci.I);
        Type *t  = ev->getAggregateOperand()->getType();
        int   st = 0;
        for (unsigned ix : ev->indices()) {
            if (auto *sty = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) st += nSlots(sty->getElementType(i)); t = sty->getElementType(ix); }
            else { auto *at = cast<ArrayType>(t); st += (int) ix * nSlots(at->getElementType()); t = at->getElementType(); }
        }
        for (int i = 0; i < ci.nslots; i++) f->r[ci.dst + i] = OP(st + i);
        f->pc++;
        return;
    }
    case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(ci.I);
        Type *t  = iv->getAggregateOperand()->getType();
        int   st = 0;
        for (unsigned ix : iv->indices()) {
            if (auto *sty = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) st += nSlots(sty->getElementType(i)); t = sty->getElementType(ix); }
            else { auto *at = cast<ArrayType>(t); st += (int) ix * nSlots(at->getElementType()); t = at->getElementType(); }
        }
        int n = nSlots(t), b = ci.opStart[1];
        for (int i = 0; i < ci.nslots; i++) f->r[ci.dst + i] = (i >= st && i < st + n) ? OP(b + i - st) : OP(i);
        f->pc++;
        return;
    }
    case Instruction::ExtractElement: {
        u64 ix = concretize(s, OP(ci.opStart[1]), 64);
        f->r[ci.dst] = OP(ix);
        f->pc++;
        return;
    }
    case Instruction::InsertElement: {
        u64 ix = concretize(s, OP(ci.opStart[2]), 64);
        V   v  = OP(ci.opStart[1]);
        for (int i = 0; i < ci.nslots; i++) f->r[ci.dst + i] = (u64) i == ix ? v : OP(i);
        f->pc++;
        return;
    }
    case Instruction::ShuffleVector: {
        auto *sv = cast<ShuffleVectorInst>(ci.I);
        int   na = nSlots(sv->getOperand(0)->getType());
        auto  mk = sv->getShuffleMask();
        std::vector<V> t;
        for (int i = 0; i < ci.nslots; i++) { int m = mk[i]; t.push_back(m < 0 ? V(0) : m < na ? OP(m) : OP(ci.opStart[1] + m - na)); }
        for (int i = 0; i < ci.nslots; i++) f->r[ci.dst + i] = t[i];
        f->pc++;
        return;
    }
    case Instruction::Ret: {
        std::vector<V> vals;
        for (size_t i = 0; i < ci.ops.size(); i++) vals.push_back(OP(i));
        doReturn(s, vals);
        return;
    }
    case Instruction::Call: case Instruction::Invoke: execCall(s, f, ci); return;
    case Instruction::Resume: unwind(s); return;
    case Instruction::Unreachable: fail(s, "unreachable", "unreachable code executed"); return;
    default: {
        std::string t;
        raw_string_ostream os(t);
        os << *ci.I;
        unsupported["instruction " + os.str()]++;
        throw Kill{ "unsupported" };
    }
    }
}

// ------------------------------------------------------------------ calls
struct Host;
using HostFn = void (*)(Engine &, State &, Frame *, CInst &, std::vector<V> &, V &, bool &advance);
std::unordered_map<std::string, HostFn> &hostTable();

void Engine::execCall(State &s, Frame *f, CInst &ci) {
    auto *cb = cast<CallBase>(ci.I);
    if (cb->isInlineAsm()) {
        // pause / compiler barriers only
        if (ci.nslots == 0) { if (ci.edges.empty()) f->pc++; else takeEdge(s, f, ci.edges[0]); return; }
        unsupported["inline asm"]++;
        throw Kill{ "unsupported" };
    }
    Function      *F = ci.callee;
    std::vector<V> args;
    size_t         nargs = ci.ops.size();
    if (!F) {
        V   a  = OP(ci.ops.size() - 1);
        u64 ad = concretize(s, a, 64);
        auto it = funcAt.find(ad);
        if (it == funcAt.end()) fail(s, "bad-call", "call through invalid function pointer");
        F     = it->second;
        nargs = ci.ops.size() - 1;
    }
    args.reserve(nargs);
    for (size_t i = 0; i < nargs; i++) args.push_back(OP(i));
    if (F->isIntrinsic()) {
        if (intrinsic(s, f, ci, F, args)) { if (ci.edges.empty()) f->pc++; else takeEdge(s, f, ci.edges[0]); }
        return;
    }
    HostFn h = nullptr;
    if (ci.model != -2) {
        auto &t  = hostTable();
        auto  it = t.find(F->getName().str());
        if (it != t.end()) h = it->second;
        else if (ci.callee) ci.model = -2;
    }
    if (h) {
        V    ret;
        bool adv = true;
        h(*this, s, f, ci, args, ret, adv);
        if (!adv) return;
        f = s.stack.back().unshare();
        if (ci.dst >= 0) f->r[ci.dst] = ret;
        if (ci.edges.empty()) f->pc++;
        else takeEdge(s, f, ci.edges[0]);
        return;
    }
    if (F->isDeclaration()) {
        unsupported["external function " + F->getName().str()]++;
        throw Kill{ "unsupported" };
    }
    if (F->isVarArg()) { // extra arguments are dropped
        size_t n = 0;
        for (auto &a : F->args()) n += (size_t) nSlots(a.getType());
        args.resize(std::min(args.size(), n));
    }
    if (!ci.cf || !ci.callee) { CFunc *c = compile(F); if (ci.callee) ci.cf = c; pushFrame(s, c, args); }
    else pushFrame(s, ci.cf, args);
}

bool Engine::intrinsic(State &s, Frame *f, CInst &ci, Function *F, std::vector<V> &a) {
    unsigned w = ci.w;
    auto     set = [&](V v) { f->r[ci.dst] = v; };
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 n = concretize(s, a[2], 64);
        if (!n) return true;
        if (s.tc) {
            if (tcCopy(*this, s, ci, a[0], a[1], n)) return true;
        }
        V    so, d0;
        Obj *src = resolve(s, a[1], n, so, false);
        Obj *dst = resolve(s, a[0], n, d0, true);
        u64  sid = src->id, did = dst->id;
        u64  sof = so.conc() ? so.c : 0, dof;
        if (!d0.conc() && (n > 16 || dst->size > 512)) dof = concretize(s, d0, 64), d0 = V(dof);
        if (!so.conc() && n > 64) sof = concretize(s, so, 64), so = V(sof);
        if (so.conc() && d0.conc()) { copyRange(s, did, d0.c, sid, so.c, n); return true; }
        std::vector<V> tmp;
        for (u64 i = 0; i < n; i++) tmp.push_back(loadAt(s, getObj(s, sid), so.conc() ? V(so.c + i) : V(mkBin(KAdd, so.e, mkConst(i, 64))), 1, 8));
        for (u64 i = 0; i < n; i++) storeAt(s, getObj(s, did), d0.conc() ? V(d0.c + i) : V(mkBin(KAdd, d0.e, mkConst(i, 64))), 1, 8, tmp[i]);
        return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 n = concretize(s, a[2], 64);
        if (!n) return true;
        if (s.tc && tcSet(*this, s, ci, a[0], a[1], n)) return true;
        V    d0;
        Obj *dst = resolve(s, a[0], n, d0, true);
        u64  did = dst->id;
        u64  dof = concretize(s, d0, 64);
        Obj *o   = getObjW(s, did);
        if (a[1].conc()) {
            memset(&o->d[dof], (int) a[1].c, n);
            if (!o->s.empty()) std::fill(o->s.begin() + (long) dof, o->s.begin() + (long) (dof + n), nullptr);
        } else for (u64 i = 0; i < n; i++) writeBytes(s, o, dof + i, 1, 8, a[1]);
        return true;
    }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
    case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::vastart: case Intrinsic::assume: return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: set(V(0)); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptrmask: set(a[0]); return true;
    case Intrinsic::is_constant: set(V(0)); return true;
    case Intrinsic::objectsize: set(V(a[1].c ? 0 : msk(~0ull, w))); return true;
    case Intrinsic::eh_typeid_for: set(V((a[0].c >> OBJ_SHIFT) & 0xffffffff)); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail(s, "trap", "trap executed"); return true;
    case Intrinsic::umax: set(a[0].conc() && a[1].conc() ? V(std::max(a[0].c, a[1].c)) : V(mkIte(mkBin(KUlt, a[0].ex(w), a[1].ex(w)), a[1].ex(w), a[0].ex(w)))); return true;
    case Intrinsic::umin: set(a[0].conc() && a[1].conc() ? V(std::min(a[0].c, a[1].c)) : V(mkIte(mkBin(KUlt, a[0].ex(w), a[1].ex(w)), a[0].ex(w), a[1].ex(w)))); return true;
    case Intrinsic::smax: set(V(mkIte(mkBin(KSlt, a[0].ex(w), a[1].ex(w)), a[1].ex(w), a[0].ex(w)))); return true;
    case Intrinsic::smin: set(V(mkIte(mkBin(KSlt, a[0].ex(w), a[1].ex(w)), a[0].ex(w), a[1].ex(w)))); return true;
    case Intrinsic::abs: { Expr *x = a[0].ex(w); set(V(mkIte(mkBin(KSlt, x, mkConst(0, w)), mkBin(KSub, mkConst(0, w), x), x))); return true; }
    case Intrinsic::bswap: {
        Expr *x = a[0].ex(w), *r = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(x, 8 * i, 8); r = r ? mkConcat(r, b) : b; }
        set(V(r));
        return true;
    }
    case Intrinsic::bitreverse: {
        Expr *x = a[0].ex(w), *r = nullptr;
        for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; }
        set(V(r));
        return true;
    }
    case Intrinsic::ctpop: {
        if (a[0].conc()) { set(V((u64) __builtin_popcountll(a[0].c))); return true; }
        Expr *r = mkConst(0, w);
        for (unsigned i = 0; i < w; i++) r = mkBin(KAdd, r, mkZExt(mkExtract(a[0].e, i, 1), w));
        set(V(r));
        return true;
    }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
        bool lz = F->getIntrinsicID() == Intrinsic::ctlz;
        Expr *x = a[0].ex(w), *r = mkConst(w, w);
        for (unsigned k = 0; k < w; k++) {
            unsigned i = lz ? k : w - 1 - k; // ctlz: highest set bit last
            r = mkIte(mkExtract(x, i, 1), mkConst(lz ? w - 1 - i : i, w), r);
        }
        set(V(r));
        return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        u64   sh = concretize(s, a[2], w) % w;
        Expr *hi = a[0].ex(w), *lo = a[1].ex(w);
        bool  l  = F->getIntrinsicID() == Intrinsic::fshl;
        if (sh == 0) { set(l ? a[0] : a[1]); return true; }
        if (!l) sh = w - sh;
        set(V(mkConcat(mkExtract(hi, 0, w - (unsigned) sh), mkExtract(lo, w - (unsigned) sh, (unsigned) sh))));
        return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned ow = cast<IntegerType>(cast<StructType>(ci.I->getType())->getElementType(0))->getBitWidth();
        Expr *x = a[0].ex(ow), *y = a[1].ex(ow), *r, *o;
        switch (F->getIntrinsicID()) {
        case Intrinsic::uadd_with_overflow: r = mkBin(KAdd, x, y); o = mkBin(KUlt, r, x); break;
        case Intrinsic::usub_with_overflow: r = mkBin(KSub, x, y); o = mkBin(KUlt, x, y); break;
        case Intrinsic::umul_with_overflow: { r = mkBin(KMul, x, y); Expr *p = mkBin(KMul, mkZExt(x, 2 * ow), mkZExt(y, 2 * ow)); o = mkNot(mkEq(mkExtract(p, ow, ow), mkConst(0, ow))); break; }
        case Intrinsic::sadd_with_overflow: { Expr *p = mkBin(KAdd, mkSExt(x, ow + 1), mkSExt(y, ow + 1)); r = mkExtract(p, 0, ow); o = mkNot(mkEq(mkSExt(r, ow + 1), p)); break; }
        case Intrinsic::ssub_with_overflow: { Expr *p = mkBin(KSub, mkSExt(x, ow + 1), mkSExt(y, ow + 1)); r = mkExtract(p, 0, ow); o = mkNot(mkEq(mkSExt(r, ow + 1), p)); break; }
        default: { Expr *p = mkBin(KMul, mkSExt(x, 2 * ow), mkSExt(y, 2 * ow)); r = mkExtract(p, 0, ow); o = mkNot(mkEq(mkSExt(r, 2 * ow), p)); break; }
        }
        f->r[ci.dst] = V(r);
        f->r[ci.dst + 1] = V(o);
        return true;
    }
    case Intrinsic::usub_sat: set(V(mkIte(mkBin(KUlt, a[0].ex(w), a[1].ex(w)), mkConst(0, w), mkBin(KSub, a[0].ex(w), a[1].ex(w))))); return true;
    case Intrinsic::uadd_sat: { Expr *r = mkBin(KAdd, a[0].ex(w), a[1].ex(w)); set(V(mkIte(mkBin(KUlt, r, a[0].ex(w)), mkConst(~(u128) 0, w), r))); return true; }
    case Intrinsic::fabs: { set(V(mkBin(KAnd, a[0].ex(w), mkConst(maskW(w) >> 1, w)))); return true; }
    case Intrinsic::fmuladd: { Expr *m = mkF(KFMul, a[0].ex(w), a[1].ex(w), w); set(V(mkF(KFAdd, m, a[2].ex(w), w))); return true; }
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::sqrt: case Intrinsic::rint: case Intrinsic::nearbyint:
        if (a[0].conc() && w == 64) {
            double d; memcpy(&d, &a[0].c, 8);
            switch (F->getIntrinsicID()) { case Intrinsic::floor: d = std::floor(d); break; case Intrinsic::ceil: d = std::ceil(d); break; case Intrinsic::trunc: d = std::trunc(d); break; case Intrinsic::round: d = std::round(d); break; case Intrinsic::sqrt: d = std::sqrt(d); break; default: d = std::rint(d); }
            u64 x; memcpy(&x, &d, 8); set(V(x)); return true;
        }
        break;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
        V acc = a[0];
        unsigned op = F->getIntrinsicID() == Intrinsic::vector_reduce_add ? Instruction::Add : F->getIntrinsicID() == Intrinsic::vector_reduce_or ? Instruction::Or : F->getIntrinsicID() == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Xor;
        for (size_t i = 1; i < a.size(); i++) acc = binop(s, op, acc, a[i], w);
        set(acc);
        return true;
    }
    default: break;
    }
    unsupported["intrinsic " + F->getName().str()]++;
    throw Kill{ "unsupported" };
}
} // namespace sx
