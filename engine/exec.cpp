#include "exec.hpp"
#include "threads.hpp"
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <cassert>
#include <chrono>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "engine.hpp"
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IR/CFG.h>

using namespace llvm;
namespace sx {
Options gOpt;
Engine *gE = nullptr;
static Expr *UNINIT() { static Expr *u = (Expr *) 1; return u; }

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ types
unsigned Engine::scalarW(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isHalfTy()) return 16;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isFP128Ty()) return 128;
    return 0;
}
void Engine::leaves(Type *t, u64 off, std::vector<std::pair<u64, unsigned>> &out) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *l = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + (u64) l->getElementOffset(i), out);
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out);
    } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        u64 es = DL->getTypeStoreSize(vt->getElementType());
        for (u64 i = 0; i < vt->getNumElements(); i++) leaves(vt->getElementType(), off + i * es, out);
    } else {
        unsigned w = scalarW(t);
        if (w) out.push_back({ off, w });
    }
}
int Engine::nSlots(Type *t) {
    if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) return 0;
    auto it = slotCache.find(t);
    if (it != slotCache.end()) return it->second;
    std::vector<std::pair<u64, unsigned>> v;
    leaves(t, 0, v);
    return slotCache[t] = (int) v.size();
}

// ------------------------------------------------------------------ constants
void Engine::constSlots(Constant *c, std::vector<V> &out) {
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        int n = nSlots(t);
        std::vector<std::pair<u64, unsigned>> v; leaves(t, 0, v);
        for (int i = 0; i < n; i++) out.push_back(v[i].second > 64 ? V(mkConst(0, v[i].second)) : V(0));
        return;
    }
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        unsigned w = ci->getBitWidth();
        if (w <= 64) out.push_back(V(ci->getZExtValue()));
        else out.push_back(V(mkConst(((u128) ci->getValue().extractBitsAsZExtValue(w - 64, 64) << 64) | ci->getValue().extractBitsAsZExtValue(64, 0), w)));
        return;
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        unsigned w = a.getBitWidth();
        if (w <= 64) out.push_back(V(a.getZExtValue()));
        else out.push_back(V(mkConst(((u128) a.extractBitsAsZExtValue(w - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0), w)));
        return;
    }
    if (isa<ConstantPointerNull>(c)) { out.push_back(V(0)); return; }
    if (auto *gv = dyn_cast<GlobalValue>(c)) { out.push_back(V(globalAddr(gv))); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); i++) constSlots(cd->getElementAsConstant(i), out);
        return;
    }
    if (isa<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < c->getNumOperands(); i++) constSlots(cast<Constant>(c->getOperand(i)), out);
        return;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) { out.push_back(V(constExpr(ce))); return; }
    if (isa<BlockAddress>(c)) { out.push_back(V(0)); return; }
    if (auto *ne = dyn_cast<NoCFIValue>(c)) { constSlots(ne->getGlobalValue(), out); return; }
    errs() << "unsupported constant " << *c << "\n";
    abort();
}
u64 Engine::constScalar(Constant *c) {
    std::vector<V> o;
    constSlots(c, o);
    return o.at(0).e ? (u64) o[0].e->v : o[0].c;
}
u64 Engine::constExpr(ConstantExpr *ce) {
    unsigned w = scalarW(ce->getType());
    auto     m = [&](u64 x) { return w >= 64 ? x : (x & ((1ull << w) - 1)); };
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
        auto *gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) { errs() << "const gep " << *ce << "\n"; abort(); }
        return constScalar(ce->getOperand(0)) + off.getZExtValue();
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: case Instruction::Trunc:
        return m(constScalar(ce->getOperand(0)));
    case Instruction::SExt: { u64 x = constScalar(ce->getOperand(0)); return m((u64) sextW(x, scalarW(ce->getOperand(0)->getType()))); }
    case Instruction::Add: return m(constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1)));
    case Instruction::Sub: return m(constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1)));
    case Instruction::Mul: return m(constScalar(ce->getOperand(0)) * constScalar(ce->getOperand(1)));
    case Instruction::And: return m(constScalar(ce->getOperand(0)) & constScalar(ce->getOperand(1)));
    case Instruction::Or: return m(constScalar(ce->getOperand(0)) | constScalar(ce->getOperand(1)));
    case Instruction::Xor: return m(constScalar(ce->getOperand(0)) ^ constScalar(ce->getOperand(1)));
    case Instruction::LShr: return m(constScalar(ce->getOperand(0)) >> constScalar(ce->getOperand(1)));
    case Instruction::Shl: return m(constScalar(ce->getOperand(0)) << constScalar(ce->getOperand(1)));
    case Instruction::ICmp: {
        u64 a = constScalar(ce->getOperand(0)), b = constScalar(ce->getOperand(1));
        switch (ce->getPredicate()) {
        case CmpInst::ICMP_EQ: return a == b;
        case CmpInst::ICMP_NE: return a != b;
        case CmpInst::ICMP_ULT: return a < b;
        case CmpInst::ICMP_ULE: return a <= b;
        case CmpInst::ICMP_UGT: return a > b;
        case CmpInst::ICMP_UGE: return a >= b;
        default: break;
        }
        [[fallthrough]];
    }
    default: errs() << "unsupported constexpr " << *ce << "\n"; abort();
    }
}

// ------------------------------------------------------------------ memory
Obj *Engine::newObj(State &s, u64 size, ObjKind k, const char *name, bool uninit, u64 align) {
    u64 nids = (size + 64) / (1ull << OBJ_SHIFT) + 1;
    u64 id   = s.nextId;
    if (s.tc) id = tcAllocId(s, size, k, name, nids);
    else s.nextId += nids;
    auto *o = new Obj;
    o->id = id; o->size = size; o->kind = k; o->name = name;
    o->d.resize(size, 0);
    if (uninit) o->s.assign(size, UNINIT());
    setObj(s, id, Ref<Obj>(o));
    return o;
}
void Engine::setObj(State &s, u64 id, Ref<Obj> o) {
    size_t ci = id / CHUNK;
    if (s.mem.size() <= ci) s.mem.resize(ci + 1);
    if (!s.mem[ci]) s.mem[ci] = Ref<Chunk>(new Chunk);
    s.mem[ci].unshare()->o[id % CHUNK] = std::move(o);
}
Obj *Engine::getObj(State &s, u64 id) {
    size_t ci = id / CHUNK;
    if (ci >= s.mem.size() || !s.mem[ci]) return nullptr;
    return s.mem[ci]->o[id % CHUNK].p;
}
Obj *Engine::getObjW(State &s, u64 id) {
    size_t ci = id / CHUNK;
    auto  *c  = s.mem[ci].unshare();
    return c->o[id % CHUNK].unshare();
}
Obj *Engine::objAt(State &s, u64 addr) {
    u64 id = addr >> OBJ_SHIFT;
    for (u64 back = 0; back < 8 && id > back; back++) { // objects larger than one id span several
        Obj *o = getObj(s, id - back);
        if (o) return (addr - (o->id << OBJ_SHIFT)) <= ((o->size >> OBJ_SHIFT) + 1) << OBJ_SHIFT ? o : nullptr;
        if (id - back < (u64) 1) break;
    }
    return nullptr;
}

V Engine::readBytes(State &s, Obj *o, u64 off, unsigned n, unsigned w) {
    if (o->s.empty()) {
        if (n <= 8) {
            u64 x = 0;
            memcpy(&x, &o->d[off], n);
            return V(w < 64 ? x & (((u64) 1 << w) - 1) : x);
        }
        u128 x = 0;
        memcpy(&x, &o->d[off], n);
        return V(mkConst(x, w));
    }
    bool allc = true, anyU = false;
    for (unsigned i = 0; i < n; i++) { Expr *e = o->s[off + i]; if (e) { allc = false; if (e == UNINIT()) anyU = true; } }
    if (allc) {
        u128 x = 0;
        memcpy(&x, &o->d[off], n);
        if (w <= 64) return V((u64) (x & maskW(w)));
        return V(mkConst(x, w));
    }
    if (anyU) {
        o = getObjW(s, o->id);
        // a wholly uninitialised scalar becomes one fresh variable
        bool allU = true;
        for (unsigned i = 0; i < n; i++) if (o->s[off + i] != UNINIT()) allU = false;
        if (allU && n <= 8 && n > 1) {
            Expr *v = mkVar("uninit", 8 * n, true);
            for (unsigned i = 0; i < n; i++) o->s[off + i] = mkExtract(v, 8 * i, 8);
        } else
            for (unsigned i = 0; i < n; i++) if (o->s[off + i] == UNINIT()) o->s[off + i] = mkVar("uninit", 8, true);
        uninitReads++;
    }
    Expr *r = nullptr;
    for (unsigned i = 0; i < n; i++) {
        Expr *b = o->s[off + i] ? o->s[off + i] : mkConst(o->d[off + i], 8);
        r       = r ? mkConcat(b, r) : b;
    }
    if (r->w > w) r = mkExtract(r, 0, w);
    return V(r);
}
void Engine::writeBytes(State &s, Obj *o, u64 off, unsigned n, unsigned w, V v) {
    if (v.conc()) {
        memcpy(&o->d[off], &v.c, n > 8 ? 8 : n);
        if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
        return;
    }
    Expr *e = v.e;
    if (e->w < 8 * n) e = mkZExt(e, 8 * n);
    if (e->isConst()) {
        memcpy(&o->d[off], &e->v, n);
        if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
        return;
    }
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    for (unsigned i = 0; i < n; i++) {
        Expr *b = mkExtract(e, 8 * i, 8);
        if (b->isConst()) { o->d[off + i] = (uint8_t) b->cv(); o->s[off + i] = nullptr; }
        else o->s[off + i] = b;
    }
}

// ------------------------------------------------------------------ path condition / forking
void Engine::addPC(State &s, Expr *c) {
    if (c->isConst()) return;
    if (c->w == 1 && c->k == KAnd && c->vs->v.size() > 1) { s.known.insert(c); addPC(s, c->a); addPC(s, c->b); return; }
    if (c->w == 1 && c->k == KXor && c->b->isConst() && c->b->v && c->a->k == KOr && c->vs->v.size() > 1) { s.known.insert(c); addPC(s, mkNot(c->a->a)); addPC(s, mkNot(c->a->b)); return; }
    if (!s.known.insert(c).second) return;
    s.pc.push_back(c);
    if (c->k == KEq && c->b->isConst() && c->a->w <= 64) s.eq[c->a] = c->b->cv();
}
// Rewrites an expression with the conditions and equalities known on this path.
static Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c) {
    switch (e->k) {
    case KIte: return mkIte(a, b, c);
    case KZExt: return mkZExt(a, e->w);
    case KSExt: return mkSExt(a, e->w);
    case KExtract: return mkExtract(a, (unsigned) e->v, e->w);
    case KConcat: return mkConcat(a, b);
    default: return mkBin(e->k, a, b);
    }
}
Expr *Engine::under(State &s, Expr *root) {
    if (root->isConst() || root->k == KVar) { auto q = s.eq.find(root); return q != s.eq.end() ? mkConst(q->second, root->w) : root; }
    std::unordered_map<Expr *, Expr *> memo;
    int budget = 600;
    std::function<Expr *(Expr *)> go = [&](Expr *e) -> Expr * {
        if (e->isConst()) return e;
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        if (--budget < 0) return e;
        Expr *r = e;
        if (e->w == 1) {
            if (s.known.count(e)) r = mkConst(1, 1);
            else if (s.known.count(mkNot(e))) r = mkConst(0, 1);
        }
        if (r == e) { auto q = s.eq.find(e); if (q != s.eq.end()) r = mkConst(q->second, e->w); }
        if (r == e && e->k != KVar && e->k < KFAdd) {
            if (e->k == KIte) {
                Expr *c = go(e->a);
                if (c->isConst()) r = go(c->v ? e->b : e->c);
                else { Expr *x = go(e->b), *y = go(e->c); if (c != e->a || x != e->b || y != e->c) r = mkIte(c, x, y); }
            } else {
                Expr *a = go(e->a), *b = e->b ? go(e->b) : nullptr;
                if (a != e->a || b != e->b) r = rebuild(e, a, b, nullptr);
            }
        }
        return memo[e] = r;
    };
    return go(root);
}
// Decide a branch for the current state; the other feasible side is queued and re-executes the current instruction.
bool Engine::branch(State &s, Expr *c) {
    if (c->isConst()) return c->v != 0;
    if (s.known.count(c)) return true;
    Expr *n = mkNot(c);
    if (s.known.count(n)) return false;
    bool side  = evalExpr(c, s.model) != 0;
    Expr *mine = side ? c : n, *other = side ? n : c;
    Assign m2;
    Res    r = checkSat(s.pc, other, s.model, m2);
    if (r == Res::Unknown) { incomplete("solver gave up on a branch condition"); r = Res::Unsat; }
    if (r == Res::Sat) {
        auto *t = new State(s);
        if (!t->stack.empty()) { auto *g = new Frame(*s.stack.back().p); g->rc = 0; t->stack.back() = Ref<Frame>(g); } // callers hold a raw pointer to s's top frame
        t->model = std::move(m2);
        addPC(*t, other);
        t->depth++;
        s.depth++;
        forks++;
        work.push_back(t);
    }
    addPC(s, mine);
    return side;
}
bool Engine::branchV(State &s, V c) {
    if (c.conc()) return c.c & 1;
    return branch(s, c.e);
}
u64 Engine::concretize(State &s, V v, unsigned w) {
    if (v.conc()) return v.c;
    v = underV(s, v);
    if (v.conc()) return v.c;
    u64 x = (u64) evalExpr(v.e, s.model);
    Expr *c = mkEq(v.e, mkConst(x, w));
    if (c->isConst()) return x;
    branch(s, c);
    s.eq[v.e] = x;
    return x;
}
void Engine::assume(State &s, V c) {
    if (c.conc()) { if (!(c.c & 1)) throw Kill{ "assume" }; return; }
    if (s.known.count(c.e)) return;
    if (!evalExpr(c.e, s.model)) {
        Assign m2;
        Res    r = checkSat(s.pc, c.e, s.model, m2);
        if (r == Res::Unknown) { incomplete("solver gave up on an assumption"); throw Kill{ "unknown" }; }
        if (r == Res::Unsat) throw Kill{ "assume" };
        s.model = std::move(m2);
    }
    addPC(s, c.e);
}

std::string Engine::where(State &s) {
    std::string out;
    int         n = 0;
    for (size_t i = s.stack.size(); i-- > 0 && n < 12;) {
        Frame &f = *s.stack[i].p;
        if (f.pc < 0 || f.pc >= (int) f.fn->code.size()) continue;
        Instruction *I = f.fn->code[f.pc].I;
        if (!I) continue;
        const DILocation *l = I->getDebugLoc();
        while (l && n < 12) {
            out += (out.empty() ? "" : " <- ") + l->getScope()->getSubprogram()->getName().str() + "@" + l->getFilename().str() + ":" + std::to_string(l->getLine());
            l = l->getInlinedAt();
            n++;
        }
        if (!I->getDebugLoc()) { out += (out.empty() ? "" : " <- ") + f.fn->F->getName().str(); n++; }
    }
    return out;
}

void Engine::report(State &s, const std::string &kind, const std::string &msg, const Assign &m) {
    Violation v;
    v.kind  = kind;
    v.msg   = msg;
    v.where = where(s);
    v.notes = s.notes;
    newEpoch();
    for (auto &i : s.inputs) {
        u128 x = evalExprEpoch(i.e, m);
        char b[80];
        if (i.w > 64) snprintf(b, 80, " %u %llx%016llx", i.w, (unsigned long long) (u64) (x >> 64), (unsigned long long) (u64) x);
        else snprintf(b, 80, " %u %llx", i.w, (unsigned long long) (u64) x);
        v.inputs.push_back(i.name + b);
    }
    emitViolation(v);
}
// report and end this path
void Engine::fail(State &s, const std::string &kind, const std::string &msg) {
    if (s.tc) { tcFail(s, kind, msg); throw Kill{ "violation" }; }
    report(s, kind, msg, s.model);
    throw Kill{ "violation" };
}
void Engine::assertV(State &s, V c, const std::string &msg) {
    assertsSeen++;
    if (c.conc()) {
        if (c.c & 1) return;
        fail(s, "assert", msg);
    }
    if (s.known.count(c.e)) return;
    if (s.tc) { tcAssert(s, c.e, msg); assume(s, c); return; }
    if (c.e->k == KAnd && c.e->w == 1) { // conjunctions are discharged conjunct by conjunct
        std::vector<Expr *> parts, st{ c.e };
        while (!st.empty()) { Expr *e = st.back(); st.pop_back(); if (e->k == KAnd) { st.push_back(e->b); st.push_back(e->a); } else parts.push_back(e); }
        for (auto *e : parts) { assertsSeen--; assertV(s, V(e), msg); }
        return;
    }
    Expr *n = mkNot(c.e);
    Assign m2;
    gSS.assertQueries++;
    Res r = checkSat(s.pc, n, s.model, m2, true);
    if (r == Res::Unknown) { incomplete("solver gave up on an assertion: " + msg); }
    else if (r == Res::Sat) { if (gOpt.verbose) fprintf(stderr, "assert cond: %s\n", exprStr(c.e, 14).c_str()); report(s, "assert", msg, m2); }
    else gSS.assertUnsat++;
    assume(s, c);
}
Expr *Engine::conj(const std::vector<Expr *> &v) {
    Expr *r = mkConst(1, 1);
    for (auto *e : v) r = mkAndB(r, e);
    return r;
}

// ------------------------------------------------------------------ symbolic addressing
// Returns the object and leaves the (possibly symbolic) offset; guarantees [off, off+n) in bounds on this path.
Obj *Engine::resolve(State &s, V addr, u64 n, V &off, bool write) {
    if (addr.conc()) {
        Obj *o = objAt(s, addr.c);
        u64  base = o ? o->id << OBJ_SHIFT : 0;
        if (!o || addr.c - base > o->size || o->size - (addr.c - base) < n) memError(s, addr.c, o, n, write);
        if (o->freed) memError(s, addr.c, o, n, write);
        if (write && o->ro) fail(s, "memory", std::string("write to constant object ") + o->name);
        off = V(addr.c - base);
        return o;
    }
    { V a2 = underV(s, addr); if (a2.conc()) return resolve(s, a2, n, off, write); addr = a2; }
    u64  a    = (u64) evalExpr(addr.e, s.model);
    Obj *o    = objAt(s, a);
    u64  base = o ? o->id << OBJ_SHIFT : 0;
    if (!o || o->freed || a - base > o->size || o->size - (a - base) < n) memError(s, a, o, n, write);
    if (write && o->ro) fail(s, "memory", std::string("write to constant object ") + o->name);
    Expr *offE = mkBin(KSub, addr.e, mkConst(base, 64));
    Expr *in   = mkBin(KUle, offE, mkConst(o->size - n, 64));
    branch(s, in); // model says in bounds; the sibling (if feasible) retries with the complement
    off = V(offE);
    if (write || (gOpt.concHeap && o->kind >= OMalloc && o->kind <= ONewArr)) off = V(concretize(s, off, 64)); // stores (and, on request, loads from the heap) go to one concrete place per path
    return o;
}
void Engine::memError(State &s, u64 addr, Obj *o, u64 n, bool write) {
    char b[256];
    if (o && o->freed) snprintf(b, 256, "%s of %llu bytes at offset %lld of freed object '%s' (size %llu)", write ? "write" : "read", (unsigned long long) n, (long long) (addr - (o->id << OBJ_SHIFT)), o->name, (unsigned long long) o->size);
    else if (o) snprintf(b, 256, "out-of-bounds %s of %llu bytes at offset %lld of object '%s' (size %llu)", write ? "write" : "read", (unsigned long long) n, (long long) (addr - (o->id << OBJ_SHIFT)), o->name, (unsigned long long) o->size);
    else snprintf(b, 256, "%s of %llu bytes through invalid pointer 0x%llx", write ? "write" : "read", (unsigned long long) n, (unsigned long long) addr);
    fail(s, "memory", b);
}
// feasible offset range under the path condition, found by binary probing (only for large objects)
V Engine::loadAt(State &s, Obj *o, V off, unsigned n, unsigned w) {
    if (off.conc()) return readBytes(s, o, off.c, n, w);
    auto it = s.eq.find(off.e);
    if (it != s.eq.end()) return readBytes(s, o, it->second, n, w);
    if (o->size - n + 1 > 4096) { u64 c = concretize(s, off, 64); return readBytes(s, getObj(s, o->id), c, n, w); }
    unsigned step = 1;
    { // offsets known to be multiples of 2^k?
        Expr *e = off.e; unsigned tz = 0;
        if (e->k == KAdd && e->b->isConst()) { u64 c = e->b->cv(); Expr *x = e->a; if (x->k == KConcat && x->b->isConst() && x->b->v == 0) { tz = x->b->w; while (tz && (c & ((1ull << tz) - 1))) tz--; } }
        else if (e->k == KConcat && e->b->isConst() && e->b->v == 0) tz = e->b->w;
        else if (e->k == KZExt && e->a->k == KConcat && e->a->b->isConst() && e->a->b->v == 0) tz = e->a->b->w;
        step = 1u << std::min(tz, 4u);
    }
    // ITE over offsets, runs of equal values merged
    struct Run { u64 lo; Expr *v; };
    std::vector<Run> runs;
    u64 ofirst = 0, olast = o->size - n;
    std::pair<u64, u64> rg = offRange(off.e);
    ofirst = std::max(ofirst, rg.first); olast = std::min(olast, rg.second);
    if (ofirst % step) ofirst += step - ofirst % step;
    u64 id = o->id;
    for (u64 i = ofirst; i <= olast; i += step) {
        Expr *v = readBytes(s, getObj(s, id), i, n, w).ex(w);
        if (runs.empty() || runs.back().v != v) runs.push_back({ i, v });
    }
    if (runs.empty()) fail(s, "memory", "empty offset range");
    Expr *r = runs[0].v;
    // balanced decision tree on offset
    std::function<Expr *(size_t, size_t)> build = [&](size_t lo, size_t hi) -> Expr * {
        if (lo + 1 == hi) return runs[lo].v;
        size_t mid = (lo + hi) / 2;
        return mkIte(mkBin(KUlt, off.e, mkConst(runs[mid].lo, 64)), build(lo, mid), build(mid, hi));
    };
    r = build(0, runs.size());
    return V(r);
}
std::pair<u64, u64> Engine::offRange(Expr *e) {
    // cheap interval for zext'ed small indices plus constant
    u64 c = 0;
    if (e->k == KAdd && e->b->isConst()) { c = e->b->cv(); e = e->a; }
    unsigned sh = 0;
    if (e->k == KConcat && e->b->isConst() && e->b->v == 0) { sh = e->b->w; e = e->a; }
    if (e->k == KZExt && e->a->k == KConcat && e->a->b->isConst() && e->a->b->v == 0) { sh = e->a->b->w; e = e->a->a; }
    else if (e->k == KZExt) e = e->a;
    if (e->w + sh < 40) {
        u64 mx = ((1ull << e->w) - 1) << sh;
        if (c + mx >= c) return { c, c + mx };
    }
    return { 0, ~0ull };
}
void Engine::storeAt(State &s, Obj *o, V off, unsigned n, unsigned w, V v) {
    if (!off.conc()) {
        auto it = s.eq.find(off.e);
        if (it != s.eq.end()) off = V(it->second);
    }
    if (off.conc()) { o = getObjW(s, o->id); writeBytes(s, o, off.c, n, w, v); return; }
    if (o->size - n + 1 > 512) { u64 c = concretize(s, off, 64); o = getObjW(s, o->id); writeBytes(s, o, c, n, w, v); return; }
    u64 id = o->id;
    Expr *ve = v.ex(w);
    if (ve->w < 8 * n) ve = mkZExt(ve, 8 * n);
    std::pair<u64, u64> rg = offRange(off.e);
    std::vector<Expr *> nb(o->size, nullptr);
    for (u64 i = 0; i < o->size; i++) {
        Expr *cur = nullptr;
        for (unsigned j = 0; j < n; j++) {
            if (i < j || i - j > o->size - n) continue;
            u64 start = i - j;
            if (start < rg.first || start > rg.second) continue;
            Expr *c = mkEq(off.e, mkConst(start, 64));
            if (c->isConst() && !c->v) continue;
            if (!cur) cur = readBytes(s, getObj(s, id), i, 1, 8).ex(8);
            cur = mkIte(c, mkExtract(ve, 8 * j, 8), cur);
        }
        nb[i] = cur;
    }
    o = getObjW(s, id);
    for (u64 i = 0; i < o->size; i++) if (nb[i]) writeBytes(s, o, i, 1, 8, V(nb[i]));
}

// ------------------------------------------------------------------ compile
void Engine::addOp(CInst &ci, Value *v, std::unordered_map<Value *, int> &reg) {
    ci.opStart.push_back((int) ci.ops.size());
    if (auto *c = dyn_cast<Constant>(v)) {
        std::vector<V> o;
        constSlots(c, o);
        for (auto &x : o) { Opnd p; p.k = x; ci.ops.push_back(p); }
    } else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) {
    } else {
        auto it = reg.find(v);
        if (it == reg.end()) { errs() << "no reg for " << *v << "\n"; abort(); }
        int n = nSlots(v->getType());
        for (int i = 0; i < n; i++) { Opnd p; p.reg = it->second + i; ci.ops.push_back(p); }
    }
}
static std::string repoFn(const DISubprogram *sp) {
    std::string f = sp->getFilename().str();
    if (f.find("/repo/") == std::string::npos) return "";
    return f.substr(f.find("/repo/") + 6) + ":" + sp->getName().str();
}
CFunc *Engine::compile(Function *F) {
    auto &slot = cfs[F];
    if (slot) return slot;
    auto *cf = new CFunc;
    slot     = cf;
    cf->F    = F;
    std::unordered_map<Value *, int> reg;
    int n = 0;
    for (auto &a : F->args()) {
        cf->argSlot.push_back(n);
        int k = nSlots(a.getType());
        cf->argN.push_back(k);
        cf->byval.push_back(a.hasByValAttr() ? (u64) DL->getTypeAllocSize(a.getParamByValType()) : 0);
        reg[&a] = n;
        n += k;
    }
    for (auto &bb : *F) for (auto &I : bb) { int k = nSlots(I.getType()); if (k) { reg[&I] = n; n += k; } }
    cf->nregs = n;
    cf->regW.assign((size_t) n, 0); cf->regPtr.assign((size_t) n, 0);
    for (auto &p : reg) {
        std::vector<std::pair<u64, unsigned>> lv;
        leaves(p.first->getType(), 0, lv);
        for (size_t i = 0; i < lv.size(); i++) cf->regW[(size_t) p.second + i] = lv[i].second;
        if (p.first->getType()->isPointerTy()) cf->regPtr[(size_t) p.second] = 1;
    }
    std::unordered_map<BasicBlock *, int> start;
    int pc = 0;
    for (auto &bb : *F) {
        start[&bb] = pc;
        for (auto &I : bb) if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) pc++;
    }
    auto edge = [&](BasicBlock *from, BasicBlock *to) {
        Edge e;
        e.pc = start[to];
        for (auto &phi : to->phis()) {
            Value *v = phi.getIncomingValueForBlock(from);
            CInst  tmp;
            addOp(tmp, v, reg);
            for (size_t i = 0; i < tmp.ops.size(); i++) e.moves.push_back({ reg[&phi] + (int) i, tmp.ops[i] });
        }
        return e;
    };
    for (auto &bb : *F) {
        for (auto &I : bb) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            CInst ci;
            ci.op     = I.getOpcode();
            ci.I      = &I;
            ci.nslots = nSlots(I.getType());
            ci.dst    = ci.nslots ? reg[&I] : -1;
            ci.w      = ci.nslots == 1 ? scalarW(I.getType()) : 0;
            if (ci.nslots == 1 && ci.w == 0) { std::vector<std::pair<u64, unsigned>> lv; leaves(I.getType(), 0, lv); ci.w = lv[0].second; }
            if (const DILocation *l = I.getDebugLoc()) {
                const DILocation *ll = l;
                while (ll) {
                    if (auto *sp = ll->getScope()->getSubprogram()) {
                        std::string f = repoFn(sp);
                        if (!f.empty()) { auto it = covIds.find(f); if (it == covIds.end()) { covIds[f] = (int) covNames.size(); covNames.push_back(f); covHit.push_back(0); ci.covId = (int) covNames.size() - 1; } else ci.covId = it->second; break; }
                    }
                    ll = ll->getInlinedAt();
                }
            }
            if (isa<BranchInst>(I)) {
                auto &b = cast<BranchInst>(I);
                if (b.isConditional()) addOp(ci, b.getCondition(), reg);
                for (unsigned i = 0; i < b.getNumSuccessors(); i++) ci.edges.push_back(edge(&bb, b.getSuccessor(i)));
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                addOp(ci, sw->getCondition(), reg);
                ci.aw = scalarW(sw->getCondition()->getType());
                std::map<BasicBlock *, int> em;
                auto                        eid = [&](BasicBlock *b) { auto it = em.find(b); if (it != em.end()) return it->second; int k = (int) ci.edges.size(); ci.edges.push_back(edge(&bb, b)); return em[b] = k; };
                eid(sw->getDefaultDest());
                for (auto &c : sw->cases()) ci.cases.push_back({ c.getCaseValue()->getValue().getLimitedValue(), eid(c.getCaseSuccessor()) });
            } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                for (auto &a : cb->args()) addOp(ci, a.get(), reg);
                Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                if (auto *cfn = dyn_cast<Function>(cv)) { ci.callee = cfn; }
                else addOp(ci, cb->getCalledOperand(), reg);
                if (auto *inv = dyn_cast<InvokeInst>(&I)) {
                    ci.edges.push_back(edge(&bb, inv->getNormalDest()));
                    ci.edges.push_back(edge(&bb, inv->getUnwindDest()));
                }
            } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                addOp(ci, g->getPointerOperand(), reg);
                if (g->getType()->isVectorTy()) { ci.op = 9999; }
                else {
                    for (auto gi = gep_type_begin(g); gi != gep_type_end(g); ++gi) {
                        Value *idx = gi.getOperand();
                        if (auto *st = gi.getStructTypeOrNull()) ci.off += (u64) DL->getStructLayout(st)->getElementOffset((unsigned) cast<ConstantInt>(idx)->getZExtValue());
                        else {
                            u64 es = DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto *c = dyn_cast<ConstantInt>(idx)) ci.off += (u64) (c->getSExtValue() * (int64_t) es);
                            else { int k = (int) ci.ops.size(); addOp(ci, idx, reg); ci.gep.push_back({ k, (int64_t) es }); ci.gepW.push_back(scalarW(idx->getType())); }
                        }
                    }
                }
            } else {
                for (auto &o : I.operands()) addOp(ci, o.get(), reg);
                if (I.getNumOperands() && !isa<LandingPadInst>(I)) {
                    Type *ot = I.getOperand(0)->getType();
                    if (auto *vt = dyn_cast<VectorType>(ot)) ot = vt->getElementType();
                    ci.aw = scalarW(ot);
                }
                Type *mt = nullptr;
                if (auto *l = dyn_cast<LoadInst>(&I)) mt = l->getType();
                if (auto *st = dyn_cast<StoreInst>(&I)) mt = st->getValueOperand()->getType();
                if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) mt = cx->getNewValOperand()->getType();
                if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) mt = rm->getValOperand()->getType();
                if (mt) { leaves(mt, 0, ci.leaves); ci.accSize = DL->getTypeStoreSize(mt); }
            }
            cf->code.push_back(std::move(ci));
        }
    }
    // block structure, for merging side-effect-free regions
    std::unordered_map<BasicBlock *, int> bi;
    for (auto &bb : *F) { int k = (int) bi.size(); bi[&bb] = k; cf->bbs.emplace_back(); cf->bbAt[start[&bb]] = k; }
    {
        ReversePostOrderTraversal<Function *> rpo(F);
        int n2 = 0;
        for (auto *bb : rpo) cf->bbs[(size_t) bi[bb]].rpo = ++n2;
    }
    for (auto &bb : *F) {
        auto &b = cf->bbs[(size_t) bi[&bb]];
        b.start = start[&bb];
        int n2 = 0; bool pure = !bb.isEHPad() && (isa<BranchInst>(bb.getTerminator()) || isa<SwitchInst>(bb.getTerminator()));
        for (auto &I : bb) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            n2++;
            if (I.isTerminator()) break;
            switch (I.getOpcode()) {
            case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Store: case Instruction::Alloca: case Instruction::AtomicCmpXchg: case Instruction::AtomicRMW:
            case Instruction::Fence: case Instruction::Invoke: case Instruction::LandingPad: case Instruction::VAArg: pure = false; break;
            case Instruction::Load: if (cast<LoadInst>(I).isAtomic() || cast<LoadInst>(I).isVolatile()) pure = false; break;
            case Instruction::Call: {
                auto *cf2 = cast<CallInst>(I).getCalledFunction();
                bool  ok = false;
                if (cf2) switch (cf2->getIntrinsicID()) {
                case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::abs: case Intrinsic::assume: case Intrinsic::expect: case Intrinsic::lifetime_start:
                case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::bswap: case Intrinsic::is_constant: ok = true; break;
                default: break;
                }
                if (!ok) pure = false;
                break;
            }
            default: break;
            }
        }
        b.end = b.start + n2 - 1;
        b.pure = pure;
        std::set<int> ps;
        for (auto *p : predecessors(&bb)) ps.insert(bi[p]);
        b.preds.assign(ps.begin(), ps.end());
    }
    return cf;
}

// ------------------------------------------------------------------ calls
void Engine::pushFrame(State &s, CFunc *cf, const std::vector<V> &args) {
    if (s.stack.size() > 2000) fail(s, "stack-overflow", "call depth exceeds 2000");
    auto *f = new Frame;
    f->fn   = cf;
    f->r.resize(cf->nregs);
    cf->execs++;
    size_t ai = 0;
    for (size_t i = 0; i < cf->argSlot.size(); i++)
        for (int k = 0; k < cf->argN[i]; k++) if (ai < args.size()) f->r[cf->argSlot[i] + k] = args[ai++];
    for (size_t i = 0; i < cf->byval.size(); i++) if (cf->byval[i]) {
        V    p = f->r[cf->argSlot[i]];
        V    off;
        Obj *src = resolve(s, p, cf->byval[i], off, false);
        u64  o   = concretize(s, off, 64);
        src      = getObj(s, src->id);
        Obj *dst = newObj(s, cf->byval[i], OStack, "byval", false);
        copyRange(s, dst->id, 0, src->id, o, cf->byval[i]);
        f->allocas.push_back(dst->id);
        f->r[cf->argSlot[i]] = V(dst->id << OBJ_SHIFT);
    }
    f->pc = 0;
    s.stack.push_back(Ref<Frame>(f));
}
void Engine::copyRange(State &s, u64 dId, u64 dOff, u64 sId, u64 sOff, u64 n) {
    if (!n) return;
    Obj *src = getObj(s, sId);
    if (dId == sId) {
        Obj *o = getObjW(s, dId);
        memmove(&o->d[dOff], &o->d[sOff], n);
        if (!o->s.empty()) memmove(&o->s[dOff], &o->s[sOff], n * sizeof(Expr *));
        return;
    }
    Obj *dst = getObjW(s, dId);
    src      = getObj(s, sId);
    memcpy(&dst->d[dOff], &src->d[sOff], n);
    if (!src->s.empty()) {
        if (dst->s.empty()) dst->s.assign(dst->size, nullptr);
        memcpy(&dst->s[dOff], &src->s[sOff], n * sizeof(Expr *));
    } else if (!dst->s.empty()) std::fill(dst->s.begin() + (long) dOff, dst->s.begin() + (long) (dOff + n), nullptr);
}
void Engine::popFrame(State &s) {
    Frame *f = s.stack.back().p;
    for (u64 id : f->allocas) freeObj(s, id);
    s.stack.pop_back();
}
void Engine::freeObj(State &s, u64 id) {
    // keep a tombstone (no contents) so later uses are reported as use-after-free
    if (s.tc) tcFree(s, id);
    Obj *o = getObj(s, id);
    auto *t = new Obj;
    t->id = id; t->size = o->size; t->kind = o->kind; t->name = o->name; t->freed = true;
    setObj(s, id, Ref<Obj>(t));
}
void Engine::takeEdge(State &s, Frame *f, const Edge &e) {
    if (!e.moves.empty()) {
        static std::vector<V> tmp;
        tmp.clear();
        for (auto &m : e.moves) tmp.push_back(m.second.reg >= 0 ? f->r[m.second.reg] : m.second.k);
        for (size_t i = 0; i < e.moves.size(); i++) f->r[e.moves[i].first] = tmp[i];
    }
    f->pc = e.pc;
}
// Executes the side-effect-free blocks dominated by the branch at f->pc on all sides at once; values are merged with ITEs.
// Returns false if there is nothing to merge; otherwise control is at one of the exits (forking between exits where needed).
bool Engine::mergeRegion(State &s, Frame *f) {
    CFunc *cf = f->fn;
    int    bpc = f->pc;
    struct Pend { int tgt; Expr *g; std::vector<std::pair<int, V>> mv; };
    std::vector<Pend> pend;
    std::vector<int>  done;
    auto              val = [&](const Opnd &o) { return o.reg >= 0 ? f->r[(size_t) o.reg] : o.k; };
    auto addEdge = [&](const Edge &e, Expr *g) {
        if (g->isConst() && !g->v) return;
        Pend p; p.tgt = e.pc; p.g = g;
        for (auto &m : e.moves) p.mv.push_back({ m.first, val(m.second) });
        pend.push_back(std::move(p));
    };
    auto terminator = [&](int pc, Expr *g) {
        CInst &t = cf->code[(size_t) pc];
        if (t.op == Instruction::Br) {
            if (t.edges.size() == 1) { addEdge(t.edges[0], g); return; }
            V c = val(t.ops[0]);
            if (c.conc()) { addEdge(t.edges[(c.c & 1) ? 0 : 1], g); return; }
            addEdge(t.edges[0], mkAndB(g, c.e));
            addEdge(t.edges[1], mkAndB(g, mkNot(c.e)));
        } else {
            V c = val(t.ops[0]);
            if (c.conc()) { int k = 0; for (auto &x : t.cases) if ((u64) x.first == c.c) { k = x.second; break; } addEdge(t.edges[(size_t) k], g); return; }
            std::vector<Expr *> ge(t.edges.size(), mkConst(0, 1));
            Expr *rest = mkConst(1, 1);
            for (auto &x : t.cases) {
                Expr *q = mkEq(c.e, mkConst(x.first, t.aw));
                ge[(size_t) x.second] = mkOrB(ge[(size_t) x.second], q);
                if (x.second != 0) rest = mkAndB(rest, mkNot(q));
            }
            ge[0] = rest;
            for (size_t i = 0; i < ge.size(); i++) addEdge(t.edges[i], mkAndB(g, ge[i]));
        }
    };
    auto compatible = [&](const Pend &a, const Pend &b) {
        for (size_t i = 0; i < a.mv.size(); i++) {
            V x = a.mv[i].second, y = b.mv[i].second;
            if (x.conc() && y.conc()) {
                if (x.c != y.c && (x.c > 0xff || y.c > 0xff) && ((x.c >> OBJ_SHIFT) != 0 || (y.c >> OBJ_SHIFT) != 0)) return false; // pointers
                if (x.c != y.c && cf->wide(a.mv[i].first)) return false;
            } else if (cf->isPtr(a.mv[i].first)) { if (x.e != y.e || x.c != y.c) return false; }
        }
        return true;
    };
    // find the block of the branch
    int b0 = -1;
    { int lo = bpc; while (lo >= 0) { auto it = cf->bbAt.find(lo); if (it != cf->bbAt.end()) { b0 = it->second; break; } lo--; } }
    done.push_back(b0);
    terminator(bpc, mkConst(1, 1));
    if (pend.size() < 2) return false;
    auto isDone = [&](int b) { for (int d : done) if (d == b) return true; return false; };
    std::vector<int> bad;
    while (done.size() < 24) {
        int best = -1, brpo = 1 << 30;
        for (auto &p : pend) {
            int b = cf->bbAt[p.tgt];
            auto &bi = cf->bbs[(size_t) b];
            if (!bi.pure || bi.rpo <= cf->bbs[(size_t) b0].rpo || isDone(b) || std::find(bad.begin(), bad.end(), b) != bad.end()) continue;
            bool ok = true;
            for (int q : bi.preds) if (!isDone(q)) { ok = false; break; }
            if (ok && bi.rpo < brpo) { brpo = bi.rpo; best = b; }
        }
        if (best < 0) break;
        auto &bi = cf->bbs[(size_t) best];
        std::vector<size_t> in;
        for (size_t i = 0; i < pend.size(); i++) if (pend[i].tgt == bi.start) in.push_back(i);
        bool ok = true;
        for (size_t i = 1; i < in.size() && ok; i++) for (size_t j = 0; j < i && ok; j++) ok = compatible(pend[in[i]], pend[in[j]]);
        if (!ok) { bad.push_back(best); continue; }
        Expr *g = pend[in[0]].g;
        std::vector<std::pair<int, V>> mv = pend[in[0]].mv;
        for (size_t i = 1; i < in.size(); i++) {
            for (size_t k = 0; k < mv.size(); k++) {
                V &x = mv[k].second, y = pend[in[i]].mv[k].second;
                if (x.e == y.e && x.c == y.c) continue;
                unsigned w = cf->regW[(size_t) mv[k].first];
                x = V(mkIte(pend[in[i]].g, y.ex(w), x.ex(w)));
            }
            g = mkOrB(g, pend[in[i]].g);
        }
        for (auto &m : mv) f->r[(size_t) m.first] = m.second;
        // run the block
        for (int pc = bi.start; pc < bi.end && ok; pc++) {
            CInst &ci = cf->code[(size_t) pc];
            if (ci.op == Instruction::Load) {
                V a = val(ci.ops[0]);
                if (s.tc || !a.conc()) { ok = false; break; }
                Obj *o = objAt(s, a.c);
                if (!o || o->freed || o->kind == OFunc) { ok = false; break; }
                u64 off = a.c - (o->id << OBJ_SHIFT);
                if (off + ci.accSize > o->size) { ok = false; break; }
                if (!o->s.empty()) for (u64 i = 0; i < ci.accSize; i++) if (o->s[off + i] == UNINIT()) { ok = false; break; }
                if (!ok) break;
            } else if (ci.op == Instruction::Select && ci.I->getType()->isPointerTy()) {
                V c = val(ci.ops[0]), x = val(ci.ops[(size_t) ci.opStart[1]]), y = val(ci.ops[(size_t) ci.opStart[2]]);
                if (!c.conc() && !(x.e == y.e && x.c == y.c)) { ok = false; break; }
            }
            f->pc = pc;
            step(s);
            steps++;
        }
        f->pc = bpc;
        if (!ok) { bad.push_back(best); continue; }
        std::vector<Pend> rest;
        for (auto &p : pend) if (p.tgt != bi.start) rest.push_back(std::move(p));
        pend = std::move(rest);
        done.push_back(best);
        terminator(bi.end, g);
    }
    if (done.size() == 1) return false;
    // exits, grouped by target
    struct Grp { Expr *g; std::vector<size_t> e; };
    std::vector<Grp> gs;
    for (size_t i = 0; i < pend.size(); i++) {
        bool put = false;
        for (auto &q : gs) {
            if (pend[q.e[0]].tgt != pend[i].tgt) continue;
            bool ok = true;
            for (size_t j : q.e) if (!compatible(pend[i], pend[j])) { ok = false; break; }
            if (!ok) continue;
            q.e.push_back(i); q.g = mkOrB(q.g, pend[i].g); put = true; break;
        }
        if (!put) gs.push_back({ pend[i].g, { i } });
    }
    merges++;
    size_t pick = 0;
    if (gs.size() > 1) {
        // the last group is the complement of the others, so that two exits cost one query
        Expr *o = mkConst(0, 1);
        for (size_t i = 0; i + 1 < gs.size(); i++) o = mkOrB(o, gs[i].g);
        gs.back().g = mkNot(o);
        bool found = false;
        for (size_t i = 0; i < gs.size(); i++) if (gs[i].g->isConst() ? gs[i].g->v != 0 : evalExpr(gs[i].g, s.model) != 0) { pick = i; found = true; break; }
        if (!found) return false;
        if (!gs[pick].g->isConst() && !branch(s, gs[pick].g)) return true; // (known complement) retried with the updated model
    }
    auto &q = gs[pick];
    std::vector<std::pair<int, V>> mv = pend[q.e[0]].mv;
    for (size_t i = 1; i < q.e.size(); i++) for (size_t k = 0; k < mv.size(); k++) {
        V &x = mv[k].second, y = pend[q.e[i]].mv[k].second;
        if (x.e == y.e && x.c == y.c) continue;
        x = V(mkIte(pend[q.e[i]].g, y.ex(cf->regW[(size_t) mv[k].first]), x.ex(cf->regW[(size_t) mv[k].first])));
    }
    for (auto &m : mv) f->r[(size_t) m.first] = m.second;
    f->pc = pend[q.e[0]].tgt;
    return true;
}
void Engine::doReturn(State &s, const std::vector<V> &vals) {
    popFrame(s);
    if (s.stack.empty()) throw Done{};
    Frame *f = s.stack.back().unshare();
    CInst &ci = f->fn->code[f->pc];
    if (ci.dst >= 0 && !s_skipRet) for (int i = 0; i < ci.nslots; i++) f->r[ci.dst + i] = i < (int) vals.size() ? vals[i] : V(0);
    if (!ci.edges.empty() && isa<InvokeInst>(ci.I)) takeEdge(s, f, ci.edges[0]);
    else f->pc++;
}

// ------------------------------------------------------------------ exceptions
static u64 rd64(Engine &E, State &s, u64 addr) {
    Obj *o = E.objAt(s, addr);
    if (!o || o->freed || addr - (o->id << OBJ_SHIFT) + 8 > o->size) return 0;
    V v = E.readBytes(s, o, addr - (o->id << OBJ_SHIFT), 8, 64);
    return v.conc() ? v.c : 0;
}
// is 'from' the same as or derived from 'to'? on success adds base offset to ptr
bool Engine::tiDerived(State &s, u64 from, u64 to, u64 obj, u64 &ptr) {
    if (from == to) { return true; }
    if (!from) return false;
    // compare by name as a fallback (same type emitted twice)
    u64 vt = rd64(*this, s, from);
    if (vt == tiSI) return tiDerived(s, rd64(*this, s, from + 16), to, obj, ptr);
    if (vt == tiVMI) {
        u64 fc = rd64(*this, s, from + 16);
        u64 n  = fc >> 32;
        for (u64 i = 0; i < n; i++) {
            u64 bti = rd64(*this, s, from + 24 + 16 * i), of = rd64(*this, s, from + 32 + 16 * i);
            int64_t off = (int64_t) of >> 8;
            if (!(of & 2)) continue; // not public
            u64 p2 = ptr;
            if (of & 1) { u64 vtab = rd64(*this, s, p2); off = (int64_t) rd64(*this, s, vtab + (u64) off); }
            p2 += (u64) off;
            if (tiDerived(s, bti, to, obj, p2)) { ptr = p2; return true; }
        }
    }
    return false;
}
void Engine::unwind(State &s) {
    u64 exn = s.curExn;
    Exn &ex = s.exns[exn];
    while (true) {
        popFrame(s);
        if (s.stack.empty()) {
            // name of the type
            std::string tn = "?";
            u64 nm = rd64(*this, s, ex.ti + 8);
            if (Obj *o = objAt(s, nm)) { tn.clear(); for (u64 i = nm - (o->id << OBJ_SHIFT); i < o->size && o->d[i]; i++) tn += (char) o->d[i]; }
            if (s.tc) { tcFail(s, "uncaught", "uncaught exception of type " + tn + " thrown at " + s.thrownAt); throw Kill{ "violation" }; }
            report(s, "uncaught", "uncaught exception of type " + tn + " thrown at " + s.thrownAt, s.model);
            throw Kill{ "violation" };
        }
        Frame *f  = s.stack.back().unshare();
        CInst &ci = f->fn->code[f->pc];
        if (!isa<InvokeInst>(ci.I)) continue;
        const Edge &ue = ci.edges[1];
        CInst      &lp = f->fn->code[ue.pc];
        auto       *L  = cast<LandingPadInst>(lp.I);
        bool        enter = L->isCleanup();
        u64         sel = 0;
        for (unsigned i = 0; i < L->getNumClauses(); i++) {
            if (!L->isCatch(i)) { enter = true; sel = (u64) -1; continue; }
            u64 ti = constScalar(L->getClause(i));
            u64 p  = exn;
            if (ti == 0 || tiDerived(s, ex.ti, ti, exn, p)) { enter = true; sel = ti == 0 ? 1 : (ti >> OBJ_SHIFT); break; }
        }
        if (!enter) continue;
        takeEdge(s, f, ue);
        f->r[lp.dst]     = V(exn);
        f->r[lp.dst + 1] = V(sel & 0xffffffff);
        f->pc            = ue.pc + 1;
        return;
    }
}
} // namespace sx
