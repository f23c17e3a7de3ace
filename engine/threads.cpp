// Concurrency encoding.  Every thread is executed symbolically on its own; reads of memory that other threads write
// return fresh variables, and every access to such memory becomes an event.  The events of all threads, with one boolean
// (executed) and one integer (position in the interleaving) each, form one SMT formula whose models are exactly the
// sequentially consistent interleavings (within the bounds); assertions, data races (happens-before from the
// acquire/release annotations), uses after free and deadlocks are queries on that formula.
#include "threads.hpp"
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace llvm;
namespace sx {
static Expr *UNINIT() { return (Expr *) 1; }
std::unordered_map<const Instruction *, int> &instNumbers(Module &M) {
    static std::unordered_map<const Instruction *, int> m;
    if (m.empty()) { int n = 1; for (auto &F : M) for (auto &B : F) for (auto &I : B) m[&I] = n++; }
    return m;
}
namespace {
enum NK : uint8_t { NRoot, NR, NW, NU, NF, NLeaf };
enum LK : uint8_t { LNone, LComplete, LCut, LBlocked, LViol, LReach };
struct Node {
    int  parent = -1, thread = 0;
    NK   k = NRoot;
    LK   leaf = LNone;
    u64  obj = 0, off = 0;
    unsigned n = 0;
    Expr *rv = nullptr, *wv = nullptr, *wg = nullptr;
    bool atomic = false, acq = false, rel = false, facq = false, stackObj = false;
    int  inst = 0, occ = 0, sub = 0;
    u64  site = 0; // instruction and call stack
    std::vector<Expr *> conds;
    std::string where, kind, msg;
};
struct WSet { std::vector<Expr *> v; bool any = false; };
struct Alloc { u64 id, size; ObjKind k; const char *name; int thread; };
using AllocKey = std::tuple<int, int, u64, int>;
using WKey = std::tuple<u64, u64, unsigned, int>; // obj, off, n, thread
struct Acc { std::vector<uint16_t> r, w; };
struct TC {
    std::vector<Node>                nodes;
    int                              nthreads = 0, finalT = 0;
    std::map<AllocKey, Alloc>        allocs;
    std::map<u64, Alloc>             allocById;
    u64                              nextId = 0, baseId = 0;
    std::map<u64, Acc>               acc;
    std::map<u64, std::vector<char>> shared;
    std::map<WKey, WSet>             W;
    std::vector<char>                isRead; // per variable id: introduced for a read
    std::vector<int>                 roots;
    State                           *S0 = nullptr;
    std::set<u64>                    tls;
};
TC *tc = nullptr;
void setModel(State &s, Expr *var, u128 v) {
    size_t i = (size_t) var->v;
    if (s.model.size() <= i) s.model.resize(i + 1, 0);
    s.model[i] = v;
}
bool isShared(u64 id, u64 off, u64 n) {
    auto it = tc->shared.find(id);
    if (it == tc->shared.end()) return false;
    for (u64 i = off; i < off + n && i < it->second.size(); i++) if (it->second[i]) return true;
    return false;
}
bool byteShared(u64 id, u64 off) { auto it = tc->shared.find(id); return it != tc->shared.end() && off < it->second.size() && it->second[off]; }
void touch(State &s, Obj *o, u64 off, u64 n, bool write) {
    if (o->ro || tc->tls.count(o->id)) return;
    auto &a = tc->acc[o->id];
    if (a.r.size() < o->size) { a.r.resize(o->size); a.w.resize(o->size); }
    uint16_t m = (uint16_t) (1u << s.tc.thread);
    for (u64 i = off; i < off + n; i++) (write ? a.w : a.r)[i] |= m;
}
std::vector<Expr *> takeConds(State &s) {
    std::vector<Expr *> c(s.pc.begin() + (long) s.tc.pcBase, s.pc.end());
    s.tc.pcBase = s.pc.size();
    return c;
}
u64 siteHash(State &s, int inst) {
    u64 h = (u64) inst * 0x9E3779B97F4A7C15ull;
    for (size_t i = 0; i + 1 < s.stack.size(); i++) h = (h ^ (u64) (uintptr_t) s.stack[i]->fn ^ ((u64) s.stack[i]->pc << 40)) * 0xff51afd7ed558ccdull;
    return h;
}
int addLeaf(State &s, LK l, const std::string &kind, const std::string &msg) {
    Node n;
    n.parent = s.tc.node; n.thread = s.tc.thread; n.k = NLeaf; n.leaf = l; n.kind = kind; n.msg = msg;
    n.conds.assign(s.pc.begin() + (long) s.tc.pcBase, s.pc.end());
    n.where = gE->where(s);
    tc->nodes.push_back(n);
    return (int) tc->nodes.size() - 1;
}
int instOf(CInst &ci) { return instNumbers(*gE->M)[ci.I]; }
// a thread spinning on an atomic that nobody else (is yet known to) write: stop it
void privateSpin(State &s, CInst &ci) {
    int inst = instOf(ci);
    u64 site = siteHash(s, inst);
    if (++s.tc.evOcc[(int) (site & 0x7fffffff)] <= 64) return;
    int l = addLeaf(s, LCut, "", "");
    tc->nodes[(size_t) l].site = site;
    gE->mtStats["cut"]++;
    throw Kill{ "cut" };
}
Node &newEvent(State &s, CInst &ci, NK k, Obj *o, u64 off, unsigned n, int sub) {
    int inst = instOf(ci);
    u64 site = siteHash(s, inst);
    if (sub == 0 || k == NF) {
        int &c = s.tc.evOcc[(int) (site & 0x7fffffff)];
        if (++c > gOpt.spin || ++s.tc.events > gOpt.maxEvents) {
            Node lf; (void) lf;
            int l = addLeaf(s, LCut, "", "");
            tc->nodes[(size_t) l].site = site;
            gE->mtStats["cut"]++;
            throw Kill{ "cut" };
        }
    }
    Node e;
    e.parent = s.tc.node; e.thread = s.tc.thread; e.k = k; e.obj = o->id; e.off = off; e.n = n; e.inst = inst; e.sub = sub; e.site = site;
    e.occ = s.tc.occ[inst];
    e.conds = takeConds(s);
    e.stackObj = o->kind == OStack;
    e.where = gE->where(s);
    tc->nodes.push_back(std::move(e));
    s.tc.node = (int) tc->nodes.size() - 1;
    return tc->nodes.back();
}
// value the thread itself would see; nullptr if (partly) uninitialised
Expr *ownView(State &s, Obj *o, u64 off, unsigned n) {
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i] == UNINIT()) return nullptr;
    V v = gE->readBytes(s, o, off, n, 8 * n);
    v = gE->underV(s, v);
    return v.ex(8 * n);
}
// fresh value of a read at a place other threads write
Expr *readValue(State &s, Obj *o, u64 off, unsigned n, Node &e) {
    Expr *own = ownView(s, o, off, n);
    bool  any = false, foreign = false;
    auto  ab  = tc->allocById.find(o->id);
    if (ab != tc->allocById.end() && ab->second.thread != s.tc.thread) foreign = true;
    std::vector<Expr *> dom;
    if (own) dom.push_back(own);
    else if (!foreign) any = true;
    for (auto it = tc->W.lower_bound(WKey{ o->id, 0, 0, 0 }); it != tc->W.end() && std::get<0>(it->first) == o->id; ++it) {
        auto [ob, wo, wn, wt] = it->first;
        if (wo >= off + n || wo + wn <= off || wt == s.tc.thread || wt == tc->finalT) continue;
        if (it->second.any || wo != off || wn != n) { any = true; continue; }
        for (auto *v : it->second.v) if (std::find(dom.begin(), dom.end(), v) == dom.end()) dom.push_back(v);
    }
    Expr *rv = mkVar("r" + std::to_string(tc->nodes.size()), 8 * n);
    if (tc->isRead.size() <= (size_t) rv->v) tc->isRead.resize((size_t) rv->v + 1, 0);
    tc->isRead[(size_t) rv->v] = 1;
    e.rv = rv;
    if (any) { setModel(s, rv, own ? evalExpr(own, s.model) : 0); return rv; }
    if (dom.empty()) throw Kill{ "assume" };
    setModel(s, rv, evalExpr(dom[0], s.model));
    if (dom.size() == 1) { gE->addPC(s, mkEq(rv, dom[0])); return dom[0]; }
    Expr *c = mkConst(0, 1);
    for (auto *v : dom) c = mkOrB(c, mkEq(rv, v));
    gE->addPC(s, c);
    // bytes of the access that are private to this thread keep the thread's own value
    return rv;
}
Expr *mixPrivate(State &s, Obj *o, u64 off, unsigned n, Expr *rv) {
    bool all = true;
    for (unsigned i = 0; i < n; i++) if (!byteShared(o->id, off + i)) all = false;
    if (all) return rv;
    Expr *r = nullptr;
    for (unsigned i = 0; i < n; i++) {
        Expr *b = byteShared(o->id, off + i) ? mkExtract(rv, 8 * i, 8) : gE->readBytes(s, gE->getObj(s, o->id), off + i, 1, 8).ex(8);
        r = r ? mkConcat(b, r) : b;
    }
    return r;
}
bool acqOrd(AtomicOrdering o) { return o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
bool relOrd(AtomicOrdering o) { return o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent; }
// concrete in-bounds place of an access, or null (the ordinary path then reports the error)
Obj *place(Engine &E, State &s, V addr, u64 n, bool write, u64 &off) {
    u64 a = E.concretize(s, addr, 64);
    E.tcMaterialize(s, a);
    Obj *o = E.objAt(s, a);
    if (!o || o->freed || o->kind == OFunc) return nullptr;
    off = a - (o->id << OBJ_SHIFT);
    if (off > o->size || o->size - off < n) return nullptr;
    if (write && o->ro) return nullptr;
    touch(s, o, off, n, write);
    return o;
}
} // namespace

void tcTouch(Engine &E, State &s, u64 addr, u64 n) {
    u64  off;
    Obj *o = place(E, s, V(addr), n, false, off);
    if (o && isShared(o->id, off, n)) { E.unsupported["library routine on memory shared between threads"]++; throw Kill{ "unsupported" }; }
}
void Engine::tcFail(State &s, const std::string &kind, const std::string &msg) { addLeaf(s, LViol, kind, msg); }
void Engine::tcAssert(State &s, Expr *c, const std::string &msg) {
    // negated assertion as an extra condition of a violation leaf; only if it is feasible on the thread's own view
    Assign m2;
    Res r = checkSat(s.pc, mkNot(c), s.model, m2);
    if (r == Res::Unsat) return;
    int l = addLeaf(s, LViol, "assert", msg);
    tc->nodes[(size_t) l].conds.push_back(mkNot(c));
}
void Engine::tcReach(State &s, const std::string &label) { addLeaf(s, LReach, "", label); }
void Engine::tcBlock(State &s) {
    addLeaf(s, LBlocked, "", "");
    throw Kill{ "blocked" };
}
u64 Engine::tcAllocId(State &s, u64 size, ObjKind k, const char *name, u64 nids) {
    AllocKey key{ s.tc.thread, s.tc.allocs++, size, (int) k };
    auto     it = tc->allocs.find(key);
    if (it != tc->allocs.end()) return it->second.id;
    Alloc a{ tc->nextId, size, k, name, s.tc.thread };
    tc->nextId += nids;
    tc->allocs[key] = a;
    tc->allocById[a.id] = a;
    return a.id;
}
void Engine::tcMaterialize(State &s, u64 addr) {
    u64 id = addr >> OBJ_SHIFT;
    if (id < tc->baseId || getObj(s, id)) return;
    auto it = tc->allocById.find(id);
    if (it == tc->allocById.end() || it->second.thread == s.tc.thread) return;
    auto *o = new Obj;
    o->id = id; o->size = it->second.size; o->kind = it->second.k; o->name = it->second.name;
    o->d.resize(o->size, 0);
    o->s.assign(o->size, UNINIT());
    setObj(s, id, Ref<Obj>(o));
}
void Engine::tcFree(State &s, u64 id) {
    Obj *o = getObj(s, id);
    if (!o || o->freed || s.tc.thread == tc->finalT) return;
    touch(s, o, 0, o->size, true);
    if (!isShared(id, 0, o->size)) return;
    if (s.stack.empty()) return;
    Frame *f = s.stack.back().p;
    CInst &ci = f->fn->code[(size_t) f->pc];
    s.tc.occ[instOf(ci)]++;
    newEvent(s, ci, NF, o, 0, (unsigned) o->size, 0);
}
bool Engine::tcLoad(State &s, CInst &ci, V addr, unsigned n, unsigned w, V &out) {
    u64  off;
    Obj *o = place(*this, s, addr, n, false, off);
    if (!o) return false;
    if (!isShared(o->id, off, n)) { s.tc.occ[instOf(ci)]++; if (cast<LoadInst>(ci.I)->isAtomic()) privateSpin(s, ci); return false; }
    if (w == 0) { unsupported["aggregate load of memory shared between threads"]++; throw Kill{ "unsupported" }; }
    s.tc.occ[instOf(ci)]++;
    auto *li = cast<LoadInst>(ci.I);
    Node &e = newEvent(s, ci, NR, o, off, n, 0);
    e.atomic = li->isAtomic() || li->isVolatile();
    e.acq    = li->isAtomic() && acqOrd(li->getOrdering());
    Expr *v = mixPrivate(s, o, off, n, readValue(s, o, off, n, e));
    if (v->w > w) v = mkExtract(v, 0, w);
    out = V(v);
    return true;
}
bool Engine::tcStore(State &s, CInst &ci, V addr, unsigned n, unsigned w, V val) {
    u64  off;
    Obj *o = place(*this, s, addr, n, true, off);
    if (!o) return false;
    if (!isShared(o->id, off, n)) { s.tc.occ[instOf(ci)]++; return false; }
    if (w == 0) { unsupported["aggregate store to memory shared between threads"]++; throw Kill{ "unsupported" }; }
    s.tc.occ[instOf(ci)]++;
    u64   id = o->id;
    auto *si = cast<StoreInst>(ci.I);
    Expr *v  = underV(s, val).ex(w);
    if (v->w < 8 * n) v = mkZExt(v, 8 * n);
    Node &e = newEvent(s, ci, NW, o, off, n, 0);
    e.atomic = si->isAtomic() || si->isVolatile();
    e.rel    = si->isAtomic() && relOrd(si->getOrdering());
    e.wv     = v;
    writeBytes(s, getObjW(s, id), off, n, 8 * n, V(v));
    return true;
}
bool Engine::tcRmw(State &s, CInst &ci, V addr, unsigned n, unsigned w, const std::function<Expr *(Expr *)> &f, V &old, unsigned order) {
    u64  off;
    Obj *o = place(*this, s, addr, n, true, off);
    if (!o) return false;
    touch(s, o, off, n, false);
    s.tc.occ[instOf(ci)]++;
    if (!isShared(o->id, off, n)) { privateSpin(s, ci); return false; }
    u64   id = o->id;
    Node &e0 = newEvent(s, ci, NU, o, off, n, 0);
    int   ix = s.tc.node;
    e0.atomic = true;
    e0.acq = e0.facq = acqOrd((AtomicOrdering) order);
    e0.rel = relOrd((AtomicOrdering) order);
    Expr *r = readValue(s, o, off, n, e0);
    Expr *x = r->w > w ? mkExtract(r, 0, w) : r;
    Expr *nv = f(x);
    if (nv->w < 8 * n) nv = mkZExt(nv, 8 * n);
    tc->nodes[(size_t) ix].wv = nv;
    writeBytes(s, getObjW(s, id), off, n, 8 * n, V(nv));
    old = V(x);
    return true;
}
bool Engine::tcCmpXchg(State &s, CInst &ci, V addr, unsigned n, unsigned w, V exp, V des, V &old, V &ok) {
    u64  off;
    Obj *o = place(*this, s, addr, n, true, off);
    if (!o) return false;
    touch(s, o, off, n, false);
    s.tc.occ[instOf(ci)]++;
    if (!isShared(o->id, off, n)) { privateSpin(s, ci); return false; }
    u64   id = o->id;
    auto *cx = cast<AtomicCmpXchgInst>(ci.I);
    Expr *own = ownView(s, o, off, n);
    Expr *ex = underV(s, exp).ex(w), *de = underV(s, des).ex(w);
    Node &e = newEvent(s, ci, NU, o, off, n, 0);
    int   ix = s.tc.node;
    e.atomic = true;
    e.acq  = acqOrd(cx->getSuccessOrdering());
    e.facq = acqOrd(cx->getFailureOrdering());
    e.rel  = relOrd(cx->getSuccessOrdering());
    Expr *r = readValue(s, o, off, n, e);
    Expr *x = r->w > w ? mkExtract(r, 0, w) : r;
    Expr *k = mkEq(x, ex);
    if (de->w < 8 * n) de = mkZExt(de, 8 * n);
    Node &e2 = tc->nodes[(size_t) ix];
    e2.wv = de;
    e2.wg = k;
    Expr *nv = own ? mkIte(k, de, own) : mkIte(k, de, r);
    writeBytes(s, getObjW(s, id), off, n, 8 * n, V(nv));
    old = V(x);
    ok  = V(k);
    return true;
}
bool tcCopy(Engine &E, State &s, CInst &ci, V dst, V src, u64 n) {
    u64  so, d0;
    Obj *a = place(E, s, src, n, false, so);
    if (!a) return false;
    u64  aid = a->id;
    Obj *b = place(E, s, dst, n, true, d0);
    if (!b) return false;
    u64  bid = b->id;
    s.tc.occ[instOf(ci)]++;
    if (!isShared(aid, so, n) && !isShared(bid, d0, n)) return false;
    int sub = 0;
    bool back = aid == bid && d0 > so;
    std::vector<std::pair<u64, unsigned>> ch;
    for (u64 i = 0; i < n; i += 8) ch.push_back({ i, (unsigned) std::min<u64>(8, n - i) });
    if (back) std::reverse(ch.begin(), ch.end());
    for (auto [i, k] : ch) {
        Expr *v;
        Obj  *o = E.getObj(s, aid);
        if (isShared(aid, so + i, k)) { Node &e = newEvent(s, ci, NR, o, so + i, k, 2 * sub + 1); v = mixPrivate(s, o, so + i, k, readValue(s, o, so + i, k, e)); }
        else v = E.readBytes(s, o, so + i, k, 8 * k).ex(8 * k);
        Obj *t = E.getObj(s, bid);
        if (isShared(bid, d0 + i, k)) { Node &e = newEvent(s, ci, NW, t, d0 + i, k, 2 * sub + 2); e.wv = v; }
        E.writeBytes(s, E.getObjW(s, bid), d0 + i, k, 8 * k, V(v));
        sub++;
    }
    return true;
}
bool tcSet(Engine &E, State &s, CInst &ci, V dst, V val, u64 n) {
    u64  d0;
    Obj *b = place(E, s, dst, n, true, d0);
    if (!b) return false;
    s.tc.occ[instOf(ci)]++;
    u64 bid = b->id;
    if (!isShared(bid, d0, n)) return false;
    int sub = 0;
    for (u64 i = 0; i < n; i += 8, sub++) {
        unsigned k = (unsigned) std::min<u64>(8, n - i);
        Expr    *v = val.ex(8), *r = v;
        for (unsigned j = 1; j < k; j++) r = mkConcat(r, v);
        if (isShared(bid, d0 + i, k)) { Node &e = newEvent(s, ci, NW, E.getObj(s, bid), d0 + i, k, 2 * sub + 2); e.wv = r; }
        E.writeBytes(s, E.getObjW(s, bid), d0 + i, k, 8 * k, V(r));
    }
    return true;
}

// ------------------------------------------------------------------ the formula
namespace {
struct Enc {
    Z3_context c;
    Z3_solver  S;
    TC        &T;
    std::vector<Z3_ast> x, clk;
    Z3_sort    B, I;
    u64        nq = 0;
    double     secs = 0;
    std::vector<std::vector<Z3_ast>> allComplete; // per thread: leaves
    Z3_ast     J;
    struct Rf { int r, w; u64 obj, off; Z3_ast b; };
    std::vector<Rf> rfs;
    Z3_ast var(const std::string &n, Z3_sort s) { return Z3_mk_fresh_const(c, n.c_str(), s); }
    Z3_ast And(std::vector<Z3_ast> v) { if (v.empty()) return Z3_mk_true(c); return v.size() == 1 ? v[0] : Z3_mk_and(c, (unsigned) v.size(), v.data()); }
    Z3_ast Or(std::vector<Z3_ast> v) { if (v.empty()) return Z3_mk_false(c); return v.size() == 1 ? v[0] : Z3_mk_or(c, (unsigned) v.size(), v.data()); }
    Z3_ast Imp(Z3_ast a, Z3_ast b) { return Z3_mk_implies(c, a, b); }
    Z3_ast Lt(int a, int b) { return Z3_mk_lt(c, clk[(size_t) a], clk[(size_t) b]); }
    void   add(Z3_ast a) { Z3_solver_assert(c, S, a); }
    bool   isW(const Node &n) { return n.k == NW || n.k == NU; }
    bool   isR(const Node &n) { return n.k == NR || n.k == NU; }
    bool   isEv(const Node &n) { return n.k == NR || n.k == NW || n.k == NU || n.k == NF; }
    Z3_ast eff(int w) { // the write takes place
        const Node &n = T.nodes[(size_t) w];
        return n.wg ? And({ x[(size_t) w], toZ3B(n.wg) }) : x[(size_t) w];
    }
    bool anc(int a, int d) { for (int p = T.nodes[(size_t) d].parent; p >= 0; p = T.nodes[(size_t) p].parent) if (p == a) return true; return false; }
    Expr *initBytes(u64 obj, u64 off, unsigned n) { // of the state before the threads start; nullptr = unconstrained
        Obj *o = gE->getObj(*T.S0, obj);
        if (!o) return nullptr;
        if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i] == UNINIT()) return nullptr;
        return gE->readBytes(*T.S0, o, off, n, 8 * n).ex(8 * n);
    }
    Enc(TC &t) : c(z3ctx()), T(t) {
        S = Z3_mk_solver(c);
        Z3_solver_inc_ref(c, S);
        B = Z3_mk_bool_sort(c); I = Z3_mk_int_sort(c);
        J = var("J", I);
        for (auto *e : T.S0->pc) add(toZ3B(e));
        size_t N = T.nodes.size();
        Z3_ast zero = Z3_mk_int(c, 0, I);
        for (size_t i = 0; i < N; i++) { x.push_back(var("x", B)); clk.push_back(var("t", I)); }
        allComplete.resize((size_t) T.nthreads);
        for (size_t i = 0; i < N; i++) if (T.nodes[i].leaf == LComplete && T.nodes[i].thread != T.finalT) allComplete[(size_t) T.nodes[i].thread].push_back(x[i]);
        std::vector<Z3_ast> comp;
        for (auto &v : allComplete) comp.push_back(Or(v));
        Z3_ast joined = var("joined", B);
        add(Imp(joined, And(comp)));
        for (size_t i = 0; i < N; i++) {
            Node &n = T.nodes[i];
            std::vector<Z3_ast> cs;
            if (n.parent >= 0) { cs.push_back(x[(size_t) n.parent]); cs.push_back(Lt(n.parent, (int) i)); }
            for (auto *e : n.conds) cs.push_back(toZ3B(e));
            if (n.k == NRoot && n.thread == T.finalT) { cs.push_back(joined); cs.push_back(Z3_mk_lt(c, J, clk[i])); }
            if (!cs.empty()) add(Imp(x[i], And(cs)));
            add(Z3_mk_ge(c, clk[i], zero));
            if (n.thread != T.finalT) add(Z3_mk_lt(c, clk[i], J));
        }
        // cells
        std::map<u64, std::set<u64>> cuts;
        for (auto &n : T.nodes) if (isEv(n) && n.k != NF) { cuts[n.obj].insert(n.off); cuts[n.obj].insert(n.off + n.n); }
        std::map<std::pair<u64, u64>, std::vector<int>> writers;
        auto cells = [&](const Node &n, auto fn) {
            auto &cs = cuts[n.obj];
            for (auto it = cs.find(n.off); it != cs.end() && *it < n.off + n.n; ++it) {
                auto nx = std::next(it);
                if (nx == cs.end()) break;
                if (byteShared(n.obj, *it)) fn(*it, (unsigned) (*nx - *it));
            }
        };
        for (size_t i = 0; i < N; i++) if (isW(T.nodes[i])) cells(T.nodes[i], [&](u64 o, unsigned) { writers[{ T.nodes[i].obj, o }].push_back((int) i); });
        for (size_t i = 0; i < N; i++) {
            Node &r = T.nodes[i];
            if (!isR(r)) continue;
            cells(r, [&](u64 o, unsigned k) {
                Expr  *rs = mkExtract(r.rv, (unsigned) (8 * (o - r.off)), 8 * k);
                Z3_ast rc = var("rfclk", I);
                std::vector<Z3_ast> lits;
                bool noInit = false;
                std::vector<int> cand;
                for (int p = r.parent; p >= 0; p = T.nodes[(size_t) p].parent) {
                    Node &w = T.nodes[(size_t) p];
                    if (!isW(w) || w.obj != r.obj || w.off > o || w.off + w.n < o + k) continue;
                    cand.push_back(p);
                    if (!w.wg) { noInit = true; break; }
                }
                for (int w : writers[{ r.obj, o }]) if (T.nodes[(size_t) w].thread != r.thread && T.nodes[(size_t) w].thread != T.finalT) cand.push_back(w);
                for (int w : cand) {
                    Node  &wn = T.nodes[(size_t) w];
                    Expr  *ws = mkExtract(wn.wv, (unsigned) (8 * (o - wn.off)), 8 * k);
                    if (ws->isConst() && rs->isConst() && ws != rs) continue;
                    Z3_ast b = var("rf", B);
                    rfs.push_back({ (int) i, w, r.obj, o, b });
                    lits.push_back(b);
                    add(Imp(b, And({ eff(w), toZ3B(mkEq(rs, ws)), Lt(w, (int) i), Z3_mk_eq(c, rc, clk[(size_t) w]) })));
                }
                for (int w : cand) add(Imp(And({ x[i], eff(w), Lt(w, (int) i) }), Z3_mk_le(c, clk[(size_t) w], rc)));
                bool foreign = false, alloc = false;
                auto ab = T.allocById.find(r.obj);
                if (ab != T.allocById.end()) { alloc = true; foreign = ab->second.thread != r.thread; }
                if (!noInit && !foreign) {
                    Z3_ast b = var("rfi", B);
                    lits.push_back(b);
                    Expr *iv = alloc ? nullptr : initBytes(r.obj, o, k);
                    std::vector<Z3_ast> q{ Z3_mk_eq(c, rc, Z3_mk_int(c, -1, I)) };
                    if (iv) q.push_back(toZ3B(mkEq(rs, iv)));
                    add(Imp(b, And(q)));
                }
                add(Imp(x[i], Or(lits)));
            });
        }
        // conflicting events of different threads are ordered
        for (size_t i = 0; i < N; i++) if (isEv(T.nodes[i]))
            for (size_t j = i + 1; j < N; j++) {
                Node &a = T.nodes[i], &b = T.nodes[j];
                if (!isEv(b) || a.thread == b.thread || a.thread == T.finalT || b.thread == T.finalT || !overlap(a, b)) continue;
                if (a.k == NR && b.k == NR) continue;
                add(Imp(And({ x[i], x[j] }), Or({ Lt((int) i, (int) j), Lt((int) j, (int) i) })));
            }
    }
    ~Enc() { Z3_solver_dec_ref(c, S); }
    bool overlap(const Node &a, const Node &b) { return a.obj == b.obj && a.off < b.off + b.n && b.off < a.off + a.n; }
    Z3_lbool check(const std::vector<Z3_ast> &as) {
        auto t0 = std::chrono::steady_clock::now();
        double left = gOpt.maxTime - gE->elapsed();
        Z3_params p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), (unsigned) (1000 * std::max(1.0, std::min(left, 600.0))));
        Z3_solver_set_params(c, S, p);
        Z3_params_dec_ref(c, p);
        Z3_solver_push(c, S);
        for (auto a : as) add(a);
        Z3_lbool r = Z3_solver_check(c, S);
        if (r == Z3_L_TRUE) { mdl = Z3_solver_get_model(c, S); Z3_model_inc_ref(c, mdl); }
        Z3_solver_pop(c, S, 1);
        nq++; gSS.queries++; gSS.z3Queries++;
        double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        secs += d; gSS.z3Time += d;
        if (gOpt.verbose && d > 1) fprintf(stderr, "  mt query %.1fs -> %d\n", d, (int) r);
        if (r == Z3_L_UNDEF) { gSS.unknown++; gE->incomplete("solver gave up on an interleaving query"); }
        return r;
    }
    Z3_model mdl = nullptr;
    void dropModel() { if (mdl) Z3_model_dec_ref(c, mdl); mdl = nullptr; }
    u64 ev64(Z3_ast a) { Z3_ast r; Z3_model_eval(c, mdl, a, true, &r); uint64_t v = 0; if (Z3_get_ast_kind(c, r) == Z3_NUMERAL_AST) { int64_t sv; if (Z3_get_numeral_uint64(c, r, &v)) return v; if (Z3_get_numeral_int64(c, r, &sv)) return (u64) sv; } return 0; }
    bool evB(Z3_ast a) { Z3_ast r; Z3_model_eval(c, mdl, a, true, &r); return Z3_get_bool_value(c, r) == Z3_L_TRUE; }
    Assign assign() {
        Assign m;
        for (size_t i = 0; i < gVars.size(); i++) m.push_back(gVars[i].w <= 64 ? ev64(toZ3(gVarExprs[i])) : 0);
        return m;
    }
    // executed events in order of the interleaving
    std::string schedule(const std::string &mode) {
        std::vector<std::pair<int64_t, int>> v;
        for (size_t i = 0; i < T.nodes.size(); i++) if (isEv(T.nodes[i]) && T.nodes[i].thread != T.finalT && evB(x[i])) v.push_back({ (int64_t) ev64(clk[i]), (int) i });
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        std::string s = mode;
        for (auto &p : v) {
            Node &n = T.nodes[(size_t) p.second];
            if (n.k == NF && n.stackObj) continue;
            s += " " + std::to_string(n.thread) + ":" + std::to_string(n.inst) + ":" + std::to_string(n.occ) + ":" + std::to_string(n.sub);
        }
        return s;
    }
    std::vector<std::string> trace() {
        std::vector<std::pair<int64_t, int>> v;
        for (size_t i = 0; i < T.nodes.size(); i++) if (isEv(T.nodes[i]) && evB(x[i])) v.push_back({ (int64_t) ev64(clk[i]), (int) i });
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        std::vector<std::string> out;
        for (auto &p : v) {
            Node &n = T.nodes[(size_t) p.second];
            Obj  *o = gE->getObj(*T.S0, n.obj);
            std::string d = n.thread == T.finalT ? "joined" : "T" + std::to_string(n.thread);
            const char *nm[] = { "", "read", "write", "rmw", "free" };
            d += std::string(" ") + nm[n.k] + " " + (o ? o->name : "heap") + "#" + std::to_string(n.obj) + "+" + std::to_string(n.off);
            if (n.rv) d += " ->" + std::to_string((long long) ev64(toZ3(n.rv)));
            if (n.wv) d += (n.wg && !evB(toZ3B(n.wg))) ? " (failed)" : " :=" + std::to_string((long long) ev64(toZ3(n.wv)));
            d += " @ " + n.where.substr(0, n.where.find(" <- "));
            out.push_back(d);
        }
        return out;
    }
};
void emit(Enc &E, State &s, const std::string &kind, const std::string &msg, const std::string &where, const std::string &mode) {
    Violation v;
    v.kind = kind; v.msg = msg; v.where = where;
    v.sched = E.schedule(mode);
    v.notes = E.trace();
    Assign m = E.assign();
    for (auto &i : s.inputs) { u128 z = evalExpr(i.e, m); char b[80]; snprintf(b, 80, " %u %llx", i.w, (unsigned long long) (u64) z); v.inputs.push_back(i.name + b); }
    gE->emitViolation(v);
}
bool dependsOnRead(Expr *e) {
    for (auto id : e->vs->v) if (id < tc->isRead.size() && tc->isRead[id]) return true;
    return false;
}
} // namespace

static void exploreThread(Engine &E, State *init, int t) {
    Node root;
    root.thread = t; root.k = NRoot;
    tc->nodes.push_back(root);
    init->tc = TState{};
    init->tc.thread = t;
    init->tc.node = (int) tc->nodes.size() - 1;
    init->tc.pcBase = init->pc.size();
    std::vector<State *> saved;
    std::swap(saved, E.work);
    E.work.push_back(init);
    while (!E.work.empty()) {
        State *s = E.work.back();
        E.work.pop_back();
        try {
            u64 n = 0;
            while (true) {
                E.step(*s);
                E.steps++;
                if ((++n & 0x3ff) == 0) {
                    if (E.sh->stop) throw Kill{ "stop" };
                    if (E.elapsed() > gOpt.maxTime) { E.incomplete("time limit"); E.sh->stop = 2; throw Kill{ "time" }; }
                    if (n > std::min<u64>(gOpt.maxSteps, 3000000)) { E.incomplete("step limit in a thread"); throw Kill{ "steps" }; }
                }
            }
        } catch (Done &) { addLeaf(*s, LComplete, "", ""); E.mtStats["paths"]++; }
        catch (Kill &k) { if (!strcmp(k.why, "unsupported")) { E.incompletes["unsupported construct"]++; if (gOpt.verbose) fprintf(stderr, "unsupported at %s\n", E.where(*s).c_str()); } }
        delete s;
        if (E.sh->stop) { for (auto *w : E.work) delete w; E.work.clear(); }
    }
    std::swap(saved, E.work);
}

void Engine::tcRunThreads(State &s) {
    TC T;
    tc = &T;
    T.nthreads = (int) s.threads.size();
    T.finalT   = T.nthreads;
    T.nextId = T.baseId = (s.nextId / CHUNK + 2) * CHUNK;
    State S0(s);
    T.S0 = &S0;
    for (auto &G : M->globals()) if (G.isThreadLocal()) T.tls.insert(gaddr[&G] >> OBJ_SHIFT);
    struct Guard { ~Guard() { tc = nullptr; } } guard;
    auto start = [&](int t) {
        auto *n = new State(s);
        if (t == T.finalT) {
            Frame *f = n->stack.back().unshare();
            CInst &ci = f->fn->code[(size_t) f->pc];
            if (ci.edges.empty()) f->pc++;
            else takeEdge(*n, f, ci.edges[0]);
        } else {
            n->stack.clear();
            auto it = funcAt.find(s.threads[(size_t) t].first);
            if (it == funcAt.end()) fail(s, "harness", "thread function");
            // frame is pushed in thread mode so that its objects are numbered per thread
            n->tc.thread = t;
            pushFrame(*n, compile(it->second), { V(s.threads[(size_t) t].second) });
            n->tc = TState{};
        }
        n->threads.clear();
        return n;
    };
    int rounds = 0;
    std::unique_ptr<Enc> enc;
    while (true) {
        rounds++;
        mtStats["rounds"]++;
        if (rounds > 60) { incomplete("read values did not stabilise"); break; }
        enc.reset();
        T.nodes.clear();
        for (int t = 0; t <= T.nthreads; t++) {
            if (sh->stop) throw Kill{ "stop" };
            exploreThread(*this, start(t), t);
        }
        if (gOpt.verbose) fprintf(stderr, "round %d: %zu nodes, %zu write classes\n", rounds, T.nodes.size(), T.W.size());
        if (T.nodes.size() > 6000) { incomplete("too many events"); throw Done{}; }
        bool changed = false;
        // memory written by one thread and accessed by another
        for (auto &[id, a] : T.acc) {
            auto &sv = T.shared[id];
            if (sv.size() < a.r.size()) sv.resize(a.r.size());
            uint16_t fin = (uint16_t) (1u << T.finalT);
            for (size_t i = 0; i < a.r.size(); i++) {
                uint16_t w = a.w[i] & (uint16_t) ~fin, all = (uint16_t) (w | a.r[i]);
                if (w && (all & (all - 1)) && !sv[i]) { sv[i] = 1; changed = true; }
            }
        }
        if (changed) continue;
        // values written to shared memory
        bool needSmt = false;
        for (size_t i = 0; i < T.nodes.size(); i++) {
            Node &n = T.nodes[i];
            if ((n.k != NW && n.k != NU) || n.thread == T.finalT) continue;
            if (dependsOnRead(n.wv)) { needSmt = true; continue; }
            auto &ws = T.W[WKey{ n.obj, n.off, n.n, n.thread }];
            if (ws.any || std::find(ws.v.begin(), ws.v.end(), n.wv) != ws.v.end()) continue;
            if (ws.v.size() >= 24) ws.any = true; else ws.v.push_back(n.wv);
            changed = true;
        }
        if (changed) continue;
        if (T.nodes.size() > 2500) { incomplete("too many events"); throw Done{}; }
        enc = std::make_unique<Enc>(T);
        if (needSmt) for (size_t i = 0; i < T.nodes.size(); i++) {
            Node &n = T.nodes[i];
            if ((n.k != NW && n.k != NU) || n.thread == T.finalT || !dependsOnRead(n.wv)) continue;
            auto &ws = T.W[WKey{ n.obj, n.off, n.n, n.thread }];
            while (!ws.any) {
                std::vector<Z3_ast> q{ enc->eff((int) i) };
                for (auto *v : ws.v) q.push_back(toZ3B(mkNot(mkEq(n.wv, v))));
                Z3_lbool r = enc->check(q);
                if (r == Z3_L_FALSE) break;
                if (r == Z3_L_UNDEF) { ws.any = true; changed = true; break; }
                u64 v = enc->ev64(toZ3(n.wv));
                enc->dropModel();
                changed = true;
                if (ws.v.size() >= 24) ws.any = true; else ws.v.push_back(mkConst(v, n.wv->w));
            }
        }
        if (!changed) break;
    }
    if (!enc) enc = std::make_unique<Enc>(T);
    Enc &E2 = *enc;
    u64 ev = 0;
    for (auto &n : T.nodes) if (E2.isEv(n)) ev++;
    mtStats["events"] += ev;
    mtStats["formulas"]++;
    // assertions
    std::map<std::string, std::vector<int>> by;
    for (size_t i = 0; i < T.nodes.size(); i++) if (T.nodes[i].leaf == LViol) by[T.nodes[i].kind + "|" + T.nodes[i].msg].push_back((int) i);
    for (auto &[k, ls] : by) {
        if (sh->stop) break;
        std::vector<Z3_ast> o;
        for (int l : ls) o.push_back(E2.x[(size_t) l]);
        gSS.assertQueries++;
        Z3_lbool r = E2.check({ E2.Or(o) });
        if (r == Z3_L_FALSE) gSS.assertUnsat++;
        if (r == Z3_L_TRUE) {
            int l = ls[0];
            for (int q : ls) if (E2.evB(E2.x[(size_t) q])) l = q;
            Node &n = T.nodes[(size_t) l];
            emit(E2, s, n.kind, n.msg, n.where, "V" + std::to_string(n.thread));
            E2.dropModel();
        }
    }
    // use after free, double free
    if (!sh->stop) {
        std::vector<Z3_ast> o;
        std::vector<std::pair<int, int>> pr;
        for (size_t i = 0; i < T.nodes.size(); i++) if (T.nodes[i].k == NF) for (size_t j = 0; j < T.nodes.size(); j++) {
            Node &a = T.nodes[i], &b = T.nodes[j];
            if (i == j || !E2.isEv(b) || a.thread == b.thread || !E2.overlap(a, b)) continue;
            o.push_back(E2.And({ E2.x[i], E2.x[j], E2.Lt((int) i, (int) j) }));
            pr.push_back({ (int) i, (int) j });
        }
        if (!o.empty()) {
            gSS.assertQueries++;
            Z3_lbool r = E2.check({ E2.Or(o) });
            if (r == Z3_L_FALSE) gSS.assertUnsat++;
            if (r == Z3_L_TRUE) {
                for (size_t k = 0; k < o.size(); k++) if (E2.evB(o[k])) { emit(E2, s, "memory", std::string(T.nodes[(size_t) pr[k].second].k == NF ? "double free" : "use after free") + " across threads", T.nodes[(size_t) pr[k].second].where, "U"); break; }
                E2.dropModel();
            }
        }
    }
    // data races
    if (gOpt.race && !sh->stop) {
        size_t N = T.nodes.size();
        std::vector<std::pair<int, int>> pairs;
        for (size_t i = 0; i < N; i++) if (E2.isEv(T.nodes[i])) for (size_t j = 0; j < N; j++) {
            Node &a = T.nodes[i], &b = T.nodes[j];
            if (!E2.isEv(b) || a.thread == b.thread || a.thread == T.finalT || b.thread == T.finalT || !E2.overlap(a, b)) continue;
            if (a.k == NR && b.k == NR) continue;
            if (a.atomic && b.atomic) continue;
            bool sharedOv = false;
            for (u64 k = std::max(a.off, b.off); k < std::min(a.off + a.n, b.off + b.n); k++) if (byteShared(a.obj, k)) sharedOv = true;
            if (sharedOv) pairs.push_back({ (int) i, (int) j });
        }
        if (!pairs.empty()) {
            Z3_solver_push(E2.c, E2.S);
            std::vector<Z3_ast> sel(N), H(N), Sq(N);
            std::vector<char> isA(N, 0);
            for (auto &p : pairs) isA[(size_t) p.first] = 1;
            for (size_t i = 0; i < N; i++) { sel[i] = isA[i] ? E2.var("sel", E2.B) : Z3_mk_false(E2.c); H[i] = E2.var("H", E2.B); Sq[i] = E2.var("S", E2.B); }
            for (size_t i = 0; i < N; i++) {
                Node &n = T.nodes[i];
                if (n.parent >= 0) E2.add(E2.Imp(E2.Or({ H[(size_t) n.parent], sel[(size_t) n.parent] }), E2.Imp(E2.x[i], H[i])));
                if ((n.k == NW || n.k == NU) && n.rel) E2.add(E2.Imp(E2.And({ H[i], E2.eff((int) i) }), Sq[i]));
            }
            for (auto &rf : E2.rfs) {
                Node &r = T.nodes[(size_t) rf.r], &w = T.nodes[(size_t) rf.w];
                if (!w.atomic || !r.atomic) continue;
                Z3_ast a;
                if (r.k == NU && r.wg) {
                    std::vector<Z3_ast> al;
                    if (r.acq) al.push_back(toZ3B(r.wg));
                    if (r.facq) al.push_back(Z3_mk_not(E2.c, toZ3B(r.wg)));
                    a = E2.Or(al);
                } else a = r.acq ? Z3_mk_true(E2.c) : Z3_mk_false(E2.c);
                E2.add(E2.Imp(E2.And({ rf.b, Sq[(size_t) rf.w], a }), H[(size_t) rf.r]));
                if (r.k == NU) E2.add(E2.Imp(E2.And({ rf.b, Sq[(size_t) rf.w], E2.eff(rf.r) }), Sq[(size_t) rf.r]));
                // a release fence is not modelled; relaxed stores by the same thread do not continue a release sequence (C++20)
            }
            std::vector<Z3_ast> o;
            for (auto &p : pairs) o.push_back(E2.And({ sel[(size_t) p.first], E2.x[(size_t) p.first], E2.x[(size_t) p.second], E2.Lt(p.first, p.second), Z3_mk_not(E2.c, H[(size_t) p.second]) }));
            // at most one selected event
            std::vector<Z3_ast> ss;
            for (size_t i = 0; i < N; i++) if (isA[i]) ss.push_back(sel[i]);
            E2.add(Z3_mk_atmost(E2.c, (unsigned) ss.size(), ss.data(), 1));
            gSS.assertQueries++;
            Z3_lbool r = E2.check({ E2.Or(o) });
            mtStats["race_pairs"] += pairs.size() / 2;
            if (r == Z3_L_FALSE) gSS.assertUnsat++;
            if (r == Z3_L_TRUE) {
                for (size_t k = 0; k < o.size(); k++) if (E2.evB(o[k])) {
                    Node &a = T.nodes[(size_t) pairs[k].first], &b = T.nodes[(size_t) pairs[k].second];
                    emit(E2, s, "race", "data race: unsynchronised conflicting accesses (" + a.where.substr(0, a.where.find(" <- ")) + " and " + b.where.substr(0, b.where.find(" <- ")) + ")", b.where, "R");
                    break;
                }
                E2.dropModel();
            }
            Z3_solver_pop(E2.c, E2.S, 1);
        }
    }
    // deadlock: every thread has completed or is blocked / spinning without effect on values nobody will change any more
    if (gOpt.deadlock && !sh->stop) {
        std::vector<Z3_ast> all, some;
        for (int t = 0; t < T.nthreads; t++) {
            std::vector<Z3_ast> o = E2.allComplete[(size_t) t];
            for (size_t i = 0; i < T.nodes.size(); i++) {
                Node &n = T.nodes[i];
                if (n.thread != t || (n.leaf != LBlocked && n.leaf != LCut)) continue;
                std::vector<Z3_ast> q{ E2.x[i] };
                bool ok = true, closed = n.leaf == LBlocked;
                int  rounds2 = 0;
                std::vector<int> it1, it2; // events of the last two iterations, innermost last
                for (int p = n.parent; p >= 0; p = T.nodes[(size_t) p].parent) {
                    Node &e = T.nodes[(size_t) p];
                    if (!E2.isEv(e)) { break; }
                    if (e.k == NW || e.k == NF || (e.k == NU && !e.wg)) {
                        // a write that stores the value already there (test_and_set on a set flag) has no effect
                        if (e.k == NU && e.rv) q.push_back(toZ3B(mkEq(e.rv, e.wv)));
                        else { ok = false; break; }
                    }
                    if (e.k == NU && e.wg) q.push_back(toZ3B(mkNot(e.wg)));
                    for (size_t j = 0; j < T.nodes.size(); j++) {
                        Node &w = T.nodes[j];
                        if (w.thread == t || w.thread == T.finalT || !E2.isW(w) || !E2.overlap(w, e)) continue;
                        Z3_ast noeff = w.k == NU && !w.wg && w.rv ? toZ3B(mkEq(w.rv, w.wv)) : Z3_mk_false(E2.c);
                        q.push_back(E2.Imp(E2.eff((int) j), E2.Or({ E2.Lt((int) j, p), noeff })));
                    }
                    if (n.leaf == LBlocked) break; // the failed attempt to take the lock
                    (rounds2 ? it2 : it1).push_back(p);
                    if (e.site == n.site && ++rounds2 == 2) { closed = true; break; }
                }
                if (!ok || !closed) continue;
                if (n.leaf == LCut) { // the loop repeats itself: same accesses, same values
                    if (it1.size() != it2.size()) continue;
                    for (size_t k = 0; k < it1.size() && ok; k++) {
                        Node &a = T.nodes[(size_t) it1[k]], &b = T.nodes[(size_t) it2[k]];
                        if (a.site != b.site || a.obj != b.obj || a.off != b.off || a.n != b.n) ok = false;
                        else if (a.rv && b.rv) q.push_back(toZ3B(mkEq(a.rv, b.rv)));
                    }
                    if (!ok) continue;
                }
                Z3_ast b = E2.And(q);
                o.push_back(b);
                some.push_back(b);
            }
            all.push_back(E2.Or(o));
        }
        if (!some.empty()) {
            gSS.assertQueries++;
            all.push_back(E2.Or(some));
            Z3_lbool r = E2.check(all);
            if (r == Z3_L_FALSE) gSS.assertUnsat++;
            if (r == Z3_L_TRUE) { emit(E2, s, "timeout", "deadlock: a thread waits for ever", "", "D"); E2.dropModel(); }
        }
    }
    // witnesses
    std::map<std::string, std::vector<Z3_ast>> lab;
    for (size_t i = 0; i < T.nodes.size(); i++) if (T.nodes[i].leaf == LReach) lab[T.nodes[i].msg].push_back(E2.x[i]);
    for (auto &[l, v] : lab) {
        if (sh->stop) break;
        if (reached.count(l)) continue;
        if (E2.check({ E2.Or(v) }) == Z3_L_TRUE) { reached[l]++; E2.dropModel(); }
    }
    // one complete interleaving, replayed natively by the caller
    if (!sh->stop) {
        std::vector<Z3_ast> o;
        for (size_t i = 0; i < T.nodes.size(); i++) if (T.nodes[i].leaf == LComplete && T.nodes[i].thread == T.finalT) o.push_back(E2.x[i]);
        if (E2.check({ E2.Or(o) }) == Z3_L_TRUE) {
            paths++;
            static int ns = 0;
            if (ns++ < 2) {
                Assign m = E2.assign();
                std::ofstream f(gOpt.outDir + "/path." + std::to_string(getpid()) + ".mt" + std::to_string(ns) + ".txt");
                for (auto &i : s.inputs) { u128 z = evalExpr(i.e, m); char b[80]; snprintf(b, 80, " %u %llx", i.w, (unsigned long long) (u64) z); f << i.name << b << "\n"; }
                f << "@sched " << E2.schedule("C") << "\n";
            }
            E2.dropModel();
        } else incomplete("no interleaving in which all threads finish");
    }
    mtStats["queries"] += E2.nq;
    mtStats["z3_ms"] += (u64) (1000 * E2.secs);
    enc.reset();
    throw Done{};
}

// ------------------------------------------------------------------ instrumentation for the scheduled native replay
int instrumentModule(Module &M, const std::string &out) {
    auto &num = instNumbers(M);
    auto &C   = M.getContext();
    Type *V = Type::getVoidTy(C), *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C), *P = PointerType::get(C, 0);
    auto sched = M.getOrInsertFunction("vp_sched", FunctionType::get(V, { I32, I32, P, I64, I32, I32 }, false));
    auto cas   = M.getOrInsertFunction("vp_cas", FunctionType::get(V, { P, I64, I32, I32, I32 }, false));
    auto mcpy  = M.getOrInsertFunction("vp_memcpy", FunctionType::get(V, { I32, P, P, I64 }, false));
    auto mset  = M.getOrInsertFunction("vp_memset", FunctionType::get(V, { I32, P, I32, I64 }, false));
    std::vector<Instruction *> all;
    for (auto &F : M) { // exception handling natively is the C++ runtime's
        bool exn = false;
        for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *f = cb->getCalledFunction()) exn |= f->getName().starts_with("symx_exn_");
        if (exn) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); }
    }
    for (auto &F : M) {
        if (F.getName().starts_with("vp_")) continue;
        // models of primitives the scheduler itself uses: visible to the module only
        if (!F.isDeclaration() && (F.getName().starts_with("pthread_") || F.getName().starts_with("_ZNSt18condition_variable") || F.getName().starts_with("_ZNSt10_Sp_locker") || F.getName().starts_with("symx_cv_"))) { F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage); }
        for (auto &B : F) for (auto &I : B) all.push_back(&I);
    }
    auto &DL = M.getDataLayout();
    auto ord = [](AtomicOrdering o) { return (o == AtomicOrdering::NotAtomic ? 0u : 1u) | (acqOrd(o) ? 2u : 0u) | (relOrd(o) ? 4u : 0u); };
    for (auto *I : all) {
        IRBuilder<> b(I);
        auto        id = b.getInt32((unsigned) num[I]);
        auto call = [&](Value *p, u64 n, unsigned kind, unsigned o) { b.CreateCall(sched, { id, b.getInt32(0), p, b.getInt64(n), b.getInt32(kind), b.getInt32(o) }); };
        if (auto *l = dyn_cast<LoadInst>(I)) call(l->getPointerOperand(), DL.getTypeStoreSize(l->getType()), 0, ord(l->getOrdering()) | (l->isVolatile() ? 1u : 0u));
        else if (auto *s = dyn_cast<StoreInst>(I)) call(s->getPointerOperand(), DL.getTypeStoreSize(s->getValueOperand()->getType()), 1, ord(s->getOrdering()) | (s->isVolatile() ? 1u : 0u));
        else if (auto *r = dyn_cast<AtomicRMWInst>(I)) call(r->getPointerOperand(), DL.getTypeStoreSize(r->getType()), 2, ord(r->getOrdering()));
        else if (auto *x = dyn_cast<AtomicCmpXchgInst>(I)) {
            u64 n = DL.getTypeStoreSize(x->getNewValOperand()->getType());
            call(x->getPointerOperand(), n, 3, 1);
            IRBuilder<> a(x->getNextNode());
            Value *ok = a.CreateZExt(a.CreateExtractValue(x, 1), I32);
            a.CreateCall(cas, { x->getPointerOperand(), a.getInt64(n), ok, a.getInt32(ord(x->getSuccessOrdering())), a.getInt32(ord(x->getFailureOrdering())) });
        } else if (auto *mc = dyn_cast<MemTransferInst>(I)) {
            b.CreateCall(mcpy, { id, mc->getRawDest(), mc->getRawSource(), b.CreateZExt(mc->getLength(), I64) });
            mc->eraseFromParent();
        } else if (auto *ms = dyn_cast<MemSetInst>(I)) {
            b.CreateCall(mset, { id, ms->getRawDest(), b.CreateZExt(ms->getValue(), I32), b.CreateZExt(ms->getLength(), I64) });
            ms->eraseFromParent();
        } else if (auto *cb = dyn_cast<CallBase>(I)) {
            auto *f = cb->getCalledFunction();
            if (f && (f->getName() == "free" || f->getName().starts_with("_ZdlPv") || f->getName().starts_with("_ZdaPv"))) call(cb->getArgOperand(0), 0, 4, 0);
        }
    }
    if (verifyModule(M, &errs())) return 5;
    std::error_code ec;
    raw_fd_ostream  os(out, ec, sys::fs::OF_None);
    WriteBitcodeToFile(M, os);
    return 0;
}
} // namespace sx
