#include "engine.hpp"
#include "threads.hpp"
#include <cstring>
using namespace llvm;
namespace sx {
using HostFn = void (*)(Engine &, State &, Frame *, CInst &, std::vector<V> &, V &, bool &advance);
#define H [](Engine & E, State & s, Frame * f, CInst & ci, std::vector<V> & a, V & ret, bool &adv)
#define UNUSED (void) E; (void) s; (void) f; (void) ci; (void) a; (void) ret; (void) adv

std::string Engine::cstr(State &s, V p) {
    std::string r;
    if (!p.conc()) return "<sym>";
    Obj *o = objAt(s, p.c);
    if (!o || o->freed) return "<bad>";
    for (u64 i = p.c - (o->id << OBJ_SHIFT); i < o->size; i++) {
        if (!o->s.empty() && o->s[i]) { r += '?'; continue; }
        if (!o->d[i]) break;
        r += (char) o->d[i];
    }
    return r;
}
static V allocV(Engine &E, State &s, V n, ObjKind k, const char *nm, bool zero) {
    u64 sz = E.concretize(s, n, 64);
    if (sz > (1ull << 26)) { E.fail(s, "huge-allocation", "allocation of " + std::to_string(sz) + " bytes"); }
    Obj *o = E.newObj(s, sz, k, nm, !zero);
    return V(o->id << OBJ_SHIFT);
}
static void freeV(Engine &E, State &s, V p, ObjKind k, const char *nm) {
    u64 a = E.concretize(s, p, 64);
    if (!a) return;
    if (s.tc) E.tcMaterialize(s, a);
    Obj *o = E.objAt(s, a);
    if (!o || (a & OBJ_MASK) != 0 || (o->id << OBJ_SHIFT) != a) E.fail(s, "memory", std::string(nm) + " of a pointer that was not returned by an allocation");
    if (o->freed) E.fail(s, "memory", std::string("double free (") + nm + ")");
    if (o->kind != k) E.fail(s, "memory", std::string("mismatched deallocation: ") + nm + " of '" + o->name + "'");
    E.freeObj(s, o->id);
}
static void memcmpH(Engine &E, State &s, std::vector<V> &a, V &ret) {
    u64 n = E.concretize(s, a[2], 64);
    if (n == 0) { ret = V(0); return; }
    if (s.tc) { tcTouch(E, s, E.concretize(s, a[0], 64), n); tcTouch(E, s, E.concretize(s, a[1], 64), n); }
    V    o1, o2;
    Obj *x = E.resolve(s, a[0], n, o1, false);
    Obj *y = E.resolve(s, a[1], n, o2, false);
    u64  xi = x->id, yi = y->id;
    Expr *r = mkConst(0, 32);
    auto at = [](V o, u64 i) { return o.conc() ? V(o.c + i) : V(mkBin(KAdd, o.e, mkConst(i, 64))); };
    std::vector<std::pair<V, V>> bs;
    for (u64 i = 0; i < n; i++) bs.push_back({ E.loadAt(s, E.getObj(s, xi), at(o1, i), 1, 8), E.loadAt(s, E.getObj(s, yi), at(o2, i), 1, 8) });
    size_t end = bs.size();
    for (size_t i = 0; i < bs.size(); i++) if (bs[i].first.conc() && bs[i].second.conc() && bs[i].first.c != bs[i].second.c) { end = i; r = mkConst(bs[i].first.c < bs[i].second.c ? (u64) -1 : 1, 32); break; }
    for (size_t i = end; i-- > 0;) {
        Expr *p = bs[i].first.ex(8), *q = bs[i].second.ex(8);
        if (p == q) continue;
        r = mkIte(mkEq(p, q), r, mkIte(mkBin(KUlt, p, q), mkConst((u64) -1, 32), mkConst(1, 32)));
    }
    ret = V(r);
}
static std::string tiName(Engine &E, State &s, u64 ti) {
    Obj *o = E.objAt(s, ti);
    if (!o) return "?";
    V nm = E.readBytes(s, o, (ti & OBJ_MASK) + 8, 8, 64);
    return E.cstr(s, nm);
}

std::unordered_map<std::string, HostFn> &hostTable() {
    static std::unordered_map<std::string, HostFn> t;
    if (!t.empty()) return t;
    t["symx_sym"] = H {
        UNUSED;
        std::string nm = E.cstr(s, a[0]);
        unsigned    w  = (unsigned) a[1].c;
        auto pin = gOpt.pins.find(nm);
        if (pin != gOpt.pins.end()) { s.inputs.push_back({ nm, w, mkConst(pin->second, w) }); ret = V(pin->second); return; }
        Expr       *e  = mkVar(nm, w);
        s.inputs.push_back({ nm, w, e });
        ret = V(w < 64 ? mkZExt(e, 64) : e);
    };
    t["symx_bytes"] = H { // (name, ptr, n)
        UNUSED;
        std::string nm = E.cstr(s, a[0]);
        u64 n = E.concretize(s, a[2], 64);
        if (!n) return;
        V off;
        Obj *o = E.resolve(s, a[1], n, off, true);
        u64 c = E.concretize(s, off, 64), id = o->id;
        for (u64 i = 0; i < n; i++) {
            Expr *e = mkVar(nm + "[" + std::to_string(i) + "]", 8);
            s.inputs.push_back({ nm + "[" + std::to_string(i) + "]", 8, e });
            E.writeBytes(s, E.getObjW(s, id), c + i, 1, 8, V(e));
        }
    };
    t["symx_assume"] = H { UNUSED; V c = E.icmp(CmpInst::ICMP_NE, a[0], V(0), 32); E.assume(s, c); };
    t["symx_assert_"] = H {
        UNUSED;
        V c = E.icmp(CmpInst::ICMP_NE, a[0], V(0), 32);
        E.assertV(s, c, E.cstr(s, a[1]));
    };
    t["symx_reach"] = H { UNUSED; if (s.tc) { E.tcReach(s, E.cstr(s, a[0])); return; } E.reached[E.cstr(s, a[0])]++; };
    t["symx_concretize"] = H { UNUSED; ret = V(E.concretize(s, a[0], 64)); };
    t["symx_branch"] = H { UNUSED; V c = E.icmp(CmpInst::ICMP_NE, a[0], V(0), 32); ret = V(E.branchV(s, c)); };
    t["symx_is_symbolic"] = H { UNUSED; ret = V(!a[0].conc()); };
    t["symx_note"] = H {
        UNUSED;
        std::string v = a[1].conc() ? std::to_string((long long) a[1].c) : "<sym>";
        s.notes.push_back(E.cstr(s, a[0]) + "=" + v);
    };
    t["symx_trace"] = H { UNUSED; if (gOpt.verbose) fprintf(stderr, "TRACE %s %s\n", E.cstr(s, a[0]).c_str(), a[1].conc() ? std::to_string((long long) a[1].c).c_str() : (exprStr(a[1].e, getenv("SXD") ? atoi(getenv("SXD")) : 5) + " ~ " + std::to_string((long long) (u64) evalExpr(a[1].e, s.model))).c_str()); };
    t["symx_kill"] = H { UNUSED; throw Kill{ "assume" }; };
    t["symx_heap_mark"] = H { UNUSED; ret = V(s.nextId); };
    t["symx_heap_live"] = H { // number of live heap objects allocated since mark
        UNUSED;
        u64 n = 0, from = E.concretize(s, a[0], 64);
        for (u64 i = from; i < s.nextId; i++) { Obj *o = E.getObj(s, i); if (o && !o->freed && (o->kind == OMalloc || o->kind == ONew || o->kind == ONewArr)) { n++; if (gOpt.verbose) fprintf(stderr, "live: id %llu size %llu %s\n", (unsigned long long) i, (unsigned long long) o->size, o->name); } }
        ret = V(n);
    };
    t["symx_valid"] = H { // is [p, p+n) a live readable object range?
        UNUSED;
        u64 p = E.concretize(s, a[0], 64), n = E.concretize(s, a[1], 64);
        Obj *o = E.objAt(s, p);
        u64 off = p - (o ? o->id << OBJ_SHIFT : 0);
        ret = V(o && !o->freed && off <= o->size && o->size - off >= n);
    };
    t["symx_thread"] = H { UNUSED; s.threads.push_back({ E.concretize(s, a[0], 64), E.concretize(s, a[1], 64) }); };
    t["symx_threads_run"] = H { UNUSED; adv = false; E.tcRunThreads(s); };
    t["symx_block"] = H { UNUSED; adv = false; if (s.tc) E.tcBlock(s); E.fail(s, "deadlock", "a lock that is held by the same thread is taken"); };
    // allocation
    t["malloc"] = H { UNUSED; ret = allocV(E, s, a[0], OMalloc, "malloc block", false); };
    t["calloc"] = H { UNUSED; ret = allocV(E, s, E.binop(s, Instruction::Mul, a[0], a[1], 64), OMalloc, "calloc block", true); };
    t["aligned_alloc"] = H { UNUSED; ret = allocV(E, s, a[1], OMalloc, "malloc block", false); };
    t["realloc"] = H {
        UNUSED;
        u64 n = E.concretize(s, a[1], 64), p = E.concretize(s, a[0], 64);
        if (!p) { ret = allocV(E, s, V(n), OMalloc, "malloc block", false); return; }
        Obj *o = E.objAt(s, p);
        if (!o || (p & OBJ_MASK) || o->freed || o->kind != OMalloc) E.fail(s, "memory", "realloc of invalid pointer");
        u64 oid = o->id, os = o->size;
        Obj *nw = E.newObj(s, n, OMalloc, "malloc block", true);
        u64 nid = nw->id;
        E.copyRange(s, nid, 0, oid, 0, std::min(n, os));
        E.freeObj(s, oid);
        ret = V(nid << OBJ_SHIFT);
    };
    t["free"] = H { UNUSED; freeV(E, s, a[0], OMalloc, "free"); };
    for (const char *n : { "_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t" }) t[n] = H { UNUSED; ret = allocV(E, s, a[0], ONew, "new block", false); };
    for (const char *n : { "_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t" }) t[n] = H { UNUSED; ret = allocV(E, s, a[0], ONewArr, "new[] block", false); };
    for (const char *n : { "_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t" }) t[n] = H { UNUSED; freeV(E, s, a[0], ONew, "delete"); };
    for (const char *n : { "_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t" }) t[n] = H { UNUSED; freeV(E, s, a[0], ONewArr, "delete[]"); };
    t["memcmp"] = H { UNUSED; memcmpH(E, s, a, ret); };
    t["memchr"] = H {
        UNUSED;
        u64 n = E.concretize(s, a[2], 64), p = E.concretize(s, a[0], 64);
        V   c = E.castop(Instruction::Trunc, a[1], 32, 8);
        if (!n) { ret = V(0); return; }
        if (s.tc) tcTouch(E, s, p, 1);
        std::vector<V> b;
        bool allc = true;
        {   // like the library, reads up to the match only; bytes past the object's end are an error only if they are reached
            Obj *o = E.objAt(s, p);
            if (!o || o->freed) E.memError(s, p, o, n, false);
            u64 off = p - (o->id << OBJ_SHIFT), id = o->id, sz = o->size;
            for (u64 i = 0; i < n && off + i < sz; i++) { b.push_back(E.readBytes(s, E.getObj(s, id), off + i, 1, 8)); allc = allc && b.back().conc(); }
        }
        if (allc && !c.conc() && b.size() == n) {
            Expr *found = mkConst(0, 1), *idx = mkConst(0, 64);
            for (u64 i = n; i-- > 0;) {
                Expr *q = mkEq(c.e, mkConst(b[i].c, 8));
                found = mkOrB(found, q);
                idx   = mkIte(q, mkConst(i, 64), idx);
            }
            if (!E.branch(s, found)) { ret = V(0); return; }
            ret = V(mkBin(KAdd, idx, mkConst(p, 64)));
            return;
        }
        for (u64 i = 0; i < b.size(); i++) {
            V q = E.icmp(CmpInst::ICMP_EQ, b[i], c, 8);
            if (E.branchV(s, q)) { ret = V(p + i); return; }
        }
        if (b.size() < n) E.memError(s, p, E.objAt(s, p), n, false);
        ret = V(0);
    };
    t["bcmp"] = H { UNUSED; memcmpH(E, s, a, ret); };
    // termination
    t["abort"] = H { UNUSED; E.fail(s, "abort", "abort() called"); };
    t["exit"] = H { UNUSED; E.fail(s, "abort", "exit() called"); };
    t["_exit"] = H { UNUSED; E.fail(s, "abort", "_exit() called"); };
    t["_ZSt9terminatev"] = H {
        UNUSED;
        std::string w = "std::terminate called";
        if (s.curExn && s.exns.count(s.curExn)) w += " (exception " + tiName(E, s, s.exns[s.curExn].ti) + " escaped a noexcept function; thrown at " + s.thrownAt + ")";
        E.fail(s, "terminate", w);
    };
    t["__cxa_pure_virtual"] = H { UNUSED; E.fail(s, "abort", "pure virtual call"); };
    t["__assert_fail"] = H { UNUSED; E.fail(s, "assert-macro", "assertion `" + E.cstr(s, a[0]) + "' failed"); };
    t["__stack_chk_fail"] = H { UNUSED; E.fail(s, "abort", "stack smashing"); };
    // exceptions
    t["__cxa_allocate_exception"] = H { UNUSED; ret = V(E.newObj(s, a[0].c, OExn, "exception object", true)->id << OBJ_SHIFT); };
    t["__cxa_free_exception"] = H { UNUSED; u64 p = E.concretize(s, a[0], 64); if (E.getObj(s, p >> OBJ_SHIFT)) E.freeObj(s, p >> OBJ_SHIFT); };
    t["__cxa_throw"] = H {
        UNUSED;
        adv = false;
        s.thrownAt = E.where(s);
        Exn x; x.ti = a[1].c; x.dtor = a[2].c;
        s.exns[a[0].c] = x;
        s.curExn = a[0].c;
        s.uncaught++;
        // a frame is popped by unwind; push a marker for the throwing call itself
        Frame *g = new Frame(*s.stack.back().p); g->rc = 0; g->allocas.clear();
        s.stack.push_back(Ref<Frame>(g));
        E.unwind(s);
    };
    t["__cxa_rethrow"] = H {
        UNUSED;
        adv = false;
        if (s.caught.empty()) E.fail(s, "terminate", "rethrow without active exception");
        u64 e = s.caught.back();
        s.exns[e].rethrown = true;
        s.curExn = e;
        s.uncaught++;
        Frame *g = new Frame(*s.stack.back().p); g->rc = 0; g->allocas.clear();
        s.stack.push_back(Ref<Frame>(g));
        E.unwind(s);
    };
    t["__cxa_begin_catch"] = H {
        UNUSED;
        u64 e = a[0].c;
        s.caught.push_back(e);
        s.exns[e].handlers++;
        s.uncaught--;
        s.curExn = e;
        // adjusted pointer: primary object (all exception classes here use single inheritance at offset 0)
        ret = V(e);
    };
    t["__cxa_get_exception_ptr"] = H { UNUSED; ret = a[0]; };
    t["__cxa_end_catch"] = H {
        UNUSED;
        if (s.caught.empty()) return;
        u64 e = s.caught.back();
        s.caught.pop_back();
        Exn &x = s.exns[e];
        x.handlers--;
        if (x.rethrown) { x.rethrown = false; return; }
        if (x.handlers == 0 && --x.refs == 0) {
            u64 d = x.dtor;
            s.exns.erase(e);
            if (d && E.funcAt.count(d)) {
                // run the destructor as a nested call that returns to this call's continuation
                adv = false;
                E.pushFrame(s, E.compile(E.funcAt[d]), { V(e) });
            }
        }
    };
    t["symx_exn_current"] = H { UNUSED; ret = V(s.caught.empty() ? 0 : s.caught.back()); };
    t["symx_exn_addref"] = H { UNUSED; if (a[0].c && s.exns.count(a[0].c)) s.exns[a[0].c].refs++; };
    t["symx_exn_release"] = H { UNUSED; if (a[0].c && s.exns.count(a[0].c)) { Exn &x = s.exns[a[0].c]; x.refs--; if (x.refs <= 0 && x.handlers == 0) s.exns.erase(a[0].c); } };
    t["symx_exn_rethrow"] = H {
        UNUSED;
        adv = false;
        s.exns[a[0].c].refs++;
        s.curExn = a[0].c;
        s.uncaught++;
        Frame *g = new Frame(*s.stack.back().p); g->rc = 0; g->allocas.clear();
        s.stack.push_back(Ref<Frame>(g));
        E.unwind(s);
    };
    t["symx_uncaught"] = H { UNUSED; ret = V((u64) s.uncaught); };
    t["__dynamic_cast"] = H { // (ptr, src ti, dst ti, hint)
        UNUSED;
        u64 p = E.concretize(s, a[0], 64);
        if (!p) { ret = V(0); return; }
        auto rd = [&](u64 ad) -> u64 { V off; Obj *o = E.resolve(s, V(ad), 8, off, false); V v = E.readBytes(s, o, off.c, 8, 64); return v.c; };
        u64 vt  = rd(p);
        u64 top = rd(vt - 16), ti = rd(vt - 8);
        u64 full = p + top;
        u64 q    = full;
        if (E.tiDerived(s, ti, a[2].c, full, q)) ret = V(q);
        else ret = V(0);
    };
    t["__cxa_atexit"] = H { UNUSED; ret = V(0); };
    t["__cxa_thread_atexit"] = H { UNUSED; ret = V(0); };
    t["strcmp"] = nullptr; t.erase("strcmp");
    return t;
}
} // namespace sx
