#pragma once
#include "exec.hpp"
namespace sx {
struct Kill { const char *why; };
struct Done {};
struct Shared { // across forked worker processes
    int  active;
    int  stop;
    int  violations;
    u64  paths, killed;
};
struct Engine {
    llvm::Module           *M = nullptr;
    const llvm::DataLayout *DL = nullptr;
    std::unordered_map<llvm::Type *, int>                  slotCache;
    std::unordered_map<const llvm::GlobalValue *, u64>     gaddr;
    std::unordered_map<u64, llvm::Function *>              funcAt;
    std::unordered_map<llvm::Function *, CFunc *>          cfs;
    std::unordered_map<std::string, int>                   covIds;
    std::vector<std::string>                               covNames;
    std::vector<uint8_t>                                   covHit;
    std::vector<State *>                                   work;
    u64    merges = 0, forks = 0, paths = 0, killed = 0, steps = 0, assertsSeen = 0, uninitReads = 0;
    std::map<std::string, u64>  reached, incompletes, unsupported;
    std::vector<Violation>      violations;
    std::set<std::string>       violKeys;
    Shared                     *sh = nullptr;
    double                      t0 = 0;
    u64                         tiSI = 0, tiVMI = 0, tiClass = 0;
    bool                        s_skipRet = false;
    bool                        isChild = false;
    std::vector<int>            kids;

    unsigned scalarW(llvm::Type *t);
    void     leaves(llvm::Type *t, u64 off, std::vector<std::pair<u64, unsigned>> &out);
    int      nSlots(llvm::Type *t);
    void     constSlots(llvm::Constant *c, std::vector<V> &out);
    u64      constScalar(llvm::Constant *c);
    u64      constExpr(llvm::ConstantExpr *ce);
    u64      globalAddr(llvm::GlobalValue *g);

    Obj *newObj(State &s, u64 size, ObjKind k, const char *name, bool uninit, u64 align = 16);
    void setObj(State &s, u64 id, Ref<Obj> o);
    Obj *getObj(State &s, u64 id);
    Obj *getObjW(State &s, u64 id);
    Obj *objAt(State &s, u64 addr);
    V    readBytes(State &s, Obj *o, u64 off, unsigned n, unsigned w);
    void writeBytes(State &s, Obj *o, u64 off, unsigned n, unsigned w, V v);
    void copyRange(State &s, u64 dId, u64 dOff, u64 sId, u64 sOff, u64 n);
    void freeObj(State &s, u64 id);

    void addPC(State &s, Expr *c);
    Expr *under(State &s, Expr *e);
    V     underV(State &s, V v) { return v.conc() ? v : V(under(s, v.e)); }
    bool branch(State &s, Expr *c);
    bool branchV(State &s, V c);
    u64  concretize(State &s, V v, unsigned w);
    void assume(State &s, V c);
    void assertV(State &s, V c, const std::string &msg);
    Expr *conj(const std::vector<Expr *> &v);
    std::string where(State &s);
    void report(State &s, const std::string &kind, const std::string &msg, const Assign &m);
    [[noreturn]] void fail(State &s, const std::string &kind, const std::string &msg);
    Obj *resolve(State &s, V addr, u64 n, V &off, bool write);
    [[noreturn]] void memError(State &s, u64 addr, Obj *o, u64 n, bool write);
    V    loadAt(State &s, Obj *o, V off, unsigned n, unsigned w);
    void storeAt(State &s, Obj *o, V off, unsigned n, unsigned w, V v);
    std::pair<u64, u64> offRange(Expr *e);

    void   addOp(CInst &ci, llvm::Value *v, std::unordered_map<llvm::Value *, int> &reg);
    CFunc *compile(llvm::Function *F);
    void   pushFrame(State &s, CFunc *cf, const std::vector<V> &args);
    void   popFrame(State &s);
    void   takeEdge(State &s, Frame *f, const Edge &e);
    bool   mergeRegion(State &s, Frame *f);
    void   doReturn(State &s, const std::vector<V> &vals);
    bool   tiDerived(State &s, u64 from, u64 to, u64 obj, u64 &ptr);
    void   unwind(State &s);

    void step(State &s);
    void execCall(State &s, Frame *f, CInst &ci);
    bool hostCall(State &s, Frame *f, CInst &ci, const std::string &name, std::vector<V> &args, V &ret);
    bool intrinsic(State &s, Frame *f, CInst &ci, llvm::Function *F, std::vector<V> &args);
    V    binop(State &s, unsigned op, V a, V b, unsigned w);
    V    icmp(unsigned pred, V a, V b, unsigned w);
    V    castop(unsigned op, V a, unsigned aw, unsigned w);
    void runState(State *s);
    void explore(State *init);
    bool maybeSplit(State *cur);
    void incomplete(const std::string &why) { incompletes[why]++; }
    void emitViolation(Violation &v);
    std::string cstr(State &s, V p);
    State *initState();
    void   finish();
    double elapsed();
    // threads
    void tcFail(State &s, const std::string &kind, const std::string &msg);
    void tcAssert(State &s, Expr *c, const std::string &msg);
    bool tcLoad(State &s, CInst &ci, V addr, unsigned n, unsigned w, V &out);
    bool tcStore(State &s, CInst &ci, V addr, unsigned n, unsigned w, V val);
    bool tcRmw(State &s, CInst &ci, V addr, unsigned n, unsigned w, const std::function<Expr *(Expr *)> &f, V &old, unsigned order);
    bool tcCmpXchg(State &s, CInst &ci, V addr, unsigned n, unsigned w, V exp, V des, V &old, V &ok);
    void tcRunThreads(State &s);
    void tcMaterialize(State &s, u64 addr);
    void tcFree(State &s, u64 id);
    u64  tcAllocId(State &s, u64 size, ObjKind k, const char *name, u64 nids);
    void tcReach(State &s, const std::string &label);
    [[noreturn]] void tcBlock(State &s);
    std::map<std::string, u64> mtStats;
};
extern Engine *gE;
} // namespace sx
