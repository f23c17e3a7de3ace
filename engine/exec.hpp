// Symbolic executor over LLVM IR.
#pragma once
#include "expr.hpp"
#include "solver.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <concepts>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sx {

struct V {
    Expr *e = nullptr;
    u64   c = 0;
    V() = default;
    template<std::integral T> V(T x) : c((u64) x) {}
    explicit V(Expr *x) {
        if (x->isConst() && x->w <= 64) c = x->cv();
        else e = x;
    }
    bool  conc() const { return e == nullptr; }
    Expr *ex(unsigned w) const { return e ? e : mkConst(c, w); }
};

template<class T>
struct Ref {
    T *p = nullptr;
    Ref() = default;
    Ref(T *x) : p(x) { if (p) p->rc++; }
    Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
    Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
    Ref &operator=(Ref &&o) noexcept { if (this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
    ~Ref() { drop(); }
    void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
    T   *operator->() const { return p; }
    T   &operator*() const { return *p; }
    explicit operator bool() const { return p; }
    T   *unshare() { if (p->rc > 1) { T *n = new T(*p); n->rc = 1; p->rc--; p = n; } return p; }
};

enum ObjKind : uint8_t { OGlobal, OStack, OMalloc, ONew, ONewArr, OExn, OFunc };
struct Obj {
    int                  rc = 0;
    u64                  id = 0, size = 0;
    ObjKind              kind = OGlobal;
    bool                 ro = false, freed = false;
    std::vector<uint8_t> d;
    std::vector<Expr *>  s; // empty, or one entry per byte (nullptr = concrete)
    const char          *name = "";
    Obj() = default;
    Obj(const Obj &) = default;
};
constexpr unsigned OBJ_SHIFT = 24;
constexpr u64      OBJ_MASK  = (1ull << OBJ_SHIFT) - 1;
constexpr unsigned CHUNK     = 64;
struct Chunk {
    int      rc = 0;
    Ref<Obj> o[CHUNK];
};

struct Opnd {
    int reg = -1;
    V   k;
};
struct Edge {
    int                                pc = -1;
    std::vector<std::pair<int, Opnd>>  moves;
};
struct CFunc;
struct CInst {
    unsigned               op = 0;
    llvm::Instruction     *I = nullptr;
    int                    dst = -1;
    int                    nslots = 0;
    unsigned               w = 0;  // result width (scalar)
    unsigned               aw = 0; // operand width
    std::vector<Opnd>      ops;    // flattened operand slots
    std::vector<int>       opStart;
    std::vector<Edge>      edges;
    std::vector<std::pair<u128, int>> cases;
    u64                    off = 0; // GEP constant offset
    std::vector<std::pair<int, int64_t>> gep; // (operand slot index, scale)
    std::vector<unsigned>  gepW;
    std::vector<std::pair<u64, unsigned>> leaves; // (byte offset, bit width) of loaded/stored type
    u64                    accSize = 0;
    llvm::Function        *callee = nullptr;
    CFunc                 *cf = nullptr;
    int                    model = -1;
    int                    lpad = -1; // landingpad pc of invoke's unwind edge
    int                    covId = -1;
};
struct BBInfo {
    int              start = 0, end = 0, rpo = 0; // [start, end] pcs; end is the terminator
    std::vector<int> preds;
    bool             pure = false;
};
struct CFunc {
    std::vector<BBInfo>          bbs;
    std::unordered_map<int, int> bbAt; // start pc -> block
    llvm::Function     *F = nullptr;
    std::vector<CInst>  code;
    int                 nregs = 0;
    std::vector<unsigned> regW;   // per register slot
    std::vector<char>     regPtr;
    bool wide(int r) const { return regW[(size_t) r] >= 64; }
    bool isPtr(int r) const { return regPtr[(size_t) r] != 0; }
    std::vector<int>    argSlot;
    std::vector<int>    argN;
    std::vector<u64>    byval; // per arg: size if byval
    u64                 execs = 0;
};
struct Frame {
    int              rc = 0;
    CFunc           *fn = nullptr;
    int              pc = 0;
    std::vector<V>   r;
    std::vector<u64> allocas;
    Frame() = default;
    Frame(const Frame &) = default;
};
struct InputRec {
    std::string name;
    unsigned    w;
    Expr       *e;
};
struct Exn {
    u64 ti = 0, dtor = 0;
    int handlers = 0;
    int refs = 1;
    bool rethrown = false;
};
struct TState { // per-path state of a thread under the concurrency encoding
    int    thread = -1, node = -1;
    size_t pcBase = 0; // conditions of the path that belong to events already recorded
    int    allocs = 0, events = 0;
    std::unordered_map<int, int> occ, evOcc;
    explicit operator bool() const { return thread >= 0; }
};
struct State {
    std::vector<Ref<Frame>>       stack;
    std::vector<Ref<Chunk>>       mem;
    u64                           nextId = 1;
    std::vector<Expr *>           pc;
    std::unordered_set<Expr *>    known;
    std::unordered_map<Expr *, u64> eq;
    Assign                        model;
    std::vector<InputRec>         inputs;
    std::map<u64, Exn>            exns;
    std::vector<u64>              caught;
    u64                           curExn = 0;
    int                           uncaught = 0;
    u64                           steps = 0;
    int                           concCount = 0;
    u64                           depth = 0;
    bool                          leakCheck = false;
    std::vector<u64>              leakBase;
    u64                           leakFrom = 0;
    std::vector<std::string>      notes;
    std::string                   thrownAt;
    std::map<std::string, u64>    choices;
    TState                        tc;
    std::vector<std::pair<u64, u64>> threads;
};

struct Violation {
    std::string kind, msg, where;
    std::vector<std::string> inputs; // "name width hex"
    std::string sched;
    std::vector<std::string> notes;
};

struct Options {
    u64         maxSteps = 20000000; // per path
    double      maxTime = 600;
    int         jobs = 8;
    bool        stopFirst = true;
    std::string outDir;
    std::string entry;
    bool        verbose = false, concHeap = false, merge = true, race = true, deadlock = false;
    int         spin = 3, maxEvents = 200;
    std::map<std::string, u64> pins;
};
extern Options gOpt;
} // namespace sx
