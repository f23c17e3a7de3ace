#include "engine.hpp"
#include "threads.hpp"
#include "threads.hpp"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <chrono>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <sstream>

using namespace llvm;
namespace sx {
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
double Engine::elapsed() { return nowS() - t0; }

u64 Engine::globalAddr(GlobalValue *g) {
    if (auto *ga = dyn_cast<GlobalAlias>(g)) {
        APInt off(64, 0);
        Value *b = ga->getAliasee()->stripAndAccumulateConstantOffsets(*DL, off, true);
        return globalAddr(cast<GlobalValue>(b)) + off.getZExtValue();
    }
    auto it = gaddr.find(g);
    if (it == gaddr.end()) { errs() << "no address for global " << g->getName() << "\n"; abort(); }
    return it->second;
}
static void initConst(Engine &E, State &s, Obj *o, u64 off, Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        memcpy(&o->d[off], r.data(), r.size());
        return;
    }
    if (auto *st = dyn_cast<StructType>(t); st && isa<ConstantStruct>(c)) {
        auto *l = E.DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) initConst(E, s, o, off + (u64) l->getElementOffset(i), cast<Constant>(c->getOperand(i)));
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t); at && isa<ConstantArray>(c)) {
        u64 es = E.DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++) initConst(E, s, o, off + i * es, cast<Constant>(c->getOperand((unsigned) i)));
        return;
    }
    std::vector<V> sl; std::vector<std::pair<u64, unsigned>> lv;
    E.constSlots(c, sl);
    E.leaves(t, 0, lv);
    for (size_t i = 0; i < sl.size(); i++) E.writeBytes(s, o, off + lv[i].first, (lv[i].second + 7) / 8, lv[i].second, sl[i]);
}
State *Engine::initState() {
    auto *s = new State;
    s->nextId = 2;
    for (auto &F : *M) { u64 id = s->nextId++; gaddr[&F] = id << OBJ_SHIFT; funcAt[id << OBJ_SHIFT] = &F; auto *o = new Obj; o->id = id; o->size = 0; o->kind = OFunc; o->ro = true; o->name = "function"; setObj(*s, id, Ref<Obj>(o)); }
    for (auto &G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64) DL->getTypeAllocSize(G.getValueType()) : 0;
        if (G.isDeclaration() && sz < 256) sz = 256;
        Obj *o = newObj(*s, sz, OGlobal, strdup(G.getName().str().c_str()), false);
        gaddr[&G] = o->id << OBJ_SHIFT;
    }
    for (auto &G : M->globals()) {
        if (!G.hasInitializer()) continue;
        Obj *o = getObjW(*s, gaddr[&G] >> OBJ_SHIFT);
        initConst(*this, *s, o, 0, G.getInitializer());
        if (G.isConstant()) o->ro = true;
    }
    auto vt = [&](const char *n) -> u64 { auto *g = M->getNamedGlobal(n); return g ? gaddr[g] + 16 : 0; };
    tiSI    = vt("_ZTVN10__cxxabiv120__si_class_type_infoE");
    tiVMI   = vt("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    tiClass = vt("_ZTVN10__cxxabiv117__class_type_infoE");
    return s;
}
static std::string jesc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char) c;
    }
    return r;
}
void Engine::emitViolation(Violation &v) {
    std::string key = v.kind + "|" + v.msg + "|" + v.where.substr(0, v.where.find(" <- "));
    if (!violKeys.insert(key).second) return;
    violations.push_back(v);
    int n = __sync_fetch_and_add(&sh->violations, 1);
    std::ostringstream o;
    o << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":[";
    for (size_t i = 0; i < v.inputs.size(); i++) o << (i ? "," : "") << "\"" << jesc(v.inputs[i]) << "\"";
    o << "],\"notes\":[";
    for (size_t i = 0; i < v.notes.size(); i++) o << (i ? "," : "") << "\"" << jesc(v.notes[i]) << "\"";
    o << "],\"sched\":\"" << jesc(v.sched) << "\"}\n";
    std::string fn = gOpt.outDir + "/viol." + std::to_string(n) + ".json";
    std::ofstream(fn) << o.str();
    if (gOpt.verbose) fprintf(stderr, "VIOLATION %s\n", o.str().c_str());
    if (gOpt.stopFirst || n > 40) sh->stop = 1;
}
// returns true in a child that must abandon 'cur' (the parent goes on with it)
bool Engine::maybeSplit(State *cur) {
    if (work.size() < (cur ? 1u : 2u) || sh->active >= gOpt.jobs) return false;
    int a = __sync_add_and_fetch(&sh->active, 1);
    if (a > gOpt.jobs) { __sync_sub_and_fetch(&sh->active, 1); return false; }
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { __sync_sub_and_fetch(&sh->active, 1); return false; }
    // the older half of the worklist (bigger subtrees) goes to the child: interleave
    std::vector<State *> mine, theirs;
    for (size_t i = 0; i < work.size(); i++) (i % 2 == 0 ? theirs : mine).push_back(work[i]);
    if (p == 0) {
        isChild = true;
        kids.clear();
        work = theirs;
        for (auto *st : mine) delete st;
        // fresh statistics for this process
        gSS = SolverStats{};
        merges = forks = paths = killed = steps = assertsSeen = uninitReads = 0;
        reached.clear(); mtStats.clear(); incompletes.clear(); unsupported.clear(); violations.clear();
        std::fill(covHit.begin(), covHit.end(), 0);
    } else {
        kids.push_back(p);
        work = mine;
        for (auto *st : theirs) delete st;
    }
    return p == 0 && cur;
}
void Engine::runState(State *s) {
    u64 lim = gOpt.maxSteps;
    try {
        u64 n = 0;
        while (true) {
            step(*s);
            steps++;
            if ((++n & 0x3ff) == 0) {
                if (sh->stop) throw Kill{ "stop" };
                if (elapsed() > gOpt.maxTime) { incomplete("time limit"); sh->stop = 2; throw Kill{ "time" }; }
                if (n > lim) {
                    // non-termination within the step budget: reported, and confirmed (or not) by the native replay
                    report(*s, "timeout", "path exceeds step limit", s->model);
                    throw Kill{ "steps" };
                }
                if (maybeSplit(s)) throw Kill{ "split" };
            }
        }
    } catch (Done &) {
        paths++;
        static int nsamp = 0; static pid_t np = 0;
        if (np != getpid()) { np = getpid(); nsamp = 0; }
        if (nsamp++ < 2 && !s->inputs.empty()) {
            std::ofstream o(gOpt.outDir + "/path." + std::to_string(getpid()) + "." + std::to_string(nsamp) + ".txt");
            for (auto &i : s->inputs) { u128 x = evalExpr(i.e, s->model); char b[80]; snprintf(b, 80, " %u %llx", i.w, (unsigned long long) (u64) x); o << i.name << b << "\n"; }
        }
    } catch (Kill &k) {
        if (strcmp(k.why, "assume") == 0) killed++;
        else if (strcmp(k.why, "violation") == 0) paths++;
        else if (strcmp(k.why, "unsupported") == 0) { incompletes["unsupported construct"]++; if (gOpt.verbose) fprintf(stderr, "unsupported at %s\n", where(*s).c_str()); }
        else if (strcmp(k.why, "split") != 0) killed++;
    }
}
void Engine::explore(State *init) {
    work.push_back(init);
    while (!work.empty() && !sh->stop) {
        maybeSplit(nullptr);
        if (work.empty()) break;
        State *s = work.back();
        work.pop_back();
        runState(s);
        delete s;
    }
}
void Engine::finish() {
    __sync_sub_and_fetch(&sh->active, 1);
    std::ostringstream o;
    o << "{\"paths\":" << paths << ",\"killed\":" << killed << ",\"steps\":" << steps << ",\"forks\":" << forks << ",\"merges\":" << merges << ",\"asserts\":" << assertsSeen << ",\"uninit_reads\":" << uninitReads
      << ",\"queries\":" << gSS.queries << ",\"z3_queries\":" << gSS.z3Queries << ",\"domain_queries\":" << gSS.domainQueries << ",\"cache_hits\":" << gSS.cacheHits << ",\"model_hits\":" << gSS.modelHits
      << ",\"z3_time\":" << gSS.z3Time << ",\"unknown\":" << gSS.unknown << ",\"assert_queries\":" << gSS.assertQueries << ",\"assert_unsat\":" << gSS.assertUnsat << ",\"time\":" << elapsed();
    auto mp = [&](const char *n, std::map<std::string, u64> &m) { o << ",\"" << n << "\":{"; bool f = true; for (auto &p : m) { o << (f ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f = false; } o << "}"; };
    for (auto &m : mtStats) o << ",\"mt_" << m.first << "\":" << m.second;
    mp("reached", reached);
    mp("incomplete", incompletes);
    mp("unsupported", unsupported);
    o << ",\"covered\":[";
    bool f = true;
    for (size_t i = 0; i < covNames.size(); i++) if (covHit[i]) { o << (f ? "" : ",") << "\"" << jesc(covNames[i]) << "\""; f = false; }
    o << "]}\n";
    std::ofstream(gOpt.outDir + "/stats." + std::to_string(getpid()) + ".json") << o.str();
    for (int k : kids) { int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) std::ofstream(gOpt.outDir + "/crash." + std::to_string(k)) << st; }
}
} // namespace sx

using namespace sx;
static void llvmOptions() {
    // fold short-circuit conditions and small diamonds into data flow: fewer forks for the symbolic executor
    const char *a[] = { "symx", "-bonus-inst-threshold=24", "-phi-node-folding-threshold=24", "-two-entry-phi-node-folding-threshold=48", "-simplifycfg-branch-fold-threshold=24", "-max-speculation-depth=24" };
    cl::ParseCommandLineOptions(sizeof(a) / sizeof(*a), a);
}
static void optimise(Module &M, const std::string &entry, const char *level) {
    std::set<std::string> keep = { entry };
    for (auto &F : M) {
        StringRef n = F.getName();
        if (n.starts_with("symx_keep_") || n.starts_with("thread_")) keep.insert(n.str());
        F.removeFnAttr(Attribute::OptimizeNone);
    }
    internalizeModule(M, [&](const GlobalValue &g) { return keep.count(g.getName().str()) || g.getName().starts_with("llvm."); });
    PipelineTuningOptions pto;
    pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopInterleaving = false; pto.LoopUnrolling = false; pto.MergeFunctions = false;
    PassBuilder             PB(nullptr, pto);
    LoopAnalysisManager     LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    { ModulePassManager P; P.addPass(GlobalDCEPass()); P.run(M, MAM); }
    ModulePassManager MPM;
    if (std::string(level) == "O0") { if (auto e = PB.parsePassPipeline(MPM, "always-inline,function(sroa,early-cse,simplifycfg),globaldce")) { errs() << "pipeline\n"; exit(3); } }
    else MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
    MPM.run(M, MAM);
}
int main(int argc, char **argv) {
    std::vector<std::string> files;
    std::string              level = "O1";
    bool                     dump = false;
    std::string              instr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto        nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") gOpt.entry = nx();
        else if (a == "--out") gOpt.outDir = nx();
        else if (a == "--time") gOpt.maxTime = atof(nx().c_str());
        else if (a == "--steps") gOpt.maxSteps = strtoull(nx().c_str(), nullptr, 0);
        else if (a == "--jobs") gOpt.jobs = atoi(nx().c_str());
        else if (a == "--all") gOpt.stopFirst = false;
        else if (a == "--opt") level = nx();
        else if (a == "--pin") { auto p = nx(); auto e = p.find('='); gOpt.pins[p.substr(0, e)] = strtoull(p.c_str() + e + 1, nullptr, 0); }
        else if (a == "-v") gOpt.verbose = true;
        else if (a == "--rlimit") gRlimit = (unsigned) strtoul(nx().c_str(), nullptr, 0);
        else if (a == "--conc-heap") gOpt.concHeap = true;
        else if (a == "--no-merge") gOpt.merge = false;
        else if (a == "--dump") dump = true;
        else if (a == "--spin") gOpt.spin = atoi(nx().c_str());
        else if (a == "--max-events") gOpt.maxEvents = atoi(nx().c_str());
        else if (a == "--no-race") gOpt.race = false;
        else if (a == "--deadlock") gOpt.deadlock = true;
        else if (a == "--instrument") instr = nx();
        else files.push_back(a);
    }
    llvmOptions();
    LLVMContext             C;
    SMDiagnostic            err;
    std::unique_ptr<Module> M;
    for (auto &f : files) {
        auto m = parseIRFile(f, err, C);
        if (!m) { err.print("symx", errs()); return 3; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { errs() << "link error\n"; return 3; }
    }
    // overrides
    std::vector<Function *> ov;
    for (auto &F : *M) if (F.getName().starts_with("__ovr_")) ov.push_back(&F);
    for (auto *F : ov) {
        std::string n = F->getName().substr(6).str();
        if (auto *g = M->getFunction(n)) {
            g->replaceAllUsesWith(F);
        }
    }
    if (!M->getFunction(gOpt.entry)) { errs() << "no entry " << gOpt.entry << "\n"; return 3; }
    optimise(*M, gOpt.entry, level.c_str());
    if (!instr.empty()) return instrumentModule(*M, instr);
    if (dump) { M->print(outs(), nullptr); return 0; }
    Engine E;
    gE = &E;
    E.M  = M.get();
    E.DL = &M->getDataLayout();
    E.t0 = nowS();
    E.sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(E.sh, 0, sizeof(Shared));
    E.sh->active = 1;
    gDeadline = [] { return gE->sh->stop ? 0.0 : gOpt.maxTime - gE->elapsed(); };
    solverInit();
    State *s = E.initState();
    // static constructors, then the entry
    std::vector<std::pair<u64, Function *>> ctors;
    if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &op : ca->operands()) {
        auto *cs = cast<ConstantStruct>(op);
        if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f });
    }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    auto runTo = [&](Function *f) { // run a ctor to completion on the (single) state
        E.pushFrame(*s, E.compile(f), {});
        try { while (true) E.step(*s); } catch (Done &) { return true; } catch (Kill &k) { errs() << "static constructor " << f->getName() << " failed: " << k.why << "\n"; for (auto &u : E.unsupported) errs() << "  " << u.first << "\n"; return false; }
    };
    for (auto &c : ctors) if (!runTo(c.second)) return 4;
    E.pushFrame(*s, E.compile(M->getFunction(gOpt.entry)), {});
    E.explore(s);
    E.finish();
    fflush(stdout);
    _exit(0);
}
