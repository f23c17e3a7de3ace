// Scheduled native replay of an interleaving: the harness module, instrumented with vp_sched() before every memory access,
// runs on real threads; the accesses named in the counterexample are admitted in the counterexample's order.
// A vector-clock detector reports data races (exit 42).  exit 46: the schedule cannot be followed.
#define SCHED 1
#include "replay.cpp"
#include <atomic>
#include <condition_variable>
#include <map>
#include <mutex>
#include <set>
#include <thread>
namespace {
struct Ev { int t, inst, occ, sub; auto operator<=>(const Ev &) const = default; };
char            mode = 'C';
int             violT = -1;
std::vector<Ev> sch;
std::set<Ev>    inSch;
std::vector<int> left; // scheduled accesses still to come, per thread
size_t          pos = 0;
int             holder = -1; // thread performing the access at pos
std::mutex      mx;
std::condition_variable cv;
int             running = 0, blocked = 0;
struct Th { void (*f)(void *); void *a; };
std::vector<Th> ths;
thread_local int tid = -1;
thread_local std::map<int, int> occ;
// race detector
using VC = std::vector<unsigned>;
std::vector<VC> vc;
struct Loc { int wt = -1; unsigned wc = 0; bool wa = false, freed = false; std::map<int, std::pair<unsigned, bool>> rd; };
std::map<uintptr_t, Loc> locs;
std::map<uintptr_t, VC>  rel; // release sequence clocks
void join(VC &a, const VC &b) { for (size_t i = 0; i < a.size(); i++) a[i] = std::max(a[i], b[i]); }
[[noreturn]] void die(int c, const char *m, void *p = nullptr) { fprintf(stderr, "replay: %s", m); if (p) fprintf(stderr, " at %p", p); fprintf(stderr, " (thread %d)\n", tid); fflush(stderr); _exit(c); }
void access(void *p, size_t n, int kind, int order) { // kind 0 R, 1 W, 2 RMW, 4 free
    if (tid < 0 || tid >= (int) vc.size()) return;
    bool at = order & 1, isW = kind != 0, isR = kind == 0 || kind == 2;
    VC &c = vc[(size_t) tid];
    for (size_t i = 0; i < n; i++) {
        Loc &l = locs[(uintptr_t) p + i];
        if (l.freed && (mode == 'U' || mode == 'R')) die(42, kind == 4 ? "DOUBLE FREE" : "USE AFTER FREE", (char *) p + i);
        if (mode == 'R') {
            if (l.wt >= 0 && l.wt != tid && l.wc > c[(size_t) l.wt] && !(at && l.wa)) die(42, "DATA RACE (with an earlier write)", (char *) p + i);
            if (isW) for (auto &[t, e] : l.rd) if (t != tid && e.first > c[(size_t) t] && !(at && e.second)) die(42, "DATA RACE (with an earlier read)", (char *) p + i);
        }
    }
    uintptr_t k = (uintptr_t) p;
    if (at && isR && (order & 2)) { auto it = rel.find(k); if (it != rel.end()) join(c, it->second); }
    if (at && isW && kind != 4) {
        if (kind == 1) { if (order & 4) rel[k] = c; else rel.erase(k); }
        else if (order & 4) { auto &r = rel[k]; if (r.empty()) r = c; else join(r, c); }
    } else if (isW) for (size_t i = 0; i < n; i++) rel.erase(k + i);
    for (size_t i = 0; i < n; i++) {
        Loc &l = locs[k + i];
        if (isR) l.rd[tid] = { c[(size_t) tid], at };
        if (isW) { l.wt = tid; l.wc = c[(size_t) tid]; l.wa = at; }
        if (kind == 4) l.freed = true;
    }
    c[(size_t) tid]++;
}
void passOn(std::unique_lock<std::mutex> &) { if (holder == tid) { holder = -1; pos++; left[(size_t) tid]--; cv.notify_all(); } }
// waits for this access's turn; afterwards the thread is the holder until its next access
void turn(int inst, int o, int sub, std::unique_lock<std::mutex> &lk) {
    passOn(lk);
    Ev e{ tid, inst, o, sub };
    if (inSch.count(e)) {
        cv.wait(lk, [&] { return pos < sch.size() && sch[pos] == e && holder < 0; });
        holder = tid;
    } else if (left[(size_t) tid] == 0 && mode != 'C' && mode != 'D' && tid != violT && pos < sch.size()) {
        cv.wait(lk, [&] { return pos >= sch.size(); }); // finished its part of the schedule
    }
    if (left[(size_t) tid] == 0 && holder != tid && mode == 'V' && tid != violT && violT < (int) ths.size()) cv.wait(lk, [] { return false; });
}
} // namespace
extern "C" {
void vp_sched(int inst, int sub, void *p, size_t n, int kind, int order) {
    if (tid < 0) return;
    std::unique_lock lk(mx);
    int o = ++occ[inst];
    turn(inst, o, sub, lk);
    if (kind == 4) { n = 0; if (mode == 'U' || mode == 'R') n = p ? 1 : 0; access(p, n, 4, 0); return; }
    if (kind != 3) access(p, n, kind, order);
}
void vp_cas(void *p, size_t n, int ok, int so, int fo) {
    if (tid < 0) return;
    std::unique_lock lk(mx);
    if (ok) access(p, n, 2, so); else access(p, n, 0, fo);
}
void vp_memcpy(int inst, void *d, void *s, size_t n) {
    if (tid < 0 || !n) { memmove(d, s, n); return; }
    int o = ++occ[inst];
    std::vector<std::pair<size_t, size_t>> ch;
    for (size_t i = 0; i < n; i += 8) ch.push_back({ i, std::min<size_t>(8, n - i) });
    // same order as the encoding (backwards for overlapping copies within an object)
    if (d > s && (char *) d < (char *) s + n) std::reverse(ch.begin(), ch.end());
    int k = 0;
    for (auto [i, m] : ch) {
        char t[8];
        { std::unique_lock lk(mx); turn(inst, o, 2 * k + 1, lk); access((char *) s + i, m, 0, 0); }
        memcpy(t, (char *) s + i, m);
        { std::unique_lock lk(mx); turn(inst, o, 2 * k + 2, lk); access((char *) d + i, m, 1, 0); }
        memcpy((char *) d + i, t, m);
        k++;
    }
}
void vp_memset(int inst, void *d, int v, size_t n) {
    if (tid < 0 || !n) { memset(d, v, n); return; }
    int o = ++occ[inst], k = 0;
    for (size_t i = 0; i < n; i += 8, k++) {
        size_t m = std::min<size_t>(8, n - i);
        { std::unique_lock lk(mx); turn(inst, o, 2 * k + 2, lk); access((char *) d + i, m, 1, 0); }
        memset((char *) d + i, v, m);
    }
}
int symx_uncaught() { return std::uncaught_exceptions(); }
void symx_thread(void (*f)(void *), void *a) { ths.push_back({ f, a }); }
void symx_block() {
    std::unique_lock lk(mx);
    passOn(lk);
    blocked++;
    cv.notify_all();
    fprintf(stderr, "replay: thread %d is blocked\n", tid);
    if (mode == 'D') cv.wait(lk, [] { return blocked == running; });
    if (mode == 'D') die(42, "DEADLOCK: every remaining thread is blocked");
    cv.wait(lk, [] { return false; });
}
void symx_threads_run() {
    std::istringstream is(schedLine);
    std::string        m, w;
    is >> m;
    if (!m.empty()) mode = m[0];
    if (m.size() > 1) violT = atoi(m.c_str() + 1);
    left.assign(ths.size() + 1, 0);
    while (is >> w) { Ev e{}; if (sscanf(w.c_str(), "%d:%d:%d:%d", &e.t, &e.inst, &e.occ, &e.sub) == 4 && e.t < (int) ths.size()) { sch.push_back(e); inSch.insert(e); left[(size_t) e.t]++; } }
    vc.assign(ths.size(), VC(ths.size(), 0));
    for (size_t i = 0; i < ths.size(); i++) vc[i][i] = 1;
    running = (int) ths.size();
    std::vector<std::thread> v;
    for (size_t i = 0; i < ths.size(); i++) v.emplace_back([i] {
        tid = (int) i;
        ths[i].f(ths[i].a);
        std::unique_lock lk(mx);
        passOn(lk);
        running--;
        tid = -1;
        cv.notify_all();
    });
    for (auto &t : v) t.join();
    fprintf(stderr, "replay: %zu of %zu scheduled accesses followed\n", pos, sch.size());
    if (mode == 'C' && pos < sch.size()) die(46, "schedule not followed to the end");
}
}
