// P32: BasicSetting -- one real-time and several other threads share a value: whole values only, the latest once published
#include "symx.h"
#include <array>
#include <cstdint>
#include <BasicSetting.hpp>
using namespace opencmw;
using enum AccessType;
// a value of two halves (a torn one shows), from a pool of its own: no general heap inside the threads
struct Val {
    int a = 0, b = 0;
    Val() = default;
    explicit Val(int x) : a(x), b(x) {}
    static Val      pool[8];
    static thread_local unsigned used; // every thread has its own part
    static void *operator new(size_t) { return &pool[used++]; }
    static void  operator delete(void *p) { static_cast<Val *>(p)->a = -99; } // whoever still uses it is seen
};
Val      Val::pool[8];
thread_local unsigned Val::used = 0;
using RtSetting = BasicSetting<Val, MutableOption::RealTimeMutable>;
// the real-time thread writes, another reads
HARNESS(h_set_rt_two_writes) {
    RtSetting s{ Val(0) };
    Val x;
    auto rt = [&] { { auto g = s.accessGuard<RealTime>(); g->a = 1; g->b = 1; } { auto g = s.accessGuard<RealTime>(); g->a++; g->b++; } };
    auto nr = [&] { auto g = s.accessGuard<NonRealTime>(); x.a = g->a; x.b = g->b; };
    THREAD(rt); THREAD(nr);
    symx_threads_run();
    CHECKM(x.a == x.b, "a reader sees whole values");
    CHECKM(x.a >= 0 && x.a <= 2, "a reader sees values published");
    { auto g = s.accessGuard<NonRealTime>(); CHECKM(g->a == 2 && g->b == 2, "the last value stays"); }
    if (x.a == 0) REACH("old"); else if (x.a == 1) REACH("in between"); else REACH("new");
}
HARNESS(h_set_rt_two_reads) {
    RtSetting s{ Val(0) };
    Val x, y;
    auto rt = [&] { auto g = s.accessGuard<RealTime>(); g->a = 1; g->b = 1; };
    auto nr = [&] { { auto g = s.accessGuard<NonRealTime>(); x.a = g->a; x.b = g->b; } { auto g = s.accessGuard<NonRealTime>(); y.a = g->a; y.b = g->b; } };
    THREAD(rt); THREAD(nr);
    symx_threads_run();
    CHECKM(x.a == x.b && y.a == y.b, "a reader sees whole values");
    CHECKM(x.a >= 0 && x.a <= y.a && y.a <= 1, "a reader never goes back");
    if (x.a == 0 && y.a == 1) REACH("old and new");
}
HARNESS(h_set_rt_replace) {
    RtSetting s{ Val(0) };
    Val x, own;
    auto rt = [&] { s.replace<RealTime>(7); auto g = s.accessGuard<RealTime>(); own.a = g->a; own.b = g->b; };
    auto nr = [&] { auto g = s.accessGuard<NonRealTime>(); x.a = g->a; x.b = g->b; };
    THREAD(rt); THREAD(nr);
    symx_threads_run();
    CHECKM(x.a == x.b && (x.a == 0 || x.a == 7), "a reader sees whole values");
    CHECKM(own.a == 7 && own.b == 7, "the real-time thread sees what it put");
    { auto g = s.accessGuard<NonRealTime>(); CHECKM(g.get().a == 7 && g.get().b == 7, "the last value stays"); }
    if (x.a == 7) REACH("new"); else REACH("old");
}
HARNESS(h_set_rt_two_readers) {
    RtSetting s{ Val(0) };
    Val x, y;
    auto rt = [&] { auto g = s.accessGuard<RealTime>(); g->a = 1; g->b = 1; };
    auto n1 = [&] { auto g = s.accessGuard<NonRealTime>(); x.a = g->a; x.b = g->b; };
    auto n2 = [&] { auto g = s.accessGuard<NonRealTime>(); y.a = g->a; y.b = g->b; };
    THREAD(rt); THREAD(n1); THREAD(n2);
    symx_threads_run();
    CHECKM(x.a == x.b && y.a == y.b, "readers see whole values");
    CHECKM((x.a == 0 || x.a == 1) && (y.a == 0 || y.a == 1), "readers see old or new");
    { auto g = s.accessGuard<NonRealTime>(); CHECKM(g->a == 1 && g->b == 1, "the last value stays"); }
    if (x.a == 1 && y.a == 0) REACH("one new"); 
}

using NrtSetting = BasicSetting<Val, MutableOption::NonRealTimeMutable>;
// other threads write, the real-time thread reads
HARNESS(h_set_nrt) {
    Val::used = 0;
    NrtSetting s{ Val(0) };
    Val x;
    auto rt = [&] { auto g = s.accessGuard<RealTime>(); x.a = g->a; x.b = g->b; };
    auto nr = [&] { Val::used = 4; auto g = s.accessGuard<NonRealTime>(); g->a = 1; g->b = 1; };
    THREAD(rt); THREAD(nr);
    symx_threads_run();
    CHECKM(x.a == x.b && (x.a == 0 || x.a == 1), "the real-time thread sees whole values");
    { auto g = s.accessGuard<RealTime>(); CHECKM(g->a == 1 && g->b == 1, "the last value stays"); }
    if (x.a == 1) REACH("new"); else REACH("old");
}
HARNESS(h_set_nrt_two_writers) {
    Val::used = 0;
    NrtSetting s{ Val(0) };
    auto n1 = [&] { Val::used = 4; auto g = s.accessGuard<NonRealTime>(); g->a++; g->b++; };
    auto n2 = [&] { Val::used = 6; auto g = s.accessGuard<NonRealTime>(); g->a += 2; g->b += 2; };
    THREAD(n1); THREAD(n2);
    symx_threads_run();
    { auto g = s.accessGuard<RealTime>(); CHECKM(g->a == 3 && g->b == 3, "no change is lost"); }
    REACH("done");
}
HARNESS(h_set_nrt_replace) {
    Val::used = 0;
    NrtSetting s{ Val(0) };
    Val x;
    auto rt = [&] { auto g = s.accessGuard<RealTime>(); x.a = g->a; x.b = g->b; };
    auto nr = [&] { Val::used = 4; s.replace<NonRealTime>(7); };
    THREAD(rt); THREAD(nr);
    symx_threads_run();
    CHECKM(x.a == x.b && (x.a == 0 || x.a == 7), "the real-time thread sees whole values");
    { auto g = s.accessGuard<NonRealTime>(); CHECKM(g.get().a == 7 && g.get().b == 7, "the last value stays"); }
    if (x.a == 7) REACH("new"); else REACH("old");
}

struct One {
    int a = 0;
    One() = default;
    explicit One(int x) : a(x) {}
    static One                   pool[8];
    static thread_local unsigned used;
    static void *operator new(size_t) { return &pool[used++]; }
    static void  operator delete(void *) {}
};
One                   One::pool[8];
thread_local unsigned One::used = 0;
HARNESS(h_set_nrt_no_loss) {
    One::used = 0;
    BasicSetting<One, MutableOption::NonRealTimeMutable> s{ One(0) };
    auto n1 = [&] { One::used = 4; auto g = s.accessGuard<NonRealTime>(); g->a += 1; };
    auto n2 = [&] { One::used = 6; auto g = s.accessGuard<NonRealTime>(); g->a += 2; };
    THREAD(n1); THREAD(n2);
    symx_threads_run();
    { auto g = s.accessGuard<RealTime>(); CHECKM(g->a == 3, "no change is lost"); }
    REACH("done");
}
// the real-time thread never waits: it gets and gives back access while another thread is in the middle of its own
HARNESS(h_set_rt_no_wait) {
    Val::used = 0;
    RtSetting s{ Val(0) };
    std::atomic<int> done{ 0 };
    Val x;
    auto rt = [&] { Val::used = 4; { auto g = s.accessGuard<RealTime>(); g->a = 1; g->b = 1; } s.replace<RealTime>(2); done.store(1); };
    auto nr = [&] { auto g = s.accessGuard<NonRealTime>(); while (done.load() == 0) {} x.a = g->a; x.b = g->b; };
    THREAD(rt); THREAD(nr);
    symx_threads_run();
    CHECKM(x.a == x.b && x.a >= 0 && x.a <= 2, "a reader sees whole values, even while new ones are published");
    REACH("done");
}
HARNESS(h_set_nrt_no_wait) {
    Val::used = 0;
    BasicSetting<Val, MutableOption::NonRealTimeMutable> s{ Val(0) };
    std::atomic<int> done{ 0 };
    Val x;
    auto rt = [&] { { auto g = s.accessGuard<RealTime>(); x.a = g->a; x.b = g->b; } done.store(1); };
    auto nr = [&] { Val::used = 4; auto g = s.accessGuard<NonRealTime>(); g->a = 1; g->b = 1; while (done.load() == 0) {} };
    THREAD(rt); THREAD(nr);
    symx_threads_run();
    CHECKM(x.a == 0 && x.b == 0, "a change is seen once it is complete");
    { auto g = s.accessGuard<RealTime>(); CHECKM(g->a == 1 && g->b == 1, "the last value stays"); }
    REACH("done");
}
