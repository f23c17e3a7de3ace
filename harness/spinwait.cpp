// SpinWait: schedule of spins, yields and sleeps; spinUntil under every condition script, clock and timeout.
#include "symx.h"
#include <chrono>
#include <cstring>
#include <stdexcept>
#include <time.h>
#include <limits>
#include <SpinWait.hpp>
using namespace opencmw;

static int      s_yields = 0, s_sleeps = 0;
static int64_t  s_slept = 0;
static uint64_t s_ms = 0; // the clock
extern "C" int sched_yield() noexcept { s_yields++; return 0; }
extern "C" int nanosleep(const struct timespec *t, struct timespec *) {
    s_sleeps++;
    s_slept += t->tv_sec * 1000000000LL + t->tv_nsec;
    return 0;
}
extern "C" uint64_t symx_clock_ns() { return s_ms * 1000000ull; }
#ifdef NATIVE_REPLAY
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration((int64_t) symx_clock_ns())); }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration((int64_t) symx_clock_ns())); }
#endif

template<int32_t T, int32_t S0, int32_t S1>
static void spinOnce(int32_t c) {
    SpinWait<T, S0, S1> w;
    static_assert(sizeof(w) == sizeof(int32_t));
    std::memcpy((void *) &w, &c, sizeof(c)); // the state after c spins
    CHECKM(w.count() == c, "count() is the number of spins");
    bool y = w.nextSpinWillYield();
    CHECKM(y == (c > T), "the next spin yields exactly after more than YIELD_THRESHOLD spins");
    s_yields = s_sleeps = 0; s_slept = 0;
    w.spinOnce();
    if (c <= T) {
        CHECKM(s_yields == 0 && s_sleeps == 0, "the first spins neither yield nor sleep");
    } else {
        int  num = c - 10;
        bool s1 = num % S1 == S1 - 1, s0 = !s1 && num % S0 == S0 - 1;
        if (symx_branch(s1)) { CHECKM(s_slept == 1000000 && s_yields == 0, "every SLEEP_1_EVERY_HOW_MANY_TIMES-th spin sleeps 1 ms"); REACH("sleep1"); }
        else if (symx_branch(s0)) { CHECKM(s_slept == 0, "a spin sleeping 0 ms does not sleep longer"); REACH("sleep0"); }
        else { CHECKM(s_yields == 1 && s_slept == 0, "every other spin yields once and does not sleep"); REACH("yield"); }
    }
    CHECKM(w.count() == (c == std::numeric_limits<int32_t>::max() ? T : c + 1), "each spin is counted, the counter never overflows");
    w.reset();
    CHECKM(w.count() == 0 && !w.nextSpinWillYield(), "reset() starts again");
}
HARNESS(h_spin_early) { spinOnce<10, 5, 20>((int32_t) symRange("count", 0, 13)); REACH("done"); }
HARNESS(h_spin_late) {
    int32_t c = sym<int32_t>("count");
    ASSUME(c > 10);
    spinOnce<10, 5, 20>(c);
}
HARNESS(h_spin_other) {
    int32_t c = sym<int32_t>("count");
    ASSUME(c > 10);
    spinOnce<10, 3, 7>(c);
}
#ifndef MAXEV
#define MAXEV 15
#endif
HARNESS(h_spin_until) {
    int64_t  timeout = sym<int64_t>("timeout");
    unsigned k = (unsigned) symRange("true_at", 0, MAXEV); // evaluation at which the condition holds
    bool     longStep = symx_branch(sym<bool>("coarse_clock"));
    uint64_t start = s_ms = 1000, before[MAXEV + 2] = {};
    unsigned n = 0;
    auto cond = [&]() noexcept {
        before[n] = s_ms;
        s_ms += longStep ? symLazy("dt", 0, 40, 16) : (n >= 10 ? 1 : 0); // time passes while the condition is evaluated
        return n++ == k;
    };
    SpinWait<> w;
    bool       r = false, thrown = false;
    try { r = w.spinUntil(cond, timeout); } catch (const std::out_of_range &) { thrown = true; }
    CHECKM(thrown == (timeout < -1), "exactly timeouts below -1 are refused");
    if (thrown) { CHECK(n == 0); REACH("refused"); return; }
    CHECKM(r == (n == k + 1), "true is returned exactly if the condition held at its last evaluation");
    CHECKM(n >= 1, "the condition is evaluated at least once");
    if (symx_branch(timeout == 0)) { CHECKM(n == 1, "a timeout of 0 evaluates the condition once"); REACH("zero"); }
    else if (symx_branch(timeout == -1)) { CHECKM(r, "a timeout of -1 waits until the condition holds"); REACH("forever"); }
    else {
        if (!r) { CHECKM((int64_t) (s_ms - start) >= timeout, "giving up happens only after the timeout has passed"); REACH("timed out"); }
        for (unsigned i = 12; i < n; i++) CHECKM((int64_t) (before[i] - start) < timeout, "once the timeout has passed and the spinning phase is over it gives up");
        if (r && k > 11) REACH("late");
    }
}
HARNESS(h_spin_default) { // no timeout argument: waits for ever
    unsigned   k = (unsigned) symRange("true_at", 0, MAXEV), n = 0;
    s_ms = 1000;
    auto       cond = [&]() noexcept { s_ms += symLazy("dt", 0, 60000, 16); return n++ == k; };
    SpinWait<> w;
    CHECKM(w.spinUntil(cond), "without a timeout, waiting ends only when the condition holds");
    CHECK(n == k + 1);
    REACH("done");
}
HARNESS(h_spin_thread) {
    std::atomic<int> flag{ 0 };
    int  data = 0, got = -1;
    bool r = false;
    auto p = [&] { data = 1; flag.store(1, std::memory_order_release); };
    auto c = [&] { SpinWait<> w; r = w.spinUntil([&]() noexcept { return flag.load(std::memory_order_acquire) == 1; }); if (r) got = data; };
    THREAD(p); THREAD(c);
    symx_threads_run();
    CHECKM(r && got == 1, "waiting for another thread ends when it signals");
    REACH("done");
}
