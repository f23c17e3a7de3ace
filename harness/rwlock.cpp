// ReaderWriterLock, AtomicMutex: every interleaving of the listed threads (bounded retries), every sequence of operations.
#include "symx.h"
#include <cstdint>
#include <mutex>
#include <ReaderWriterLock.hpp>
#include <SpinWait.hpp>
using namespace opencmw;
using enum ReaderWriterLockType;

// one writer, one reader: the reader never sees the writer's intermediate state; no data race; all released at the end
HARNESS(h_rw_excl) {
    ReaderWriterLock l;
    int  x = 0, y = 0, a = -1, b = -1;
    auto w = [&] {
        std::int64_t v = l.lock<WRITE>();
        CHECKM(v == -1, "lock<WRITE>() returns the number of writers, negated");
        x = 1; y = 1;
        CHECKM(l.unlock<WRITE>() == 0, "unlock<WRITE>() of the only writer reports a free lock");
    };
    auto r = [&] {
        std::int64_t v = l.lock<READ>();
        CHECKM(v == 1, "lock<READ>() returns the number of readers");
        a = x; b = y;
        l.unlock<READ>();
    };
    THREAD(w); THREAD(r);
    symx_threads_run();
    CHECKM(a == b, "a reader holding the lock sees a stable value");
    CHECKM(a == 0 || a == 1, "a reader holding the lock never sees a half-done write");
    CHECKM(x == 1 && y == 1, "the write is not lost");
    CHECKM(l.value() == 0, "the lock is free after every holder released it");
    if (a == 0) REACH("reader first");
    if (a == 1) REACH("writer first");
}
// the same through scoped guards
HARNESS(h_rw_scoped) {
    ReaderWriterLock l;
    int  x = 0, y = 0, a = -1, b = -1;
    auto w = [&] { auto g = l.scopedGuard<WRITE>(); x = 1; y = 1; };
    auto r = [&] { auto g = l.scopedGuard<READ>(); a = x; b = y; };
    THREAD(w); THREAD(r);
    symx_threads_run();
    CHECKM(a == b, "a reader holding a guard sees a stable value");
    CHECKM(a == 0 || a == 1, "a reader holding a guard never sees a half-done write");
    CHECKM(l.value() == 0, "guards release the lock");
    if (a == 0) REACH("reader first");
    if (a == 1) REACH("writer first");
}
// tryLock: what it grants is exclusive as well, what it refuses is not held
HARNESS(h_rw_try) {
    ReaderWriterLock l;
    int  x = 0, y = 0, a = -1, b = -1;
    bool wgot = false, rgot = false;
    auto w = [&] { if (l.tryLock<WRITE>()) { wgot = true; x = 1; y = 1; l.unlock<WRITE>(); } };
    auto r = [&] { if (l.tryLock<READ>()) { rgot = true; a = x; b = y; l.unlock<READ>(); } };
    THREAD(w); THREAD(r);
    symx_threads_run();
    if (rgot) {
        CHECKM(a == b, "a reader granted by tryLock sees a stable value");
        CHECKM(a == 0 || a == 1, "a reader granted by tryLock never sees a half-done write");
        if (a == 1) REACH("after writer");
    }
    CHECKM(wgot || rgot, "of two first attempts on a free lock at least one is granted");
    CHECKM(l.value() == 0, "a refused attempt leaves nothing held");
    if (!wgot) REACH("writer refused");
    if (!rgot) REACH("reader refused");
}
// mixed: a blocking writer against a trying reader and vice versa
HARNESS(h_rw_try_block) {
    ReaderWriterLock l;
    int  x = 0, y = 0, a = -1, b = -1;
    bool rgot = false;
    auto w = [&] { l.lock<WRITE>(); x = 1; y = 1; l.unlock<WRITE>(); };
    auto r = [&] { if (l.tryLock<READ>()) { rgot = true; a = x; b = y; l.unlock<READ>(); } };
    THREAD(w); THREAD(r);
    symx_threads_run();
    if (rgot) CHECKM(a == b && (a == 0 || a == 1), "a reader granted by tryLock never overlaps a writer");
    CHECKM(l.value() == 0, "nothing is left held");
    if (!rgot) REACH("refused");
    if (rgot) REACH("granted");
}
HARNESS(h_rw_try_block2) {
    ReaderWriterLock l;
    int  x = 0, y = 0, a = -1, b = -1;
    bool wgot = false;
    auto w = [&] { if (l.tryLock<WRITE>()) { wgot = true; x = 1; y = 1; l.unlock<WRITE>(); } };
    auto r = [&] { l.lock<READ>(); a = x; b = y; l.unlock<READ>(); };
    THREAD(w); THREAD(r);
    symx_threads_run();
    CHECKM(a == b && (a == 0 || a == 1), "a writer granted by tryLock never overlaps a reader");
    CHECKM(l.value() == 0, "nothing is left held");
    CHECKM(x == (wgot ? 1 : 0), "a refused writer writes nothing");
    if (!wgot) REACH("refused");
    if (wgot) REACH("granted");
}
// two readers, one writer
HARNESS(h_rw_three) {
    ReaderWriterLock l;
    int  x = 0, y = 0, a = -1, b = -1, c = -1, d = -1;
    std::int64_t n1 = 0, n2 = 0;
    auto w  = [&] { l.lock<WRITE>(); x = 1; y = 1; l.unlock<WRITE>(); };
    auto r1 = [&] { n1 = l.lock<READ>(); a = x; b = y; l.unlock<READ>(); };
    auto r2 = [&] { n2 = l.lock<READ>(); c = x; d = y; l.unlock<READ>(); };
    THREAD(w); THREAD(r1); THREAD(r2);
    symx_threads_run();
    CHECKM(a == b && (a == 0 || a == 1), "first reader is never overlapped by the writer");
    CHECKM(c == d && (c == 0 || c == 1), "second reader is never overlapped by the writer");
    CHECKM(n1 >= 1 && n1 <= 2 && n2 >= 1 && n2 <= 2 && !(n1 == 2 && n2 == 2), "lock<READ>() returns the number of readers");
    CHECKM(l.value() == 0, "the lock is free after every holder released it");
    if (n1 == 2 || n2 == 2) REACH("readers share");
}
// writers count each other; a reader after the last one
HARNESS(h_rw_writers) {
    ReaderWriterLock l;
    std::int64_t n1 = 0, n2 = 0, u1 = 7, u2 = 7;
    auto w1 = [&] { n1 = l.lock<WRITE>(); u1 = l.unlock<WRITE>(); };
    auto w2 = [&] { n2 = l.lock<WRITE>(); u2 = l.unlock<WRITE>(); };
    THREAD(w1); THREAD(w2);
    symx_threads_run();
    CHECKM(n1 <= -1 && n1 >= -2 && n2 <= -1 && n2 >= -2 && !(n1 == -2 && n2 == -2), "lock<WRITE>() returns the number of writers, negated");
    CHECKM((u1 == 0) || (u2 == 0), "the last release reports a free lock");
    CHECKM(u1 <= 0 && u1 >= -1 && u2 <= 0 && u2 >= -1, "unlock<WRITE>() returns the number of remaining writers, negated");
    CHECKM(l.value() == 0, "the lock is free after every holder released it");
}
// several holders already inside: the other side waits for the last of them
HARNESS(h_rw_last_reader) {
    ReaderWriterLock l;
    int  x = 0, a = -1, b = -1;
    l.lock<READ>(); l.lock<READ>();
    auto r1 = [&] { a = x; l.unlock<READ>(); };
    auto r2 = [&] { b = x; l.unlock<READ>(); };
    auto w  = [&] { l.lock<WRITE>(); x = 1; l.unlock<WRITE>(); };
    THREAD(r1); THREAD(r2); THREAD(w);
    symx_threads_run();
    CHECKM(a == 0 && b == 0, "a writer waits for every reader that holds the lock");
    CHECKM(l.value() == 0 && x == 1, "the lock is free after every holder released it");
    REACH("done");
}
HARNESS(h_rw_last_writer) {
    ReaderWriterLock l;
    int  x = 0, y = 0, a = -1, b = -1;
    bool got = false;
    bool t = symx_branch(sym<bool>("try"));
    l.lock<WRITE>(); l.lock<WRITE>();
    auto w1 = [&] { x = 1; l.unlock<WRITE>(); };
    auto w2 = [&] { y = 1; l.unlock<WRITE>(); };
    auto r  = [&] { if (t) { if (!l.tryLock<READ>()) return; } else l.lock<READ>(); got = true; a = x; b = y; l.unlock<READ>(); };
    THREAD(w1); THREAD(w2); THREAD(r);
    symx_threads_run();
    CHECKM(!got || (a == 1 && b == 1), "a reader waits for every writer that holds the lock");
    CHECKM(t || got, "a blocking reader is granted the lock");
    CHECKM(l.value() == 0, "the lock is free after every holder released it");
    if (got) REACH("granted");
    if (!got) REACH("refused");
}
// every sequence of operations of one thread against the counting specification
HARNESS(h_rw_seq) {
    ReaderWriterLock l;
    std::int64_t held = 0; // > 0 readers, < 0 writers
#ifdef THOROUGH
    constexpr int N = 7;
#else
    constexpr int N = 5;
#endif
    for (int i = 0; i < N; i++) {
        switch (symRange("op", 0, 5)) {
        case 0: { bool ok = l.tryLock<READ>(); CHECKM(ok == (held >= 0), "tryLock<READ>() is granted exactly if no writer holds the lock"); if (ok) held++; if (!ok) REACH("read refused"); break; }
        case 1: { bool ok = l.tryLock<WRITE>(); CHECKM(ok == (held <= 0), "tryLock<WRITE>() is granted exactly if no reader holds the lock"); if (ok) held--; if (!ok) REACH("write refused"); break; }
        case 2: ASSUME(held >= 0); CHECKM(l.lock<READ>() == ++held, "lock<READ>() returns the number of readers"); break;
        case 3: ASSUME(held <= 0); CHECKM(l.lock<WRITE>() == --held, "lock<WRITE>() returns the number of writers, negated"); break;
        case 4: ASSUME(held > 0); CHECKM(l.unlock<READ>() == --held, "unlock<READ>() returns the number of remaining readers"); break;
        case 5: ASSUME(held < 0); CHECKM(l.unlock<WRITE>() == ++held, "unlock<WRITE>() returns the number of remaining writers, negated"); break;
        }
        CHECKM(l.value() == held, "value() is the number of readers, or of writers negated");
    }
}
HARNESS(h_rw_guard_throw) {
    ReaderWriterLock l;
    bool w = symx_branch(sym<bool>("write"));
    try {
        if (w) { auto g = l.scopedGuard<WRITE>(); CHECK(l.value() == -1); throw 1; }
        auto g = l.scopedGuard<READ>();
        CHECK(l.value() == 1);
        throw 1;
    } catch (int) {}
    CHECKM(l.value() == 0, "a guard releases the lock when its scope is left by an exception");
    REACH("done");
}
// ------------------------------------------------------------------ AtomicMutex
template<class M>
static void mutexTwo() {
    M    m;
    int  n = 0, in = 0;
    bool overlap = false;
    auto f = [&] { m.lock(); if (in) overlap = true; in = 1; n = n + 1; in = 0; m.unlock(); };
    auto g = [&] { m.lock(); if (in) overlap = true; in = 1; n = n + 1; in = 0; m.unlock(); };
    THREAD(f); THREAD(g);
    symx_threads_run();
    CHECKM(!overlap, "never two holders at once");
    CHECKM(n == 2, "no update is lost");
    REACH("done");
}
HARNESS(h_am_two) { mutexTwo<AtomicMutex<>>(); }
HARNESS(h_am_two_spin) { mutexTwo<AtomicMutex<SpinWait<>>>(); }
HARNESS(h_am_guard) {
    AtomicMutex<> m;
    int  n = 0;
    auto f = [&] { std::lock_guard g(m); n = n + 1; };
    auto g = [&] { std::scoped_lock g(m); n = n + 1; };
    THREAD(f); THREAD(g);
    symx_threads_run();
    CHECKM(n == 2, "no update is lost under the standard guards");
    REACH("done");
}
HARNESS(h_am_twice) {
    AtomicMutex<> m;
    int  n = 0;
    auto f = [&] { m.lock(); n = n + 1; m.unlock(); m.lock(); n = n + 1; m.unlock(); };
    auto g = [&] { m.lock(); n = n + 1; m.unlock(); };
    THREAD(f); THREAD(g);
    symx_threads_run();
    CHECKM(n == 3, "no update is lost when a thread takes the lock again");
    REACH("done");
}
HARNESS(h_am_three) {
    AtomicMutex<> m;
    int  n = 0;
    auto f = [&] { m.lock(); n = n + 1; m.unlock(); };
    auto g = [&] { m.lock(); n = n + 1; m.unlock(); };
    auto h = [&] { m.lock(); n = n + 1; m.unlock(); };
    THREAD(f); THREAD(g); THREAD(h);
    symx_threads_run();
    CHECKM(n == 3, "no update is lost");
    REACH("done");
}
