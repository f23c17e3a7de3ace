R = "src/core/include/ReaderWriterLock.hpp"
S = "src/core/include/SpinWait.hpp"
TA = "src/core/include/ThreadAffinity.hpp"
U = "src/core/include/URI.hpp"
RL = '''            do {
                if (expected < 0L) {
                    expected = 0L;
                }
            } while (!std::atomic_compare_exchange_strong(&_activeReaderCount, &expected, expected + 1L));'''
BUGS = {
"rw-retry-negative": ("P09", dict(edits=[[R, RL, '''            if (expected < 0L) {
                expected = 0L;
            }
            while (!std::atomic_compare_exchange_strong(&_activeReaderCount, &expected, expected + 1L)) {
            }''']],
  needs="a reader whose first attempt fails because a writer holds the lock", what="the retry of a reader accepts the negative count of a writer, so both hold the lock",
  demo='#include <ReaderWriterLock.hpp>\n#include <thread>\n#include <chrono>\nusing namespace opencmw; using enum ReaderWriterLockType;\nint main(){ ReaderWriterLock l; std::atomic<int> in{0}; l.lock<WRITE>(); std::thread t([&]{ l.lock<READ>(); in=1; l.unlock<READ>(); }); std::this_thread::sleep_for(std::chrono::milliseconds(500)); int bad=in; l.unlock<WRITE>(); t.detach(); std::_Exit(bad); }\n')),
"rw-unlock-relaxed": ("P09", dict(edits=[[R, "            return std::atomic_fetch_add(&_activeReaderCount, 1L) + 1L;", "            return _activeReaderCount.fetch_add(1L, std::memory_order_relaxed) + 1L;"]], flags="-fsanitize=thread",
  needs="a reader acquiring the lock after a writer released it (on weakly ordered memory, or under a race detector)", what="the release of a writer no longer publishes what it wrote",
  demo='#include <ReaderWriterLock.hpp>\n#include <thread>\nusing namespace opencmw; using enum ReaderWriterLockType;\nint main(){ ReaderWriterLock l; int x=0, y=0; std::thread w([&]{ for(int i=0;i<20000;i++){ auto g=l.scopedGuard<WRITE>(); x++; } }); std::thread r([&]{ for(int i=0;i<20000;i++){ auto g=l.scopedGuard<READ>(); y+=x; } }); w.join(); r.join(); return 0; }\n')),
"am-test-then-set": ("P10", dict(edits=[[S, "        while (_lock.test_and_set(std::memory_order_acquire)) {", "        while (_lock.test(std::memory_order_relaxed) || (_lock.test(std::memory_order_acquire) || (_lock.test_and_set(std::memory_order_acquire), false))) {"]],
  needs="two threads that both see the flag clear before either sets it", what="the result of test_and_set is ignored after a separate test, so two threads can hold the mutex",
  demo='#include <SpinWait.hpp>\n#include <mutex>\n#include <chrono>\nusing namespace opencmw;\nint main(){ AtomicMutex<> m; volatile long n=0; auto f=[&]{ for(int i=0;i<20000000;i++){ std::lock_guard g(m); n=n+1; } }; std::thread a(f), b(f); a.join(); b.join(); return n==40000000 ? 0 : 1; }\n')),
"uri-query-key-semicolon": ("P06", dict(edits=[[U, 'auto keyEnd = _query.find_first_of("=;&\\0", readPos);', 'auto keyEnd = _query.find_first_of(readPos == 0 ? "=;&\\0" : "=&\\0", readPos);']],
  needs="a parameter without value, not the first one, followed by ';'", what="';' no longer separates a value-less parameter from the next one unless it is the first",
  demo='#include <URI.hpp>\nusing namespace opencmw;\nint main(){ URI<STRICT> u("s://h/p?x&a;b=1"); auto &m=u.queryParamMap(); return m.size()==3 && m.contains("a") && m.contains("b") ? 0 : 1; }\n')),
"spin-timeout-one": ("P11", dict(edits=[[S, "        if (millisecondsTimeout != 0 && millisecondsTimeout != -1) {", "        if (millisecondsTimeout > 1) {"]],
  needs="a timeout of exactly 1 ms", what="with a timeout of 1 ms waiting ends right after the spinning phase, before the timeout",
  demo='#include <SpinWait.hpp>\nusing namespace opencmw;\nint main(){ SpinWait<> w; for(int i=0;i<200;i++){ auto t=w.getTickCount(); bool r=w.spinUntil([]() noexcept { return false; }, 1); if(!r && w.getTickCount()-t<1) return 1; } return 0; }\n')),
"sched-max-priority": ("P12", dict(edits=[[TA, """    if (priority < minPriority || priority > maxPriority) {
        throw std::system_error(THREAD_VALUE_RANGE, threadErrorCategory(), std::format("setThreadSchedulingParameter(""", """    if (priority < minPriority || (priority >= maxPriority && minPriority < maxPriority)) {
        throw std::system_error(THREAD_VALUE_RANGE, threadErrorCategory(), std::format("setThreadSchedulingParameter("""]],
  needs="the highest priority of a real-time policy", what="the maximum priority of FIFO and ROUND_ROBIN is refused for threads",
  demo='#include <ThreadAffinity.hpp>\nusing namespace opencmw;\nint main(){ try { thread::setThreadSchedulingParameter(thread::FIFO, sched_get_priority_max(SCHED_FIFO)); } catch (const std::system_error &e) { return e.code().value()==thread::THREAD_VALUE_RANGE ? 1 : 0; } return 0; }\n')),
}
