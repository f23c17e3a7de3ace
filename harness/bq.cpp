// BlockingQueue, wait strategies, barriers
#include "symx.h"
#include <cstdint>
#include <chrono>
#include <array>
#include <disruptor/BlockingQueue.hpp>
using namespace opencmw;
using namespace opencmw::disruptor;
// a fixed-capacity queue instead of std::deque (no allocation inside the threads)
struct Arr {
    std::array<int, 4> a{};
    unsigned h = 0, t = 0;
    void push_back(int v) { a[t & 3] = v; t++; }
    int &front() { return a[h & 3]; }
    void pop_front() { h++; }
    bool empty() const { return h == t; }
};
HARNESS(h_bq_pop) {
    BlockingQueue<int, Arr> q;
    int a = 0, b = 0;
    auto p = [&] { q.push(1); q.push(2); };
    auto c = [&] { a = q.pop(); b = q.pop(); };
    THREAD(p); THREAD(c);
    symx_threads_run();
    CHECKM(a == 1 && b == 2, "values arrive once, in order");
    CHECKM(q.empty(), "nothing is left");
    REACH("done");
}
HARNESS(h_bq_two_consumers) {
    BlockingQueue<int, Arr> q;
    int a = 0, b = 0;
    auto p = [&] { q.push(1); q.push(2); };
    auto c = [&] { a = q.pop(); };
    auto d = [&] { b = q.pop(); };
    THREAD(p); THREAD(c); THREAD(d);
    symx_threads_run();
    CHECKM((a == 1 && b == 2) || (a == 2 && b == 1), "each value goes to one consumer");
    CHECKM(q.empty(), "nothing is left");
    if (a == 2) REACH("second first");
}
HARNESS(h_bq_timed) {
    BlockingQueue<int, Arr> q;
    int a = 0; bool got = false;
    auto p = [&] { q.push(7); };
    auto c = [&] { got = q.timedWaitAndPop(a, std::chrono::milliseconds(5)); };
    THREAD(p); THREAD(c);
    symx_threads_run();
    CHECKM(got ? a == 7 && q.empty() : a == 0 && !q.empty(), "a timed wait takes a value or leaves it");
    if (got) REACH("got"); else REACH("timed out");
}
