// wait strategies and the sequence barrier under every interleaving
#include "symx.h"
#include <array>
#include <cassert>
#include <cstdint>
#include <memory>
#include <vector>
#include <disruptor/RingBuffer.hpp>
#include <disruptor/ProcessingSequenceBarrier.hpp>
using namespace opencmw;
using namespace opencmw::disruptor;

// a consumer waiting for an event that is being published gets it, complete
template<class W, ProducerType P>
static void publishing() {
    auto ring = newRingBuffer<int, 2, W, P>();
    auto bar  = newBarrier(ring, {});
    std::int64_t s = ring->next(), got = -7;
    int v = 0;
    auto prod = [&] { (*ring)[s] = 42; ring->publish(s); };
    auto cons = [&] { got = bar->waitFor(0); if (got >= 0) v = (*ring)[0]; };
    THREAD(prod); THREAD(cons);
    symx_threads_run();
    if (P == ProducerType::Single) CHECKM(got == 0, "waitFor() returns the published sequence");
    else CHECKM(got == 0 || got == -1, "waitFor() returns at most the published sequence");
    if (got == 0) { CHECKM(v == 42, "the event is complete when the wait ends"); REACH("got"); }
}
HARNESS(h_wait_busy) { publishing<BusySpinWaitStrategy, ProducerType::Single>(); }
HARNESS(h_wait_blocking) { publishing<BlockingWaitStrategy, ProducerType::Single>(); }
HARNESS(h_wait_blocking_multi) { publishing<BlockingWaitStrategy, ProducerType::Multi>(); }
HARNESS(h_wait_spin) { publishing<SpinWaitWaitStrategy, ProducerType::Single>(); }
HARNESS(h_wait_yield) { publishing<YieldingWaitStrategy, ProducerType::Single>(); }
HARNESS(h_wait_sleep) { publishing<SleepingWaitStrategy, ProducerType::Single>(); }

// an alert ends a wait for an event that never comes
template<class W>
static void alerted() {
    auto ring = newRingBuffer<int, 2, W, ProducerType::Single>();
    auto bar  = newBarrier(ring, {});
    bool threw = false, returned = false;
    auto al = [&] { bar->alert(); };
    auto cons = [&] { try { (void) bar->waitFor(0); returned = true; } catch (const AlertException &) { threw = true; } };
    THREAD(al); THREAD(cons);
    symx_threads_run();
    CHECKM(threw && !returned, "an alert ends the wait with an AlertException");
    CHECKM(bar->isAlerted(), "the barrier stays alerted");
    bar->clearAlert();
    CHECKM(!bar->isAlerted(), "until the alert is cleared");
    REACH("alerted");
}
HARNESS(h_alert_busy) { alerted<BusySpinWaitStrategy>(); }
HARNESS(h_alert_blocking) { alerted<BlockingWaitStrategy>(); }
HARNESS(h_alert_spin) { alerted<SpinWaitWaitStrategy>(); }
HARNESS(h_alert_yield) { alerted<YieldingWaitStrategy>(); }
HARNESS(h_alert_sleep) { alerted<SleepingWaitStrategy>(); }

// a dependent consumer waits for the one it depends on
HARNESS(h_wait_dependent) {
    auto ring = newRingBuffer<int, 2, BlockingWaitStrategy, ProducerType::Single>();
    auto first = std::make_shared<Sequence>();
    auto bar  = newBarrier(ring, { first });
    std::int64_t s = ring->next(), got = -7;
    int step = 0, seen = 0;
    auto prod = [&] { ring->publish(s); step = 5; first->setValue(0); };
    auto cons = [&] { got = bar->waitFor(0); seen = step; };
    THREAD(prod); THREAD(cons);
    symx_threads_run();
    CHECKM(got == 0 && seen == 5, "a dependent consumer sees an event only after the consumer it depends on");
    REACH("got");
}
// a wait with a timeout ends with the event or with a TimeoutException
struct Bar : ISequenceBarrier {
    std::int64_t waitFor(std::int64_t) override { return -1; }
    std::int64_t cursor() override { return -1; }
    bool isAlerted() override { return false; }
    void alert() override {}
    void clearAlert() override {}
    void checkAlert() override {}
};
HARNESS(h_wait_timeout) {
    TimeoutBlockingWaitStrategy w(std::chrono::milliseconds(1));
    auto cursor = std::make_shared<Sequence>();
    std::vector<std::shared_ptr<Sequence>> deps{ cursor };
    Bar bar;
    std::int64_t got = -7;
    bool out = false;
    auto prod = [&] { cursor->setValue(3); w.signalAllWhenBlocking(); };
    auto cons = [&] { try { got = w.waitFor(2, *cursor, deps, bar); } catch (const TimeoutException &) { out = true; } };
    THREAD(prod); THREAD(cons);
    symx_threads_run();
    CHECKM(out ? got == -7 : got == 3, "a timed wait returns the available sequence or throws");
    if (out) REACH("timeout"); else REACH("got");
}

// two consumers blocked on the same event are both woken
HARNESS(h_wait_blocking_two) {
    BlockingWaitStrategy w;
    auto cursor = std::make_shared<Sequence>();
    std::vector<std::shared_ptr<Sequence>> deps{ cursor };
    Bar bar;
    std::int64_t a = -7, b = -7;
    auto prod = [&] { cursor->setValue(0); w.signalAllWhenBlocking(); };
    auto c1 = [&] { a = w.waitFor(0, *cursor, deps, bar); };
    auto c2 = [&] { b = w.waitFor(0, *cursor, deps, bar); };
    THREAD(prod); THREAD(c1); THREAD(c2);
    symx_threads_run();
    CHECKM(a == 0 && b == 0, "both consumers get the event");
    REACH("got");
}
