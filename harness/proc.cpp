// event processors of the disruptor: batch processor and work processors
#include "symx.h"
#include <array>
#include <cassert>
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <vector>
#include <disruptor/AggregateEventHandler.hpp>
#include <disruptor/BatchEventProcessor.hpp>
#include <disruptor/ProcessingSequenceBarrier.hpp>
#include <disruptor/RingBuffer.hpp>
#include <disruptor/WorkProcessor.hpp>
using namespace opencmw;
using namespace opencmw::disruptor;
#ifndef EVENTS
#define EVENTS 3
#endif
struct Failure : std::exception {};

struct Log { // what the environment saw
    int  handled[8] = {}, failed[8] = {}, next = 0, starts = 0, stops = 0, timeouts = 0, timeoutFailures = 0, startFailures = 0, stopFailures = 0;
    bool order = true, data = true, ends = true, gate = true;
    int  avail = -1; // the last sequence the barrier reported
    bool failStart = false, failStop = false, failTimeout = false;
    bool fail[8] = {};
    Sequence *seq = nullptr;
};
struct Handler : IEventHandler<int>, ILifecycleAware, ITimeoutHandler {
    Log &l;
    explicit Handler(Log &x) : l(x) {}
    void onEvent(int &d, std::int64_t s, bool end) override {
        l.order &= s == l.next;
        l.data &= d == 100 + (int) s;
        l.ends &= end == (s == l.avail);
        l.gate &= l.seq->value() < s; // the slot of the event being handled is not released
        l.next = (int) s + 1;
        l.handled[s & 7]++;
        if (l.fail[s & 7]) throw Failure();
    }
    void onStart() override { l.starts++; if (l.failStart) throw Failure(); }
    void onShutdown() override { l.stops++; if (l.failStop) throw Failure(); }
    void onTimeout(std::int64_t s) override { l.timeouts++; l.order &= s == l.next - 1; if (l.failTimeout) throw Failure(); }
};
struct OnError : IExceptionHandler<int> {
    Log &l;
    explicit OnError(Log &x) : l(x) {}
    void handleEventException(const std::exception &, std::int64_t s, int &e) override { l.failed[s & 7]++; l.data &= e == 100 + (int) s; l.order &= s == l.next - 1; }
    void handleOnStartException(const std::exception &) override { l.startFailures++; }
    void handleOnShutdownException(const std::exception &) override { l.stopFailures++; }
    void handleOnTimeoutException(const std::exception &, std::int64_t) override { l.timeoutFailures++; }
};
// a barrier that makes events available in arbitrary portions, with timeouts and stray alerts in between, and halts the processor after the last
struct Script : ISequenceBarrier {
    Log &l;
    int  n, budget = 3, cleared = 0;
    bool alerted = false;
    IEventProcessor *p = nullptr;
    Script(Log &x, int k) : l(x), n(k) {}
    std::int64_t waitFor(std::int64_t s) override {
        if (alerted) throw AlertException();
        CHECKM(s == l.next, "the processor waits for the event after the last one");
        CHECKM(l.seq->value() == s - 1, "the processor reports what it has processed before it waits");
        if (s >= n) { p->halt(); CHECKM(alerted, "halt() alerts the barrier"); throw AlertException(); }
        if (budget > 0) {
            unsigned k = (unsigned) symRange("event", 0, 3);
            budget--;
            if (k == 1) { if (!l.failTimeout) REACH("timeout"); throw TimeoutException(); }
            if (k == 2) { REACH("stray alert"); throw AlertException(); }
            if (k == 3) return s - 1; // nothing yet
        }
        l.avail = (int) symRange("avail", (uint64_t) s, (uint64_t) n - 1);
        return l.avail;
    }
    std::int64_t cursor() override { return n - 1; }
    bool isAlerted() override { return alerted; }
    void alert() override { alerted = true; }
    void clearAlert() override { alerted = false; cleared++; }
    void checkAlert() override { if (alerted) throw AlertException(); }
};
static void batch(bool withErrorHandler) {
    Log l;
    auto ring = newRingBuffer<int, 4, BusySpinWaitStrategy, ProducerType::Single>();
    for (int i = 0; i < EVENTS; i++) { auto s = ring->next(); (*ring)[s] = 100 + i; ring->publish(s); }
    auto bar = std::make_shared<Script>(l, EVENTS);
    auto h   = std::make_shared<Handler>(l);
    BatchEventProcessor<int> p(ring, bar, h);
    bar->p = &p;
    l.seq = p.sequence().get();
    if (withErrorHandler) p.setExceptionHandler(std::make_shared<OnError>(l));
    bool anyFail = false;
    for (int i = 0; i < EVENTS; i++) { l.fail[i] = symx_branch(sym<bool>("fail")); anyFail |= l.fail[i]; }
    if (!anyFail) { l.failStart = sym<bool>("failStart"); l.failStop = sym<bool>("failStop"); l.failTimeout = symx_branch(sym<bool>("failTimeout")); }
    CHECKM(!p.isRunning(), "a new processor is not running");
    p.run();
    CHECKM(!p.isRunning(), "a halted processor is not running");
    for (int i = 0; i < EVENTS; i++) {
        CHECKM(l.handled[i] == 1, "every event is handled exactly once, failing or not");
        CHECKM(l.failed[i] == (withErrorHandler && l.fail[i] ? 1 : 0), "the exception handler is told about each failing event once");
    }
    CHECKM(l.order, "events are handled in order");
    CHECKM(l.data, "handlers are given the event's data");
    CHECKM(l.ends, "end of batch is flagged at the last available event");
    CHECKM(l.gate, "an event is not released while it is being handled");
    CHECKM(p.sequence()->value() == EVENTS - 1, "the processor ends at the last event");
    CHECKM(l.starts == 1 && l.stops == 1, "start and shutdown are notified once");
    if (withErrorHandler) CHECKM((l.startFailures == 1) == l.failStart && (l.stopFailures == 1) == l.failStop && l.timeoutFailures == (l.failTimeout ? l.timeouts : 0), "failures of lifecycle callbacks are reported");
    if (anyFail) REACH("failing handler");
    // another run after halt() goes on where it stopped
    int n = l.next;
    bar->budget = 0;
    p.run();
    CHECKM(l.next == n && l.starts == 2 && l.stops == 2 && p.sequence()->value() == EVENTS - 1, "a processor can be run again after it was halted");
}
HARNESS(h_batch) { batch(true); }
HARNESS(h_batch_default) { batch(false); }

// a processor that is already running is not started twice
struct Again : ISequenceBarrier {
    IEventProcessor *p = nullptr;
    bool refused = false;
    std::int64_t waitFor(std::int64_t) override {
        CHECKM(p->isRunning(), "a running processor says so");
        try { p->run(); } catch (const std::exception &) { refused = true; }
        p->halt();
        throw AlertException();
    }
    std::int64_t cursor() override { return -1; }
    bool isAlerted() override { return false; }
    void alert() override {}
    void clearAlert() override {}
    void checkAlert() override {}
};
HARNESS(h_batch_twice) {
    Log l;
    auto ring = newRingBuffer<int, 4, BusySpinWaitStrategy, ProducerType::Single>();
    auto bar = std::make_shared<Again>();
    bool work = symx_branch(sym<bool>("work"));
    struct WH : IWorkHandler<int> { void onEvent(int &) override {} };
    if (work) {
        auto p = WorkProcessor<int>::create(ring, bar, std::make_shared<WH>(), std::make_shared<OnError>(l), std::make_shared<Sequence>());
        bar->p = p.get();
        p->run();
        CHECKM(bar->refused && !p->isRunning(), "starting a running processor again is refused");
    } else {
        BatchEventProcessor<int> p(ring, bar, std::make_shared<Handler>(l));
        bar->p = &p;
        p.run();
        CHECKM(bar->refused && !p.isRunning(), "starting a running processor again is refused");
    }
    REACH("done");
}

// work processors sharing a work sequence: every event is handled by exactly one of them
struct Worker : IWorkHandler<int> {
    int  sum[EVENTS] = {};
    bool data = true, fail = false;
    Sequence *own = nullptr;
    bool gate = true;
    void onEvent(int &d) override {
        for (int i = 0; i < EVENTS; i++) sum[i] += d == 100 + i;
        gate &= own->value() < d - 100;
        if (fail) throw Failure();
    }
};
struct Stop : ISequenceBarrier { // events 0..n-1 are there, then the processor is halted
    int n;
    IEventProcessor *p = nullptr;
    explicit Stop(int k) : n(k) {}
    std::int64_t waitFor(std::int64_t s) override { if (s < n) return n - 1; p->halt(); throw AlertException(); }
    std::int64_t cursor() override { return n - 1; }
    bool isAlerted() override { return false; }
    void alert() override {}
    void clearAlert() override {}
    void checkAlert() override {}
};
struct CountErrors : IExceptionHandler<int> {
    int n[EVENTS] = {};
    void handleEventException(const std::exception &, std::int64_t s, int &) override { if (s >= 0 && s < EVENTS) n[s]++; }
    void handleOnStartException(const std::exception &) override {}
    void handleOnShutdownException(const std::exception &) override {}
    void handleOnTimeoutException(const std::exception &, std::int64_t) override {}
};
HARNESS(h_work_one) {
    auto ring = newRingBuffer<int, 4, BusySpinWaitStrategy, ProducerType::Single>();
    for (int i = 0; i < EVENTS; i++) { auto s = ring->next(); (*ring)[s] = 100 + i; ring->publish(s); }
    auto bar = std::make_shared<Stop>(EVENTS);
    auto w = std::make_shared<Worker>();
    auto e = std::make_shared<CountErrors>();
    auto ws = std::make_shared<Sequence>();
    auto p = WorkProcessor<int>::create(ring, bar, w, e, ws);
    bar->p = p.get();
    w->own = p->sequence().get();
    w->fail = symx_branch(sym<bool>("fail"));
    int from = (int) symRange("from", 0, EVENTS);
    ws->setValue(from - 1);
    p->run();
    for (int i = 0; i < EVENTS; i++) {
        CHECKM(w->sum[i] == (i >= from), "every event from the work sequence on is handled once");
        CHECKM(e->n[i] == (i >= from && w->fail), "the exception handler is told about each failing event once");
    }
    CHECKM(w->gate, "an event is not released while it is being handled");
    CHECKM(!p->isRunning(), "a halted processor is not running");
    CHECKM(p->sequence()->value() == EVENTS - 1, "the worker's sequence is the last event before the one it waits for");
    REACH("done");
}

// ---- every interleaving
// halt() during the start: the processor stops
template<class P>
static void halting(P &p, std::shared_ptr<ISequenceBarrier> bar) {
    bool done = false;
    auto r = [&] { p.run(); done = true; };
    auto h = [&] { ASSUME(p.isRunning()); p.halt(); }; // once it has started
    THREAD(r); THREAD(h);
    symx_threads_run();
    CHECKM(done && !p.isRunning(), "a halted processor stops");
    REACH("halted");
}
HARNESS(h_halt_batch) {
    Log l;
    auto ring = newRingBuffer<int, 4, BusySpinWaitStrategy, ProducerType::Single>();
    auto bar = newBarrier(ring, {});
    struct EH : IEventHandler<int> { void onEvent(int &, std::int64_t, bool) override {} };
    BatchEventProcessor<int> p(ring, bar, std::make_shared<EH>());
    halting(p, bar);
}
HARNESS(h_halt_work) {
    auto ring = newRingBuffer<int, 4, BusySpinWaitStrategy, ProducerType::Single>();
    auto bar = newBarrier(ring, {});
    struct WH : IWorkHandler<int> { void onEvent(int &) override {} };
    auto p = WorkProcessor<int>::create(ring, bar, std::make_shared<WH>(), std::make_shared<CountErrors>(), std::make_shared<Sequence>());
    halting(*p, bar);
}
// two workers, two events: each event is handled by exactly one worker
HARNESS(h_work_two) {
    auto ring = newRingBuffer<int, 2, BusySpinWaitStrategy, ProducerType::Single>();
    for (int i = 0; i < 2; i++) { auto s = ring->next(); (*ring)[s] = 100 + i; ring->publish(s); }
    auto ws = std::make_shared<Sequence>();
    auto e = std::make_shared<CountErrors>();
    struct W : IWorkHandler<int> { int n0 = 0, n1 = 0; void onEvent(int &d) override { n0 += d == 100; n1 += d == 101; } };
    auto w1 = std::make_shared<W>(), w2 = std::make_shared<W>();
    auto b1 = std::make_shared<Stop>(2), b2 = std::make_shared<Stop>(2);
    auto p1 = WorkProcessor<int>::create(ring, b1, w1, e, ws), p2 = WorkProcessor<int>::create(ring, b2, w2, e, ws);
    b1->p = p1.get(); b2->p = p2.get();
    auto t1 = [&] { p1->run(); };
    auto t2 = [&] { p2->run(); };
    THREAD(t1); THREAD(t2);
    symx_threads_run();
    CHECKM(w1->n0 + w2->n0 == 1 && w1->n1 + w2->n1 == 1, "every event is handled by exactly one worker");
    if (w1->n0 && w2->n1) REACH("shared");
    if (w1->n0 && w1->n1) REACH("one did all");
}
