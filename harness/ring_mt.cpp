// disruptor ring buffer under every interleaving of producers and consumers
#include "symx.h"
#include <array>
#include <cassert>
#include <cstdint>
#include <memory>
#include <vector>
#include <disruptor/RingBuffer.hpp>
using namespace opencmw;
using namespace opencmw::disruptor;

// a consumer that stops after `max` events
template<class P>
struct Consumer {
    P  &p;
    int n = 0, bad = 0;
    int first = 0;
    void poll() {
        p.poll([this](int &e, std::int64_t s, bool) {
            bad |= (int) (s != first + n) | (int) (e != 100 + (int) s); // no branch: one path per number of events
            n++;
            return true;
        });
    }
};

// a full ring of two, one producer that goes on if it may, two consumers: nothing is overwritten before both have it
template<ProducerType P>
static void reuse() {
    auto ring = newRingBuffer<int, 2, BusySpinWaitStrategy, P>();
    auto p0 = ring->newPoller(), p1 = ring->newPoller();
    ring->addGatingSequences({ p0->sequence(), p1->sequence() });
    for (int i = 0; i < 2; i++) { auto s = ring->next(); (*ring)[s] = 100 + i; ring->publish(s); }
    bool wrote = false;
    Consumer<std::remove_reference_t<decltype(*p0)>> c0{ *p0 }, c1{ *p1 };
    auto prod = [&] { if (ring->hasAvailableCapacity(1)) { auto s = ring->next(); (*ring)[s] = 102; ring->publish(s); wrote = true; } };
    auto r0 = [&] { c0.poll(); };
    auto r1 = [&] { c1.poll(); };
    THREAD(prod); THREAD(r0); THREAD(r1);
    symx_threads_run();
    CHECKM(c0.bad == 0 && c1.bad == 0, "each consumer gets the events in order, with their data");
    CHECKM(c0.n >= 2 && c1.n >= 2, "each consumer gets every published event");
    CHECKM(c0.n <= 3 && c1.n <= 3, "no event is delivered twice");
    CHECKM(ring->cursor() == (wrote ? 2 : 1), "the cursor is the last claimed event");
    if (wrote) REACH("reused"); else REACH("refused");
}
HARNESS(h_mt_reuse_single) { reuse<ProducerType::Single>(); }
HARNESS(h_mt_reuse_multi) { reuse<ProducerType::Multi>(); }

// one producer waiting for room with next(), one consumer
template<ProducerType P>
static void blocking() {
    auto ring = newRingBuffer<int, 2, BusySpinWaitStrategy, P>();
    auto p0 = ring->newPoller();
    ring->addGatingSequences({ p0->sequence() });
    for (int i = 0; i < 2; i++) { auto s = ring->next(); (*ring)[s] = 100 + i; ring->publish(s); }
    Consumer<std::remove_reference_t<decltype(*p0)>> c0{ *p0 };
    auto prod = [&] { auto s = ring->next(); (*ring)[s] = 102; ring->publish(s); };
    auto r0 = [&] { c0.poll(); };
    THREAD(prod); THREAD(r0);
    symx_threads_run();
    CHECKM(c0.bad == 0, "the consumer gets the events in order, with their data");
    CHECKM(c0.n == 2, "the consumer gets every published event");
    c0.poll();
    CHECKM(c0.bad == 0 && c0.n == 3, "the event published in the freed slot follows");
    CHECKM(ring->cursor() == 2, "the cursor is the last published event");
}
HARNESS(h_mt_blocking_single) { blocking<ProducerType::Single>(); }
HARNESS(h_mt_blocking_multi) { blocking<ProducerType::Multi>(); }

// a consumer polling while the producer publishes: what it sees is complete
template<ProducerType P>
static void visible() {
    auto ring = newRingBuffer<int, 2, BusySpinWaitStrategy, P>();
    auto p0 = ring->newPoller();
    ring->addGatingSequences({ p0->sequence() });
    Consumer<std::remove_reference_t<decltype(*p0)>> c0{ *p0 };
    std::int64_t s0 = ring->next(), s1 = ring->next(); // both claimed, nothing written yet
    auto prod = [&] { (*ring)[s0] = 100; ring->publish(s0); (*ring)[s1] = 101; ring->publish(s1); };
    auto r0 = [&] { c0.poll(); c0.poll(); };
    THREAD(prod); THREAD(r0);
    symx_threads_run();
    CHECKM(c0.bad == 0, "the consumer gets the events in order, with their data");
    if (c0.n == 0) REACH("none"); if (c0.n == 1) REACH("one"); if (c0.n == 2) REACH("two");
    c0.poll();
    CHECKM(c0.bad == 0 && c0.n == 2, "no event is lost or repeated");
}
HARNESS(h_mt_visible_single) { visible<ProducerType::Single>(); }
HARNESS(h_mt_visible_multi) { visible<ProducerType::Multi>(); }

// two producers and a consumer
HARNESS(h_mt_two_producers) {
    auto ring = newRingBuffer<int, 2, BusySpinWaitStrategy, ProducerType::Multi>();
    auto p0 = ring->newPoller();
    ring->addGatingSequences({ p0->sequence() });
    int n = 0, bad = 0;
    std::int64_t s1 = -1, s2 = -1;
    auto a = [&] { s1 = ring->next(); (*ring)[s1] = s1 == 0 ? 11 : 12; ring->publish(s1); };
    auto b = [&] { s2 = ring->next(); (*ring)[s2] = s2 == 0 ? 21 : 22; ring->publish(s2); };
    auto c = [&] { p0->poll([&](int &e, std::int64_t s, bool) { bad |= (int) (s != n) | ((int) (e != 11 + (int) s) & (int) (e != 21 + (int) s)); n++; return true; }); };
    THREAD(a); THREAD(b); THREAD(c);
    symx_threads_run();
    CHECKM((s1 == 0 && s2 == 1) || (s1 == 1 && s2 == 0), "producers are given distinct, consecutive sequences");
    CHECKM(bad == 0, "events are delivered in order, with their producer's data");
    if (n == 0) REACH("none early"); if (n == 1) REACH("one early"); if (n == 2) REACH("two early");
    if (s1 == 1) REACH("second producer first");
    CHECKM(p0->sequence()->value() == n - 1, "the consumer's sequence is the last event it got");
    CHECKM(ring->isPublished(0) && ring->isPublished(1), "both events are published");
    CHECKM((*ring)[s1] == 11 + (int) s1 && (*ring)[s2] == 21 + (int) s2, "each event carries its producer's data");
}
// two producers, nobody consuming yet: both events are there afterwards
HARNESS(h_mt_two_producers_only) {
    auto ring = newRingBuffer<int, 2, BusySpinWaitStrategy, ProducerType::Multi>();
    auto p0 = ring->newPoller();
    ring->addGatingSequences({ p0->sequence() });
    int n = 0, bad = 0;
    std::int64_t s1 = -1, s2 = -1;
    auto a = [&] { s1 = ring->next(); (*ring)[s1] = 11; ring->publish(s1); };
    auto b = [&] { s2 = ring->next(); (*ring)[s2] = 22; ring->publish(s2); };
    THREAD(a); THREAD(b);
    symx_threads_run();
    p0->poll([&](int &e, std::int64_t s, bool) { if (s != n || e != (s == s1 ? 11 : 22)) bad = 1; n++; return true; });
    CHECKM((s1 == 0 && s2 == 1) || (s1 == 1 && s2 == 0), "producers are given distinct, consecutive sequences");
    CHECKM(bad == 0 && n == 2, "every event is delivered once, in order, with its producer's data");
    if (s1 == 1) REACH("second producer first");
}
// two producers compete for the last free slot
HARNESS(h_mt_last_slot) {
    auto ring = newRingBuffer<int, 2, BusySpinWaitStrategy, ProducerType::Multi>();
    auto p0 = ring->newPoller();
    ring->addGatingSequences({ p0->sequence() });
    { auto s = ring->next(); (*ring)[s] = 100; ring->publish(s); }
    int got = 0; bool ga = false, gb = false;
    auto a = [&] { ga = ring->tryPublishEvent([](int &&e, std::int64_t) { e = 11; }); };
    auto b = [&] { gb = ring->tryPublishEvent([](int &&e, std::int64_t) { e = 22; }); };
    THREAD(a); THREAD(b);
    symx_threads_run();
    CHECKM(ga != gb, "one of two producers gets the last free slot");
    int n = 0, v[2] = { 0, 0 };
    p0->poll([&](int &e, std::int64_t s, bool) { if (n < 2) v[n] = e; n++; got = (int) s; return true; });
    CHECKM(n == 2 && got == 1 && v[0] == 100 && v[1] == (ga ? 11 : 22), "the event of the one that got it is delivered, nothing is overwritten");
    if (ga) REACH("first"); if (gb) REACH("second");
}
