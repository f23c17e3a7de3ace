// disruptor ring buffer: histories of claims, publications and polls against a reference queue
#include "symx.h"
#include <array>
#include <cassert>
#include <cstdint>
#include <memory>
#include <vector>
#include <disruptor/RingBuffer.hpp>
using namespace opencmw;
using namespace opencmw::disruptor;
#ifndef OPS
#define OPS 5
#endif

struct Boom {};
template<ProducerType P, std::size_t SIZE, int CONS, bool CHAIN>
static void history(int ops, bool symStart) {
    auto ring = newRingBuffer<int, SIZE, BusySpinWaitStrategy, P>();
    using Poller = std::remove_reference_t<decltype(*ring->newPoller())>;
    std::shared_ptr<Poller> p[2];
    std::int64_t base = 0; // sequence number of the first event
    p[0] = ring->newPoller();
    if (CONS > 1) p[1] = CHAIN ? ring->newPoller({ p[0]->sequence() }) : ring->newPoller();
    CHECKM(ring->bufferSize() == (int) SIZE, "bufferSize() is the number of slots");
    CHECKM(ring->cursor() == -1, "a fresh ring has published nothing");
    if constexpr (P == ProducerType::Multi) {
        if (symStart) { // any point in the life of the ring at which everything was consumed
            base = (std::int64_t) symLazy("base", SIZE, ((std::uint64_t) 1 << 31) * SIZE - 64);
            ring->cursorSequence()->setValue(base - 1);
            for (int i = 0; i < CONS; i++) p[i]->sequence()->setValue(base - 1);
        }
    }
    std::vector<std::shared_ptr<Sequence>> gs;
    for (int i = 0; i < CONS; i++) gs.push_back(p[i]->sequence());
    ring->addGatingSequences(gs);

    int  claimed = 0, c[2] = { 0, 0 }, val[64] = {};
    bool pub[64] = {};
    auto slowest = [&] { return CONS > 1 && c[1] < c[0] ? c[1] : c[0]; };
    auto firstUnpublished = [&] { int i = 0; while (i < claimed && pub[i]) i++; return i; };
    for (int step = 0; step < ops; step++) {
        unsigned op = (unsigned) symRange("op", 0, 3 + (unsigned) CONS);
        int free_ = (int) SIZE - (claimed - slowest());
        if (op == 0) { // publish one event
            ASSUME(P == ProducerType::Multi || firstUnpublished() == claimed);
            int v = sym<int>("v");
            bool ok = ring->tryPublishEvent([&](int &&e, std::int64_t s) { CHECKM(s == base + claimed, "the translator is given the next sequence"); e = v; });
            CHECKM(ok == (free_ > 0), "an event is accepted exactly if a slot is free");
            if (ok) { val[claimed] = v; pub[claimed++] = true; if (claimed > (int) SIZE) REACH("slot reused"); }
            else REACH("full");
        } else if (op == 1) { // claim n slots, publish later
            int n = (int) symRange("n", 1, SIZE > 2 ? 2 : 1);
            bool ok = true;
            try {
                std::int64_t s = ring->tryNext(n);
                CHECKM(s == base + claimed + n - 1, "a claim returns the last sequence of a fresh block");
            } catch (const NoCapacityException &) { ok = false; }
            CHECKM(ok == (free_ >= n), "a claim is refused exactly if not enough slots are free");
            if (ok) for (int i = 0; i < n; i++) { val[claimed] = sym<int>("v"); (*ring)[base + claimed] = val[claimed]; claimed++; }
        } else if (op == 2) { // blocking claim, only where it does not have to wait
            ASSUME(free_ > 0);
            std::int64_t s = ring->next();
            CHECKM(s == base + claimed, "next() returns the next sequence");
            val[claimed] = sym<int>("v");
            (*ring)[s] = val[claimed++];
        } else if (op == 3) { // publish a claimed slot: the oldest one, for several producers any
            int i = firstUnpublished();
            ASSUME(i < claimed);
            if (P == ProducerType::Multi && i + 1 < claimed && !pub[i + 1] && symx_branch(sym<bool>("later first"))) { i++; REACH("out of order"); }
            ring->publish(base + i);
            pub[i] = true;
        } else { // poll
            int  k = (int) op - 4, n = 0;
            int  avail = firstUnpublished();
            if (CHAIN && k == 1 && c[0] < avail) avail = c[0];
            int  mode = (int) symRange("mode", 0, 2); // take all, stop after one, fail at the second
            bool threw = false;
            PollState st = PollState::UNKNOWN;
            int  from = c[k];
            try {
                st = p[k]->poll([&](int &e, std::int64_t s, bool last) {
                    CHECKM(from + n < avail, "only published events are delivered");
                    CHECKM(s == base + from + n, "events are delivered in order, each once");
                    CHECKM(e == val[from + n], "an event carries the data written before it was published");
                    CHECKM(last == (from + n + 1 == avail), "end of batch is flagged at the last available event");
                    if (mode == 2 && n == 1) throw Boom{};
                    n++;
                    return mode != 1;
                });
            } catch (const Boom &) { threw = true; REACH("handler failed"); }
            if (mode == 2) { CHECKM(threw == (avail - from > 1), "a failing handler's exception reaches the caller"); CHECKM(n == (avail - from > 1 ? 1 : avail - from), "events are delivered until the failing one"); }
            if (mode == 0) CHECKM(n == avail - from, "a poll delivers everything available");
            if (mode == 1) CHECKM(n == (avail > from ? 1 : 0), "a handler that wants no more gets no more");
            c[k] += n;
            if (!threw) {
                if (n > 0 || avail > from) CHECKM(st == PollState::Processing, "Processing: events were delivered");
                else if (P == ProducerType::Multi ? claimed > from : (CHAIN && k == 1 && firstUnpublished() > from)) { CHECKM(st == PollState::Gating, "Gating: there are events, but not for this consumer yet"); REACH("gating"); }
                else CHECKM(st == PollState::Idle, "Idle: nothing to do");
            }
            CHECKM(p[k]->sequence()->value() == base + c[k] - 1, "a consumer's sequence is the last event it processed");
        }
        free_ = (int) SIZE - (claimed - slowest());
        CHECKM(ring->getRemainingCapacity() == free_, "getRemainingCapacity() counts the free slots");
        for (int r = 1; r <= (int) SIZE; r++) CHECKM(ring->hasAvailableCapacity(r) == (r <= free_), "hasAvailableCapacity() agrees with the free slots");
        for (int i = slowest(); i < claimed; i++) {
            CHECKM(ring->isPublished(base + i) == pub[i], "isPublished() is true for published events only");
            CHECKM((*ring)[base + i] == val[i], "no event is overwritten before every consumer has passed it");
        }
        CHECKM(ring->getMinimumGatingSequence() == base + slowest() - 1, "getMinimumGatingSequence() is the slowest consumer");
    }
}
HARNESS(h_ring_single2) { history<ProducerType::Single, 2, 1, false>(OPS, false); }
HARNESS(h_ring_single4) { history<ProducerType::Single, 4, 2, false>(OPS - 1, false); }
HARNESS(h_ring_single_chain) { history<ProducerType::Single, 2, 2, true>(OPS - 1, false); }
HARNESS(h_ring_multi2) { history<ProducerType::Multi, 2, 1, false>(OPS, false); }
HARNESS(h_ring_multi4) { history<ProducerType::Multi, 4, 2, false>(OPS - 1, false); }
HARNESS(h_ring_multi_chain) { history<ProducerType::Multi, 2, 2, true>(OPS - 1, false); }
HARNESS(h_ring_multi_any) { history<ProducerType::Multi, 2, 1, false>(OPS - 1, true); }

// claims of any size against consumers that advance by any amount
template<ProducerType P, std::size_t SIZE>
static void claims(int rounds, bool symStart) {
    auto ring = newRingBuffer<int, SIZE, BusySpinWaitStrategy, P>();
    auto a = std::make_shared<Sequence>(), b = std::make_shared<Sequence>();
    std::int64_t base = 0;
    if constexpr (P == ProducerType::Multi)
        if (symStart) { base = (std::int64_t) symLazy("base", SIZE, ((std::uint64_t) 1 << 31) * SIZE - 64); ring->cursorSequence()->setValue(base - 1); }
    ring->addGatingSequences({ a, b });
    CHECKM(a->value() == base - 1 && b->value() == base - 1, "a new consumer starts at the cursor");
    std::int64_t claimed = base, published = base, ca = base, cb = base; // next sequences
    bool ok = true, two = false;
    for (int i = 0; i < rounds; i++) {
        std::int64_t room = (std::int64_t) SIZE - (claimed - (ca < cb ? ca : cb));
        if (symx_branch(sym<bool>("blocking"))) {
            ASSUME(room > 0);
            std::int64_t s = ring->next();
            CHECKM(s == claimed, "next() returns the next sequence");
            claimed++;
        } else {
            auto n = (std::int32_t) symLazy("n", 1, SIZE + 1, 32);
            ok = true;
            CHECKM(ring->hasAvailableCapacity(n) == (n <= room), "hasAvailableCapacity() agrees with the free slots");
            try { std::int64_t s = ring->tryNext(n); CHECKM(s == claimed + n - 1, "a claim returns the last sequence of a fresh block"); } catch (const NoCapacityException &) { ok = false; }
            CHECKM(ok == (n <= room), "a claim is granted exactly if enough slots are free");
            if (ok) claimed += n; else REACH("refused");
        }
        bool early = false;
        for (int k = 0; k < (int) SIZE; k++) early |= ring->isPublished(published + k);
        CHECKM(!early, "nothing is visible to consumers before it is published");
        if (symx_branch(sym<bool>("publish")) && claimed > published) {
            if (P == ProducerType::Single) ring->publish(claimed - 1);
            else for (int k = 0; k < (int) SIZE; k++) if (published + k < claimed) ring->publish(published + k);
            published = claimed;
        } else if (claimed > published) two = true;
        // consumers pass any number of the published events
        std::int64_t na = (std::int64_t) symLazy("a", 0, SIZE), nb = (std::int64_t) symLazy("b", 0, SIZE);
        ASSUME((ca + na <= published) & (cb + nb <= published));
        ca += na; cb += nb;
        a->setValue(ca - 1); b->setValue(cb - 1);
        std::int64_t low = ca < cb ? ca : cb;
        CHECKM(ring->getRemainingCapacity() == (std::int64_t) SIZE - (claimed - low), "getRemainingCapacity() counts the free slots");
        CHECKM(ring->getMinimumGatingSequence() == low - 1, "getMinimumGatingSequence() is the slowest consumer");
        if (two && ca < cb) REACH("claims outstanding, consumers apart");
    }
    if (claimed - base > (std::int64_t) SIZE) REACH("slot reused");
}
HARNESS(h_ring_claims_single) { claims<ProducerType::Single, 4>(OPS - 2, false); }
HARNESS(h_ring_claims_multi) { claims<ProducerType::Multi, 2>(OPS - 3, true); }
