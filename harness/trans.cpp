// P33: transactional settings -- history, transactions and expiry
#include <chrono>
#include <Transactions.hpp>
#include "common.h"
#include "opaque_format.h"
using namespace opencmw;
using Clock = std::chrono::system_clock;
using std::chrono::seconds, std::chrono::nanoseconds;
#ifndef OPS
#define OPS 3
#endif
static uint64_t s_s = 1000000; // the clock, in seconds
extern "C" uint64_t symx_clock_ns() { return s_s * 1000000000ull; }
#ifdef NATIVE_REPLAY
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration((int64_t) symx_clock_ns())); }
#endif
// a token without text (the token type is the user's)
struct Tok {
    int id = 0;
    bool empty() const { return id == 0; }
    bool operator==(const Tok &) const = default;
};
struct Entry { int32_t value; int since; int access; }; // times in nanoseconds, relative to the start
struct Staged { int id; int32_t value; int access; };
static constexpr int TO = 500; // time-outs, in nanoseconds
using S = SettingBase<int32_t, int32_t, Tok, 16, nanoseconds, TO, TO>;
struct Ref {
    std::vector<Entry>  h{ { 0, 0, 0 } }; // oldest first
    std::vector<Staged> t;
    void expire(int now) {
        std::vector<Staged> keep;
        for (auto &s : t) if (s.access + TO >= now) keep.push_back(s);
        t = keep;
        while (h.size() > 9) h.erase(h.begin());
        while (h.size() > 1 && h.front().access + TO < now) h.erase(h.begin());
    }
    void commit(int32_t v, int when) {
        h.back().access = 0; // committing looks at the latest
        h.push_back({ v, when, when });
        expire(0);
    }
};
static void agree(S &s, Ref &r, Clock::time_point base) {
    CHECKM(s.nHistory() == r.h.size(), "the length of the history");
    auto p = s.getPendingTransactions();
    bool ok = p.size() == r.t.size();
    for (size_t i = 0; ok && i < p.size(); i++) ok &= p[i].id == r.t[i].id;
    CHECKM(ok, "the pending transactions, in order");
    ok = true;
    for (size_t i = 0; i < r.h.size(); i++) ok &= *s.get(-(int64_t) i).value == r.h[r.h.size() - 1 - i].value;
    CHECKM(ok, "the history holds what was committed, the latest first");
    for (int64_t bad : { (int64_t) 1, -(int64_t) r.h.size() }) {
        bool thrown = false;
        try { (void) s.get(bad); } catch (const std::out_of_range &) { thrown = true; }
        CHECKM(thrown, "beyond the history there is nothing");
    }
    {
        const int   d    = (int) symLazy("at", 0, 2000, 16) - 1000;
        const Entry *want = nullptr;
        for (auto &e : r.h) if (e.since <= d) want = &e; // the latest valid at that time
        bool    thrown = false;
        int32_t got    = 0;
        try { got = *s.get(base + nanoseconds(d)).value; } catch (const std::out_of_range &) { thrown = true; }
        CHECKM(want ? !thrown && got == want->value : thrown, "the setting at a given time");
    }
}
HARNESS(h_tx_history) {
    S          s;
    const auto base = Clock::now();
    Ref        r;
    for (int k = 0; k < OPS; k++) {
        const int v = (int) symRange("op", 0, k == 0 ? 1 : 4);
        switch (v) {
        case 0: {
            const int32_t x = sym<int32_t>("v");
            const int     d = (int) symLazy("when", 0, 2000, 16) - 1000;
            CHECKM(s.commit(int32_t(x), base + nanoseconds(d)).isCommitted, "a commit succeeds");
            r.commit(x, d);
            break;
        }
        case 1: {
            const int32_t x  = sym<int32_t>("v");
            const int     id = (int) symRange("token", 1, k == 0 ? 1 : 2);
            CHECKM(!s.stage(int32_t(x), Tok{ id }).isCommitted, "what is staged is not committed");
            bool known = false;
            for (auto &t : r.t) if (t.id == id) { t.value = x; t.access = 0; known = true; }
            if (!known) r.t.push_back({ id, x, 0 });
            if (known) REACH("restaged");
            r.expire(0);
            break;
        }
        case 2: {
            const int id = (int) symRange("token", 0, 2);
            std::vector<Staged> go, keep;
            for (auto &t : r.t) (id == 0 || t.id == id ? go : keep).push_back(t);
            r.t = keep;
            CHECKM(s.commit(Tok{ id }, base).isCommitted == !go.empty(), "a transaction is committed if it is staged");
            for (auto &t : go) r.commit(t.value, 0);
            if (!go.empty()) REACH("committed");
            break;
        }
        case 3: {
            const int id = (int) symRange("token", 0, 2);
            std::vector<Staged> keep;
            for (auto &t : r.t) if (id != 0 && t.id != id) keep.push_back(t);
            CHECKM(s.retireStaged(Tok{ id }) == (keep.size() != r.t.size()), "a staged transaction can be withdrawn");
            r.t = keep;
            break;
        }
        default: {
            const int now = (int) symLazy("now", 0, 1000, 16);
            if (symRange("look", 0, 1) && r.h.size() > 1) { // looking at a setting keeps it
                (void) s.get(-(int64_t) (r.h.size() - 1));
                r.h.front().access = 0;
            }
            const auto n = r.h.size() + r.t.size();
            s.retireExpired(base + nanoseconds(now));
            r.expire(now);
            if (r.h.size() + r.t.size() < n) REACH("expired");
        }
        }
    }
    agree(s, r, base);
}
// an expired transaction is committed like any other, or refused: the others are unaffected
HARNESS(h_tx_commit_expired) {
    using S1 = SettingBase<int32_t, int32_t, Tok, 16, seconds, -1, 1>; // transactions expire after a second
    S1            s;
    const int32_t x = sym<int32_t>("v"), y = sym<int32_t>("w");
    s.commit(int32_t(y));
    s.stage(int32_t(x), Tok{ 1 });
    if (symRange("other", 0, 1)) s.stage(int32_t(y), Tok{ 2 });
    s_s += 2;
    const bool done = s.commit(Tok{ 1 });
    CHECKM(*s.get().value == (done ? x : y), "a transaction is committed or not");
    CHECKM(s.getPendingTransactions().empty(), "expired transactions are gone");
    REACH("done");
}
// many commits: the history is a window of the last ones
HARNESS(h_tx_wrap) {
    SettingBase<int32_t, int32_t, Tok, 16> s;
    std::vector<int32_t>                   v{ 0 };
    const size_t n = 5 * symRange("n", 0, 5);
    for (size_t i = 0; i < n; i++) {
        v.push_back(sym<int32_t>("v"));
        CHECKM(s.commit(int32_t(v.back())).isCommitted, "a commit succeeds");
    }
    const size_t have = std::min<size_t>(v.size(), 9);
    CHECKM(s.nHistory() == have, "the history is a window of the last ones");
    bool ok = true;
    for (size_t i = 0; i < have; i++) ok &= *s.get(-(int64_t) i).value == v[v.size() - 1 - i];
    CHECKM(ok, "the history holds what was committed, the latest first");
    const int32_t a = sym<int32_t>("a");
    CHECKM(s.modifySetting([&](const int32_t &old) { return old ^ a; }), "a modification succeeds");
    CHECKM(*s.get().value == (v.back() ^ a) && *s.get(-1).value == v.back(), "a modification starts from the latest");
    REACH("done");
}
// reading a setting keeps it (and, since they expire oldest first, the ones after it)
HARNESS(h_tx_touch) {
    SettingBase<int32_t, int32_t, Tok, 16, seconds, 100, 100> s;
    s.commit(1);
    s.commit(2);
    uint64_t access[3] = {}, t = symLazy("first", 0, 200, 16);
    s_s += t;
    const int k = (int) symRange("read", 0, 3); // by index, or by time
    if (k < 3) CHECKM(*s.get(-k).value == 2 - k, "the value of that index");
    else CHECKM(*s.get(Clock::now()).value == 2, "the value of that time");
    access[k < 3 ? 2 - k : 2] = t;
    const uint64_t d = symLazy("second", 0, 200, 16);
    t += d;
    s_s += d;
    s.retireExpired();
    unsigned first = 0;
    while (first < 2 && symx_branch(access[first] + 100 < t)) first++;
    CHECKM(s.nHistory() == 3 - first, "settings expire oldest first, when they were not read for the time-out");
    bool ok = true;
    for (unsigned i = first; i < 3; i++) ok &= *s.get((int64_t) i - 2).value == (int32_t) i;
    CHECKM(ok, "the others stay");
    if (first == 0) REACH("kept"); else REACH("expired");
}
