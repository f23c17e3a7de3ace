// P33: settings per timing context
#include <chrono>
#include <Transactions.hpp>
#include "common.h"
using namespace opencmw;
using Clock = std::chrono::system_clock;
using std::chrono::nanoseconds;
#ifndef NCTX
#define NCTX 2
#endif
static uint64_t s_ns = 1000000000ull; // the clock
extern "C" uint64_t symx_clock_ns() { return s_ns; }
#ifdef NATIVE_REPLAY
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration((int64_t) symx_clock_ns())); }
#endif
// a token without text (the token type is the user's)
struct Tok {
    int id = 0;
    bool empty() const { return id == 0; }
    bool operator==(const Tok &) const = default;
};
// settings per context: the most specific one committed applies
static TimingCtx ctx(int level, int bits) {
    auto f = [&](int i) { return i < level ? (bits >> i) & 1 : -1; };
    return TimingCtx(f(0), f(1), f(2), f(3));
}
static bool covers(int level, int bits, int full) { return ((bits ^ full) & ((1 << level) - 1)) == 0; }
HARNESS(h_tx_ctx) {
    CtxSetting<int32_t, Tok, 16> s;
    struct C { int level, bits; int32_t value; };
    std::vector<C> ref;
    const int n = (int) symRange("n", 0, NCTX);
    for (int k = 0; k < n; k++) {
        const int level = (int) symRange("level", 0, 4), bits = level ? (int) symRange("bits", 0, 1) << (level - 1) : 0;
        const int32_t v = sym<int32_t>("v");
        CHECKM(s.commit(ctx(level, bits), int32_t(v)).isCommitted, "a commit succeeds");
        std::erase_if(ref, [&](auto &c) { return c.level == level && c.bits == bits; });
        ref.push_back({ level, bits, v });
    }
    CHECKM(s.nCtxHistory() == ref.size(), "one setting per context");
    if (symRange("expiry", 0, 1)) s.retireExpired(); // time-outs are disabled: nothing changes
    if (symRange("retire", 0, 1) && !ref.empty()) {
        CHECKM(s.template retire<true>(ctx(ref[0].level, ref[0].bits)), "a setting can be withdrawn");
        ref.erase(ref.begin());
        CHECKM(s.nCtxHistory() == ref.size() && *s.get(ctx(4, 0), -1).settingValue.value >= INT32_MIN, "one setting per context");
        REACH("retired");
    }
    for (int full = 0; full < 16; full += 5) {
        const C *want = nullptr;
        for (auto &c : ref) if (covers(c.level, c.bits, full) && (!want || c.level > want->level)) want = &c;
        const auto r = s.get(ctx(4, full));
        CHECKM(*r.settingValue.value == (want ? want->value : 0), "the most specific setting that covers the context applies");
        CHECKM(r.timingCtx == ctx(want ? want->level : 0, full), "the context it is for");
    }
    REACH("done");
}
HARNESS(h_tx_ctx_tx) {
    CtxSetting<int32_t, Tok, 16> s;
    const int32_t a = sym<int32_t>("a"), b = sym<int32_t>("b"), c = sym<int32_t>("c");
    s.commit(TimingCtx(1), int32_t(a));
    CHECKM(!s.stage(TimingCtx(1), int32_t(b), Tok{ 1 }).isCommitted && !s.stage(TimingCtx(2), int32_t(c), Tok{ 2 }).isCommitted, "staged");
    auto old = s.get(TimingCtx(1));
    CHECKM(*old.settingValue.value == a && *s.get(TimingCtx(2)).settingValue.value == 0, "what is staged does not apply");
    CHECKM(s.commit(Tok{ 1 }).isCommitted, "commit");
    CHECKM(*s.get(TimingCtx(1)).settingValue.value == b && *s.get(TimingCtx(2)).settingValue.value == 0, "what is committed applies");
    CHECKM(s.commit().isCommitted && *s.get(TimingCtx(2)).settingValue.value == c && !s.commit(Tok{ 1 }).isCommitted, "all that is staged");
    for (int i = 0; i < 20; i++) s.commit(TimingCtx(1), int32_t(i));
    CHECKM(*old.settingValue.value == a, "a setting read stays as it was");
    CHECKM(*s.get(TimingCtx(2)).settingValue.value == c, "commits for one context leave the others");
    CHECKM(!s.template retire<true>(TimingCtx(3)) && s.template retire<false>(TimingCtx()) && s.nCtxHistory() == 0, "withdrawing all");
    REACH("done");
}
// per context, only what was not used for the time-out expires
HARNESS(h_tx_ctx_expire) {
    static constexpr int TO = 500;
    CtxSetting<int32_t, Tok, 16, nanoseconds, TO> s;
    const auto    base = Clock::now();
    const int32_t a = sym<int32_t>("a"), b = sym<int32_t>("b");
    s.commit(TimingCtx(1), int32_t(a));
    int used1 = 0;
    const int d = (int) symLazy("d", 0, 1000, 16);
    s_ns += (uint64_t) d;
    s.commit(TimingCtx(2), int32_t(b));
    if (symRange("look", 0, 1)) {
        const int e = (int) symLazy("e", 0, 1000, 16);
        s_ns += (uint64_t) e;
        CHECKM(*s.get(TimingCtx(1)).settingValue.value == a, "committed");
        used1 = d + e;
    }
    const int now = (int) symLazy("now", 0, 4000, 16);
    s.retireExpired(base + nanoseconds(now));
    const bool have1 = used1 + TO >= now, have2 = d + TO >= now;
    CHECKM(s.nCtxHistory() == (size_t) have1 + (size_t) have2, "settings expire only when unused");
    CHECKM(*s.get(TimingCtx(1)).settingValue.value == (have1 ? a : 0), "an expired setting does not apply");
    CHECKM(*s.get(TimingCtx(2)).settingValue.value == (have2 ? b : 0), "an expired setting does not apply");
    if (have1 && have2) REACH("both"); else if (have1) REACH("first"); else if (have2) REACH("second"); else REACH("none");
}
