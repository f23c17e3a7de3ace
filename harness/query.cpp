// P29: query serialiser -- a context written as query parameters and read back is the same context;
// a field that cannot be read keeps its default and does not disturb the others
#include <QuerySerialiser.hpp>
#include "common.h"
using namespace opencmw;
using query::QueryMap;
#ifndef NQ
#define NQ 4
#endif
struct Ctx {
    std::string    text        = "dflt";
    int32_t        num         = -7;
    bool           flag        = false;
    MIME::MimeType contentType = MIME::HTML;
    TimingCtx      ctx;
    uint8_t        small = 3;
};
ENABLE_REFLECTION_FOR(Ctx, text, num, flag, contentType, ctx, small)
static bool eq(const Ctx &a, const Ctx &b) {
    return same(a.text, b.text) & (a.num == b.num) & (a.flag == b.flag) & same(a.contentType.typeName(), b.contentType.typeName())
         & (a.ctx.cid() == b.ctx.cid()) & (a.ctx.sid() == b.ctx.sid()) & (a.ctx.pid() == b.ctx.pid()) & (a.ctx.gid() == b.ctx.gid()) & (a.small == b.small);
}
static Ctx trip(const Ctx &a) {
    const QueryMap m = query::serialise(a);
    CHECKM(m.size() == 5u + (a.flag ? 1 : 0), "one parameter per field, none for a flag that is not set");
    CHECKM(!a.flag || (m.contains("flag") && !m.at("flag")), "a flag that is set is a parameter without a value");
    return query::deserialise<Ctx>(m);
}
HARNESS(h_query_text) {
    Ctx a;
    a.text  = symString("text", symRange("len", 0, NQ));
    a.flag  = symRange("flag", 0, 1);
    a.small = sym<uint8_t>("small");
    CHECKM(eq(trip(a), a), "a context written and read back is the same context");
    REACH("done");
}
HARNESS(h_query_num) {
    Ctx a;
    switch (symRange("kind", 0, 3)) {
    case 0: a.num = sym<int16_t>("n"); break;
    case 1: a.num = std::numeric_limits<int32_t>::max() - sym<uint8_t>("n"); break;
    case 2: a.num = std::numeric_limits<int32_t>::min() + sym<uint8_t>("n"); break;
    default: a.num = 1'000'000'000 - 128 + sym<uint8_t>("n");
    }
    CHECKM(eq(trip(a), a), "a context written and read back is the same context");
    REACH("done");
}
HARNESS(h_query_mime) {
    Ctx a;
    a.contentType = MIME::ALL[symRange("type", 0, MIME::ALL.size() - 1)];
    CHECKM(eq(trip(a), a), "a context written and read back is the same context");
    CHECKM(query::getMimeType(a) == a.contentType, "the type of the content is that of the context");
    REACH("done");
}
HARNESS(h_query_ctx) {
    auto v = [](const char *n) { return symRange(n, 0, 1) ? (int32_t) symLazy(n, 0, 9, 32) : -1; };
    Ctx  a;
    a.ctx = symRange("which", 0, 1) ? TimingCtx(v("c"), v("s"), -1, 7) : TimingCtx(8, -1, v("p"), v("t"));
    CHECKM(eq(trip(a), a), "a context written and read back is the same context");
    REACH("done");
}
struct OnByDefault { bool on = true; };
ENABLE_REFLECTION_FOR(OnByDefault, on)
HARNESS(h_query_default_true) { // known finding F04
    OnByDefault a;
    a.on   = symRange("on", 0, 1);
    auto b = query::deserialise<OnByDefault>(query::serialise(a));
    CHECKM(a.on == b.on, "a flag that is set by default comes back");
    REACH("done");
}
// one field carries arbitrary text (or no value at all, or is absent), the others are as written: they come back, and the one field
// either takes what its text says or keeps its default
static QueryMap full(Ctx &want) {
    want.text = "T"; want.num = 42; want.flag = true; want.contentType = MIME::JSON; want.ctx = TimingCtx(1, 2, 3, 4); want.small = 9;
    QueryMap m = query::serialise(want);
    m["unknown"] = "foreign";
    m["num2"]    = std::nullopt;
    return m;
}
template<class T> static bool number(std::string_view s, T &out) { // reference
    size_t k = 0;
    bool   neg = false;
    if (std::is_signed_v<T> && !s.empty() && symx_branch(s[0] == '-')) { neg = true; k = 1; }
    if (k == s.size()) return false;
    bool    dig = true;
    int64_t v   = 0;
    for (; k < s.size(); k++) { dig &= (unsigned char) (s[k] - '0') <= 9; v = v * 10 + (s[k] - '0'); }
    if (neg) v = -v;
    if (!symx_branch(dig & (v >= (int64_t) std::numeric_limits<T>::min()) & (v <= (int64_t) std::numeric_limits<T>::max()))) return false;
    out = (T) v;
    return true;
}
HARNESS(h_query_one_field) {
    Ctx         want;
    const Ctx   dflt;
    QueryMap    m     = full(want);
    const int   how   = (int) symRange("how", 0, 2); // absent, without value, with text
    std::string s     = how == 2 ? symString("value", symRange("len", 0, NQ)) : std::string();
    const char *names[] = { "text", "num", "flag", "small" };
    const int   f     = (int) symRange("field", 0, 3);
    if (how == 0) m.erase(names[f]);
    else m[names[f]] = how == 1 ? std::nullopt : std::optional<std::string>(s);
    bool took = false;
    switch (f) {
    case 0: want.text = (took = how == 2) ? s : dflt.text; break;
    case 1: want.num = dflt.num; took = how == 2 && number(s, want.num); break;
    case 2:
        want.flag = dflt.flag;
        if (how == 1) { want.flag = true; took = true; }
        if (how == 2 && symx_branch(same(s, "true"))) { want.flag = true; took = true; }
        if (how == 2 && symx_branch(same(s, "false"))) { want.flag = false; took = true; }
        break;
    default: want.small = dflt.small; took = how == 2 && number(s, want.small);
    }
    CHECKM(eq(query::deserialise<Ctx>(m), want), "one field takes what its text says or keeps its default, the others are read");
    if (took) REACH("read"); else REACH("default");
}
HARNESS(h_query_false) {
    Ctx      want;
    QueryMap m = full(want);
    m["flag"]  = symRange("v", 0, 1) ? "true" : "false";
    want.flag  = m["flag"] == "true";
    CHECKM(eq(query::deserialise<Ctx>(m), want), "a flag given as text");
    m["ctx"] = symRange("ctx", 0, 1) ? std::optional<std::string>("FAIR.SELECTOR.X=1") : std::nullopt;
    m["contentType"] = std::nullopt;
    want.ctx = TimingCtx();
    want.contentType = Ctx().contentType;
    CHECKM(eq(query::deserialise<Ctx>(m), want), "an invalid selector and a content type without value leave the defaults");
    REACH("done");
}
struct Two { int32_t x = 0; MIME::MimeType a = MIME::CSS; std::string s; MIME::MimeType b = MIME::JSON; };
ENABLE_REFLECTION_FOR(Two, x, a, s, b)
struct None { int32_t x = 0; std::string s; };
ENABLE_REFLECTION_FOR(None, x, s)
struct Registrar {
    std::vector<std::pair<std::string, int>> seen;
    template<class F> void addFilter(const std::string &key) {
        seen.emplace_back(key, std::is_same_v<F, NumberFilter<int32_t>> ? 1 : std::is_same_v<F, NumberFilter<uint8_t>> ? 2 : std::is_same_v<F, TimingCtxFilter> ? 3 : std::is_same_v<F, DomainFilter<std::string_view>> ? 4 : 0);
    }
};
HARNESS(h_query_meta) {
    Two t;
    t.a = MIME::ALL[symRange("a", 0, 2) * 7];
    t.b = MIME::ALL[symRange("a2", 0, 1) * 20];
    CHECKM(query::getMimeType(t) == t.a, "the first content type of the context counts");
    CHECKM(query::getMimeType(None{}) == MIME::UNKNOWN, "a context without content type has an unknown one");
    Registrar r;
    query::registerTypes(Ctx(), r);
    std::vector<std::pair<std::string, int>> want{ { "text", 4 }, { "num", 1 }, { "flag", 4 }, { "contentType", 4 }, { "ctx", 3 }, { "small", 2 } };
    CHECKM(r.seen == want, "every field registers the filter of its type");
    REACH("done");
}
