// P15: filters and subscription matching; P16: RBAC token
#include <majordomo/SubscriptionMatcher.hpp>
#include <MIME.hpp>
#include "common.h"
using namespace opencmw;
using mdp::Topic;
using majordomo::SubscriptionMatcher;
// reference for a decimal number in the grammar of std::from_chars: optional '-', digits
template<class T>
static bool refNumber(std::string_view s, long &v) {
    if (s.empty()) return false;
    size_t k   = 0;
    bool   neg = symx_branch(s[0] == '-');
    if (neg) k = 1;
    if (k == s.size()) return false;
    bool dig = true;
    for (size_t i = k; i < s.size(); i++) dig &= (unsigned char) (s[i] - '0') <= 9;
    if (!symx_branch(dig)) return false;
    unsigned acc = 0;
    for (size_t i = k; i < s.size(); i++) acc = acc * 10 + (unsigned char) (s[i] - '0');
    v = neg ? -(long) acc : (long) acc;
    return symx_branch((v >= (long) std::numeric_limits<T>::min()) & (v <= (long) std::numeric_limits<T>::max()));
}
template<class T>
static void numbers() {
    std::string a = symString("notified", symRange("na", 0, 3)), b = symString("subscribed", symRange("nb", 0, 3));
    long        x = 0, y = 0;
    bool        okA = refNumber<T>(a, x), okB = refNumber<T>(b, y);
    bool        r = NumberFilter<T>()(a, b);
    CHECKM(r == (okA & okB & (x == y)), "NumberFilter accepts exactly two texts of the same number");
    if (okA & okB) REACH("numbers"); else REACH("invalid");
}
HARNESS(h_filter_int) { numbers<int>(); }
HARNESS(h_filter_int8) { numbers<int8_t>(); }
HARNESS(h_filter_range) { // numbers beyond the range
    std::string a = symString("digits", 3), big = "2147483";
    bool        ok = true;
    for (char c : a) ok &= (c >= '0') & (c <= '9');
    ASSUME(ok);
    unsigned v = 0;
    for (char c : a) v = v * 10 + (unsigned char) (c - '0');
    bool fits = v <= 647;
    NumberFilter<int> f;
    bool r1 = f(big + a, big + a);
    CHECKM(r1 == fits, "a number matches itself exactly if it is one");
    CHECKM(!f(big + a, "0") & !f("0", big + a), "a number out of range does not match another one");
    REACH("done");
}
HARNESS(h_parse_number) {
    std::string a = symString("text", symRange("n", 0, 4));
    long        x = 0;
    int8_t      out = 5;
    std::errc   rc  = parseNumber(a, out);
    bool        ok  = refNumber<int8_t>(a, x);
    CHECKM((rc == std::errc{}) == ok, "parseNumber succeeds exactly for a number in range that makes up the whole text");
    if (ok) { CHECKM(out == x, "parseNumber yields the number"); REACH("number"); } else REACH("invalid");
}
HARNESS(h_filter_ctx) { // timing selectors: notified and subscribed
    auto sel = [](const char *n, int *v) {
        std::string s;
        static const char *keys = "CS";
        for (int i = 0; i < 2; i++) {
            v[i] = -1;
            if (symRange(n, 0, 1)) {
                char c = (char) symx_sym(n, 8);
                ASSUME((c >= '0') & (c <= '9'));
                v[i] = c - '0';
                s += (s.empty() ? "" : ":") + std::string(1, keys[i]) + "=" + c;
            }
        }
        return "FAIR.SELECTOR." + (s.empty() ? "ALL" : s);
    };
    int         a[2], b[2];
    std::string n = sel("n", a), s = sel("s", b);
    bool        want = ((b[0] == -1) | (a[0] == b[0])) & ((b[1] == -1) | (a[1] == b[1]));
    CHECKM(TimingCtxFilter()(n, s) == want, "the timing filter accepts exactly what the subscribed selector covers");
    CHECKM(!TimingCtxFilter()("FAIR.SELECTOR.Q=1", s) & !TimingCtxFilter()(n, "x"), "an invalid selector matches nothing");
    REACH("done");
}
struct Rec : AbstractFilter { // arbitrary filter: the answer is any function of the two values
    static inline uint8_t table[3][3];
    static int idx(std::string_view s) { return s.empty() ? 0 : 1 + (s[0] - 'a'); }
    bool operator()(std::string_view n, std::string_view s) const override { return table[idx(n)][idx(s)]; }
};
static const char *svc[] = { "/s", "/s/t" }, *keys[] = { "k", "m", "z" };
struct Q { int state[3]; }; // per key: 0 absent, 1 no value, 2.. value 'a','b'
static Topic build(const char *n, Q &q, int &service, int maxState) {
    service = (int) symRange(n, 0, 1);
    Topic::Params p;
    for (int i = 0; i < 3; i++) {
        q.state[i] = (int) symRange(n, 0, i == 2 ? 1 : maxState);
        if (q.state[i] == 1) p[keys[i]] = std::nullopt;
        else if (q.state[i] > 1) p[keys[i]] = std::string(1, (char) ('a' + q.state[i] - 2));
    }
    return Topic::fromString(svc[service], p);
}
HARNESS(h_match) { // two registered keys with arbitrary filters, one unregistered
    for (auto &r : Rec::table) for (auto &x : r) x = (uint8_t) symx_sym("accepts", 1);
    SubscriptionMatcher m;
    m.addFilter<Rec>("k");
    m.addFilter<Rec>("m");
    Q   nq, sq;
    int ns, ss;
    Topic n = build("notified", nq, ns, 2), s = build("subscribed", sq, ss, 2);
    bool want = ns == ss;
    for (int i = 0; i < 2; i++) {
        if (sq.state[i] == 0) continue;
        if (nq.state[i] == 0) { want = false; continue; }
        want &= Rec::table[nq.state[i] - 1][sq.state[i] - 1] != 0;
    }
    CHECKM(m(n, s) == want, "delivered exactly if the service is the same and every subscribed parameter with a filter is present and accepted");
    REACH("done");
}
HARNESS(h_match_content) { // real filters, arbitrary values
    SubscriptionMatcher m;
    m.addFilter<ContentTypeFilter>("contentType");
    m.addFilter<NumberFilter<int>>("n");
    std::string a = symString("a", 2), b = symString("b", 2);
    Topic n = Topic::fromString("/s", { { "contentType", a }, { "other", "1" } }), s = Topic::fromString("/s", { { "contentType", b } });
    CHECKM(m(n, s) == same(a, b), "content types are compared exactly");
    CHECKM(m(n, Topic::fromString("/s")), "a subscriber without parameters gets everything of the service");
    CHECKM(!m(Topic::fromString("/s"), s), "a required parameter that is missing: not delivered");
    CHECKM(m(Topic::fromString("/s"), Topic::fromString("/s", { { "unregistered", b } })), "parameters without filter are ignored");
    REACH("done");
}
