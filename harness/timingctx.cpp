// P13: TimingCtx -- selector parsing, matching, comparison, lazy re-evaluation
#include <TimingCtx.hpp>
#include "symx.h"
using opencmw::TimingCtx;
#ifndef N
#define N 5
#endif
#ifndef VMAX
#define VMAX 99
#endif
struct Ref { bool ok = false; int v[4] = { -1, -1, -1, -1 }; };
static int keyIndex(char c) { return c == 'C' ? 0 : c == 'S' ? 1 : c == 'P' ? 2 : c == 'T' ? 3 : -1; }
static bool eqs(std::string_view a, std::string_view b) {
    if (a.size() != b.size()) return false;
    bool r = true;
    for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
    return r;
}
// reference: what a selector text means
static Ref refParse(const std::string &in) {
    Ref         r;
    std::string s = in;
    for (char &c : s) c = (char) (c - 32 * ((c >= 'a') & (c <= 'z')));
    if (s.empty() || symx_branch(eqs(s, "ALL"))) { r.ok = true; return r; }
    std::string_view pre = "FAIR.SELECTOR.";
    if (s.size() < pre.size() || !symx_branch(eqs(std::string_view(s).substr(0, pre.size()), pre))) return r;
    std::string_view t = std::string_view(s).substr(pre.size());
    if (symx_branch(eqs(t, "ALL"))) { r.ok = true; return r; }
    size_t i = 0;
    for (;;) {
        size_t e = i;
        while (e < t.size() && !symx_branch(t[e] == ':')) e++;
        std::string_view tag = t.substr(i, e - i);
        if (tag.size() < 3 || !symx_branch(tag[1] == '=')) return r;
        if (symx_branch(tag[0] == '=')) return r;
        std::string_view v = tag.substr(2);
        int              value;
        if (symx_branch(eqs(v, "ALL"))) value = -1;
        else {
            bool   neg = symx_branch(v[0] == '-');
            size_t k   = neg ? 1 : 0;
            if (k == v.size()) return r;
            unsigned acc = 0;
            bool     dig = true;
            size_t   nd  = v.size() - k;
            for (size_t j = k; j < v.size(); j++) dig &= (unsigned char) (v[j] - '0') <= 9;
            if (!symx_branch(dig)) return r;
            if (nd > 10) return r; // (harness texts have no leading zeros in numbers this long)
            for (; k < v.size() && k < (neg ? 10u : 9u); k++) acc = acc * 10 + (unsigned char) (v[k] - '0');
            if (nd == 10) { // at most 2147483647 / 2147483648
                unsigned d = (unsigned char) (v[k] - '0');
                if (!symx_branch((acc < 214748364u) | ((acc == 214748364u) & (d <= (neg ? 8u : 7u))))) return r;
                acc = acc * 10 + d;
            }
            value = (int) (neg ? 0u - acc : acc);
        }
        int k = symx_branch(tag[0] == 'C') ? 0 : symx_branch(tag[0] == 'S') ? 1 : symx_branch(tag[0] == 'P') ? 2 : symx_branch(tag[0] == 'T') ? 3 : -1;
        if (k < 0) return r;
        r.v[k] = value;
        if (e == t.size()) break;
        i = e + 1;
    }
    r.ok = true;
    return r;
}
static void checkValues(const TimingCtx &c, const Ref &r) {
    CHECKM((c.cid() == r.v[0]) & (c.sid() == r.v[1]) & (c.pid() == r.v[2]) & (c.gid() == r.v[3]), "the four selector fields are those named in the text, wildcard where absent");
}
static void noNul(const std::string &s) { bool ok = true; for (char c : s) ok &= c != 0; ASSUME(ok); }
static void parseOne(const std::string &text) {
    Ref r = refParse(text);
    try {
        TimingCtx c(text, std::chrono::microseconds(7));
        CHECKM(r.ok, "an invalid selector is refused");
        checkValues(c, r);
        CHECK(c.bpcts.value() == 7);
        REACH("accepted");
    } catch (const std::invalid_argument &) {
        CHECKM(!r.ok, "a valid selector is accepted");
        REACH("refused");
    }
}
HARNESS(h_ctx_parse) { // any text after the prefix, in either case
    std::string text = symRange("case", 0, 1) ? "fair.selector." : "FAIR.Selector.";
    std::string tail = symString("tail", symRange("n", 0, N));
    noNul(tail);
    parseOne(text + tail);
}
HARNESS(h_ctx_plain) { // any text without the prefix
    std::string text = symString("text", symRange("n", 0, 4));
    noNul(text);
    parseOne(text);
}
HARNESS(h_ctx_prefix) { // one character of a valid selector replaced by any other
    std::string text = "FAIR.SELECTOR.C=1:S=23";
    size_t      at   = symRange("at", 0, text.size() - 1);
    text[at]         = (char) symx_sym("char", 8);
    ASSUME(text[at] != 0);
    parseOne(text);
}
HARNESS(h_ctx_number) { // numbers up to and beyond the 32 bit range
    std::string text = "FAIR.SELECTOR.P=";
    if (symRange("neg", 0, 1)) text += '-';
    size_t      shape = symRange("shape", 0, 2); // 8 digits; 10 digits around the limit; 11 digits
    std::string tail  = symString("digits", shape == 0 ? 8 : shape == 1 ? 3 : 2);
    bool        ok    = true;
    for (char c : tail) ok &= (c >= '0') & (c <= '9');
    ASSUME(ok);
    parseOne(text + (shape == 0 ? "" : shape == 1 ? "2147483" : "123456789") + tail);
}
static std::string symField(char key, const char *name, int &v) { // "" or "K=d" or "K=ALL" or "K=-1"
    switch (symRange(name, 0, 2)) {
    case 0: v = -1; return "";
    case 1: {
        char c = (char) symx_sym(name, 8);
        ASSUME((c >= '0') & (c <= '9'));
        v = c - '0';
        return std::string(1, key) + "=" + c;
    }
    default: v = -1; return std::string(1, key) + "=ALL";
    }
}
static std::string symSelector(Ref &r, int nf) {
    static const char keys[] = "CSPT";
    static const char *names[] = { "c", "s", "p", "t" };
    std::string s;
    for (int i = 0; i < nf; i++) {
        std::string f = symField(keys[i], names[i], r.v[i]);
        if (!f.empty()) s += (s.empty() ? "" : ":") + f;
    }
    return "FAIR.SELECTOR." + (s.empty() ? "ALL" : s);
}
static TimingCtx make(const std::string &sel, long ts, bool assigned) {
    if (!assigned) return TimingCtx(sel, std::chrono::microseconds(ts));
    TimingCtx c("FAIR.SELECTOR.C=8:P=8", std::chrono::microseconds(ts)); // re-evaluated lazily
    c.selector = sel;
    return c;
}
HARNESS(h_ctx_match) {
    Ref  a, b;
    int  rot = 0;
    auto sa = symSelector(a, 2), sb = symSelector(b, 2);
    long ta = (long) symx_sym("ta", 64), tb = (long) symx_sym("tb", 64);
    auto x = make(sa, ta, symRange("lazyA", 0, 1)), y = make(sb, tb, symRange("lazyB", 0, 1));
    bool m = true, eq = true;
    for (int i = 0; i < 4; i++) { m &= (b.v[i] == -1) | (a.v[i] == b.v[i]); eq &= a.v[i] == b.v[i]; }
    (void) rot;
    switch (symRange("op", 0, 4)) {
    case 0: CHECKM(x.matches(y) == m, "matches(): every field of the other selector is a wildcard or equal"); break;
    case 1: CHECKM(x.matchesWithBpcts(y) == (m & ((tb == 0) | (ta == tb))), "matchesWithBpcts(): additionally the time stamp, 0 being a wildcard"); break;
    case 2: CHECKM((x == y) == (eq & (ta == tb)), "operator==: same fields and time stamp"); REACH("eq"); break;
    case 3: {
        auto o  = x <=> y;
        int  lt = 0, gt = 0, und = 1;
        for (int i = 0; i < 4; i++) { lt |= und & (a.v[i] < b.v[i]); gt |= und & (a.v[i] > b.v[i]); und &= a.v[i] == b.v[i]; }
        lt |= und & (ta < tb); gt |= und & (ta > tb);
        CHECKM(((o < 0) == (lt != 0)) & ((o > 0) == (gt != 0)), "operator<=> orders by the fields, then by time stamp, and agrees with ==");
        break;
    }
    case 4: if (symx_branch(eq & (ta == tb))) { CHECKM(x.hash() == y.hash(), "equal contexts have equal hashes"); REACH("hash"); } break;
    }
}
HARNESS(h_ctx_four) { // all four fields, written and read back
    Ref a;
    auto sa = symSelector(a, 4);
    TimingCtx x(sa);
    checkValues(x, a);
    std::string out = x.toString();
    TimingCtx   y(out);
    checkValues(y, a);
    TimingCtx z(a.v[0], a.v[1], a.v[2], a.v[3]);
    checkValues(z, a);
    CHECKM(x == z, "a context built from numbers equals the one built from text");
    REACH("done");
}
HARNESS(h_ctx_ints) { // construction from numbers
    int  v[4] = { -1, -1, -1, -1 };
    int  k    = (int) symRange("k", 0, 3);
    v[k]      = (int16_t) symx_sym("value", 16);
    ASSUME((v[k] >= -9) & (v[k] <= (VMAX)));
    v[(k + 1) % 4] = symRange("other", 0, 1) ? 12 : -1;
    long      ts = (long) symx_sym("ts", 64);
    TimingCtx c(v[0], v[1], v[2], v[3], std::chrono::microseconds(ts));
    CHECK((c.cid() == v[0]) & (c.sid() == v[1]) & (c.pid() == v[2]) & (c.gid() == v[3]) & (c.bpcts.value() == ts));
    TimingCtx d(c.toString(), std::chrono::microseconds(ts));
    CHECKM(c == d, "toString() is a selector for the same context");
    REACH("done");
}
HARNESS(h_ctx_change) { // a history of selector changes, valid or not: what is read is always the current text
    static const char *texts[] = { "FAIR.SELECTOR.C=1:S=2", "FAIR.SELECTOR.T=5", "all", "", "FAIR.SELECTOR.C=1:S=", "FAIR.SELECTOR.P=3:X=1", "OTHER.C=1", "FAIR.SELECTOR.S=9:C=x", "FAIR.SELECTOR.ALL" };
    TimingCtx          c("FAIR.SELECTOR.P=7");
    for (int step = 0; step < 3; step++) {
        std::string t = texts[symRange("text", 0, 8)];
        c.selector    = t;
        Ref r         = refParse(t);
        for (int k = 0; k < 2; k++) {
            bool threw = false;
            try { checkValues(c, r); } catch (const std::invalid_argument &) { threw = true; }
            CHECKM(threw == !r.ok, "reading a context throws exactly if its current selector is invalid, every time");
        }
    }
    REACH("done");
}
HARNESS(h_ctx_bad_text) { // a selector that became invalid is reported by an exception, not by terminating the process
    TimingCtx c("FAIR.SELECTOR.P=7");
    c.selector = symRange("which", 0, 1) ? "FAIR.SELECTOR.Q=1" : "NONE";
    bool threw = false;
    try {
        switch (symRange("op", 0, 4)) {
        case 0: (void) c.toString(); break;
        case 1: (void) c.hash(); break;
        case 2: (void) std::hash<TimingCtx>{}(c); break;
        case 3: (void) c.matches(TimingCtx()); break;
        case 4: (void) (TimingCtx() == c); break;
        }
    } catch (const std::invalid_argument &) { threw = true; }
    CHECK(threw);
    REACH("done");
}
HARNESS(h_ctx_collision) { // long numbers: the change detection must not confuse two selectors
    std::string a = "FAIR.SELECTOR.C=", b = a, da = symString("a", 8), db = symString("b", 8);
    bool        ok = true;
    for (char c : da + db) ok &= (c >= '1') & (c <= '9');
    ASSUME(ok);
    TimingCtx c(a + da);
    c.selector = b + db;
    unsigned want = 0;
    for (char ch : db) want = want * 10 + (unsigned char) (ch - '0');
    CHECKM(c.cid() == (int) want, "after the selector changed, the new value is read (selector hash collision)");
}
