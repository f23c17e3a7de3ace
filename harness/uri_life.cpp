// P07 (copies, moves, assignments), P08 (factory)
#include "uri_ref.h"
#include <functional>
#include <memory>
#ifdef THOROUGH
#define NOPS 3
#define KL 2
#else
#define NOPS 2
#define KL 1
#endif
static bool same(const std::string &a, const std::string &b) {
    if (a.size() != b.size()) return false;
    bool r = true;
    for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
    return r;
}
static bool same(const std::optional<std::string> &a, const std::optional<std::string> &b) { return a.has_value() == b.has_value() && (!a || same(*a, *b)); }
// a URI whose components are individually present or absent; 'pad' moves the text over the small-string limit
// (letters of the form are arbitrary alphanumeric characters, digits arbitrary digits)
static std::string text(const char *name, unsigned which, size_t pad) {
    static const char *forms[] = { "", "a://u:w@h:1/p?k=v#f", "a://h/p", "/p?x", "a://u@h", "#f", "b://[::1]:22?q&r=2", "a:/p" };
    std::string s = forms[which];
    std::string v = symString(name, s.size());
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] >= '0' && s[i] <= '9') { ASSUME(refDigit(v[i])); s[i] = v[i]; }
        else if (s[i] >= 'a' && s[i] <= 'z') { ASSUME(refAlnum(v[i])); s[i] = v[i]; }
    }
    if (pad && !s.empty()) s.append(pad, 'z');
    return s;
}
template<class U> static void agrees(const U &u, const std::string &s) { // u behaves like a freshly parsed URI of s
    U f(s);
    CHECKM(same(u.str(), s), "str()");
    CHECKM(same(u.scheme(), f.scheme()), "scheme()");
    CHECKM(same(u.authority(), f.authority()), "authority()");
    CHECKM(same(u.user(), f.user()), "user()");
    CHECKM(same(u.password(), f.password()), "password()");
    CHECKM(same(u.hostName(), f.hostName()), "hostName()");
    CHECKM(u.port() == f.port(), "port()");
    CHECKM(same(u.path(), f.path()), "path()");
    CHECKM(same(u.queryParam(), f.queryParam()), "queryParam()");
    CHECKM(same(u.fragment(), f.fragment()), "fragment()");
    const auto &m = u.queryParamMap(), &fm = f.queryParamMap();
    CHECKM(m.size() == fm.size(), "queryParamMap() size");
    for (const auto &[k, v] : fm) { auto it = m.find(k); CHECKM(it != m.end(), "queryParamMap() key"); CHECKM(same(it->second, v), "queryParamMap() value"); }
    CHECKM(u == f && !(u != f), "comparison");
    CHECKM(std::hash<U>{}(u) == std::hash<U>{}(f), "equal URIs hash alike");
}
template<class U> static void touch(const U &u, unsigned how) { // lazily computed state of an object before it is copied or overwritten
    if (how & 1) { (void) u.user(); (void) u.port(); }
    if (how & 2) (void) u.queryParamMap();
}
// one operation on two URIs with arbitrary parsing state
HARNESS(h_ops) {
    std::string sa = text("textA", (unsigned) symRange("a", 0, 7), symRange("padA", 0, 1) * 20), sb = text("textB", (unsigned) symRange("b", 0, 7), symRange("padB", 0, 1) * 20);
    using U = URI<STRICT>;
    auto a = std::make_unique<U>(sa), b = std::make_unique<U>(sb);
    touch(*a, (unsigned) symRange("touchA", 0, 3));
    touch(*b, (unsigned) symRange("touchB", 0, 3));
    switch (symRange("op", 0, 4)) {
    case 0: *a = *b; agrees(*b, sb); b.reset(); agrees(*a, sb); REACH("copy-assign"); break;
    case 1: *a = std::move(*b); b.reset(); agrees(*a, sb); REACH("move-assign"); break;
    case 2: { U c(*b); agrees(*b, sb); b.reset(); agrees(c, sb); agrees(*a, sa); REACH("copy"); break; }
    case 3: { U c(std::move(*b)); b.reset(); agrees(c, sb); REACH("move"); break; }
    default: { U &r = *a; *a = r; agrees(*a, sa); REACH("self"); break; }
    }
}
// longer histories: three operations over three objects, then every object behaves like a fresh parse of its text
HARNESS(h_history) {
    using U = URI<RELAXED>;
    std::string s[3] = { text("text0", (unsigned) symRange("t0", 1, 3), 0), text("text1", 4, 0), text("text2", 6, symRange("pad", 0, 1) * 20) };
    std::unique_ptr<U> o[3];
    bool moved[3] = { false, false, false };
    for (int i = 0; i < 3; i++) o[i] = std::make_unique<U>(s[i]);
    for (int k = 0; k < NOPS; k++) {
        unsigned d = (unsigned) symRange("dst", 0, 2), e = (unsigned) symRange("src", 0, 1);
        unsigned src = e < d ? e : e + 1;
        touch(*o[d], (unsigned) symRange("touch", 0, 1));
        if (moved[src]) { *o[src] = U("/new?k#f"); s[src] = "/new?k#f"; moved[src] = false; } // a moved-from object may be assigned to
        if (symRange("move", 0, 1)) { *o[d] = std::move(*o[src]); s[d] = s[src]; moved[d] = false; moved[src] = true; }
        else { *o[d] = *o[src]; s[d] = s[src]; moved[d] = false; }
    }
    for (int i = 0; i < 3; i++) if (!moved[i]) agrees(*o[i], s[i]);
    REACH("history");
}
// arbitrary text: a copy reads like the original
HARNESS(h_copy_text) {
    std::string  s = symReference(symRange("n", 0, 4));
    auto         a = std::make_unique<URI<RELAXED>>(s);
    URI<RELAXED> c(*a), m("/");
    m = *a;
    a.reset();
    Ref r = refParse(s);
    checkComponents(c, s, r);
    checkComponents(m, s, r);
    refAuthority(s, r);
    checkAuthority(c, s, r);
    checkAuthority(m, s, r);
    REACH("text");
}
// comparison is that of the texts
HARNESS(h_compare) {
    std::string  x = symStringUpTo("x", "nx", 1, 3), y = symStringUpTo("y", "ny", 1, 3);
    URI<RELAXED> a("/" + x), b("/" + y);
    std::string  fx = "/" + x, fy = "/" + y;
    CHECKM((a == b) == (fx == fy), "== compares the texts");
    CHECKM((a < b) == (fx < fy), "< compares the texts");
    if (a == b) CHECKM(std::hash<URI<RELAXED>>{}(a) == std::hash<URI<RELAXED>>{}(b), "hash");
    REACH("compare");
}

// ---- P08: factory
template<class F> static std::string word(const char *name, const char *len, size_t lo, size_t hi, F ok) {
    std::string s = symStringUpTo(name, len, lo, hi);
    for (char c : s) ASSUME(ok(c));
    return s;
}
static std::optional<std::string> opt(const std::string &s) { return s.empty() ? std::nullopt : std::optional<std::string>(s); }
static bool nameChar(char c) { return refAlnum(c) | isIn(c, ".-_*"); }
static bool pathChar(char c) { return refAlnum(c) | isIn(c, ".-_/"); }
HARNESS(h_factory) {
    std::string sch = word("scheme", "schemeLen", 1, 2, refAlnum);
    std::string usr = word("user", "userLen", 0, KL, nameChar), pwd = word("password", "passwordLen", 0, 1, nameChar);
    std::string hst = word("host", "hostLen", 1, KL, nameChar);
    bool        hasPort = symRange("hasPort", 0, 1);
    uint16_t    port = hasPort ? (uint16_t) symRange("port", 9, 10) : 0;
    std::string pth = word("path", "pathLen", 0, 2, pathChar);
    std::string qry = word("query", "queryLen", 0, 1, refAlnum);
    std::string frg = word("fragment", "fragmentLen", 0, 1, refUnreserved);
    auto f = URI<STRICT>::factory().scheme(sch).user(usr).password(pwd).hostName(hst).path(pth).queryParam(qry).fragment(frg);
    if (hasPort) std::move(f).port(port);
    auto u = f.build();
    CHECKM(same(u.scheme(), opt(sch)), "scheme");
    CHECKM(same(u.user(), opt(usr)), "user");
    CHECKM(same(u.password(), usr.empty() ? std::nullopt : opt(pwd)), "password");
    CHECKM(same(u.hostName(), opt(hst)), "host");
    CHECKM(u.port() == (hasPort ? std::optional<uint16_t>(port) : std::nullopt), "port");
    std::string ep = pth.empty() || symx_branch(pth[0] == '/') ? pth : "/" + pth;
    CHECKM(same(u.path(), opt(ep)), "path");
    CHECKM(same(u.queryParam(), opt(qry)), "query");
    CHECKM(same(u.fragment(), opt(frg)), "fragment");
    CHECKM(same(f.toString(), u.str()), "toString() twice gives the same text");
    // parse -> factory -> text is the identity
    CHECKM(same(URI<STRICT>::factory(u).toString(), u.str()), "factory(uri).toString() == uri.str()");
    REACH("factory");
}
HARNESS(h_factory_port) { // every port number survives
    uint16_t port = sym<uint16_t>("port");
    auto     u = URI<STRICT>::factory().scheme("mdp").hostName("h").port(port).path("/p").build();
    CHECKM(u.port().has_value(), "port is present");
    CHECKM(*u.port() == port, "port value");
    CHECKM(u.hostName() == std::optional<std::string>("h"), "host");
    CHECKM(URI<STRICT>::factory(u).toString() == u.str(), "identity");
    REACH("port");
}
HARNESS(h_factory_query) { // parameters added one by one are what the built URI reports
    std::string k1 = symStringUpTo("k1", "k1Len", 1, KL), k2 = symStringUpTo("k2", "k2Len", 1, 1), v1 = symStringUpTo("v1", "v1Len", 1, KL);
    bool        has2 = symRange("has2", 0, 1);
    auto f = URI<STRICT>::factory().scheme("s").hostName("h").path("p").addQueryParameter(k1, v1);
    if (has2) std::move(f).addQueryParameter(k2);
    auto u = f.build();
    const auto &m = u.queryParamMap();
    bool eq = has2 && symx_branch(same(k1, k2));
    CHECKM(m.size() == (has2 && !eq ? 2u : 1u), "number of parameters");
    auto i1 = m.find(k1);
    CHECKM(i1 != m.end(), "first key is present");
    if (!eq) CHECKM(same(i1->second, std::optional<std::string>(v1)), "value of the first key");
    if (has2) { auto i2 = m.find(k2); CHECKM(i2 != m.end() && !i2->second, "second key has no value"); }
    CHECKM(same(f.toString(), u.str()), "toString() is repeatable");
    REACH("query");
}
HARNESS(h_factory_identity) { // factory(uri) of any accepted URI (fragment of unreserved characters) reproduces it
    std::string s = symReference(symRange("n", 0, 5));
    Ref r = refParse(s);
    ASSUME(r.valid);
    ASSUME(r.aE > r.aB || !(r.sE > 0 && r.aE >= 2 && r.aB >= r.sE + 3)); // "s://" with an empty authority is reassembled as "s:"
    for (size_t i = r.fB; i < r.fE; i++) ASSUME(refUnreserved(s[i]));
    ASSUME(r.sE > 0 || s.empty() || s[0] != ':');
    if (r.qB > r.pE) ASSUME(r.qE > r.qB);                      // a bare '?' is not reproduced
    if (r.fB > r.qE && r.fB <= s.size() && r.fE == r.fB) ASSUME(s.empty() || s[s.size() - 1] != '#'); // nor a bare '#'
    if (r.qE > r.qB) ASSUME(s[r.qB] != '?');
    URI<STRICT> u(s);
    if (symRange("touched", 0, 1)) { (void) u.user(); (void) u.hostName(); (void) u.port(); }
    CHECKM(same(URI<STRICT>::factory(u).toString(), s), "factory(uri).toString() == uri.str()");
    REACH("identity");
}
