// P03 (split), P04 (validation): src/core/include/URI.hpp
#include "uri_ref.h"
#ifndef N
#define N 6
#endif
static std::string input() { return symReference(symRange("n", 0, N)); }
HARNESS(h_split_relaxed) {
    std::string s = input();
    URI<RELAXED> u(s);
    checkComponents(u, s, refParse(s));
    REACH("parsed");
}
HARNESS(h_split_strict) {
    std::string s = input();
    Ref  r = refParse(s);
    try {
        URI<STRICT> u(s);
        CHECKM(r.valid, "STRICT accepts only the permitted characters per component");
        checkComponents(u, s, r);
        REACH("parsed");
    } catch (const URISyntaxException &) {
        CHECKM(!r.valid, "STRICT rejects only texts with a forbidden character");
        REACH("rejected");
    }
}
// longer references assembled from components: every combination of present/absent components, lengths on both sides of the small-string limit
template<class F> static std::string comp(const char *name, const char *len, size_t big, F ok) {
    static constexpr size_t L[3] = { 0, 1, 0 };
    size_t      k = symRange(len, 0, 2);
    size_t      n = k == 2 ? big : L[k];
    std::string s = symString(name, n);
    for (char c : s) ASSUME(ok(c));
    return s;
}
static void longReference(size_t big) {
    std::string sch = comp("scheme", "schemeLen", 4, refAlnum);
    bool        hasAuth = symRange("hasAuthority", 0, 1);
    std::string aut = hasAuth ? comp("authority", "authorityLen", big, [](char c) { return refAlnum(c) | isIn(c, "@:.-_*[]"); }) : "";
    std::string pth = comp("path", "pathLen", big, [](char c) { return refAlnum(c) | isIn(c, "/.-_"); });
    if (!pth.empty()) { if (hasAuth) ASSUME(pth[0] == '/'); else if (pth.size() > 1) ASSUME((pth[0] != '/') | (pth[1] != '/')); }
    if (sch.empty()) { ASSUME(!hasAuth); ASSUME(!pth.empty()); if (!pth.empty()) ASSUME(pth[0] == '/'); }
    bool        hasQ = symRange("hasQuery", 0, 1);
    std::string qry = hasQ ? comp("query", "queryLen", big, [](char c) { return refAlnum(c) | isIn(c, "-._~:/?[]@!$&'()*+,;=%"); }) : "";
    bool        hasF = symRange("hasFragment", 0, 1);
    std::string frg = hasF ? comp("fragment", "fragmentLen", 3, [](char c) { return refAlnum(c) | isIn(c, "-._~:/?#[]@!$&'()*+,;=%"); }) : "";
    std::string s = (sch.empty() ? "" : sch + ":") + (hasAuth ? "//" + aut : "") + pth + (hasQ ? "?" + qry : "") + (hasF ? "#" + frg : "");
    URI<STRICT> u(s); // must not throw: only permitted characters
    auto opt = [](const std::string &x) { return x.empty() ? std::optional<std::string>() : std::optional<std::string>(x); };
    CHECKM(u.str() == s, "str() is the source text");
    CHECKM(u.scheme() == opt(sch), "scheme()");
    CHECKM(u.authority() == opt(aut), "authority()");
    CHECKM(u.path() == opt(pth), "path()");
    CHECKM(u.queryParam() == opt(qry), "queryParam()");
    CHECKM(u.fragment() == opt(frg), "fragment()");
    // relative references: path, query and fragment re-joined; a missing leading '/' is added
    std::string rel = (pth.empty() || symx_branch(pth[0] == '/') ? "" : "/") + pth;
    if (!qry.empty()) rel += (symx_branch(qry[0] == '?') ? "" : "?") + qry;
    CHECKM(u.relativeRefNoFragment() == opt(rel), "relativeRefNoFragment() is path + query");
    bool plain = true;
    for (char c : frg) plain &= refUnreserved(c);
    if (symx_branch(plain)) {
        if (!frg.empty()) rel += "#" + frg;
        CHECKM(u.relativeRef() == opt(rel), "relativeRef() is path + query + fragment");
    }
    REACH("long");
    if (s.size() > 15) REACH("heap");
}
#ifndef BIG
#define BIG 6
#endif
HARNESS(h_split_long) { longReference(BIG); }
// the parts of the authority
static std::string authorityText(size_t n) {
    std::string a = symString("authority", n);
    for (char c : a) ASSUME(!isIn(c, "/?#"));
    return a;
}
HARNESS(h_authority) {
    std::string  a = authorityText(symRange("n", 1, N + 1));
    std::string  s = "s://" + a + "/p";
    URI<RELAXED> u(s);
    Ref          r = refParse(s);
    refAuthority(s, r);
    checkAuthority(u, s, r);
    CHECKM(u.authority() == a, "authority()");
    REACH("auth");
}
HARNESS(h_port) {
    size_t      n = symRange("digits", 0, 6);
    std::string d = symString("port", n);
    for (char c : d) ASSUME(refDigit(c) | (c == '-') | (c == 'x') | (c == ':'));
    std::string s = std::string(symRange("user", 0, 1) ? "mdp://u:w@host:" : "mdp://[::1]:") + d;
    URI<STRICT> u(s);
    Ref         r = refParse(s);
    refAuthority(s, r);
    checkAuthority(u, s, r);
    REACH("port");
    if (u.port()) REACH("valid");
}
// accessors are total on every accepted text, whatever the text
template<class U> static void touch(const U &u) {
    u.scheme(); u.authority(); u.user(); u.password(); u.hostName(); u.port(); u.path(); u.queryParam(); u.fragment(); u.relativeRef(); u.relativeRefNoFragment();
}
HARNESS(h_total_relaxed) {
    size_t n = symRange("n", 0, N - 1);
    std::string s = symReference(n);
    URI<RELAXED> u(s);
    touch(u);
    CHECKM(u.empty() == s.empty(), "empty()");
    REACH("total");
}
// known finding: a one-character text that is no '/', '?', '#' or ':' makes the constructor throw std::out_of_range
HARNESS(h_one_char) {
    std::string s = symString("uri", 1);
    ASSUME(refAlnum(s[0]));
    try { URI<STRICT> u(s); } catch (const URISyntaxException &) {}
    REACH("one");
}
