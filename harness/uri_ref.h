// Independent reference for RFC 3986 references as URI.hpp documents them. 
#pragma once
#include "symx.h"
#include <URI.hpp>
#include <optional>
#include <vector>
using opencmw::URI; using opencmw::STRICT; using opencmw::RELAXED; using opencmw::URISyntaxException;

inline bool isIn(char c, const char *set) { bool r = false; for (size_t i = 0; set[i]; i++) r |= c == set[i]; return r; }
inline bool refDigit(char c) { return (c >= '0') & (c <= '9'); }
inline bool refAlnum(char c) { return refDigit(c) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
inline bool refHex(char c) { return refDigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
inline unsigned refHexVal(char c) { return refDigit(c) ? (unsigned) (c - '0') : ((unsigned) c | 0x20u) - 'a' + 10u; }
inline bool refUnreserved(char c) { return refAlnum(c) | isIn(c, "-._~"); }
// first index in [from, to) whose character is in set, or to (forks, so that positions are concrete on every explored path)
inline size_t firstOf(const std::string &s, size_t from, size_t to, const char *set) {
    for (size_t i = from; i < to; i++) if (symx_branch(isIn(s[i], set))) return i;
    return to;
}
inline bool isAt(const std::string &s, size_t i, char c) { return i < s.size() && symx_branch(s[i] == c); }
template<class F> inline bool allIn(const std::string &s, size_t b, size_t e, F f) { bool r = true; for (size_t i = b; i < e; i++) r &= f(s[i]); return r; }
inline bool eqSub(const std::string &s, size_t b, size_t e, const std::optional<std::string> &a) { // component [b, e) of s; empty components are reported as absent
    if (!a) return b == e;
    if (a->empty()) return false;
    if (a->size() != e - b) return false;
    bool r = true;
    for (size_t i = 0; i < a->size(); i++) r &= s[b + i] == (*a)[i];
    return r;
}
struct Ref {
    size_t sE = 0;             // scheme [0, sE)
    size_t aB = 0, aE = 0;     // authority
    size_t pE = 0;             // path [aE, pE)
    size_t qB = 0, qE = 0;     // query
    size_t fB = 0, fE = 0;     // fragment
    size_t uE = 0, wB = 0, wE = 0, hB = 0, hE = 0, oB = 0, oE = 0; // user [aB, uE), password, host, port
    bool   valid = true;       // STRICT character rules
    bool   portOk = false; unsigned port = 0;
};
// n bytes of the inputs the parser documents, [scheme:][//authority][/path][?query][#fragment]: with a scheme, or starting with '/' (not "//"), '?' or '#'
inline std::string symReference(size_t n) {
    std::string s = symString("uri", n);
    if (n == 0) return s;
    switch (symRange("form", 0, 3)) {
    case 0: ASSUME(s[0] == '/'); if (n > 1) ASSUME(s[1] != '/'); break;
    case 1: ASSUME(s[0] == '?'); break;
    case 2: ASSUME(s[0] == '#'); break;
    default: {
        size_t l = symRange("schemeLength", 0, n - 1);
        for (size_t i = 0; i < l; i++) ASSUME(!isIn(s[i], ":/?#"));
        ASSUME(s[l] == ':');
    }
    }
    return s;
}
inline Ref refParse(const std::string &s) {
    Ref    r;
    size_t n = s.size();
    if (!n) return r;
    size_t d  = firstOf(s, 0, n, ":/?#");
    bool   sc = isAt(s, d, ':');
    r.sE      = sc ? d : 0;
    size_t p  = sc ? d + 1 : 0;
    bool   au = sc && isAt(s, p, '/') && isAt(s, p + 1, '/');
    r.aB      = au ? p + 2 : p;
    r.aE      = au ? firstOf(s, r.aB, n, "/?#") : p;
    r.pE      = firstOf(s, r.aE, n, "?#");
    bool q    = isAt(s, r.pE, '?');
    r.qB      = q ? r.pE + 1 : r.pE;
    r.qE      = q ? firstOf(s, r.qB, n, "#") : r.pE;
    bool f    = isAt(s, r.qE, '#');
    r.fB      = f ? r.qE + 1 : n;
    r.fE      = n;
    r.valid   = allIn(s, 0, n, [](char c) { return refAlnum(c) | isIn(c, "-._~:/?#[]@!$&'()*+,;=%"); })
            & allIn(s, 0, r.sE, refAlnum)
            & allIn(s, r.aB, r.aE, [](char c) { return refAlnum(c) | isIn(c, "@:.-_*[]"); })
            & allIn(s, r.aE, r.pE, [](char c) { return refAlnum(c) | isIn(c, "/.-_"); });
    return r;
}
// authority = [user[:password]@]host[:port], host may be a bracketed literal
inline void refAuthority(const std::string &s, Ref &r) {
    size_t t  = firstOf(s, r.aB, r.aE, "@");
    bool   us = t < r.aE;
    size_t c1 = us ? firstOf(s, r.aB, t, ":") : r.aB;
    r.uE      = us ? c1 : r.aB;
    r.wB      = us && c1 < t ? c1 + 1 : r.aB;
    r.wE      = us && c1 < t ? t : r.aB;
    r.hB      = us ? t + 1 : r.aB;
    bool   br = r.hB < r.aE && isAt(s, r.hB, '[');
    size_t he = br ? firstOf(s, r.hB, r.aE, "]") : r.hB;
    r.hE      = firstOf(s, he, r.aE, ":");
    r.oB      = r.hE < r.aE ? r.hE + 1 : r.aE;
    r.oE      = r.aE;
    unsigned v = 0; bool dig = r.oB < r.oE;
    for (size_t i = r.oB; i < r.oE; i++) {
        dig &= refDigit(s[i]);
        unsigned nv = v * 10u + (unsigned) (s[i] - '0');
        v = nv > 65535u ? 65536u : nv;
    }
    r.portOk = dig & (v <= 65535u);
    r.port   = v;
}
template<class U> inline void checkComponents(const U &u, const std::string &s, const Ref &r) {
    CHECKM(u.str() == s, "str() is the source text");
    CHECKM(eqSub(s, 0, r.sE, u.scheme()), "scheme()");
    CHECKM(eqSub(s, r.aB, r.aE, u.authority()), "authority()");
    CHECKM(eqSub(s, r.aE, r.pE, u.path()), "path()");
    CHECKM(eqSub(s, r.qB, r.qE, u.queryParam()), "queryParam()");
    CHECKM(eqSub(s, r.fB, r.fE, u.fragment()), "fragment()");
}
template<class U> inline void checkAuthority(const U &u, const std::string &s, const Ref &r) {
    CHECKM(eqSub(s, r.aB, r.uE, u.user()), "user()");
    CHECKM(eqSub(s, r.wB, r.wE, u.password()), "password()");
    CHECKM(eqSub(s, r.hB, r.hE, u.hostName()), "hostName()");
    auto p = u.port();
    CHECKM(p.has_value() == r.portOk, "port() is present exactly for a 16-bit number");
    if (p) CHECKM(*p == r.port, "port() value");
}
