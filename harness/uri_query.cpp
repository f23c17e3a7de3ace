// P05 (percent-encoding), P06 (query parameters)
#include "uri_ref.h"
#ifndef N
#define N 4
#endif
#ifndef NPARAM
#define NPARAM 2
#endif
static std::string refEncode(const std::string &s) {
    std::string r;
    for (char c : s) {
        if (symx_branch(refUnreserved(c))) { r.push_back(c); continue; }
        unsigned v = (unsigned char) c;
        auto     h = [](unsigned x) { return (char) (x < 10 ? '0' + x : 'A' + (x - 10)); };
        r.push_back('%'); r.push_back(h(v >> 4)); r.push_back(h(v & 15));
    }
    return r;
}
// returns false if a '%' is not followed by two hex digits; such a '%' stands for itself in RELAXED mode
static bool refDecode(const std::string &s, std::string &r) {
    bool ok = true;
    for (size_t i = 0; i < s.size(); i++) {
        if (!symx_branch(s[i] == '%')) { r.push_back(s[i]); continue; }
        if (i + 2 < s.size() && symx_branch(refHex(s[i + 1]) & refHex(s[i + 2]))) { r.push_back((char) (refHexVal(s[i + 1]) * 16 + refHexVal(s[i + 2]))); i += 2; }
        else { ok = false; r.push_back('%'); }
    }
    return ok;
}
static bool same(const std::string &a, const std::string &b) {
    if (a.size() != b.size()) return false;
    bool r = true;
    for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
    return r;
}
HARNESS(h_encode) {
    std::string s = symString("text", symRange("n", 0, N));
    std::string e = URI<STRICT>::encode(s);
    CHECKM(same(e, refEncode(s)), "encode() keeps the unreserved characters and percent-encodes every other byte with two upper-case digits");
    CHECKM(same(URI<STRICT>::decode(e), s), "decode(encode(s)) == s (STRICT)");
    CHECKM(same(URI<RELAXED>::decode(e), s), "decode(encode(s)) == s (RELAXED)");
    CHECKM(same(URI<RELAXED>::encode(s), e), "encode() is the same in both modes");
    REACH("encoded");
}
HARNESS(h_decode_strict) {
    std::string s = symString("text", symRange("n", 0, N + 2));
    std::string r;
    bool        ok = refDecode(s, r);
    std::string d; bool threw = false;
    try { d = URI<STRICT>::decode(s); } catch (const URISyntaxException &) { threw = true; }
    CHECKM(threw == !ok, "STRICT decode throws exactly for a '%' without two hex digits");
    if (!threw) { CHECKM(same(d, r), "decoded bytes"); REACH("decoded"); } else REACH("rejected");
}
HARNESS(h_decode_relaxed) {
    std::string s = symString("text", symRange("n", 0, N + 2));
    std::string r;
    refDecode(s, r);
    CHECKM(same(URI<RELAXED>::decode(s), r), "decoded bytes (RELAXED)");
    REACH("decoded");
}
// ---- query parameters
using Param = std::pair<std::string, std::optional<std::string>>;
// reference: parameters separated by '&' or ';', key[=value], both percent-decoded, last occurrence wins; an empty value at the very end counts as absent
static bool refQuery(const std::string &q, bool strict, std::vector<Param> &out) {
    bool ok = true;
    if (strict) for (char c : q) ok &= refUnreserved(c) | isIn(c, "&;=%:/");
    if (strict && !symx_branch(ok)) return false;
    size_t p = 0;
    while (p < q.size()) {
        size_t e = firstOf(q, p, q.size(), "&;");
        size_t k = firstOf(q, p, e, "=");
        Param  prm;
        bool   fine = refDecode(q.substr(p, k - p), prm.first);
        if (k < e) {
            std::string v;
            fine &= refDecode(q.substr(k + 1, e - k - 1), v);
            if (!(e == q.size() && v.empty())) prm.second = v;
        }
        if (strict && !fine) return false;
        out.push_back(prm);
        p = e + 1;
    }
    return true;
}
template<class U> static void checkMap(const U &u, const std::vector<Param> &ref) {
    const auto &m = u.queryParamMap();
    size_t      distinct = 0;
    for (size_t i = 0; i < ref.size(); i++) {
        bool last = true;
        for (size_t j = i + 1; j < ref.size(); j++) if (symx_branch(same(ref[i].first, ref[j].first))) last = false;
        if (!last) continue;
        distinct++;
        auto it = m.find(ref[i].first);
        CHECKM(it != m.end(), "every parameter of the query is in the map");
        if (it == m.end()) continue;
        CHECKM(it->second.has_value() == ref[i].second.has_value(), "presence of the value");
        if (it->second && ref[i].second) CHECKM(same(*it->second, *ref[i].second), "value of the parameter");
    }
    CHECKM(m.size() == distinct, "no other entries");
    const auto &m2 = u.queryParamMap();
    CHECKM(m2.size() == distinct, "a second call gives the same map");
}
HARNESS(h_query_relaxed) {
    std::string q = symString("query", symRange("n", 0, N));
    for (char c : q) ASSUME(c != '#');
    std::vector<Param> ref;
    refQuery(q, false, ref);
    URI<RELAXED> u("/p?" + q);
    checkMap(u, ref);
    REACH("query");
}
HARNESS(h_query_strict) {
    std::string q = symString("query", symRange("n", 0, N));
    for (char c : q) ASSUME(refAlnum(c) | isIn(c, "-._~:/?[]@!$&'()*+,;=%"));
    std::vector<Param> ref;
    bool               ok = refQuery(q, true, ref);
    URI<STRICT>        u("s://h/p?" + q + "#f");
    bool               threw = false;
    try { u.queryParamMap(); } catch (const URISyntaxException &) { threw = true; }
    CHECKM(threw == !ok, "STRICT queryParamMap throws exactly for forbidden characters or malformed percent-encoding");
    if (!threw) { checkMap(u, ref); REACH("query"); return; }
    threw = false;
    try { u.queryParamMap(); } catch (const URISyntaxException &) { threw = true; }
    CHECKM(threw, "asking again is rejected again");
    REACH("rejected");
}
// longer queries over structured parameters
HARNESS(h_query_long) {
    size_t n = symRange("params", 1, NPARAM);
    std::string q;
    std::vector<Param> ref;
    for (size_t i = 0; i < n; i++) {
        Param p;
        std::string k = symString("key", symRange("keyLen", 1, 2));
        for (char c : k) ASSUME(refUnreserved(c));
        p.first = k;
        q += k;
        size_t form = symRange("form", 0, 3); // no '=', empty value, plain value, value with an encoded byte
        if (form > 0) {
            q += "=";
            std::string v;
            if (form == 2) { v = symString("value", 2); for (char c : v) ASSUME(refUnreserved(c) | isIn(c, ":/=")); q += v; }
            if (form == 3) { v = symString("value", 1); q += refEncode(v); }
            if (!(v.empty() && i + 1 == n)) p.second = v;
        }
        if (i + 1 < n) q += symRange("sep", 0, 1) ? ";" : "&";
        ref.push_back(p);
    }
    URI<STRICT> u("s://h/p?" + q);
    checkMap(u, ref);
    REACH("long");
}
