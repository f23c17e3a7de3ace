// P23: Json -- an object serialised and deserialised is the same object; the text is Json; foreign fields are skipped and reported
#include <IoSerialiserJson.hpp>
#include <units/isq/si/length.h>
#include "opaque_format.h"
#include "common.h"
using namespace opencmw;
struct Inner {
    int16_t     x = 1;
    std::string y;
};
ENABLE_REFLECTION_FOR(Inner, x, y)
template<class T, ProtocolCheck check = ProtocolCheck::ALWAYS>
static DeserialiserInfo readText(std::string_view text, T &out) {
    IoBuffer b;
    b.put<IoBuffer::MetaInfo::WITHOUT>(text);
    b.reset();
    auto info = deserialise<Json, check>(b, out);
    CHECKM(b.position() <= b.size(), "the reader stays inside the text");
    return info;
}
template<class T>
static std::string write(const T &in) {
    IoBuffer b;
    serialise<Json>(b, in);
    return std::string(b.asString());
}
template<class T, ProtocolCheck check = ProtocolCheck::ALWAYS>
static void trip(const T &in, T &out) {
    auto info = readText<T, check>(write(in), out);
    CHECKM(info.exceptions.empty() && info.additionalFields.empty(), "an object of the same type raises nothing");
}
// ---- a minimal reference for the text of a Json string (content between the quotes); returns false if it is not one
static bool hexDigit(uint8_t c, uint32_t &v) {
    if (c >= '0' && c <= '9') { v = v * 16 + (c - '0'); return true; }
    if (c >= 'a' && c <= 'f') { v = v * 16 + (c - 'a' + 10); return true; }
    if (c >= 'A' && c <= 'F') { v = v * 16 + (c - 'A' + 10); return true; }
    return false;
}
static void utf8(std::string &s, uint32_t c) {
    if (c < 0x80) { s += (char) c; return; }
    if (c < 0x800) { s += (char) (0xC0 + c / 64); s += (char) (0x80 + c % 64); return; }
    if (c < 0x10000) { s += (char) (0xE0 + c / 4096); s += (char) (0x80 + c / 64 % 64); s += (char) (0x80 + c % 64); return; }
    s += (char) (0xF0 + c / 262144); s += (char) (0x80 + c / 4096 % 64); s += (char) (0x80 + c / 64 % 64); s += (char) (0x80 + c % 64);
}
static bool hex4(std::string_view t, size_t i, uint32_t &v) {
    v = 0;
    if (i + 4 > t.size()) return false;
    for (size_t k = 0; k < 4; k++)
        if (!hexDigit((uint8_t) t[i + k], v)) return false;
    return true;
}
// stops at the first unescaped quote, whose index is stored in end
static bool refString(std::string_view t, std::string &out, size_t &end, bool strict) {
    out.clear();
    for (size_t i = 0; i < t.size(); i++) {
        uint8_t c = (uint8_t) t[i];
        if (c == '"') { end = i; return true; }
        if (strict && c < 0x20) return false;
        if (c != '\\') { out += (char) c; continue; }
        if (++i >= t.size()) return false;
        switch (t[i]) {
        case '"': case '\\': case '/': out += t[i]; break;
        case 'b': out += '\b'; break;
        case 'f': out += '\f'; break;
        case 'n': out += '\n'; break;
        case 'r': out += '\r'; break;
        case 't': out += '\t'; break;
        case 'u': {
            uint32_t v = 0, w = 0;
            if (!hex4(t, i + 1, v)) return false;
            i += 4;
            if (v >= 0xDC00 && v < 0xE000) return false;
            if (v >= 0xD800 && v < 0xDC00) {
                if (!(i + 2 < t.size() && t[i + 1] == '\\' && t[i + 2] == 'u' && hex4(t, i + 3, w)) || w < 0xDC00 || w >= 0xE000) return false;
                i += 6;
                v = 0x10000 + (v - 0xD800) * 0x400 + (w - 0xDC00);
            }
            utf8(out, v);
            break;
        }
        default: return false;
        }
    }
    return false;
}
struct Text { std::string s; int16_t z = 0; };
ENABLE_REFLECTION_FOR(Text, s, z)
HARNESS(h_json_text) {
    Text a, c{ "old", 1 };
    a.s = symStringUpTo("s", "n", 0, 2);
    a.z = 7;
    std::string text = write(a);
    static const std::string head = "{\n\"s\": \"", tail = "\",\n\"z\": 7\n}";
    CHECKM(text.size() >= head.size() + tail.size() && same(std::string_view(text).substr(0, head.size()), head) && same(std::string_view(text).substr(text.size() - tail.size()), tail), "the object around the text is Json");
    std::string dec;
    size_t      end = 0;
    CHECKM(refString(std::string_view(text).substr(head.size()), dec, end, true) && end == text.size() - head.size() - tail.size(), "the text is written as a Json string");
    CHECKM(same(dec, a.s), "which denotes the text");
    (void) readText(text, c);
    CHECKM(same(a.s, c.s) && c.z == 7, "the text comes back");
    REACH("done");
}
// ---- whatever stands between the quotes: the reader takes what Json says it denotes, and refuses what is no Json string
#ifndef NTEXT
#define NTEXT 3
#endif
HARNESS(h_json_string) {
    size_t      n = symRange("n", 0, NTEXT);
    std::string t = symString("t", n);
    std::string doc = "{\"s\": \"" + t + "\", \"z\": 3}";
    std::string ref;
    size_t      end = 0;
    bool        ok  = refString(t + "\"", ref, end, false) && end == n;
    Text        c{ "old", 1 };
    bool        thrown = false;
    try { (void) readText(doc, c); } catch (const ProtocolException &) { thrown = true; } catch (const std::out_of_range &) { thrown = true; }
    if (ok) {
        CHECKM(!thrown && same(c.s, ref) && c.z == 3, "a Json string denotes what the standard says");
        REACH("valid");
    } else {
        CHECKM(thrown || n > end, "what is no Json string is refused");
        REACH("invalid");
    }
}
HARNESS(h_json_unicode) {
    std::string t = "\\u" + symString("hex", 4);
    bool        pair = symRange("pair", 0, 1);
    if (pair) t += "\\u" + symString("low", 4);
    for (char ch : t) ASSUME(ch != '"');
    std::string ref;
    size_t      end = 0;
    bool        ok  = refString(t + "\"", ref, end, false);
    Text        c{ "old", 1 };
    bool        thrown = false;
    try { (void) readText("{\"s\": \"" + t + "\", \"z\": 3}", c); } catch (const ProtocolException &) { thrown = true; }
    if (ok) {
        CHECKM(!thrown && same(c.s, ref) && c.z == 3, "an escaped character is decoded to UTF-8");
        REACH("decoded");
    } else {
        CHECKM(thrown, "an illegal escape sequence is refused");
        REACH("refused");
    }
}
// ---- numbers
struct Nums { bool b = false; int8_t i8 = 0; uint8_t u8 = 0; int16_t i16 = 0; };
ENABLE_REFLECTION_FOR(Nums, b, i8, u8, i16)
HARNESS(h_json_small) {
    Nums a{ false, 1, 2, 3 }, c{ true, 0, 0, 0 };
    switch (symRange("which", 0, 3)) {
    case 0: a.b = symx_branch(sym<bool>("b")); break;
    case 1: a.i8 = sym<int8_t>("i8"); break;
    case 2: a.u8 = sym<uint8_t>("u8"); break;
    default: a.i16 = sym<int16_t>("i16");
    }
    trip(a, c);
    CHECKM((a.b == c.b) & (a.i8 == c.i8) & (a.u8 == c.u8) & (a.i16 == c.i16), "numbers come back");
    REACH("done");
}
struct Big { int32_t i = 0; int64_t l = 0; };
ENABLE_REFLECTION_FOR(Big, i, l)
HARNESS(h_json_big) { // all values near the ends of the range, around zero and around powers of ten
    static const int64_t base[] = { -128, INT32_MIN, INT32_MAX - 255, 99990, 999999990, INT64_MIN, INT64_MAX - 255, 9999999999900 };
    size_t  k = symRange("base", 0, 7);
    int64_t v = base[k] + sym<uint8_t>("d");
    Big     a{ 0, v }, c{ 1, 1 };
    if (k < 5 && symRange("narrow", 0, 1)) a = { (int32_t) v, 0 };
    trip(a, c);
    CHECKM((a.i == c.i) & (a.l == c.l), "large numbers come back");
    REACH("done");
}
struct One { int16_t v = 77; };
ENABLE_REFLECTION_FOR(One, v)
HARNESS(h_json_int_text) { // what is read from a text of digits is the number it denotes, or it is refused
    size_t      n = symRange("n", 1, 6);
    std::string t;
    int64_t     ref = 0;
    bool        neg = symRange("neg", 0, 1);
    for (size_t i = 0; i < n; i++) { uint8_t d = (uint8_t) sym<uint8_t>("d"); ASSUME(d < 10); t += (char) ('0' + d); ref = ref * 10 + d; }
    if (neg) ref = -ref;
    One  c;
    bool thrown = false;
    try { (void) readText("{\"v\":" + std::string(neg ? "-" : "") + t + "}", c); } catch (const ProtocolException &) { thrown = true; }
    if (symx_branch(ref >= INT16_MIN && ref <= INT16_MAX)) {
        CHECKM(!thrown && c.v == ref, "the number denoted is read");
        REACH("read");
    } else {
        CHECKM(thrown, "numbers beyond the member's range are refused");
        REACH("refused");
    }
}
// ---- containers
struct Arrays {
    std::vector<bool>        vb;
    std::vector<int16_t>     v;
    std::array<int8_t, 2>    a{};
    std::vector<std::string> t;
    std::set<int8_t>         st;
    MultiArray<int16_t, 2>   m;
    std::vector<Inner>       in;
    int16_t                  z = 0;
};
ENABLE_REFLECTION_FOR(Arrays, vb, v, a, t, st, m, in, z)
static char letter(const char *n) { char ch = (char) sym<uint8_t>(n); ASSUME(ch >= 'a' && ch <= 'z'); return ch; }
HARNESS(h_json_arrays) {
    Arrays a, c;
    c.vb = { true, true, false };
    c.v  = { 1, 2, 3 };
    c.st = { 77 };
    c.t  = { "old" };
    c.in = { Inner{ 3, "old" } };
    c.m  = MultiArray<int16_t, 2>({ 1, 2, 3, 4, 5, 6 }, { 2u, 3u });
    size_t n = symRange("n", 0, 2), which = symRange("which", 0, 3);
    for (size_t i = 0; i < n; i++) {
        a.vb.push_back(which == 0 ? symx_branch(sym<bool>("bit")) : i == 0);
        int8_t e = which == 1 ? sym<int8_t>("e") : (int8_t) (i * 3);
        a.v.push_back(e);
        a.st.insert(e);
        a.a[i] = e;
        a.t.push_back(std::string(1, letter("l")) + (i ? "\"" : ""));
        a.in.push_back(Inner{ (int16_t) i, std::string(i, letter("m")) });
    }
    uint32_t rows = which == 2 ? (uint32_t) symRange("rows", 0, 2) : 2, cols = which == 2 ? (uint32_t) symRange("cols", 0, 2) : 1;
    std::vector<int16_t> el;
    for (uint32_t i = 0; i < rows * cols; i++) el.push_back(which == 3 ? sym<int8_t>("el") : (int16_t) i);
    a.m = MultiArray<int16_t, 2>(el, { rows, cols });
    a.z = 5;
    trip(a, c);
    CHECKM(c.vb == a.vb && c.v == a.v && c.a == a.a && c.st == a.st && c.z == 5, "arrays and sets come back");
    CHECKM(c.m.dimensions() == a.m.dimensions() && c.m.elements() == a.m.elements() && c.m.element_count() == el.size() && c.m.stride(0) == a.m.stride(0), "multi-dimensional arrays come back");
    CHECK(c.t.size() == n && c.in.size() == n);
    for (size_t i = 0; i < n; i++) CHECKM(same(c.t[i], a.t[i]) && c.in[i].x == a.in[i].x && same(c.in[i].y, a.in[i].y), "texts and objects in arrays come back");
    REACH("done");
}
struct Maps {
    std::map<std::string, int16_t>           si;
    std::map<std::string, std::string>       ss;
    std::unordered_map<std::string, std::vector<bool>> sv;
    int16_t                                  z = 0;
};
ENABLE_REFLECTION_FOR(Maps, si, ss, sv, z)
HARNESS(h_json_maps) {
    Maps a, c;
    c.si = { { "old", 1 } };
    c.ss = { { "old", "x" } };
    size_t n = symRange("n", 0, 2), has = symRange("has", 0, 7);
    static const char *const keys[] = { "k", "l" };
    for (size_t i = 0; i < n; i++) {
        if (has & 1) a.si[keys[i]] = i ? (int16_t) 5 : (int16_t) sym<int8_t>("v");
        if (has & 2) a.ss[keys[i]] = std::string(1, letter("s"));
        if (has & 4) a.sv[keys[i]] = { i == 0, symx_branch(sym<bool>("bit")) != 0 };
    }
    a.z = 5;
    trip(a, c);
    CHECKM(c.si == a.si && c.sv == a.sv && c.z == 5 && c.ss.size() == a.ss.size(), "maps come back");
    for (auto &[k, v] : a.ss) CHECK(c.ss.contains(k) && same(c.ss[k], v));
    REACH("done");
}
struct Ptrs {
    int16_t                      pre = 0;
    std::unique_ptr<int8_t>      u;
    std::shared_ptr<std::string> s;
    std::unique_ptr<Inner>       n;
    Inner                        in;
    Annotated<int8_t, units::isq::si::length<units::isq::si::metre>, "a length"> len = 0;
    int16_t                      post = 0;
};
ENABLE_REFLECTION_FOR(Ptrs, pre, u, s, n, in, len, post)
HARNESS(h_json_ptrs) {
    Ptrs a, c;
    a.pre  = 3;
    a.post = 4;
    a.len.value() = (int8_t) symRange("len", 0, 30);
    a.in   = { 8, std::string(1, letter("y")) };
    int has = (int) symRange("has", 0, 7), had = (int) symRange("had", 0, 1) * 7;
    if (has & 1) a.u = std::make_unique<int8_t>(9);
    if (has & 2) a.s = std::make_shared<std::string>(1, letter("s"));
    if (has & 4) a.n = std::make_unique<Inner>(Inner{ 5, "in" });
    if (had & 1) { c.u = std::make_unique<int8_t>(5); c.s = std::make_shared<std::string>("old"); c.n = std::make_unique<Inner>(); }
    trip(a, c);
    CHECKM((a.pre == c.pre) & (a.post == c.post) & (a.in.x == c.in.x) & (a.len.value() == c.len.value()) && same(a.in.y, c.in.y), "plain members come back");
    if (has & 1) CHECKM(c.u && *c.u == *a.u, "a value behind a pointer comes back");
    else CHECKM(had ? (c.u && *c.u == 5) : !c.u, "an absent value leaves the member alone");
    if (has & 2) CHECK(c.s && same(*c.s, *a.s));
    if (has & 4) CHECK(c.n && c.n->x == a.n->x && same(c.n->y, "in"));
    else CHECK(had ? !!c.n : !c.n);
    REACH("done");
}
// ---- any layout: white space between the tokens makes no difference, nor does the order of the members
struct Lay { int16_t i = 0; std::string s; std::vector<int16_t> v; bool b = false; Inner in; };
ENABLE_REFLECTION_FOR(Lay, i, s, v, b, in)
static std::string ws(const char *n) {
    static const char kinds[] = { ' ', '\t', '\n', '\r' };
    size_t k = symRange(n, 0, 4);
    return k < 4 ? std::string(1, kinds[k]) : std::string();
}
HARNESS(h_json_layout) {
    static const char *const tokens[] = { "{", "\"b\"", ":", "true", ",", "\"v\"", ":", "[", "1", ",", "-2", "]", ",", "\"i\"", ":", "12", ",", "\"in\"", ":", "{", "\"y\"", ":", "\"q\"", ",", "\"x\"", ":", "5", "}", ",", "\"s\"", ":", "\"t t\"", "}" };
    constexpr size_t N = std::size(tokens);
    size_t at = symRange("at", 0, N - 1), len = symRange("len", 1, 2);
    std::string doc;
    for (size_t i = 0; i < N; i++) {
        if (i >= at && i < at + len) doc += ws("w");
        doc += tokens[i];
    }
    Lay  c;
    auto info = readText(doc, c);
    CHECKM(info.exceptions.empty(), "white space between tokens raises nothing");
    CHECKM(c.b && c.i == 12 && c.v == (std::vector<int16_t>{ 1, -2 }) && same(c.s, "t t") && c.in.x == 5 && same(c.in.y, "q"), "and changes nothing");
    REACH("done");
}
// ---- unknown and mismatching fields
struct R { int16_t last = 1; Inner in; std::vector<int16_t> v = { 9 }; int16_t missing = 3; int16_t first = 1; };
ENABLE_REFLECTION_FOR(R, last, in, v, missing, first)
HARNESS(h_json_foreign) {
    static const char *const values[] = { "1", "-1.5e+3", "true", "false", "null", "\"te\\\"xt}\"", "[]", "[ 1, [2] , {\"a\":[]} ]", "{}", "{ \"a\" : {\"b\": \"}\"} , \"c\":[true,null] }", "[\"]\",\",\"]" };
    std::string doc = std::string("{\"first\":5,\"unknown\":") + ws("w1") + values[symRange("value", 0, 10)] + ws("w2") + ",\"last\":6}";
    R c;
    if (symRange("check", 0, 1)) {
        auto info = readText<R, ProtocolCheck::LENIENT>(doc, c);
        CHECKM(info.additionalFields.size() == 1 && info.exceptions.size() == 1, "the unknown field is reported");
        REACH("lenient");
    } else (void) readText<R, ProtocolCheck::IGNORE>(doc, c);
    CHECKM(c.first == 5 && c.last == 6, "known fields are read around unknown ones");
    CHECKM(c.missing == 3 && c.in.x == 1, "absent fields keep their value");
    R    d;
    bool thrown = false;
    try { (void) readText(doc, d); } catch (const ProtocolException &) { thrown = true; }
    CHECKM(thrown, "with ProtocolCheck::ALWAYS an unknown field is refused");
    REACH("done");
}
HARNESS(h_json_mismatch) {
    static const char *const values[] = { "1", "true", "null", "\"text\"", "[1]" };
    std::string doc = std::string("{\"first\":5,\"in\":") + values[symRange("value", 0, 4)] + ",\"last\":6}";
    R c;
    auto info = readText<R, ProtocolCheck::LENIENT>(doc, c);
    CHECKM(info.exceptions.size() == 1, "the mismatch is reported");
    CHECKM(c.first == 5 && c.last == 6 && c.in.x == 1, "the field is skipped");
    REACH("done");
}
static void key(const std::string &k) {
    Maps a, c;
    a.si[k] = 5;
    a.z     = 6;
    bool ok = false;
    try { trip(a, c); ok = c.si.size() == 1 && same(c.si.begin()->first, k) && c.si.begin()->second == 5 && c.z == 6; } catch (const ProtocolException &) {}
    CHECKM(ok, "the key of a map entry comes back");
    REACH("done");
}
HARNESS(h_json_key) {
    std::string k = symString("k", 1);
    ASSUME(k[0] != '"' && k[0] != '\\'); // F03
    key(k + (symRange("n", 0, 1) ? "x" : ""));
}
HARNESS(h_json_key_escape) { key(symRange("k", 0, 1) ? "\"" : "\\"); }
// ---- members the reader declares read-only are not set from outside
struct Ro {
    Annotated<int32_t, NoUnit, "read only", ExternalModifier::RO> fixed = 5;
    int32_t                                                       z = 0;
};
ENABLE_REFLECTION_FOR(Ro, fixed, z)
HARNESS(h_json_readonly) {
    Ro a, c;
    a.fixed.value() = (int32_t) symRange("v", 0, 20);
    a.z             = 7;
    IoBuffer b;
    serialise<Json>(b, a);
    b.reset();
    if (symRange("check", 0, 1)) {
        auto info = deserialise<Json, ProtocolCheck::LENIENT>(b, c);
        CHECKM(info.exceptions.size() == 1, "the attempt is reported");
        CHECKM(c.z == a.z && b.position() == b.size(), "the field behind it is read");
        REACH("lenient");
    } else {
        bool thrown = false;
        try { (void) deserialise<Json, ProtocolCheck::ALWAYS>(b, c); } catch (const ProtocolException &) { thrown = true; }
        CHECKM(thrown, "with ProtocolCheck::ALWAYS it is refused");
        REACH("always");
    }
    CHECKM(c.fixed.value() == 5, "a read-only member keeps its value");
}
