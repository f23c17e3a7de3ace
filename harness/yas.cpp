// P19: YaS -- an object serialised and deserialised is the same object; foreign fields are skipped and reported
#include <IoSerialiserYaS.hpp>
#include <units/isq/si/length.h>
#include <units/isq/si/time.h>
#include "common.h"
using namespace opencmw;
template<class T, class U> static bool bits(const T &a, const U &b) { return __builtin_memcmp(&a, &b, sizeof(T)) == 0; }
struct Nums {
    bool    b = false;
    int8_t  i8 = 0;
    int16_t i16 = 0;
    int32_t i32 = 0;
    int64_t i64 = 0;
    float   f = 0;
    double  d = 0;
};
ENABLE_REFLECTION_FOR(Nums, b, i8, i16, i32, i64, f, d)
struct Text {
    std::string              s;
    std::vector<std::string> v;
};
ENABLE_REFLECTION_FOR(Text, s, v)
struct Arrays {
    std::vector<bool>      vb;
    std::vector<int16_t>   v16;
    std::vector<double>    vd;
    std::array<int32_t, 2> a{};
    MultiArray<double, 2>  m;
    std::set<int32_t>      st;
};
ENABLE_REFLECTION_FOR(Arrays, vb, v16, vd, a, m, st)
struct Maps {
    std::map<std::string, int32_t>     si;
    std::unordered_map<int32_t, double> id;
    std::map<int32_t, std::string>     is;
    std::map<std::string, std::vector<int32_t>> sv;
};
ENABLE_REFLECTION_FOR(Maps, si, id, is, sv)
struct Inner {
    int32_t     x = 1;
    std::string y;
};
ENABLE_REFLECTION_FOR(Inner, x, y)
struct Ptrs {
    int32_t                  pre = 0;
    std::unique_ptr<int64_t> u;
    std::shared_ptr<std::string> s;
    std::unique_ptr<Inner>   n;
    Inner                    in;
    int16_t                  post = 0;
};
ENABLE_REFLECTION_FOR(Ptrs, pre, u, s, n, in, post)
struct Ann {
    Annotated<int32_t, units::isq::si::length<units::isq::si::metre>, "a length"> len = 0;
    Annotated<std::string, NoUnit, "a text">                                      txt = std::string();
    Annotated<std::vector<float>, NoUnit>                                         vec;
};
ENABLE_REFLECTION_FOR(Ann, len, txt, vec)
template<class T, bool meta = true, ProtocolCheck check = ProtocolCheck::ALWAYS>
static DeserialiserInfo trip(const T &in, T &out) {
    IoBuffer b;
    serialise<YaS, meta>(b, in);
    b.reset();
    auto info = deserialise<YaS, check>(b, out);
    CHECKM(b.position() == b.size(), "everything written is consumed");
    CHECKM(info.exceptions.empty() && info.additionalFields.empty(), "an object of the same type raises nothing");
    return info;
}
HARNESS(h_yas_nums) {
    Nums a{ sym<bool>("b"), sym<int8_t>("i8"), sym<int16_t>("i16"), sym<int32_t>("i32"), sym<int64_t>("i64"), sym<float>("f"), sym<double>("d") }, c;
    switch (symRange("check", 0, 2)) {
    case 0: { auto info = trip(a, c); CHECKM(info.setFields["root"] == std::vector<bool>(7, true), "all fields are marked as set"); break; }
    case 1: (void) trip<Nums, false, ProtocolCheck::LENIENT>(a, c); break;
    default: (void) trip<Nums, true, ProtocolCheck::IGNORE>(a, c);
    }
    CHECKM((a.b == c.b) & (a.i8 == c.i8) & (a.i16 == c.i16) & (a.i32 == c.i32) & (a.i64 == c.i64) & bits(a.f, c.f) & bits(a.d, c.d), "the numbers come back bit by bit");
    REACH("done");
}
HARNESS(h_yas_text) {
    Text a, c{ "old", { "one", "two" } };
    a.s      = symStringUpTo("s", "n", 0, 4);
    size_t k = symRange("k", 0, 2);
    for (size_t i = 0; i < k; i++) a.v.push_back(symStringUpTo("e", "m", 0, 2));
    (void) trip(a, c);
    bool ok = a.v.size() == c.v.size() && same(a.s, c.s);
    for (size_t i = 0; ok && i < k; i++) ok = same(a.v[i], c.v[i]);
    CHECKM(ok, "the texts come back");
    REACH("done");
}
HARNESS(h_yas_arrays) {
    Arrays a, c;
    c.vb   = { true, true, false };
    c.v16  = { 1, 2, 3 };
    c.st   = { 77 };
    c.m    = MultiArray<double, 2>({ 1, 2, 3, 4, 5, 6 }, { 2u, 3u });
    size_t n = symRange("n", 0, 2);
    for (size_t i = 0; i < n; i++) { a.vb.push_back(symx_branch(sym<bool>("bit"))); a.v16.push_back(sym<int16_t>("e16")); a.vd.push_back(sym<double>("ed")); }
    a.a          = { sym<int32_t>("a0"), sym<int32_t>("a1") };
    uint32_t rows = (uint32_t) symRange("rows", 0, 2), cols = (uint32_t) symRange("cols", 0, 2);
    std::vector<double> el;
    for (uint32_t i = 0; i < rows * cols; i++) el.push_back(sym<double>("el"));
    a.m = MultiArray<double, 2>(el, { rows, cols });
    int32_t s0 = sym<int32_t>("s0"), s1 = sym<int32_t>("s1");
    if (n > 0) a.st.insert(s0);
    if (n > 1) a.st.insert(s1);
    (void) trip(a, c);
    bool ok = c.vb == a.vb && c.v16.size() == n && c.vd.size() == n;
    for (size_t i = 0; ok && i < n; i++) ok &= (c.v16[i] == a.v16[i]) & bits(c.vd[i], a.vd[i]);
    CHECKM(ok && c.a == a.a, "the arrays come back");
    CHECKM(c.m.dimensions() == a.m.dimensions() && c.m.elements().size() == el.size(), "the dimensions come back");
    CHECK(c.m.element_count() == el.size() && c.m.stride(0) == a.m.stride(0) && c.m.stride(1) == a.m.stride(1) && c.m.offset(0) == a.m.offset(0) && c.m.offset(1) == a.m.offset(1));
    for (uint32_t i = 0; i < rows; i++)
        for (uint32_t j = 0; j < cols; j++) CHECKM(bits(c.m(i, j), a.m(i, j)), "every element is where it was");
    CHECKM(c.st == a.st, "the set comes back");
    REACH("done");
}
HARNESS(h_yas_maps) {
    Maps a, c;
    c.si = { { "old", 1 } };
    c.id = { { 3, 4.0 } };
    c.sv = { { "old", { 1 } } };
    size_t n = symRange("n", 0, 2);
    static const char *const keys[] = { "k", "l" };
    for (size_t i = 0; i < n; i++) {
        a.si[keys[i]]           = sym<int32_t>("v");
        a.id[(int32_t) i * 5]   = sym<double>("w");
        a.is[(int32_t) i + 100] = symString("s", 2);
        a.sv[keys[i]]           = { sym<int32_t>("x"), sym<int32_t>("y") };
    }
    (void) trip(a, c);
    CHECKM(c.si.size() == n && c.id.size() == n && c.is.size() == n && c.sv.size() == n, "maps have the entries they had");
    for (size_t i = 0; i < n; i++) {
        CHECK(c.si.contains(keys[i]) && c.si[keys[i]] == a.si[keys[i]]);
        CHECK(c.id.contains((int32_t) i * 5) && bits(c.id[(int32_t) i * 5], a.id[(int32_t) i * 5]));
        CHECK(same(c.is[(int32_t) i + 100], a.is[(int32_t) i + 100]));
        CHECK(c.sv.contains(keys[i]) && c.sv[keys[i]] == a.sv[keys[i]]);
    }
    REACH("done");
}
HARNESS(h_yas_ptrs) {
    Ptrs a, c;
    a.pre  = sym<int32_t>("pre");
    a.post = sym<int16_t>("post");
    a.in   = { sym<int32_t>("x"), symString("y", 2) };
    int  has = (int) symRange("has", 0, 7), had = (int) symRange("had", 0, 1) * 7;
    if (has & 1) a.u = std::make_unique<int64_t>(sym<int64_t>("u"));
    if (has & 2) a.s = std::make_shared<std::string>(symString("s", 1));
    if (has & 4) a.n = std::make_unique<Inner>(Inner{ sym<int32_t>("nx"), "in" });
    if (had & 1) { c.u = std::make_unique<int64_t>(5); c.s = std::make_shared<std::string>("old"); c.n = std::make_unique<Inner>(); }
    (void) trip(a, c);
    CHECKM((a.pre == c.pre) & (a.post == c.post) & (a.in.x == c.in.x) && same(a.in.y, c.in.y), "plain members come back");
    if (has & 1) CHECKM(c.u && *c.u == *a.u, "a value behind a pointer comes back");
    else CHECKM(had ? (c.u && *c.u == 5) : !c.u, "an absent value leaves the member alone");
    if (has & 2) CHECK(c.s && same(*c.s, *a.s));
    if (has & 4) CHECK(c.n && c.n->x == a.n->x && same(c.n->y, "in"));
    else CHECK(had ? !!c.n : !c.n);
    REACH("done");
}
HARNESS(h_yas_ann) {
    Ann a, c;
    a.len.value() = sym<int32_t>("len");
    a.txt.value() = symString("t", 2);
    a.vec.value() = { sym<float>("f0"), sym<float>("f1") };
    if (symRange("meta", 0, 1)) (void) trip(a, c);
    else (void) trip<Ann, false, ProtocolCheck::IGNORE>(a, c);
    CHECKM(a.len.value() == c.len.value() && same(a.txt.value(), c.txt.value()), "annotated members come back");
    CHECK(c.vec.value().size() == 2 && bits(c.vec.value()[0], a.vec.value()[0]) && bits(c.vec.value()[1], a.vec.value()[1]));
    REACH("done");
}
// ---- a reader whose type differs from the writer's
struct W {
    int32_t                  first = 0;
    std::string              extra;   // the reader does not know it
    Inner                    extraIn; // nor this
    std::map<std::string, int32_t> extraMap;
    int32_t                  kind = 0; // the reader wants a double here
    Annotated<int32_t, units::isq::si::length<units::isq::si::metre>> unit = 0;
    int32_t                  last = 0;
};
ENABLE_REFLECTION_FOR(W, first, extra, extraIn, extraMap, kind, unit, last)
struct R {
    int32_t last = 1;
    Annotated<int32_t, units::isq::si::time<units::isq::si::second>> unit = 4;
    double  kind = 2;
    int32_t missing = 3; // the writer does not know it
    int32_t first = 1;
};
ENABLE_REFLECTION_FOR(R, last, unit, kind, missing, first)
HARNESS(h_yas_foreign) {
    W a;
    a.first = sym<int32_t>("first");
    a.last  = sym<int32_t>("last");
    a.extra = symString("extra", symRange("n", 0, 3));
    a.extraIn = { sym<int32_t>("x"), "inner" };
    if (symRange("map", 0, 1)) a.extraMap = { { "k", 1 } };
    a.kind         = sym<int32_t>("kind");
    a.unit.value() = 77;
    IoBuffer b;
    serialise<YaS>(b, a);
    b.reset();
    R c;
    if (symRange("check", 0, 1)) {
        auto info = deserialise<YaS, ProtocolCheck::LENIENT>(b, c);
        CHECKM(info.additionalFields.size() == 3, "fields the reader does not know are listed");
        CHECKM(info.exceptions.size() == 6, "type name, three unknown fields, one wrong type and one wrong unit are reported");
        CHECKM(info.setFields["root"] == (std::vector<bool>{ true, false, false, false, true }), "exactly the matching fields are marked as set");
        CHECKM(c.unit.value() == 4, "a value with another unit is not taken");
        REACH("lenient");
    } else {
        auto info = deserialise<YaS, ProtocolCheck::IGNORE>(b, c);
        CHECK(info.exceptions.empty());
        REACH("ignore");
    }
    CHECKM((c.first == a.first) & (c.last == a.last), "known fields are read around unknown ones");
    CHECKM((c.kind == 2) & (c.missing == 3), "fields that are absent or of another type keep their value");
    CHECK(b.position() == b.size());
}
HARNESS(h_yas_strict) {
    W a;
    a.first = sym<int32_t>("first");
    IoBuffer b;
    serialise<YaS>(b, a);
    b.reset();
    R    c;
    bool thrown = false;
    try { (void) deserialise<YaS, ProtocolCheck::ALWAYS>(b, c); } catch (const ProtocolException &) { thrown = true; }
    CHECKM(thrown, "with ProtocolCheck::ALWAYS a foreign object is refused");
    REACH("done");
}
// a number or text where the reader has a nested object, and the other way round
struct W2 {
    int32_t     a = 0;
    std::string b;
    Inner       c;
    int32_t     d = 0;
};
ENABLE_REFLECTION_FOR(W2, a, b, c, d)
struct R2 {
    Inner   a;
    Inner   b;
    int32_t c = 9;
    int32_t d = 8;
};
ENABLE_REFLECTION_FOR(R2, a, b, c, d)
HARNESS(h_yas_nested_mismatch) {
    W2 w;
    w.a   = sym<int32_t>("a");
    w.b   = symStringUpTo("b", "n", 0, 2);
    w.c.x = sym<int32_t>("c");
    w.d   = sym<int32_t>("d");
    IoBuffer b;
    serialise<YaS>(b, w);
    b.reset();
    R2 r;
    if (symRange("check", 0, 1)) {
        auto info = deserialise<YaS, ProtocolCheck::LENIENT>(b, r);
        CHECKM(info.exceptions.size() == 4, "type name and three mismatches are reported");
        CHECKM(info.setFields["root"] == (std::vector<bool>{ false, false, false, true }), "only the matching field is marked as set");
    } else (void) deserialise<YaS, ProtocolCheck::IGNORE>(b, r);
    CHECKM(r.a.x == 1 && r.b.x == 1 && r.c == 9, "fields of another type keep their value");
    CHECKM(r.d == w.d, "the field behind them is read");
    REACH("done");
}
// ---- the header: any other first bytes are refused
HARNESS(h_yas_header) {
    Inner a{ sym<int32_t>("x"), "" };
    IoBuffer b;
    serialise<YaS>(b, a);
    size_t  at  = symRange("at", 0, 12); // magic, length, "YaS\0", major
    uint8_t old = b[at], neu = sym<uint8_t>("byte");
    ASSUME(neu != old);
    ASSUME(at != 11 && (at < 4 || at > 7)); // terminator and length: see the malformed data property
    b[at] = neu;
    b.reset();
    Inner c{ 55, "keep" };
    if (symRange("check", 0, 1)) {
        bool thrown = false;
        try { (void) deserialise<YaS, ProtocolCheck::ALWAYS>(b, c); } catch (const ProtocolException &) { thrown = true; }
        CHECKM(thrown, "data of another protocol or major version are refused");
        REACH("always");
    } else {
        auto info = deserialise<YaS, ProtocolCheck::LENIENT>(b, c);
        CHECKM(info.exceptions.size() == 1, "data of another protocol or major version are reported");
        REACH("lenient");
    }
    CHECKM(c.x == 55 && same(c.y, "keep"), "and nothing is read");
}
// ---- members the reader declares read-only are not set from outside
struct Ro {
    Annotated<int32_t, NoUnit, "read only", ExternalModifier::RO> fixed = 5;
    int32_t                                                       z = 0;
};
ENABLE_REFLECTION_FOR(Ro, fixed, z)
HARNESS(h_yas_readonly) {
    Ro a, c;
    a.fixed.value() = sym<int32_t>("v");
    a.z             = sym<int32_t>("z");
    IoBuffer b;
    serialise<YaS>(b, a);
    b.reset();
    if (symRange("check", 0, 1)) {
        auto info = deserialise<YaS, ProtocolCheck::LENIENT>(b, c);
        CHECKM(info.exceptions.size() == 1, "the attempt is reported");
        CHECKM(c.z == a.z && b.position() == b.size(), "the field behind it is read");
        REACH("lenient");
    } else {
        bool thrown = false;
        try { (void) deserialise<YaS, ProtocolCheck::ALWAYS>(b, c); } catch (const ProtocolException &) { thrown = true; }
        CHECKM(thrown, "with ProtocolCheck::ALWAYS it is refused");
        REACH("always");
    }
    CHECKM(c.fixed.value() == 5, "a read-only member keeps its value");
}
