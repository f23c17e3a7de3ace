// P21: CmwLight -- an object serialised and deserialised is the same object; foreign fields are skipped and reported
#include <IoSerialiserCmwLight.hpp>
#include <variant>
#include <units/isq/si/length.h>
#include <units/isq/si/time.h>
#include "common.h"
using namespace opencmw;
template<class T, class U> static bool bits(const T &a, const U &b) { return __builtin_memcmp(&a, &b, sizeof(T)) == 0; }
struct Nums {
    bool    b = false;
    int8_t  i8 = 0;
    int16_t i16 = 0;
    int32_t i32 = 0;
    int64_t i64 = 0;
    float   f = 0;
    double  d = 0;
};
ENABLE_REFLECTION_FOR(Nums, b, i8, i16, i32, i64, f, d)
struct Text {
    std::string              s;
    std::vector<std::string> v;
};
ENABLE_REFLECTION_FOR(Text, s, v)
struct Arrays {
    std::vector<bool>      vb;
    std::vector<int16_t>   v16;
    std::vector<double>    vd;
    std::array<int32_t, 2> a{};
    MultiArray<double, 2>  m;
    std::set<int32_t>      st;
};
ENABLE_REFLECTION_FOR(Arrays, vb, v16, vd, a, m, st)
using Var = std::variant<int32_t, double, std::string, std::vector<int16_t>>;
struct Maps {
    int32_t                        pre = 0;
    std::map<std::string, int32_t> si;
    std::map<std::string, Var>     sv;
    std::map<std::string, std::vector<std::string>> ss;
    int32_t                        post = 0;
};
ENABLE_REFLECTION_FOR(Maps, pre, si, sv, ss, post)
struct Inner {
    int32_t     x = 1;
    std::string y;
};
ENABLE_REFLECTION_FOR(Inner, x, y)
struct Ptrs {
    int32_t                  pre = 0;
    std::unique_ptr<int64_t> u;
    std::shared_ptr<std::string> s;
    std::unique_ptr<Inner>   n;
    Inner                    in;
    int16_t                  post = 0;
};
ENABLE_REFLECTION_FOR(Ptrs, pre, u, s, n, in, post)
struct Ann {
    Annotated<int32_t, units::isq::si::length<units::isq::si::metre>, "a length"> len = 0;
    Annotated<std::string, NoUnit, "a text">                                      txt = std::string();
    Annotated<std::vector<float>, NoUnit>                                         vec;
};
ENABLE_REFLECTION_FOR(Ann, len, txt, vec)
template<class T, bool meta = true, ProtocolCheck check = ProtocolCheck::ALWAYS>
static DeserialiserInfo trip(const T &in, T &out) {
    IoBuffer b;
    serialise<CmwLight, meta>(b, in);
    b.reset();
    auto info = deserialise<CmwLight, check>(b, out);
    CHECKM(b.position() == b.size(), "everything written is consumed");
    CHECKM(info.exceptions.empty() && info.additionalFields.empty(), "an object of the same type raises nothing");
    return info;
}
HARNESS(h_cmw_nums) {
    Nums a{ sym<bool>("b"), sym<int8_t>("i8"), sym<int16_t>("i16"), sym<int32_t>("i32"), sym<int64_t>("i64"), sym<float>("f"), sym<double>("d") }, c;
    switch (symRange("check", 0, 2)) {
    case 0: { auto info = trip(a, c); CHECKM(info.setFields["root"] == std::vector<bool>(7, true), "all fields are marked as set"); break; }
    case 1: (void) trip<Nums, false, ProtocolCheck::LENIENT>(a, c); break;
    default: (void) trip<Nums, true, ProtocolCheck::IGNORE>(a, c);
    }
    CHECKM((a.b == c.b) & (a.i8 == c.i8) & (a.i16 == c.i16) & (a.i32 == c.i32) & (a.i64 == c.i64) & bits(a.f, c.f) & bits(a.d, c.d), "the numbers come back bit by bit");
    REACH("done");
}
HARNESS(h_cmw_text) {
    Text a, c{ "old", { "one", "two" } };
    a.s      = symStringUpTo("s", "n", 0, 4);
    size_t k = symRange("k", 0, 2);
    for (size_t i = 0; i < k; i++) a.v.push_back(symStringUpTo("e", "m", 0, 2));
    (void) trip(a, c);
    bool ok = a.v.size() == c.v.size() && same(a.s, c.s);
    for (size_t i = 0; ok && i < k; i++) ok = same(a.v[i], c.v[i]);
    CHECKM(ok, "the texts come back");
    REACH("done");
}
HARNESS(h_cmw_arrays) {
    Arrays a, c;
    c.vb   = { true, true, false };
    c.v16  = { 1, 2, 3 };
    c.st   = { 77 };
    c.m    = MultiArray<double, 2>({ 1, 2, 3, 4, 5, 6 }, { 2u, 3u });
    size_t n = symRange("n", 0, 2);
    for (size_t i = 0; i < n; i++) { a.vb.push_back(symx_branch(sym<bool>("bit"))); a.v16.push_back(sym<int16_t>("e16")); a.vd.push_back(sym<double>("ed")); }
    a.a          = { sym<int32_t>("a0"), sym<int32_t>("a1") };
    uint32_t rows = (uint32_t) symRange("rows", 0, 2), cols = (uint32_t) symRange("cols", 0, 2);
    std::vector<double> el;
    for (uint32_t i = 0; i < rows * cols; i++) el.push_back(sym<double>("el"));
    a.m = MultiArray<double, 2>(el, { rows, cols });
    int32_t s0 = sym<int32_t>("s0"), s1 = sym<int32_t>("s1");
    if (n > 0) a.st.insert(s0);
    if (n > 1) a.st.insert(s1);
    (void) trip(a, c);
    bool ok = c.vb == a.vb && c.v16.size() == n && c.vd.size() == n;
    for (size_t i = 0; ok && i < n; i++) ok &= (c.v16[i] == a.v16[i]) & bits(c.vd[i], a.vd[i]);
    CHECKM(ok && c.a == a.a, "the arrays come back");
    CHECKM(c.m.dimensions() == a.m.dimensions() && c.m.elements().size() == el.size(), "the dimensions come back");
    CHECK(c.m.element_count() == el.size() && c.m.stride(0) == a.m.stride(0) && c.m.stride(1) == a.m.stride(1) && c.m.offset(0) == a.m.offset(0) && c.m.offset(1) == a.m.offset(1));
    for (uint32_t i = 0; i < rows; i++)
        for (uint32_t j = 0; j < cols; j++) CHECKM(bits(c.m(i, j), a.m(i, j)), "every element is where it was");
    CHECKM(c.st == a.st, "the set comes back");
    REACH("done");
}
static Var var(const char *k) {
    switch (symRange(k, 0, 3)) {
    case 0: return sym<int32_t>("vi");
    case 1: return sym<double>("vd");
    case 2: return symStringUpTo("vs", "vn", 0, 2);
    default: return std::vector<int16_t>(symRange("vv", 0, 2), sym<int16_t>("ve"));
    }
}
static bool sameVar(const Var &a, const Var &b) {
    if (a.index() != b.index()) return false;
    switch (a.index()) {
    case 0: return std::get<0>(a) == std::get<0>(b);
    case 1: return bits(std::get<1>(a), std::get<1>(b));
    case 2: return same(std::get<2>(a), std::get<2>(b));
    default: return std::get<3>(a) == std::get<3>(b);
    }
}
HARNESS(h_cmw_maps) {
    Maps a, c;
    c.si = { { "old", 1 } };
    c.sv = { { "old", 2 } };
    c.ss = { { "old", { "x" } } };
    a.pre = sym<int32_t>("pre"), a.post = sym<int32_t>("post");
    size_t n = symRange("n", 0, 2);
    static const char *const keys[] = { "k", "l" };
    for (size_t i = 0; i < n; i++) {
        a.si[keys[i]] = sym<int32_t>("v");
        a.sv[keys[i]] = var("kind");
        a.ss[keys[i]] = { symString("s", 1), "t" };
    }
    (void) trip(a, c);
    CHECKM((a.pre == c.pre) & (a.post == c.post), "members around the maps come back");
    CHECKM(c.si.size() == n && c.sv.size() == n && c.ss.size() == n, "maps have the entries they had");
    for (size_t i = 0; i < n; i++) {
        CHECK(c.si.contains(keys[i]) && c.si[keys[i]] == a.si[keys[i]]);
        CHECK(c.sv.contains(keys[i]) && sameVar(c.sv[keys[i]], a.sv[keys[i]]));
        CHECK(c.ss.contains(keys[i]) && c.ss[keys[i]].size() == 2 && same(c.ss[keys[i]][0], a.ss[keys[i]][0]) && same(c.ss[keys[i]][1], "t"));
    }
    REACH("done");
}
struct Vars {
    Var     v;
    int32_t post = 0;
};
ENABLE_REFLECTION_FOR(Vars, v, post)
HARNESS(h_cmw_variant) {
    Vars a{ var("kind"), sym<int32_t>("post") }, c{ var("old"), 0 };
    (void) trip(a, c);
    CHECKM(sameVar(a.v, c.v) && a.post == c.post, "the alternative held and its value come back");
    REACH("done");
}
HARNESS(h_cmw_ptrs) {
    Ptrs a, c;
    a.pre  = sym<int32_t>("pre");
    a.post = sym<int16_t>("post");
    a.in   = { sym<int32_t>("x"), symString("y", 2) };
    int  has = (int) symRange("has", 0, 7), had = (int) symRange("had", 0, 1) * 7;
    if (has & 1) a.u = std::make_unique<int64_t>(sym<int64_t>("u"));
    if (has & 2) a.s = std::make_shared<std::string>(symString("s", 1));
    if (has & 4) a.n = std::make_unique<Inner>(Inner{ sym<int32_t>("nx"), "in" });
    if (had & 1) { c.u = std::make_unique<int64_t>(5); c.s = std::make_shared<std::string>("old"); c.n = std::make_unique<Inner>(); }
    (void) trip(a, c);
    CHECKM((a.pre == c.pre) & (a.post == c.post) & (a.in.x == c.in.x) && same(a.in.y, c.in.y), "plain members come back");
    if (has & 1) CHECKM(c.u && *c.u == *a.u, "a value behind a pointer comes back");
    else CHECKM(had ? (c.u && *c.u == 5) : !c.u, "an absent value leaves the member alone");
    if (has & 2) CHECK(c.s && same(*c.s, *a.s));
    if (has & 4) CHECK(c.n && c.n->x == a.n->x && same(c.n->y, "in"));
    else CHECK(had ? !!c.n : !c.n);
    REACH("done");
}
HARNESS(h_cmw_ann) {
    Ann a, c;
    a.len.value() = sym<int32_t>("len");
    a.txt.value() = symString("t", 2);
    a.vec.value() = { sym<float>("f0"), sym<float>("f1") };
    if (symRange("meta", 0, 1)) (void) trip(a, c);
    else (void) trip<Ann, false, ProtocolCheck::IGNORE>(a, c);
    CHECKM(a.len.value() == c.len.value() && same(a.txt.value(), c.txt.value()), "annotated members come back");
    CHECK(c.vec.value().size() == 2 && bits(c.vec.value()[0], a.vec.value()[0]) && bits(c.vec.value()[1], a.vec.value()[1]));
    REACH("done");
}
// ---- a reader whose type differs from the writer's
struct W {
    int32_t                     first = 0;
    std::string                 e1; // the reader knows none of these
    double                      e2 = 0;
    std::vector<std::string>    e3;
    std::vector<bool>           e4;
    std::set<int16_t>           e5;
    MultiArray<double, 2>       e6;
    MultiArray<int8_t, 3>       e7;
    std::array<float, 2>        e8{};
    std::vector<int64_t>        kind; // the reader wants a double here
    int8_t                      flag = 0; // and a text here
    int32_t                     last = 0;
};
ENABLE_REFLECTION_FOR(W, first, e1, e2, e3, e4, e5, e6, e7, e8, kind, flag, last)
struct R {
    int32_t     last = 1;
    std::string flag = "flag";
    double      kind = 2;
    int32_t     missing = 3; // the writer does not know it
    int32_t     first = 1;
};
ENABLE_REFLECTION_FOR(R, last, flag, kind, missing, first)
static W foreign() {
    W a;
    a.first = sym<int32_t>("first");
    a.last  = sym<int32_t>("last");
    a.flag  = sym<int8_t>("flag");
    size_t n = symRange("n", 0, 2);
    a.e1 = symString("e1", n);
    a.e2 = sym<double>("e2");
    for (size_t i = 0; i < n; i++) { a.e3.push_back(symString("e3", i)); a.e4.push_back(i == 0); a.e5.insert((int16_t) (7 + i)); a.kind.push_back(sym<int64_t>("kind")); }
    a.e6 = MultiArray<double, 2>(std::vector<double>(3 * n, 1.0), { (uint32_t) n, 3u });
    a.e7 = MultiArray<int8_t, 3>(std::vector<int8_t>(2 * n, 1), { 1u, (uint32_t) n, 2u });
    return a;
}
HARNESS(h_cmw_foreign) {
    W        a = foreign();
    IoBuffer b;
    serialise<CmwLight>(b, a);
    b.reset();
    R c;
    if (symRange("check", 0, 1)) {
        auto info = deserialise<CmwLight, ProtocolCheck::LENIENT>(b, c);
        CHECKM(info.additionalFields.size() == 8, "fields the reader does not know are listed");
        CHECKM(info.exceptions.size() == 10, "eight unknown fields and two wrong types are reported");
        CHECKM(info.setFields["root"] == (std::vector<bool>{ true, false, false, false, true }), "exactly the matching fields are marked as set");
        REACH("lenient");
    } else {
        auto info = deserialise<CmwLight, ProtocolCheck::IGNORE>(b, c);
        CHECK(info.exceptions.empty());
        REACH("ignore");
    }
    CHECKM((c.first == a.first) & (c.last == a.last), "known fields are read around unknown ones");
    CHECKM((c.kind == 2) & (c.missing == 3) && same(c.flag, "flag"), "fields that are absent or of another type keep their value");
    CHECK(b.position() == b.size());
}
HARNESS(h_cmw_strict) {
    W        a = foreign();
    IoBuffer b;
    serialise<CmwLight>(b, a);
    b.reset();
    R    c;
    bool thrown = false;
    try { (void) deserialise<CmwLight, ProtocolCheck::ALWAYS>(b, c); } catch (const ProtocolException &) { thrown = true; }
    CHECKM(thrown, "with ProtocolCheck::ALWAYS a foreign object is refused");
    REACH("done");
}
// a number or text where the reader has a nested object, and the other way round
struct W2 {
    int32_t     a = 0;
    std::string b;
    int32_t     d = 0;
};
ENABLE_REFLECTION_FOR(W2, a, b, d)
struct R2 {
    Inner   a;
    Inner   b;
    int32_t d = 8;
};
ENABLE_REFLECTION_FOR(R2, a, b, d)
HARNESS(h_cmw_nested_mismatch) {
    W2 w;
    w.a   = sym<int32_t>("a");
    w.b   = symStringUpTo("b", "n", 0, 2);
    w.d   = sym<int32_t>("d");
    IoBuffer b;
    serialise<CmwLight>(b, w);
    b.reset();
    R2 r;
    if (symRange("check", 0, 1)) {
        auto info = deserialise<CmwLight, ProtocolCheck::LENIENT>(b, r);
        CHECKM(info.exceptions.size() == 2, "two mismatches are reported");
        CHECKM(info.setFields["root"] == (std::vector<bool>{ false, false, true }), "only the matching field is marked as set");
    } else (void) deserialise<CmwLight, ProtocolCheck::IGNORE>(b, r);
    CHECKM(r.a.x == 1 && r.b.x == 1, "fields of another type keep their value");
    CHECKM(r.d == w.d, "the field behind them is read");
    REACH("done");
}
// ---- members the reader declares read-only are not set from outside
struct Ro {
    Annotated<int32_t, NoUnit, "read only", ExternalModifier::RO> fixed = 5;
    int32_t                                                       z = 0;
};
ENABLE_REFLECTION_FOR(Ro, fixed, z)
HARNESS(h_cmw_readonly) {
    Ro a, c;
    a.fixed.value() = sym<int32_t>("v");
    a.z             = sym<int32_t>("z");
    IoBuffer b;
    serialise<CmwLight>(b, a);
    b.reset();
    if (symRange("check", 0, 1)) {
        auto info = deserialise<CmwLight, ProtocolCheck::LENIENT>(b, c);
        CHECKM(info.exceptions.size() == 1, "the attempt is reported");
        CHECKM(c.z == a.z && b.position() == b.size(), "the field behind it is read");
        REACH("lenient");
    } else {
        bool thrown = false;
        try { (void) deserialise<CmwLight, ProtocolCheck::ALWAYS>(b, c); } catch (const ProtocolException &) { thrown = true; }
        CHECKM(thrown, "with ProtocolCheck::ALWAYS it is refused");
        REACH("always");
    }
    CHECKM(c.fixed.value() == 5, "a read-only member keeps its value");
}
