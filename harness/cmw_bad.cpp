// P22: CmwLight -- damaged data
#include <IoSerialiserCmwLight.hpp>
#include <units/isq/si/length.h>
#include "opaque_format.h"
#include "common.h"
using namespace opencmw;
struct Inner {
    int32_t     x = 1;
    std::string y;
};
ENABLE_REFLECTION_FOR(Inner, x, y)
// Whatever a byte or a length field is replaced by, and wherever the data end, reading terminates with a
// result or an exception and touches nothing but the data (memory errors, endless loops and std::terminate are violations by themselves)
struct D1 { int32_t x = 0; std::string s; bool b = false; };
ENABLE_REFLECTION_FOR(D1, x, s, b)
struct D2 { std::vector<int32_t> v; std::array<int16_t, 2> a{}; };
ENABLE_REFLECTION_FOR(D2, v, a)
struct D3 { std::vector<std::string> t; std::vector<bool> b; };
ENABLE_REFLECTION_FOR(D3, t, b)
struct D4 { MultiArray<int16_t, 2> m; std::set<int32_t> st; };
ENABLE_REFLECTION_FOR(D4, m, st)
struct D5 { std::map<std::string, int32_t> si; };
ENABLE_REFLECTION_FOR(D5, si)
struct D6 { std::variant<int32_t, std::vector<int16_t>> v; int8_t z = 0; };
ENABLE_REFLECTION_FOR(D6, v, z)
struct D7 { Inner in; Annotated<int32_t, units::isq::si::length<units::isq::si::metre>, "d"> l = 0; };
ENABLE_REFLECTION_FOR(D7, in, l)
#ifndef WIDTH
#define WIDTH 4
#endif
#ifndef MODES
#define MODES 2 // LENIENT
#endif
#ifndef FIRST
#define FIRST 0
#endif
template<class T>
static void readAll(const IoBuffer &src, size_t n, int modes) {
    auto *p = static_cast<uint8_t *>(malloc(n ? n : 1)); // exactly the data, so that every byte beyond is a violation
    for (size_t i = 0; i < n; i++) p[i] = src[i];
    {
        IoBuffer b(p, n);
        T        c;
        int      check = (int) symRange("check", 0, 2);
        ASSUME(modes >> check & 1);
        try {
            if (check == 0) (void) deserialise<CmwLight, ProtocolCheck::ALWAYS>(b, c);
            else if (check == 1) (void) deserialise<CmwLight, ProtocolCheck::LENIENT>(b, c);
            else (void) deserialise<CmwLight, ProtocolCheck::IGNORE>(b, c);
            REACH("read");
        } catch (const ProtocolException &) {
            REACH("refused");
        } catch (const std::exception &) {
            REACH("exception");
        }
        if constexpr (std::is_same_v<T, D4>) {
            uint64_t need = (uint64_t) c.m.dimensions()[0] * c.m.dimensions()[1];
            CHECKM(need <= c.m.elements().size(), "an array never has larger dimensions than elements");
        }
    }
    free(p);
}
template<class T>
static void damage(T &a) {
    IoBuffer b;
    serialise<CmwLight>(b, a);
    size_t at = symRange("at", FIRST, b.size() - 1);
    if (symRange("how", 0, 1)) { // any bytes at any place: length, offset and size fields among them
        for (size_t i = at; i < at + WIDTH && i < b.size(); i++) b[i] = sym<uint8_t>("word");
        readAll<T>(b, b.size(), MODES);
    } else readAll<T>(b, at, 7);
}
HARNESS(h_cmw_bad1) { D1 a{ 5, "ab", true }; damage(a); }
HARNESS(h_cmw_bad2) { D2 a{ { 1, 2 }, { 3, 4 } }; damage(a); }
HARNESS(h_cmw_bad3) { D3 a{ { "x", "yz" }, { true, false } }; damage(a); }
HARNESS(h_cmw_bad4) { D4 a{ MultiArray<int16_t, 2>({ 1, 2, 3, 4, 5, 6 }, { 2u, 3u }), { 4, 5 } }; damage(a); }
HARNESS(h_cmw_bad5) { D5 a{ { { "k", 1 }, { "l", 2 } } }; damage(a); }
HARNESS(h_cmw_bad6) { D6 a{ std::vector<int16_t>{ 2, 3 }, 5 }; damage(a); }
HARNESS(h_cmw_bad7) { D7 a; a.in = { 3, "q" }; a.l.value() = 4; damage(a); }
