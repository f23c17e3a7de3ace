// P18: IoBuffer -- what is put is what is read back, growth and shrinking keep the content, copies/moves/assignments
// keep content and ownership, checked accessors refuse out-of-range positions
#include <IoBuffer.hpp>
#include <list>
#include "opaque_format.h"
#include "common.h"
using opencmw::IoBuffer;
#ifndef STEPS
#define STEPS 3
#endif
using Bytes = std::vector<uint8_t>;
static bool sameBytes(const IoBuffer &b, const Bytes &m) {
    if (b.size() != m.size()) return false;
    bool r = true;
    for (size_t i = 0; i < m.size(); i++) r &= b[i] == m[i];
    return r;
}
template<class T>
static void app(Bytes &m, T v) {
    uint8_t raw[sizeof(T)];
    __builtin_memcpy(raw, &v, sizeof(T)); // little endian on the wire
    m.insert(m.end(), raw, raw + sizeof(T));
}
static void appStr(Bytes &m, const std::string &s) { app<int32_t>(m, (int32_t) s.size() + 1); for (char c : s) m.push_back((uint8_t) c); m.push_back(0); }
// ---- one value of every kind after arbitrary earlier content: wire image and read back
template<class T>
static void oneNumber(IoBuffer &b, Bytes &m) {
    T v = sym<T>("v");
    b.put(v);
    app<T>(m, v);
    CHECKM(sameBytes(b, m), "a number is appended with its own bytes");
    IoBuffer r(reinterpret_cast<const char *>(b.data()), b.size());
    r.set_position(m.size() - sizeof(T));
    T w = r.get<T>();
    CHECKM(__builtin_memcmp(&v, &w, sizeof(T)) == 0, "the number is read back");
    CHECK(r.position() == r.size());
}
template<class T>
static void vec(IoBuffer &b, Bytes &m, size_t n) {
    const size_t   at = m.size();
    std::vector<T> v(n);
    if (n) symx_bytes("vec", v.data(), n * sizeof(T));
    b.put(v);
    app<int32_t>(m, (int32_t) n);
    for (auto &x : v) app<T>(m, x);
    CHECKM(sameBytes(b, m), "an array is appended as its length and elements");
    b.set_position(at);
    std::vector<T> w{ T(1), T(2), T(3), T(4), T(5), T(6), T(7) };
    b.getArray(w);
    bool ok = w.size() == n;
    for (size_t i = 0; ok && i < n; i++) ok = (__builtin_memcmp(&v[i], &w[i], sizeof(T)) == 0);
    CHECKM(ok, "the array is read back");
    CHECK(b.position() == b.size());
    b.set_position(at);
    std::vector<T> part;
    b.getArray(part, 2);
    CHECKM(part.size() == std::min<size_t>(n, 2), "a requested maximum limits the elements read");
}
static IoBuffer prefilled(Bytes &m) {
    size_t   cap = symRange("cap", 0, 5) * 9; // 0, 9, 18 ...: below, at and above what the put needs
    size_t   k   = symRange("k", 0, 2);
    IoBuffer b(cap);
    for (size_t i = 0; i < k; i++) { uint8_t v = sym<uint8_t>("pre"); b.put(v); m.push_back(v); }
    return b;
}
HARNESS(h_numbers) {
    Bytes    m;
    IoBuffer b = prefilled(m);
    switch (symRange("type", 0, 10)) {
    case 0: oneNumber<int8_t>(b, m); break;
    case 1: oneNumber<uint8_t>(b, m); break;
    case 2: oneNumber<int16_t>(b, m); break;
    case 4: oneNumber<int32_t>(b, m); break;
    case 6: oneNumber<int64_t>(b, m); break;
    case 8: oneNumber<float>(b, m); break;
    case 9: oneNumber<double>(b, m); break;
    default: oneNumber<bool>(b, m); break;
    }
    REACH("number");
}
HARNESS(h_arrays) {
    Bytes    m;
    IoBuffer b = prefilled(m);
    size_t   n = symRange("n", 0, 4);
    switch (symRange("type", 0, 5)) {
    case 0: vec<int8_t>(b, m, n); break;
    case 1: vec<int16_t>(b, m, n); break;
    case 2: vec<int32_t>(b, m, n); break;
    case 3: vec<double>(b, m, n); break;
    case 4: vec<float>(b, m, n); break;
    default: vec<int64_t>(b, m, n); break;
    }
    REACH("array");
}
HARNESS(h_bools) {
    Bytes             m;
    IoBuffer          b  = prefilled(m);
    const size_t      at = m.size();
    size_t            n  = symRange("n", 0, 3);
    std::vector<bool> v;
    for (size_t i = 0; i < n; i++) v.push_back(symx_branch(sym<bool>("bit")));
    b.put(v);
    app<int32_t>(m, (int32_t) n);
    for (bool x : v) m.push_back(x);
    std::array<bool, 2> a{ sym<bool>("a0"), sym<bool>("a1") };
    b.put(a);
    app<int32_t>(m, 2);
    m.push_back(a[0]);
    m.push_back(a[1]);
    CHECKM(sameBytes(b, m), "booleans are appended as a length and one byte each");
    b.set_position(at);
    std::vector<bool> w{ true, false, true, true };
    b.getArray(w);
    CHECK(w == v);
    std::array<bool, 2> a2{};
    b.getArray(a2);
    CHECK((a2[0] == a[0]) & (a2[1] == a[1]));
    CHECK(b.position() == b.size());
    REACH("bools");
}
HARNESS(h_strings) {
    Bytes        m;
    IoBuffer     b  = prefilled(m);
    const size_t at = m.size();
    std::string  s  = symStringUpTo("s", "n", 0, 5);
    b.put(s);
    appStr(m, s);
    std::string_view sv = s;
    b.put(sv);
    appStr(m, s);
    CHECKM(sameBytes(b, m), "a string is appended as its length, characters and a terminator");
    b.set_position(at);
    std::string s2 = b.get<std::string>();
    CHECKM(same(s2, s), "the string is read back");
    std::string_view s3 = b.get<std::string_view>();
    CHECKM(same(s3, s), "the string is read back");
    CHECK(b.position() == b.size());
    // the characters alone
    b.put<IoBuffer::MetaInfo::WITHOUT>(s);
    for (char c : s) m.push_back((uint8_t) c);
    CHECK(sameBytes(b, m));
    CHECKM(same(b.asString(m.size() - s.size(), (int) s.size()), s), "characters put without length are the tail of the buffer");
    REACH("string");
}
HARNESS(h_string_arrays) {
    Bytes                    m;
    IoBuffer                 b  = prefilled(m);
    const size_t             at = m.size();
    std::vector<std::string> v;
    size_t                   n = symRange("n", 0, 3);
    for (size_t i = 0; i < n; i++) v.push_back(symStringUpTo("s", "len", 0, 2));
    b.put(v);
    app<int32_t>(m, (int32_t) n);
    for (auto &s : v) appStr(m, s);
    std::array<std::string, 2> a{ "left", std::string(30, 'R') };
    b.put(a);
    app<int32_t>(m, 2);
    for (auto &s : a) appStr(m, s);
    CHECKM(sameBytes(b, m), "strings are appended as their number and each string");
    b.set_position(at);
    std::vector<std::string> w{ "x", "y" };
    b.getArray(w);
    bool ok = w.size() == n;
    for (size_t i = 0; ok && i < n; i++) ok = same(w[i], v[i]);
    CHECKM(ok, "the strings are read back");
    std::array<std::string, 2> a2;
    b.getArray(a2);
    CHECK(same(a2[0], a[0]) && same(a2[1], a[1]));
    CHECK(b.position() == b.size());
    REACH("strings");
}
// ---- any sequence of growth, shrinking and writes keeps the content
HARNESS(h_grow) {
    uint64_t mark = symx_heap_mark();
    {
        Bytes    m;
        bool     pmr = symx_branch(sym<bool>("newdelete"));
        size_t   cap = symRange("cap", 0, 2) * 5;
        IoBuffer b   = pmr ? IoBuffer(cap, std::pmr::polymorphic_allocator<uint8_t>(std::pmr::new_delete_resource())) : IoBuffer(cap);
        for (int i = 0; i < STEPS; i++) {
            switch (symRange("op", 0, 8)) {
            case 0: { uint8_t v = sym<uint8_t>("v8"); b.put(v); m.push_back(v); break; }
            case 1: { int64_t v = sym<int64_t>("v64"); b.put(v); app(m, v); break; }
            case 2: { std::string s = symString("s", 3); b.put(s); appStr(m, s); break; }
            case 3: { size_t n = symRange("cap2", 0, 3) * 7; b.reserve(n); CHECK(b.capacity() >= n); REACH("reserve"); break; }
            case 4: {
                size_t n = symRange("size", 0, 3) * 6, old = m.size();
                b.resize(n);
                m.resize(n);
                for (size_t k = old; k < n; k++) b[k] = m[k] = sym<uint8_t>("fill");
                REACH("resize");
                break;
            }
            case 5: b.shrink_to_fit(); CHECKM(b.capacity() == b.size(), "shrink_to_fit leaves no spare capacity"); REACH("shrink"); break;
            case 6: b.clear(); m.clear(); CHECK(b.position() == 0 && b.empty()); REACH("clear"); break;
            case 7: b.reserve_spare(symRange("spare", 0, 2) * 11); break;
            default: { std::vector<int32_t> v(2); symx_bytes("v", v.data(), 8); b.put(v); app<int32_t>(m, 2); app(m, v[0]); app(m, v[1]); break; }
            }
            CHECKM(b.size() == m.size(), "the size is what was put");
            CHECKM(b.capacity() >= b.size(), "the capacity covers the size");
            CHECKM(sameBytes(b, m), "growing and shrinking keep the content");
        }
    }
    CHECKM(symx_heap_live(mark) == 0, "no memory is leaked");
    REACH("grow");
}
// ---- checked accessors, for every position
HARNESS(h_checked) {
    size_t   n = symRange("size", 0, 6);
    IoBuffer b(symRange("exact", 0, 1) ? n : 2 * n + 8);
    b.resize(n);
    if (n) symx_bytes("data", b.data(), n);
    Bytes m(b.data(), b.data() + n);
    switch (symRange("what", 0, 4)) {
    case 0: {
        size_t pos = symRange("pos", 0, n);
        b.set_position(pos);
        int d = sym<int>("d");
        try {
            b.skip(d);
            CHECKM((int64_t) pos + d >= 0 && (int64_t) pos + d <= (int64_t) n, "skip refuses to leave the content");
            CHECK((int64_t) b.position() == (int64_t) pos + d);
            REACH("skip");
        } catch (const std::out_of_range &) {
            CHECKM((int64_t) pos + d < 0 || (int64_t) pos + d > (int64_t) n, "skip inside the content is accepted");
            CHECK(b.position() == pos);
            REACH("skip refused");
        }
        break;
    }
    case 1: {
        size_t i = sym<size_t>("i");
        try {
            auto &x = b.at<uint8_t>(i);
            CHECKM(i < n, "at refuses an index outside the content");
            CHECK(x == m[symx_concretize(i)]);
            REACH("at1");
        } catch (const std::out_of_range &) { CHECKM(i >= n, "at accepts an index inside the content"); REACH("at1 refused"); }
        break;
    }
    case 2: {
        size_t i = sym<size_t>("i");
        try {
            auto &x = b.at<uint32_t>(i);
            CHECKM(i < n && i + 4 <= n, "at refuses an element that is not entirely inside the content");
            uint32_t y;
            __builtin_memcpy(&y, m.data() + symx_concretize(i), 4);
            uint32_t z;
            __builtin_memcpy(&z, &x, 4);
            CHECK(z == y);
            REACH("at4");
        } catch (const std::out_of_range &) { CHECKM(i >= n || i + 4 > n, "at accepts an element inside the content"); REACH("at4 refused"); }
        break;
    }
    case 3: {
        size_t i = sym<size_t>("i");
        int    l = sym<int>("l");
        try {
            auto s = b.asString(i, l);
            CHECKM(i <= n && (l < 0 || i + (size_t) l <= n), "asString refuses a range outside the content");
            CHECK(s.data() == reinterpret_cast<const char *>(b.data()) + i);
            CHECK(s.size() == (l < 0 ? n - i : (size_t) l));
            REACH("string");
        } catch (const std::out_of_range &) { CHECKM(i > n || (l >= 0 && i + (size_t) l > n), "asString accepts a range inside the content"); REACH("string refused"); }
        break;
    }
    default: {
        std::array<int32_t, 2> a{ 5, 6 };
        IoBuffer               w;
        size_t                 k = symRange("elements", 0, 3);
        std::vector<int32_t>   v(k);
        for (auto &x : v) x = sym<int32_t>("e");
        w.put(v);
        try {
            w.getArray<std::array<int32_t, 2>, true>(a);
            CHECKM(k <= 2, "more elements than the std::array holds are refused");
            CHECK((k < 1 || a[0] == v[0]) && (k < 2 || a[1] == v[1]));
            REACH("array");
        } catch (const std::out_of_range &) { CHECK(k > 2); REACH("array refused"); }
        break;
    }
    }
}
// ---- lifetime: content, independence and ownership over copies, moves, assignments
struct Kind {
    uint8_t  wrapped[8];
    int      kind;
    Bytes    m;
    IoBuffer make(int k, uint8_t tag) {
        kind = k;
        m.clear();
        if (k < 2) {
            IoBuffer b = k == 0 ? IoBuffer(3) : IoBuffer(3, std::pmr::polymorphic_allocator<uint8_t>(std::pmr::new_delete_resource()));
            for (int i = 0; i < 3; i++) { b.put((uint8_t) (tag + i)); m.push_back((uint8_t) (tag + i)); }
            (void) b.get<uint8_t>();
            return b;
        }
        if (k == 4) return IoBuffer();
        for (int i = 0; i < 8; i++) m.push_back(wrapped[i] = (uint8_t) (tag + i));
        if (k == 2) return IoBuffer(wrapped, 8);
        auto *p = static_cast<uint8_t *>(malloc(8));
        __builtin_memcpy(p, wrapped, 8);
        return IoBuffer(p, 8, true);
    }
};
static void usable(IoBuffer &b) { // after it gave up its content the buffer is an ordinary one
    b.clear();
    CHECK(b.size() == 0);
    b.put((int16_t) 0x1234);
    CHECKM(b.size() == 2 && b[0] == 0x34 && b[1] == 0x12, "a cleared buffer can be written again");
}
static bool growable(const IoBuffer &, int kind) { return kind != 2 && kind != 3; }
HARNESS(h_life) {
    Kind     A, B;
    uint64_t mark = symx_heap_mark();
    {
        int      ka = (int) symRange("ka", 0, 4), kb = (int) symRange("kb", 0, 4);
        uint8_t  ta = sym<uint8_t>("ta"), tb = sym<uint8_t>("tb");
        IoBuffer a = A.make(ka, ta), b = B.make(kb, tb);
        const size_t posA = a.position();
        switch (symRange("op", 0, 8)) {
        case 8:
            if (growable(a, ka)) { a.reserve(64); CHECKM(a.capacity() >= 64 && sameBytes(a, A.m) && a.position() == posA, "reserving keeps content and position"); }
            a.shrink_to_fit();
            CHECKM(sameBytes(a, A.m) && a.position() == posA, "shrinking keeps content and position");
            if (growable(a, ka)) usable(a);
            REACH("shrink");
            break;
        case 0: {
            IoBuffer c(a);
            CHECKM(sameBytes(c, A.m) && sameBytes(a, A.m) && c.position() == posA, "a copy has the content and position");
            if (c.size()) { c[0] = (uint8_t) ~c[0]; CHECKM(sameBytes(a, A.m), "writing to a copy leaves the original alone"); }
            usable(c);
            CHECK(sameBytes(a, A.m));
            REACH("copy");
            break;
        }
        case 1: {
            IoBuffer c(std::move(a));
            CHECKM(sameBytes(c, A.m) && c.position() == posA, "moving hands over content and position");
            CHECKM(a.size() == 0 && a.position() == 0 && a.capacity() == 0, "a moved-from buffer is empty");
            if (growable(a, ka)) usable(a);
            REACH("move");
            break;
        }
        case 2:
            b = a;
            CHECKM(sameBytes(b, A.m) && sameBytes(a, A.m) && b.position() == posA, "assignment copies content and position");
            if (b.size()) { b[0] = (uint8_t) ~b[0]; CHECK(sameBytes(a, A.m)); }
            usable(b);
            CHECK(sameBytes(a, A.m));
            REACH("copy-assign");
            break;
        case 3:
            b = std::move(a);
            CHECKM(sameBytes(b, A.m) && b.position() == posA, "move assignment hands over content and position");
            CHECKM(a.data() == nullptr ? (a.size() == 0 && a.capacity() == 0) : true, "a moved-from buffer is consistent");
            if (growable(b, ka)) usable(b);
            REACH("move-assign");
            break;
        case 4: {
            IoBuffer &r = a;
            a           = r;
            CHECKM(sameBytes(a, A.m) && a.position() == posA, "self-assignment keeps the content");
            if (growable(a, ka)) usable(a);
            REACH("self");
            break;
        }
        case 5: {
            IoBuffer &r = a;
            a           = std::move(r);
            CHECKM(sameBytes(a, A.m) && a.position() == posA, "self-move keeps the content");
            if (growable(a, ka)) usable(a);
            REACH("self-move");
            break;
        }
        case 6:
            a.swap(b);
            CHECKM(sameBytes(a, B.m) && sameBytes(b, A.m) && b.position() == posA, "swap exchanges the contents");
            if (growable(a, kb)) usable(a);
            if (growable(b, ka)) usable(b);
            REACH("swap");
            break;
        default: {
            std::vector<IoBuffer> v;
            v.push_back(std::move(a));
            v.push_back(b);
            v.emplace_back(v[0]);
            CHECK(sameBytes(v[0], A.m) && sameBytes(v[1], B.m) && sameBytes(v[2], A.m));
            v.erase(v.begin());
            CHECK(sameBytes(v[0], B.m) && sameBytes(v[1], A.m));
            REACH("vector");
        }
        }
    }
    CHECKM(symx_heap_live(mark) == (A.m.capacity() != 0) + (uint64_t) (B.m.capacity() != 0), "every buffer is released exactly once");
    bool ok = true;
    if (A.kind == 2) for (size_t i = 0; i < 8; i++) ok &= A.wrapped[i] == A.m[i];
    (void) ok;
    REACH("life");
}
// ---- content of any bytes: reading never leaves it
#ifndef NTRUNC
#define NTRUNC 10
#endif
template<class T>
static void anyVec(IoBuffer &b, size_t left) {
    std::vector<T> v;
    b.getArray(v);
    CHECKM(v.size() * sizeof(T) <= left, "an array never has more elements than the content holds");
}
HARNESS(h_any_content) {
    size_t n = symRange("n", 0, NTRUNC), pos = symRange("pos", 0, n);
    auto  *p = static_cast<uint8_t *>(malloc(n ? n : 1));
    if (n) symx_bytes("data", p, n);
    IoBuffer b(p, n);
    b.set_position(pos);
    switch (symRange("what", 0, 8)) {
    case 0: { int32_t v = b.get<int32_t>(); int32_t w = 0; if (n - pos >= 4) __builtin_memcpy(&w, p + pos, 4); CHECK(v == w); break; }
    case 1: (void) b.get<double>(); break;
    case 2: (void) b.get<uint8_t>(); break;
    case 3: { std::string_view s = b.get<std::string_view>(); CHECKM(s.size() <= n - pos, "a string never has more characters than the content holds"); CHECK(s.empty() || symx_valid(s.data(), symx_concretize(s.size()))); REACH("string"); break; }
    case 4: { std::string s = b.get<std::string>(); CHECK(s.size() <= n - pos); break; }
    case 5: anyVec<uint8_t>(b, n - pos); break;
    case 6: anyVec<int16_t>(b, n - pos); break;
    case 7: anyVec<int64_t>(b, n - pos); break;
    default: { std::vector<std::string> v; b.getArray(v); CHECK(v.size() * 4 <= n - pos || v.empty()); REACH("strings"); break; }
    }
    free(p);
    REACH("any");
}
