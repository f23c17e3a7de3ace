// P31: MultiArray -- every element is reached by exactly one index, arithmetic and comparison work element by element
#include <MultiArray.hpp>
#include "common.h"
using namespace opencmw;
#ifndef DIM
#define DIM 10
#endif
#ifndef OFF
#define OFF 2
#endif
template<class A> using Idx = std::array<uint32_t, A::n_dims_>;
template<class A> static Idx<A> anyIn(const char *n, const Idx<A> &dims) {
    Idx<A> r;
    bool   ok = true;
    for (size_t i = 0; i < r.size(); i++) { r[i] = sym<uint32_t>(n); ok &= r[i] < dims[i]; }
    ASSUME(ok);
    return r;
}
template<class A> static Idx<A> anyDims() { Idx<A> d; for (auto &x : d) x = (uint32_t) symLazy("dim", 1, DIM, 32); return d; }
template<class A> static void layout(const A &a, const Idx<A> &dims) { // index is one-to-one onto 0 .. n-1, in row-major order, and indices undoes it
    const auto i = anyIn<A>("i", dims), k = anyIn<A>("k", dims);
    bool       eq = true, less = false;
    for (size_t n = 0; n < i.size(); n++) { less |= eq & (i[n] < k[n]); eq &= i[n] == k[n]; }
    CHECKM(a.index(i) < a.element_count(), "an index within the dimensions is within the elements");
    CHECKM((a.index(i) == a.index(k)) == eq, "different indices are different elements");
    CHECKM((a.index(i) < a.index(k)) == less, "elements are in row-major order");
}
template<class A> static void inverse(const A &a, const Idx<A> &dims) {
    const auto i  = anyIn<A>("i", dims);
    const auto b  = a.indices(a.index(i));
    bool       eq = true;
    for (size_t n = 0; n < i.size(); n++) eq &= i[n] == b[n];
    CHECKM(eq, "indices() undoes index()");
    REACH("inverse");
}
HARNESS(h_ma_layout1) { using A = MultiArray<int32_t, 1>; auto d = anyDims<A>(); layout(A(std::vector<int32_t>(), d), d); REACH("done"); }
HARNESS(h_ma_layout2) { using A = MultiArray<int32_t, 2>; auto d = anyDims<A>(); layout(A(std::vector<int32_t>(), d), d); REACH("done"); }
HARNESS(h_ma_layout3) { using A = MultiArray<int32_t, 3>; auto d = anyDims<A>(); layout(A(std::vector<int32_t>(), d), d); REACH("done"); }
HARNESS(h_ma_inverse) {
    if (symRange("rank", 0, 1)) { using A = MultiArray<int32_t, 2>; auto d = anyDims<A>(); inverse(A(std::vector<int32_t>(), d), d); }
    else { using A = MultiArray<int32_t, 3>; auto d = anyDims<A>(); inverse(A(std::vector<int32_t>(), d), d); }
}
// a window of arbitrary size at an arbitrary place of a larger array (custom strides and offsets)
HARNESS(h_ma_window) {
    using A = MultiArray<int32_t, 2>;
    auto   d = anyDims<A>();
    Idx<A> off{ (uint32_t) symLazy("off", 0, OFF, 32), (uint32_t) symLazy("off", 0, OFF, 32) };
    Idx<A> stride{ (uint32_t) symLazy("stride", 1, DIM + OFF, 32), 1 };
    ASSUME(stride[0] >= off[1] + d[1]);
    A a(std::vector<int32_t>(), d, stride, off);
    const auto i = anyIn<A>("i", d);
    CHECKM(a.index(i) == (i[0] + off[0]) * stride[0] + i[1] + off[1], "an element of a window is where the window has it");
    inverse(a, d);
}
// all accessors reach the same element
template<class A> static void access(A &a, const Idx<A> &i, size_t at) {
    const A &c = a;
    CHECKM((&a[i] == &a.elements()[at]) & (&c[i] == &a.elements()[at]) & (&a.get(i) == &a.elements()[at]) & (&c.get(i) == &a.elements()[at]), "index access");
    CHECKM((&a[(uint32_t) at] == &a.elements()[at]) & (&c[(uint32_t) at] == &a.elements()[at]) & (&a.get((uint32_t) at) == &a.elements()[at]) & (&c.get((uint32_t) at) == &a.elements()[at]), "linear access");
    CHECKM((&a((uint32_t) at) == &a.elements()[at]) & (&c((uint32_t) at) == &a.elements()[at]), "linear access (call)");
}
HARNESS(h_ma_access) {
    const uint32_t n = (uint32_t) symRange("n", 1, 3), m = (uint32_t) symRange("m", 1, 3);
    std::vector<int32_t> v(n * m);
    for (auto &x : v) x = sym<int32_t>("v");
    auto make = [&]() -> MultiArray<int32_t, 2> {
        switch (symRange("ctor", 0, 3)) {
        case 0: return MultiArray<int32_t, 2>(v, { n, m });
        case 1: return MultiArray<int32_t, 2>(std::vector<int32_t>(v), std::array<uint32_t, 2>{ n, m });
        case 2: { MultiArray<int32_t, 2> a({ n, m }); bool z = true; for (auto x : a.elements()) z &= x == 0; CHECKM(z && a.elements().size() == n * m, "a new array has zeros"); a.elements() = v; return a; }
        default: return MultiArray<int32_t, 2>(v, { n, m }, { m, 1 }, { 0, 0 });
        }
    };
    auto a = make();
    CHECKM((a.element_count() == n * m) & (a.n(0) == n) & (a.n(1) == m) & (a.dimensions() == std::array<uint32_t, 2>{ n, m }), "the dimensions are as given");
    CHECKM(a.elements() == v, "the elements are as given");
    for (uint32_t i = 0; i < n; i++) for (uint32_t k = 0; k < m; k++) { access(a, { i, k }, i * m + k); CHECKM(&a(i, k) == &a.elements()[i * m + k] && &a.get(i, k) == &a.elements()[i * m + k], "index access (call)"); }
    const auto out = sym<uint32_t>("out");
    ASSUME(out >= n * m);
    bool thrown = false;
    try { (void) a.get(out); } catch (const std::out_of_range &) { thrown = true; }
    CHECKM(thrown, "get() beyond the elements throws");
    thrown = false;
    try { (void) a.get(n, 0u); } catch (const std::out_of_range &) { thrown = true; }
    CHECKM(thrown, "get() beyond the elements throws");
    MultiArray<int32_t, 3> b(std::vector<int32_t>{ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11 }, { 2, 3, 2 });
    uint32_t               at = 0;
    for (uint32_t i = 0; i < 2; i++) for (uint32_t k = 0; k < 3; k++) for (uint32_t l = 0; l < 2; l++) { access(b, { i, k, l }, at); CHECKM(b(i, k, l) == (int) at, "three dimensions"); at++; }
    REACH("done");
}
// arithmetic, on the default layout and on a window (more elements than the dimensions span)
HARNESS(h_ma_arith) {
    std::vector<uint32_t> v(6), w(6);
    for (auto &x : v) x = sym<uint32_t>("v");
    for (auto &x : w) x = sym<uint32_t>("w");
    const bool win = symRange("window", 0, 1);
    auto       mk  = [&](const std::vector<uint32_t> &e) { return win ? MultiArray<uint32_t, 2>(e, { 1, 2 }, { 3, 1 }, { 1, 1 }) : MultiArray<uint32_t, 2>(e, { 2, 3 }); };
    auto       a   = mk(v);
    const auto b   = mk(w);
    const auto s   = sym<uint32_t>("s");
    const auto ab = a + b, as = a + s;
    CHECKM(a == mk(v), "the operands of a sum stay as they are");
    const uint32_t n = win ? 1 : 2, m = win ? 2 : 3;
    bool ok = (ab.n(0) == n) & (ab.n(1) == m) & (as.n(0) == n) & (as.n(1) == m), oks = ok;
    auto at = [&](uint32_t i, uint32_t k) { return win ? 4 + k : i * 3 + k; };
    for (uint32_t i = 0; i < n; i++) for (uint32_t k = 0; k < m; k++) { ok &= ab(i, k) == v[at(i, k)] + w[at(i, k)]; oks &= as(i, k) == v[at(i, k)] + s; }
    CHECKM(ok, "a sum has the sums of the elements");
    CHECKM(oks, "a sum with a number has the elements plus the number");
    auto c = a;
    c += b;
    auto d = a;
    d += s;
    ok = true;
    for (uint32_t i = 0; i < n; i++) for (uint32_t k = 0; k < m; k++) ok &= (c(i, k) == ab(i, k)) & (d(i, k) == as(i, k));
    CHECKM(ok, "adding in place is the same");
    bool eq = true;
    for (size_t i = 0; i < 6; i++) eq &= v[i] == w[i];
    CHECKM((a == b) == eq, "arrays are equal if all elements are");
    CHECKM(!(MultiArray<uint32_t, 2>(v, { 2, 3 }) == MultiArray<uint32_t, 2>(v, { 3, 2 })), "arrays of different dimensions differ");
    REACH("done");
}
