// Runtime models for the symbolic executor: the parts of libstdc++/libc that live in shared libraries rather than headers.
// Compiled to LLVM bitcode and linked with every harness. Compiled with -fno-access-control.
#include "prelude.h"
#include <atomic>
#include <bitset>
#include <charconv>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <iomanip>
#include <ios>
#include <iostream>
#include <istream>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include <any>
#include "symx.h"

extern "C" {
uint64_t symx_exn_current();
void     symx_exn_addref(uint64_t);
void     symx_exn_release(uint64_t);
[[noreturn]] void symx_exn_rethrow(uint64_t);
uint64_t symx_uncaught();
}

extern "C" {
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
}
static bool digitVal(unsigned char c, int base, int &d) {
    int v = std::isdigit(c) ? c - '0' : std::isalpha(c) ? std::tolower(c) - 'a' + 10 : 99;
    if (v < base) { d = v; return true; }
    return false;
}

// ------------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }

static char *dupMsg(const char *s, size_t n) { char *p = (char *) __builtin_malloc(n + 1); __builtin_memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = dupMsg("", 0); }
__cow_string::__cow_string(const std::string &s) { _M_p = dupMsg(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = dupMsg(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = dupMsg(o._M_p, __builtin_strlen(o._M_p)); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { __builtin_free((void *) _M_p); _M_p = dupMsg(o._M_p, __builtin_strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { __builtin_free((void *) _M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; o._M_p = dupMsg("", 0); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { auto t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char *s) : exception(), _M_msg(s, __builtin_strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, __builtin_strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define LE(T) T::T(const string &s) : logic_error(s) {} T::T(const char *s) : logic_error(s) {} T::~T() noexcept {}
#define RE(T) T::T(const string &s) : runtime_error(s) {} T::T(const char *s) : runtime_error(s) {} T::~T() noexcept {}
LE(domain_error) LE(invalid_argument) LE(length_error) LE(out_of_range)
RE(range_error) RE(overflow_error) RE(underflow_error)

// error categories
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
error_condition error_code::default_error_condition() const noexcept { return error_condition(_M_value, *_M_cat); }
namespace { struct GenCat final : error_category { const char *name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } }; 
struct SysCat final : error_category { const char *name() const noexcept override { return "system"; } string message(int) const override { return "error"; } error_condition default_error_condition(int i) const noexcept override { return error_condition(i, generic_category()); } };
struct IoCat final : error_category { const char *name() const noexcept override { return "iostream"; } string message(int) const override { return "iostream error"; } };
struct FutCat final : error_category { const char *name() const noexcept override { return "future"; } string message(int) const override { return "future error"; } }; }
inline namespace _V2 {
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
const error_category &generic_category() noexcept { static GenCat c; return c; }
const error_category &system_category() noexcept { static SysCat c; return c; }
}
const error_category &iostream_category() noexcept { static IoCat c; return c; }
const error_category &future_category() noexcept { static FutCat c; return c; }
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return logic_error::what(); }
ios_base::failure::failure(const string &s) : system_error(error_code(1, iostream_category()), s) {}
ios_base::failure::failure(const string &s, const error_code &e) : system_error(e, s) {}
ios_base::failure::failure(const char *s, const error_code &e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char *ios_base::failure::what() const throw() { return runtime_error::what(); }

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_ios_failure(const char *s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char *s, int e) { throw ios_base::failure(s, error_code(e, system_category())); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_future_error(int e) { throw future_error(make_error_code(future_errc(e))); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __glibcxx_assert_fail(const char *, int, const char *, const char *c) noexcept { symx_assert_(0, c ? c : "libstdc++ assertion"); symx_kill(); }
bool uncaught_exception() noexcept { return symx_uncaught() != 0; }
int uncaught_exceptions() noexcept { return (int) symx_uncaught(); }

namespace __exception_ptr {
exception_ptr::exception_ptr(void *p) noexcept : _M_exception_object(p) { if (p) symx_exn_addref((uint64_t) p); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) symx_exn_addref((uint64_t) _M_exception_object); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { symx_exn_release((uint64_t) _M_exception_object); _M_exception_object = nullptr; } }
} // namespace __exception_ptr
exception_ptr current_exception() noexcept { return exception_ptr((void *) symx_exn_current()); }
void rethrow_exception(exception_ptr p) { symx_exn_rethrow((uint64_t) p._M_exception_object); }
} // namespace std

// ------------------------------------------------------------------ containers
namespace std {
size_t _Hash_bytes(const void *, size_t, size_t) { return 7; } // any consistent hash is admissible; a constant keeps symbolic keys in one bucket
size_t _Fnv_hash_bytes(const void *, size_t, size_t) { return 7; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t pr[] = { 1, 2, 5, 11, 13, 29, 59, 127, 257, 541, 1109 };
    size_t r = 2357;
    for (size_t p : pr) if (p >= n) { r = p; break; }
    _M_next_resize = r;
    return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize) {
        size_t want = ne + ni > (_M_next_resize ? 0 : 11) ? ne + ni : 11;
        if (want >= nb) return { true, _M_next_bkt(want + 1 > nb * 2 ? want + 1 : nb * 2) };
        _M_next_resize = nb;
    }
    return { false, 0 };
}
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next; auto *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
} // namespace __detail
// red-black tree primitives: an unbalanced binary search tree with the same interface (balance is not observable)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    auto *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // header
    if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    auto *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
    } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
    auto replace = [&](_Rb_tree_node_base *u, _Rb_tree_node_base *v) {
        if (h._M_parent == u) h._M_parent = v;
        else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
        else u->_M_parent->_M_right = v;
        if (v) v->_M_parent = u->_M_parent;
    };
    _Rb_tree_node_base *next = nullptr, *prev = nullptr;
    if (h._M_left == z) next = _Rb_tree_increment(z);
    if (h._M_right == z) prev = h._M_left == z ? &h : _Rb_tree_decrement(z);
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        auto *y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (next) h._M_left = next;
    if (prev) h._M_right = prev;
    return z;
}
} // namespace std

// ------------------------------------------------------------------ locale / iostreams
namespace std {
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale &) noexcept : _M_impl(nullptr) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
const locale &locale::classic() { static locale l; return l; }
string locale::name() const { return "C"; }
bool locale::operator==(const locale &) const noexcept { return true; }
size_t locale::id::_M_id() const noexcept { return 0; }
locale locale::global(const locale &) { return locale(); }
locale::id ctype<char>::id;
template<> locale::id numpunct<char>::id{};
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_size(0), _M_word(nullptr) {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
locale ios_base::imbue(const locale &) noexcept { return locale(); }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void ios_base::_M_move(ios_base &o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; }
void ios_base::_M_swap(ios_base &o) noexcept { std::swap(_M_precision, o._M_precision); std::swap(_M_width, o._M_width); std::swap(_M_flags, o._M_flags); std::swap(_M_exception, o._M_exception); std::swap(_M_streambuf_state, o._M_streambuf_state); }
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}
} // namespace std
using ios_c = std::basic_ios<char>;
using osx = std::ostream;
using isx = std::istream;
using sbuf = std::streambuf;
#define OVR(mangled) extern "C" __attribute__((used)) 
extern "C" {
// std::basic_ios<char>::init(streambuf*)
__attribute__((used)) void __ovr__ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E(ios_c *s, sbuf *b) {
    s->_M_init();
    s->_M_ctype = nullptr; s->_M_num_put = nullptr; s->_M_num_get = nullptr;
    s->_M_fill = ' '; s->_M_fill_init = true; s->_M_tie = nullptr; s->_M_exception = std::ios_base::goodbit;
    s->_M_streambuf = b;
    s->_M_streambuf_state = b ? std::ios_base::goodbit : std::ios_base::badbit;
}
__attribute__((used)) void __ovr__ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale(ios_c *, const std::locale *) {}
__attribute__((used)) char __ovr__ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc(const ios_c *, char c) { return c; }
__attribute__((used)) char __ovr__ZNKSt9basic_iosIcSt11char_traitsIcEE6narrowEcc(const ios_c *, char c, char) { return c; }
}
static void putPadded(osx &o, const char *pre, size_t npre, const char *body, size_t nb) {
    osx::sentry ok(o);
    if (!ok) return;
    auto   w = (size_t) (o.width() > 0 ? o.width() : 0);
    size_t pad = w > npre + nb ? w - npre - nb : 0;
    auto   adj = o.flags() & std::ios_base::adjustfield;
    auto  *sb = o.rdbuf();
    char   f = o.fill();
    bool   good = true;
    auto   put = [&](const char *p, size_t n) { if (n && (size_t) sb->sputn(p, (std::streamsize) n) != n) good = false; };
    auto   fill = [&] { for (size_t i = 0; i < pad; i++) if (sb->sputc(f) == EOF) good = false; };
    if (adj == std::ios_base::left) { put(pre, npre); put(body, nb); fill(); }
    else if (adj == std::ios_base::internal) { put(pre, npre); fill(); put(body, nb); }
    else { fill(); put(pre, npre); put(body, nb); }
    o.width(0);
    if (!good) o.setstate(std::ios_base::badbit);
}
static void putInt(osx &o, unsigned long long mag, bool neg, bool isSigned) {
    char buf[80]; size_t n = 0;
    auto base = o.flags() & std::ios_base::basefield;
    bool up = (o.flags() & std::ios_base::uppercase) != 0, sb = (o.flags() & std::ios_base::showbase) != 0;
    char pre[4]; size_t np = 0;
    if (base == std::ios_base::hex) {
        if (sb && mag) { pre[np++] = '0'; pre[np++] = up ? 'X' : 'x'; }
        do { unsigned d = (unsigned) (mag & 15); buf[79 - n++] = (char) (d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); mag >>= 4; } while (mag);
    } else if (base == std::ios_base::oct) {
        if (sb && mag) pre[np++] = '0';
        do { buf[79 - n++] = (char) ('0' + (mag & 7)); mag >>= 3; } while (mag);
    } else {
        if (neg) pre[np++] = '-';
        else if (isSigned && (o.flags() & std::ios_base::showpos)) pre[np++] = '+';
        do { buf[79 - n++] = (char) ('0' + mag % 10); mag /= 10; } while (mag);
    }
    putPadded(o, pre, np, buf + 80 - n, n);
}
static bool isDec(osx &o) { auto b = o.flags() & std::ios_base::basefield; return b != std::ios_base::hex && b != std::ios_base::oct; }
extern "C" {
__attribute__((used)) osx *__ovr__ZNSo9_M_insertIlEERSoT_(osx *o, long v) { bool neg = isDec(*o) && v < 0; putInt(*o, neg ? 0ull - (unsigned long long) v : (unsigned long long) v, neg, true); return o; }
__attribute__((used)) osx *__ovr__ZNSo9_M_insertIxEERSoT_(osx *o, long long v) { bool neg = isDec(*o) && v < 0; putInt(*o, neg ? 0ull - (unsigned long long) v : (unsigned long long) v, neg, true); return o; }
__attribute__((used)) osx *__ovr__ZNSo9_M_insertImEERSoT_(osx *o, unsigned long v) { putInt(*o, v, false, false); return o; }
__attribute__((used)) osx *__ovr__ZNSo9_M_insertIyEERSoT_(osx *o, unsigned long long v) { putInt(*o, v, false, false); return o; }
__attribute__((used)) osx *__ovr__ZNSo9_M_insertIbEERSoT_(osx *o, bool v) {
    if (o->flags() & std::ios_base::boolalpha) { if (v) putPadded(*o, "", 0, "true", 4); else putPadded(*o, "", 0, "false", 5); }
    else putInt(*o, v, false, true);
    return o;
}
__attribute__((used)) osx *__ovr__ZNSo9_M_insertIPKvEERSoT_(osx *o, const void *) { putPadded(*o, "", 0, "0xptr", 5); return o; }
__attribute__((used)) osx *__ovr__ZNSo9_M_insertIdEERSoT_(osx *o, double) { putPadded(*o, "", 0, "<fp>", 4); return o; }
__attribute__((used)) osx *__ovr__ZNSo9_M_insertIeEERSoT_(osx *o, long double) { putPadded(*o, "", 0, "<fp>", 4); return o; }
}
// num_get for integers (C locale), stage 2/3 semantics of [facet.num.get.virtuals]
template<class T>
static void getInt(isx &is, T &out) {
    isx::sentry ok(is, false);
    if (!ok) { return; }
    auto *sb   = is.rdbuf();
    auto  bf   = is.flags() & std::ios_base::basefield;
    int   base = bf == std::ios_base::oct ? 8 : bf == std::ios_base::hex ? 16 : bf == 0 ? 0 : 10;
    auto  st   = std::ios_base::goodbit;
    bool  neg = false, any = false, over = false;
    int   c = sb->sgetc();
    if (c == '-' || c == '+') { neg = c == '-'; c = sb->snextc(); }
    if ((base == 16 || base == 0) && c == '0') {
        any = true;
        c   = sb->snextc();
        if (c == 'x' || c == 'X') { any = false; base = 16; c = sb->snextc(); }
        else if (base == 0) base = 8;
    }
    if (base == 0) base = 10;
    unsigned long long v = 0;
    while (c != EOF) {
        int d;
        if (!digitVal((unsigned char) c, base, d)) break;
        any = true;
        if (v > (~0ull - (unsigned) d) / (unsigned) base) over = true;
        v = v * (unsigned) base + (unsigned) d;
        c = sb->snextc();
    }
    if (c == EOF) st |= std::ios_base::eofbit;
    if (!any) { out = 0; st |= std::ios_base::failbit; }
    else if constexpr (std::is_signed_v<T>) {
        unsigned long long lim = neg ? (unsigned long long) std::numeric_limits<T>::max() + 1 : (unsigned long long) std::numeric_limits<T>::max();
        if (over || v > lim) { out = neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); st |= std::ios_base::failbit; }
        else out = (T) (neg ? 0 - v : v);
    } else {
        if (over || v > std::numeric_limits<T>::max()) { out = std::numeric_limits<T>::max(); st |= std::ios_base::failbit; }
        else out = (T) (neg ? 0 - v : v);
    }
    if (st) is.setstate(st);
}
extern "C" {
__attribute__((used)) isx *__ovr__ZNSi10_M_extractIlEERSiRT_(isx *i, long *v) { getInt(*i, *v); return i; }
__attribute__((used)) isx *__ovr__ZNSi10_M_extractIxEERSiRT_(isx *i, long long *v) { getInt(*i, *v); return i; }
__attribute__((used)) isx *__ovr__ZNSi10_M_extractImEERSiRT_(isx *i, unsigned long *v) { getInt(*i, *v); return i; }
__attribute__((used)) isx *__ovr__ZNSi10_M_extractIyEERSiRT_(isx *i, unsigned long long *v) { getInt(*i, *v); return i; }
__attribute__((used)) isx *__ovr__ZNSi10_M_extractItEERSiRT_(isx *i, unsigned short *v) { getInt(*i, *v); return i; }
__attribute__((used)) isx *__ovr__ZNSi10_M_extractIjEERSiRT_(isx *i, unsigned int *v) { getInt(*i, *v); return i; }
__attribute__((used)) isx *__ovr__ZNSirsERi(isx *i, int *v) { getInt(*i, *v); return i; }
__attribute__((used)) isx *__ovr__ZNSirsERs(isx *i, short *v) { getInt(*i, *v); return i; }
// istream::sentry: skip whitespace without the ctype facet
__attribute__((used)) void __ovr__ZNSi6sentryC2ERSib(isx::sentry *s, isx *is, bool noskip) {
    s->_M_ok = false;
    auto st = std::ios_base::goodbit;
    if (is->good()) {
        if (!noskip && (is->flags() & std::ios_base::skipws)) {
            int c = is->rdbuf()->sgetc();
            while (c != EOF && isspace(c)) c = is->rdbuf()->snextc();
            if (c == EOF) st |= std::ios_base::eofbit;
        }
    }
    if (is->good() && st == std::ios_base::goodbit) s->_M_ok = true;
    else { st |= std::ios_base::failbit; is->setstate(st); }
}
__attribute__((used)) void __ovr__ZNSi6sentryC1ERSib(isx::sentry *s, isx *is, bool noskip) { __ovr__ZNSi6sentryC2ERSib(s, is, noskip); }
}
// ------------------------------------------------------------------ time
extern "C" uint64_t symx_clock_ns();
#ifndef SYMX_OWN_CLOCK
static thread_local uint64_t s_now = 1000000000ull;
extern "C" __attribute__((weak)) void symx_clock_skip() { s_now += 3600000000000ull; } // a timed wait ran out
extern "C" __attribute__((weak)) uint64_t symx_clock_ns() { return s_now += 1000; }
#endif
namespace std::chrono::_V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t) symx_clock_ns())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t) symx_clock_ns())); }
}

// ---- memory resources of <memory_resource>
#include <memory_resource>
namespace {
struct NewDelete final : std::pmr::memory_resource {
    void *do_allocate(size_t n, size_t) override { return ::operator new(n); }
    void  do_deallocate(void *p, size_t, size_t) override { ::operator delete(p); }
    bool  do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
union NewDeleteHolder { // never destroyed, initialised before anything runs
    NewDelete r;
    constexpr NewDeleteHolder() : r() {}
    ~NewDeleteHolder() {}
};
constinit NewDeleteHolder newDelete;
}
namespace std::pmr {
memory_resource *new_delete_resource() noexcept { return &newDelete.r; }
memory_resource *get_default_resource() noexcept { return new_delete_resource(); }
memory_resource::~memory_resource() = default;
}

// ------------------------------------------------------------------ std::atomic_load(shared_ptr) and friends: one lock for all
namespace std {
static int symxSpLock;
extern "C" void symx_block();
static void symxSpAcquire() { int e = 0; if (!__atomic_compare_exchange_n(&symxSpLock, &e, 1, 0, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) symx_block(); }
_Sp_locker::_Sp_locker(const void *) noexcept { symxSpAcquire(); }
_Sp_locker::_Sp_locker(const void *, const void *) noexcept { symxSpAcquire(); }
_Sp_locker::~_Sp_locker() { __atomic_store_n(&symxSpLock, 0, __ATOMIC_RELEASE); }
} // namespace std

// ------------------------------------------------------------------ std::condition_variable: out-of-line members
namespace std {
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait(_M_cond.native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(_M_cond.native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(_M_cond.native_handle()); }
} // namespace std
