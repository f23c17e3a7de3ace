// Harness API: symbolic under the engine, concrete (values from a counterexample file) in the native replay.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
extern "C" {
uint64_t symx_sym(const char *name, unsigned width);
void     symx_bytes(const char *name, void *p, size_t n);
void     symx_assume(int c);
void     symx_assert_(int c, const char *msg);
void     symx_reach(const char *label);
uint64_t symx_concretize(uint64_t v);
int      symx_branch(int c);
int      symx_is_symbolic(uint64_t v);
void     symx_note(const char *name, uint64_t v);
void     symx_trace(const char *name, uint64_t v);
[[noreturn]] void symx_kill();
uint64_t symx_heap_mark();
uint64_t symx_heap_live(uint64_t mark);
int      symx_valid(const void *p, size_t n);
void     symx_thread(void (*fn)(void *), void *arg);
void     symx_threads_run();
void     symx_block();
}
#define SYMX_STR2(x) #x
#define SYMX_STR(x) SYMX_STR2(x)
#define CHECK(c) symx_assert_(!!(c), #c)
#define CHECKM(c, m) symx_assert_(!!(c), m)
#define ASSUME(c) symx_assume(!!(c))
#define REACH(l) symx_reach(l)
#define HARNESS(n) extern "C" __attribute__((noinline, used)) void n()
template<class F>
inline void THREAD(F &f) { symx_thread([](void *p) { (*(F *) p)(); }, &f); }
template<class T>
inline T sym(const char *name) {
    if constexpr (std::is_same_v<T, bool>) return symx_sym(name, 1) != 0;
    else if constexpr (std::is_enum_v<T>) return (T) symx_sym(name, sizeof(T) * 8);
    else if constexpr (std::is_floating_point_v<T>) {
        if constexpr (sizeof(T) == 4) { uint32_t x = (uint32_t) symx_sym(name, 32); T f; __builtin_memcpy(&f, &x, 4); return f; }
        else { uint64_t x = symx_sym(name, 64); T f; __builtin_memcpy(&f, &x, 8); return f; }
    } else return (T) symx_sym(name, sizeof(T) * 8);
}
inline uint64_t symRange(const char *name, uint64_t lo, uint64_t hi) { // inclusive; explored value by value
    uint64_t v = (uint8_t) symx_sym(name, 8);
    symx_assume((v >= lo) & (v <= hi));
    return symx_concretize(v);
}
inline uint64_t symLazy(const char *name, uint64_t lo, uint64_t hi, unsigned width = 64) { // inclusive; stays symbolic
    uint64_t v = symx_sym(name, width);
    symx_assume((v >= lo) & (v <= hi));
    return v;
}
inline std::string symString(const char *name, size_t n) { // n arbitrary bytes
    std::string s(n, '\0');
    symx_bytes(name, s.data(), n);
    return s;
}
inline std::string symStringUpTo(const char *name, const char *lenName, size_t lo, size_t hi) { return symString(name, symRange(lenName, lo, hi)); }
