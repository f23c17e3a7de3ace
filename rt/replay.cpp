// Native replay: runs a harness compiled from the real sources on the values of one counterexample.
// exit: 0 = property held, 42 = assertion failed, 43 = assumption not met, 44 = input desynchronised; sanitizer reports exit 45.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <vector>
#include <unistd.h>
#include <dlfcn.h>
namespace {
struct In { std::string name; unsigned w; unsigned long long v; bool used = false; };
std::vector<In> ins;
std::string     schedLine;
// inputs are matched by name (compilers evaluate function arguments in different orders); 0 beyond the recorded ones
unsigned long long next(const std::string &name, unsigned w) {
    for (auto &i : ins)
        if (!i.used && i.name == name && i.w == w) { i.used = true; return i.v; }
    return 0;
}
} // namespace
extern "C" {
uint64_t symx_sym(const char *n, unsigned w) { uint64_t v = next(n, w); fprintf(stderr, "replay: %s = 0x%llx\n", n, (unsigned long long) v); return v; }
void symx_bytes(const char *n, void *p, size_t k) {
    fprintf(stderr, "replay: %s = \"", n);
    for (size_t i = 0; i < k; i++) { auto c = (unsigned char) next(std::string(n) + "[" + std::to_string(i) + "]", 8); ((unsigned char *) p)[i] = c; if (c >= 32 && c < 127 && c != '"' && c != '\\') fputc(c, stderr); else fprintf(stderr, "\\x%02x", c); }
    fprintf(stderr, "\"\n");
}
void symx_assume(int c) { if (!c) { fprintf(stderr, "replay: assumption not met\n"); fflush(stderr); _exit(43); } }
void symx_assert_(int c, const char *m) { if (!c) { fprintf(stderr, "replay: ASSERTION FAILED: %s\n", m); fflush(stderr); _exit(42); } }
void symx_reach(const char *) {}
uint64_t symx_concretize(uint64_t v) { return v; }
int symx_branch(int c) { return c; }
int symx_is_symbolic(uint64_t) { return 0; }
void symx_note(const char *n, uint64_t v) { fprintf(stderr, "replay: note %s = %lld\n", n, (long long) v); }
void symx_trace(const char *n, uint64_t v) { fprintf(stderr, "replay: trace %s = %lld\n", n, (long long) v); }
void symx_kill() { _exit(43); }
uint64_t symx_heap_mark() { return 0; }
uint64_t symx_heap_live(uint64_t) { return 0; }
int symx_valid(const void *, size_t) { return 1; }
#ifndef SCHED
void symx_thread(void (*)(void *), void *) {}
void symx_threads_run() {}
void symx_block() {}
#endif
}
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    std::ifstream f(argv[2]);
    std::string   l;
    while (std::getline(f, l)) {
        if (l.empty() || l[0] == '#') continue;
        if (l.rfind("@sched ", 0) == 0) { schedLine = l.substr(7); continue; }
        std::istringstream is(l);
        In                 i;
        std::string        hex;
        is >> i.name >> i.w >> hex;
        i.v = strtoull(hex.c_str(), nullptr, 16);
        ins.push_back(i);
    }
    auto *h = (void (*)()) dlsym(RTLD_DEFAULT, argv[1]);
    if (!h) { fprintf(stderr, "replay: no harness %s\n", argv[1]); return 2; }
    alarm(argc > 3 ? (unsigned) atoi(argv[3]) : 20);
    h();
    fprintf(stderr, "replay: harness completed, property held\n");
    fflush(stderr);
    _exit(0);
}
