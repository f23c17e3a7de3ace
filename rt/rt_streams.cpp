// std::cout / cerr / clog: output is discarded
#include <new>
#include <ostream>
#include <istream>
#include <streambuf>
alignas(std::ostream) char symx_cout[sizeof(std::ostream)] asm("_ZSt4cout");
alignas(std::ostream) char symx_cerr[sizeof(std::ostream)] asm("_ZSt4cerr");
alignas(std::ostream) char symx_clog[sizeof(std::ostream)] asm("_ZSt4clog");
alignas(std::istream) char symx_cin[sizeof(std::istream)] asm("_ZSt3cin");
extern "C" { void *stdout_m asm("stdout"); void *stderr_m asm("stderr"); void *stdin_m asm("stdin"); }
namespace {
struct NullBuf : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
alignas(NullBuf) char nb[sizeof(NullBuf)];
struct Init {
    Init() {
        auto *b = new (nb) NullBuf;
        new (symx_cout) std::ostream(b);
        new (symx_cerr) std::ostream(b);
        new (symx_clog) std::ostream(b);
        new (symx_cin) std::istream(b);
    }
};
__attribute__((init_priority(101))) Init init;
} // namespace
