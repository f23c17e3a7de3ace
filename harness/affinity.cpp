// ThreadAffinity against a recording operating system whose answers are symbolic.
#include "symx.h"
#include <array>
#include <cstring>
#include <new>
#include <optional>
#include <system_error>
#include <thread>
#include <vector>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

static unsigned  s_cpus = 4;
unsigned int std::thread::hardware_concurrency() noexcept { return s_cpus; }
static int       os_rc, os_calls, os_policy, os_prio, os_min, os_max, os_pid;
static cpu_set_t os_set;
static pthread_t os_handle, os_self;
static const char *os_name;
static size_t    os_size;
static char      os_nameBuf[16];
static int os_getname(pthread_t, char *b, size_t n) { if (n < 16) return 34; std::memcpy(b, os_nameBuf, 16); return 0; }
static std::string os_setName;
static int os_setname(pthread_t h, const char *n) { os_calls++; os_handle = h; os_setName = n; return os_rc; }
static int os_getaff(pthread_t h, size_t n, cpu_set_t *s) { os_calls++; os_handle = h; os_size = n; if (os_rc == 0) *s = os_set; return os_rc; }
static int os_setaff(pthread_t h, size_t n, const cpu_set_t *s) { os_calls++; os_handle = h; os_size = n; os_set = *s; return os_rc; }
static int os_pgetaff(pid_t p, size_t n, cpu_set_t *s) { os_calls++; os_pid = p; os_size = n; if (os_rc == 0) *s = os_set; return os_rc; }
static int os_psetaff(pid_t p, size_t n, const cpu_set_t *s) { os_calls++; os_pid = p; os_size = n; os_set = *s; return os_rc; }
static int os_getsched(pid_t p) { os_pid = p; return os_policy; }
static int os_getparam(pid_t p, struct sched_param *s) { os_calls++; os_pid = p; if (os_rc == 0) s->sched_priority = os_prio; return os_rc; }
static int os_setsched(pid_t p, int pol, const struct sched_param *s) { os_calls++; os_pid = p; os_policy = pol; os_prio = s->sched_priority; return os_rc; }
static int os_minp(int pol) { os_policy = pol; return os_min; }
static int os_maxp(int pol) { CHECKM(pol == os_policy, "both limits are those of the requested policy"); return os_max; }
static int os_tgetsched(pthread_t h, int *pol, struct sched_param *s) { os_calls++; os_handle = h; if (os_rc == 0) { *pol = os_policy; s->sched_priority = os_prio; } return os_rc; }
static int os_tsetsched(pthread_t h, int pol, const struct sched_param *s) { os_calls++; os_handle = h; os_policy = pol; os_prio = s->sched_priority; return os_rc; }
static pthread_t os_selff() { return os_self; }
static pid_t os_getpid() { return 4321; }
#define pthread_self os_selff
#define pthread_getname_np os_getname
#define pthread_setname_np os_setname
#define pthread_getaffinity_np os_getaff
#define pthread_setaffinity_np os_setaff
#define sched_getaffinity os_pgetaff
#define sched_setaffinity os_psetaff
#define sched_getscheduler os_getsched
#define sched_getparam os_getparam
#define sched_setscheduler os_setsched
#define sched_get_priority_min os_minp
#define sched_get_priority_max os_maxp
#define pthread_getschedparam os_tgetsched
#define pthread_setschedparam os_tsetsched
#define getpid os_getpid
#include <ThreadAffinity.hpp>
using namespace opencmw;

struct Th { // a std::thread with a given handle, never joined
    alignas(std::thread) char b[sizeof(std::thread)];
    explicit Th(pthread_t h) { new (b) std::thread; static_assert(sizeof(std::thread) == sizeof(pthread_t)); std::memcpy(b, &h, sizeof(h)); }
    std::thread &t() { return *std::launder(reinterpret_cast<std::thread *>(b)); }
};
static void init() {
    std::memcpy(os_nameBuf, "thread", 7);
    os_calls = 0;
    os_self = 7;
}
static bool inSet(unsigned i) { return (((const unsigned char *) &os_set)[i / 8] >> (i % 8)) & 1; }
static unsigned cpus() { // number of CPUs
    static const unsigned n[] = { 1, 2, 7, 8, 9, 64, 65, 130 };
#ifdef THOROUGH
    return n[symRange("cpus", 0, 7)];
#else
    return n[symRange("cpus", 3, 7)];
#endif
}
// the caught error can be inspected: its category is alive
template<class F>
static int errorOf(F f) {
    try { f(); } catch (const std::system_error &e) {
        CHECKM(std::strcmp(e.code().category().name(), "thread_exception") == 0, "the error carries the thread error category");
        CHECKM(!e.code().message().empty(), "the error code has a message");
        CHECK(e.code().value() != 0);
        return e.code().value();
    }
    return 0;
}
HARNESS(h_aff_get) {
    init();
    s_cpus = cpus();
    std::memset(&os_set, symRange("background", 0, 1) ? 0xff : 0, sizeof(os_set));
    unsigned byte = (unsigned) symRange("byte", 0, (s_cpus - 1) / 8);
    ASSUME(byte == 0 || byte == (s_cpus - 1) / 8 || byte == s_cpus / 16);
    symx_bytes("set", (char *) &os_set + byte, 1); // eight arbitrary flags in an all-clear or all-set mask
    int which = (int) symRange("which", 0, 2);
    os_rc = 0;
    std::vector<bool> r;
    Th                th(99);
    if (which == 0) { r = thread::getThreadAffinity(th.t()); CHECK(os_handle == 99); }
    if (which == 1) { r = thread::getThreadAffinity(); CHECK(os_handle == 7); }
    if (which == 2) { r = thread::getProcessAffinity(55); CHECK(os_pid == 55); }
    CHECKM(os_calls == 1 && os_size == sizeof(cpu_set_t), "the operating system is asked once");
    CHECKM(r.size() == s_cpus, "the mask has one flag per CPU");
    bool ok = true;
    for (unsigned i = 0; i < s_cpus && i < r.size(); i++) ok &= r[i] == inSet(i);
    CHECKM(ok, "flag i is set exactly if CPU i is in the set");
    REACH("done");
}
template<size_t N>
static void setArr(int which) {
    std::array<bool, N> m{};
    bool back = symRange("background", 0, 1);
    size_t at = symRange("at", 0, N - 1);
    for (size_t i = 0; i < N; i++) m[i] = i >= at && i < at + 3 ? (bool) symx_sym("flag", 1) : back; // three arbitrary flags anywhere
    Th th(99);
    if (which == 0) { thread::setThreadAffinity(m, th.t()); CHECK(os_handle == 99); }
    if (which == 1) { thread::setThreadAffinity(m); CHECK(os_handle == 7); }
    if (which == 2) { CHECK(thread::setProcessAffinity(m, 55)); CHECK(os_pid == 55); }
    if (which == 3) { CHECK(thread::setProcessAffinity(m)); CHECK(os_pid == 4321); }
    CHECKM(os_calls == 1 && os_size == sizeof(cpu_set_t), "the operating system is told once");
    bool ok = true;
    for (unsigned i = 0; i < 1024; i++) ok &= inSet(i) == (i < N && i < s_cpus ? m[i] : false);
    CHECKM(ok, "exactly the CPUs whose flag is set are requested");
}
HARNESS(h_aff_set) {
    init();
    s_cpus = cpus();
    os_rc = 0;
    int which = (int) symRange("which", 0, 3);
    switch (symRange("size", 0, 2)) {
    case 0: setArr<1>(which); break;
    case 1: setArr<8>(which); break;
    case 2: setArr<20>(which); break;
    }
    REACH("done");
}
HARNESS(h_aff_set_vec) {
    init();
    s_cpus = 8;
    os_rc = 0;
    unsigned          n = (unsigned) symRange("size", 0, 9);
    std::vector<bool> m(n);
    for (unsigned i = 0; i < n; i++) if (symx_branch(symx_sym("flag", 1))) m[i] = true;
    ASSUME(n < 5 || m[0]);
    thread::setThreadAffinity(m);
    bool ok = true;
    for (unsigned i = 0; i < 1024; i++) ok &= inSet(i) == (i < n && i < s_cpus && m[i]);
    CHECKM(ok, "exactly the CPUs whose flag is set are requested");
    REACH("done");
}
// failures of the operating system, uninitialised threads and invalid process ids are reported
HARNESS(h_aff_errors) {
    init();
    s_cpus = 4;
    os_rc = (int) symRange("rc", 1, 40);
    os_min = 0; os_max = 99; os_policy = 0; os_prio = 1;
    std::array<bool, 2> m{ true, false };
    Th                  th(99);
    int                 e = 0;
    switch (symRange("which", 0, 7)) {
    case 0: e = errorOf([&] { (void) thread::getThreadAffinity(th.t()); }); break;
    case 1: e = errorOf([&] { thread::setThreadAffinity(m, th.t()); }); break;
    case 2: e = errorOf([&] { (void) thread::getThreadSchedulingParameter(th.t()); }); break;
    case 3: e = errorOf([&] { thread::setThreadSchedulingParameter(thread::FIFO, 3, th.t()); }); break;
    case 4: os_rc = -1; e = errorOf([&] { (void) thread::getProcessAffinity(55); }); break;
    case 5: os_rc = -1; e = errorOf([&] { thread::setProcessAffinity(m, 55); }); break;
    case 6: os_rc = -1; e = errorOf([&] { (void) thread::getProcessSchedulingParameter(55); }); break;
    case 7: os_rc = -1; e = errorOf([&] { thread::setProcessSchedulingParameter(thread::FIFO, 3, 55); }); break;
    }
    CHECKM(e != 0, "a failing operating system call is reported by an exception");
    CHECKM(os_rc < 0 || e == os_rc, "the error code is the one of the operating system");
    REACH("done");
}
HARNESS(h_aff_invalid) {
    init();
    os_rc = 0; os_min = 0; os_max = 99; os_policy = 0; os_prio = 1;
    std::array<bool, 2> m{ true, false };
    Th                  th(0);
    int                 pid = -(int) symRange("pid", 0, 2), e = 0;
    switch (symRange("which", 0, 9)) {
    case 0: e = errorOf([&] { (void) thread::getThreadAffinity(th.t()); }); break;
    case 1: e = errorOf([&] { thread::setThreadAffinity(m, th.t()); }); break;
    case 2: e = errorOf([&] { (void) thread::getThreadSchedulingParameter(th.t()); }); break;
    case 3: e = errorOf([&] { thread::setThreadSchedulingParameter(thread::FIFO, 3, th.t()); }); break;
    case 4: e = errorOf([&] { (void) thread::getProcessAffinity(pid); }); break;
    case 5: e = errorOf([&] { thread::setProcessAffinity(m, pid); }); break;
    case 6: e = errorOf([&] { (void) thread::getProcessSchedulingParameter(pid); }); break;
    case 7: e = errorOf([&] { thread::setProcessSchedulingParameter(thread::FIFO, 3, pid); }); break;
    case 8: e = errorOf([&] { (void) thread::getThreadName(th.t()); }); break;
    case 9: e = errorOf([&] { thread::setThreadName("n", th.t()); }); break;
    }
    CHECKM(e == thread::THREAD_UNINITIALISED, "an uninitialised thread or invalid process id is refused as such");
    CHECKM(os_calls == 0, "the operating system is not involved");
    REACH("done");
}
HARNESS(h_sched_get) {
    init();
    os_rc = 0;
    os_policy = sym<int>("policy");
    os_prio = sym<int>("priority");
    Th   th(99);
    bool proc = symx_branch(sym<bool>("process"));
    auto p = proc ? thread::getProcessSchedulingParameter(55) : thread::getThreadSchedulingParameter(th.t());
    if (proc) CHECK(os_pid == 55); else CHECK(os_handle == 99);
    CHECKM(p.priority == os_prio, "the priority is the one of the operating system");
    int want = os_policy == SCHED_FIFO ? thread::FIFO : os_policy == SCHED_RR ? thread::ROUND_ROBIN : os_policy == SCHED_OTHER ? thread::OTHER : thread::UNKNOWN;
    CHECKM((int) p.policy == want, "the policy is the one of the operating system, or UNKNOWN");
    static_assert((int) thread::FIFO == SCHED_FIFO && (int) thread::ROUND_ROBIN == SCHED_RR && (int) thread::OTHER == SCHED_OTHER);
    REACH("done");
}
HARNESS(h_sched_set) {
    init();
    os_rc = 0;
    int pol = (int) symRange("policy", 0, 2), prio = sym<int>("priority");
    os_min = sym<int>("min"); os_max = sym<int>("max");
    ASSUME(os_min >= 0 && os_min <= os_max && os_max <= 99 && prio >= -9 && prio <= 120);
    Th   th(99);
    bool proc = symx_branch(sym<bool>("process"));
    bool in = prio >= os_min && prio <= os_max;
    if (!symx_branch(in)) ASSUME((os_min == 0 || os_min == 1) && (os_max == 99 || os_max == os_min)); // (they appear in the message)
    int e = errorOf([&] { if (proc) thread::setProcessSchedulingParameter((thread::Policy) pol, prio, 55); else thread::setThreadSchedulingParameter((thread::Policy) pol, prio, th.t()); });
    if (in) {
        CHECKM(e == 0 && os_calls == 1, "a priority within the range of the policy is passed on");
        CHECKM(os_policy == pol && os_prio == prio, "exactly the requested policy and priority are set");
        if (proc) CHECK(os_pid == 55); else CHECK(os_handle == 99);
        REACH("set");
    } else {
        CHECKM(e == thread::THREAD_VALUE_RANGE, "a priority outside the range of the policy is refused");
        CHECKM(os_calls == 0, "nothing is set then");
        REACH("refused");
    }
}
HARNESS(h_name) {
    init();
    os_rc = 0;
    size_t      n = symRange("len", 0, 15), extra = symRange("extra", 0, 1);
    std::string s = symString("name", n + extra);
    for (size_t i = 0; i < n + extra; i++) ASSUME(s[i] != 0);
    std::string buf(s); // a view need not end at a terminator
    Th          th(99);
    thread::setThreadName(std::string_view(buf.data(), n), th.t());
    CHECKM(os_handle == 99 && os_setName == std::string_view(buf.data(), n), "the name set is exactly the given one");
    std::memcpy(os_nameBuf, s.data(), n); os_nameBuf[n] = 0;
    CHECKM(thread::getThreadName(th.t()) == std::string_view(buf.data(), n), "the name reported is the one of the operating system");
    REACH("done");
}
HARNESS(h_name_error) {
    init();
    os_rc = (int) symRange("rc", 1, 40);
    Th  th(99);
    int e = errorOf([&] { thread::setThreadName("n", th.t()); });
    CHECKM(e == os_rc, "a name refused by the operating system is reported by an exception");
    REACH("done");
}
