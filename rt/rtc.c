// C library models (compiled with -fno-builtin)
#include <stddef.h>
#include <stdint.h>
typedef struct _FILE FILE; typedef struct { char x[40]; } pthread_mutex_t; typedef struct pma pthread_mutexattr_t; typedef int pthread_once_t; typedef unsigned pthread_key_t;
struct timespec; void symx_assert_(int, const char*); void symx_block();
// ------------------------------------------------------------------ C library

size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char) *a - (unsigned char) *b; }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char) a[i] - (unsigned char) b[i]; if (!a[i]) return 0; } return 0; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
void *memrchr(const void *p, int c, size_t n) { unsigned char *q = (unsigned char *) p; for (size_t i = n; i-- > 0;) if (q[i] == (unsigned char) c) return q + i; return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return 0; } }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isalpha(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
int isalnum(int c) { return isdigit(c) | isalpha(c); }
int isxdigit(int c) { return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isprint(int c) { return (c >= 32) & (c < 127); }
int iscntrl(int c) { return ((c >= 0) & (c < 32)) | (c == 127); }
int ispunct(int c) { return (c > 32) & (c < 127) & !isalnum(c); }
int islower(int c) { return (c >= 'a') & (c <= 'z'); }
int isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
static __thread int s_errno;
int *__errno_location() { return &s_errno; }
static _Bool digitVal(unsigned char c, int base, int *d) {
    int v = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99;
    if (v < base) { *d = v; return 1; }
    return 0;
}
static unsigned long long strtox(const char *s, char **end, int base, _Bool isSigned, _Bool *neg, _Bool *overflow) {
    const char *p = s;
    while (isspace((unsigned char) *p)) p++;
    *neg = 0; *overflow = 0;
    if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
    int d;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digitVal((unsigned char) p[2], 16, &d)) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; _Bool any = 0;
    while (digitVal((unsigned char) *p, base, &d)) {
        any = 1;
        unsigned long long lim = ~0ull;
        if (v > (lim - (unsigned) d) / (unsigned) base) *overflow = 1;
        v = v * (unsigned) base + (unsigned) d;
        p++;
    }
    if (end) *end = (char *) (any ? p : s);
    return v;
}
long strtol(const char *s, char **e, int b) {
    _Bool n, o; unsigned long long v = strtox(s, e, b, 1, &n, &o);
    if (o || (!n && v > 0x7fffffffffffffffull) || (n && v > 0x8000000000000000ull)) { s_errno = 34; return n ? (long) 0x8000000000000000ull : 0x7fffffffffffffffl; }
    return n ? (long) (0 - v) : (long) v;
}
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) {
    _Bool n, o; unsigned long long v = strtox(s, e, b, 0, &n, &o);
    if (o) { s_errno = 34; return ~0ul; }
    return n ? 0 - v : v;
}
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
// glibc 2.38+ headers redirect to these names
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int) strtol(s, 0, 10); }
int puts(const char *) { return 0; }
int putchar(int c) { return c; }
int printf(const char *, ...) { return 0; }
int fprintf(FILE *, const char *, ...) { return 0; }
int fflush(FILE *) { return 0; }
size_t fwrite(const void *, size_t, size_t n, FILE *) { return n; }
int fputc(int c, FILE *) { return c; }
int fputs(const char *, FILE *) { return 0; }
char *getenv(const char *) { return 0; }
__attribute__((weak)) int sched_yield() { return 0; }
__attribute__((weak)) int usleep(unsigned) { return 0; }
__attribute__((weak)) int nanosleep(const struct timespec *, struct timespec *) { return 0; }
int __cxa_guard_acquire(char *g) { return *g == 0; }
void __cxa_guard_release(char *g) { *g = 1; }
void __cxa_guard_abort(char *) {}
int pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *)  { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *)  { return 0; }
#ifndef SYMX_OWN_MUTEX
int pthread_mutex_lock(pthread_mutex_t *m)  {
    int e = 0;
    if (!__atomic_compare_exchange_n((int *) m, &e, 1, 0, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) symx_block();
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)  { int e = 0; return __atomic_compare_exchange_n((int *) m, &e, 1, 0, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED) ? 0 : 16; }
int pthread_mutex_unlock(pthread_mutex_t *m)  { symx_assert_(__atomic_exchange_n((int *) m, 0, __ATOMIC_RELEASE) == 1, "unlock of a mutex that is not locked"); return 0; }
#endif
// condition variable: threads waiting, and wake-ups granted to them (a wake-up granted to a thread that has gone stays: at most a
// spurious wake-up); a timed wait may run out at any moment
typedef struct { int waiting, granted; } cvState;
void symx_assume(int); void symx_clock_skip();
void symx_cv_notify(cvState *c, int all) {
    int w = __atomic_load_n(&c->waiting, __ATOMIC_ACQUIRE);
    if (w == 0) return;
    if (all) __atomic_store_n(&c->granted, w, __ATOMIC_RELEASE);
    else if (__atomic_load_n(&c->granted, __ATOMIC_ACQUIRE) < w) __atomic_fetch_add(&c->granted, 1, __ATOMIC_ACQ_REL);
}
int symx_cv_wait(cvState *c, pthread_mutex_t *m, int timed) {
    int r = 0;
    __atomic_fetch_add(&c->waiting, 1, __ATOMIC_ACQ_REL);
    pthread_mutex_unlock(m);
    int g = __atomic_load_n(&c->granted, __ATOMIC_ACQUIRE);
    if (g == 0) {
        if (!timed) symx_block();
        r = 110; symx_clock_skip();
    } else symx_assume(__atomic_compare_exchange_n(&c->granted, &g, g - 1, 0, __ATOMIC_ACQ_REL, __ATOMIC_RELAXED));
    __atomic_fetch_sub(&c->waiting, 1, __ATOMIC_ACQ_REL);
    pthread_mutex_lock(m);
    return r;
}
// readers-writer lock: number of readers, or -1 for a writer
int pthread_rwlock_init(void *l, const void *a) { *(int *) l = 0; return 0; }
int pthread_rwlock_destroy(void *l) { return 0; }
int pthread_rwlock_rdlock(void *l) {
    for (;;) {
        int e = __atomic_load_n((int *) l, __ATOMIC_RELAXED);
        if (e >= 0 && __atomic_compare_exchange_n((int *) l, &e, e + 1, 0, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) return 0;
    }
}
int pthread_rwlock_wrlock(void *l) {
    for (;;) {
        int e = 0;
        if (__atomic_compare_exchange_n((int *) l, &e, -1, 0, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) return 0;
    }
}
int pthread_rwlock_unlock(void *l) {
    if (__atomic_load_n((int *) l, __ATOMIC_RELAXED) < 0) __atomic_store_n((int *) l, 0, __ATOMIC_RELEASE);
    else symx_assert_(__atomic_fetch_sub((int *) l, 1, __ATOMIC_RELEASE) > 0, "unlock of a readers-writer lock that is not locked");
    return 0;
}
unsigned long pthread_self(void) { return 1; } // sequential runs only
int pthread_cond_init(void *c, const void *a) { ((cvState *) c)->waiting = ((cvState *) c)->granted = 0; return 0; }
int pthread_cond_destroy(void *c) { return 0; }
int pthread_cond_wait(void *c, pthread_mutex_t *m) { return symx_cv_wait((cvState *) c, m, 0); }
int pthread_cond_timedwait(void *c, pthread_mutex_t *m, const struct timespec *t) { return symx_cv_wait((cvState *) c, m, 1); }
int pthread_cond_clockwait(void *c, pthread_mutex_t *m, int k, const struct timespec *t) { return symx_cv_wait((cvState *) c, m, 1); }
int pthread_cond_signal(void *c) { symx_cv_notify((cvState *) c, 0); return 0; }
int pthread_cond_broadcast(void *c) { symx_cv_notify((cvState *) c, 1); return 0; }
int pthread_once(pthread_once_t *o, void (*f)()) { if (!*(int *) o) { *(int *) o = 2; f(); } return 0; }
int pthread_key_create(pthread_key_t *, void (*)(void *))  { return 0; }
int __gthread_active_p_model() { return 1; }

// type_info objects of the fundamental types (normally in libstdc++): vtable pointer (never called), name
const char *const _ZTIv[2] = { 0, "v" }; const char *const _ZTIPv[4] = { 0, "Pv", 0, (const char *) _ZTIv }; const char *const _ZTIPKv[4] = { 0, "PKv", (const char *) 1, (const char *) _ZTIv };
const char *const _ZTIb[2] = { 0, "b" }; const char *const _ZTIPb[4] = { 0, "Pb", 0, (const char *) _ZTIb }; const char *const _ZTIPKb[4] = { 0, "PKb", (const char *) 1, (const char *) _ZTIb };
const char *const _ZTIw[2] = { 0, "w" }; const char *const _ZTIPw[4] = { 0, "Pw", 0, (const char *) _ZTIw }; const char *const _ZTIPKw[4] = { 0, "PKw", (const char *) 1, (const char *) _ZTIw };
const char *const _ZTIc[2] = { 0, "c" }; const char *const _ZTIPc[4] = { 0, "Pc", 0, (const char *) _ZTIc }; const char *const _ZTIPKc[4] = { 0, "PKc", (const char *) 1, (const char *) _ZTIc };
const char *const _ZTIa[2] = { 0, "a" }; const char *const _ZTIPa[4] = { 0, "Pa", 0, (const char *) _ZTIa }; const char *const _ZTIPKa[4] = { 0, "PKa", (const char *) 1, (const char *) _ZTIa };
const char *const _ZTIh[2] = { 0, "h" }; const char *const _ZTIPh[4] = { 0, "Ph", 0, (const char *) _ZTIh }; const char *const _ZTIPKh[4] = { 0, "PKh", (const char *) 1, (const char *) _ZTIh };
const char *const _ZTIs[2] = { 0, "s" }; const char *const _ZTIPs[4] = { 0, "Ps", 0, (const char *) _ZTIs }; const char *const _ZTIPKs[4] = { 0, "PKs", (const char *) 1, (const char *) _ZTIs };
const char *const _ZTIt[2] = { 0, "t" }; const char *const _ZTIPt[4] = { 0, "Pt", 0, (const char *) _ZTIt }; const char *const _ZTIPKt[4] = { 0, "PKt", (const char *) 1, (const char *) _ZTIt };
const char *const _ZTIi[2] = { 0, "i" }; const char *const _ZTIPi[4] = { 0, "Pi", 0, (const char *) _ZTIi }; const char *const _ZTIPKi[4] = { 0, "PKi", (const char *) 1, (const char *) _ZTIi };
const char *const _ZTIj[2] = { 0, "j" }; const char *const _ZTIPj[4] = { 0, "Pj", 0, (const char *) _ZTIj }; const char *const _ZTIPKj[4] = { 0, "PKj", (const char *) 1, (const char *) _ZTIj };
const char *const _ZTIl[2] = { 0, "l" }; const char *const _ZTIPl[4] = { 0, "Pl", 0, (const char *) _ZTIl }; const char *const _ZTIPKl[4] = { 0, "PKl", (const char *) 1, (const char *) _ZTIl };
const char *const _ZTIm[2] = { 0, "m" }; const char *const _ZTIPm[4] = { 0, "Pm", 0, (const char *) _ZTIm }; const char *const _ZTIPKm[4] = { 0, "PKm", (const char *) 1, (const char *) _ZTIm };
const char *const _ZTIx[2] = { 0, "x" }; const char *const _ZTIPx[4] = { 0, "Px", 0, (const char *) _ZTIx }; const char *const _ZTIPKx[4] = { 0, "PKx", (const char *) 1, (const char *) _ZTIx };
const char *const _ZTIy[2] = { 0, "y" }; const char *const _ZTIPy[4] = { 0, "Py", 0, (const char *) _ZTIy }; const char *const _ZTIPKy[4] = { 0, "PKy", (const char *) 1, (const char *) _ZTIy };
const char *const _ZTIn[2] = { 0, "n" }; const char *const _ZTIPn[4] = { 0, "Pn", 0, (const char *) _ZTIn }; const char *const _ZTIPKn[4] = { 0, "PKn", (const char *) 1, (const char *) _ZTIn };
const char *const _ZTIo[2] = { 0, "o" }; const char *const _ZTIPo[4] = { 0, "Po", 0, (const char *) _ZTIo }; const char *const _ZTIPKo[4] = { 0, "PKo", (const char *) 1, (const char *) _ZTIo };
const char *const _ZTIf[2] = { 0, "f" }; const char *const _ZTIPf[4] = { 0, "Pf", 0, (const char *) _ZTIf }; const char *const _ZTIPKf[4] = { 0, "PKf", (const char *) 1, (const char *) _ZTIf };
const char *const _ZTId[2] = { 0, "d" }; const char *const _ZTIPd[4] = { 0, "Pd", 0, (const char *) _ZTId }; const char *const _ZTIPKd[4] = { 0, "PKd", (const char *) 1, (const char *) _ZTId };
const char *const _ZTIe[2] = { 0, "e" }; const char *const _ZTIPe[4] = { 0, "Pe", 0, (const char *) _ZTIe }; const char *const _ZTIPKe[4] = { 0, "PKe", (const char *) 1, (const char *) _ZTIe };
const char *const _ZTIg[2] = { 0, "g" }; const char *const _ZTIPg[4] = { 0, "Pg", 0, (const char *) _ZTIg }; const char *const _ZTIPKg[4] = { 0, "PKg", (const char *) 1, (const char *) _ZTIg };
