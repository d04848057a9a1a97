#define _GNU_SOURCE
/* Native side of the harness interface: replays the inputs of one path.
 * usage: h ENTRY FILE   FILE: params on the first line, inputs on the second */
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>

static uint64_t params[64], in[4096];
static int np, nin, pos;
static uint64_t now_s = 1000, now_n = 0;

static int readline_nums(FILE *f, uint64_t *v, int max) {
    int n = 0;
    static char line[1 << 17];
    if (!fgets(line, sizeof line, f)) return 0;
    char *p = line;
    while (n < max) {
        char *e;
        while (*p == ' ') p++;
        if (*p == '\n' || !*p) break;
        v[n] = strtoull(p, &e, 10);
        if (e == p) break;
        n++;
        p = e;
    }
    return n;
}
void symrt_load(const char *file) {
    FILE *f = fopen(file, "r");
    if (!f) { perror(file); _exit(4); }
    np = readline_nums(f, params, 64);
    nin = readline_nums(f, in, 4096);
    fclose(f);
    setvbuf(stdout, 0, _IOLBF, 0);
}
static uint64_t next(void) {
    if (pos >= nin) { printf("INPUT-EXHAUSTED\n"); fflush(stdout); _exit(5); }
    return in[pos++];
}
uint8_t sym_u8(void) { return next(); }
uint16_t sym_u16(void) { return next(); }
uint32_t sym_u32(void) { return next(); }
uint64_t sym_u64(void) { return next(); }
uint64_t sym_range(uint64_t lo, uint64_t hi) { uint64_t v = next(); if (v < lo || v > hi) { printf("INPUT-RANGE\n"); fflush(stdout); _exit(5); } return v; }
uint32_t sym_char(uint32_t m) { (void)m; return next(); }
uint64_t sym_pick(uint64_t n) { uint64_t v = next(); if (v >= n) { printf("INPUT-RANGE\n"); fflush(stdout); _exit(5); } return v; }
uint64_t sym_param(uint64_t i) { return i < (uint64_t)np ? params[i] : 0; }
void sym_assume(uint8_t c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(3); } }
void sym_assert(uint8_t c, const char *m, uint64_t n) {
    if (!c) { printf("ASSERT-FAILED %.*s\n", (int)n, m); fflush(stdout); _exit(1); }
}
void sym_reach(const char *m, uint64_t n) { printf("REACH %.*s\n", (int)n, m); }
void sym_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
void sym_narrow(void) {}
void sym_clock_set(uint64_t ns) { now_s = ns / 1000000000ull; now_n = ns % 1000000000ull; }
uint64_t sym_concretize(uint64_t v) { return v; }

/* Threads: only one runs at a time, the next one is chosen as in the symbolic execution. */
enum { RUN, FUTEX, SLEEP, JOIN, DONE };
enum { NONE, WOKEN, TIMEDOUT, AGAIN };
#define MAXT 64
static struct thr {
    int wait, resumed, has_dl, target;
    uint32_t *addr;
    uint64_t s, n;
    pthread_cond_t cond;
    void *(*f)(void *);
    void *arg;
} thr[MAXT];
static int nthr = 1, baton = 0;
static __thread int me = 0;
static uint64_t preempts, lates;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static int le(uint64_t s, uint64_t n, uint64_t t, uint64_t m) { return s < t || (s == t && n <= m); }
static void choose(void) {
    for (;;) {
        int run[MAXT], nr = 0, first = -1;
        for (int i = 0; i < nthr; i++) {
            if (thr[i].wait == RUN) run[nr++] = i;
            if (thr[i].has_dl && (thr[i].wait == FUTEX || thr[i].wait == SLEEP) &&
                (first < 0 || !le(thr[first].s, thr[first].n, thr[i].s, thr[i].n))) first = i;
        }
        int time = first >= 0 && (nr == 0 || lates > 0), n = nr + time;
        if (n == 0) { printf("BLOCKED\n"); fflush(stdout); _exit(6); }
        int k = n > 1 ? (int)next() : 0;
        if (k >= n) { printf("INPUT-RANGE\n"); fflush(stdout); _exit(5); }
        if (k < nr) { baton = run[k]; return; }
        if (nr) lates--;
        if (le(now_s, now_n, thr[first].s, thr[first].n)) { now_s = thr[first].s; now_n = thr[first].n; }
        for (int i = 0; i < nthr; i++)
            if (thr[i].has_dl && (thr[i].wait == FUTEX || thr[i].wait == SLEEP) && le(thr[i].s, thr[i].n, now_s, now_n)) {
                thr[i].wait = RUN;
                thr[i].resumed = TIMEDOUT;
            }
    }
}
/* with the mutex */
static void block(int w) {
    thr[me].wait = w;
    thr[me].resumed = NONE;
    choose();
    if (baton != me) {
        pthread_cond_signal(&thr[baton].cond);
        if (w == DONE) return;
        while (baton != me) pthread_cond_wait(&thr[me].cond, &mx);
    }
}
static void preempt(void) {
    if (preempts == 0) return;
    int others = 0;
    for (int i = 0; i < nthr; i++) others |= i != me && thr[i].wait == RUN;
    if (!others) return;
    uint64_t k = next();
    if (k == 1) { preempts--; block(RUN); }
}
static void *start(void *p) {
    me = (int)(intptr_t)p;
    pthread_mutex_lock(&mx);
    while (baton != me) pthread_cond_wait(&thr[me].cond, &mx);
    pthread_mutex_unlock(&mx);
    thr[me].f(thr[me].arg);
    pthread_mutex_lock(&mx);
    for (int i = 0; i < nthr; i++)
        if (thr[i].wait == JOIN && thr[i].target == me) { thr[i].wait = RUN; thr[i].resumed = WOKEN; }
    block(DONE);
    pthread_mutex_unlock(&mx);
    /* stays here: what the libc does at the end of a thread isn't part of the schedule */
    for (;;) pause();
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
    static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    if (!real) *(void **)&real = dlsym(RTLD_NEXT, "pthread_create");
    (void)at;
    pthread_mutex_lock(&mx);
    preempt();
    if (nthr >= MAXT) { printf("TOO-MANY-THREADS\n"); fflush(stdout); _exit(5); }
    int i = nthr++;
    thr[i].wait = RUN;
    thr[i].f = f;
    thr[i].arg = arg;
    pthread_cond_init(&thr[i].cond, 0);
    pthread_t real_t;
    int r = real(&real_t, 0, start, (void *)(intptr_t)i);
    *t = (pthread_t)i;
    pthread_mutex_unlock(&mx);
    return r;
}
int pthread_join(pthread_t t, void **r) {
    (void)r;
    pthread_mutex_lock(&mx);
    if (thr[(int)t].wait != DONE) { thr[me].target = (int)t; block(JOIN); }
    pthread_mutex_unlock(&mx);
    return 0;
}
int pthread_detach(pthread_t t) { (void)t; return 0; }
long syscall(long n, ...) {
    va_list v;
    va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    if (n == SYS_futex) {
        uint32_t *addr = (uint32_t *)a;
        int op = (int)b & 0x7f;
        long ret = 0;
        pthread_mutex_lock(&mx);
        if (op == 0 || op == 9) {
            const struct timespec *t = (const struct timespec *)d;
            if (*addr != (uint32_t)c) {
                errno = EAGAIN;
                ret = -1;
            } else {
                thr[me].addr = addr;
                thr[me].has_dl = t != 0;
                if (t) { thr[me].s = t->tv_sec; thr[me].n = t->tv_nsec; }
                block(FUTEX);
                if (thr[me].resumed == TIMEDOUT) { errno = ETIMEDOUT; ret = -1; }
            }
        } else {
            for (int i = 0; i < nthr && ret < (int)c; i++)
                if (thr[i].wait == FUTEX && thr[i].addr == addr) { thr[i].wait = RUN; thr[i].resumed = WOKEN; ret++; }
            preempt();
        }
        pthread_mutex_unlock(&mx);
        return ret;
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
int clock_gettime(clockid_t c, struct timespec *t) {
    (void)c;
    pthread_mutex_lock(&mx);
    preempt();
    t->tv_sec = now_s;
    t->tv_nsec = now_n;
    pthread_mutex_unlock(&mx);
    return 0;
}
void sym_threads(uint64_t p, uint64_t l) { preempts = p; lates = l; }
void sym_sleep(uint64_t s) {
    pthread_mutex_lock(&mx);
    thr[me].has_dl = 1;
    thr[me].s = now_s + s;
    thr[me].n = now_n;
    block(SLEEP);
    pthread_mutex_unlock(&mx);
}

/* the standard input and output of the code; printf doesn't go through these */
static uint8_t out[1 << 20], inp[1 << 16];
static uint64_t nout, ninp, pinp;
ssize_t write(int fd, const void *p, size_t n) {
    (void)fd;
    if (fd == 1 && nout + n <= sizeof out) { memcpy(out + nout, p, n); nout += n; }
    if (fd == 2) return fwrite(p, 1, n, stderr);
    return fd == 1 ? (ssize_t)n : syscall(SYS_write, fd, p, n);
}
ssize_t read(int fd, void *p, size_t n) {
    if (fd != 0) return syscall(SYS_read, fd, p, n);
    if (n > ninp - pinp) n = ninp - pinp;
    memcpy(p, inp + pinp, n);
    pinp += n;
    return n;
}
int ioctl(int fd, unsigned long r, ...) {
    (void)fd;
    if (r != 0x5413) return -1;
    va_list a;
    va_start(a, r);
    uint16_t *w = va_arg(a, uint16_t *);
    va_end(a);
    w[0] = 24; w[1] = 80; w[2] = w[3] = 0;
    return 0;
}
void sym_stdin(uint8_t b) { if (ninp < sizeof inp) inp[ninp++] = b; }
uint16_t sym_stdout(uint64_t i) { return i < nout ? out[i] : 256; }
