// Scheduler for real threads of which only one runs at a time. Every atomic operation of the
// instrumented Rust code, every futex call and every sched_yield is a scheduling point at which
// control may pass to another thread; which one is decided by a given sequence of choices, and all
// points that had an alternative are recorded.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

#define MAX_THREADS 4
#define MAX_POINTS 65536
#define MAX_STEPS 400000

struct point {
    uint8_t options;     // how many threads could run
    uint8_t chosen;      // index of the one that did
    uint8_t preempts;    // whether choosing another than the first is a preemption
    uint8_t used;        // preemptions before this point
    uint32_t mark;       // what the execution looks like at this point
};

struct shared {
    // In: what to do.
    uint32_t bound, nprefix, trace;
    uint8_t prefix[MAX_POINTS];
    // Out: what was done.
    uint32_t npoints, steps, switches, ended;
    struct point points[MAX_POINTS];
    // For the harness.
    uint32_t status, nlog;
    uint64_t outcome;
    char text[65536];
};

enum { RUNNABLE, BLOCKED, FINISHED };
enum { RUNNING, ENDED, DEADLOCK, LIVELOCK, OVERFLOW_ };

static struct shared *sh;
static int active, nthreads, used;
static uint32_t mark;
static int state[MAX_THREADS];
static int yielded[MAX_THREADS];
static const void *blocked_on[MAX_THREADS];
static int timed[MAX_THREADS], timed_out[MAX_THREADS];
static int go[MAX_THREADS], main_go;
static void (*body)(int);
static __thread int me = -1;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

static void signal_(int *word) {
    __atomic_store_n(word, 1, __ATOMIC_SEQ_CST);
    raw(SYS_futex, (long)word, FUTEX_WAKE, 1, 0, 0, 0);
}

static void wait_(int *word) {
    while (!__atomic_exchange_n(word, 0, __ATOMIC_SEQ_CST))
        raw(SYS_futex, (long)word, FUTEX_WAIT, 0, 0, 0, 0);
}

static void give_up(int why) {
    sh->ended = why;
    active = 0;
    signal_(&main_go);
    for (;;) raw(SYS_pause, 0, 0, 0, 0, 0, 0);
}

static int choose(int options, int preempts) {
    int chosen = 0;
    if (options < 2) return 0;
    if (sh->npoints >= MAX_POINTS) give_up(OVERFLOW_);
    if (sh->npoints < sh->nprefix) {
        chosen = sh->prefix[sh->npoints];
        if (chosen >= options) give_up(OVERFLOW_);
    }
    struct point *p = &sh->points[sh->npoints++];
    p->options = options;
    p->chosen = chosen;
    p->preempts = preempts;
    p->used = used;
    p->mark = mark;
    if (preempts && chosen) used++;
    return chosen;
}

static void switch_to(int next) {
    int self = me;
    if (next == self) return;
    sh->switches++;
    signal_(&go[next]);
    wait_(&go[self]);
}

// Someone else must run now: picks whom.
static int pick_other(int self, int include_self) {
    int list[MAX_THREADS], n = 0;
    for (int round = 0; round < 2 && !n; round++) {
        for (int k = 1; k <= nthreads; k++) {
            int t = (self + k) % nthreads;
            if (t == self && !include_self) continue;
            if (state[t] == RUNNABLE && (round || !yielded[t])) list[n++] = t;
        }
    }
    if (!n) {
        for (int t = 0; t < nthreads; t++) { // Time passes only when nothing else can happen.
            if (state[t] == BLOCKED && timed[t]) {
                state[t] = RUNNABLE;
                timed_out[t] = 1;
                return t;
            }
        }
        give_up(DEADLOCK);
    }
    return list[choose(n, 0)];
}

static void step(void *at) {
    mark = (mark ^ (uint32_t)(uintptr_t)at ^ (uint32_t)me << 28) * 0x9E3779B1u + 1;
    if (++sh->steps > MAX_STEPS) give_up(LIVELOCK);
}

// A point at which another thread may be scheduled instead of this one.
void rt_point(void) {
    if (!active || me < 0) return;
    step(__builtin_return_address(0));
    for (int t = 0; t < nthreads; t++) if (t != me) yielded[t] = 0;
    if (used >= (int)sh->bound) return;
    int list[MAX_THREADS], n = 0;
    list[n++] = me;
    for (int t = 0; t < nthreads; t++)
        if (t != me && state[t] == RUNNABLE) list[n++] = t;
    switch_to(list[choose(n, 1)]);
}

static void block(const void *addr) {
    state[me] = BLOCKED;
    blocked_on[me] = addr;
    switch_to(pick_other(me, 1));
}

static void unblock(const void *addr, int max, int *count) {
    for (int t = 0; t < nthreads && *count < max; t++) {
        if (state[t] == BLOCKED && blocked_on[t] == addr) {
            state[t] = RUNNABLE;
            timed[t] = 0;
            ++*count;
        }
    }
}

int sched_yield(void);

// Blocks until the word is not zero, and resets it. A thread that has woken itself is busy waiting
// for another one: it lets all others go first.
void rt_wait(volatile uint32_t *word) {
    if (*word == (uint32_t)me + 1) {
        sched_yield();
    } else {
        rt_point();
    }
    while (!*word) {
        if (!active || me < 0) abort();
        block((const void *)word);
    }
    *word = 0;
}

void rt_wake(volatile uint32_t *word) {
    int count = 0;
    rt_point();
    *word = (uint32_t)me + 1;
    if (active) unblock((const void *)word, MAX_THREADS, &count);
}

int sched_yield(void) {
    if (!active || me < 0) return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    step(__builtin_return_address(0));
    yielded[me] = 1;
    switch_to(pick_other(me, 1));
    return 0;
}

long syscall(long n, ...) {
    long a[6];
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && active && me >= 0) {
        int op = a[1] & FUTEX_CMD_MASK, count = 0;
        const void *addr = (const void *)a[0];
        rt_point();
        switch (op) {
        case FUTEX_WAIT:
        case FUTEX_WAIT_BITSET:
            if (*(volatile uint32_t *)addr != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
            timed[me] = a[3] != 0;
            timed_out[me] = 0;
            block(addr);
            if (timed_out[me]) { errno = ETIMEDOUT; return -1; }
            return 0;
        case FUTEX_WAKE:
        case FUTEX_WAKE_BITSET:
            unblock(addr, (int)a[2], &count);
            return count;
        default:
            fprintf(stderr, "unexpected futex operation %d\n", op);
            abort();
        }
    }
    long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}

// The same hash keys and the same number of shards of concurrent maps in every run.
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    memset(buf, 42, len);
    return len;
}

int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set) {
    memset(set, 0, size);
    CPU_SET(0, set);
    return 0;
}

// Time does not influence what happens.
int clock_gettime(clockid_t clock, struct timespec *t) {
    if (!active) return (int)raw(SYS_clock_gettime, clock, (long)t, 0, 0, 0, 0);
    t->tv_sec = 1000;
    t->tv_nsec = 0;
    return 0;
}

void rt_pin(int cpu) {
    cpu_set_t set;
    CPU_ZERO(&set);
    CPU_SET(cpu, &set);
    raw(SYS_sched_setaffinity, 0, sizeof set, (long)&set, 0, 0, 0);
}

static int created;

static void *start(void *arg) {
    int i = (int)(intptr_t)arg;
    for (;;) {
        wait_(&go[i]);
        me = i;
        body(i);
        state[i] = FINISHED;
        int all = 1;
        for (int t = 0; t < nthreads; t++) all &= state[t] == FINISHED;
        if (all) {
            sh->ended = ENDED;
            active = 0;
            me = -1;
            signal_(&main_go);
        } else {
            int next = pick_other(i, 0);
            sh->switches++;
            me = -1;
            signal_(&go[next]);
        }
    }
    return NULL;
}

// Runs n threads to their end, or until they are stuck. In the latter case no more can be run in this
// process.
void rt_run(struct shared *s, int n, void (*f)(int)) {
    if (n > MAX_THREADS) abort();
    for (; created < n; created++) {
        pthread_t id;
        if (pthread_create(&id, NULL, start, (void *)(intptr_t)created)) abort();
    }
    sh = s;
    nthreads = n;
    body = f;
    used = 0;
    mark = 0;
    for (int t = 0; t < n; t++) {
        state[t] = RUNNABLE;
        yielded[t] = timed[t] = timed_out[t] = 0;
        blocked_on[t] = NULL;
    }
    active = 1;
    signal_(&go[choose(n, 0)]);
    wait_(&main_go);
    active = 0;
}

int rt_me(void) { return me; }

#define ATOMICS(N, T) \
    T __tsan_atomic##N##_load(const volatile T *a, int mo) { rt_point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { rt_point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { rt_point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { rt_point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { rt_point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { rt_point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { rt_point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { rt_point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { rt_point(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fo) { rt_point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fo) { rt_point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fo) { rt_point(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }

ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { rt_point(); }
void __tsan_atomic_signal_fence(int mo) {}
void __tsan_init(void) {}
