#define _GNU_SOURCE
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "pbt.h"
#include "msched.h"

int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);

#define MAXT 400
enum { S_NONE, S_RUN, S_MUTEX, S_SEM, S_BARRIER, S_JOIN, S_DONE, S_COND, S_RD, S_WR };
typedef struct {
    int state;
    const void *on;      /* mutex, semaphore, barrier, condition, lock */
    const void *mutex;   /* the one to take again after the condition */
    int released;        /* by the barrier */
    int target;          /* thread waited for */
    int joined, detached;
    long prio;
    volatile int token;
    pthread_t pt;
    void *(*fn)(void *);
    void *arg, *ret;
} Thr;
static Thr T[MAXT];
static int nT = 1, cur, on, reap = -1;
static __thread int me;
static PbtRng rng;
static int mode;
static unsigned tickmean, syncDen;
static long countdown, lowprio;
static unsigned long sincep;
static int spins;
__thread int sched_fail_create, sched_eintr;
unsigned long sched_switches, sched_ticks, sched_syncs, sched_creates, sched_limit = 400000;

/* states are kept inside the objects, so that an initializer or a structure
 * copy means what it means to the real ones */
typedef struct { int owner1, depth, recursive; } MMutex; /* owner + 1 */
typedef struct { int writer1, readers; } MRw;
typedef struct { unsigned magic; int value; } MSem;
typedef struct { unsigned magic; unsigned count, arrived; } MBar;
#define SEMMAGIC 0x5E3A0001u
#define BARMAGIC 0xBA770001u

static void fwait(volatile int *p) {
    while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT, 0, NULL, NULL, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void fpost(volatile int *p) {
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE, 1, NULL, NULL, 0);
}

static int enabled(int t) {
    switch (T[t].state) {
        case S_RUN: return 1;
        case S_MUTEX: return ((const MMutex *) T[t].on)->owner1 == 0;
        case S_SEM: return ((const MSem *) T[t].on)->value > 0;
        case S_BARRIER: return T[t].released;
        case S_JOIN: return T[T[t].target].state == S_DONE;
        case S_RD: return ((const MRw *) T[t].on)->writer1 == 0;
        case S_WR: return ((const MRw *) T[t].on)->writer1 == 0 && ((const MRw *) T[t].on)->readers == 0;
        default: return 0;
    }
}

const char *sched_states(void) {
    static char b[1200];
    static const char *const nm[] = { "-", "running", "mutex", "semaphore", "barrier", "join", "finished", "condition", "reader", "writer" };
    int i, n = 0;
    for (i = 0; i < nT && n < 1000; i++) {
        if (T[i].state == S_DONE) continue;
        n += snprintf(b + n, sizeof(b) - (size_t) n, "%s%d:%s", n ? " " : "", i, nm[T[i].state]);
        if (T[i].state == S_JOIN) n += snprintf(b + n, sizeof(b) - (size_t) n, " %d", T[i].target);
        if (T[i].state == S_MUTEX) n += snprintf(b + n, sizeof(b) - (size_t) n, " of %d", ((const MMutex *) T[i].on)->owner1 - 1);
    }
    return b;
}

static void draw(void) {
    if (mode == 2) { countdown = 1 + (long) pbt_below(&rng, tickmean * 40 + 1); return; }
    countdown = 1 + (long) pbt_below(&rng, 2 * tickmean);
    if (mode == 1 && pbt_chance(&rng, 7, 8)) countdown *= 30;
}

/* who is next; avoid: not this one, if another can run */
static int choose(int avoid) {
    int i, n = 0, best = -1, k;
    for (i = 0; i < nT; i++) {
        if (i == avoid || !enabled(i)) continue;
        n++;
        if (mode == 2 && (best < 0 || T[i].prio > T[best].prio)) best = i;
    }
    if (!n) return avoid >= 0 && enabled(avoid) ? avoid : -1;
    if (mode == 2) return best;
    k = (int) pbt_below(&rng, (uint32_t) n);
    for (i = 0; i < nT; i++) {
        if (i == avoid || !enabled(i)) continue;
        if (!k--) return i;
    }
    return -1;
}

static void claim(int t) {
    /* the chosen thread takes what it waited for at once */
    switch (T[t].state) {
        case S_MUTEX: ((MMutex *) (void *) T[t].on)->owner1 = t + 1; break;
        case S_SEM: ((MSem *) (void *) T[t].on)->value--; break;
        case S_BARRIER: T[t].released = 0; break;
        case S_RD: ((MRw *) (void *) T[t].on)->readers++; break;
        case S_WR: ((MRw *) (void *) T[t].on)->writer1 = t + 1; break;
        default: break;
    }
    T[t].state = S_RUN;
    T[t].on = NULL;
}

static void go(int t) {
    int self = me;
    if (t < 0) pbt_fail("deadlock: no thread can run (%s)", sched_states());
    claim(t);
    if (t == self) return;
    sched_switches++;
    cur = t;
    draw();
    fpost(&T[t].token);
    if (T[self].state == S_DONE) return;
    fwait(&T[self].token);
    if (reap >= 0) {
        int r = reap;
        reap = -1;
        __real_pthread_join(T[r].pt, NULL);
    }
}

static void count_point(void) {
    sched_syncs++;
    if (++sincep > sched_limit)
        pbt_fail("livelock: %lu synchronisation points without progress (%s)", sincep, sched_states());
}

/* a synchronisation operation is about to happen */
static void sync_point(void) {
    if (!on) return;
    count_point();
    if (mode == 2) {
        int t = choose(-1);
        if (t != me && t >= 0 && T[t].prio > T[me].prio) go(t);
    } else if (!pbt_below(&rng, syncDen)) {
        int t = choose(-1);
        if (t != me) go(t);
    }
}
static void block_on(int state, const void *obj) {
    T[me].state = state;
    T[me].on = obj;
    if (!on) { if (!enabled(me)) pbt_fail("blocked without another thread"); claim(me); return; }
    go(choose(-1));
}

void sched_preempt(void) {
    int t;
    if (!on) return;
    t = choose(me);
    if (t >= 0 && t != me) {
        if (mode == 2) T[me].prio = --lowprio;
        go(t);
    }
}
void sched_point(void) { sync_point(); }
void sched_progress(void) { sincep = 0; }
int sched_me(void) { return me; }

void sched_start(uint64_t seed, int m, unsigned ticks, unsigned syncden) {
    rng.s = seed;
    mode = m; tickmean = ticks ? ticks : 1; syncDen = syncden ? syncden : 1;
    T[0].state = S_RUN;
    T[0].prio = 1000000 + (long) pbt_below(&rng, 1000);
    nT = 1; cur = 0; me = 0;
    on = 1;
    draw();
}
void sched_stop(void) { on = 0; }

/* ------------------------------------------------------------ memory accesses */
static inline void tick(void) {
    if (!on || me != cur) return;
    sched_ticks++;
    if (--countdown > 0) return;
    draw();
    if (mode == 2) T[me].prio = --lowprio;
    {
        int t = choose(-1);
        if (t >= 0 && t != me) go(t);
    }
}
#define A1(n) void n(void *p) { (void) p; tick(); }
#define A2(n) void n(void *p, unsigned long s) { (void) p; (void) s; tick(); }
A1(__tsan_read1) A1(__tsan_read2) A1(__tsan_read4) A1(__tsan_read8) A1(__tsan_read16)
A1(__tsan_write1) A1(__tsan_write2) A1(__tsan_write4) A1(__tsan_write8) A1(__tsan_write16)
A1(__tsan_unaligned_read2) A1(__tsan_unaligned_read4) A1(__tsan_unaligned_read8) A1(__tsan_unaligned_read16)
A1(__tsan_unaligned_write2) A1(__tsan_unaligned_write4) A1(__tsan_unaligned_write8) A1(__tsan_unaligned_write16)
A1(__tsan_volatile_read1) A1(__tsan_volatile_read2) A1(__tsan_volatile_read4) A1(__tsan_volatile_read8) A1(__tsan_volatile_read16)
A1(__tsan_volatile_write1) A1(__tsan_volatile_write2) A1(__tsan_volatile_write4) A1(__tsan_volatile_write8) A1(__tsan_volatile_write16)
A1(__tsan_unaligned_volatile_read2) A1(__tsan_unaligned_volatile_read4) A1(__tsan_unaligned_volatile_read8)
A1(__tsan_unaligned_volatile_write2) A1(__tsan_unaligned_volatile_write4) A1(__tsan_unaligned_volatile_write8)
A1(__tsan_read_write1) A1(__tsan_read_write2) A1(__tsan_read_write4) A1(__tsan_read_write8) A1(__tsan_read_write16)
A2(__tsan_read_range) A2(__tsan_write_range)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void) a; (void) b; tick(); }
void __tsan_vptr_read(void **a) { (void) a; tick(); }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *a, const void *b, unsigned long n) { tick(); return memcpy(a, b, n); }
void *__tsan_memset(void *a, int b, unsigned long n) { tick(); return memset(a, b, n); }
void *__tsan_memmove(void *a, const void *b, unsigned long n) { tick(); return memmove(a, b, n); }
#define AT(n, type) \
type __tsan_atomic##n##_load(const volatile type *p, int m) { (void) m; tick(); return *p; } \
void __tsan_atomic##n##_store(volatile type *p, type v, int m) { (void) m; tick(); *p = v; } \
type __tsan_atomic##n##_exchange(volatile type *p, type v, int m) { type o; (void) m; tick(); o = *p; *p = v; return o; } \
type __tsan_atomic##n##_fetch_add(volatile type *p, type v, int m) { type o; (void) m; tick(); o = *p; *p = (type) (o + v); return o; } \
type __tsan_atomic##n##_fetch_sub(volatile type *p, type v, int m) { type o; (void) m; tick(); o = *p; *p = (type) (o - v); return o; } \
type __tsan_atomic##n##_fetch_and(volatile type *p, type v, int m) { type o; (void) m; tick(); o = *p; *p = o & v; return o; } \
type __tsan_atomic##n##_fetch_or(volatile type *p, type v, int m) { type o; (void) m; tick(); o = *p; *p = o | v; return o; } \
type __tsan_atomic##n##_fetch_xor(volatile type *p, type v, int m) { type o; (void) m; tick(); o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile type *p, type *e, type v, int m, int f) { \
    (void) m; (void) f; tick(); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile type *p, type *e, type v, int m, int f) { \
    return __tsan_atomic##n##_compare_exchange_strong(p, e, v, m, f); } \
type __tsan_atomic##n##_compare_exchange_val(volatile type *p, type e, type v, int m, int f) { \
    type o; (void) m; (void) f; tick(); o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void) m; tick(); }
void __tsan_atomic_signal_fence(int m) { (void) m; }

/* ---------------------------------------------------------------- threads */
static void finished(int id) {
    T[id].state = S_DONE;
    sincep = 0;
    reap = id;
    go(choose(-1));
}
static void *tramp(void *v) {
    Thr *t = (Thr *) v;
    int id = (int) (t - T);
    me = id;
    fwait(&t->token);
    if (reap >= 0) {
        int r = reap;
        reap = -1;
        __real_pthread_join(T[r].pt, NULL);
    }
    t->ret = t->fn(t->arg);
    finished(id);
    return NULL;
}
int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    int id;
    pthread_attr_t at;
    (void) attr;
    if (!on) pbt_fail("thread created outside of the schedule");
    sync_point();
    if (sched_fail_create > 0) { sched_fail_create--; return EAGAIN; }
    if (nT >= MAXT) { *th = 0; return EAGAIN; }
    id = nT++;
    memset(&T[id], 0, sizeof(T[id]));
    T[id].fn = fn; T[id].arg = arg;
    T[id].state = S_RUN;
    T[id].prio = 1000000 + (long) pbt_below(&rng, 1000);
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    if (__real_pthread_create(&T[id].pt, &at, tramp, &T[id])) _exit(99);
    pthread_attr_destroy(&at);
    sched_creates++;
    *th = (pthread_t) (id + 1);
    sync_point();
    return 0;
}
int __wrap_pthread_join(pthread_t th, void **ret) {
    int id = (int) th - 1;
    sync_point();
    if (id < 1 || id >= nT) pbt_fail("joined a thread that never existed");
    if (T[id].joined) pbt_fail("thread %d was joined twice", id);
    if (id == me) return EDEADLK;
    T[id].joined = 1;
    T[me].target = id;
    block_on(S_JOIN, NULL);
    if (ret) *ret = T[id].ret;
    sync_point();
    return 0;
}
void __real_pthread_exit(void *) __attribute__((noreturn));
void __wrap_pthread_exit(void *ret) {
    if (!me) pbt_fail("the main thread was ended");
    T[me].ret = ret;
    finished(me);
    __real_pthread_exit(ret);
}
pthread_t __wrap_pthread_self(void) { return (pthread_t) (me + 1); }
int __wrap_pthread_detach(pthread_t th) { (void) th; return 0; }

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    sync_point();
    if (((MMutex *) m)->owner1 == me + 1 && on) {
        if (((MMutex *) m)->recursive) { ((MMutex *) m)->depth++; return 0; }
        pbt_fail("thread %d locks a mutex it already holds", me);
    }
    block_on(S_MUTEX, m);
    return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { (void) ts; return __wrap_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    MMutex *x = (MMutex *) m;
    sync_point();
    if (x->owner1 == me + 1 && x->recursive) { x->depth++; return 0; }
    if (x->owner1) {
        /* whoever holds it has to get on */
        if (on) {
            int t;
            count_point();
            if (mode == 2) T[me].prio = --lowprio;
            t = choose(me);
            if (t < 0 || t == me) {
                if (++spins > 2000) pbt_fail("livelock: a thread spins on a mutex held by thread %d, which cannot run (%s)", x->owner1 - 1, sched_states());
            } else {
                spins = 0;
                go(t);
            }
        }
        return EBUSY;
    }
    spins = 0;
    x->owner1 = me + 1;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    MMutex *x = (MMutex *) m;
    if (x->owner1 != me + 1) pbt_fail("thread %d unlocks a mutex it does not hold (holder: %d)", me, x->owner1 - 1);
    if (x->depth) { x->depth--; return 0; }
    x->owner1 = 0;
    sync_point();
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    int kind = 0;
    memset(m, 0, sizeof(*m));
    if (a && !pthread_mutexattr_gettype(a, &kind) && kind == PTHREAD_MUTEX_RECURSIVE) ((MMutex *) m)->recursive = 1;
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    if (((MMutex *) m)->owner1) pbt_fail("a mutex is destroyed while held");
    return 0;
}

static void nobody_waits(const void *p, const char *what) {
    int i;
    for (i = 0; i < nT; i++)
        if ((T[i].state == S_SEM || T[i].state == S_BARRIER || T[i].state == S_COND) && T[i].on == p && !enabled(i))
            pbt_fail("%s while thread %d waits in it (%s)", what, i, sched_states());
}
int __wrap_sem_init(sem_t *s, int sh, unsigned v) {
    MSem *x = (MSem *) s;
    (void) sh;
    if (x->magic == SEMMAGIC) nobody_waits(s, "a semaphore is reset");
    x->magic = SEMMAGIC; x->value = (int) v;
    return 0;
}
int __wrap_sem_destroy(sem_t *s) {
    MSem *x = (MSem *) s;
    if (x->magic != SEMMAGIC) pbt_fail("a semaphore that was never initialized is destroyed");
    nobody_waits(s, "a semaphore is destroyed");
    x->magic = 0;
    return 0;
}
int __wrap_sem_wait(sem_t *s) {
    MSem *x = (MSem *) s;
    sync_point();
    if (x->magic != SEMMAGIC) pbt_fail("waiting for a semaphore that does not exist");
    if (sched_eintr > 0) { sched_eintr--; sync_point(); errno = EINTR; return -1; }
    block_on(S_SEM, s);
    return 0;
}
int __wrap_sem_trywait(sem_t *s) {
    MSem *x = (MSem *) s;
    sync_point();
    if (x->value > 0) { x->value--; return 0; }
    if (on) { int t; count_point(); if (mode == 2) T[me].prio = --lowprio; t = choose(me); if (t >= 0 && t != me) go(t); }
    errno = EAGAIN;
    return -1;
}
int __wrap_sem_post(sem_t *s) {
    MSem *x = (MSem *) s;
    sync_point();
    if (x->magic != SEMMAGIC) pbt_fail("posting to a semaphore that does not exist");
    x->value++;
    sync_point();
    return 0;
}

int __wrap_pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *a, unsigned n) {
    MBar *x = (MBar *) b;
    (void) a;
    sync_point();
    if (x->magic == BARMAGIC) nobody_waits(b, "a barrier is reset");
    if (!n) { /* EINVAL; what was there is of no use any more */ x->magic = 0; return EINVAL; }
    x->magic = BARMAGIC; x->count = n; x->arrived = 0;
    return 0;
}
int __wrap_pthread_barrier_destroy(pthread_barrier_t *b) {
    MBar *x = (MBar *) b;
    sync_point();
    if (x->magic != BARMAGIC) return EINVAL;
    nobody_waits(b, "a barrier is destroyed");
    x->magic = 0;
    return 0;
}
int __wrap_pthread_barrier_wait(pthread_barrier_t *b) {
    MBar *x = (MBar *) b;
    int i;
    sync_point();
    if (x->magic != BARMAGIC) pbt_fail("waiting in a barrier that does not exist");
    if (x->arrived + 1 >= x->count) {
        x->arrived = 0;
        for (i = 0; i < nT; i++)
            if (T[i].state == S_BARRIER && T[i].on == b) T[i].released = 1;
        sync_point();
        return PTHREAD_BARRIER_SERIAL_THREAD;
    }
    x->arrived++;
    T[me].released = 0;
    block_on(S_BARRIER, b);
    return 0;
}

/* -------- what the library does not use today, so that it may be rewritten with it */
static void busy(void) { /* waiting for somebody without saying for whom */
    int t;
    if (!on) return;
    count_point();
    if (mode == 2) T[me].prio = --lowprio;
    t = choose(me);
    if (t >= 0 && t != me) go(t);
}
int __wrap_sched_yield(void) { busy(); return 0; }
int __wrap_pthread_yield(void) { busy(); return 0; }
int __wrap_usleep(useconds_t u) { (void) u; busy(); return 0; }
unsigned __wrap_sleep(unsigned u) { (void) u; busy(); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void) a; (void) b; busy(); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void) c; (void) f; (void) a; (void) b; busy(); return 0; }

int __wrap_sem_timedwait(sem_t *s, const struct timespec *ts) {
    MSem *x = (MSem *) s;
    (void) ts;
    sync_point();
    if (x->magic != SEMMAGIC) pbt_fail("waiting for a semaphore that does not exist");
    if (x->value > 0) { x->value--; return 0; }
    busy();
    if (x->value > 0) { x->value--; return 0; }
    errno = ETIMEDOUT;
    return -1;
}
int __wrap_sem_getvalue(sem_t *s, int *v) { sync_point(); *v = ((MSem *) s)->value; return 0; }

int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) a; memset(c, 0, sizeof(*c)); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { nobody_waits(c, "a condition variable is destroyed"); return 0; }
static void cond_release(pthread_mutex_t *m) {
    MMutex *x = (MMutex *) m;
    if (x->owner1 != me + 1) pbt_fail("thread %d waits for a condition without holding the mutex", me);
    x->owner1 = 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    sync_point();
    cond_release(m);
    if (!pbt_below(&rng, 16)) { /* for no reason */
        busy();
        block_on(S_MUTEX, m);
        return 0;
    }
    T[me].mutex = m;
    block_on(S_COND, c); /* signalled: it waits for the mutex */
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    (void) c; (void) ts;
    sync_point();
    cond_release(m);
    busy();
    block_on(S_MUTEX, m);
    return ETIMEDOUT;
}
static void wake(const pthread_cond_t *c, int all) {
    int i, n = 0, k;
    for (i = 0; i < nT; i++) if (T[i].state == S_COND && T[i].on == c) n++;
    if (!n) return;
    k = all ? -1 : (int) pbt_below(&rng, (uint32_t) n);
    for (i = 0; i < nT; i++) {
        if (T[i].state != S_COND || T[i].on != c) continue;
        if (all || k-- == 0) { T[i].state = S_MUTEX; T[i].on = T[i].mutex; }
    }
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { sync_point(); wake(c, 0); sync_point(); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { sync_point(); wake(c, 1); sync_point(); return 0; }

int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { (void) a; memset(l, 0, sizeof(*l)); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) {
    if (((MRw *) l)->writer1 || ((MRw *) l)->readers) pbt_fail("a lock is destroyed while held");
    return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { sync_point(); block_on(S_RD, l); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { sync_point(); block_on(S_WR, l); return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
    sync_point();
    if (((MRw *) l)->writer1) { busy(); return EBUSY; }
    ((MRw *) l)->readers++;
    return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
    sync_point();
    if (((MRw *) l)->writer1 || ((MRw *) l)->readers) { busy(); return EBUSY; }
    ((MRw *) l)->writer1 = me + 1;
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) {
    MRw *x = (MRw *) l;
    if (x->writer1 == me + 1) x->writer1 = 0;
    else if (x->readers) x->readers--;
    else pbt_fail("thread %d unlocks a lock it does not hold", me);
    sync_point();
    return 0;
}

int __wrap_pthread_spin_init(pthread_spinlock_t *l, int sh) { (void) sh; *l = 0; return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *l) { (void) l; return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *l) {
    sync_point();
    while (*l) {
        if (*l == me + 1) pbt_fail("thread %d takes a spin lock it already holds", me);
        busy();
    }
    *l = me + 1;
    return 0;
}
int __wrap_pthread_spin_trylock(pthread_spinlock_t *l) {
    sync_point();
    if (*l) { busy(); return EBUSY; }
    *l = me + 1;
    return 0;
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t *l) { *l = 0; sync_point(); return 0; }

int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
    int *x = (int *) o;
    sync_point();
    if (*x == 2) return 0;
    while (*x == 1) busy();
    if (*x == 2) return 0;
    *x = 1;
    f();
    *x = 2;
    sync_point();
    return 0;
}
