/* The Windows and macOS calls that the library's other thread backends use,
 * modelled on top of the pthread calls that the scheduler (msched.c) owns.
 * Objects which are gone are kept as such, so that their use is noticed. */
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include "win/windows.h"
#include "mac/dispatch/dispatch.h"
#include "pbt.h"
#include "msched.h"
#include "wrap.h"

#define K_MUTEX 1
#define K_SEM 2
#define K_THREAD 3
#define K_DEAD 4
typedef struct {
    unsigned magic; int kind;
    pthread_mutex_t m; int owner, depth; /* owner: thread number + 1 */
    sem_t s; long max;                   /* also: the thread has ended */
    LPTHREAD_START_ROUTINE fn; void *arg; pthread_t t;
} Obj;
#define MAGIC 0x0b7ec7u
static __thread DWORD lastError;
static Obj *get(HANDLE h) {
    Obj *o = (Obj *) h;
    if (!o || h == (HANDLE) -1 || ((uintptr_t) h & 7) || o->magic != MAGIC || o->kind == K_DEAD) { lastError = 6; return NULL; }
    return o;
}
static long nlive;
long os_live(void) { return nlive; }
static Obj *mk(int kind) {
    Obj *o = (Obj *) ar_real_malloc(sizeof(Obj));
    memset(o, 0, sizeof(Obj));
    nlive++;
    o->magic = MAGIC; o->kind = kind;
    return o;
}
static int sem_get(sem_t *s) { int r; while ((r = sem_wait(s)) && errno == EINTR); return r; }

HANDLE CreateMutex(LPSECURITY_ATTRIBUTES a, BOOL mine, LPCSTR n) {
    Obj *o = mk(K_MUTEX);
    (void) a; (void) n;
    pthread_mutex_init(&o->m, NULL);
    if (mine) { pthread_mutex_lock(&o->m); o->owner = sched_me() + 1; o->depth = 1; }
    return o;
}
BOOL ReleaseMutex(HANDLE h) {
    Obj *o = get(h);
    if (!o || o->kind != K_MUTEX || o->owner != sched_me() + 1) { lastError = 288; return FALSE; }
    if (--o->depth) return TRUE;
    o->owner = 0;
    pthread_mutex_unlock(&o->m);
    return TRUE;
}
HANDLE CreateSemaphore(LPSECURITY_ATTRIBUTES a, LONG init, LONG max, LPCSTR n) {
    Obj *o;
    (void) a; (void) n;
    if (max <= 0 || init < 0 || init > max) { lastError = 87; return NULL; }
    o = mk(K_SEM);
    sem_init(&o->s, 0, (unsigned) init);
    o->max = max;
    return o;
}
BOOL ReleaseSemaphore(HANDLE h, LONG n, LPLONG prev) {
    Obj *o = get(h);
    int v = 0;
    if (!o || o->kind != K_SEM || n <= 0) return FALSE;
    sem_getvalue(&o->s, &v);
    if (v + n > o->max) { lastError = 298; return FALSE; }
    if (prev) *prev = v;
    while (n-- > 0) sem_post(&o->s);
    return TRUE;
}
static void *thread_main(void *vp) {
    Obj *o = (Obj *) vp;
    o->fn(o->arg);
    sem_post(&o->s);
    return NULL;
}
HANDLE CreateThread(LPSECURITY_ATTRIBUTES a, SIZE_T sz, LPTHREAD_START_ROUTINE fn, LPVOID arg, DWORD fl, LPDWORD id) {
    Obj *o = mk(K_THREAD);
    (void) a; (void) sz; (void) fl;
    o->fn = fn; o->arg = arg;
    sem_init(&o->s, 0, 0);
    if (pthread_create(&o->t, NULL, thread_main, o)) { o->kind = K_DEAD; nlive--; lastError = 8; return NULL; }
    pthread_detach(o->t);
    if (id) *id = 1;
    return o;
}
DWORD WaitForSingleObject(HANDLE h, DWORD ms) {
    Obj *o = get(h);
    if (!o) return WAIT_FAILED;
    switch (o->kind) {
        case K_MUTEX:
            if (o->owner == sched_me() + 1) { o->depth++; return WAIT_OBJECT_0; }
            if (ms == INFINITE) pthread_mutex_lock(&o->m);
            else if (pthread_mutex_trylock(&o->m)) return WAIT_TIMEOUT;
            o->owner = sched_me() + 1; o->depth = 1;
            return WAIT_OBJECT_0;
        case K_SEM:
            if (ms == INFINITE) sem_get(&o->s);
            else if (sem_trywait(&o->s)) return WAIT_TIMEOUT;
            return WAIT_OBJECT_0;
        default:
            if (ms == INFINITE) sem_get(&o->s);
            else if (sem_trywait(&o->s)) return WAIT_TIMEOUT;
            sem_post(&o->s); /* it stays signalled */
            return WAIT_OBJECT_0;
    }
}
BOOL CloseHandle(HANDLE h) {
    Obj *o = get(h);
    if (!o) return FALSE;
    if (o->kind == K_SEM) sem_destroy(&o->s);
    else if (o->kind == K_MUTEX) pthread_mutex_destroy(&o->m);
    o->kind = K_DEAD; nlive--;
    return TRUE;
}
void Sleep(DWORD ms) { (void) ms; sched_point(); }
BOOL SwitchToThread(void) { sched_point(); return TRUE; }
DWORD GetLastError(void) { return lastError; }
DWORD GetCurrentThreadId(void) { return (DWORD) sched_me() + 1; }
void InitializeCriticalSection(LPCRITICAL_SECTION c) { c->m = CreateMutex(NULL, 0, NULL); }
void EnterCriticalSection(LPCRITICAL_SECTION c) { WaitForSingleObject(c->m, INFINITE); }
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION c) { return WaitForSingleObject(c->m, 0) == WAIT_OBJECT_0; }
void LeaveCriticalSection(LPCRITICAL_SECTION c) { ReleaseMutex(c->m); }
void DeleteCriticalSection(LPCRITICAL_SECTION c) { CloseHandle(c->m); }
void *InterlockedCompareExchangePointer(void *volatile *p, void *to, void *from) {
    void *old;
    sched_point();
    old = *p;
    if (old == from) *p = to;
    return old;
}

struct fake_dispatch_semaphore { unsigned magic; int dead; sem_t s; long orig; };
dispatch_semaphore_t dispatch_semaphore_create(long v) {
    dispatch_semaphore_t s;
    if (v < 0) return NULL;
    s = (dispatch_semaphore_t) ar_real_malloc(sizeof(*s));
    memset(s, 0, sizeof(*s));
    s->magic = MAGIC; s->orig = v; nlive++;
    sem_init(&s->s, 0, (unsigned) v);
    return s;
}
static dispatch_semaphore_t live(dispatch_semaphore_t s, const char *what) {
    if (!s || s->magic != MAGIC || s->dead) pbt_fail("%s of a semaphore which does not exist", what);
    return s;
}
long dispatch_semaphore_signal(dispatch_semaphore_t s) { sem_post(&live(s, "posting")->s); return 0; }
long dispatch_semaphore_wait(dispatch_semaphore_t s, dispatch_time_t t) {
    live(s, "a wait");
    if (t == DISPATCH_TIME_FOREVER) { sem_get(&s->s); return 0; }
    return sem_trywait(&s->s) ? 49 : 0;
}
void dispatch_release(dispatch_semaphore_t s) {
    int v = 0;
    live(s, "the release");
    sem_getvalue(&s->s, &v);
    /* libdispatch takes this for a semaphore in use and ends the program */
    if (v < s->orig) pbt_fail("a semaphore is released with a count of %d, below its initial %ld", v, s->orig);
    sem_destroy(&s->s);
    s->dead = 1; nlive--;
}
void dispatch_retain(dispatch_semaphore_t s) { (void) s; }
