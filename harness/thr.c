/* Generated multi-threaded programs under the deterministic scheduler, against
 * one graph model. The program text (who starts, joins, posts, waits, meets
 * whom) is planned from the operation list so that it cannot deadlock by
 * itself; whatever then deadlocks, spins for ever, or is found changed, is the
 * library's doing. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "ggggc/gc.h" /* first, as it finds out what system this is */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include "pbt.h"
#include "wrap.h"
#include "msched.h"

GGC_TYPE(TNode)
    GGC_MPTR(TNode, left);
    GGC_MPTR(TNode, right);
    GGC_MDATA(ggc_size_t, val);
GGC_END_TYPE(TNode,
    GGC_PTR(TNode, left)
    GGC_PTR(TNode, right)
    )
/* types which nobody uses before some thread happens to */
#define LAZY(n) \
GGC_TYPE(TLazy##n) \
    GGC_MDATA(ggc_size_t, x); \
    GGC_MPTR(void *, p); \
    GGC_MDATA(ggc_size_t, y); \
GGC_END_TYPE(TLazy##n, GGC_PTR(TLazy##n, p))
LAZY(0) LAZY(1) LAZY(2) LAZY(3) LAZY(4) LAZY(5)
#define NLAZY 6

typedef struct TGen__s { struct GGGGC_Header header; void *a__ptrs[1]; } *TGen;
typedef struct TGenD__s { struct GGGGC_Header header; ggc_size_t a__data[1]; } *TGenD;
#define HDRW (sizeof(struct GGGGC_Header)/sizeof(ggc_size_t))

enum { K_NODE, K_LAZY, K_PA = K_LAZY + NLAZY, K_DA, K_RT, K_ARG };

typedef struct { int id; ggc_size_t raw; } Ref;   /* -1 NULL, -2 raw */
typedef struct { void **p; Ref r; int ro; } Slot; /* ro: not a variable the program stores to; p NULL: known to the model only */
typedef struct { int kind, n, by; Ref *w; void *addr; int seen, mark; } MObj;

#define MAXOBJ 12000
static MObj mo[MAXOBJ];
static int nmo, epoch, markgen;

#define MAXTH 40
#define MAXS 120
typedef struct { PbtOp o; int x, y; int opi; } Item;
typedef struct {
    int id, created, started, finished, joined, planned; /* planned: some thread's program joins it */
    Item *it; int n, ip;
    Slot s[MAXS]; int ns;
    Slot j[80]; int nj;
    int argobj, wantdarg, firstfin;
    ggc_thread_t handle;
    void *jit[120];
    int jn[16], jw[16], njf;
    int depth;
} TH;
static TH th[MAXTH];
static int nth;
static __thread TH *self;

static void *gl[4];           /* shared static roots */
static Ref glr[4];
static GGC_voidpArray board;  /* shared array of objects */
static int boardId;
static Ref ku[K_LAZY + NLAZY]; /* the user pointer of each type's descriptor */

static const PbtCase *cs;
static const char *profileName;
static ggc_mutex_t mx[4] = { GGC_MUTEX_INITIALIZER, GGC_MUTEX_INITIALIZER, GGC_MUTEX_INITIALIZER, GGC_MUTEX_INITIALIZER };
static volatile int inCS[4];
static ggc_sem_t sem[8];
static int semInit[8], posts[8], waits[8];
#define MAXBAR 80
static ggc_barrier_t bar[MAXBAR];
static int barCt[MAXBAR], barArr[MAXBAR], nbar;
static long collectsDone;

enum { C_THREADS, C_SWITCH, C_SYNC, C_TICKS, C_VERIFY, C_OBJCHK, C_MOVED, C_REUSED, C_COLLECT, C_ALLOC, C_JUNK, C_SHARED, C_ORPHAN,
       C_BLOCK, C_BLOCKGC, C_WAIT, C_CS, C_BARRIER, C_JOIN, C_FAILED, C_WINDOW, C_FINREG, C_FINRUN, C_JIT, C_RT, C_ROUNDS, C_GRANTED, C_PASS, C_CONTEND, C_EINTR, C_USER, C_REFUSED, C_TAGGED, C_MANY };
const char *const pbt_ctrname[] = { "threads_started", "switches", "synchronisation_points", "memory_access_points", "verifications", "objects_compared",
    "objects_seen_moved", "addresses_reused", "explicit_collections", "model_allocations", "garbage_allocations", "objects_of_other_threads_used",
    "objects_of_finished_threads_compared", "blocking_operations", "collections_while_blocked", "semaphore_waits", "critical_sections", "barrier_passages",
    "joins", "refused_threads", "windows_without_safe_point", "finalizers_registered", "finalizers_run", "jit_words", "runtime_descriptors", "thread_rounds",
    "granted_areas", "raw_barrier_passages", "contended_locks", "interrupted_waits", "user_pointers_stored", "refused_areas", "tagged_words_stored", "max_threads_at_once", NULL };
#define CTR(c) (pbt_sh->ctr[c]++)
int pbt_cpu_limit = 20;

enum { O_CFG, O_NEW, O_LINK, O_UNLINK, O_SETD, O_LOAD, O_DROP, O_PUB, O_TAKE, O_CHURN, O_COLLECT, O_YIELD, O_VERIFY, O_WINDOW,
       O_START, O_JOIN, O_POST, O_WAIT, O_CS, O_BAR, O_CALL, O_RET, O_JPUSH, O_JPOP, O_FIN, O_RT, O_ROUND, O_BW, O_PHASE, O_USER, O_BUDGET, O_CHAIN, NOPS };
const char *const pbt_opname[] = { "CFG", "NEW", "LINK", "UNLINK", "SETD", "LOAD", "DROP", "PUB", "TAKE", "CHURN", "COLLECT", "YIELD", "VERIFY", "WINDOW",
    "START", "JOIN", "POST", "WAIT", "CS", "BAR", "CALL", "RET", "JPUSH", "JPOP", "FIN", "RT", "ROUND", "BW", "PHASE", "USER", "BUDGET", "CHAIN" };
const int pbt_nop = NOPS;

static void *xalloc(size_t n) {
    void *p = ar_real_malloc(n ? n : 1);
    if (!p) _exit(99);
    memset(p, 0, n ? n : 1);
    return p;
}
static Ref rnull(void) { Ref r; r.id = -1; r.raw = 0; return r; }
static Ref robj(int id) { Ref r; r.id = id; r.raw = 0; return r; }
static Ref rraw(ggc_size_t v) { Ref r; r.id = -2; r.raw = v; return r; }

/* ------------------------------------------------------------------ objects */
static int isptr(const MObj *m, int w) {
    if (m->kind == K_NODE) return w < 2;
    if (m->kind == K_DA) return 0;
    if (m->kind == K_PA) return 1;
    if (m->kind == K_ARG) return w == 0;
    if (m->kind == K_RT) return (w & 1) == 0;
    return w == 1;
}
static int nptr(const MObj *m) {
    switch (m->kind) { case K_NODE: return 2; case K_DA: return 0; case K_PA: return m->n; case K_ARG: return 1; case K_RT: return (m->n + 1) / 2; default: return 1; }
}
static int pword(const MObj *m, int i) { return m->kind == K_RT ? 2 * i : m->kind >= K_LAZY && m->kind < K_PA ? 1 : i; }

static int mnew(int kind, int n, void *p) {
    MObj *m;
    int i;
    if (nmo >= MAXOBJ) pbt_done();
    m = &mo[nmo];
    memset(m, 0, sizeof(*m));
    m->kind = kind; m->n = n; m->addr = p;
    m->by = self ? self->id : 0;
    m->w = (Ref *) xalloc(sizeof(Ref) * (size_t) (n + 1));
    for (i = 0; i < n; i++) m->w[i] = isptr(m, i) ? rnull() : rraw(0);
    CTR(C_ALLOC);
    {
        static ggc_size_t seenaddr[1 << 12];
        unsigned h = (unsigned) pbt_mix((uint64_t) (ggc_size_t) p) & ((1 << 12) - 1);
        if (seenaddr[h] == (ggc_size_t) p) CTR(C_REUSED);
        seenaddr[h] = (ggc_size_t) p;
    }
    return nmo++;
}

static void *rdp(const MObj *m, void *obj, int w) {
    switch (m->kind) {
        case K_NODE: { TNode o = (TNode) obj; return w == 0 ? (void *) GGC_RP(o, left) : (void *) GGC_RP(o, right); }
        case K_PA: { GGC_voidpArray o = (GGC_voidpArray) obj; return GGC_RAP(o, w); }
        case K_ARG: { GGC_ThreadArg o = (GGC_ThreadArg) obj; return GGC_RP(o, parg); }
        case K_RT: { TGen o = (TGen) obj; return GGC_RAP(o, w); }
        default: { TLazy0 o = (TLazy0) obj; return GGC_RP(o, p); }
    }
}
static void wrp(const MObj *m, void *obj, int w, void *v) {
    switch (m->kind) {
        case K_NODE: { TNode o = (TNode) obj, vn = (TNode) v; if (w == 0) GGC_WP(o, left, vn); else GGC_WP(o, right, vn); break; }
        case K_PA: { GGC_voidpArray o = (GGC_voidpArray) obj; GGC_WAP(o, w, v); break; }
        case K_ARG: { GGC_ThreadArg o = (GGC_ThreadArg) obj; GGC_WP(o, parg, v); break; }
        case K_RT: { TGen o = (TGen) obj; GGC_WAP(o, w, v); break; }
        default: { TLazy0 o = (TLazy0) obj; GGC_WP(o, p, v); break; }
    }
}
static ggc_size_t rdw(const MObj *m, void *obj, int w) {
    switch (m->kind) {
        case K_NODE: { TNode o = (TNode) obj; return GGC_RD(o, val); }
        case K_ARG: { GGC_ThreadArg o = (GGC_ThreadArg) obj; return (ggc_size_t) GGC_RD(o, darg); }
        case K_DA: { GGC_size_t_Array o = (GGC_size_t_Array) obj; return GGC_RAD(o, w); }
        case K_RT: { TGenD o = (TGenD) obj; return GGC_RAD(o, w); }
        default: { TLazy0 o = (TLazy0) obj; if (w == 0) return GGC_RD(o, x); return GGC_RD(o, y); }
    }
}
static void wrw(const MObj *m, void *obj, int w, ggc_size_t v) {
    switch (m->kind) {
        case K_NODE: { TNode o = (TNode) obj; GGC_WD(o, val, v); break; }
        case K_ARG: break;
        case K_DA: { GGC_size_t_Array o = (GGC_size_t_Array) obj; GGC_WAD(o, w, v); break; }
        case K_RT: { TGenD o = (TGenD) obj; GGC_WAD(o, w, v); break; }
        default: { TLazy0 o = (TLazy0) obj; if (w == 0) GGC_WD(o, x, v); else GGC_WD(o, y, v); break; }
    }
}
static void fill(int id, void *p, ggc_size_t seed) {
    MObj *m = &mo[id];
    int i;
    for (i = 0; i < m->n; i++)
        if (!isptr(m, i)) {
            ggc_size_t v = (ggc_size_t) pbt_mix(((uint64_t) seed << 20) ^ (uint64_t) (id * 131 + i));
            if (m->kind == K_ARG) continue;
            m->w[i].raw = v;
            wrw(m, p, i, v);
        }
}

/* ------------------------------------------------------------- verification */
static int queue[MAXOBJ], qh, qt;
static void reach(void *v, Ref r, const char *what, int where, int idx) {
    MObj *m;
    if (r.id == -1) { if (v) pbt_fail("%s %d[%d]: expected NULL, found %p", what, where, idx, v); return; }
    if (r.id == -2) { if ((ggc_size_t) v != r.raw) pbt_fail("%s %d[%d]: expected raw value %lx, found %p", what, where, idx, (unsigned long) r.raw, v); return; }
    if (!v) pbt_fail("%s %d[%d]: expected object %d, found NULL", what, where, idx, r.id);
    if ((uintptr_t) v % sizeof(ggc_size_t)) pbt_fail("%s %d[%d]: expected object %d, found misaligned %p", what, where, idx, r.id, v);
    m = &mo[r.id];
    if (m->seen == epoch) {
        if (m->addr != v) pbt_fail("%s %d[%d]: object %d seen at %p and at %p", what, where, idx, r.id, m->addr, v);
        return;
    }
    m->seen = epoch;
    if (m->addr != v) {
        CTR(C_MOVED);
#ifdef GGGGC_COLLECTOR_PORTABLEMS
        pbt_fail("%s %d[%d]: object %d moved from %p to %p under the non-moving collector", what, where, idx, r.id, m->addr, v);
#endif
    }
    m->addr = v;
    queue[qt++] = r.id;
}
typedef struct { uintptr_t lo, hi; int id; } Span;
static Span span[MAXOBJ];
static int cmpspan(const void *a, const void *b) {
    const Span *x = (const Span *) a, *y = (const Span *) b;
    return x->lo < y->lo ? -1 : x->lo > y->lo ? 1 : 0;
}
static void drain(void) {
    int i, ns = 0, wasq = qh;
    while (qh < qt) {
        int id = queue[qh++];
        MObj *m = &mo[id];
        CTR(C_OBJCHK);
        if (m->by != self->id) CTR(C_SHARED);
        if (m->by && th[m->by].finished) CTR(C_ORPHAN);
        if (m->kind == K_PA && ((GGC_voidpArray) m->addr)->length != (ggc_size_t) m->n) pbt_fail("object %d: array length %lu, expected %d", id, (unsigned long) ((GGC_voidpArray) m->addr)->length, m->n);
        if (m->kind == K_DA && ((GGC_size_t_Array) m->addr)->length != (ggc_size_t) m->n) pbt_fail("object %d: array length %lu, expected %d", id, (unsigned long) ((GGC_size_t_Array) m->addr)->length, m->n);
        if (m->kind < K_PA) { TNode o = (TNode) m->addr; reach((void *) GGC_RUP(o), ku[m->kind], "user pointer of type", m->kind, 0); }
        for (i = 0; i < m->n; i++) {
            if (isptr(m, i)) reach(rdp(m, m->addr, i), m->w[i], "object", id, i);
            else {
                ggc_size_t v = rdw(m, m->addr, i);
                if (v != m->w[i].raw) pbt_fail("object %d word %d: expected %lx, found %lx", id, i, (unsigned long) m->w[i].raw, (unsigned long) v);
            }
        }
    }
    for (i = wasq; i < qt; i++) {
        MObj *m = &mo[queue[i]];
        span[ns].id = queue[i];
        span[ns].lo = (uintptr_t) m->addr;
        span[ns].hi = span[ns].lo + sizeof(ggc_size_t) * (HDRW + (size_t) m->n + (m->kind == K_PA || m->kind == K_DA));
        ns++;
    }
    qsort(span, (size_t) ns, sizeof(Span), cmpspan);
    for (i = 1; i < ns; i++)
        if (span[i].lo < span[i-1].hi) pbt_fail("objects %d and %d overlap", span[i-1].id, span[i].id);
}
/* every thread is at a point where its roots are in place */
static void verify(void) {
    int t, i;
    epoch++;
    qh = qt = 0;
    CTR(C_VERIFY);
    for (i = 0; i < 4; i++) reach(gl[i], glr[i], "shared root", i, 0);
    reach((void *) board, robj(boardId), "shared array", 0, 0);
    for (t = 0; t < nth; t++) {
        if (!th[t].started || th[t].finished) continue;
        for (i = 0; i < th[t].ns; i++) if (th[t].s[i].p) reach(*th[t].s[i].p, th[t].s[i].r, "root of thread", t, i);
        for (i = 0; i < th[t].nj; i++) reach(*th[t].j[i].p, th[t].j[i].r, "JIT stack of thread", t, i);
    }
    drain();
}
static void mark_ref(Ref r) {
    if (r.id < 0 || mo[r.id].mark == markgen) return;
    mo[r.id].mark = markgen;
    queue[qt++] = r.id;
}
static void mark_model(void) {
    int t, i;
    markgen++; qh = qt = 0;
    for (i = 0; i < 4; i++) mark_ref(glr[i]);
    mark_ref(robj(boardId));
    for (i = 0; i < K_PA; i++) mark_ref(ku[i]);
    for (t = 0; t < nth; t++) {
        if (th[t].argobj >= 0 && !th[t].started) mark_ref(robj(th[t].argobj));
        if (th[t].finished) continue;
        for (i = 0; i < th[t].ns; i++) if (th[t].s[i].ro != 2) mark_ref(th[t].s[i].r);
        for (i = 0; i < th[t].nj; i++) mark_ref(th[t].j[i].r);
    }
    while (qh < qt) { MObj *m = &mo[queue[qh++]]; for (i = 0; i < m->n; i++) if (isptr(m, i)) mark_ref(m->w[i]); }
}

/* --------------------------------------------------------------- finalizers */
static void churn(unsigned n, unsigned kind);
static void collect(void);
#define NREG 30
static struct { int id, live; } reg[NREG];
static int nreg;
#ifdef GGGGC_FEATURE_FINALIZERS
static void fin_common(int k, void *o) {
    void *obj = o;
    Slot *s;
    GGC_PUSH_1(obj);
    CTR(C_FINRUN);
    if (k >= nreg || !reg[k].live) pbt_fail("finalizer %d ran without a pending registration", k);
    reg[k].live = 0;
    mark_model();
    if (mo[reg[k].id].mark == markgen) pbt_fail("finalizer %d ran although its object %d is reachable", k, reg[k].id);
    if (self->ns < MAXS) {
        s = &self->s[self->ns++];
        s->p = &obj; s->r = robj(reg[k].id); s->ro = 2; /* held by its own finalizer alone */
        verify();
        if (k % 4 == 1) churn(40, 12);
        else if (k % 4 == 3) collect();
        else GGC_YIELD();
        verify();
        self->ns--;
    }
    return;
}
#define F(n) static void fin_##n(void *o) { fin_common(n, o); }
#define F10(p) F(p##0) F(p##1) F(p##2) F(p##3) F(p##4) F(p##5) F(p##6) F(p##7) F(p##8) F(p##9)
F10() F10(1) F10(2)
#define G10(p) fin_##p##0, fin_##p##1, fin_##p##2, fin_##p##3, fin_##p##4, fin_##p##5, fin_##p##6, fin_##p##7, fin_##p##8, fin_##p##9
static const ggc_finalizer_t finfn[] = { G10(), G10(1), G10(2) };
static void fin_register(void *o, int id) {
    void *obj = o;
    int k = nreg++;
    GGC_PUSH_1(obj);
    if (self->ns < MAXS) {
        Slot *s = &self->s[self->ns++];
        s->p = &obj; s->r = robj(id); s->ro = 1;
        reg[k].id = id; reg[k].live = 1;
        CTR(C_FINREG);
        GGC_FINALIZE(obj, finfn[k]);
        self->ns--;
    }
    return;
}
#endif

/* ------------------------------------------------------------------ helpers */
static Slot *slot(uint32_t a) {
    uint32_t n = (uint32_t) self->ns + (uint32_t) self->nj;
    a %= n;
    return a < (uint32_t) self->ns ? &self->s[a] : &self->j[a - (uint32_t) self->ns];
}
static Slot *dst(uint32_t a) {
    uint32_t i, n = (uint32_t) self->ns + (uint32_t) self->nj;
    for (i = 0; i < n; i++) { Slot *s = slot(a + i); if (!s->ro && s->p) return s; }
    return NULL;
}
/* an object somewhere below one of this thread's or the shared roots */
static void *walk(uint32_t a, uint32_t b, int *idp) {
    void *v;
    Ref r;
    uint32_t i, k = (uint32_t) self->ns + (uint32_t) self->nj + 5, tries;
    for (tries = 0; tries < k; tries++) {
        uint32_t q = (a + tries) % k;
        if (q < 4) { v = gl[q]; r = glr[q]; }
        else if (q == 4) { v = (void *) board; r = robj(boardId); }
        else { Slot *s = slot(q - 5); if (!s->p) continue; v = *s->p; r = s->r; }
        if (r.id >= 0) break;
    }
    if (tries == k) { *idp = -1; return NULL; }
    for (i = 0; i < b % 5; i++) {
        MObj *m = &mo[r.id];
        int n = nptr(m), j, w = 0, x = (int) ((b >> 3) + i * 7);
        for (j = 0; j < n; j++) { w = pword(m, (x + j) % n); if (m->w[w].id >= 0) break; }
        if (j == n) break;
        v = rdp(m, v, w);
        r = m->w[w];
        if (!v) pbt_fail("object pointer is NULL, expected object %d", r.id);
    }
    *idp = r.id;
    return v;
}
/* now and then an array nearly fills an area */
#define BIGLEN (GGGGC_WORDS_PER_POOL < 4096 ? GGGGC_WORDS_PER_POOL * 3 / 4 : 3000)
static void *newobj(uint32_t kind, uint32_t n, int *k, int *len) {
    switch (kind % 12) {
        case 0: case 1: case 2: case 3: *k = K_NODE; *len = 3; return (void *) GGC_NEW(TNode);
        case 4: *k = K_PA; *len = (int) (n % 61 == 3 ? n % BIGLEN : n % 12); return (void *) GGC_NEW_PA(GGC_voidp, *len);
        case 5: *k = K_DA; *len = (int) (n % 61 == 3 ? n % BIGLEN : n % 40); return (void *) GGC_NEW_DA(size_t, *len);
        case 6: *k = K_LAZY; *len = 3; return (void *) GGC_NEW(TLazy0);
        case 7: *k = K_LAZY + 1; *len = 3; return (void *) GGC_NEW(TLazy1);
        case 8: *k = K_LAZY + 2; *len = 3; return (void *) GGC_NEW(TLazy2);
        case 9: *k = K_LAZY + 3; *len = 3; return (void *) GGC_NEW(TLazy3);
        case 10: *k = K_LAZY + 4; *len = 3; return (void *) GGC_NEW(TLazy4);
        default: *k = K_LAZY + 5; *len = 3; return (void *) GGC_NEW(TLazy5);
    }
}
static void fresh(void *p, int kind, int n) {
    ggc_size_t *w = (ggc_size_t *) p;
    int i, off = (int) HDRW + (kind == K_PA || kind == K_DA);
    if (!p) pbt_fail("allocation returned NULL");
    for (i = 0; i < n; i++) if (w[off + i]) pbt_fail("fresh object of kind %d has nonzero word %d", kind, i);
}
static void churn(unsigned n, unsigned kind) {
    unsigned i;
    void *keep = NULL;
    GGC_PUSH_1(keep);
    for (i = 0; i < n; i++) {
        int k, l;
        CTR(C_JUNK);
        keep = newobj(kind == 12 ? i : kind, i, &k, &l);
        if (k == K_NODE) { TNode t = (TNode) keep; ggc_size_t v = i; GGC_WP(t, left, t); GGC_WD(t, val, v); }
    }
    return;
}
/* a list which lives for a while, unknown to the model */
static void chain(unsigned n, unsigned pre) {
    TNode head = NULL, t = NULL;
    ggc_size_t i;
    GGC_PUSH_2(head, t);
    for (i = 0; i < n; i++) {
        CTR(C_JUNK);
        t = GGC_NEW(TNode);
        GGC_WP(t, left, head);
        GGC_WD(t, val, i);
        head = t;
        if (pre && i % 64 == pre % 64) sched_preempt();
    }
    for (i = n, t = head; i-- > 0; t = GGC_RP(t, left))
        if (!t || GGC_RD(t, val) != i) pbt_fail("a list of %u nodes built by thread %d is damaged at node %lu", n, self->id, (unsigned long) i);
    if (t) pbt_fail("a list of %u nodes built by thread %d does not end", n, self->id);
    return;
}
static void collect(void) {
    CTR(C_COLLECT);
    GGC_COLLECT();
    collectsDone++;
}

static void pre_block(long *c) { *c = collectsDone; CTR(C_BLOCK); }
static void post_block(long c) { if (collectsDone > c) CTR(C_BLOCKGC); }

static void run_rt(uint32_t a, uint32_t b, uint32_t c) {
    GGC_Descriptor d = NULL;
    ggc_size_t size = HDRW + 1 + b % 40, bits[4] = {0, 0, 0, 0}, i;
    int k, n = (int) (b % 40) + 1;
    Slot *s;
    GGC_PUSH_1(d);
    for (i = 0; i < (ggc_size_t) n; i += 2) bits[(i + HDRW) / GGGGC_BITS_PER_WORD] |= (ggc_size_t) 1 << ((i + HDRW) % GGGGC_BITS_PER_WORD);
    if (size < HDRW + 2) { size = HDRW + 2; n = 2; }
    d = GGC_NEW_DESCRIPTOR(size, bits);
    CTR(C_RT);
    if (c & 1) churn(c % 40, 0);
    for (k = 0; k < 1 + (int) (c % 3); k++) {
        void *p = GGC_NEW_FROM_DESCRIPTOR(d);
        int id;
        fresh(p, K_RT, n);
        id = mnew(K_RT, n, p);
        s = dst(a + (uint32_t) k);
        if (!s) break;
        *s->p = p; s->r = robj(id);
        fill(id, p, c);
    }
    return;
}

static void thread_fn(GGC_ThreadArg arg);
static void step(Item *it);
static void run_items(void) {
    while (self->ip < self->n) {
        Item *it = &self->it[self->ip++];
        pbt_sh->opi = it->opi;
        sched_progress();
        if (it->o.k == O_RET) { if (self->depth) return; continue; }
        step(it);
        if (it->o.d % 4 == 1) sched_preempt();
    }
}
static void call4(void) {
    void *v[4] = {NULL, NULL, NULL, NULL};
    int i, base = self->ns;
    GGC_PUSH_4(v[0], v[1], v[2], v[3]);
    for (i = 0; i < 4; i++) { Slot *s = &self->s[self->ns++]; s->p = &v[i]; s->r = rnull(); s->ro = 0; }
    self->depth++;
    run_items();
    self->depth--;
    self->ns = base;
    return;
}
static void call1(void) {
    void *v = NULL;
    int base = self->ns;
    GGC_PUSH_1(v);
    { Slot *s = &self->s[self->ns++]; s->p = &v; s->r = rnull(); s->ro = 0; }
    self->depth++;
    run_items();
    self->depth--;
    self->ns = base;
    return;
}

#ifdef GGGGC_FEATURE_JITPSTACK
static void jit_push(unsigned n, unsigned seed) {
    unsigned i;
    n = n % 8 + 1;
    if (self->njf >= 14 || self->nj + (int) n > 70) return;
    self->jw[self->njf] = (int) (ggc_jitPointerStackEnd - ggc_jitPointerStack);
    self->jn[self->njf++] = self->nj;
#ifndef GGGGC_FEATURE_EXTTAG
    (void) seed;
    for (i = 0; i < n; i++) {
        void **p = ggc_jitPointerStack - 1;
        *p = NULL;
        ggc_jitPointerStack = p;
        self->j[self->nj].p = p; self->j[self->nj].r = rnull(); self->j[self->nj].ro = 0; self->nj++;
        CTR(C_JIT);
    }
#else
    {
        void **base = ggc_jitPointerStack - (n + 1);
        ggc_size_t tags = 0;
        for (i = 0; i < 8; i++) {
            ggc_size_t t = 0xFF;
            if (i < n) {
                int ptr = (seed >> i & 3) != 0;
                Slot *s = &self->j[self->nj++];
                t = ((pbt_mix(seed + 77 * i) % 126) * 2) | (ptr ? 0 : 1);
                s->p = &base[i + 1];
                if (ptr) { base[i + 1] = NULL; s->r = rnull(); s->ro = 0; }
                else { ggc_size_t v = (ggc_size_t) pbt_mix(seed + i); base[i + 1] = (void *) v; s->r = rraw(v); s->ro = 1; }
                CTR(C_JIT);
            }
            tags |= t << (8 * i);
        }
        base[0] = (void *) tags;
        ggc_jitPointerStack = base;
    }
#endif
}
static void jit_pop(void) {
    void **p;
    int i;
    if (!self->njf) return;
    self->njf--;
    self->nj = self->jn[self->njf];
    p = ggc_jitPointerStackEnd - self->jw[self->njf];
    for (i = 0; ggc_jitPointerStack + i < p; i++) ggc_jitPointerStack[i] = (void *) (ggc_size_t) 0xDEADBEE8u;
    ggc_jitPointerStack = p;
}
#endif

static void start_thread(Item *it) {
    TH *t = &th[it->x];
    GGC_ThreadArg arg = NULL;
    void *p, *darg = (void *) t;
    int id, base = self->ns, r, fails = it->y;
    GGC_PUSH_1(arg);
    arg = GGC_NEW(GGC_ThreadArg);
    p = walk(it->o.b, it->o.c, &id);
    t->argobj = mnew(K_ARG, 2, (void *) arg);
    { Slot *s = &self->s[self->ns++]; s->p = (void **) &arg; s->r = robj(t->argobj); s->ro = 1; }
    if (it->o.b % 8 == 7) { p = NULL; id = -1; }
    GGC_WP(arg, parg, p);
    GGC_WD(arg, darg, darg);
    mo[t->argobj].w[0] = id < 0 ? rnull() : robj(id);
    mo[t->argobj].w[1] = rraw((ggc_size_t) darg);
    if (it->o.c & 8) churn(it->o.c % 60, 0);
    t->firstfin = (it->o.c & 3) == 3;
    sched_fail_create = fails;
    r = ggc_thread_create(&t->handle, thread_fn, arg);
    sched_fail_create = 0;
    if (fails) {
        if (!r) pbt_fail("starting a thread succeeded although the system refused it");
        CTR(C_FAILED);
        t->argobj = -1;
    } else if (r) pbt_fail("starting a thread failed with %d", r);
    else CTR(C_THREADS);
    t->created = 1;
    if (it->o.d & 2) verify();
    self->ns = base;
    return;
}


static void body(GGC_ThreadArg arg0) {
    GGC_ThreadArg arg = arg0;
    void *v[6] = {NULL, NULL, NULL, NULL, NULL, NULL};
    int i;
    GGC_PUSH_7(arg, v[0], v[1], v[2], v[3], v[4], v[5]);
    self->s[0].p = (void **) &arg; self->s[0].ro = 1;
    self->s[0].r = self->argobj >= 0 ? robj(self->argobj) : rnull();
    for (i = 0; i < 6; i++) { self->s[i + 1].p = &v[i]; self->s[i + 1].r = rnull(); self->s[i + 1].ro = 0; }
    self->ns = 7;
    self->started = 1;
    if (arg) {
        TH *t = (TH *) GGC_RD(arg, darg);
        if (t != self) pbt_fail("thread %d was given another thread's argument", self->id);
#ifdef GGGGC_FEATURE_FINALIZERS
        /* a finalizer may be the first thing this thread wants */
        if (self->firstfin && self->argobj >= 0 && nreg < NREG) fin_register((void *) arg, self->argobj);
#endif
        verify();
    }
#ifdef GGGGC_FEATURE_JITPSTACK
    ggc_jitPointerStack = ggc_jitPointerStackEnd = self->jit + 120;
#endif
    run_items();
    if (self->id == 0) {
        int t;
        for (t = 1; t < nth; t++)
            if (th[t].wantdarg && !th[t].planned) {
                long c;
                th[t].joined = 1;
                while (!th[t].created) { GGC_YIELD(); sched_preempt(); }
                pre_block(&c);
                if (ggc_thread_join(th[t].handle)) pbt_fail("joining thread %d failed", t);
                post_block(c);
                if (!th[t].finished) pbt_fail("thread %d was joined before it finished", t);
                th[t].argobj = -1;
                CTR(C_JOIN);
                verify();
                sched_progress();
            }
        collect();
        verify();
        churn(30, 12);
        collect();
        verify();
#ifdef GGGGC_FEATURE_FINALIZERS
        {
            int k, n, pending;
            /* everything unreachable is finalized in the end */
            for (n = 0; n < NREG + 4; n++) collect();
            mark_model();
            for (k = pending = 0; k < nreg; k++)
                if (reg[k].live && mo[reg[k].id].mark != markgen) pending++;
            if (pending) pbt_fail("%d finalizers of unreachable objects never ran", pending);
            verify();
        }
#endif
    } else verify();
#ifdef GGGGC_FEATURE_JITPSTACK
    while (self->njf) jit_pop();
#endif
    self->ns = 0; self->nj = 0;
    self->finished = 1;
    return;
}
static void thread_fn(GGC_ThreadArg arg) {
    self = (TH *) GGC_RD(arg, darg);
    if (self < th || self >= th + MAXTH || !self->wantdarg || self->started) pbt_fail("a thread was given a wrong argument");
    body(arg);
}

static void step(Item *it) {
    const PbtOp *o = &it->o;
    int id, id2, w, k;
    void *p, *q;
    Slot *s;
    long c;
    switch (o->k) {
        case O_NEW: {
            int len;
            p = newobj(o->b, o->c, &k, &len);
            fresh(p, k, len);
            id = mnew(k, len, p);
            if ((s = dst(o->c >> 4))) { *s->p = p; s->r = robj(id); }
            fill(id, p, o->c);
            break;
        }
        case O_RT: run_rt(o->b, o->c, o->d); break;
        case O_LINK:
            p = walk(o->b, o->b >> 4, &id);
            if (!p || !nptr(&mo[id])) break;
            q = walk(o->c, o->c >> 4, &id2);
            w = pword(&mo[id], (int) (o->d % (uint32_t) nptr(&mo[id])));
            if (mo[id].kind == K_NODE && q && mo[id2].kind != K_NODE && 0) break;
            wrp(&mo[id], p, w, q);
            mo[id].w[w] = q ? robj(id2) : rnull();
            break;
        case O_UNLINK:
            p = walk(o->b, o->b >> 4, &id);
            if (!p || !nptr(&mo[id])) break;
            w = pword(&mo[id], (int) (o->d % (uint32_t) nptr(&mo[id])));
#ifdef GGGGC_FEATURE_TAGGING
            if (o->c & 1) {
                ggc_size_t v = ((ggc_size_t) o->c << 3) | (1 + o->c / 2 % 7);
                CTR(C_TAGGED);
                wrp(&mo[id], p, w, (void *) v);
                mo[id].w[w] = rraw(v);
                break;
            }
#endif
            wrp(&mo[id], p, w, NULL);
            mo[id].w[w] = rnull();
            break;
        case O_SETD:
            p = walk(o->b, o->b >> 4, &id);
            if (!p || mo[id].kind == K_ARG) break;
            fill(id, p, o->c);
            break;
        case O_LOAD:
            p = walk(o->b, o->c, &id);
            if ((s = dst(o->d)) && p) { *s->p = p; s->r = robj(id); }
            break;
        case O_DROP:
            if ((s = dst(o->b))) {
                ggc_size_t v = 0;
#ifdef GGGGC_FEATURE_TAGGING
                /* a word which is no address, or one which nearly is */
                if (o->c % 3 == 1) v = ((ggc_size_t) o->c << 3) | (1 + o->c / 3 % 7);
                else if (o->c % 3 == 2 && s->r.id >= 0) v = (ggc_size_t) *s->p | (1 + o->c / 3 % 7);
                if (v) CTR(C_TAGGED);
#endif
                *s->p = (void *) v;
                s->r = v ? rraw(v) : rnull();
            }
            break;
        case O_USER: {
            TNode t;
            p = walk(o->b, o->b >> 4, &id);
            if (!p || mo[id].kind >= K_PA) break;
            t = (TNode) p;
            if (o->d % 3 == 0) {
                if ((s = dst(o->c)) && ku[mo[id].kind].id != -2) { *s->p = (void *) GGC_RUP(t); s->r = ku[mo[id].kind]; }
                break;
            }
            q = walk(o->c, o->c >> 4, &id2);
            if (o->d % 8 == 7) q = NULL;
            GGC_WUP(t, q);
            ku[mo[id].kind] = q ? robj(id2) : rnull();
            CTR(C_USER);
            break;
        }
        case O_BUDGET:
            if (strcmp(profileName, "toom")) break;
            /* the system gives few areas or none for a while */
            if (o->b % 4 == 3) ar_budget += o->c % 4;
            else if (o->b % 4 == 2) ar_budget = o->c % 3;
            break;
        case O_PUB:
            p = walk(o->b + 5, o->b >> 4, &id);
            if (!p) break;
            if (o->c & 1) { gl[o->d % 4] = p; glr[o->d % 4] = robj(id); }
            else { k = (int) (o->d % 12); GGC_WAP(board, k, p); mo[boardId].w[k] = robj(id); }
            break;
        case O_TAKE:
            if (!(s = dst(o->b))) break;
            if (o->c & 1) { *s->p = gl[o->d % 4]; s->r = glr[o->d % 4]; if (o->c & 2) { gl[o->d % 4] = NULL; glr[o->d % 4] = rnull(); } }
            else {
                k = (int) (o->d % 12);
                *s->p = GGC_RAP(board, k); s->r = mo[boardId].w[k];
                if (o->c & 2) { p = NULL; GGC_WAP(board, k, p); mo[boardId].w[k] = rnull(); }
            }
            break;
        case O_CHURN: churn(o->b % (o->d % 8 == 0 ? 900 : 120) + 1, o->c % 13); break;
        case O_CHAIN: chain(o->b % (o->d % 4 == 0 ? 700 : 150) + 1, o->c % 3 ? o->c : 0); break;
        case O_COLLECT: collect(); break;
        case O_YIELD: GGC_YIELD(); break;
        case O_VERIFY: verify(); break;
        case O_WINDOW: {
            void *raw[MAXS];
            int n = self->ns, i;
            for (i = 0; i < n; i++) raw[i] = self->s[i].p ? *self->s[i].p : NULL;
            CTR(C_WINDOW);
            for (k = 0; k < 1 + (int) (o->b % 6); k++) {
                sched_preempt();
                for (i = 0; i < n; i++)
                    if (self->s[i].p && *self->s[i].p != raw[i]) pbt_fail("a collection moved object %d of thread %d, which had not stopped at a safe point", self->s[i].r.id, self->id);
                if (o->c & 1) verify();
            }
            break;
        }
        case O_START: start_thread(it); break;
        case O_JOIN: {
            TH *t = &th[it->x];
            t->joined = 1;
            while (!t->created) { GGC_YIELD(); sched_preempt(); }
            pre_block(&c);
            k = ggc_thread_join(t->handle);
            post_block(c);
            if (k) pbt_fail("joining thread %d failed", t->id);
            if (!t->finished) pbt_fail("thread %d was joined before it finished", t->id);
            t->argobj = -1;
            CTR(C_JOIN);
            verify();
            break;
        }
        case O_POST:
            posts[it->x]++;
            if (ggc_sem_post(&sem[it->x])) pbt_fail("posting to a semaphore failed");
            break;
        case O_WAIT:
            pre_block(&c);
#if _POSIX_BARRIERS
            /* a signal may interrupt a wait, which is then just repeated */
            if (o->d % 4 == 3) { sched_eintr = 1 + (int) (o->d / 4 % 3); CTR(C_EINTR); }
#endif
            while ((k = ggc_sem_wait(&sem[it->x])) && errno == EINTR) GGC_YIELD();
            sched_eintr = 0;
            post_block(c);
            CTR(C_WAIT);
            if (k) pbt_fail("waiting for a semaphore failed");
            waits[it->x]++;
            if (waits[it->x] > posts[it->x] + semInit[it->x]) pbt_fail("semaphore %d let more waiters pass than were posted", it->x);
            verify();
            break;
        case O_CS: {
            int m = (int) (o->b % 4);
            if (o->c % 4 == 3) {
                while (ggc_mutex_trylock(&mx[m]) != 0) GGC_YIELD();
            } else {
                if (inCS[m]) CTR(C_CONTEND);
                pre_block(&c);
                k = ggc_mutex_lock(&mx[m]);
                post_block(c);
                if (k) pbt_fail("locking a mutex failed");
            }
            CTR(C_CS);
            if (inCS[m]) pbt_fail("two threads are in critical section %d", m);
            inCS[m] = 1;
            if (o->d & 1) sched_preempt();
            verify();
            if (o->d & 2) churn(o->d >> 4 & 63, 12);
            if (o->d & 4) collect();
            if (o->d & 8) { GGC_YIELD(); sched_preempt(); }
            if (!inCS[m]) pbt_fail("another thread left critical section %d", m);
            inCS[m] = 0;
            if (ggc_mutex_unlock(&mx[m])) pbt_fail("unlocking a mutex failed");
            break;
        }
        case O_BAR: {
            int b = it->x, r;
            for (r = 1; r <= it->y; r++) {
                barArr[b]++;
                pre_block(&c);
                (void) ggc_barrier_wait(&bar[b]);
                post_block(c);
                CTR(C_BARRIER);
                if (barArr[b] < r * barCt[b]) pbt_fail("barrier %d let a thread pass after %d of %d arrivals", b, barArr[b] - (r - 1) * barCt[b], barCt[b]);
                verify();
                if (o->d & 2) churn(o->d >> 4 & 31, 0);
            }
            break;
        }
        case O_CALL: if (self->ns + 12 < MAXS && self->depth < 8) { if (o->b & 1) call4(); else call1(); } break;
        case O_JPUSH:
#ifdef GGGGC_FEATURE_JITPSTACK
            jit_push(o->b, o->c);
#endif
            break;
        case O_JPOP:
#ifdef GGGGC_FEATURE_JITPSTACK
            jit_pop();
#endif
            break;
        case O_FIN:
#ifdef GGGGC_FEATURE_FINALIZERS
            p = walk(o->b + 5, o->b >> 4, &id);
            if (p && nreg < NREG) fin_register(p, id);
#endif
            break;
    }
}

/* -------------------------------------------------------------------- plan */
static void put(int t, const PbtOp *o, int x, int y, int opi) {
    TH *h = &th[t];
    Item *it;
    if (!(h->n & (h->n - 1))) {
        Item *ni = (Item *) xalloc(sizeof(Item) * (size_t) (h->n ? 2 * h->n : 1));
        if (h->n) memcpy(ni, h->it, sizeof(Item) * (size_t) h->n);
        h->it = ni;
    }
    it = &h->it[h->n++];
    it->o = *o; it->x = x; it->y = y; it->opi = opi;
}
static void plan(const PbtCase *c) {
    int i, t, alive[MAXTH], gone[MAXTH], owner[8], npost[8], nwait[8];
    int many = c->n && c->op[0].k == O_CFG && c->op[0].d >> 4 & 7 ? 9 : 30;
    memset(gone, 0, sizeof(gone));
    for (i = 0; i < 8; i++) { owner[i] = -1; npost[i] = semInit[i]; nwait[i] = 0; }
    nth = 1;
    for (i = 0; i < c->n; i++) {
        const PbtOp *o = &c->op[i];
        int n = 0, a;
        for (t = 0; t < nth; t++) if (!gone[t]) alive[n++] = t;
        a = alive[o->a % (uint32_t) n];
        switch (o->k) {
            case O_CFG: case O_ROUND: case O_BW: case O_PHASE: break;
            case O_START: {
                int fails = o->d % 11 == 5;
                if (nth >= MAXTH || n >= many) break;
                if ((uint64_t) n + 1 > pbt_sh->ctr[C_MANY]) pbt_sh->ctr[C_MANY] = (uint64_t) n + 1;
                t = nth++;
                th[t].id = t;
                th[t].argobj = -1;
                put(a, o, t, fails, i);
                if (fails) gone[t] = 1; else th[t].wantdarg = 1;
                break;
            }
            case O_JOIN: {
                int j = alive[o->b % (uint32_t) n];
                if (j == a || j == 0) break;
                gone[j] = 1;
                th[j].planned = 1;
                put(a, o, j, 0, i);
                break;
            }
            case O_POST: { int s = (int) (o->b % 8); npost[s]++; put(a, o, s, 0, i); break; }
            case O_WAIT: {
                int s = (int) (o->b % 8);
                if (owner[s] < 0) owner[s] = a;
                else if (gone[owner[s]]) break;
                a = owner[s];
                if (nwait[s] >= npost[s]) break;
                nwait[s]++;
                put(a, o, s, 0, i);
                break;
            }
            case O_BAR: {
                int r = 1 + (int) (o->c % 3), ct = 0;
                if (nbar >= MAXBAR) break;
                for (t = 0; t < n; t++) if (t == (int) (o->a % (uint32_t) n) || (o->b >> t & 1)) { put(alive[t], o, nbar, r, i); ct++; }
                barCt[nbar++] = ct;
                break;
            }
            default: put(a, o, 0, 0, i); break;
        }
    }
}
static void set_sched(const PbtCase *c) {
    static const unsigned ticks[] = { 3, 10, 30, 100, 300, 1000, 3000 };
    static const unsigned den[] = { 1, 1, 2, 4, 10 };
    PbtOp z;
    const PbtOp *o = &z;
    memset(&z, 0, sizeof(z));
    if (c->n && c->op[0].k == O_CFG) o = &c->op[0];
    ar_policy = (int) (o->d & 7);
    sched_start(pbt_mix(o->a + 77), (int) (o->b % 3), ticks[o->c % 7], den[o->c / 7 % 5]);
}
static void globalize(void) {
    GGC_PUSH_5(gl[0], gl[1], gl[2], gl[3], board);
    GGC_GLOBALIZE();
    return;
}

/* ------------------------------------- threads come and go, memory does not */
static int roundKind;
static void round_fn(GGC_ThreadArg arg0) {
    GGC_ThreadArg arg = arg0;
    void *v = NULL;
    int k, l;
    GGC_PUSH_2(arg, v);
    k = (int) (ggc_size_t) GGC_RD(arg, darg);
    if (roundKind & 1) churn((unsigned) k % 200 + 1, 12);
    v = newobj((unsigned) k, (unsigned) k, &k, &l);
    if (roundKind & 2) { int i = k % 12; GGC_WAP(board, i, v); }
    if (roundKind & 4) GGC_COLLECT();
    return;
}
/* kernel objects in use, if the system is a modelled one (osmodel.c) */
extern long os_live(void) __attribute__((weak));
static void thread_rounds(const PbtCase *c) {
    long live = 0, blocks = 0;
    int i, r, rounds = 36, per = 2, total = 0;
    long at = 0;
    const PbtOp *o = NULL;
    GGC_ThreadArg arg = NULL;
    ggc_thread_t t[8];
    GGC_PUSH_1(arg);
    for (i = 0; i < c->n; i++) if (c->op[i].k == O_ROUND) o = &c->op[i];
    if (!o) return;
    per = 1 + (int) (o->a % 4);
    roundKind = (int) (o->b % 8);
    for (r = 0; r < rounds; r++) {
        void *darg;
        for (i = 0; i < per; i++) {
            sched_progress();
            arg = GGC_NEW(GGC_ThreadArg);
            darg = (void *) (ggc_size_t) (o->c % 1000 + (unsigned) i);
            GGC_WD(arg, darg, darg);
            if (ggc_thread_create(&t[i], round_fn, arg)) pbt_fail("starting a thread failed");
            CTR(C_THREADS);
            if (o->d & 1) churn(o->d % 50, 0);
        }
        for (i = 0; i < per; i++) { sched_progress(); if (ggc_thread_join(t[i])) pbt_fail("join failed"); }
        if (o->d & 2) churn(o->d % 90, 12);
        total += per;
        /* memory of finished threads comes back at collections */
        GGC_COLLECT();
        if (r == rounds / 2) { at = ar_granted; total = 0; blocks = ar_blocks; if (os_live) live = os_live(); }
        CTR(C_ROUNDS);
    }
    pbt_sh->ctr[C_GRANTED] = (uint64_t) ar_granted;
    /* the second half may not need an area for every few threads */
    if ((ar_granted - at) * 4 > total + 8) pbt_fail("%d further threads came and went, one at a time or few, and the heap grew by %ld areas (%ld before)", total, ar_granted - at, at);
    if ((ar_blocks - blocks) * 3 > total + 24) pbt_fail("%d further threads came and went, and %ld more small blocks are in use (%ld before)", total, ar_blocks - blocks, blocks);
    if (os_live && os_live() - live > 6) pbt_fail("%d further threads came and went, and %ld more system objects (semaphores, mutexes, threads) are in use (%ld before)", total, os_live() - live, live);
    return;
}

/* ------------------------------------------------ the barrier on its own */
#define RB 4
static ggc_barrier_t rbar[RB];
static int rct[RB], rarr[RB], rpass[RB], rtotal[RB], rrenewed[RB], rarr2[RB];
typedef struct { int id; const PbtCase *c; int lo, hi; int round[RB]; } RT;
static RT rt[8];
static int rmask[RB];
static void *raw_thread(void *v) {
    RT *r = (RT *) v;
    int i, k;
    for (i = r->lo; i < r->hi; i++) {
        const PbtOp *o = &r->c->op[i];
        int b;
        if (o->k != O_BW) continue;
        b = (int) (o->a % RB);
        if (!(rmask[b] >> r->id & 1)) continue;
        for (k = 0; k < 1 + (int) (o->b % 4); k++) {
            pbt_sh->opi = i;
            sched_progress();
            if ((o->c >> r->id & 1)) sched_preempt();
            rarr[b]++;
            r->round[b]++;
            if (ggc_barrier_wait_raw(&rbar[b]) < -1) pbt_fail("barrier wait failed");
            CTR(C_PASS);
            rpass[b]++;
            if (rarr[b] < r->round[b] * rct[b]) pbt_fail("barrier %d let participant %d pass in round %d after %d of %d arrivals", b, r->id, r->round[b], rarr[b] - (r->round[b] - 1) * rct[b], rct[b]);
            if (rarr[b] > (r->round[b] + 1) * rct[b]) pbt_fail("barrier %d: a participant was a round ahead", b);
            if ((o->d >> r->id & 1)) sched_preempt();
            if (r->round[b] == rtotal[b] && !rrenewed[b]) {
                /* every participant has arrived for the last time: whoever gets
                 * out first may take the barrier down and set it up anew */
                rrenewed[b] = 1;
                if (ggc_barrier_destroy(&rbar[b])) pbt_fail("barrier destruction failed");
                memset(&rbar[b], 0xA5, sizeof(rbar[b]));
                if (ggc_barrier_init(&rbar[b], (unsigned) rct[b])) pbt_fail("barrier initialization failed");
                rrenewed[b] = 2;
            }
        }
    }
    /* and the renewed barriers are as good as new */
    for (k = 0; k < RB; k++) {
        if (!(rmask[k] >> r->id & 1) || !rtotal[k]) continue;
        while (rrenewed[k] != 2) sched_preempt();
        rarr2[k]++;
        if (ggc_barrier_wait_raw(&rbar[k]) < -1) pbt_fail("barrier wait failed");
        CTR(C_PASS);
        if (rarr2[k] < rct[k]) pbt_fail("renewed barrier %d let participant %d pass after %d of %d arrivals", k, r->id, rarr2[k], rct[k]);
    }
    return NULL;
}
static void raw_phase(const PbtCase *c, int lo, int hi, const PbtOp *ph) {
    int n = 1 + (int) (ph->a % 6), i, b;
    pthread_t t[8];
    for (b = 0; b < RB; b++) {
        rmask[b] = (int) (pbt_mix(ph->b + (uint32_t) b) & ((1u << n) - 1));
        if (b == 0) rmask[b] = (1 << n) - 1;
        if (!rmask[b]) rmask[b] = 1;
        rct[b] = __builtin_popcount((unsigned) rmask[b]);
        rarr[b] = rpass[b] = rtotal[b] = rrenewed[b] = rarr2[b] = 0;
        for (i = lo; i < hi; i++) if (c->op[i].k == O_BW && (int) (c->op[i].a % RB) == b) rtotal[b] += 1 + (int) (c->op[i].b % 4);
        if (ggc_barrier_init(&rbar[b], (unsigned) rct[b])) pbt_fail("barrier initialization failed");
    }
    for (i = 0; i < n; i++) { memset(&rt[i], 0, sizeof(RT)); rt[i].id = i; rt[i].c = c; rt[i].lo = lo; rt[i].hi = hi; }
    for (i = 1; i < n; i++) if (pthread_create(&t[i], NULL, raw_thread, &rt[i])) _exit(99);
    CTR(C_THREADS);
    raw_thread(&rt[0]);
    for (i = 1; i < n; i++) pthread_join(t[i], NULL);
    for (b = 0; b < RB; b++) {
        if (rarr[b] != rpass[b] || rpass[b] % rct[b]) pbt_fail("barrier %d: %d arrivals, %d passages", b, rarr[b], rpass[b]);
        if (ggc_barrier_destroy(&rbar[b])) pbt_fail("barrier destruction failed");
    }
}
static void raw_barriers(const PbtCase *c) {
    int i, lo = 0;
    PbtOp ph;
    memset(&ph, 0, sizeof(ph));
    ph.a = c->n ? c->op[0].d : 0; ph.b = c->n ? c->op[0].a : 0;
    for (i = 0; i <= c->n; i++)
        if (i == c->n || c->op[i].k == O_PHASE) {
            raw_phase(c, lo, i, &ph);
            lo = i + 1;
            if (i < c->n) ph = c->op[i];
        }
}

void pbt_exec(const PbtCase *c, const char *profile) {
    int i;
    cs = c; profileName = profile;
    self = &th[0];
    for (i = 0; i < MAXTH; i++) th[i].argobj = -1;
    for (i = 0; i < 4; i++) glr[i] = rnull();
    for (i = 0; i < K_PA; i++) ku[i] = rnull();
    if (!strcmp(profile, "barrier")) {
        set_sched(c);
        raw_barriers(c);
        pbt_sh->ctr[C_SWITCH] = sched_switches; pbt_sh->ctr[C_SYNC] = sched_syncs; pbt_sh->ctr[C_TICKS] = sched_ticks;
        _exit(0);
    }
    globalize();
    for (i = 0; i < 8; i++) semInit[i] = i % 3;
    set_sched(c);
    plan(c);
    if (!strcmp(profile, "toom")) {
        /* an area for each thread, and not much more */
        pbt_sh->expect = 1;
        ar_refusals = &pbt_sh->ctr[C_REFUSED];
        ar_budget = nth + GGGGC_GENERATIONS + (long) (c->n ? c->op[0].c / 7 % 9 : 0);
    }
    for (i = 0; i < 8; i++) if (ggc_sem_init(&sem[i], (unsigned) semInit[i])) pbt_fail("semaphore initialization failed");
    for (i = 0; i < nbar; i++) if (ggc_barrier_init(&bar[i], (unsigned) barCt[i])) pbt_fail("barrier initialization failed");
    board = (GGC_voidpArray) GGC_NEW_PA(GGC_voidp, 12);
    boardId = mnew(K_PA, 12, (void *) board);
    if (!strcmp(profile, "threadloop")) thread_rounds(c);
    else {
        th[0].started = 1; body(NULL);
        /* everybody else has finished */
        for (i = 0; i < 8; i++) if (ggc_sem_destroy(&sem[i])) pbt_fail("the destruction of a semaphore failed");
        for (i = 0; i < nbar; i++) if (ggc_barrier_destroy(&bar[i])) pbt_fail("the destruction of a barrier failed");
    }
    pbt_sh->ctr[C_SWITCH] = sched_switches; pbt_sh->ctr[C_SYNC] = sched_syncs; pbt_sh->ctr[C_TICKS] = sched_ticks;
    _exit(0);
}

/* -------------------------------------------------------------- generation */
typedef struct { int k, w; } W;
static void gen_weighted(PbtCase *c, PbtRng *r, const W *w, int n) {
    int tot = 0, i;
    const W *q;
    for (q = w; q->w; q++) tot += q->w;
    for (i = 0; i < n; i++) {
        int x = (int) pbt_below(r, (uint32_t) tot);
        for (q = w; x >= q->w; q++) x -= q->w;
        pbt_add(c, q->k, pbt_below(r, 1u << 16), pbt_below(r, 1u << 16), pbt_below(r, 1u << 16), pbt_below(r, 1u << 16));
    }
}
void pbt_gen(PbtCase *c, PbtRng *r, const char *profile) {
    static const W mt[] = { {O_NEW,26},{O_LINK,22},{O_UNLINK,5},{O_SETD,5},{O_LOAD,14},{O_DROP,5},{O_PUB,10},{O_TAKE,9},{O_CHURN,16},{O_COLLECT,5},{O_YIELD,4},{O_VERIFY,7},
        {O_WINDOW,6},{O_START,4},{O_JOIN,1},{O_CS,3},{O_BAR,1},{O_CALL,4},{O_RET,3},{O_JPUSH,4},{O_JPOP,2},{O_FIN,4},{O_RT,4},{O_USER,3},{O_CHAIN,4},{0,0} };
    static const W life[] = { {O_NEW,20},{O_LINK,14},{O_UNLINK,3},{O_LOAD,8},{O_DROP,4},{O_PUB,14},{O_TAKE,10},{O_CHURN,12},{O_COLLECT,6},{O_YIELD,2},{O_VERIFY,4},
        {O_WINDOW,2},{O_START,14},{O_JOIN,10},{O_POST,2},{O_WAIT,2},{O_CALL,4},{O_RET,3},{O_JPUSH,3},{O_JPOP,1},{O_FIN,3},{O_RT,5},{O_USER,3},{O_CHAIN,2},{0,0} };
    static const W block[] = { {O_NEW,18},{O_LINK,14},{O_UNLINK,3},{O_LOAD,8},{O_DROP,3},{O_PUB,6},{O_TAKE,6},{O_CHURN,12},{O_COLLECT,8},{O_YIELD,2},{O_VERIFY,3},
        {O_START,5},{O_JOIN,4},{O_POST,10},{O_WAIT,14},{O_CS,12},{O_BAR,7},{O_CALL,4},{O_RET,3},{O_JPUSH,5},{O_JPOP,2},{O_FIN,2},{O_RT,3},{O_USER,2},{O_CHAIN,2},{0,0} };
    static const W toom[] = { {O_NEW,24},{O_LINK,20},{O_UNLINK,3},{O_LOAD,8},{O_DROP,8},{O_PUB,10},{O_TAKE,6},{O_CHURN,20},{O_COLLECT,4},{O_YIELD,3},{O_VERIFY,4},
        {O_START,6},{O_JOIN,4},{O_POST,3},{O_WAIT,4},{O_CS,5},{O_CALL,3},{O_RET,3},{O_FIN,2},{O_RT,4},{O_USER,2},{O_BUDGET,9},{O_CHAIN,16},{0,0} };
    int n = pbt_chance(r, 1, 6) ? (int) pbt_range(r, 10, 40) : (int) pbt_range(r, 40, 220);
    pbt_add(c, O_CFG, pbt_below(r, 1u << 30), pbt_below(r, 3), pbt_below(r, 35), pbt_below(r, 1u << 16));
    if (!strcmp(profile, "barrier")) {
        n = (int) pbt_range(r, 1, 24);
        while (n--)
            pbt_add(c, pbt_chance(r, 1, 7) ? O_PHASE : O_BW, pbt_below(r, 1u << 16), pbt_below(r, 1u << 16), pbt_below(r, 1u << 16), pbt_below(r, 1u << 16));
        return;
    }
    if (!strcmp(profile, "threadloop")) { pbt_add(c, O_ROUND, pbt_below(r, 1u << 16), pbt_below(r, 1u << 16), pbt_below(r, 1u << 16), pbt_below(r, 1u << 16)); return; }
    /* something for everybody to start with */
    {
        int i, k = (int) pbt_range(r, 1, 4);
        for (i = 0; i < 4; i++) pbt_add(c, O_NEW, 0, pbt_below(r, 12), pbt_below(r, 1u << 16), 0);
        for (i = 0; i < k; i++) pbt_add(c, O_START, pbt_below(r, 1u << 16), pbt_below(r, 1u << 16), pbt_below(r, 1u << 16), pbt_below(r, 4));
    }
    gen_weighted(c, r, !strcmp(profile, "life") ? life : !strcmp(profile, "block") ? block : !strcmp(profile, "toom") ? toom : mt, n);
}
int pbt_nontrivial(const PbtShared *s, const char *profile) {
    int gc = s->ctr[C_MOVED] > 0 || s->ctr[C_REUSED] > 0;
    if (!strcmp(profile, "barrier")) return s->ctr[C_PASS] > 4 && s->ctr[C_SWITCH] > 4;
    if (!strcmp(profile, "threadloop")) return s->ctr[C_ROUNDS] > 20;
    if (s->ctr[C_THREADS] < 1 || s->ctr[C_SWITCH] < 20 || s->ctr[C_OBJCHK] < 20 || !gc) return 0;
    if (!strcmp(profile, "life")) return s->ctr[C_JOIN] > 1 && s->ctr[C_ORPHAN] > 0;
    if (!strcmp(profile, "toom")) return s->ctr[C_REFUSED] > 0;
    if (!strcmp(profile, "block")) return s->ctr[C_BLOCK] > 3 && s->ctr[C_BLOCKGC] > 0;
    return s->ctr[C_SHARED] > 0;
}
int main(int argc, char **argv) { return pbt_main(argc, argv); }
