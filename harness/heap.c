/* Model-based heap engine: interprets a generated operation list against the
 * library's public macros and, side by side, against a plain graph model, and
 * compares the two. Compiles as C and as C++ in every configuration. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <alloca.h>
#include "pbt.h"
#include "wrap.h"
#include "ggggc/gc.h"

/* ------------------------------------------------------------------ types */
typedef struct { ggc_size_t v[28]; } Pad28;
typedef struct { ggc_size_t v[20]; } Pad20;
typedef struct { ggc_size_t v[6]; } Pad6;
typedef struct { ggc_size_t v[60]; } Pad60;
typedef struct { ggc_size_t v[38]; } Pad38;
typedef struct { unsigned char b[3]; } Elem3;
typedef struct { int a, b, c; } Elem12;
typedef struct { ggc_size_t a, b, c; } Elem24;
GGC_DA_TYPE(Elem3)
GGC_DA_TYPE(Elem12)
GGC_DA_TYPE(Elem24)

GGC_TYPE(HNode)
    GGC_MPTR(HNode, left);
    GGC_MPTR(HNode, right);
    GGC_MDATA(ggc_size_t, val);
GGC_END_TYPE(HNode,
    GGC_PTR(HNode, left)
    GGC_PTR(HNode, right)
    )
GGC_TYPE(HLeaf)
    GGC_MDATA(ggc_size_t, x);
    GGC_MDATA(ggc_size_t, y);
GGC_END_TYPE(HLeaf, GGC_NO_PTRS)
GGC_TYPE(HOne)
    GGC_MPTR(void *, p);
GGC_END_TYPE(HOne, GGC_PTR(HOne, p))
GGC_TYPE(HWide)
    GGC_MPTR(void *, p0);
    GGC_MDATA(Pad28, padA);
    GGC_MPTR(void *, p1);
    GGC_MPTR(void *, p2);
    GGC_MPTR(HNode, p3);
    GGC_MPTR(void *, p4);
    GGC_MPTR(void *, p5);
    GGC_MDATA(Pad20, padB);
    GGC_MPTR(void *, p6);
    GGC_MDATA(Pad6, padC);
    GGC_MPTR(void *, p7);
GGC_END_TYPE(HWide,
    GGC_PTR(HWide, p0)
    GGC_PTR(HWide, p1)
    GGC_PTR(HWide, p2)
    GGC_PTR(HWide, p3)
    GGC_PTR(HWide, p4)
    GGC_PTR(HWide, p5)
    GGC_PTR(HWide, p6)
    GGC_PTR(HWide, p7)
    )
GGC_TYPE(HHuge)
    GGC_MPTR(void *, p0);
    GGC_MDATA(Pad60, padA);
    GGC_MPTR(void *, p1);
    GGC_MDATA(Pad38, padB);
GGC_END_TYPE(HHuge,
    GGC_PTR(HHuge, p0)
    GGC_PTR(HHuge, p1)
    )
GGC_TYPE(HMix)
    GGC_MDATA(char, c);
    GGC_MPTR(void *, p);
    GGC_MDATA(short, s);
    GGC_MDATA(double, d);
    GGC_MDATA(int, i);
GGC_END_TYPE(HMix,
    GGC_PTR(HMix, p)
    )
GGC_TYPE(HEmpty)
GGC_END_TYPE(HEmpty, GGC_NO_PTRS)

/* generic views: "the object described merely needs to start with its descriptor pointer" */
typedef struct HGen__s { struct GGGGC_Header header; void *a__ptrs[1]; } *HGen;
typedef struct HGenD__s { struct GGGGC_Header header; ggc_size_t a__data[1]; } *HGenD;

enum { T_NODE, T_LEAF, T_ONE, T_WIDE, T_HUGE, T_MIX, T_EMPTY, T_NSTATIC,
       T_PA = T_NSTATIC, T_DA, T_USER, T_DESC };

#define HDRW (sizeof(struct GGGGC_Header)/sizeof(ggc_size_t))
#define MAXWORDS ((GGGGC_POOL_BYTES - sizeof(struct GGGGC_Pool)) / sizeof(ggc_size_t) - 8)

/* ------------------------------------------------------------------ model */
typedef struct { int id; ggc_size_t raw; } Ref;    /* id -1: NULL; -2: raw value */
typedef struct { int nw; int npw; int noptr; unsigned char *kind; unsigned char *tag; int *pidx; } Layout;
typedef struct {
    int type;
    int desc;          /* model id of its descriptor, or -1 (arrays) */
    Layout *lay;       /* of its payload words; for T_DESC, of the objects it describes */
    int nw;            /* payload words modelled in w */
    Ref *w;
    unsigned char *bytes; ggc_size_t nbytes; int elem; /* data arrays */
    ggc_size_t len;    /* arrays */
    void *addr;        /* where it was last seen */
    int seen, mark, exempt;
} MObj;

#define MAXOBJ 24000
static MObj *mo;
static int nmo;
static int epoch;

typedef struct { void **p; Ref r; int ro; /* not to be changed by operations */ } Slot;
#define MAXSLOT 700
static Slot sl[MAXSLOT];
static int nsl;           /* slots in use (globals first, then frames) */
static Slot jl[MAXSLOT];  /* JIT stack words */
static int njl;
static Slot *extra[64];   /* objects being finalized */
static int nextra;

enum { ELEM_CHAR, ELEM_SHORT, ELEM_INT, ELEM_UNSIGNED, ELEM_LONG, ELEM_FLOAT, ELEM_DOUBLE, ELEM_SIZE, ELEM_3, ELEM_12, ELEM_24, NELEM };
static const int elemsize[NELEM] = { 1, 2, 4, 4, 8, 4, 8, 8, 3, 12, 24 };

static Layout staticLay[T_NSTATIC];
static Layout paLay;
static const char *profileName;
static int isDigest;

/* ------------------------------------------------------------ counters etc */
enum { C_VERIFY, C_OBJCHK, C_MOVED, C_REUSED, C_COLLECT, C_ALLOC, C_JUNK, C_MAXLIVE, C_STORES, C_DECOYS,
       C_TAGGED, C_FINREG, C_FINRUN, C_FINCHK, C_RESURRECT, C_JIT, C_FRAMES, C_MAXDEPTH, C_GLOBALIZE, C_WUP,
       C_DESCS, C_BIGARR, C_PLATEAU, C_REFUSED, C_GRANTED, C_OWN, C_CORRUPT, C_OLDSTORE, C_ABORTOK, C_TOOBIG, C_SMALL };
const char *const pbt_ctrname[] = { "verifications", "objects_compared", "objects_seen_moved", "addresses_reused",
    "explicit_collections", "model_allocations", "garbage_allocations", "max_live_objects", "pointer_stores", "address_like_data",
    "tagged_words", "finalizers_registered", "finalizers_run", "finalizer_completeness_checks", "resurrections", "jit_words", "frames",
    "max_depth", "globalizations", "user_pointer_stores", "runtime_descriptors", "large_arrays", "plateau_checks", "refused_areas",
    "granted_areas", "own_blocks", "corruptions", "stores_into_moved_objects", "accepted_aborts", "oversize_requests", "refused_small_requests", NULL };
#define CTR(c) (pbt_sh->ctr[c]++)
int pbt_cpu_limit = 30;

enum { O_CFG, O_NEW, O_NEWPA, O_NEWDA, O_NEWDESC, O_NEWUSER, O_NEWLIKE, O_LINK, O_UNLINK, O_READP, O_SETD, O_DECOY,
       O_TAGW, O_TAGR, O_COPY, O_CLEAR, O_CLEARALL, O_CHURN, O_CHAIN, O_COLLECT, O_YIELD, O_PUSH, O_POP, O_GLOBALIZE,
       O_WUP, O_RUP, O_FIN, O_CHECKFIN, O_JPUSH, O_JPOP, O_VERIFY, O_PLATEAU, O_OWN, O_OWNFREE, O_OWNSBRK, O_BUDGET,
       O_CORRUPT, O_SETA, O_FILL, O_TOOBIG, O_SMALL, NOPS };
const char *const pbt_opname[] = { "CFG", "NEW", "NEWPA", "NEWDA", "NEWDESC", "NEWUSER", "NEWLIKE", "LINK", "UNLINK", "READP", "SETD", "DECOY",
    "TAGW", "TAGR", "COPY", "CLEAR", "CLEARALL", "CHURN", "CHAIN", "COLLECT", "YIELD", "PUSH", "POP", "GLOBALIZE",
    "WUP", "RUP", "FIN", "CHECKFIN", "JPUSH", "JPOP", "VERIFY", "PLATEAU", "OWN", "OWNFREE", "OWNSBRK", "BUDGET",
    "CORRUPT", "SETA", "FILL", "TOOBIG", "SMALL" };
const int pbt_nop = NOPS;

static ggc_size_t hashw(ggc_size_t a, ggc_size_t b) { return (ggc_size_t) pbt_mix((uint64_t) a * 1000003u + b); }

static void *xalloc(size_t n) {
    void *p = ar_real_malloc(n ? n : 1);
    if (!p) { _exit(99); }
    memset(p, 0, n ? n : 1);
    return p;
}

static Ref rnull(void) { Ref r; r.id = -1; r.raw = 0; return r; }
static Ref robj(int id) { Ref r; r.id = id; r.raw = 0; return r; }
static Ref rraw(ggc_size_t v) { Ref r; r.id = -2; r.raw = v; return r; }

static int mnew(int type) {
    MObj *o;
    if (nmo >= MAXOBJ) pbt_done();
    o = &mo[nmo];
    memset(o, 0, sizeof(*o));
    o->type = type;
    o->desc = -1;
    return nmo++;
}

static void lay_index(Layout *l) {
    int i;
    l->npw = 0;
    l->pidx = (int *) xalloc(sizeof(int) * (size_t) (l->nw + 1));
    for (i = 0; i < l->nw; i++)
        if (l->kind[i]) l->pidx[l->npw++] = i;
}

static void lay_static(int t, int nw, const int *ptrs, int np) {
    Layout *l = &staticLay[t];
    int i;
    l->nw = nw;
    l->kind = (unsigned char *) xalloc((size_t) nw + 1);
    for (i = 0; i < np; i++) l->kind[ptrs[i]] = 1;
    lay_index(l);
}

static int is_array(const MObj *o) { return o->type == T_PA || o->type == T_DA; }
static ggc_size_t words_of(const MObj *o) {
    ggc_size_t n;
    switch (o->type) {
        case T_PA: n = HDRW + 1 + o->len; break;
        case T_DA: n = HDRW + 1 + (o->nbytes + sizeof(ggc_size_t) - 1) / sizeof(ggc_size_t); break;
        case T_DESC:
            n = sizeof(struct GGGGC_Descriptor) / sizeof(ggc_size_t); break;
        default: n = HDRW + (ggc_size_t) o->lay->nw; break;
    }
    return n;
}

/* number of pointer slots operations may address */
static int np_of(const MObj *o) {
    if (o->type == T_PA) return (int) o->len;
    if (o->type == T_DA || o->type == T_DESC) return 0;
    return o->lay->npw;
}
static int pword(const MObj *o, int i) { return o->type == T_PA ? i : o->lay->pidx[i]; }

/* --------------------------------------------------- real object accessors */
static void *rd_ptr(const MObj *m, void *obj, int w) {
    switch (m->type) {
        case T_NODE: { HNode o = (HNode) obj; return w == 0 ? (void *) GGC_RP(o, left) : (void *) GGC_RP(o, right); }
        case T_ONE: { HOne o = (HOne) obj; return GGC_RP(o, p); }
        case T_MIX: { HMix o = (HMix) obj; return GGC_RP(o, p); }
        case T_WIDE: {
            HWide o = (HWide) obj;
            switch (w) {
                case 0: return GGC_RP(o, p0);
                case 29: return GGC_RP(o, p1);
                case 30: return GGC_RP(o, p2);
                case 31: return (void *) GGC_RP(o, p3);
                case 32: return GGC_RP(o, p4);
                case 33: return GGC_RP(o, p5);
                case 54: return GGC_RP(o, p6);
                case 61: return GGC_RP(o, p7);
            }
            abort();
        }
        case T_HUGE: { HHuge o = (HHuge) obj; return w == 0 ? GGC_RP(o, p0) : GGC_RP(o, p1); }
        case T_PA: { GGC_voidpArray o = (GGC_voidpArray) obj; return GGC_RAP(o, w); }
        default: { HGen o = (HGen) obj; return GGC_RAP(o, w); }
    }
}
static void wr_ptr(const MObj *m, void *obj, int w, void *v) {
    HNode vn = (HNode) v;
    switch (m->type) {
        case T_NODE: { HNode o = (HNode) obj; 
#ifndef __cplusplus
            if (!v && w) { GGC_WP(o, right, GGC_NULL); break; }
#endif
            if (w == 0) GGC_WP(o, left, vn); else GGC_WP(o, right, vn); break; }
        case T_ONE: { HOne o = (HOne) obj; GGC_WP(o, p, v); break; }
        case T_MIX: { HMix o = (HMix) obj; GGC_WP(o, p, v); break; }
        case T_WIDE: {
            HWide o = (HWide) obj;
            switch (w) {
                case 0: GGC_WP(o, p0, v); break;
                case 29: GGC_WP(o, p1, v); break;
                case 30: GGC_WP(o, p2, v); break;
                case 31: GGC_WP(o, p3, vn); break;
                case 32: GGC_WP(o, p4, v); break;
                case 33: GGC_WP(o, p5, v); break;
                case 54: GGC_WP(o, p6, v); break;
                case 61: GGC_WP(o, p7, v); break;
                default: abort();
            }
            break;
        }
        case T_HUGE: { HHuge o = (HHuge) obj; if (w == 0) GGC_WP(o, p0, v); else GGC_WP(o, p1, v); break; }
        case T_PA: { GGC_voidpArray o = (GGC_voidpArray) obj; GGC_WAP(o, w, v); break; }
        default: { HGen o = (HGen) obj; GGC_WAP(o, w, v); break; }
    }
}
static ggc_size_t rd_word(const MObj *m, void *obj, int w) {
    if (m->type == T_NODE) { HNode o = (HNode) obj; return GGC_RD(o, val); }
    if (m->type == T_LEAF) { HLeaf o = (HLeaf) obj; if (w == 0) return GGC_RD(o, x); else return GGC_RD(o, y); }
    if (m->type == T_MIX) {
        HMix o = (HMix) obj;
        switch (w) {
            case 0: { char c = GGC_RD(o, c); return (ggc_size_t) (unsigned char) c; }
            case 2: { short s = GGC_RD(o, s); return (ggc_size_t) (unsigned short) s; }
            case 3: { double d = GGC_RD(o, d); ggc_size_t r = 0; memcpy(&r, &d, sizeof(d) < sizeof(r) ? sizeof(d) : sizeof(r)); return r; }
            default: { int i = GGC_RD(o, i); return (ggc_size_t) (unsigned) i; }
        }
    }
    if (m->type == T_WIDE && w >= 34 && w < 54) { HWide o = (HWide) obj; Pad20 p = GGC_RD(o, padB); return p.v[w - 34]; }
    { HGenD o = (HGenD) obj; return GGC_RAD(o, w); }
}
static ggc_size_t wr_word(const MObj *m, void *obj, int w, ggc_size_t v) { /* returns what must be read back */
    if (m->type == T_NODE) { HNode o = (HNode) obj; GGC_WD(o, val, v); return v; }
    if (m->type == T_LEAF) { HLeaf o = (HLeaf) obj; if (w == 0) GGC_WD(o, x, v); else GGC_WD(o, y, v); return v; }
    if (m->type == T_MIX) {
        HMix o = (HMix) obj;
        switch (w) {
            case 0: { char c = (char) v; GGC_WD(o, c, c); return v & 0xFF; }
            case 2: { short s = (short) v; GGC_WD(o, s, s); return v & 0xFFFF; }
            case 3: { double d; ggc_size_t r = v & ~((ggc_size_t) 0x7FF << 52); memcpy(&d, &r, sizeof(d)); GGC_WD(o, d, d); return r; }
            default: { int i = (int) v; GGC_WD(o, i, i); return v & 0xFFFFFFFFu; }
        }
    }
    if (m->type == T_WIDE && w >= 34 && w < 54) {
        HWide o = (HWide) obj; Pad20 p = GGC_RD(o, padB); p.v[w - 34] = v; GGC_WD(o, padB, p); return v;
    }
    { HGenD o = (HGenD) obj; GGC_WAD(o, w, v); return v; }
}

static void da_write(void *obj, int elem, ggc_size_t i, const unsigned char *from) {
#define E(k, type) case k: { GGC_ ## type ## _Array a = (GGC_ ## type ## _Array) obj; type v; memcpy(&v, from, sizeof(v)); GGC_WAD(a, i, v); break; }
    switch (elem) {
        E(ELEM_CHAR, char) E(ELEM_SHORT, short) E(ELEM_INT, int) E(ELEM_UNSIGNED, unsigned) E(ELEM_LONG, long)
        E(ELEM_FLOAT, float) E(ELEM_DOUBLE, double) E(ELEM_SIZE, size_t) E(ELEM_3, Elem3) E(ELEM_12, Elem12) E(ELEM_24, Elem24)
    }
#undef E
}
static void da_read(void *obj, int elem, ggc_size_t i, unsigned char *to) {
#define E(k, type) case k: { GGC_ ## type ## _Array a = (GGC_ ## type ## _Array) obj; type v = GGC_RAD(a, i); memcpy(to, &v, sizeof(v)); break; }
    switch (elem) {
        E(ELEM_CHAR, char) E(ELEM_SHORT, short) E(ELEM_INT, int) E(ELEM_UNSIGNED, unsigned) E(ELEM_LONG, long)
        E(ELEM_FLOAT, float) E(ELEM_DOUBLE, double) E(ELEM_SIZE, size_t) E(ELEM_3, Elem3) E(ELEM_12, Elem12) E(ELEM_24, Elem24)
    }
#undef E
}
static ggc_size_t da_length(void *obj, int elem) {
#define E(k, type) case k: { GGC_ ## type ## _Array a = (GGC_ ## type ## _Array) obj; return GGC_LENGTH(a); }
    switch (elem) {
        E(ELEM_CHAR, char) E(ELEM_SHORT, short) E(ELEM_INT, int) E(ELEM_UNSIGNED, unsigned) E(ELEM_LONG, long)
        E(ELEM_FLOAT, float) E(ELEM_DOUBLE, double) E(ELEM_SIZE, size_t) E(ELEM_3, Elem3) E(ELEM_12, Elem12) E(ELEM_24, Elem24)
    }
#undef E
    abort();
    return 0;
}
/* floats: avoid bit patterns a conversion may canonicalize */
static void da_clean(unsigned char *b, int elem) {
    if (elem == ELEM_FLOAT) { b[3] &= 0x3F; } else if (elem == ELEM_DOUBLE) { b[7] &= 0x3F; }
}
static void *da_new(int elem, ggc_size_t n) {
#define E(k, type) case k: return (void *) GGC_NEW_DA(type, n);
    switch (elem) {
        E(ELEM_CHAR, char) E(ELEM_SHORT, short) E(ELEM_INT, int) E(ELEM_UNSIGNED, unsigned) E(ELEM_LONG, long)
        E(ELEM_FLOAT, float) E(ELEM_DOUBLE, double) E(ELEM_SIZE, size_t) E(ELEM_3, Elem3) E(ELEM_12, Elem12) E(ELEM_24, Elem24)
    }
#undef E
    return NULL;
}
static unsigned char *da_data(void *obj) { return (unsigned char *) &((GGC_char_Array) obj)->a__data[0]; }

static void *new_static(int t) {
    switch (t) {
        case T_NODE: return (void *) GGC_NEW(HNode);
        case T_LEAF: return (void *) GGC_NEW(HLeaf);
        case T_ONE: return (void *) GGC_NEW(HOne);
        case T_WIDE: return (void *) GGC_NEW(HWide);
        case T_HUGE: return (void *) GGC_NEW(HHuge);
        case T_MIX: return (void *) GGC_NEW(HMix);
        default: return (void *) GGC_NEW(HEmpty);
    }
}

/* ------------------------------------------------------------ verification */
static int queue[MAXOBJ], qh, qt;
typedef struct { uintptr_t lo, hi; int id; } Span;
static Span span[MAXOBJ];
static int cmpspan(const void *a, const void *b) {
    const Span *x = (const Span *) a, *y = (const Span *) b;
    return x->lo < y->lo ? -1 : x->lo > y->lo ? 1 : 0;
}
typedef struct { char *p; size_t n; unsigned seed; int nofree; } Own;
static Own own[64];
static int nown;

static void reach(void *v, Ref r, const char *what, int where, int idx) {
    MObj *m;
    if (r.id == -1) {
        if (v != NULL) pbt_fail("%s %d[%d]: expected NULL, found %p", what, where, idx, v);
        return;
    }
    if (r.id == -2) {
        if ((ggc_size_t) v != r.raw) pbt_fail("%s %d[%d]: expected raw value %lx, found %p", what, where, idx, (unsigned long) r.raw, v);
        return;
    }
    if (v == NULL) pbt_fail("%s %d[%d]: expected object %d, found NULL", what, where, idx, r.id);
    if ((uintptr_t) v % sizeof(ggc_size_t)) pbt_fail("%s %d[%d]: expected object %d, found misaligned %p", what, where, idx, r.id, v);
    m = &mo[r.id];
    if (m->seen == epoch) {
        if (m->addr != v) pbt_fail("%s %d[%d]: object %d seen at %p and at %p (identity lost)", what, where, idx, r.id, m->addr, v);
        return;
    }
    m->seen = epoch;
    if (m->addr && m->addr != v) {
        CTR(C_MOVED);
#ifdef GGGGC_COLLECTOR_PORTABLEMS
        if (m->type != T_DESC || 1) pbt_fail("%s %d[%d]: object %d moved from %p to %p under the non-moving collector", what, where, idx, r.id, m->addr, v);
#endif
    }
    m->addr = v;
    queue[qt++] = r.id;
}

static void dig_ref(Ref r) {
    if (r.id == -1) pbt_digest(0); else if (r.id == -2) pbt_digest(r.raw ^ 0x77777777u); else pbt_digest(1000 + (uint64_t) mo[r.id].mark);
}

static void verify_own(void) {
    int i; size_t j;
    for (i = 0; i < nown; i++)
        for (j = 0; j < own[i].n; j++)
            if ((unsigned char) own[i].p[j] != (unsigned char) (own[i].seed * 31 + j * 7))
                pbt_fail("the program's own memory block %d was overwritten at offset %lu", i, (unsigned long) j);
}

static void verify(void) {
    int i, j, ns = 0;
    epoch++;
    qh = qt = 0;
    CTR(C_VERIFY);
    for (i = 0; i < nsl; i++) reach(*sl[i].p, sl[i].r, "root", i, 0);
    for (i = 0; i < njl; i++) reach(*jl[i].p, jl[i].r, "JIT stack word", i, 0);
    for (i = 0; i < nextra; i++) reach(*extra[i]->p, extra[i]->r, "finalized object", i, 0);
    while (qh < qt) {
        int id = queue[qh++];
        MObj *m = &mo[id];
        void *a = m->addr;
        CTR(C_OBJCHK);
        span[ns].lo = (uintptr_t) a;
        span[ns].hi = (uintptr_t) a + words_of(m) * sizeof(ggc_size_t);
        span[ns++].id = id;
        if (m->desc >= 0)
            reach((void *) ((HGen) a)->header.descriptor__ptr, robj(m->desc), "descriptor of object", id, 0);
        if (m->type == T_DESC) {
            GGC_Descriptor d = (GGC_Descriptor) a;
            ggc_size_t want = HDRW + (ggc_size_t) m->lay->nw;
            if (d->size < want) pbt_fail("descriptor %d: size %lu, expected %lu", id, (unsigned long) d->size, (unsigned long) want);
#ifdef GGGGC_FEATURE_EXTTAG
            if (m->lay->tag)
                for (j = 0; j < m->lay->nw; j++)
                    if (d->tags[HDRW + (size_t) j] != m->lay->tag[j])
                        pbt_fail("descriptor %d: tag of word %d reads %d, expected %d", id, j, d->tags[HDRW + (size_t) j], m->lay->tag[j]);
#endif
            reach(d->user__ptr, m->w[0], "user pointer of descriptor", id, 0);
        } else if (m->type == T_PA) {
            GGC_voidpArray arr = (GGC_voidpArray) a;
            if (GGC_LENGTH(arr) != m->len) pbt_fail("pointer array %d: length %lu, expected %lu", id, (unsigned long) arr->length, (unsigned long) m->len);
            for (j = 0; j < (int) m->len; j++) reach(GGC_RAP(arr, j), m->w[j], "pointer array", id, j);
        } else if (m->type == T_DA) {
            ggc_size_t es = (ggc_size_t) elemsize[m->elem];
            if (da_length(a, m->elem) != m->len) pbt_fail("data array %d: length %lu, expected %lu", id, (unsigned long) da_length(a, m->elem), (unsigned long) m->len);
            if (memcmp(da_data(a), m->bytes, m->nbytes)) {
                ggc_size_t k;
                for (k = 0; k < m->nbytes && da_data(a)[k] == m->bytes[k]; k++) {}
                pbt_fail("data array %d: element %lu differs", id, (unsigned long) (k / es));
            }
            if (m->len) {
                unsigned char b[32];
                ggc_size_t k = hashw((ggc_size_t) id, (ggc_size_t) epoch) % m->len;
                da_read(a, m->elem, k, b);
                if (memcmp(b, m->bytes + k * es, es)) pbt_fail("data array %d: element %lu reads differently", id, (unsigned long) k);
            }
        } else {
            for (j = 0; j < m->nw; j++) {
                if (m->lay->kind[j]) {
                    reach(rd_ptr(m, a, j), m->w[j], "pointer member of object", id, j);
                } else {
                    ggc_size_t v = rd_word(m, a, j);
                    if (v != m->w[j].raw) pbt_fail("data member of object %d[%d] (type %d): expected %lx, found %lx", id, j, m->type, (unsigned long) m->w[j].raw, (unsigned long) v);
                }
            }
        }
    }
    qsort(span, (size_t) ns, sizeof(Span), cmpspan);
    for (i = 0; i + 1 < ns; i++)
        if (span[i].hi > span[i+1].lo)
            pbt_fail("objects %d and %d overlap (%lx..%lx, %lx..%lx)", span[i].id, span[i+1].id, (unsigned long) span[i].lo,
                     (unsigned long) span[i].hi, (unsigned long) span[i+1].lo, (unsigned long) span[i+1].hi);
    for (i = 0; i < ns; i++)
        if (ar_partial(span[i].lo, span[i].hi))
            pbt_fail("object %d (%lx..%lx) extends beyond the memory that was allocated for it", span[i].id, (unsigned long) span[i].lo, (unsigned long) span[i].hi);
    for (i = 0; i < nown; i++)
        for (j = 0; j < ns; j++)
            if (span[j].lo < (uintptr_t) own[i].p + own[i].n && (uintptr_t) own[i].p < span[j].hi)
                pbt_fail("object %d overlaps a memory block of the program", span[j].id);
    verify_own();
    if (ns > (int) pbt_sh->ctr[C_MAXLIVE]) pbt_sh->ctr[C_MAXLIVE] = (uint64_t) ns;
    if (isDigest) {
        /* what a program could print: shape in traversal order, data, lengths */
        for (i = 0; i < qt; i++) mo[queue[i]].mark = i;
        for (i = 0; i < qt; i++) {
            MObj *m = &mo[queue[i]];
            pbt_digest((uint64_t) m->type);
            if (m->type == T_DA) {
                ggc_size_t k;
                uint64_t h = m->len;
                for (k = 0; k < m->nbytes; k++) h = h * 1099511628211ull + da_data(m->addr)[k];
                pbt_digest(h);
            } else if (m->type == T_PA) {
                pbt_digest(((GGC_voidpArray) m->addr)->length);
                for (j = 0; j < (int) m->len; j++) dig_ref(m->w[j]);
            } else if (m->type != T_DESC) {
                for (j = 0; j < m->nw; j++)
                    if (m->lay->kind[j]) dig_ref(m->w[j]); else pbt_digest(rd_word(m, m->addr, j));
            }
        }
        for (i = 0; i < qt; i++) mo[queue[i]].mark = 0;
    }
}

/* reachability in the model alone */
static int markgen;
static int mstack[MAXOBJ];
static void mark_from(Ref r0) {
    int n = 0;
    if (r0.id < 0 || mo[r0.id].mark == markgen) return;
    mo[r0.id].mark = markgen; mstack[n++] = r0.id;
    while (n) {
        MObj *m = &mo[mstack[--n]];
        int j, nw = m->type == T_PA ? (int) m->len : m->nw;
        if (m->desc >= 0 && mo[m->desc].mark != markgen) { mo[m->desc].mark = markgen; mstack[n++] = m->desc; }
        if (m->type == T_DA) continue;
        for (j = 0; j < nw; j++) {
            int id = m->w[j].id;
            if (id >= 0 && mo[id].mark != markgen) { mo[id].mark = markgen; mstack[n++] = id; }
        }
    }
}
static void mark_model(int withExtra) {
    int i;
    markgen++;
    for (i = 0; i < T_NSTATIC; i++) mark_from(robj(i));
    for (i = 0; i < nsl; i++) mark_from(sl[i].r);
    for (i = 0; i < njl; i++) mark_from(jl[i].r);
    if (withExtra) for (i = 0; i < nextra; i++) mark_from(extra[i]->r);
}

/* ------------------------------------------------------------- finalizers */
#define NREG 256
typedef struct { int live, id, action, arg; int fired; } Reg;
static Reg reg[NREG];
static int nreg;
static void do_churn(unsigned n, unsigned kind, unsigned par);
static void collect(void);
#ifdef GGGGC_FEATURE_FINALIZERS
static void fin_register(void *obj, int id, int action, int arg);

static void fin_common(int k, void *objp) {
    Reg *g = &reg[k];
    Slot s;
    void *obj = objp;
    int id, i, savedExtra;
    GGC_PUSH_1(obj);
    CTR(C_FINRUN);
    if (k >= nreg || !g->live) pbt_fail("finalizer %d ran although it has no pending registration (object %d, ran %d times before)", k, g->id, g->fired);
    g->live = 0; g->fired++;
    id = g->id;
    if (!obj) pbt_fail("finalizer %d: called with NULL", k);
    mark_model(1);
    if (mo[id].mark == markgen && !mo[id].exempt) pbt_fail("finalizer %d ran although its object %d is reachable", k, id);
    /* whatever hangs off this object died with it and may be next */
    {
        int live0 = markgen;
        int n0 = 0, *was = (int *) xalloc(sizeof(int) * (size_t) (nmo + 1));
        for (i = 0; i < nmo; i++) if (mo[i].mark == live0) was[n0++] = i;
        markgen++;
        mark_from(robj(id));
        for (i = 0; i < n0; i++) if (mo[was[i]].mark == markgen) mo[was[i]].mark = 0;
        for (i = 0; i < nmo; i++) if (mo[i].mark == markgen) mo[i].exempt = 1;
        ar_real_free(was);
    }
    s.p = &obj; s.r = robj(id); s.ro = 1;
    savedExtra = nextra;
    if (nextra >= 60) pbt_done();
    extra[nextra++] = &s;
    verify();
    switch (g->action % 6) {
        case 1: do_churn((unsigned) g->arg % 60 + 1, 0, 0); verify(); break;
        case 2: collect(); break;
        case 3: /* store it somewhere reachable again */
            CTR(C_RESURRECT);
            i = g->arg % 8;
            *sl[i].p = obj; sl[i].r = robj(id);
            break;
        case 4: /* a further registration on the same object */
            if (g->arg > 0 && mo[id].type != T_DESC) fin_register(obj, id, g->arg & 1 ? 0 : 1, g->arg - 1);
            break;
        case 5: do_churn((unsigned) g->arg % 200 + 1, 1, 3); break;
    }
    nextra = savedExtra;
    return;
}
#define F1(n) static void fin_ ## n(void *o) { fin_common(n, o); }
#define F4(a,b,c,d) F1(a) F1(b) F1(c) F1(d)
#define D10(M, p) M(p##0) M(p##1) M(p##2) M(p##3) M(p##4) M(p##5) M(p##6) M(p##7) M(p##8) M(p##9)
D10(F1,) D10(F1,1) D10(F1,2) D10(F1,3) D10(F1,4) D10(F1,5) D10(F1,6) D10(F1,7) D10(F1,8) D10(F1,9)
D10(F1,10) D10(F1,11) D10(F1,12) D10(F1,13) D10(F1,14) D10(F1,15) D10(F1,16) D10(F1,17) D10(F1,18) D10(F1,19)
#define FN(n) fin_ ## n,
static const ggc_finalizer_t finfn[] = {
D10(FN,) D10(FN,1) D10(FN,2) D10(FN,3) D10(FN,4) D10(FN,5) D10(FN,6) D10(FN,7) D10(FN,8) D10(FN,9)
D10(FN,10) D10(FN,11) D10(FN,12) D10(FN,13) D10(FN,14) D10(FN,15) D10(FN,16) D10(FN,17) D10(FN,18) D10(FN,19)
};
static void fin_register(void *obj, int id, int action, int arg) {
    int k;
    GGC_PUSH_1(obj);
    if (nreg >= 200) { GGC_POP(); return; }
    k = nreg++;
    reg[k].id = id; reg[k].action = action; reg[k].arg = arg; reg[k].fired = 0;
    reg[k].live = 1;
    CTR(C_FINREG);
    /* the registration itself may collect, and the object is reachable all the while */
    GGC_FINALIZE(obj, finfn[k]);
    return;
}
static long finplain;
static void fin_plain(void *o) { (void) o; finplain++; }
#endif

/* ------------------------------------------------------------ allocation */
static ggc_size_t seenaddr[1 << 14];
static void note_addr(void *p) {
    ggc_size_t h = hashw((ggc_size_t) p, 5) & ((1 << 14) - 1);
    if (seenaddr[h] == (ggc_size_t) p) CTR(C_REUSED);
    seenaddr[h] = (ggc_size_t) p;
}
static void check_fresh(const char *what, void *p, ggc_size_t words, ggc_size_t lengthWord) {
    ggc_size_t i, *w = (ggc_size_t *) p;
    if (!p) pbt_fail("%s: allocation returned NULL", what);
    if ((uintptr_t) p % sizeof(ggc_size_t)) pbt_fail("%s: allocation is misaligned", what);
    for (i = HDRW; i < words; i++)
        if (i != lengthWord && w[i]) pbt_fail("%s: fresh object has nonzero word %lu (%lx)", what, (unsigned long) i, (unsigned long) w[i]);
    note_addr(p);
}

static Slot *root(uint32_t a) {
    uint32_t n = (uint32_t) nsl + (uint32_t) njl;
    a %= n;
    if (a < (uint32_t) nsl) return &sl[a];
    return &jl[a - (uint32_t) nsl];
}
/* the a'th root that may be overwritten with a pointer */
static Slot *dst(uint32_t a) {
    uint32_t n = (uint32_t) nsl + (uint32_t) njl, i;
    for (i = 0; i < n; i++) { Slot *s = root(a + i); if (!s->ro) return s; }
    return &sl[0];
}
/* a root holding an object satisfying want: 0 any object, 1 with pointer slots, 2 with data words, 3 a descriptor,
 * 4 data array, 5 any object that is not a descriptor and not an array, 6 not a descriptor */
static Slot *objroot(uint32_t a, int want) {
    uint32_t n = (uint32_t) nsl + (uint32_t) njl, i;
    for (i = 0; i < n; i++) {
        Slot *s = root(a + i);
        MObj *m;
        if (s->r.id < 0) continue;
        m = &mo[s->r.id];
        switch (want) {
            case 1: if (np_of(m) == 0) continue; break;
            case 2: if (m->type >= T_NSTATIC && m->type != T_USER) continue; if (m->lay->nw == m->lay->npw) continue; break;
            case 3: if (m->type != T_DESC) continue; break;
            case 4: if (m->type != T_DA || !m->len) continue; break;
            case 5: if (m->type == T_DESC || is_array(m)) continue; break;
            case 6: if (m->type == T_DESC) continue; break;
        }
        return s;
    }
    return NULL;
}

static int model_words(int type, int desc, Layout *l) {
    int id = mnew(type), j;
    MObj *m = &mo[id];
    m->desc = desc; m->lay = l; m->nw = l->nw;
    m->w = (Ref *) xalloc(sizeof(Ref) * (size_t) (l->nw + 1));
    for (j = 0; j < l->nw; j++) m->w[j] = l->kind[j] ? rnull() : rraw(0);
    return id;
}
static void fill_data(int id, void *p, ggc_size_t seed) {
    MObj *m = &mo[id];
    int j, n = 0;
    for (j = 0; j < m->nw; j++)
        if (!m->lay->kind[j]) {
            ggc_size_t v = hashw((ggc_size_t) id * 7919 + seed, (ggc_size_t) j);
            if (n++ % 3 == 2) v &= 0xFF;
            m->w[j].raw = wr_word(m, p, j, v);
        }
}

static int alloc_static(Slot *d, int t, ggc_size_t seed) {
    int id;
    void *p = new_static(t);
    CTR(C_ALLOC);
    check_fresh("new object", p, HDRW + (ggc_size_t) staticLay[t].nw, 0);
    id = model_words(t, t, &staticLay[t]);
    mo[id].addr = p;
    *d->p = p; d->r = robj(id);
    fill_data(id, p, seed);
    return id;
}

static ggc_size_t arrlen0(uint32_t b, uint32_t c, ggc_size_t maxw) {
    switch (b % 8) {
        case 0: return c % 3;
        case 1: case 2: case 3: return c % 12;
        case 4: return 50 + c % 30;
        case 5: return c % 200;
        case 6: return c % (maxw / 4 + 1);
        default: return (c & 0x10000) ? maxw - c % 9 % (maxw + 1) : c % (maxw + 1);
    }
}

/* maxw: the longest asked for in this profile; fit: the longest that fits an area */
static ggc_size_t arrlen(uint32_t b, uint32_t c, ggc_size_t maxw, ggc_size_t fit) {
    ggc_size_t n = arrlen0(b, c, maxw);
    return n <= fit ? n : n % (fit + 1);
}

static int bigok = 1; /* whether arrays close to the area size are asked for */
/* the longest array in words that is asked for */
static ggc_size_t longest(ggc_size_t maxw, uint32_t c) {
    if (bigok && maxw <= 5000) return maxw;
    if (bigok && (c >> 15) % 32 == 7) return maxw < 140000 || (c >> 12) % 8 == 3 ? maxw : 140000; /* now and then, more than 65536 elements */
    return maxw / 8 > 3000 ? 3000 : maxw / 8;
}
static void alloc_pa(Slot *d, uint32_t b, uint32_t c) {
    ggc_size_t maxw = MAXWORDS - HDRW - 1, n, fit;
    int id;
    void *p;
    ggc_size_t i;
    fit = maxw;
    if (isDigest) { maxw = 60; fit = 200; }
    else maxw = longest(maxw, c);
    n = arrlen(b, c, maxw, fit);
    if (n > maxw / 2) CTR(C_BIGARR);
    p = (void *) GGC_NEW_PA(GGC_voidp, n);
    CTR(C_ALLOC);
    check_fresh("new pointer array", p, HDRW + 1 + n, HDRW);
    if (((GGC_voidpArray) p)->length != n) pbt_fail("new pointer array: length %lu, expected %lu", (unsigned long) ((GGC_voidpArray) p)->length, (unsigned long) n);
    id = mnew(T_PA);
    mo[id].len = n; mo[id].nw = (int) n; mo[id].lay = &paLay;
    mo[id].w = (Ref *) xalloc(sizeof(Ref) * (n + 1));
    for (i = 0; i < n; i++) mo[id].w[i] = rnull();
    mo[id].addr = p;
    *d->p = p; d->r = robj(id);
}
static void alloc_da(Slot *d, uint32_t b, uint32_t c, uint32_t e) {
    ggc_size_t maxw = MAXWORDS - HDRW - 1, n, i, es, fit;
    int id, elem = (int) (e % NELEM);
    void *p;
    MObj *m;
    es = (ggc_size_t) elemsize[elem];
    fit = maxw * sizeof(ggc_size_t) / es;
    if (isDigest) { maxw = 60; fit = 1600 / es; }
    else maxw = longest(maxw, c);
    maxw = maxw * sizeof(ggc_size_t) / es;
    n = arrlen(b, c, maxw, fit);
    if (n > maxw / 2) CTR(C_BIGARR);
    p = da_new(elem, n);
    CTR(C_ALLOC);
    check_fresh("new data array", p, HDRW + 1 + (n * es + sizeof(ggc_size_t) - 1) / sizeof(ggc_size_t), HDRW);
    if (da_length(p, elem) != n) pbt_fail("new data array: length %lu, expected %lu", (unsigned long) da_length(p, elem), (unsigned long) n);
    id = mnew(T_DA);
    m = &mo[id];
    m->len = n; m->elem = elem; m->nbytes = n * es;
    m->bytes = (unsigned char *) xalloc(m->nbytes + 1);
    m->addr = p;
    *d->p = p; d->r = robj(id);
    for (i = 0; i < n; i++) {
        ggc_size_t j, v = hashw((ggc_size_t) id * 31 + e, i);
        for (j = 0; j < es; j++) m->bytes[i * es + j] = (unsigned char) (v >> (8 * (j % 8)));
        da_clean(m->bytes + i * es, elem);
        da_write(p, elem, i, m->bytes + i * es);
    }
}

/* a run-time descriptor with a random layout */
static void alloc_desc(Slot *d, uint32_t b, uint32_t seed, uint32_t density) {
    Layout *l = (Layout *) xalloc(sizeof(Layout));
    ggc_size_t size, *bits, j;
    int id, useTags = 0, nopt = 0, runptr;
    unsigned run;
    PbtRng r;
    GGC_Descriptor desc;
    unsigned char *tags;
    r.s = seed;
    size = HDRW + 1 + (b % 5 == 0 ? b / 5 % 3 : b % 5 < 3 ? b / 5 % 20 : 40 + b / 5 % 160);
    /* now and then a really wide one */
    if (!isDigest && b % 45 == 44) size = HDRW + 1 + 200 + b / 45 % (MAXWORDS / 2 > 1500 ? 1300 : MAXWORDS / 2 > 300 ? MAXWORDS / 2 - 220 : 1);
    if (!isDigest && b % 45 == 44 && b / 45 % 3 == 2 && MAXWORDS > 400000) size = 65200 + b / 135 % 600;
    l->nw = (int) (size - HDRW);
    l->kind = (unsigned char *) xalloc((size_t) l->nw + 1);
    bits = (ggc_size_t *) xalloc((size / GGGGC_BITS_PER_WORD + 1) * sizeof(ggc_size_t));
    memset(bits, 0, (size / GGGGC_BITS_PER_WORD + 1) * sizeof(ggc_size_t));
    tags = (unsigned char *) xalloc(size + 1);
    memset(tags, 1, size + 1);
    density %= 8;
    run = 0; runptr = 0;
    for (j = 0; j < (ggc_size_t) l->nw; j++) {
        int ptr;
        if (density > 4) {
            /* long runs of either kind, so that there are description words without any pointer, or with nothing else */
            if (!run) {
                run = pbt_chance(&r, 1, 3) ? pbt_range(&r, 1, 3) : pbt_chance(&r, 1, 2) ? pbt_range(&r, 4, 90) : 60 + pbt_below(&r, 75);
                runptr = density == 7 ? (int) pbt_below(&r, 2) : run < 4;
            }
            run--;
            ptr = runptr;
        } else ptr = density == 0 ? 0 : density == 4 ? 1 : (int) pbt_below(&r, 4) < (int) density;
        /* the last words of each description word matter as much as the first */
        if (density && density < 4 && ((j + (isDigest ? 1 : HDRW)) % 64 == 63 || (j + (isDigest ? 1 : HDRW)) % 64 == 0)) ptr = 1;
        l->kind[j] = (unsigned char) ptr;
        if (ptr) bits[(j + HDRW) / GGGGC_BITS_PER_WORD] |= (ggc_size_t) 1 << ((j + HDRW) % GGGGC_BITS_PER_WORD);
    }
    lay_index(l);
#ifdef GGGGC_FEATURE_EXTTAG
    useTags = (seed & 3) != 0;
    if (useTags && density == 0 && (seed & 4)) {
        /* just data */
        nopt = 1;
        desc = GGC_NEW_DESCRIPTOR_WITH_TAGS(size, NULL);
    } else if (useTags) {
        l->tag = (unsigned char *) xalloc((size_t) l->nw + 1);
        for (j = 0; j < (ggc_size_t) l->nw; j++) {
            l->tag[j] = (unsigned char) (pbt_below(&r, 126) * 2 + (l->kind[j] ? 0 : 1));
            tags[HDRW + j] = l->tag[j];
        }
        tags[0] = (unsigned char) (seed >> 8) & 0x7e;
        desc = GGC_NEW_DESCRIPTOR_WITH_TAGS(size, tags);
    } else
#endif
    if (density == 0 && (seed & 4)) { nopt = 1; desc = GGC_NEW_DESCRIPTOR(size, NULL); }
    else if (size <= GGGGC_BITS_PER_WORD && (seed & 8)) desc = ggggc_allocateDescriptor(size, bits[0]);
    else desc = GGC_NEW_DESCRIPTOR(size, bits);
    (void) useTags; (void) nopt; (void) tags;
    CTR(C_DESCS);
    if (!desc) pbt_fail("run-time descriptor is NULL");
    if (desc->user__ptr) pbt_fail("fresh descriptor has a user pointer");
    id = mnew(T_DESC);
    mo[id].lay = l; mo[id].nw = 1;
    mo[id].w = (Ref *) xalloc(sizeof(Ref));
    mo[id].w[0] = rnull();
    mo[id].addr = (void *) desc;
    *d->p = (void *) desc; d->r = robj(id);
}
static void alloc_user(Slot *d, GGC_Descriptor desc, int descid, ggc_size_t seed) {
    int id;
    void *p;
    Layout *l = mo[descid].lay;
    p = GGC_NEW_FROM_DESCRIPTOR(desc);
    CTR(C_ALLOC);
    check_fresh("new object with run-time descriptor", p, HDRW + (ggc_size_t) l->nw, 0);
    id = model_words(descid < T_NSTATIC ? descid : T_USER, descid, l);
    mo[id].addr = p;
    *d->p = p; d->r = robj(id);
    fill_data(id, p, seed);
}

static void do_churn(unsigned n, unsigned kind, unsigned par) {
    unsigned i;
    void *keep = NULL;
    HNode nd = NULL;
    GGC_PUSH_2(keep, nd);
    for (i = 0; i < n; i++) {
        CTR(C_JUNK);
        switch (kind % 6) {
            case 0: { ggc_size_t v = i; nd = GGC_NEW(HNode); GGC_WD(nd, val, v); break; }
            case 1: (void) new_static((int) ((i + par) % T_NSTATIC)); break;
            case 2: { ggc_size_t k; GGC_char_Array a = GGC_NEW_DA(char, (i * 7 + par) % 300); char x = 'x'; for (k = 0; k < a->length; k++) GGC_WAD(a, k, x); break; }
            case 3: keep = (void *) GGC_NEW_PA(GGC_voidp, (i * 5 + par) % 40); if (((GGC_voidpArray) keep)->length) { GGC_voidpArray a = (GGC_voidpArray) keep; void *v = keep; GGC_WAP(a, 0, v); } break;
            case 4: { HNode t = GGC_NEW(HNode); GGC_WP(t, left, nd); nd = t; if (i % 17 == 16) nd = NULL; break; }
            default: { HWide w = GGC_NEW(HWide); void *v = (void *) w; GGC_WP(w, p7, v); keep = v; break; }
        }
    }
    return;
}

static void collect(void) {
    CTR(C_COLLECT);
    GGC_COLLECT();
    verify();
}

/* ------------------------------------------------------------- the frames */
static const PbtCase *cs;
static int ip, depth, nglob; /* globals registered later than the first eight */
static int run_ops(void); /* runs until the frame is popped or the case ends */

static void body(int n, void **v) {
    int i, base = nsl - nglob;
    for (i = 0; i < n; i++) { sl[nsl].p = &v[i]; sl[nsl].r = rnull(); sl[nsl].ro = 0; nsl++; }
    depth++;
    CTR(C_FRAMES);
    if (depth > (int) pbt_sh->ctr[C_MAXDEPTH]) pbt_sh->ctr[C_MAXDEPTH] = (uint64_t) depth;
    run_ops();
    depth--;
    nsl = base + nglob;
}

#define A1 v[0]
#define A2 A1, v[1]
#define A3 A2, v[2]
#define A4 A3, v[3]
#define A5 A4, v[4]
#define A6 A5, v[5]
#define A7 A6, v[6]
#define A8 A7, v[7]
#define A9 A8, v[8]
#define A10 A9, v[9]
#define A11 A10, v[10]
#define A12 A11, v[11]
#define A13 A12, v[12]
#define A14 A13, v[13]
#define A15 A14, v[14]
#define A16 A15, v[15]
#define CALLM(m, args) m args
#define ALLN(M) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16)
#define FR(n) static void frame_ ## n(void) { void *v[n]; memset(v, 0, sizeof(v)); { CALLM(GGC_PUSH_ ## n, (A ## n)); body(n, v); return; } }
#define FRM(n) static void framem_ ## n(void) { void *v[n]; memset(v, 0, sizeof(v)); { CALLM(GGC_PUSH_MANUAL_ ## n, (A ## n)); body(n, v); GGC_POP_MANUAL(); } }
#define FRE(n) static int framee_ ## n(unsigned x) { void *v[n]; memset(v, 0, sizeof(v)); { CALLM(GGC_PUSH_ ## n, (A ## n)); body(n, v); \
    if (x & 1) return 1; \
    do_churn(3, 0, 0); \
    if (x & 2) return 2; \
    return (int) (x & 4); } }
ALLN(FR)
ALLN(FRM)
ALLN(FRE)
#define TB(n) case n: frame_ ## n(); break;
#define TBM(n) case n: framem_ ## n(); break;
#define TBE(n) case n: { int r = framee_ ## n(x); if (r != (x & 1 ? 1 : x & 2 ? 2 : (int) (x & 4))) pbt_fail("early return lost its value"); break; }

#if defined(__GNUC__) && !defined(__cplusplus) && !defined(GGGGC_NO_GNUC_CLEANUP)
#define HAVE_PUSHN 1
#define PN3 {&v[0], &v[1], &v[2]}
#define PN1 {&v[0]}
#define PN6 {&v[0], &v[1], &v[2], &v[3], &v[4], &v[5]}
static void framen_1(void) { void *v[1]; memset(v, 0, sizeof(v)); { GGC_PUSH_N(1, PN1); body(1, v); } }
static void framen_3(void) { void *v[3]; memset(v, 0, sizeof(v)); { GGC_PUSH_N(3, PN3); body(3, v); } }
static void framen_6(void) { void *v[6]; memset(v, 0, sizeof(v)); { GGC_PUSH_N(6, PN6); body(6, v); } }
#endif
#if !defined(GGGGC_NO_GNUC_CLEANUP) || defined(__cplusplus)
/* a scope inside a scope, left by return out of both */
static int framenest(unsigned x) {
    void *v[2];
    memset(v, 0, sizeof(v));
    {
        GGC_PUSH_1(v[0]);
        body(1, v);
        v[0] = NULL; /* still a root, but no longer a slot of the model */
        {
            void *w[2];
            memset(w, 0, sizeof(w));
            GGC_PUSH_2(w[0], w[1]);
            body(2, w);
            if (x & 1) return 1;
            do_churn(2, 0, 0);
        }
        do_churn(2, 1, 0);
        if (x & 2) return 2;
        {
            int k;
            for (k = 0; k < 3; k++) {
                void *u = NULL;
                GGC_PUSH_1(u);
                u = (void *) GGC_NEW(HNode);
                if (k == 1) continue;
                if (x & 4) break;
            }
        }
    }
    return 3;
}
#endif

static void enter(unsigned n, unsigned style) {
    unsigned x = style / 8;
    n = n % 16 + 1;
    /* what every configuration has */
    if (isDigest) style %= 6;
    switch (style % 8) {
        case 0: case 1: case 2:
            switch (n) { ALLN(TB) }
            break;
        case 3: case 4:
            switch (n) { ALLN(TBM) }
            break;
        case 5:
            switch (n) { ALLN(TBE) }
            break;
        case 6:
#ifdef HAVE_PUSHN
            if (n % 3 == 0) framen_1(); else if (n % 3 == 1) framen_3(); else framen_6();
            break;
#endif
        default:
#if !defined(GGGGC_NO_GNUC_CLEANUP) || defined(__cplusplus)
            framenest(x);
#else
            frame_3();
#endif
            break;
    }
}

/* globals, in groups registered when the case says so */
static void *g0[8];
#define NGG 6
static void *gg[NGG][3];
static int ngg;
static void globalize0(void) {
    GGC_PUSH_8(g0[0], g0[1], g0[2], g0[3], g0[4], g0[5], g0[6], g0[7]);
    GGC_GLOBALIZE();
    return;
}
/* the first globals of the program may well be registered from within other
 * scopes and after other allocations */
static void globalize_nested(int n) {
    HNode a = NULL; void *b = NULL;
    GGC_PUSH_2(a, b);
    a = GGC_NEW(HNode);
    b = (void *) a;
    if (n > 0) globalize_nested(n - 1); else globalize0();
    GGC_WP(a, left, a);
    GGC_COLLECT();
    if ((void *) a != b) pbt_fail("two variables of an enclosing scope that held one object now hold two");
    if (a->left__ptr != a) pbt_fail("object of an enclosing scope lost its contents");
    return;
}
static void globalize1(int k) {
    GGC_PUSH_3(gg[k][0], gg[k][1], gg[k][2]);
    GGC_GLOBALIZE();
    return;
}

#ifdef GGGGC_FEATURE_JITPSTACK
static void *jit[1024];
static int jframe[64], jslots[64], njframe;
static void jit_push(unsigned n, unsigned seed) {
    unsigned i;
    PbtRng r;
    r.s = seed;
    n = n % 20 + 1;
    if (njframe >= 40 || njl + (int) n > 300) return;
    jframe[njframe] = (int) (ggc_jitPointerStackEnd - ggc_jitPointerStack);
    jslots[njframe++] = njl;
#ifndef GGGGC_FEATURE_EXTTAG
    for (i = 0; i < n; i++) {
        void **p;
        p = ggc_jitPointerStack - 1;
        *p = NULL;
        ggc_jitPointerStack = p;
        jl[njl].p = p; jl[njl].r = rnull(); jl[njl].ro = 0; njl++;
        CTR(C_JIT);
    }
#else
    /* build groups from the high end down: each is a tag word followed by up to eight words */
    while (n) {
        unsigned k = pbt_range(&r, 1, 8);
        ggc_size_t tags = 0;
        void **base;
        if (k > n) k = n;
        base = ggc_jitPointerStack - (k + 1);
        for (i = 0; i < 8; i++) {
            ggc_size_t t;
            if (i < k) {
                int ptr = pbt_chance(&r, 3, 4);
                t = pbt_below(&r, 126) * 2 + (ptr ? 0 : 1);
                base[i + 1] = NULL;
                jl[njl].p = &base[i + 1];
                if (ptr) { jl[njl].r = rnull(); jl[njl].ro = 0; }
                else { ggc_size_t v = hashw(seed, i); base[i + 1] = (void *) v; jl[njl].r = rraw(v); jl[njl].ro = 1; }
                njl++;
                CTR(C_JIT);
            } else t = 0xFF;
            /* anything may stand after the end marker */
            if (i > k && (seed & 1)) t = (seed >> 3) & 0xFE;
            tags |= t << (8 * i);
        }
        base[0] = (void *) tags;
        ggc_jitPointerStack = base;
        n -= k;
    }
#endif
}
static void jit_pop(void) {
    int i;
    void **p;
    if (!njframe) return;
    njframe--;
    njl = jslots[njframe];
    p = ggc_jitPointerStackEnd - jframe[njframe];
    for (i = 0; ggc_jitPointerStack + i < p; i++) ggc_jitPointerStack[i] = (void *) (ggc_size_t) 0xDEADBEE8u; /* dead stack space */
    ggc_jitPointerStack = p;
}
#endif

/* ------------------------------------------------- bounded-heap experiments */
static void plateau_round(unsigned kind, unsigned i, void **keep, int nkeep) {
    HNode a = NULL, b = NULL;
    void *t = NULL;
    GGC_PUSH_3(a, b, t);
    switch (kind) {
        case 0: /* a sliding window of nodes, old ones dropped */
            a = GGC_NEW(HNode);
            keep[i % (unsigned) nkeep] = (void *) a;
            break;
        case 1: /* cyclic garbage */
            a = GGC_NEW(HNode); b = GGC_NEW(HNode);
            GGC_WP(a, left, b); GGC_WP(b, right, a); GGC_WP(a, right, a);
            if (i % 5 == 0) keep[i / 5 % (unsigned) nkeep] = (void *) a;
            break;
        case 2: /* a growing structure, dropped as a whole after it has aged */
            a = (HNode) keep[0];
            b = GGC_NEW(HNode);
            GGC_WP(b, left, a);
            t = (void *) b;
            keep[0] = i % 200 == 199 ? NULL : t;
            break;
        case 3: /* arrays of many sizes */
            t = (void *) GGC_NEW_PA(GGC_voidp, i * 13 % 60);
            if (((GGC_voidpArray) t)->length) { GGC_voidpArray ta = (GGC_voidpArray) t; void *k = keep[0]; GGC_WAP(ta, 0, k); }
            keep[i % (unsigned) nkeep] = i % 7 == 0 ? NULL : t;
            if (i % 3 == 0) { keep[0] = NULL; (void) GGC_NEW_DA(short, i * 7 % 300); }
            break;
        case 4: /* run-time descriptors and their objects */
            {
                ggc_size_t bits[2]; GGC_Descriptor d;
                bits[0] = (ggc_size_t) 3 << HDRW; bits[1] = 0;
                if (i % 6 == 1) d = ggggc_allocateDescriptor(HDRW + 2 + i % 150, bits[0]);
                else d = GGC_NEW_DESCRIPTOR(HDRW + 2 + i % 9, bits);
                t = GGC_NEW_FROM_DESCRIPTOR(d);
                if (i % 4 == 0) keep[i / 4 % (unsigned) nkeep] = t;
            }
            break;
        case 5: /* old holder, young contents, overwritten again and again */
            if (!keep[0]) { a = GGC_NEW(HNode); keep[0] = (void *) a; }
            b = GGC_NEW(HNode);
            a = (HNode) keep[0];
            GGC_WP(a, left, b);
            if (i % 50 == 0) { HNode nl = NULL; b = GGC_NEW(HNode); a = (HNode) keep[0]; GGC_WP(b, right, nl); GGC_WP(a, right, b); }
            break;
        case 6: /* references that are only data */
            {
                ggc_size_t v;
                HLeaf l = NULL;
                GGC_PUSH_1(l);
                l = GGC_NEW(HLeaf);
                b = GGC_NEW(HNode);
                a = (HNode) keep[1];
                GGC_WP(b, left, a);
                keep[1] = i % 100 == 99 ? NULL : (void *) b;
                b = (HNode) keep[1];
                v = (ggc_size_t) (void *) b;
                GGC_WD(l, x, v);
                keep[0] = (void *) l;
                GGC_POP();
            }
            break;
#ifdef GGGGC_FEATURE_FINALIZERS
        case 7: /* finalizable garbage */
            a = GGC_NEW(HNode);
            if (i % 3 == 0) GGC_FINALIZE(a, fin_plain);
            keep[i % (unsigned) nkeep] = (void *) a;
            break;
#endif
        default: /* mixture */
            t = new_static((int) (i % T_NSTATIC));
            keep[i * 7 % (unsigned) nkeep] = t;
            break;
    }
    return;
}
static void plateau(unsigned kind, unsigned par) {
    /* bounded live data, ever more garbage: the heap must stop growing */
    void *keep[16];
    unsigned i, n1, n;
    long before = ar_granted, g1 = 0, g2, allow, b1;
    int nkeep = 2 + (int) (par % 14);
    memset(keep, 0, sizeof(keep));
    {
        GGC_PUSH_16(keep[0], keep[1], keep[2], keep[3], keep[4], keep[5], keep[6], keep[7], keep[8], keep[9], keep[10], keep[11], keep[12], keep[13], keep[14], keep[15]);
        CTR(C_PLATEAU);
        GGC_COLLECT(); GGC_COLLECT();
        b1 = ar_blocks;
        n1 = (unsigned) (GGGGC_POOL_BYTES / 24 * 10);
        if (n1 > 400000) n1 = 400000;
        kind %= 9;
        /* at least 40 bytes of garbage a round; the areas that half of it would fill */
        n = n1 * (GGGGC_POOL_SIZE <= 13 ? 40 : 14);
        allow = 6 + (long) ((ggc_size_t) n / 2 * 40 / GGGGC_POOL_BYTES) / 16;
        for (i = 0; i < n; i++) {
            CTR(C_JUNK);
            if (i == n / 2) g1 = ar_granted;
            plateau_round(kind, i, keep, nkeep);
        }
        g2 = ar_granted;
        /* what the collector keeps about objects goes with them */
        memset(keep, 0, sizeof(keep));
        GGC_COLLECT(); GGC_COLLECT(); GGC_COLLECT();
        if (ar_blocks - b1 > 100 + (long) n / 2000)
            pbt_fail("bookkeeping outlives the objects it is about: %ld small blocks were in use before %u rounds of garbage kind %u, and %ld are after it was all collected", b1, n, kind, ar_blocks);
        if (g2 - g1 > allow)
            pbt_fail("bounded live data needs an unbounded heap: %ld areas before, %ld after %u rounds, %ld after %u rounds of garbage kind %u", before, g1, n / 2, g2, n, kind);
        /* small areas are dominated by fragmentation, large ones are not */
        if (GGGGC_POOL_SIZE >= 14 && g2 > 4 * before + 60)
            pbt_fail("bounded live data needs %ld areas (%ld before) for garbage kind %u", g2, before, kind);
        return;
    }
}

static int want_abort_ok(void);
static void too_big(uint32_t a, uint32_t b, uint32_t c);
static void budget_policy(void);

/* ---------------------------------------------------------------- executor */
static int stopped;
static void step(const PbtOp *o) {
    Slot *s, *t;
    MObj *m;
    switch (o->k) {
        case O_CFG: break;
        case O_NEW: alloc_static(dst(o->a), (int) (o->b % T_NSTATIC), o->c); break;
        case O_NEWPA: alloc_pa(dst(o->a), o->b, o->c); break;
        case O_NEWDA: alloc_da(dst(o->a), o->b, o->c, o->d); break;
        case O_NEWDESC: alloc_desc(dst(o->a), o->b, o->c, o->d); break;
        case O_NEWUSER:
            t = objroot(o->b, 3);
            if (t) alloc_user(dst(o->a), (GGC_Descriptor) *t->p, t->r.id, o->c);
            break;
        case O_NEWLIKE: /* another object with the descriptor of an existing one */
            t = objroot(o->b, 5);
            if (t) {
                HGen g = (HGen) *t->p;
                alloc_user(dst(o->a), g->header.descriptor__ptr, mo[t->r.id].desc, o->c);
            }
            break;
        case O_LINK:
            s = objroot(o->a, 1);
            t = root(o->c);
            if (s && t->r.id != -2) {
                int w;
                m = &mo[s->r.id];
                w = pword(m, (int) (o->b % (uint32_t) np_of(m)));
                wr_ptr(m, *s->p, w, *t->p);
                m->w[w] = t->r;
                CTR(C_STORES);
            }
            break;
        case O_UNLINK:
            s = objroot(o->a, 1);
            if (s) {
                int w;
                m = &mo[s->r.id];
                w = pword(m, (int) (o->b % (uint32_t) np_of(m)));
                wr_ptr(m, *s->p, w, NULL);
                m->w[w] = rnull();
            }
            break;
        case O_READP:
            s = objroot(o->b, 1);
            t = dst(o->a);
            if (s) {
                int w;
                void *v;
                m = &mo[s->r.id];
                w = pword(m, (int) (o->c % (uint32_t) np_of(m)));
                v = rd_ptr(m, *s->p, w);
                if (m->w[w].id == -1 && v) pbt_fail("read of object %d[%d]: expected NULL, got %p", s->r.id, w, v);
                if (m->w[w].id == -2 && (ggc_size_t) v != m->w[w].raw) pbt_fail("read of object %d[%d]: tagged value changed", s->r.id, w);
                *t->p = v; t->r = m->w[w];
            }
            break;
        case O_SETD:
            s = objroot(o->a, 2);
            if (s) {
                int j, n, k = 0;
                m = &mo[s->r.id];
                n = m->lay->nw - m->lay->npw;
                n = (int) (o->b % (uint32_t) n);
                for (j = 0; j < m->nw; j++)
                    if (!m->lay->kind[j] && k++ == n) { m->w[j].raw = wr_word(m, *s->p, j, hashw(o->c, o->d)); break; }
            }
            break;
        case O_SETA:
            s = objroot(o->a, 4);
            if (s) {
                ggc_size_t i, es, j;
                m = &mo[s->r.id];
                es = (ggc_size_t) elemsize[m->elem];
                i = o->b % m->len;
                for (j = 0; j < es; j++) m->bytes[i * es + j] = (unsigned char) (hashw(o->c, j));
                da_clean(m->bytes + i * es, m->elem);
                da_write(*s->p, m->elem, i, m->bytes + i * es);
            }
            break;
        case O_FILL: /* fill a pointer array with fresh objects */
            s = objroot(o->a, 1);
            if (s && mo[s->r.id].type == T_PA) {
                int i, n = (int) mo[s->r.id].len, stepw = 1 + (int) (o->b % 7);
                int aid = s->r.id;
                void *arr = *s->p;
                Slot tmp; void *tv = NULL;
                GGC_PUSH_2(arr, tv);
                tmp.p = &tv; tmp.r = rnull(); tmp.ro = 0;
                for (i = (int) (o->c % (uint32_t) stepw); i < n; i += stepw) {
                    int id;
                    Slot es;
                    /* while allocating, the array counts as a root of the model too */
                    es.p = &arr; es.r = robj(aid); es.ro = 1;
                    if (nextra >= 60) break;
                    extra[nextra++] = &es;
                    id = alloc_static(&tmp, (int) (o->d % 3), o->c);
                    nextra--;
                    wr_ptr(&mo[aid], arr, i, tv);
                    mo[aid].w[i] = robj(id);
                    if (nmo > MAXOBJ - 200) break;
                }
                GGC_POP();
            }
            break;
        case O_DECOY: /* data that looks like a heap address */
            s = objroot(o->c, 0);
            t = objroot(o->a, 2);
            if (s && t) {
                int j, n, k = 0;
                m = &mo[t->r.id];
                if (m->type == T_MIX) break;
                n = m->lay->nw - m->lay->npw;
                n = (int) (o->b % (uint32_t) n);
                for (j = 0; j < m->nw; j++)
                    if (!m->lay->kind[j] && k++ == n) { m->w[j].raw = wr_word(m, *t->p, j, (ggc_size_t) *s->p + (o->d % 4 == 3 ? 8 : 0)); CTR(C_DECOYS); break; }
            } else if (s && (t = objroot(o->a, 4)) != NULL) {
                m = &mo[t->r.id];
                if (m->elem == ELEM_SIZE || m->elem == ELEM_LONG) {
                    ggc_size_t v = (ggc_size_t) *s->p, i = o->b % m->len;
                    memcpy(m->bytes + i * sizeof(v), &v, sizeof(v));
                    da_write(*t->p, m->elem, i, m->bytes + i * sizeof(v));
                    CTR(C_DECOYS);
                }
            }
            break;
        case O_TAGW:
#ifdef GGGGC_FEATURE_TAGGING
            s = objroot(o->a, 1);
            if (s) {
                int w;
                ggc_size_t v = hashw(o->c, o->d);
                m = &mo[s->r.id];
                /* half of them look like tagged heap addresses */
                if (o->d & 1) v = (ggc_size_t) *s->p;
                v = (v & ~(ggc_size_t) 7) | (1 + o->c % 7);
                w = pword(m, (int) (o->b % (uint32_t) np_of(m)));
                wr_ptr(m, *s->p, w, (void *) v);
                m->w[w] = rraw(v);
                CTR(C_TAGGED);
            }
#endif
            break;
        case O_TAGR:
#ifdef GGGGC_FEATURE_TAGGING
            t = dst(o->a);
            {
                ggc_size_t v = hashw(o->c, o->d);
                s = objroot(o->b, 0);
                if (s && (o->d & 1)) v = (ggc_size_t) *s->p;
                v = (v & ~(ggc_size_t) 7) | (1 + o->c % 7);
                *t->p = (void *) v; t->r = rraw(v);
                CTR(C_TAGGED);
            }
#endif
            break;
        case O_COPY: s = root(o->b); t = dst(o->a); if (s->ro) break; *t->p = *s->p; t->r = s->r; break;
        case O_CLEAR: t = dst(o->a); *t->p = NULL; t->r = rnull(); break;
        case O_CLEARALL: {
            int i;
            for (i = 0; i < nsl; i++) if ((i + (int) o->a) % 3 && !sl[i].ro) { *sl[i].p = NULL; sl[i].r = rnull(); }
            for (i = 0; i < njl; i++) if ((i + (int) o->a) % 3 && !jl[i].ro) { *jl[i].p = NULL; jl[i].r = rnull(); }
            break;
        }
        case O_CHURN: do_churn(o->a % 600, o->b, o->c); break;
        case O_CHAIN: {
            int i, n = (int) (o->b % 60) + 1;
            t = dst(o->a);
            for (i = 0; i < n; i++) {
                Ref old = t->r;
                void *tv = *t->p;
                Slot tmp;
                GGC_PUSH_1(tv);
                tmp.p = &tv; tmp.r = old; tmp.ro = 0;
                {
                    int ty = (o->c + (unsigned) i) % 5 == 0 ? T_WIDE : (o->c + (unsigned) i) % 5 == 1 ? T_ONE : T_NODE, id, w;
                    Slot fresh; void *fv = NULL;
                    GGC_PUSH_MANUAL_1(fv);
                    fresh.p = &fv; fresh.r = rnull(); fresh.ro = 0;
                    /* small holes between the links, which leave compaction little room for its tables */
                    if ((o->d & 3) == 3 && (i + (int) (o->d >> 2)) % (1 + (int) (o->d >> 4) % 4) == 0)
                        alloc_static(&fresh, T_ONE, o->c);
                    id = alloc_static(&fresh, ty, o->c);
                    w = mo[id].lay->pidx[(unsigned) i % (unsigned) mo[id].lay->npw];
                    /* a finalizer may have stored into the root meanwhile; the chain keeps what it had */
                    wr_ptr(&mo[id], fv, w, tv);
                    mo[id].w[w] = tmp.r;
                    *t->p = fv; t->r = robj(id);
                    CTR(C_STORES);
                    GGC_POP_MANUAL();
                }
                GGC_POP();
            }
            break;
        }
        case O_COLLECT: collect(); break;
        case O_YIELD: GGC_YIELD(); break;
        case O_PUSH:
            if (depth < 40 && nsl < MAXSLOT - 20) enter(o->a, o->b);
            break;
        case O_GLOBALIZE:
            if (ngg < NGG && depth == (int) (o->a % 2 ? depth : 0)) {
                /* new globals go in front of the frames' slots */
                int k = ngg++, i, j;
                globalize1(k);
                for (i = 0; i < 3; i++) {
                    /* keep them apart from frame slots: they live as long as the case */
                    for (j = nsl; j > 8 + k * 3 + i; j--) sl[j] = sl[j - 1];
                    sl[8 + k * 3 + i].p = &gg[k][i];
                    sl[8 + k * 3 + i].r = rnull();
                    sl[8 + k * 3 + i].ro = 0;
                    nsl++; nglob++;
                }
                CTR(C_GLOBALIZE);
            }
            break;
        case O_WUP:
            s = objroot(o->a, 5);
            t = root(o->b);
            if (s && t->r.id != -2) {
                HGen obj = (HGen) *s->p;
                void *v = *t->p;
                GGC_WUP(obj, v);
                mo[mo[s->r.id].desc].w[0] = t->r;
                CTR(C_WUP);
            }
            break;
        case O_RUP:
            s = objroot(o->b, 5);
            t = dst(o->a);
            if (s) {
                HGen obj = (HGen) *s->p;
                void *v = GGC_RUP(obj);
                Ref want = mo[mo[s->r.id].desc].w[0];
                if ((want.id == -1) != (v == NULL)) pbt_fail("user pointer reads %p, expected %s", v, want.id == -1 ? "NULL" : "an object");
                *t->p = v; t->r = want;
            }
            break;
        case O_FIN:
#ifdef GGGGC_FEATURE_FINALIZERS
            s = objroot(o->a, 6);
            if (s) fin_register(*s->p, s->r.id, (int) (o->b % 6), (int) (o->c % 100));
#endif
            break;
        case O_CHECKFIN:
#ifdef GGGGC_FEATURE_FINALIZERS
            {
                /* what a finalized object refers to is kept until its finalizer
                 * is through, and finalizers may store their objects away, so
                 * collect until no finalizer runs any more */
                int i, due[NREG], n0, iter = 0;
                uint64_t runs, res0 = pbt_sh->ctr[C_RESURRECT] + pbt_sh->ctr[C_FINREG];
                while (1) {
                    n0 = nreg;
                    mark_model(1);
                    for (i = 0; i < n0; i++) due[i] = reg[i].live && mo[reg[i].id].mark != markgen;
                    runs = pbt_sh->ctr[C_FINRUN];
                    collect();
                    if (iter == 0) collect();
                    iter++;
                    if (runs == pbt_sh->ctr[C_FINRUN]) break;
                    if (iter > 6 + 2 * GGGGC_GENERATIONS + (int) (pbt_sh->ctr[C_RESURRECT] + pbt_sh->ctr[C_FINREG] - res0))
                        pbt_fail("finalizers of unreachable objects are still running after %d full collections", iter);
                }
                CTR(C_FINCHK);
                for (i = 0; i < n0; i++)
                    if (due[i])
                        pbt_fail("object %d is unreachable but its finalizer %d did not run in %d full collections", reg[i].id, i, iter + 1);
            }
#endif
            break;
        case O_JPUSH:
#ifdef GGGGC_FEATURE_JITPSTACK
            jit_push(o->a, o->b);
#endif
            break;
        case O_JPOP:
#ifdef GGGGC_FEATURE_JITPSTACK
            jit_pop();
#endif
            break;
        case O_VERIFY: verify(); break;
        case O_PLATEAU: plateau(o->a, o->b); break;
        case O_OWN:
            if (nown < 64) {
                size_t n = o->a % 5 == 0 ? o->b % 200000 : o->b % 3000, j;
                char *p = (char *) malloc(n + 1);
                if (p) {
                    own[nown].p = p; own[nown].n = n; own[nown].seed = o->c; own[nown].nofree = 0;
                    for (j = 0; j < n; j++) p[j] = (char) (o->c * 31 + j * 7);
                    nown++;
                    CTR(C_OWN);
                }
            }
            break;
        case O_OWNFREE:
            if (nown) {
                int i = (int) (o->a % (uint32_t) nown);
                verify_own();
                if (!own[i].nofree) free(own[i].p);
                own[i] = own[--nown];
            }
            break;
        case O_OWNSBRK: /* the program moves the break itself */
#ifdef GGGGC_USE_SBRK
            if (nown < 64) {
                size_t n = o->a % 3 == 0 ? o->b % 100000 : o->b % 5000, j;
                char *p = (char *) sbrk((intptr_t) n + 1);
                if (p != (char *) (intptr_t) -1) {
                    own[nown].p = p; own[nown].n = n; own[nown].seed = o->c; own[nown].nofree = 1;
                    for (j = 0; j < n; j++) p[j] = (char) (o->c * 31 + j * 7);
                    nown++;
                    CTR(C_OWN);
                }
            }
#endif
            break;
        case O_BUDGET:
            ar_budget = o->a % 4 == 3 ? -1 : (long) (o->b % 6);
            budget_policy();
            break;
        case O_SMALL:
            if (ar_small_refused) break; /* that it went on at all is a surprise */
            ar_expect = &pbt_sh->expect;
            ar_small_refusals = &pbt_sh->ctr[C_SMALL];
            ar_small = o->a % 5 == 4 ? -1 : (long) (o->b % 12);
            break;
        case O_TOOBIG:
            ar_small = -1;
            too_big(o->a, o->b, o->c);
            break;
        case O_CORRUPT:
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
            {
                /* a reachable object of the model, however deep */
                int i, n = 0;
                verify();
                n = qt;
                if (n) {
                    i = queue[o->a % (uint32_t) n];
                    CTR(C_CORRUPT);
                    pbt_sh->expect = 2;
                    ((HGen) mo[i].addr)->header.ggggc_memoryCorruptionCheck = o->b & 1 ? 0 : hashw(o->b, o->c);
                    if (o->c % 3 == 0) do_churn(o->d % 300, 0, 0);
                    GGC_COLLECT();
                    pbt_fail("the check word of a reachable object (type %d) was overwritten and a full collection did not report it", mo[i].type);
                }
            }
#endif
            break;
    }
}

/* a request that no memory area can hold ends the program the orderly way */
static void too_big(uint32_t a, uint32_t b, uint32_t c) {
    const ggc_size_t W = GGGGC_POOL_BYTES / sizeof(ggc_size_t), all = (ggc_size_t) -1;
    static ggc_size_t bits[1 << 16];
    static unsigned char tags[1 << 20];
    ggc_size_t n, es;
    int elem = (int) (c % NELEM);
    void *p = NULL;
    switch (a / 8 % 6) {
        case 0: n = W - 3 + b % 6; break; /* an area has a header */
        case 1: n = W + b % 100000; break;
        case 2: n = (W << b % 24) + c % 1000; break;
        case 3: n = ((ggc_size_t) 1 << (b % 20 + 44)) - 8 + c % 20; break;
        case 4: n = all - b % 80; break;
        default: n = all / (b % 64 + 1) + c % 3; break;
    }
    if (n < W - 3) n = W;
    CTR(C_TOOBIG);
    pbt_sh->expect = 3;
    switch (a % 8) {
        case 0: case 1:
            p = (void *) GGC_NEW_PA(GGC_voidp, n);
            break;
        case 2: case 3: case 4:
            es = (ggc_size_t) elemsize[elem];
            /* this many bytes, or as many elements */
            if (a & 64) { n = n / es; if (n < GGGGC_POOL_BYTES / es) n = GGGGC_POOL_BYTES / es; }
            else if (a & 128) n = all / es + b % 5; /* just about all of memory, or a little more */
            if (n < GGGGC_POOL_BYTES / es) n = GGGGC_POOL_BYTES / es + b % 2;
            p = da_new(elem, n);
            break;
        case 5: {
            GGC_Descriptor d = NULL;
            GGC_PUSH_1(d);
            d = ggggc_allocateDescriptor(n, b | 1);
            p = GGC_NEW_FROM_DESCRIPTOR(d);
            break;
        }
        case 6: {
            GGC_Descriptor d = NULL;
            GGC_PUSH_1(d);
            d = GGC_NEW_DESCRIPTOR(n, n <= sizeof(bits) * 8 ? bits : NULL);
            p = GGC_NEW_FROM_DESCRIPTOR(d);
            break;
        }
        default: {
            GGC_Descriptor d = NULL;
            GGC_PUSH_1(d);
#ifdef GGGGC_FEATURE_EXTTAG
            d = GGC_NEW_DESCRIPTOR_WITH_TAGS(n, n <= sizeof(tags) ? tags : NULL);
#else
            d = GGC_NEW_DESCRIPTOR(n, NULL);
            (void) tags;
#endif
            p = GGC_NEW_FROM_DESCRIPTOR(d);
            break;
        }
    }
    pbt_fail("a request for %lu words or elements (kind %u) was granted, at %p, although areas have %lu words", (unsigned long) n, (unsigned) a % 8, p, (unsigned long) W);
}

/* refused memory: an abort is acceptable unless everything comfortably fits */
static int warmed;
static void budget_policy(void) {
    ggc_size_t live = 0;
    int i, k = ip ? cs->op[ip - 1].k : O_CFG;
    if (ar_small_refused) { pbt_sh->expect = 4; return; }
    if (ar_budget < 0 && !ar_refused) { pbt_sh->expect = 0; return; }
    mark_model(1);
    for (i = 0; i < nmo; i++) if (mo[i].mark == markgen) live += words_of(&mo[i]) + 8;
    for (i = 0; i < nreg; i++) live += 12;
    /* what doesn't allocate doesn't need memory */
    if (warmed && (k == O_LINK || k == O_UNLINK || k == O_READP || k == O_SETD || k == O_CLEAR || k == O_CLEARALL || k == O_VERIFY || (k == O_COLLECT && !nreg)))
        pbt_sh->expect = 0;
    /* nothing was refused yet, or the program is small against a single area */
    else if (warmed && live * 8 < MAXWORDS && !bigok) pbt_sh->expect = 0;
    else pbt_sh->expect = 1;
}
static int want_abort_ok(void) { return 0; }

static int run_ops(void) {
    while (ip < cs->n && !stopped) {
        const PbtOp *o = &cs->op[ip++];
        int i, atdepth = depth;
        (void) atdepth;
        pbt_sh->opi = ip - 1;
        if (o->k == O_POP) {
            if (depth) return 1;
            continue;
        }
        if (!strcmp(profileName, "oom") || !strcmp(profileName, "pools")) budget_policy();
        step(o);
        if (nextra == 0) for (i = 0; i < nmo; i++) mo[i].exempt = 0;
        pbt_sh->ctr[C_REFUSED] = (uint64_t) ar_refused;
        pbt_sh->ctr[C_GRANTED] = (uint64_t) ar_granted;
    }
    return 0;
}

static void init_model(void) {
    static const int pn[] = {0, 1}, po[] = {0}, pm[] = {1}, pw[] = {0, 29, 30, 31, 32, 33, 54, 61}, ph[] = {0, 61};
    int i;
    mo = (MObj *) xalloc(sizeof(MObj) * MAXOBJ);
    lay_static(T_NODE, 3, pn, 2);
    lay_static(T_LEAF, 2, pn, 0);
    lay_static(T_ONE, 1, po, 1);
    lay_static(T_WIDE, 62, pw, 8);
    lay_static(T_HUGE, 100, ph, 2);
    lay_static(T_MIX, 5, pm, 1);
    lay_static(T_EMPTY, 0, pm, 0);
    for (i = 0; i < T_NSTATIC; i++) {
        int id = mnew(T_DESC);
        mo[id].lay = &staticLay[i];
        mo[id].nw = 1;
        mo[id].w = (Ref *) xalloc(sizeof(Ref));
        mo[id].w[0] = rnull();
    }
}

void pbt_exec(const PbtCase *c, const char *profile) {
    int i;
    cs = c; profileName = profile;
    isDigest = !strcmp(profile, "digest");
    bigok = !strcmp(profile, "arrays") || !strcmp(profile, "big");
    if (c->n && c->op[0].k == O_CFG) ar_policy = (int) (c->op[0].a & 7);
    init_model();
#ifdef GGGGC_FEATURE_JITPSTACK
    ggc_jitPointerStack = ggc_jitPointerStackEnd = jit + 1024;
#endif
    if (c->n && c->op[0].k == O_CFG && (c->op[0].b & 3) == 3) globalize_nested((int) (c->op[0].b >> 2) % 4);
    else globalize0();
    for (i = 0; i < 8; i++) { sl[i].p = &g0[i]; sl[i].r = rnull(); }
    nsl = 8;
    if (!strcmp(profile, "oom")) {
        /* give every generation an area before anything is refused, or else
         * start with very little */
        int k;
        if (c->n && c->op[0].k == O_CFG && c->op[0].c & 1) {
            ar_budget = 2 + GGGGC_GENERATIONS + (long) (c->op[0].c >> 1) % 8;
            if ((c->op[0].c >> 4) % 8 == 5) ar_budget = (long) (c->op[0].c >> 1) % 8 % (2 + GGGGC_GENERATIONS);
            pbt_sh->expect = 1;
        }
        alloc_static(&sl[0], T_NODE, 1);
        for (k = 0; k < 3 * GGGGC_GENERATIONS; k++) { do_churn((unsigned) (GGGGC_POOL_BYTES / 32) + 10, 0, 0); GGC_COLLECT(); }
        warmed = !(c->n && c->op[0].k == O_CFG && c->op[0].c & 1);
    }
    run_ops();
    ip = cs->n;
    pbt_sh->opi = cs->n;
    ar_budget = -1;
    verify();
    collect();
#ifdef GGGGC_FEATURE_FINALIZERS
    if (!strcmp(profile, "finc")) { PbtOp o; memset(&o, 0, sizeof(o)); o.k = O_CHECKFIN; step(&o); }
#endif
    (void) want_abort_ok;
    _exit(0);
}

/* --------------------------------------------------------------- generator */
typedef struct { int k, w; } W;
#define PROF_MAX 40
/* arguments in a fixed order: compilers differ in how they evaluate calls */
static void add_rnd(PbtCase *c, PbtRng *r, int k) {
    uint32_t v[4];
    int i;
    for (i = 0; i < 4; i++) v[i] = pbt_below(r, 1u << 20);
    pbt_add(c, k, v[0], v[1], v[2], v[3]);
}
static void gen_weighted(PbtCase *c, PbtRng *r, const W *w, int nops) {
    int i, tot = 0, q;
    for (q = 0; w[q].w; q++) tot += w[q].w;
    for (i = 0; i < nops; i++) {
        int x = (int) pbt_below(r, (uint32_t) tot);
        for (q = 0; w[q].w; q++) { x -= w[q].w; if (x < 0) break; }
        add_rnd(c, r, w[q].k);
        if (w[q].k == O_CHURN) {
            PbtOp *o = &c->op[c->n - 1];
            /* mostly short, sometimes enough to force several collections */
            if (pbt_chance(r, 1, 2)) o->a %= 40; else if (pbt_chance(r, 1, 2)) o->a = o->a % 600;
        }
    }
}

void pbt_gen(PbtCase *c, PbtRng *r, const char *profile) {
    /* graph: everything, evenly */
    static const W wgraph[] = { {O_NEW,20},{O_NEWPA,5},{O_NEWDA,5},{O_NEWDESC,2},{O_NEWUSER,3},{O_NEWLIKE,3},{O_LINK,25},{O_UNLINK,3},{O_READP,14},{O_SETD,6},{O_SETA,3},
        {O_DECOY,3},{O_COPY,4},{O_CLEAR,6},{O_CLEARALL,1},{O_CHURN,12},{O_CHAIN,4},{O_COLLECT,2},{O_YIELD,1},{O_PUSH,4},{O_POP,3},{O_GLOBALIZE,1},{O_WUP,1},{O_RUP,1},{O_VERIFY,3},{O_FILL,1},{0,0} };
    /* barrier: old holders, young contents, roots dropped at once, much churn between */
    static const W wbarrier[] = { {O_NEW,22},{O_NEWPA,4},{O_NEWUSER,2},{O_NEWDESC,1},{O_NEWLIKE,2},{O_LINK,40},{O_READP,14},{O_CLEAR,22},{O_CHURN,26},{O_CHAIN,5},{O_COLLECT,2},{O_COPY,3},{O_WUP,3},{O_RUP,2},{O_VERIFY,4},{O_FILL,2},{O_UNLINK,2},{0,0} };
    static const W wlayout[] = { {O_NEW,10},{O_NEWDESC,10},{O_NEWUSER,16},{O_NEWLIKE,8},{O_LINK,36},{O_READP,10},{O_SETD,12},{O_DECOY,16},{O_CLEAR,8},{O_CHURN,16},{O_COLLECT,3},{O_VERIFY,3},{O_NEWDA,4},{O_SETA,3},{O_UNLINK,3},{O_NEWPA,3},{0,0} };
    static const W warrays[] = { {O_NEWPA,16},{O_NEWDA,16},{O_FILL,6},{O_SETA,16},{O_LINK,16},{O_READP,6},{O_NEW,8},{O_CLEAR,10},{O_CHURN,8},{O_COLLECT,2},{O_VERIFY,4},{O_UNLINK,2},{O_COPY,2},{O_DECOY,2},{0,0} };
    static const W wroots[] = { {O_NEW,24},{O_PUSH,22},{O_POP,16},{O_LINK,10},{O_COPY,8},{O_CHURN,14},{O_COLLECT,2},{O_GLOBALIZE,5},{O_READP,6},{O_CLEAR,3},{O_VERIFY,4},{O_CHAIN,3},{0,0} };
    static const W wuser[] = { {O_NEWDESC,10},{O_NEWUSER,16},{O_NEWLIKE,14},{O_NEW,10},{O_WUP,20},{O_RUP,14},{O_LINK,10},{O_READP,8},{O_CLEAR,18},{O_CHURN,18},{O_COLLECT,3},{O_VERIFY,3},{O_CHAIN,2},{0,0} };
    static const W wfin[] = { {O_NEW,20},{O_NEWPA,3},{O_NEWDESC,1},{O_NEWUSER,2},{O_FIN,22},{O_LINK,16},{O_UNLINK,6},{O_READP,8},{O_CLEAR,18},{O_CLEARALL,1},{O_CHURN,18},{O_CHAIN,4},{O_COLLECT,4},{O_CHECKFIN,2},{O_COPY,3},{O_PUSH,2},{O_POP,2},{O_DECOY,3},{O_VERIFY,2},{0,0} };
    static const W wtag[] = { {O_NEW,18},{O_NEWPA,6},{O_NEWDESC,4},{O_NEWUSER,6},{O_NEWLIKE,4},{O_LINK,22},{O_TAGW,24},{O_TAGR,12},{O_READP,12},{O_CLEAR,5},{O_CHURN,16},{O_CHAIN,3},{O_COLLECT,3},{O_COPY,4},{O_PUSH,3},{O_POP,3},{O_JPUSH,4},{O_JPOP,2},{O_VERIFY,3},{O_FILL,1},{0,0} };
    static const W wext[] = { {O_NEW,10},{O_NEWPA,4},{O_NEWDA,4},{O_NEWDESC,14},{O_NEWUSER,20},{O_NEWLIKE,10},{O_LINK,28},{O_READP,10},{O_SETD,8},{O_DECOY,8},{O_CLEAR,10},{O_CHURN,16},{O_COLLECT,3},{O_VERIFY,3},{O_JPUSH,3},{O_JPOP,1},{O_WUP,2},{0,0} };
    static const W wjit[] = { {O_NEW,26},{O_JPUSH,18},{O_JPOP,10},{O_COPY,14},{O_LINK,14},{O_READP,10},{O_CLEAR,6},{O_TAGR,4},{O_CHURN,18},{O_COLLECT,3},{O_VERIFY,4},{O_CHAIN,3},{O_NEWPA,3},{O_PUSH,3},{O_POP,2},{0,0} };
    static const W wfresh[] = { {O_NEW,30},{O_NEWPA,14},{O_NEWDA,14},{O_NEWDESC,4},{O_NEWUSER,8},{O_NEWLIKE,6},{O_LINK,8},{O_CLEAR,24},{O_CLEARALL,4},{O_CHURN,10},{O_COLLECT,4},{O_VERIFY,4},{O_DECOY,3},{O_FILL,2},{0,0} };
    static const W woom[] = { {O_NEW,14},{O_NEWPA,4},{O_NEWDA,4},{O_NEWDESC,1},{O_NEWUSER,2},{O_LINK,14},{O_READP,6},{O_CLEAR,8},{O_CLEARALL,2},{O_CHURN,16},{O_CHAIN,16},{O_COLLECT,2},{O_BUDGET,7},{O_VERIFY,3},{O_FILL,2},{O_FIN,2},{O_SMALL,1},{O_GLOBALIZE,2},{O_PUSH,2},{O_POP,1},{0,0} };
    static const W wpools[] = { {O_NEW,16},{O_NEWPA,6},{O_NEWDA,6},{O_LINK,12},{O_READP,6},{O_CLEAR,6},{O_CHURN,16},{O_CHAIN,8},{O_COLLECT,2},{O_OWN,12},{O_OWNFREE,8},{O_OWNSBRK,4},{O_BUDGET,3},{O_VERIFY,3},{O_FILL,4},{0,0} };
    static const W wdebug[] = { {O_NEW,20},{O_NEWPA,5},{O_NEWDA,5},{O_NEWDESC,2},{O_NEWUSER,3},{O_LINK,20},{O_READP,10},{O_SETD,5},{O_CLEAR,8},{O_CHURN,14},{O_CHAIN,4},{O_COLLECT,3},{O_WUP,2},{O_TAGW,2},{O_TAGR,1},{O_FIN,2},{O_JPUSH,1},{O_JPOP,1},{O_VERIFY,2},{0,0} };
    static const W wdigest[] = { {O_NEW,20},{O_NEWPA,5},{O_NEWDA,5},{O_NEWDESC,2},{O_NEWUSER,3},{O_NEWLIKE,3},{O_LINK,25},{O_UNLINK,3},{O_READP,14},{O_SETD,6},{O_SETA,3},
        {O_COPY,4},{O_CLEAR,6},{O_CLEARALL,1},{O_CHURN,12},{O_CHAIN,4},{O_COLLECT,2},{O_YIELD,1},{O_PUSH,4},{O_POP,3},{O_GLOBALIZE,1},{O_WUP,1},{O_RUP,1},{O_VERIFY,3},{O_FILL,1},{0,0} };
    int n = (int) pbt_range(r, 30, 260);
    if (pbt_chance(r, 1, 4)) n = (int) pbt_range(r, 5, 40);
    add_rnd(c, r, O_CFG);
    c->op[0].a %= 8; c->op[0].b %= 16; c->op[0].c %= 1024; c->op[0].d = 0;
    if (!strcmp(profile, "graph")) gen_weighted(c, r, wgraph, n);
    else if (!strcmp(profile, "barrier")) gen_weighted(c, r, wbarrier, n);
    else if (!strcmp(profile, "layout")) gen_weighted(c, r, wlayout, n);
    else if (!strcmp(profile, "arrays") || !strcmp(profile, "big")) gen_weighted(c, r, warrays, n / 2 + 4);
    else if (!strcmp(profile, "roots")) gen_weighted(c, r, wroots, n);
    else if (!strcmp(profile, "user")) gen_weighted(c, r, wuser, n);
    else if (!strcmp(profile, "fin") || !strcmp(profile, "finc")) gen_weighted(c, r, wfin, n);
    else if (!strcmp(profile, "tag")) gen_weighted(c, r, wtag, n);
    else if (!strcmp(profile, "ext")) gen_weighted(c, r, wext, n);
    else if (!strcmp(profile, "jit")) gen_weighted(c, r, wjit, n);
    else if (!strcmp(profile, "fresh")) gen_weighted(c, r, wfresh, n);
    else if (!strcmp(profile, "oom")) {
        gen_weighted(c, r, woom, n);
        if (pbt_chance(r, 1, 3)) add_rnd(c, r, O_TOOBIG);
    }
    else if (!strcmp(profile, "pools")) gen_weighted(c, r, wpools, n);
    else if (!strcmp(profile, "debug")) {
        gen_weighted(c, r, wdebug, n);
        if (pbt_chance(r, 1, 2)) add_rnd(c, r, O_CORRUPT);
    } else if (!strcmp(profile, "plateau")) {
        gen_weighted(c, r, wgraph, n / 4);
        add_rnd(c, r, O_PLATEAU);
        c->op[c->n - 1].a %= 9;
    } else if (!strcmp(profile, "finplateau")) {
        gen_weighted(c, r, wfin, n / 4);
        pbt_add(c, O_PLATEAU, 7, pbt_below(r, 100), 0, 0);
    } else if (!strcmp(profile, "digest")) gen_weighted(c, r, wdigest, n);
    else { fprintf(stderr, "unknown profile %s\n", profile); exit(2); }
}

int pbt_nontrivial(const PbtShared *s, const char *profile) {
    int base = s->ctr[C_MOVED] + s->ctr[C_REUSED] > 0 && s->ctr[C_OBJCHK] >= 20;
    if (!strcmp(profile, "plateau") || !strcmp(profile, "finplateau")) return s->ctr[C_PLATEAU] > 0;
    if (!strcmp(profile, "oom")) return s->ctr[C_REFUSED] + s->ctr[C_SMALL] + s->ctr[C_TOOBIG] > 0 && base;
    if (!strcmp(profile, "fin")) return s->ctr[C_FINREG] > 0 && base && s->ctr[C_MOVED] + s->ctr[C_COLLECT] > 0;
    if (!strcmp(profile, "finc")) return s->ctr[C_FINRUN] > 0 && base;
    if (!strcmp(profile, "tag")) return s->ctr[C_TAGGED] > 0 && base;
    if (!strcmp(profile, "ext")) return s->ctr[C_DESCS] > 0 && base;
    if (!strcmp(profile, "jit")) return s->ctr[C_JIT] > 0 && base;
    if (!strcmp(profile, "user")) return s->ctr[C_WUP] > 0 && base;
    if (!strcmp(profile, "layout")) return s->ctr[C_DECOYS] > 0 && base;
    if (!strcmp(profile, "barrier")) return s->ctr[C_STORES] > 3 && base;
    if (!strcmp(profile, "roots")) return s->ctr[C_FRAMES] > 1 && base;
    if (!strcmp(profile, "pools")) return s->ctr[C_OWN] > 0 && s->ctr[C_OBJCHK] > 20;
    return base;
}

int main(int argc, char **argv) { return pbt_main(argc, argv); }
