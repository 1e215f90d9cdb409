/* Model-based engine for the collections: lists against sequences, maps
 * against finite maps, boxed units against plain arrays. Every allocation the
 * library makes passes through a stand-in that may churn or collect first
 * (any allocation may collect), as the case decides. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include "pbt.h"
#include "ggggc/gc.h"
#include "ggggc/collections/list.h"
#include "ggggc/collections/map.h"
#include "ggggc/collections/unit.h"

GGC_TYPE(Elem)
    GGC_MDATA(ggc_size_t, id);
    GGC_MPTR(Elem, mate);
    GGC_MDATA(ggc_size_t, chk);
GGC_END_TYPE(Elem,
    GGC_PTR(Elem, mate)
    )
GGC_LIST(Elem)

typedef struct { int a, b, c; } Trip;
typedef struct { unsigned char x[5]; } Five;
GGC_DA_TYPE(Trip)
GGC_DA_TYPE(Five)
#define UTYPES(U) U(0, char) U(1, short) U(2, int) U(3, unsigned) U(4, long) U(5, float) U(6, double) U(7, size_t) U(8, Trip) U(9, Five)
#define DEF(n, t) GGC_UNIT(t)
UTYPES(DEF)
#define NUT 10

enum { O_CFG, O_LNEW, O_LPUSH, O_LUNSHIFT, O_LSHIFT, O_LPUSHL, O_LUNSHIFTL, O_LINS, O_LINSL, O_LTOARR, O_LHOLD, O_LINSHELD, O_LINSLHELD, O_REG, O_LDROPREG,
       O_MNEW, O_MPUT, O_MGET, O_MCLONE, O_MALL, O_UNIT, O_CHURN, O_COLLECT, O_VERIFY, NOPS };
const char *const pbt_opname[] = { "CFG", "LNEW", "LPUSH", "LUNSHIFT", "LSHIFT", "LPUSHL", "LUNSHIFTL", "LINS", "LINSL", "LTOARR", "LHOLD", "LINSHELD", "LINSLHELD", "REG", "DROPREG",
       "MNEW", "MPUT", "MGET", "MCLONE", "MALL", "UNIT", "CHURN", "COLLECT", "VERIFY" };
const int pbt_nop = NOPS;
enum { C_LOPS, C_JOINS, C_ELEMCHK, C_MPUT, C_MGET, C_HITS, C_MISSES, C_GROWN, C_CLONES, C_UNITS, C_UNITEL, C_COLLATALLOC, C_CHURNATALLOC, C_MAXLEN, C_MAXMAP };
const char *const pbt_ctrname[] = { "list_operations", "list_joins", "elements_compared", "puts", "gets", "gets_found", "gets_absent", "maps_with_over_8_keys",
    "clones", "unboxings", "unboxed_elements", "collections_at_allocations", "churn_at_allocations", "max_list_length", "max_map_keys", NULL };
#define CTR(c) (pbt_sh->ctr[c]++)
int pbt_cpu_limit = 30;

static ggc_size_t hashw(ggc_size_t a, ggc_size_t b) { return (ggc_size_t) pbt_mix((uint64_t) a * 1000003u + b); }
static int isDigest;

/* ------------------------------------------------ collections at allocations */
static int policy, period = 1, inwrap, big, bulk; /* bulk: many operations in one go; collect at fewer of them */
static unsigned allocno, policySeed;
static void churn(unsigned n) {
    unsigned i;
    Elem e = NULL;
    GGC_PUSH_1(e);
    inwrap++;
    for (i = 0; i < n; i++) { ggc_size_t bad = (ggc_size_t) -1; e = GGC_NEW(Elem); GGC_WD(e, id, bad); GGC_WD(e, chk, bad); }
    inwrap--;
    return;
}
static void at_alloc(void) {
    unsigned h;
    if (inwrap || !policy) return;
    h = (unsigned) hashw(policySeed, allocno++);
    if (h % ((unsigned) period * (bulk ? 1999 : big ? 97 : 1))) return;
    inwrap++;
    if (policy == 1 || (policy == 3 && (h >> 16) % 2)) { CTR(C_CHURNATALLOC); churn((h >> 20) % 200); }
    else { CTR(C_COLLATALLOC); GGC_COLLECT(); }
    inwrap--;
}
#ifdef __cplusplus
extern "C" {
#endif
void *__real_ggggc_malloc(struct GGGGC_Descriptor *d);
void *__real_ggggc_mallocPointerArray(ggc_size_t n);
void *__real_ggggc_mallocDataArray(ggc_size_t n, ggc_size_t s);
void *__wrap_ggggc_malloc(struct GGGGC_Descriptor *d) {
    if (!inwrap && policy) { GGC_PUSH_1(d); at_alloc(); GGC_POP(); }
    return __real_ggggc_malloc(d);
}
void *__real_ggggc_mallocSlot(struct GGGGC_DescriptorSlot *slot);
void *__wrap_ggggc_mallocSlot(struct GGGGC_DescriptorSlot *slot) { at_alloc(); return __real_ggggc_mallocSlot(slot); }
void *__wrap_ggggc_mallocPointerArray(ggc_size_t n) { at_alloc(); return __real_ggggc_mallocPointerArray(n); }
void *__wrap_ggggc_mallocDataArray(ggc_size_t n, ggc_size_t s) { at_alloc(); return __real_ggggc_mallocDataArray(n, s); }
#ifdef __cplusplus
}
#endif

/* ------------------------------------------------------------------- state */
#define NL 5
#define NM 4
#define NA 3
#define NR 6
#define NH 3
static GGC_List L[NL];
static GGC_Map M[NM];
static GGC_voidpArray A[NA];
static Elem R[NR];
static GGC_ListNode H[NH];

#define MAXLEN 70000
typedef struct { int el; int node; } Item;
typedef struct { Item *it; int n; } Seq;
static Seq sl[NL], sa[NA];
static int sr[NR], sh[NH]; /* element id or -1; node id or -1 */
static int nextel, nextnode;
#define MAXEL (1 << 18)
static void *elptr[MAXEL]; static int elep[MAXEL], epoch;

#define KMAX 70000
static int keymax = KMAX;
typedef struct { int val[KMAX]; /* -2 absent, -1 NULL, else element id */ int hk, used; } MMap;
static MMap mm[NM];

static void mate_of(Elem e, ggc_size_t id) {
    Elem m = NULL;
    ggc_size_t v;
    GGC_PUSH_2(e, m);
    m = GGC_NEW(Elem);
    v = id ^ 0x5555; GGC_WD(m, id, v);
    v = hashw(id, 2); GGC_WD(m, chk, v);
    GGC_WP(e, mate, m);
    return;
}
static Elem new_elem(int *idp) {
    Elem e = NULL;
    ggc_size_t v;
    int id;
    GGC_PUSH_1(e);
    if (nextel >= MAXEL - 2) pbt_done();
    id = nextel++;
    e = GGC_NEW(Elem);
    v = (ggc_size_t) id; GGC_WD(e, id, v);
    v = hashw((ggc_size_t) id, 1); GGC_WD(e, chk, v);
    if (id % 3 == 0) mate_of(e, (ggc_size_t) id);
    *idp = id;
    return e;
}
static void check_elem(const char *what, int where, int i, void *p, int id) {
    Elem e = (Elem) p;
    CTR(C_ELEMCHK);
    if (id < 0) { if (p) pbt_fail("%s %d[%d]: expected NULL, found %p", what, where, i, p); return; }
    if (!p) pbt_fail("%s %d[%d]: expected element %d, found NULL", what, where, i, id);
    if (GGC_RD(e, id) != (ggc_size_t) id || GGC_RD(e, chk) != hashw((ggc_size_t) id, 1))
        pbt_fail("%s %d[%d]: expected element %d, found an object holding %lx/%lx", what, where, i, id, (unsigned long) GGC_RD(e, id), (unsigned long) GGC_RD(e, chk));
    if (id % 3 == 0) {
        Elem m = GGC_RP(e, mate);
        if (!m || GGC_RD(m, id) != ((ggc_size_t) id ^ 0x5555) || GGC_RD(m, chk) != hashw((ggc_size_t) id, 2))
            pbt_fail("%s %d[%d]: what element %d refers to is damaged", what, where, i, id);
    } else if (GGC_RP(e, mate)) pbt_fail("%s %d[%d]: element %d has an unexpected reference", what, where, i, id);
    if (elep[id] == epoch && elptr[id] != p) pbt_fail("%s %d[%d]: element %d exists twice", what, where, i, id);
    elep[id] = epoch; elptr[id] = p;
}

/* --------------------------------------------------------------------- lists */
static void seq_ins(Seq *s, int at, int el, int node) {
    if (s->n >= MAXLEN) pbt_done();
    memmove(&s->it[at + 1], &s->it[at], sizeof(Item) * (size_t) (s->n - at));
    s->it[at].el = el; s->it[at].node = node;
    s->n++;
}
static void seq_join(Seq *to, int at, Seq *from) {
    if (to->n + from->n > MAXLEN) pbt_done();
    memmove(&to->it[at + from->n], &to->it[at], sizeof(Item) * (size_t) (to->n - at));
    memcpy(&to->it[at], from->it, sizeof(Item) * (size_t) from->n);
    to->n += from->n;
    from->n = 0;
}
static GGC_ListNode node_at(int l, int i) {
    GGC_ListNode n = GGC_RP(L[l], head);
    while (i-- && n) n = GGC_RP(n, next);
    if (!n) pbt_fail("list %d ends early", l);
    return n;
}
static void check_list(int l) {
    GGC_ListNode n, last = NULL;
    int i;
    if (GGC_RD(L[l], length) != (ggc_size_t) sl[l].n) pbt_fail("list %d: length reads %lu, expected %d", l, (unsigned long) GGC_RD(L[l], length), sl[l].n);
    n = GGC_RP(L[l], head);
    for (i = 0; i < sl[l].n; i++) {
        int h;
        if (!n) pbt_fail("list %d: ends after %d of %d elements", l, i, sl[l].n);
        check_elem("list", l, i, GGC_RP(n, el), sl[l].it[i].el);
        for (h = 0; h < NH; h++)
            if (sh[h] >= 0 && sh[h] == sl[l].it[i].node && H[h] != n) pbt_fail("list %d: node %d is not the one held", l, i);
        last = n;
        n = GGC_RP(n, next);
    }
    if (n) pbt_fail("list %d: has more than %d elements", l, sl[l].n);
    if (GGC_RP(L[l], tail) != last) pbt_fail("list %d: tail is not the last node", l);
    if ((int) pbt_sh->ctr[C_MAXLEN] < sl[l].n) pbt_sh->ctr[C_MAXLEN] = (uint64_t) sl[l].n;
    if (isDigest) { pbt_digest((uint64_t) sl[l].n); for (i = 0; i < sl[l].n; i++) pbt_digest((uint64_t) sl[l].it[i].el); }
}
static int find_node(int node, int *pos) {
    int l, i;
    for (l = 0; l < NL; l++) for (i = 0; i < sl[l].n; i++) if (sl[l].it[i].node == node) { *pos = i; return l; }
    return -1;
}

/* ---------------------------------------------------------------------- maps */
GGC_TYPE(Key)
    GGC_MDATA(ggc_size_t, k);
    GGC_MDATA(ggc_size_t, magic);
GGC_END_TYPE(Key, GGC_NO_PTRS)
#define NHK 7
/* keys k and k^1 of hash kinds 5 and 6 are equal: comparison is coarser than identity */
static ggc_size_t kread(void *v) {
    Key k = (Key) v;
    if (!v) pbt_fail("the map asks to hash or compare NULL");
    if (GGC_RD(k, magic) != 0x1234567) pbt_fail("the map hands something other than a key to hash or comparison");
    return GGC_RD(k, k);
}
static size_t h0(Key k) { return (size_t) hashw(kread(k), 9); }
static size_t h1(Key k) { return (size_t) kread(k); }
static size_t h2(Key k) { return (size_t) kread(k) % 3; }
static size_t h3(Key k) { (void) kread(k); return 7; }
static size_t h4(Key k) { return (size_t) kread(k) << 61 | kread(k) << 6; }
static size_t h5(Key k) { return (size_t) hashw(kread(k) / 2, 11); }
static size_t h6(Key k) { return (size_t) -1 - kread(k) / 2; }
static int c0(Key a, Key b) { ggc_size_t x = kread(a), y = kread(b); return x == y ? 0 : x < y ? -1 : 1; }
static int c1(Key a, Key b) { ggc_size_t x = kread(a), y = kread(b); return (int) x - (int) y; }
static int c2(Key a, Key b) { return kread(a) != kread(b); }
static int c3(Key a, Key b) { ggc_size_t x = kread(a), y = kread(b); return x == y ? 0 : x < y ? INT_MIN : INT_MAX; }
static int c5(Key a, Key b) { ggc_size_t x = kread(a) / 2, y = kread(b) / 2; return x == y ? 0 : x < y ? -2 : 256; }
GGC_MAP(Map0, Key, Elem, h0, c0)
GGC_MAP(Map1, Key, Elem, h1, c1)
GGC_MAP(Map2, Key, Elem, h2, c2)
GGC_MAP(Map3, Key, Elem, h3, c0)
GGC_MAP(Map4, Key, Elem, h4, c3)
GGC_MAP(Map5, Key, Elem, h5, c5)
GGC_MAP(Map6, Key, Elem, h6, c5)
#define MAPS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6)
static GGC_Map m_new(int hk) {
#define X(n) case n: return (GGC_Map) GGC_NEW(Map ## n);
    switch (hk) { MAPS(X) }
#undef X
    return NULL;
}
static void m_put(int m, Key k, Elem v) {
#define X(n) case n: Map ## n ## Put((Map ## n) M[m], k, v); break;
    switch (mm[m].hk) { MAPS(X) }
#undef X
}
static int m_get(int m, Key k, Elem *v) {
#define X(n) case n: return Map ## n ## Get((Map ## n) M[m], k, v);
    switch (mm[m].hk) { MAPS(X) }
#undef X
    return -1;
}
static GGC_Map m_clone(int m) {
#define X(n) case n: return (GGC_Map) Map ## n ## Clone((Map ## n) M[m]);
    switch (mm[m].hk) { MAPS(X) }
#undef X
    return NULL;
}
static int canon(int m, int k) { return mm[m].hk >= 5 ? k & ~1 : k; }
static Key new_key(int k) {
    Key key = GGC_NEW(Key);
    ggc_size_t v = (ggc_size_t) k;
    GGC_WD(key, k, v);
    v = 0x1234567; GGC_WD(key, magic, v);
    return key;
}
static void do_get(int m, int k) {
    Key key = NULL;
    Elem v = NULL;
    int r, want = mm[m].val[canon(m, k)];
    GGC_PUSH_2(key, v);
    key = new_key(k);
    if (k & 1) { int id; v = new_elem(&id); }
    r = m_get(m, key, &v);
    CTR(C_MGET);
    if (want == -2) { CTR(C_MISSES); if (r) pbt_fail("map %d: key %d is reported present, but was never put", m, k); }
    else {
        CTR(C_HITS);
        if (!r) pbt_fail("map %d: key %d is reported absent", m, k);
        epoch++;
        check_elem("map", m, k, (void *) v, want);
    }
    if (kread(key) != (ggc_size_t) k) pbt_fail("key %d changed", k);
    return;
}
static void check_map(int m) {
    int k;
    bulk = keymax > 700;
    for (k = 0; k < keymax; k += (k > 4000 ? 211 : k > 700 ? 37 : k > 64 ? 5 : 1)) do_get(m, k);
    bulk = 0;
}

/* --------------------------------------------------------------------- units */
#define CHKLEN(t) \
    if (ua->length != n) pbt_fail("unit array of " #t ": length became %lu, expected %lu", (unsigned long) ua->length, (unsigned long) n); \
    if (da->length != n) pbt_fail("unboxed array of " #t ": length %lu, expected %lu", (unsigned long) da->length, (unsigned long) n);
#define UNITFN(num, t) \
static void val_ ## num(t *v, ggc_size_t seed, ggc_size_t i) { \
    unsigned char b[sizeof(t)]; size_t j; \
    for (j = 0; j < sizeof(t); j++) b[j] = (unsigned char) (hashw(seed, i) >> (j % 8 * 8)) ^ (unsigned char) j; \
    if (num == 5) b[3] &= 0x3F; \
    if (num == 6) b[7] &= 0x3F; \
    memcpy(v, b, sizeof(t)); \
} \
static void unit_ ## num(ggc_size_t n, ggc_size_t seed, int share) { \
    GGC_ ## t ## _UnitArray ua = NULL; \
    GGC_ ## t ## _Unit u = NULL; \
    GGC_ ## t ## _Array da = NULL; \
    ggc_size_t i; t v, w; \
    GGC_PUSH_3(ua, u, da); \
    ua = GGC_NEW_PA(GGC_ ## t ## _Unit, n); \
    memset(&v, 0, sizeof(v)); memset(&w, 0, sizeof(w)); \
    for (i = 0; i < n; i++) { \
        if (share && i && hashw(seed, i) % 3 == 0) u = GGC_RAP(ua, i - 1); \
        else { u = GGC_NEW(GGC_ ## t ## _Unit); val_ ## num(&v, seed, i); GGC_WD(u, v, v); w = GGC_RD(u, v); if (memcmp(&v, &w, sizeof(v))) pbt_fail("boxed " #t " reads back differently"); } \
        GGC_WAP(ua, i, u); \
    } \
    u = NULL; \
    if (seed & 1) { inwrap++; churn((unsigned) (seed >> 4) % 400); inwrap--; } \
    da = GGC_ ## t ## _UnitArrayDeunit(ua); \
    CTR(C_UNITS); \
    { CHKLEN(t) } \
    if (seed & 2) GGC_COLLECT(); \
    { CHKLEN(t) } \
    for (i = 0; i < n; i++) { \
        ggc_size_t j = i; \
        while (share && j && hashw(seed, j) % 3 == 0) j--; \
        val_ ## num(&v, seed, j); \
        w = GGC_RAD(da, i); \
        if (memcmp(&v, &w, sizeof(v))) pbt_fail("unboxed array of " #t ": element %lu differs", (unsigned long) i); \
        u = GGC_RAP(ua, i); \
        w = GGC_RD(u, v); \
        if (memcmp(&v, &w, sizeof(v))) pbt_fail("box %lu of " #t " changed", (unsigned long) i); \
        if (j != i && GGC_RAP(ua, i) != GGC_RAP(ua, j)) pbt_fail("shared box %lu is no longer shared", (unsigned long) i); \
        CTR(C_UNITEL); \
    } \
    return; \
}
UTYPES(UNITFN)
static void do_unit(unsigned t, ggc_size_t n, ggc_size_t seed, int share) {
#define X(num, ty) case num: unit_ ## num(n, seed, share); break;
    switch (t % NUT) { UTYPES(X) }
#undef X
}

/* ------------------------------------------------------------------ executor */
static void verify(int maps) {
    int i, j;
    int p = policy;
    policy = 0;
    epoch++;
    for (i = 0; i < NL; i++) check_list(i);
    for (i = 0; i < NA; i++) {
        if (!A[i]) { if (sa[i].n >= 0) pbt_fail("array %d vanished", i); continue; }
        if (A[i]->length != (ggc_size_t) sa[i].n) pbt_fail("array of list: length %lu, expected %d", (unsigned long) A[i]->length, sa[i].n);
        for (j = 0; j < sa[i].n; j++) check_elem("array of list", i, j, GGC_RAP(A[i], j), sa[i].it[j].el);
    }
    for (i = 0; i < NR; i++) check_elem("register", i, 0, (void *) R[i], sr[i]);
    if (maps) for (i = 0; i < NM; i++) check_map(i);
    policy = p;
}

static Elem pick(uint32_t b, uint32_t c, int *id) {
    /* NULL, an element held in a register, or a fresh one */
    if (b % 8 == 0) { *id = -1; return NULL; }
    if (b % 8 < 3) { *id = sr[c % NR]; return R[c % NR]; }
    return new_elem(id);
}

static void step(const PbtOp *o) {
    Elem e = NULL;
    GGC_ListNode n = NULL;
    int l = (int) (o->a % NL), f = (int) (o->b % NL), id = -1, pos;
    GGC_PUSH_2(e, n);
    if (f == l) f = (l + 1) % NL;
    for (big = 0, pos = 0; pos < NM; pos++) if (mm[pos].used > 700) big = 1;
    switch (o->k) {
        case O_LNEW:
            L[l] = o->b & 1 ? GGC_NEW(GGC_List) : (GGC_List) GGC_NEW(ElemList);
            sl[l].n = 0;
            break;
        case O_LPUSH:
            e = pick(o->b, o->c, &id);
            if (o->d & 1) GGC_ListPush(L[l], (void *) e); else ElemListPush((ElemList) L[l], e);
            seq_ins(&sl[l], sl[l].n, id, nextnode++);
            CTR(C_LOPS);
            if (o->d % 256 == 254 && !isDigest) { /* a long list */
                int q = (int) (o->d / 256 % (GGGGC_POOL_SIZE > 14 ? 3000 : 400));
                if (GGGGC_POOL_SIZE > 20 && o->d / 256 % 16 == 15) q = 65000 + q % 1000; /* lengths of more than two bytes */
                bulk = 1;
                while (q-- && sl[l].n < MAXLEN) {
                    e = pick(o->b + (unsigned) q, o->c + (unsigned) q, &id);
                    GGC_ListPush(L[l], (void *) e);
                    seq_ins(&sl[l], sl[l].n, id, nextnode++);
                }
                bulk = 0;
            }
            break;
        case O_LUNSHIFT:
            e = pick(o->b, o->c, &id);
            if (o->d & 1) GGC_ListUnshift(L[l], (void *) e); else ElemListUnshift((ElemList) L[l], e);
            seq_ins(&sl[l], 0, id, nextnode++);
            CTR(C_LOPS);
            break;
        case O_LSHIFT:
            e = o->d & 1 ? (Elem) GGC_ListShift(L[l]) : ElemListShift((ElemList) L[l]);
            epoch++;
            if (!sl[l].n) { if (e) pbt_fail("shift of an empty list returned %p", (void *) e); break; }
            check_elem("shifted from list", l, 0, (void *) e, sl[l].it[0].el);
            id = sl[l].it[0].el;
            sl[l].n--;
            memmove(&sl[l].it[0], &sl[l].it[1], sizeof(Item) * (size_t) sl[l].n);
            if (o->c & 1) { R[o->b % NR] = e; sr[o->b % NR] = id; }
            CTR(C_LOPS);
            break;
        case O_LPUSHL:
            if (o->d & 1) GGC_ListPushList(L[l], L[f]); else ElemListPushList((ElemList) L[l], (ElemList) L[f]);
            seq_join(&sl[l], sl[l].n, &sl[f]);
            CTR(C_JOINS);
            break;
        case O_LUNSHIFTL:
            if (o->d & 1) GGC_ListUnshiftList(L[l], L[f]); else ElemListUnshiftList((ElemList) L[l], (ElemList) L[f]);
            seq_join(&sl[l], 0, &sl[f]);
            CTR(C_JOINS);
            break;
        case O_LINS: case O_LINSHELD:
            if (o->k == O_LINSHELD) {
                int h = (int) (o->a % NH);
                if (sh[h] < 0) break;
                l = find_node(sh[h], &pos);
                if (l < 0) break;
                n = H[h];
            } else {
                if (!sl[l].n) break;
                pos = (int) (o->c % 4 == 0 ? sl[l].n - 1 : o->c % 4 == 1 ? 0 : o->c / 4 % (uint32_t) sl[l].n);
                n = node_at(l, pos);
            }
            e = pick(o->b, o->c, &id);
            if (o->d & 1) GGC_ListInsertAfter(L[l], n, (void *) e); else ElemListInsertAfter((ElemList) L[l], (ElemListNode) n, e);
            seq_ins(&sl[l], pos + 1, id, nextnode++);
            CTR(C_LOPS);
            break;
        case O_LINSL: case O_LINSLHELD:
            if (o->k == O_LINSLHELD) {
                int h = (int) (o->a % NH);
                if (sh[h] < 0) break;
                l = find_node(sh[h], &pos);
                if (l < 0) break;
                n = H[h];
                if (f == l) f = (l + 1) % NL;
            } else {
                if (!sl[l].n) break;
                pos = (int) (o->c % 4 == 0 ? sl[l].n - 1 : o->c % 4 == 1 ? 0 : o->c / 4 % (uint32_t) sl[l].n);
                n = node_at(l, pos);
            }
            if (o->d & 1) GGC_ListInsertAfterList(L[l], n, L[f]); else ElemListInsertAfterList((ElemList) L[l], (ElemListNode) n, (ElemList) L[f]);
            seq_join(&sl[l], pos + 1, &sl[f]);
            CTR(C_JOINS);
            break;
        case O_LTOARR: {
            int a = (int) (o->b % NA);
            if (sl[l].n > (int) (GGGGC_POOL_BYTES / sizeof(void *) / 2)) break;
            A[a] = o->d & 1 ? GGC_ListToArray(L[l]) : (GGC_voidpArray) ElemListToArray((ElemList) L[l]);
            if (!A[a]) pbt_fail("array of list %d is NULL", l);
            memcpy(sa[a].it, sl[l].it, sizeof(Item) * (size_t) sl[l].n);
            sa[a].n = sl[l].n;
            CTR(C_LOPS);
            break;
        }
        case O_LHOLD: {
            int h = (int) (o->b % NH);
            if (!sl[l].n) break;
            pos = (int) (o->c % (uint32_t) sl[l].n);
            H[h] = node_at(l, pos);
            sh[h] = sl[l].it[pos].node;
            break;
        }
        case O_REG:
            if (o->b & 1) { e = new_elem(&id); R[o->a % NR] = e; sr[o->a % NR] = id; }
            else if (sl[f].n) { pos = (int) (o->c % (uint32_t) sl[f].n); n = node_at(f, pos); R[o->a % NR] = (Elem) GGC_RP(n, el); sr[o->a % NR] = sl[f].it[pos].el; }
            break;
        case O_LDROPREG: R[o->a % NR] = NULL; sr[o->a % NR] = -1; if (o->b & 1) { H[o->a % NH] = NULL; sh[o->a % NH] = -1; } break;
        case O_MNEW: {
            int m = (int) (o->a % NM), k;
            mm[m].hk = (int) (o->b % NHK);
            M[m] = m_new(mm[m].hk);
            for (k = 0; k < KMAX; k++) mm[m].val[k] = -2;
            mm[m].used = 0;
            break;
        }
        case O_MPUT: {
            int m = (int) (o->a % NM), k, cnt = o->d % 4 == 0 ? (int) (o->d / 4 % 40) + 1 : 1;
            Key key = NULL;
            GGC_PUSH_1(key);
            if (o->d % 64 == 63 && keymax > 700) {
                cnt = (int) (o->d / 64 * 5 % (mm[m].hk == 2 || mm[m].hk == 3 ? 300u : (unsigned) keymax)) + 1;
                bulk = 1;
            }
            for (k = (int) (o->c % (uint32_t) keymax); cnt-- && k < keymax; k++) {
                if (!bulk || k % 5 == 0) e = pick(o->b + (unsigned) (bulk ? k : 0), o->c, &id);
                key = new_key(k);
                m_put(m, key, e);
                if (mm[m].val[canon(m, k)] == -2 && ++mm[m].used == 9) CTR(C_GROWN);
                mm[m].val[canon(m, k)] = id;
                CTR(C_MPUT);
                if ((int) pbt_sh->ctr[C_MAXMAP] < mm[m].used) pbt_sh->ctr[C_MAXMAP] = (uint64_t) mm[m].used;
                if (kread(key) != (ggc_size_t) k) pbt_fail("key %d changed", k);
            }
            bulk = 0;
            GGC_POP();
            break;
        }
        case O_MGET: do_get((int) (o->a % NM), (int) (o->b % (uint32_t) keymax)); break;
        case O_MCLONE: {
            int m = (int) (o->a % NM), to = (int) (o->b % NM);
            GGC_Map c;
            if (to == m) to = (m + 1) % NM;
            bulk = big;
            c = m_clone(m);
            bulk = 0;
            if (!c) pbt_fail("clone is NULL");
            if (c == M[m]) pbt_fail("clone is the map itself");
            M[to] = c;
            mm[to] = mm[m];
            CTR(C_CLONES);
            break;
        }
        case O_MALL: { int p = policy; if (o->b & 1) policy = 0; check_map((int) (o->a % NM)); policy = p; break; }
        case O_UNIT: {
            ggc_size_t n = o->b % 8 == 0 ? o->c % 3 : o->b % 8 < 6 ? o->c % 40 : o->c % (GGGGC_POOL_BYTES / sizeof(void *) / 3 > 6000 ? 6000 : GGGGC_POOL_BYTES / sizeof(void *) / 3);
            if (o->b % 8 == 7 && o->c % 16 == 15 && GGGGC_POOL_SIZE > 21) n = 65530 + o->c / 16 % 900;
            bulk = n > 600;
            do_unit(o->a, n, o->d, (int) (o->b >> 8 & 1));
            bulk = 0;
            break;
        }
        case O_CHURN: churn(o->a % 400); break;
        case O_COLLECT: GGC_COLLECT(); break;
        case O_VERIFY: verify(0); break;
    }
    return;
}

void pbt_exec(const PbtCase *c, const char *profile) {
    int i, k;
    isDigest = !strcmp(profile, "digest");
    keymax = (int) (GGGGC_POOL_BYTES / sizeof(void *) / 4);
    keymax -= 8;
    if (keymax > KMAX) keymax = KMAX;
    if (c->n && c->op[0].k == O_CFG && c->op[0].d) keymax = (int) (c->op[0].d % (uint32_t) keymax) + 1;
    if (strcmp(profile, "map") && keymax > 100) keymax = 100; /* the maps are not the point there */
    {
        GGC_PUSH_16(L[0], L[1], L[2], L[3], L[4], M[0], M[1], M[2], M[3], A[0], A[1], A[2], H[0], H[1], H[2], R[0]);
        {
            GGC_PUSH_5(R[1], R[2], R[3], R[4], R[5]);
            for (i = 0; i < NL; i++) { L[i] = GGC_NEW(GGC_List); sl[i].it = (Item *) calloc(MAXLEN + 1, sizeof(Item)); }
            for (i = 0; i < NA; i++) { sa[i].it = (Item *) calloc(MAXLEN + 1, sizeof(Item)); sa[i].n = -1; }
            for (i = 0; i < NM; i++) {
                mm[i].hk = i;
                if (c->n && c->op[0].k == O_CFG) mm[i].hk = (int) ((c->op[0].c >> (8 + 3 * i)) % NHK);
                M[i] = m_new(mm[i].hk);
                for (k = 0; k < KMAX; k++) mm[i].val[k] = -2;
            }
            for (i = 0; i < NR; i++) sr[i] = -1;
            for (i = 0; i < NH; i++) sh[i] = -1;
            epoch = 1;
            if (c->n && c->op[0].k == O_CFG && !isDigest) { policy = (int) (c->op[0].a % 4); period = (int) (c->op[0].b % 12) + 1; policySeed = c->op[0].c; }
            for (i = 0; i < c->n; i++) {
                const PbtOp *o = &c->op[i];
                pbt_sh->opi = i;
                step(o);
                if (!strcmp(profile, "list") && i % 4 == 3) verify(0);
            }
            pbt_sh->opi = c->n;
            policy = 0;
            verify(1);
            GGC_COLLECT();
            verify(1);
            _exit(0);
        }
    }
}

typedef struct { int k, w; } W;
static void add_rnd(PbtCase *c, PbtRng *r, int k) {
    uint32_t v[4];
    int i;
    for (i = 0; i < 4; i++) v[i] = pbt_below(r, 1u << 20);
    pbt_add(c, k, v[0], v[1], v[2], v[3]);
}
void pbt_gen(PbtCase *c, PbtRng *r, const char *profile) {
    static const W wl[] = { {O_LNEW,2},{O_LPUSH,24},{O_LUNSHIFT,16},{O_LSHIFT,18},{O_LPUSHL,8},{O_LUNSHIFTL,8},{O_LINS,16},{O_LINSL,8},{O_LTOARR,6},{O_LHOLD,5},{O_LINSHELD,6},{O_LINSLHELD,3},{O_REG,6},{O_LDROPREG,3},{O_CHURN,6},{O_COLLECT,2},{O_VERIFY,6},{0,0} };
    static const W wm[] = { {O_MNEW,2},{O_MPUT,40},{O_MGET,30},{O_MCLONE,6},{O_MALL,3},{O_REG,4},{O_LDROPREG,2},{O_CHURN,6},{O_COLLECT,2},{O_VERIFY,2},{O_LSHIFT,1},{0,0} };
    static const W wu[] = { {O_UNIT,30},{O_CHURN,6},{O_COLLECT,2},{O_LPUSH,4},{O_VERIFY,1},{0,0} };
    static const W wd[] = { {O_LPUSH,20},{O_LUNSHIFT,10},{O_LSHIFT,10},{O_LPUSHL,5},{O_LUNSHIFTL,5},{O_LINS,10},{O_LINSL,5},{O_LTOARR,4},{O_MPUT,20},{O_MGET,15},{O_MCLONE,3},{O_UNIT,3},{O_CHURN,6},{O_COLLECT,2},{O_VERIFY,4},{0,0} };
    const W *w = !strcmp(profile, "list") ? wl : !strcmp(profile, "map") ? wm : !strcmp(profile, "unit") ? wu : wd;
    int n = (int) pbt_range(r, 20, 200), i, tot = 0, q;
    if (pbt_chance(r, 1, 4)) n = (int) pbt_range(r, 3, 30);
    if (w == wu) n = n / 12 + 1;
    add_rnd(c, r, O_CFG);
    if (c->op[0].d % 3) c->op[0].d = c->op[0].d % 3 == 1 ? 1 + c->op[0].d / 3 % 30 : 0;
    for (q = 0; w[q].w; q++) tot += w[q].w;
    for (i = 0; i < n; i++) {
        int x = (int) pbt_below(r, (uint32_t) tot);
        for (q = 0; w[q].w; q++) { x -= w[q].w; if (x < 0) break; }
        add_rnd(c, r, w[q].k);
    }
}
int pbt_nontrivial(const PbtShared *s, const char *profile) {
    if (!strcmp(profile, "list")) return s->ctr[C_LOPS] >= 5 && s->ctr[C_JOINS] > 0 && s->ctr[C_MAXLEN] > 2;
    if (!strcmp(profile, "map")) return s->ctr[C_HITS] > 0 && s->ctr[C_MPUT] > 4;
    if (!strcmp(profile, "unit")) return s->ctr[C_UNITEL] > 10;
    return s->ctr[C_ELEMCHK] > 10;
}
int main(int argc, char **argv) { return pbt_main(argc, argv); }
