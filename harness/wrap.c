#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "wrap.h"

#ifndef AR_AREA
#define AR_AREA ((size_t) 1 << 24)
#endif
size_t ar_area = AR_AREA;
long ar_granted, ar_refused, ar_budget = -1, ar_small = -1, ar_small_refused;
long ar_blocks;
volatile int *ar_expect;
volatile uint64_t *ar_small_refusals;
int ar_policy;
volatile uint64_t *ar_refusals;

#ifndef AR_OFF
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
void *__real_calloc(size_t, size_t);
void *__real_memalign(size_t, size_t);
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__real_sbrk(intptr_t);
int __real_munmap(void *, size_t);

void *ar_real_malloc(size_t n) { return __real_malloc(n); }
void ar_real_free(void *p) { __real_free(p); }

#define ARENA_BYTES ((size_t) 1 << 36)
static unsigned char *arena, *lo, *hi;
/* one area at a time may be taken by several threads */
static volatile int lock;

static void take(void) { while (__sync_lock_test_and_set(&lock, 1)) {} }
static void drop(void) { __sync_lock_release(&lock); }

/* what the system actually gave to the library */
#define MAXRANGE 65536
static struct { uintptr_t lo, hi; } range[MAXRANGE];
static int nrange;
static unsigned ngrants;

static void granted(void *p, size_t n) {
    take();
    if (nrange < MAXRANGE) { range[nrange].lo = (uintptr_t) p; range[nrange].hi = (uintptr_t) p + n; nrange++; }
    drop();
}

/* is [a, b) partly but not wholly inside granted memory? */
int ar_partial(uintptr_t a, uintptr_t b) {
    uintptr_t at = a;
    int i, any = 0, more = 1;
    if (nrange == MAXRANGE) return 0;
    while (more && at < b) {
        more = 0;
        for (i = 0; i < nrange; i++)
            if (range[i].lo <= at && at < range[i].hi) { at = range[i].hi; more = any = 1; }
    }
    if (at >= b) return 0;
    if (any) return 1;
    for (i = 0; i < nrange; i++) if (range[i].lo < b && a < range[i].hi) return 1;
    return 0;
}

static int in_range(uintptr_t a) {
    int i;
    for (i = 0; i < nrange; i++) if (range[i].lo <= a && a < range[i].hi) return 1;
    return 0;
}

/* pages mapped by the library, as disjoint ranges */
static struct { uintptr_t lo, hi; } map[MAXRANGE];
static int nmap, mapfull;

static int unmapped(uintptr_t a, size_t n) {
    size_t left;
    int i;
    n = (n + 4095) & ~(size_t) 4095;
    left = n;
    take();
    for (i = nmap - 1; i >= 0 && left; i--) {
        uintptr_t l = map[i].lo, h = map[i].hi, cl = l > a ? l : a, ch = h < a + n ? h : a + n;
        if (cl >= ch) continue;
        left -= ch - cl;
        if (l < cl && ch < h) {
            map[i].hi = cl;
            if (nmap < MAXRANGE) { map[nmap].lo = ch; map[nmap].hi = h; nmap++; } else mapfull = 1;
        } else if (l < cl) map[i].hi = cl;
        else if (ch < h) map[i].lo = ch;
        else map[i] = map[--nmap];
    }
    drop();
    return !left || mapfull;
}

static void mapped(uintptr_t a, size_t n) {
    n = (n + 4095) & ~(size_t) 4095;
    unmapped(a, n); /* a fixed mapping replaces what was there */
    take();
    if (nmap < MAXRANGE) { map[nmap].lo = a; map[nmap].hi = a + n; nmap++; }
    else mapfull = 1;
    drop();
}

static int permit_small(void) {
    if (ar_small < 0) return 1;
    if (ar_small-- > 0) return 1;
    ar_small_refused++;
    if (ar_small_refusals) ++*ar_small_refusals;
    if (ar_expect && *ar_expect < 2) *ar_expect = 4;
    errno = ENOMEM;
    return 0;
}

static int permit(size_t areas) {
    int ok = 1;
    if (ar_budget >= 0) {
        if ((long) areas > ar_budget) ok = 0;
        else ar_budget -= (long) areas;
    }
    if (ok) ar_granted += (long) areas; else { ar_refused++; if (ar_refusals) ++*ar_refusals; }
    return ok;
}

static void *arena_get(size_t size, size_t align, size_t off) {
    unsigned char *p;
    size_t page = 4096, sz = (size + off + page - 1) & ~(page - 1);
    take();
    if (!arena) {
        unsigned char *a = (unsigned char *) __real_mmap((void *) 0x200000000000, ARENA_BYTES, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        if (a == MAP_FAILED) { drop(); return NULL; }
        arena = a;
        lo = (unsigned char *) (((uintptr_t) a + ((size_t) 1 << 30) - 1) & ~(((uintptr_t) 1 << 30) - 1));
        hi = a + ARENA_BYTES;
    }
    if (ar_policy & 2) {
        p = (unsigned char *) (((uintptr_t) hi - sz) & ~((uintptr_t) align - 1));
        if (!(ar_policy & 1)) p -= align;
        hi = p;
    } else {
        p = (unsigned char *) (((uintptr_t) lo + align - 1) & ~((uintptr_t) align - 1));
        lo = p + sz;
        if (!(ar_policy & 1)) lo += page;
    }
    drop();
    if (lo > hi) return NULL;
    if (mprotect(p, sz, PROT_READ|PROT_WRITE)) return NULL;
    if (!(ar_policy & 4)) {
        /* memory from the system may hold anything */
        size_t dirty = sz > 65536 ? 65536 : sz;
        memset(p, 0xA7, dirty);
        if (sz > dirty) memset(p + sz - 4096, 0xA7, 4096);
    }
    return p + off;
}

int __wrap_posix_memalign(void **r, size_t align, size_t size) {
    void *p;
    if (size < ar_area || align < 4096) {
        int e = __real_posix_memalign(r, align, size);
        if (!e) __sync_add_and_fetch(&ar_blocks, 1);
        return e;
    }
    if (!permit(size / ar_area)) return ENOMEM;
    p = arena_get(size, align, 0);
    if (!p) return ENOMEM;
    granted(p, size);
    *r = p;
    return 0;
}
void *__wrap_aligned_alloc(size_t align, size_t size) {
    void *p;
    if (size < ar_area || align < 4096) {
        p = __real_aligned_alloc(align, size);
        if (p) __sync_add_and_fetch(&ar_blocks, 1);
        return p;
    }
    if (!permit(size / ar_area)) { errno = ENOMEM; return NULL; }
    p = arena_get(size, align, 0);
    if (!p) errno = ENOMEM; else granted(p, size);
    return p;
}
void *__wrap_malloc(size_t size) {
    void *p;
    size_t off;
    if (size < ar_area || size % ar_area) {
        if (size < ar_area && !permit_small()) return NULL;
        p = __real_malloc(size);
        if (p) __sync_add_and_fetch(&ar_blocks, 1);
        if (p && size >= ar_area) granted(p, size);
        return p;
    }
    if (!permit(size / ar_area)) { errno = ENOMEM; return NULL; }
    /* what malloc returns is aligned for any type and no further */
    off = __sync_add_and_fetch(&ngrants, 1);
    off = off % 3 == 1 ? 4080 : off % 7 == 0 ? 0 : 16 * (off * 2654435761u % 255 + 1) % 4096;
    p = arena_get(size, 4096, off);
    if (!p) errno = ENOMEM; else granted(p, size);
    return p;
}
void __wrap_free(void *p) {
    if (arena && (unsigned char *) p >= arena && (unsigned char *) p < arena + ARENA_BYTES) return;
    if (p) __sync_sub_and_fetch(&ar_blocks, 1);
    __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
    void *r;
    if (!(arena && (unsigned char *) p >= arena && (unsigned char *) p < arena + ARENA_BYTES)) {
        if (!permit_small()) return NULL;
        r = __real_realloc(p, n);
        if (!p && r) __sync_add_and_fetch(&ar_blocks, 1);
        return r;
    }
    r = __wrap_malloc(n);
    if (r) {
        size_t left = (size_t) (arena + ARENA_BYTES - (unsigned char *) p), i;
        for (i = 0; i < n && i < left; i += 4096 - ((uintptr_t) p + i) % 4096) { /* as far as it goes */
            size_t c = 4096 - ((uintptr_t) p + i) % 4096;
            if (!in_range((uintptr_t) p + i)) break;
            memcpy((char *) r + i, (char *) p + i, c < n - i ? c : n - i);
        }
    }
    return r;
}
void *__wrap_calloc(size_t a, size_t b) {
    void *r;
    if (b && a > (size_t) -1 / b) { errno = ENOMEM; return NULL; }
    if (a * b >= ar_area && (a * b) % ar_area == 0 && !permit(a * b / ar_area)) { errno = ENOMEM; return NULL; }
    if (a * b < ar_area && !permit_small()) return NULL;
    r = __real_calloc(a, b);
    if (r) __sync_add_and_fetch(&ar_blocks, 1);
    if (r && a * b >= ar_area) granted(r, a * b);
    return r;
}
void *__wrap_memalign(size_t align, size_t size) {
    if (size < ar_area || align < 4096) {
        void *p = __real_memalign(align, size);
        if (p) __sync_add_and_fetch(&ar_blocks, 1);
        return p;
    }
    return __wrap_aligned_alloc(align, size);
}
void *__wrap_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    if (fd == -1 && len >= ar_area && prot == (PROT_READ|PROT_WRITE)) {
        size_t areas = len / ar_area;
        if (areas > 1) areas = areas / 2; /* over-asked for alignment */
        if (!permit(areas)) { errno = ENOMEM; return MAP_FAILED; }
    }
    {
        void *r = __real_mmap(addr, len, prot, flags, fd, off);
        if (fd == -1 && len >= ar_area && r != MAP_FAILED) granted(r, len);
        if (r != MAP_FAILED) mapped((uintptr_t) r, len);
        return r;
    }
}
/* only what was mapped by the library and is still there may be unmapped by it */
int __wrap_munmap(void *addr, size_t len) {
    if (len && !unmapped((uintptr_t) addr, len)) {
        static const char m[] = "the library unmaps memory that it did not map\n";
        if (write(2, m, sizeof m - 1)) {}
        __builtin_trap();
    }
    return __real_munmap(addr, len);
}
void *__wrap_sbrk(intptr_t inc) {
    if (inc >= (intptr_t) ar_area) {
        if (!permit((size_t) inc / ar_area)) { errno = ENOMEM; return (void *) -1; }
    }
    {
        void *r = __real_sbrk(inc);
        if (inc > 0 && r != (void *) -1) granted(r, (size_t) inc);
        return r;
    }
}
#else
void *ar_real_malloc(size_t n) { return malloc(n); }
void ar_real_free(void *p) { free(p); }
int ar_partial(uintptr_t a, uintptr_t b) { (void) a; (void) b; return 0; }
#endif
