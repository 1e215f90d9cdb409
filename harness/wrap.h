/* Link-level control over where the library's memory areas come from: counts
 * them, places them (guard areas around, recycled-looking contents inside) and
 * refuses them on demand. Works on whatever calls reach the system allocator
 * with area-sized requests; nothing in the library is changed. */
#ifndef WRAP_H
#define WRAP_H 1
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
extern size_t ar_area;        /* size of the areas the library asks for */
extern long ar_granted;       /* areas granted so far (in units of ar_area) */
extern long ar_refused;       /* requests refused so far */
extern volatile uint64_t *ar_refusals; /* counted here too, if set */
extern long ar_blocks;        /* smaller blocks in use (allocated and not yet freed) */
extern long ar_small;         /* further requests smaller than an area that may be granted before one is refused; -1: no limit */
extern long ar_small_refused;
extern volatile uint64_t *ar_small_refusals; /* counted here too, if set */
extern volatile int *ar_expect; /* becomes 4 (from 0 or 1) when such a request is refused */
extern long ar_budget;        /* further areas that may be granted; -1: no limit */
extern int ar_policy;         /* bit 0: no guard gap (areas adjacent); bit 1: descending addresses; bit 2: zeroed instead of dirty */
int ar_partial(uintptr_t a, uintptr_t b); /* is [a, b) partly but not wholly in memory the system gave? */
void *ar_real_malloc(size_t n);
void ar_real_free(void *p);
#ifdef __cplusplus
}
#endif
#endif
