/* Property-based testing runtime: generation, isolated execution, shrinking,
 * replay. A case is a list of small integer operations which an engine
 * interprets modulo its current state, so that every sub-list of a case is
 * itself a valid case (which is what makes delta-debugging sound). */
#ifndef PBT_H
#define PBT_H 1

#include <stddef.h>
#include <stdint.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef struct { uint64_t s; } PbtRng;
uint64_t pbt_next(PbtRng *r);
uint32_t pbt_below(PbtRng *r, uint32_t n);            /* 0..n-1 */
uint32_t pbt_range(PbtRng *r, uint32_t lo, uint32_t hi); /* inclusive */
int pbt_chance(PbtRng *r, int num, int den);
uint64_t pbt_mix(uint64_t x);

typedef struct { uint16_t k; uint32_t a, b, c, d; } PbtOp;
typedef struct { PbtOp *op; int n, cap; } PbtCase;
void pbt_add(PbtCase *c, int k, uint32_t a, uint32_t b, uint32_t cc, uint32_t d);

#define PBT_NCTR 48
typedef struct {
    volatile int expect;      /* 0: must end normally; 1: an abort is acceptable; 2: an abort with a corruption report is required; 3: an abort with a message is required; 4: an abort is acceptable, with a message or not */
    volatile int failed;
    volatile uint64_t digest;
    volatile uint64_t ctr[PBT_NCTR];
    volatile int opi;         /* operation being executed */
    char msg[2048];
} PbtShared;
extern PbtShared *pbt_sh;

/* in the child: report a property failure (does not come back) */
void pbt_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
/* leave the child at once with success (used where the rest cannot be judged) */
void pbt_done(void) __attribute__((noreturn));
void pbt_digest(uint64_t v);
extern int pbt_verbose;

/* ---- what an engine provides ---- */
extern const char *const pbt_opname[];
extern const int pbt_nop;
extern const char *const pbt_ctrname[]; /* NULL-terminated */
void pbt_gen(PbtCase *c, PbtRng *r, const char *profile);
void pbt_exec(const PbtCase *c, const char *profile);
int pbt_nontrivial(const PbtShared *s, const char *profile);
extern int pbt_cpu_limit; /* seconds of CPU a single case may use */

int pbt_main(int argc, char **argv);

#ifdef __cplusplus
}
#endif
#endif
