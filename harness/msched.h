/* A deterministic scheduler underneath a multi-threaded program: threads are
 * real, but exactly one runs at a time, every pthread and semaphore call of
 * the program and of the library goes through here (link-level stand-ins), and
 * the library's memory accesses (compiled with -fsanitize=thread, whose
 * runtime is replaced by stubs) are points at which another thread may be
 * switched to. What happens is a function of the seed. */
#ifndef SCHED_H
#define SCHED_H 1
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* mode 0: random; 1: long stretches; 2: priorities with change points */
void sched_start(uint64_t seed, int mode, unsigned ticks, unsigned syncden);
void sched_stop(void);
int sched_me(void);           /* number of the running thread (main is 0), never reused */
void sched_preempt(void);     /* to some other thread, if one can run */
void sched_point(void);       /* a point at which the scheduler may switch */
void sched_progress(void);    /* the program got on */
extern __thread int sched_eintr; /* this many of the calling thread's next semaphore waits are interrupted by a signal */
extern __thread int sched_fail_create; /* this many of the calling thread's next thread creations fail */
extern unsigned long sched_switches, sched_ticks, sched_syncs, sched_creates;
extern unsigned long sched_limit; /* points without progress that count as a livelock */
const char *sched_states(void);
#ifdef __cplusplus
}
#endif
#endif
