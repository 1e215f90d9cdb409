/* Just enough of libdispatch for the library's macOS threads to run on (see osmodel.c). */
#ifndef FAKE_DISPATCH_H
#define FAKE_DISPATCH_H 1
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct fake_dispatch_semaphore *dispatch_semaphore_t;
typedef uint64_t dispatch_time_t;
#define DISPATCH_TIME_NOW 0ull
#define DISPATCH_TIME_FOREVER (~0ull)
dispatch_semaphore_t dispatch_semaphore_create(long);
long dispatch_semaphore_signal(dispatch_semaphore_t);
long dispatch_semaphore_wait(dispatch_semaphore_t, dispatch_time_t);
void dispatch_release(dispatch_semaphore_t);
void dispatch_retain(dispatch_semaphore_t);
#ifdef __cplusplus
}
#endif
#endif
