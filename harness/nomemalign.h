/* makes a C library look like one without the advisory-information option, so
 * that the library picks its anonymous-mapping allocator */
#define _DEFAULT_SOURCE
#define _GNU_SOURCE
#include <unistd.h>
#undef _POSIX_ADVISORY_INFO
