/* a POSIX system without the barriers option */
#include <unistd.h>
#undef _POSIX_BARRIERS
#define _POSIX_BARRIERS 0
