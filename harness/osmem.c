/* The memory calls of the Windows API, on top of mmap, which the allocator
 * stand-in (wrap.c) owns. */
#include <sys/mman.h>
#include "win/windows.h"

LPVOID VirtualAlloc(LPVOID at, SIZE_T sz, DWORD how, DWORD prot) {
    void *p;
    (void) at; (void) prot;
    if (!(how & MEM_RESERVE)) return NULL;
    p = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON, -1, 0);
    if (p == MAP_FAILED) return NULL;
    return p;
}
/* part of a reservation can't be released */
BOOL VirtualFree(LPVOID p, SIZE_T sz, DWORD how) {
    if (how == MEM_DECOMMIT) { madvise(p, sz, MADV_DONTNEED); return TRUE; }
    if (sz || how != MEM_RELEASE) return FALSE;
    return TRUE;
}
