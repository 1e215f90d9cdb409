/* Just enough of the Windows API, with the semantics its documentation gives
 * it, for the library's Windows threads and pools to run on (see osmodel.c). */
#ifndef FAKE_WINDOWS_H
#define FAKE_WINDOWS_H 1
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void *HANDLE, *LPVOID, *LPSECURITY_ATTRIBUTES;
typedef int BOOL;
typedef long LONG;
typedef unsigned int DWORD;
typedef DWORD *LPDWORD;
typedef LONG *LPLONG;
typedef size_t SIZE_T;
typedef const char *LPCSTR;
typedef DWORD (*LPTHREAD_START_ROUTINE)(LPVOID);
#define WINAPI
#define TRUE 1
#define FALSE 0
#define INFINITE 0xFFFFFFFFu
#define WAIT_OBJECT_0 0u
#define WAIT_ABANDONED 0x80u
#define WAIT_TIMEOUT 258u
#define WAIT_FAILED 0xFFFFFFFFu
#define MEM_COMMIT 0x1000
#define MEM_RESERVE 0x2000
#define MEM_DECOMMIT 0x4000
#define MEM_RELEASE 0x8000
#define PAGE_READWRITE 4
HANDLE CreateMutex(LPSECURITY_ATTRIBUTES, BOOL, LPCSTR);
BOOL ReleaseMutex(HANDLE);
HANDLE CreateSemaphore(LPSECURITY_ATTRIBUTES, LONG, LONG, LPCSTR);
BOOL ReleaseSemaphore(HANDLE, LONG, LPLONG);
HANDLE CreateThread(LPSECURITY_ATTRIBUTES, SIZE_T, LPTHREAD_START_ROUTINE, LPVOID, DWORD, LPDWORD);
DWORD WaitForSingleObject(HANDLE, DWORD);
BOOL CloseHandle(HANDLE);
void Sleep(DWORD);
BOOL SwitchToThread(void);
DWORD GetLastError(void);
DWORD GetCurrentThreadId(void);
LPVOID VirtualAlloc(LPVOID, SIZE_T, DWORD, DWORD);
BOOL VirtualFree(LPVOID, SIZE_T, DWORD);
#define CreateMutexA CreateMutex
#define CreateSemaphoreA CreateSemaphore
/* critical sections, should the library use them one day */
typedef struct { HANDLE m; } CRITICAL_SECTION, *LPCRITICAL_SECTION;
void InitializeCriticalSection(LPCRITICAL_SECTION);
void EnterCriticalSection(LPCRITICAL_SECTION);
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION);
void LeaveCriticalSection(LPCRITICAL_SECTION);
void DeleteCriticalSection(LPCRITICAL_SECTION);
void *InterlockedCompareExchangePointer(void *volatile *, void *, void *);
#ifdef __cplusplus
}
#endif
#endif
