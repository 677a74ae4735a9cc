// Win32 subset for building the Windows wrappers on Linux; implemented by the simulator (sim/os_win.cpp).
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef void* HANDLE; typedef void* PVOID; typedef void* LPVOID;
typedef uint32_t DWORD; typedef int32_t LONG; typedef LONG* LPLONG; typedef int BOOL; typedef unsigned char BOOLEAN; typedef uint64_t ULONGLONG; typedef int64_t LONGLONG;
typedef const char* LPCSTR;
typedef struct _SECURITY_ATTRIBUTES { DWORD nLength; } *LPSECURITY_ATTRIBUTES;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define WINAPI
#define INFINITE 0xFFFFFFFFu
#define WAIT_OBJECT_0 0u
#define WAIT_ABANDONED 0x80u
#define WAIT_ABANDONED_0 0x80u
#define WAIT_IO_COMPLETION 0xC0u
#define WAIT_TIMEOUT 258u
#define WAIT_FAILED 0xFFFFFFFFu
#define INVALID_HANDLE_VALUE ((HANDLE)(intptr_t)-1)
#define MAXDWORD 0xFFFFFFFFu
#define ERROR_SUCCESS 0u
#define ERROR_NOT_OWNER 288u
#define ERROR_TOO_MANY_POSTS 298u
#define ERROR_INVALID_HANDLE 6u
#define ERROR_NO_SYSTEM_RESOURCES 1450u
typedef struct _CRITICAL_SECTION { uint32_t magic; int32_t owner, count, spare; } CRITICAL_SECTION, *LPCRITICAL_SECTION, *PCRITICAL_SECTION;
typedef struct _SRWLOCK { PVOID Ptr; } SRWLOCK, *PSRWLOCK;
#define SRWLOCK_INIT {0}
extern "C" {
HANDLE CreateMutex(LPSECURITY_ATTRIBUTES, BOOL, LPCSTR);
BOOL ReleaseMutex(HANDLE);
HANDLE CreateSemaphore(LPSECURITY_ATTRIBUTES, LONG, LONG, LPCSTR);
BOOL ReleaseSemaphore(HANDLE, LONG, LPLONG);
BOOL CloseHandle(HANDLE);
DWORD WaitForSingleObject(HANDLE, DWORD);
DWORD WaitForSingleObjectEx(HANDLE, DWORD, BOOL);
void Sleep(DWORD);
BOOL SwitchToThread(void);
DWORD GetLastError(void);
DWORD GetTickCount(void);
ULONGLONG GetTickCount64(void);
DWORD GetCurrentThreadId(void);
void InitializeCriticalSection(LPCRITICAL_SECTION);
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION, DWORD);
void DeleteCriticalSection(LPCRITICAL_SECTION);
void EnterCriticalSection(LPCRITICAL_SECTION);
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION);
void LeaveCriticalSection(LPCRITICAL_SECTION);
void InitializeSRWLock(PSRWLOCK);
void AcquireSRWLockExclusive(PSRWLOCK);
BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK);
void ReleaseSRWLockExclusive(PSRWLOCK);
void AcquireSRWLockShared(PSRWLOCK);
BOOLEAN TryAcquireSRWLockShared(PSRWLOCK);
void ReleaseSRWLockShared(PSRWLOCK);
}
