// Simulated Win32: mutex and semaphore objects, critical sections, SRW locks, tick granular time-outs.
// Not instrumented; called by the code under test only.
#include "rt.h"
#include "../stubs/windows.h"
#include <new>
using namespace sim;
static const uint32_t LIVE = 0x11ACE0, CSLIVE = 0xC5C5A11E;
namespace {
enum { H_MUTEX = 1, H_SEM };
struct Obj { uint32_t magic; int kind; int owner, count; LONG value, max; int pad; };
Obj* obj(HANDLE h, int kind) {
  if (!h || h == INVALID_HANDLE_VALUE) return nullptr;
  addr_ok(h, "kernel object handle");
  Obj* o = (Obj*)h;
  if (o->magic != LIVE || (kind && o->kind != kind)) return nullptr;
  return o;
}
ns_t tick() { return cfg_wintick(); }
// a timed wait ends at the n-th tick from now, which may be up to one tick early (documented behaviour of Win32 waits)
ns_t tick_deadline(DWORD ms) {
  ns_t t = tick(), want = (ns_t)ms * 1000000, n = (want + t - 1) / t, ph = cfg_winphase();
  return ((now() + ph) / t + n) * t - ph;
}
DWORD wait_obj(HANDLE h, DWORD ms) {
  point(P_WIN, h);
  Obj* o = obj(h, 0);
  if (!o) return WAIT_FAILED;
  if (fault(F_API)) return WAIT_FAILED;
  ns_t dl = ms == INFINITE ? NEVER : ms ? tick_deadline(ms) : 0;
  int me = cur() + 1;
  for (;;) {
    if (o->kind == H_MUTEX) {
      if (o->owner == me) { o->count++; return WAIT_OBJECT_0; }
      if (!o->owner) { o->owner = me; o->count = 1; hb_acquire(h); return WAIT_OBJECT_0; }
    } else if (o->value > 0) { o->value--; hb_acquire(h); return WAIT_OBJECT_0; }
    if (!ms) return WAIT_TIMEOUT;
    ns_t want = now() + (ns_t)ms * 1000000;
    if (!block(W_OS, h, 1, dl)) {
      addr_ok(h, "kernel object handle");
      bool free_ = o->kind == H_MUTEX ? !o->owner : o->value > 0;
      if (!free_) { if (now() < want) count_fault(F_EARLY); return WAIT_TIMEOUT; }
    }
    addr_ok(h, "kernel object handle");
    if (o->magic != LIVE) { fail(V_UAD, "kernel object closed while T%d waits for it", cur()); return WAIT_FAILED; }
  }
}
}
extern "C" {
HANDLE CreateMutex(LPSECURITY_ATTRIBUTES, BOOL own, LPCSTR) {
  point(P_WIN, nullptr);
  if (fault(F_API)) return nullptr;
  Obj* o = (Obj*)arena_alloc(sizeof(Obj)); if (!o) return nullptr;
  o->magic = LIVE; o->kind = H_MUTEX; o->owner = own ? cur() + 1 : 0; o->count = own ? 1 : 0; os_open(o, "mutex handle"); return o;
}
BOOL ReleaseMutex(HANDLE h) {
  point(P_WIN, h);
  Obj* o = obj(h, H_MUTEX);
  if (!o || o->owner != cur() + 1) { fail(V_NATIVE, "ReleaseMutex by T%d, which does not own the mutex", cur()); return FALSE; }
  if (--o->count) return TRUE;
  hb_release(h); o->owner = 0; wake_all(h); return TRUE;
}
HANDLE CreateSemaphore(LPSECURITY_ATTRIBUTES, LONG v, LONG max, LPCSTR) {
  point(P_WIN, nullptr);
  if (v < 0 || max <= 0 || v > max) return nullptr;
  if (fault(F_API)) return nullptr;
  Obj* o = (Obj*)arena_alloc(sizeof(Obj)); if (!o) return nullptr;
  o->magic = LIVE; o->kind = H_SEM; o->value = v; o->max = max; os_open(o, "semaphore handle"); return o;
}
BOOL ReleaseSemaphore(HANDLE h, LONG n, LPLONG prev) {
  point(P_WIN, h);
  Obj* o = obj(h, H_SEM);
  if (!o || n <= 0 || n > o->max - o->value) return FALSE;
  if (fault(F_API)) return FALSE;
  if (prev) *prev = o->value;
  hb_release(h); o->value += n; wake_some(h, n); return TRUE;
}
BOOL CloseHandle(HANDLE h) {
  point(P_WIN, h);
  Obj* o = obj(h, 0);
  if (!o) { fail(V_CRASH, "CloseHandle of a bad handle"); return FALSE; }
  if (waiters(h)) fail(V_UAD, "kernel object closed while a thread waits for it");
  os_close(o); o->magic = 0xDEAD; arena_free(o); return TRUE;
}
DWORD WaitForSingleObject(HANDLE h, DWORD ms) { return wait_obj(h, ms); }
DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL) { return wait_obj(h, ms); }
void Sleep(DWORD ms) {
  if (!ms) { yield_now(); return; }
  if (ms == INFINITE) { block(W_SLEEP, nullptr, 1, NEVER); return; }
  sleep_until(tick_deadline(ms));
}
BOOL SwitchToThread(void) { yield_now(); return TRUE; }
DWORD GetLastError(void) { return ERROR_NO_SYSTEM_RESOURCES; }
ULONGLONG GetTickCount64(void) { point(P_CLOCK, nullptr); ns_t t = tick(), ph = cfg_winphase(); return (ULONGLONG)((now() + ph) / t * t / 1000000); }
DWORD GetTickCount(void) { return (DWORD)GetTickCount64(); }
DWORD GetCurrentThreadId(void) { return (DWORD)(4 * cur() + 100); }
void InitializeCriticalSection(LPCRITICAL_SECTION c) { addr_ok(c, "critical section"); os_open(c, "critical section"); c->magic = CSLIVE; c->owner = c->count = c->spare = 0; }
BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION c, DWORD) { InitializeCriticalSection(c); return TRUE; }
static void cs_ok(LPCRITICAL_SECTION c) { addr_ok(c, "critical section"); point(P_WIN, c); addr_ok(c, "critical section"); if (c->magic != CSLIVE) fail(V_UAD, "critical section used after it was deleted or before it was initialised, in T%d", cur()); }
void DeleteCriticalSection(LPCRITICAL_SECTION c) { cs_ok(c); if (c->owner || waiters(c)) fail(V_CRASH, "critical section deleted while in use"); os_close(c); c->magic = 0xDEAD; }
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION c) {
  cs_ok(c); int me = cur() + 1;
  if (c->owner == me) { c->count++; return TRUE; }
  if (c->owner) return FALSE;
  c->owner = me; c->count = 1; hb_acquire(c); return TRUE;
}
void EnterCriticalSection(LPCRITICAL_SECTION c) {
  cs_ok(c); int me = cur() + 1;
  if (c->owner == me) { c->count++; return; }
  while (c->owner) { block(W_OS, c, 1, NEVER); addr_ok(c, "critical section"); }
  c->owner = me; c->count = 1; hb_acquire(c);
}
void LeaveCriticalSection(LPCRITICAL_SECTION c) {
  cs_ok(c);
  if (c->owner != cur() + 1) { fail(V_NATIVE, "LeaveCriticalSection by T%d, which does not own it", cur()); return; }
  if (--c->count) return;
  hb_release(c); c->owner = 0; wake_all(c);
}
// SRWLOCK word: bit 0 exclusive, bits 1..30 readers, bits 32.. waiting writers
typedef uintptr_t __attribute__((may_alias)) uptr_a;
static uptr_a& sw(PSRWLOCK l) { return *(uptr_a*)&l->Ptr; }
static void srw_ok(PSRWLOCK l) { addr_ok(l, "SRW lock"); point(P_WIN, l); addr_ok(l, "SRW lock"); }
void InitializeSRWLock(PSRWLOCK l) { addr_ok(l, "SRW lock"); sw(l) = 0; }
static bool srw_rdblocked(PSRWLOCK l) { return (sw(l) & 1) || (cfg_rwpref() && (sw(l) >> 32)); }
BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK l) { srw_ok(l); if (sw(l) & 0xFFFFFFFF) return 0; sw(l) |= 1; hb_acquire(l); return 1; }
void AcquireSRWLockExclusive(PSRWLOCK l) {
  srw_ok(l);
  if (sw(l) & 0xFFFFFFFF) {
    sw(l) += 1ull << 32;
    while (sw(l) & 0xFFFFFFFF) { block(W_OS, l, 1, NEVER); addr_ok(l, "SRW lock"); }
    sw(l) -= 1ull << 32;
  }
  sw(l) |= 1; hb_acquire(l);
}
void ReleaseSRWLockExclusive(PSRWLOCK l) { srw_ok(l); if (!(sw(l) & 1)) { fail(V_NATIVE, "ReleaseSRWLockExclusive of a lock that is not held exclusively"); return; } hb_release(l); sw(l) &= ~(uintptr_t)1; wake_all(l); }
BOOLEAN TryAcquireSRWLockShared(PSRWLOCK l) { srw_ok(l); if (srw_rdblocked(l)) return 0; sw(l) += 2; hb_acquire(l); return 1; }
void AcquireSRWLockShared(PSRWLOCK l) { srw_ok(l); while (srw_rdblocked(l)) { block(W_OS, l, 1, NEVER); addr_ok(l, "SRW lock"); } sw(l) += 2; hb_acquire(l); }
void ReleaseSRWLockShared(PSRWLOCK l) { srw_ok(l); if (!(sw(l) & 0xFFFFFFFE)) { fail(V_NATIVE, "ReleaseSRWLockShared of a lock that is not held shared"); return; } hb_release(l); sw(l) -= 2; wake_all(l); }
}
