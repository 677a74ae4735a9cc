#include "sut_lock.h"
#include "win_native_mutex.hpp"
using namespace yamc;
namespace sutad {
template <> struct Nat<win::native_mutex> {
  static bool op(win::native_mutex& m, int form) { DWORD r = WaitForSingleObject(m.native_handle(), form == XL ? INFINITE : 0); nat_ok(r == WAIT_OBJECT_0 || (form != XL && r == WAIT_TIMEOUT)); return r == WAIT_OBJECT_0; }
  static void un(win::native_mutex& m, bool) { nat_ok(ReleaseMutex(m.native_handle())); }
};
template <> struct Nat<win::critical_section> {
  static bool op(win::critical_section& m, int form) { CRITICAL_SECTION* h = m.native_handle(); if (form == XL) { EnterCriticalSection(h); return true; } return TryEnterCriticalSection(h); }
  static void un(win::critical_section& m, bool) { LeaveCriticalSection(m.native_handle()); }
};
template <> struct Nat<win::slim_rwlock> {
  static bool op(win::slim_rwlock& m, int form) {
    SRWLOCK* h = m.native_handle();
    switch (form) { case XL: AcquireSRWLockExclusive(h); return true; case SL: AcquireSRWLockShared(h); return true; case XT: return TryAcquireSRWLockExclusive(h); default: return TryAcquireSRWLockShared(h); }
  }
  static void un(win::slim_rwlock& m, bool sh) { if (sh) ReleaseSRWLockShared(m.native_handle()); else ReleaseSRWLockExclusive(m.native_handle()); }
};
}
#define CW (CAP_NATIVE | CAP_NATH | CAP_WIN)
static const LockType T[] = {
  LT("win::native_mutex", CW | CAP_TIMED | CAP_REC, POL_NONE, win::native_mutex),
  LT("win::critical_section", CW | CAP_REC, POL_NONE, win::critical_section),
  LT("win::slim_rwlock", CW | CAP_SHARED, POL_NONE, win::slim_rwlock),
};
__attribute__((constructor)) static void reg() { add_lock_types(T, sizeof T / sizeof *T); }
