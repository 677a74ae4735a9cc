#include "sut_lock.h"
#include "posix_native_mutex.hpp"
using namespace yamc;
namespace sutad {
struct NatPm {
  template <class M> static bool op(M& m, int form) {
    pthread_mutex_t* h = m.native_handle();
    if (form == XL) { nat_ok(pthread_mutex_lock(h) == 0); return true; }
    int r = pthread_mutex_trylock(h); nat_ok(r == 0 || r == EBUSY); return r == 0;
  }
  template <class M> static void un(M& m, bool) { nat_ok(pthread_mutex_unlock(m.native_handle()) == 0); }
};
template <> struct Nat<posix::native_mutex> : NatPm {};
template <> struct Nat<posix::native_recursive_mutex> : NatPm {};
template <> struct Nat<posix::rwlock> {
  static bool op(posix::rwlock& m, int form) {
    pthread_rwlock_t* h = m.native_handle();
    if (form == XL) { nat_ok(pthread_rwlock_wrlock(h) == 0); return true; }
    if (form == SL) { nat_ok(pthread_rwlock_rdlock(h) == 0); return true; }
    int r = form == XT ? pthread_rwlock_trywrlock(h) : pthread_rwlock_tryrdlock(h); nat_ok(r == 0 || r == EBUSY); return r == 0;
  }
  static void un(posix::rwlock& m, bool) { nat_ok(pthread_rwlock_unlock(m.native_handle()) == 0); }
};
template <> struct Nat<posix::spinlock> {
  static bool op(posix::spinlock& m, int form) {
    pthread_spinlock_t* h = m.native_handle();
    if (form == XL) { nat_ok(pthread_spin_lock(h) == 0); return true; }
    int r = pthread_spin_trylock(h); nat_ok(r == 0 || r == EBUSY); return r == 0;
  }
  static void un(posix::spinlock& m, bool) { nat_ok(pthread_spin_unlock(m.native_handle()) == 0); }
};
}
#define CN (CAP_NATIVE | CAP_NATH | CAP_SYSFOR)
static const LockType T[] = {
  LT("posix::native_mutex", CN | CAP_TIMED, POL_NONE, posix::native_mutex),
  LT("posix::native_recursive_mutex", CN | CAP_TIMED | CAP_REC, POL_NONE, posix::native_recursive_mutex),
  LT("posix::rwlock", CN | CAP_TIMED | CAP_SHARED, POL_NONE, posix::rwlock),
  LT("posix::spinlock", CAP_NATIVE | CAP_NATH | CAP_SPIN, POL_NONE, posix::spinlock),
};
__attribute__((constructor)) static void reg() { add_lock_types(T, sizeof T / sizeof *T); }
