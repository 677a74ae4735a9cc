#include "sut_lock.h"
#include "apple_native_mutex.hpp"
namespace sutad {
template <> struct Nat<yamc::apple::unfair_lock> {
  static bool op(yamc::apple::unfair_lock& m, int form) { os_unfair_lock_t h = m.native_handle(); if (form == XL) { os_unfair_lock_lock(h); return true; } return os_unfair_lock_trylock(h); }
  static void un(yamc::apple::unfair_lock& m, bool) { os_unfair_lock_unlock(m.native_handle()); }
};
}
static const LockType T[] = {LT("apple::unfair_lock", CAP_NATIVE | CAP_NATH | CAP_APPLE, POL_NONE, yamc::apple::unfair_lock)};
__attribute__((constructor)) static void reg() { add_lock_types(T, sizeof T / sizeof *T); }
