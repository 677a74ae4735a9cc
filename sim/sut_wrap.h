#pragma once
#include "sut_lock.h"
#include "wraps.h"
namespace sutad {
struct Injected : std::exception { const char* what() const noexcept override { return "injected failure"; } };
template <class M> struct WM {
  M m; int id = -1;
  bool tr(int kind, bool sh, bool ok) { wrap_after(id, kind, sh, ok); return ok; }
  void pre(int kind, bool sh) { if (wrap_before(id, kind, sh)) throw Injected(); }
  void lock() { pre(WK_LOCK, false); m.lock(); tr(WK_LOCK, false, true); }
  bool try_lock() { pre(WK_TRY, false); return tr(WK_TRY, false, m.try_lock()); }
  void unlock() { if (wrap_release(id, false)) m.unlock(); }
  void lock_shared() { pre(WK_LOCK, true); m.lock_shared(); tr(WK_LOCK, true, true); }
  bool try_lock_shared() { pre(WK_TRY, true); return tr(WK_TRY, true, m.try_lock_shared()); }
  template <class D> bool try_lock_shared_for(const D& d) { pre(WK_TIMED, true); return tr(WK_TIMED, true, m.try_lock_shared_for(d)); }
  template <class T> bool try_lock_shared_until(const T& t) { pre(WK_TIMED, true); return tr(WK_TIMED, true, m.try_lock_shared_until(t)); }
  void unlock_shared() { if (wrap_release(id, true)) m.unlock_shared(); }
};
}
