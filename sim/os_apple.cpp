// Simulated libdispatch semaphores and os_unfair_lock, after the published sources (time.c, semaphore.c, os/lock.h).
#include "rt.h"
#include "../stubs/dispatch/dispatch.h"
#include "../stubs/os/lock.h"
#include <string.h>
using namespace sim;
struct dispatch_semaphore_s { uint64_t magic; long value, orig; };
static const uint64_t LIVE = 0xD15BA7C4;
extern "C" {
dispatch_semaphore_t dispatch_semaphore_create(long v) {
  point(P_WIN, nullptr);
  if (v < 0) return nullptr;
  if (fault(F_API)) return nullptr;
  auto* s = (dispatch_semaphore_t)arena_alloc(sizeof(dispatch_semaphore_s)); if (!s) return nullptr;
  s->magic = LIVE; s->value = s->orig = v; os_open(s, "dispatch semaphore"); return s;
}
static void ok(dispatch_semaphore_t s) { if (!s) { fail(V_CRASH, "NULL dispatch semaphore used"); return; } addr_ok(s, "dispatch semaphore"); if (s->magic != LIVE) fail(V_UAD, "dispatch semaphore used after it was released, in T%d", cur()); }
long dispatch_semaphore_wait(dispatch_semaphore_t s, dispatch_time_t t) {
  ok(s); point(P_WIN, s); ok(s);
  ns_t dl;
  if (t == DISPATCH_TIME_FOREVER) dl = NEVER;
  else if (t == DISPATCH_TIME_NOW) dl = INT64_MIN;
  else if ((int64_t)t < 0) { ns_t left = (ns_t)(0 - t) - sysnow(); dl = left <= 0 ? INT64_MIN : now() + left; }   // wall clock; the kernel waits relative
  else dl = (ns_t)t <= now() ? INT64_MIN : (ns_t)t;
  if (dl != INT64_MIN && s->value <= 0 && fault(F_API)) return KERN_ABORTED + 1;   // neither success nor time-out
  for (;;) {
    if (s->value > 0) { s->value--; hb_acquire(s); return KERN_SUCCESS; }
    if (dl == INT64_MIN) return KERN_OPERATION_TIMED_OUT;
    if (!block(W_OS, s, 1, dl)) { ok(s); if (s->value <= 0) return KERN_OPERATION_TIMED_OUT; }
    ok(s);
  }
}
long dispatch_semaphore_signal(dispatch_semaphore_t s) { ok(s); point(P_WIN, s); ok(s); hb_release(s); s->value++; return wake_some(s, 1); }
void dispatch_release(dispatch_object_t o) { auto* s = (dispatch_semaphore_t)o; ok(s); point(P_WIN, s); if (waiters(s)) fail(V_UAD, "dispatch semaphore released while a thread waits for it"); os_close(s); s->magic = 0xDEAD; arena_free(s); }
void dispatch_retain(dispatch_object_t) {}
void sim_free(void* p) { if (!p) return; auto* s = (dispatch_semaphore_t)p; addr_ok(p, "free"); point(P_WIN, p); if (s->magic == LIVE && waiters(p)) fail(V_UAD, "dispatch semaphore freed while a thread waits for it"); os_close(s); s->magic = 0xDEAD; arena_free(p); }
dispatch_time_t dispatch_time(dispatch_time_t in, int64_t delta) {
  point(P_CLOCK, nullptr);
  if (in == DISPATCH_TIME_FOREVER) return in;
  if ((int64_t)in < 0) { // wall
    int64_t v; if (__builtin_sub_overflow((int64_t)in, delta, &v) || v >= -1) return delta >= 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll; return (dispatch_time_t)v;
  }
  int64_t base = in == DISPATCH_TIME_NOW ? now() : (int64_t)in, v;
  if (__builtin_add_overflow(base, delta, &v)) return delta >= 0 ? DISPATCH_TIME_FOREVER : 1;
  return v < 1 ? 1 : (dispatch_time_t)v;
}
dispatch_time_t dispatch_walltime(const struct timespec* ts, int64_t delta) {
  int64_t n;
  if (ts) n = ts->tv_sec * 1000000000ll + ts->tv_nsec; else { point(P_CLOCK, nullptr); n = sysnow(); }
  if (__builtin_add_overflow(n, delta, &n)) return delta >= 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll;
  if (n <= 1) return delta >= 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll;   // -1 is special == DISPATCH_TIME_FOREVER
  return (dispatch_time_t)-n;
}
static uint32_t& w(os_unfair_lock_t l) { return l->_os_unfair_lock_opaque; }
static void lok(os_unfair_lock_t l) { addr_ok(l, "unfair lock"); point(P_WIN, l); addr_ok(l, "unfair lock"); }
bool os_unfair_lock_trylock(os_unfair_lock_t l) { lok(l); if (w(l)) return false; w(l) = cur() + 1; hb_acquire(l); return true; }
void os_unfair_lock_lock(os_unfair_lock_t l) {
  lok(l);
  if (w(l) == (uint32_t)cur() + 1) { fail(V_CRASH, "os_unfair_lock locked again by its owner"); return; }
  while (w(l)) { block(W_OS, l, 1, NEVER); addr_ok(l, "unfair lock"); }
  w(l) = cur() + 1; hb_acquire(l);
}
void os_unfair_lock_unlock(os_unfair_lock_t l) {
  lok(l);
  if (w(l) != (uint32_t)cur() + 1) { fail(V_NATIVE, "os_unfair_lock unlocked by T%d, which does not own it", cur()); return; }
  hb_release(l); w(l) = 0; wake_all(l);
}
void os_unfair_lock_assert_owner(os_unfair_lock_t l) { if (w(l) != (uint32_t)cur() + 1) fail(V_CRASH, "os_unfair_lock_assert_owner failed"); }
void os_unfair_lock_assert_not_owner(os_unfair_lock_t l) { if (w(l) == (uint32_t)cur() + 1) fail(V_CRASH, "os_unfair_lock_assert_not_owner failed"); }
}
