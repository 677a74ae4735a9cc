// Every lock type below std::lock_guard, unique_lock, shared_lock, std::lock, std::try_lock, condition_variable_any, yamc::shared_lock, yamc::scoped_lock.
#include "sut_lock.h"
#include "sutcall.h"
#include "stdbox.h"
#include <condition_variable>
#include <mutex>
#include <shared_mutex>
#include "yamc_shared_lock.hpp"
#include "yamc_scoped_lock.hpp"
volatile int bx_phase[BX_MT], bx_box[BX_MT];
namespace {
// the lock as a plain Lockable type, so that the wrappers are instantiated once for all of them
struct AnyM {
  LockIf* l = nullptr; int caps = 0;
  static TimeArg ns(int64_t n) { TimeArg t; t.unit = UN_NS; t.clk = CK_STEADY; t.ns = n; return t; }
  void lock() { l->op(XL, ns(0)); }
  bool try_lock() { return l->op(XT, ns(0)); }
  void unlock() { l->unlock(false); }
  template <class R, class P> bool try_lock_for(const std::chrono::duration<R, P>& d) { return l->op(caps & CAP_TIMED ? XF : XT, ns(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count())); }
  void lock_shared() { l->op(SL, ns(0)); }
  bool try_lock_shared() { return l->op(ST, ns(0)); }
  void unlock_shared() { l->unlock(true); }
};
struct Ring { int64_t a[BX_CAP]; int n = 0; int64_t sum = 0; };
struct Box : BoxIf {
  AnyM m[2]; Ring r[2]; std::condition_variable_any nonempty[2], nonfull[2], changed[2]; bool closed = false; int cap; bool shared;
  Box(const LockType* t, int c) : cap(c), shared(t->caps & CAP_SHARED) { for (AnyM& x : m) { x.l = t->make(); x.caps = t->caps; } }
  ~Box() { for (AnyM& x : m) x.l->destroy(); }
  // the condition, always evaluated under the lock; records where the thread is
  template <class P> auto pred(int tid, P p) { return [=] { bx_phase[tid] = PH_OWN; bool b = p() || closed; if (!b) bx_phase[tid] = PH_CV; return b; }; }
  void put_in(int b, int64_t v) { Ring& q = r[b]; q.a[q.n++] = v; q.sum += v; nonempty[b].notify_one(); changed[b].notify_all(); }
  int64_t take(int b) { Ring& q = r[b]; int64_t v = q.a[0]; for (int i = 1; i < q.n; i++) q.a[i - 1] = q.a[i]; q.n--; q.sum -= v; nonfull[b].notify_one(); return v; }
  bool check(int b) { int64_t s = 0; for (int i = 0; i < r[b].n; i++) s += r[b].a[i]; return s == r[b].sum && r[b].n >= 0 && r[b].n <= cap; }
  void move_one(BoxRes& x, int from) { int to = 1 - from; x.consistent = check(0) && check(1); if (r[from].n > 0 && r[to].n < cap) { x.v = take(from); put_in(to, x.v); x.ok = true; } }
  BoxRes op(int tid, int o, int b, int64_t v, const TimeArg& t) override {
    BoxRes x{false, 0, true};
    volatile int& ph = bx_phase[tid]; bx_box[tid] = b; ph = PH_ACQ;
    auto room = pred(tid, [this, b] { return r[b].n < cap; }); auto some = pred(tid, [this, b] { return r[b].n > 0; });
    auto own = [&] { ph = PH_OWN; x.consistent = check(b); };
    const std::chrono::nanoseconds d(t.ns);
    switch (o) {
      case BX_PUT: { std::unique_lock<AnyM> k(m[b]); own(); nonfull[b].wait(k, room); if (!closed && r[b].n < cap) { put_in(b, v); x.ok = true; } break; }
      case BX_PUT_TRY: { std::unique_lock<AnyM> k(m[b], std::try_to_lock); if (k.owns_lock()) { own(); if (r[b].n < cap) { put_in(b, v); x.ok = true; } } break; }
      case BX_PUT_DEFER: { std::unique_lock<AnyM> k(m[b], std::defer_lock); k.lock(); own(); std::unique_lock<AnyM> k2(std::move(k)); if (r[b].n < cap) { put_in(b, v); x.ok = true; } k2.unlock(); break; }
      case BX_PUT_FOR: { std::unique_lock<AnyM> k(m[b], d); if (k) { own(); if (nonfull[b].wait_for(k, d, room) && !closed && r[b].n < cap) { put_in(b, v); x.ok = true; } } break; }
      case BX_GET: { std::unique_lock<AnyM> k(m[b]); own(); nonempty[b].wait(k, some); if (r[b].n > 0) { x.v = take(b); x.ok = true; } break; }
      case BX_GET_FOR: { std::unique_lock<AnyM> k(m[b]); own(); if (nonempty[b].wait_for(k, d, some) && r[b].n > 0) { x.v = take(b); x.ok = true; } break; }
      case BX_GET_UNTIL: { std::unique_lock<AnyM> k(m[b]); own(); if (nonempty[b].wait_until(k, std::chrono::system_clock::now() + d, some) && r[b].n > 0) { x.v = take(b); x.ok = true; } break; }
      case BX_GET_TRY: { m[b].lock(); own(); std::lock_guard<AnyM> k(m[b], std::adopt_lock); if (r[b].n > 0) { x.v = take(b); x.ok = true; } break; }
      case BX_MOVE: { bx_box[tid] = 2; std::lock(m[b], m[1 - b]); ph = PH_OWN; std::lock_guard<AnyM> k(m[b], std::adopt_lock), k2(m[1 - b], std::adopt_lock); move_one(x, b); break; }
      case BX_MOVE_TRY: { bx_box[tid] = 2; if (std::try_lock(m[b], m[1 - b]) == -1) { ph = PH_OWN; std::lock_guard<AnyM> k(m[b], std::adopt_lock), k2(m[1 - b], std::adopt_lock); move_one(x, b); } break; }
      case BX_MOVE_SCOPED: { bx_box[tid] = 2; yamc::scoped_lock<AnyM, AnyM> k(m[b], m[1 - b]); ph = PH_OWN; move_one(x, b); break; }
      case BX_READ: if (shared) { std::shared_lock<AnyM> k(m[b]); own(); x.ok = true; } else { std::lock_guard<AnyM> k(m[b]); own(); x.ok = true; } break;
      case BX_READ_Y: if (shared) { yamc::shared_lock<AnyM> k(m[b], std::defer_lock); if (k.try_lock()) { own(); x.ok = true; } } else { std::lock_guard<AnyM> k(m[b]); own(); x.ok = true; } break;
      case BX_READ_WAIT: if (shared) { yamc::shared_lock<AnyM> k(m[b]); own(); changed[b].wait(k, some); x.consistent = x.consistent && check(b); x.ok = true; } else { std::unique_lock<AnyM> k(m[b]); own(); changed[b].wait(k, some); x.ok = true; } break;
      case BX_MOVE_NEST: { bx_box[tid] = 0; std::unique_lock<AnyM> k(m[0]); ph = PH_N0; std::unique_lock<AnyM> k2(m[1]); bx_box[tid] = 2; ph = PH_OWN; move_one(x, b); bx_box[tid] = 0; k2.unlock(); break; }
      case BX_MOVE_BACK: case BX_MOVE_BACKFOR: {
        bx_box[tid] = 1; std::unique_lock<AnyM> k(m[1]); ph = PH_N1; std::unique_lock<AnyM> k2(m[0], std::defer_lock);
        if (o == BX_MOVE_BACK ? k2.try_lock() : k2.try_lock_for(d)) { bx_box[tid] = 2; ph = PH_OWN; move_one(x, b); bx_box[tid] = 1; k2.unlock(); } else { ph = PH_OWN; x.consistent = check(1); }
        break; }
      case BX_SWAP: { std::unique_lock<AnyM> k(m[b]); own(); std::unique_lock<AnyM> e; std::swap(k, e); e.unlock(); ph = PH_ACQ; e.lock(); own(); x.ok = true; break; }
    }
    ph = PH_NONE;
    return x;
  }
  void close() override { for (int b = 0; b < 2; b++) { m[b].lock(); } closed = true; for (int b = 0; b < 2; b++) m[b].unlock(); for (int b = 0; b < 2; b++) { nonempty[b].notify_all(); nonfull[b].notify_all(); changed[b].notify_all(); } }
  int count(int b) override { return r[b].n; }
  bool cond(int tid) override { int b = bx_box[tid]; return closed || (b < 2 && r[b].n > 0); }
  void destroy() override { delete this; }
};
}
BoxIf* call_box_make(const LockType* t, int cap, OpResult& r) { BoxIf* p = nullptr; r = sut_call([&] { p = new Box(t, cap); return O_TRUE; }); return p; }
OpResult call_box(BoxIf* b, int tid, int op, int box, int64_t v, const TimeArg& t, BoxRes& res) { return sut_call([&] { res = b->op(tid, op, box, v, t); return O_TRUE; }); }
OpResult call_box_close(BoxIf* b) { return sut_call([&] { b->close(); return O_TRUE; }); }
OpResult call_box_destroy(BoxIf* b) { return sut_call([&] { b->destroy(); return O_TRUE; }); }
