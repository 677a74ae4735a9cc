#include "sut_wrap.h"
#include "rt.h"
#include "sutcall.h"
#include <shared_mutex>
#include "alternate_shared_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "yamc_shared_lock.hpp"
using namespace sutad;
namespace {
template <class M> struct Muts : ShlMutexes {
  typedef WM<M> W; typedef yamc::shared_lock<W> SL_;
  W w[SHL_NM];
  Muts() { for (int i = 0; i < SHL_NM; i++) w[i].id = i; }
  struct Th : ShlIf {
    Muts& o; typename std::aligned_storage<sizeof(SL_), alignof(SL_)>::type mem[SHL_NS];
    SL_& s(int i) { return *reinterpret_cast<SL_*>(&mem[i]); }
    explicit Th(Muts& x) : o(x) { for (int i = 0; i < SHL_NS; i++) new (&mem[i]) SL_(); }
    struct At { void* p; W& m; template <class D> bool operator()(const D& d) { new (p) SL_(m, d); return true; } };
    bool make_for(int i, W& m, const TimeArg& t) { At at{&mem[i], m}; switch (t.unit) { case UN_DBL: return at(std::chrono::duration<double>(t.ns * 1e-9)); case UN_US: return at(microseconds(t.ns / 1000)); case UN_MS: return at(milliseconds(t.ns / 1000000)); SIM_UNITS(at) default: return at(nanoseconds(t.ns)); } }
    bool do_for(SL_& l, const TimeArg& t) { switch (t.unit) { case UN_DBL: return l.try_lock_for(std::chrono::duration<double>(t.ns * 1e-9)); case UN_US: return l.try_lock_for(microseconds(t.ns / 1000)); case UN_MS: return l.try_lock_for(milliseconds(t.ns / 1000000)); SIM_UNITS(l.try_lock_for) default: return l.try_lock_for(nanoseconds(t.ns)); } }
    struct Fallback { Th* t; int i; bool on; ~Fallback() { if (on) new (&t->mem[i]) SL_(); } };
    bool op(int op, int i, int j, int mi, const TimeArg& t) override {
      W& m = o.w[mi];
      if (op <= LK_MOVE) {
        s(i).~SL_();
        Fallback f{this, i, true};      // a constructor that throws leaves an empty slot
        switch (op) {
          case LK_DEFAULT: new (&mem[i]) SL_(); break;
          case LK_LOCK: new (&mem[i]) SL_(m); break;
          case LK_DEFER: new (&mem[i]) SL_(m, std::defer_lock); break;
          case LK_TRY: new (&mem[i]) SL_(m, std::try_to_lock); break;
          case LK_ADOPT: m.lock_shared(); new (&mem[i]) SL_(m, std::adopt_lock); break;
          case LK_UNTIL: if (t.clk == CK_SYSTEM) new (&mem[i]) SL_(m, std::chrono::system_clock::time_point(nanoseconds(t.ns))); else if (t.clk == CK_USER) new (&mem[i]) SL_(m, UClock::time_point(nanoseconds(t.ns))); else new (&mem[i]) SL_(m, std::chrono::steady_clock::time_point(nanoseconds(t.ns))); break;
          case LK_FOR: make_for(i, m, t); break;
          case LK_MOVE: new (&mem[i]) SL_(std::move(s(j))); break;
        }
        f.on = false; return s(i).owns_lock();
      }
      switch (op) {
        case LK_ASSIGN: s(i) = std::move(s(j)); return true;
        case LK_SWAP: s(i).swap(s(j)); return true;
        case LK_STDSWAP: std::swap(s(i), s(j)); return true;
        case LK_OPLOCK: s(i).lock(); return true;
        case LK_OPTRY: return s(i).try_lock();
        case LK_OPFOR: return do_for(s(i), t);
        case LK_OPUNTIL: if (t.clk == CK_SYSTEM) return s(i).try_lock_until(std::chrono::system_clock::time_point(nanoseconds(t.ns))); if (t.clk == CK_USER) return s(i).try_lock_until(UClock::time_point(nanoseconds(t.ns))); return s(i).try_lock_until(std::chrono::steady_clock::time_point(nanoseconds(t.ns)));
        case LK_UNLOCK: s(i).unlock(); return true;
        case LK_RELEASE: { bool owned = s(i).owns_lock(); W* p = s(i).release(); if (owned && p) p->unlock_shared(); return true; }
        case LK_DESTROY: s(i).~SL_(); new (&mem[i]) SL_(); return true;
      }
      return true;
    }
    ShlState state(int i) override {
      ShlState r; const SL_& c = s(i); W* p = c.mutex(); r.mutex = p == nullptr ? -1 : -2; for (int k = 0; k < SHL_NM; k++) if (p == &o.w[k]) r.mutex = k;
      r.owns = c.owns_lock(); r.asbool = static_cast<bool>(c); return r;
    }
    void destroy_all() override { for (int i = 0; i < SHL_NS; i++) s(i).~SL_(); }
  };
  ShlIf* make_thread() override { return new Th(*this); }
  void lock(int i) override { w[i].lock(); }
  bool try_lock(int i) override { return w[i].try_lock(); }
  void unlock(int i) override { w[i].unlock(); }
  void lock_shared(int i) override { w[i].lock_shared(); }
  void unlock_shared(int i) override { w[i].unlock_shared(); }
  void destroy() override { delete this; }
  static ShlMutexes* make() { return new Muts; }
};
const ShlType T[] = {
  {"alternate::shared_timed_mutex", CAP_TIMED, &Muts<yamc::alternate::shared_timed_mutex>::make},
  {"alternate::basic_shared_timed_mutex<WriterPrefer>", CAP_TIMED, &Muts<yamc::alternate::basic_shared_timed_mutex<yamc::rwlock::WriterPrefer>>::make},
  {"fair::shared_timed_mutex", CAP_TIMED, &Muts<yamc::fair::shared_timed_mutex>::make},
  {"checked::shared_timed_mutex", CAP_TIMED, &Muts<yamc::checked::shared_timed_mutex>::make},
  {"std::shared_timed_mutex", CAP_TIMED, &Muts<std::shared_timed_mutex>::make},
};
__attribute__((constructor)) void reg() { add_shl_types(T, sizeof T / sizeof *T); }
}
