// Instrumented adapters (compiled with -fsanitize=thread, linked against our own __tsan_* runtime).
#pragma once
#include <bits/stdc++.h>
#include <time.h>
#include "locks.h"
namespace sutad {
struct UClock {
  typedef std::int64_t rep; typedef std::nano period; typedef std::chrono::duration<rep, period> duration;
  typedef std::chrono::time_point<UClock> time_point;
  static constexpr bool is_steady = true;
  static time_point now() noexcept {
    struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec + USER_CLOCK_OFFSET));
  }
};
using std::chrono::nanoseconds; using std::chrono::microseconds; using std::chrono::milliseconds;
template <class D> struct TP { typedef std::chrono::time_point<std::chrono::steady_clock, D> st; typedef std::chrono::time_point<std::chrono::system_clock, D> sy; };
#define SIM_UNITS(F) \
    case UN_SEC: return F(std::chrono::seconds(t.ns / 1000000000)); \
    case UN_HOUR: return F(std::chrono::hours(t.ns / 3600000000000ll)); \
    case UN_128: return F(std::chrono::duration<long, std::ratio<1, 128>>(t.ns / 7812500)); \
    case UN_I32: return F(std::chrono::duration<int, std::micro>((int)(t.ns / 1000)));
// durations and time points in several representations; native = system clock only, integral durations
#define SIM_TIMED(NAME, FOR, UNTIL, FFORM) \
template <class M> bool NAME(M& m, int form, const TimeArg& t, std::false_type) { \
  if (form == FFORM) switch (t.unit) { \
    case UN_US: return m.FOR(microseconds(t.ns / 1000)); \
    case UN_MS: return m.FOR(milliseconds(t.ns / 1000000)); \
    case UN_DBL: return m.FOR(std::chrono::duration<double>(t.ns * 1e-9)); \
    SIM_UNITS(m.FOR) \
    default: return m.FOR(nanoseconds(t.ns)); } \
  switch (t.clk) { \
    case CK_SYSTEM: if (t.unit == UN_SEC) return m.UNTIL(TP<std::chrono::seconds>::sy(std::chrono::seconds(t.ns / 1000000000))); \
                    if (t.unit == UN_MS) return m.UNTIL(TP<milliseconds>::sy(milliseconds(t.ns / 1000000))); \
                    return m.UNTIL(std::chrono::system_clock::time_point(nanoseconds(t.ns))); \
    case CK_USER: return m.UNTIL(UClock::time_point(nanoseconds(t.ns))); \
    default: if (t.unit == UN_SEC) return m.UNTIL(TP<std::chrono::seconds>::st(std::chrono::seconds(t.ns / 1000000000))); \
             if (t.unit == UN_MS) return m.UNTIL(TP<milliseconds>::st(milliseconds(t.ns / 1000000))); \
             return m.UNTIL(std::chrono::steady_clock::time_point(nanoseconds(t.ns))); } \
} \
template <class M> bool NAME(M& m, int form, const TimeArg& t, std::true_type) { \
  if (form == FFORM) switch (t.unit) { \
    case UN_US: return m.FOR(microseconds(t.ns / 1000)); \
    case UN_MS: return m.FOR(milliseconds(t.ns / 1000000)); \
    SIM_UNITS(m.FOR) \
    default: return m.FOR(nanoseconds(t.ns)); } \
  if (t.unit == UN_SEC) return m.UNTIL(TP<std::chrono::seconds>::sy(std::chrono::seconds(t.ns / 1000000000))); \
  if (t.unit == UN_MS) return m.UNTIL(TP<milliseconds>::sy(milliseconds(t.ns / 1000000))); \
  return m.UNTIL(std::chrono::system_clock::time_point(nanoseconds(t.ns))); \
}
SIM_TIMED(x_timed_, try_lock_for, try_lock_until, XF)
SIM_TIMED(s_timed_, try_lock_shared_for, try_lock_shared_until, SF)
template <class M, class N> bool x_timed(M& m, int form, const TimeArg& t, std::true_type, N n) { return x_timed_(m, form, t, n); }
template <class M, class N> bool x_timed(M& m, int, const TimeArg&, std::false_type, N) { return m.try_lock(); }
template <class M, class N> bool s_timed(M& m, int form, const TimeArg& t, std::true_type, N n) { return s_timed_(m, form, t, n); }
template <class M, class N> bool s_timed(M& m, int, const TimeArg&, std::false_type, N) { return m.try_lock_shared(); }
template <class M, class B, class N> bool s_op(M&, int, const TimeArg&, std::false_type, B, N) { return false; }
template <class M, class B, class N> bool s_op(M& m, int form, const TimeArg& t, std::true_type, B timed, N n) {
  if (form == SL) { m.lock_shared(); return true; }
  if (form == ST) return m.try_lock_shared();
  return s_timed(m, form, t, timed, n);
}
template <class M> void s_un(M& m, std::true_type) { m.unlock_shared(); }
template <class M> void s_un(M& m, std::false_type) { m.unlock(); }
// access past the wrapper: forms XL, XT, SL, ST and unlock by the platform's functions on native_handle(); specialised where there is one
struct NatErr : std::exception { const char* what() const noexcept override { return "the platform's function failed on native_handle()"; } };
inline void nat_ok(bool ok) { if (!ok) throw NatErr(); }
template <class M> struct Nat { static bool op(M&, int) { std::abort(); } static void un(M&, bool) { std::abort(); } };
template <class M, int CAPS> struct LockAd : LockIf {
  M m;
  typedef std::integral_constant<bool, (CAPS & CAP_SYSFOR) != 0> sysfor;
  typedef std::integral_constant<bool, (CAPS & CAP_TIMED) != 0> timed;
  typedef std::integral_constant<bool, (CAPS & CAP_SHARED) != 0> shared;
  bool op(int form, const TimeArg& t) override {
    if (form & VIA_NATIVE) return Nat<M>::op(m, form & 15);
    switch (form) {
      case XL: m.lock(); return true;
      case XT: return m.try_lock();
      case XF: case XU: return x_timed(m, form, t, timed(), sysfor());
      default: return s_op(m, form, t, shared(), timed(), sysfor());
    }
  }
  void unlock(bool sh) override { if (sh) s_un(m, shared()); else m.unlock(); }
  void nunlock(bool sh) override { Nat<M>::un(m, sh); }
  void destroy() override { delete this; }
  void destruct() override { m.~M(); }
  static LockIf* make() { return new LockAd; }
};
}
#ifndef VARIANT
#define VARIANT ""
#define VCAP 0
#endif
#define LT(NAME, CAPS, POL, ...) {NAME VARIANT, (CAPS) | VCAP, POL, &sutad::LockAd<__VA_ARGS__, (CAPS)>::make}
