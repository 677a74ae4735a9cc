#pragma once
#include "sut_lock.h"
#include "sems.h"
namespace sutad {
SIM_TIMED(sem_timed_, try_acquire_for, try_acquire_until, SFR)
// any clock for until, integral durations for "for" (POSIX) 
template <class S> bool sem_timed_int(S& m, int form, const TimeArg& t) {
  if (form == SFR) switch (t.unit) {
    case UN_US: return m.try_acquire_for(microseconds(t.ns / 1000));
    case UN_MS: return m.try_acquire_for(milliseconds(t.ns / 1000000));
    SIM_UNITS(m.try_acquire_for)
    default: return m.try_acquire_for(nanoseconds(t.ns)); }
  switch (t.clk) {
    case CK_STEADY: return m.try_acquire_until(std::chrono::steady_clock::time_point(nanoseconds(t.ns)));
    case CK_USER: return m.try_acquire_until(UClock::time_point(nanoseconds(t.ns)));
    default: if (t.unit == UN_SEC) return m.try_acquire_until(TP<std::chrono::seconds>::sy(std::chrono::seconds(t.ns / 1000000000)));
             if (t.unit == UN_MS) return m.try_acquire_until(TP<milliseconds>::sy(milliseconds(t.ns / 1000000)));
             return m.try_acquire_until(std::chrono::system_clock::time_point(nanoseconds(t.ns))); }
}
template <class S, bool INTONLY> struct SemAd : SemIf {
  S s; explicit SemAd(int64_t d) : s((std::ptrdiff_t)d) {}
  static bool timed(S& s, int form, const TimeArg& t, std::true_type) { return sem_timed_int(s, form, t); }
  static bool timed(S& s, int form, const TimeArg& t, std::false_type) { return sem_timed_(s, form, t, std::false_type()); }
  bool op(int form, const TimeArg& t) override {
    if (form == SA) { s.acquire(); return true; }
    if (form == SY) return s.try_acquire();
    return timed(s, form, t, std::integral_constant<bool, INTONLY>());
  }
  void release(int64_t n) override { s.release((std::ptrdiff_t)n); }
  void release1() override { s.release(); }
  void destroy() override { delete this; }
  static SemIf* make(int64_t d) { return new SemAd(d); }
};
}
#define SEMT(NAME, CAPS, INTONLY, ...) {NAME VARIANT, (CAPS) | VCAP, (int64_t)(__VA_ARGS__::max)(), &sutad::SemAd<__VA_ARGS__, INTONLY>::make}
