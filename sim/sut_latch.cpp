#include <bits/stdc++.h>
#include "sems.h"
#include "sutcall.h"
#include "yamc_latch.hpp"
struct LatchAd : LatchIf {
  yamc::latch l; explicit LatchAd(int64_t n) : l((std::ptrdiff_t)n) {}
  bool op(int o, int64_t n) override {
    switch (o) {
      case LO_COUNT: l.count_down((std::ptrdiff_t)n); return true;
      case LO_COUNT1: l.count_down(); return true;
      case LO_WAIT: l.wait(); return true;
      case LO_TRY: return l.try_wait();
      case LO_AAW: l.arrive_and_wait((std::ptrdiff_t)n); return true;
      default: l.arrive_and_wait(); return true;
    }
  }
  void destroy() override { delete this; }
};
LatchIf* call_latch_make(int64_t n, OpResult& r) { LatchIf* p = nullptr; r = sut_call([&] { p = new LatchAd(n); return O_TRUE; }); return p; }
