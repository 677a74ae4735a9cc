#include <bits/stdc++.h>
#include "backoff.h"
template <class M> struct SpinAd : SpinIf {
  M m;
  void lock() override { m.lock(); } bool try_lock() override { return m.try_lock(); } void unlock() override { m.unlock(); } void destroy() override { delete this; }
  static SpinIf* make() { return new SpinAd; }
};
#define SPT(NAME, INIT, ...) {NAME, INIT, &SpinAd<__VA_ARGS__>::make}
