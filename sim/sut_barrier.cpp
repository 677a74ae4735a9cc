#include <bits/stdc++.h>
#include "sems.h"
#include "sutcall.h"
#include "yamc_barrier.hpp"
struct Compl { int64_t* n; void operator()() { ++*n; barrier_completion(); } };
struct ComplConst { int64_t* n; void operator()() const { ++*n; barrier_completion(); } };
static std::atomic<int> next_slot;
struct alignas(16) TokBuf { char b[32]; };
static TokBuf tok[4096];        // outside the barrier object: an arriver stores its token after arrive() returned
// A barrier that has already been through many phases: where the class has an unsigned phase counter named phase_ (this file is
// compiled with -fno-access-control), start it a little before it wraps. Without such a member nothing is done.
template <class B> auto age(B& b, int left, int) -> typename std::enable_if<std::is_unsigned<typename std::decay<decltype(b.phase_)>::type>::value, bool>::type {
  typedef typename std::decay<decltype(b.phase_)>::type P; if (b.phase_ != 0) return false; b.phase_ = (P)(std::numeric_limits<P>::max() - left); return true; }
template <class B> bool age(B&, int, long) { return false; }
template <class B> struct BarAd : BarrierIf {
  typedef typename B::arrival_token token_t;
  int64_t calls = 0; B b;
  static_assert(sizeof(token_t) <= 32, "token");
  template <class D> BarAd(int64_t n, D d) : b((std::ptrdiff_t)n, d) {}
  explicit BarAd(int64_t n) : b((std::ptrdiff_t)n) {}
  int arrive(int64_t n, bool d) override {
    int k = next_slot.fetch_add(1, std::memory_order_relaxed) & 4095; // no two arrivals share a slot
    if (d) new (&tok[k]) token_t(b.arrive()); else new (&tok[k]) token_t(b.arrive((std::ptrdiff_t)n));
    return k;
  }
  void wait(int t) override { b.wait(std::move(*reinterpret_cast<token_t*>(&tok[t]))); }
  void arrive_and_wait() override { b.arrive_and_wait(); }
  void arrive_and_drop() override { b.arrive_and_drop(); }
  bool make_old(int left) override { return age(b, left, 0); }
  void destroy() override { delete this; }
};
template <class C> struct BarC : BarAd<yamc::barrier<C>> { explicit BarC(int64_t n) : BarAd<yamc::barrier<C>>(n, C{&this->calls}) {} static BarrierIf* make(int64_t n) { return new BarC(n); } };
static BarrierIf* mk0(int64_t n) { return new BarAd<yamc::barrier<>>(n); }
static const BarrierType T[] = {
  {"barrier<functor>", &BarC<Compl>::make}, {"barrier<const functor>", &BarC<ComplConst>::make}, {"barrier<>", &mk0},
};
__attribute__((constructor)) static void reg() { add_barrier_types(T, sizeof T / sizeof *T); }
