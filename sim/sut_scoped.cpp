#include "sut_wrap.h"
#include "rt.h"
#include <mutex>
#include <string.h>
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#include "alternate_mutex.hpp"
#include "alternate_shared_mutex.hpp"
#include "fair_mutex.hpp"
#include "fair_shared_mutex.hpp"
#include "checked_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "yamc_scoped_lock.hpp"
using namespace sutad;
const char scoped_kinds[] = "stafFcCrRwWd";
bool scoped_recursive(char k) { return k == 'r' || k == 'R' || k == 'C'; }
namespace {
struct VM { virtual void lock() = 0; virtual bool try_lock() = 0; virtual void unlock() = 0; virtual void del() = 0; };
template <class M> struct VMx : VM { M m; void lock() override { m.lock(); } bool try_lock() override { return m.try_lock(); } void unlock() override { m.unlock(); } void del() override { delete this; } };
VM* mk(char k) {
  switch (k) {
    case 's': return new VMx<yamc::spin::mutex>; case 't': return new VMx<yamc::spin_ttas::mutex>; case 'a': return new VMx<yamc::alternate::mutex>;
    case 'f': return new VMx<yamc::fair::mutex>; case 'F': return new VMx<yamc::fair::timed_mutex>; case 'c': return new VMx<yamc::checked::mutex>;
    case 'C': return new VMx<yamc::checked::recursive_mutex>; case 'r': return new VMx<yamc::alternate::recursive_mutex>; case 'R': return new VMx<yamc::fair::recursive_mutex>;
    case 'w': return new VMx<yamc::alternate::shared_mutex>; case 'W': return new VMx<yamc::fair::shared_mutex>; default: return new VMx<std::mutex>;
  }
}
// two C++ types, so that std::lock sees both equal and differing mutex types
template <int K> struct Any {
  VM* v; int id;
  void pre(int kind) { if (wrap_before(id, kind, false)) throw Injected(); }
  void lock() { pre(WK_LOCK); v->lock(); wrap_after(id, WK_LOCK, false, true); }
  bool try_lock() { pre(WK_TRY); bool ok = v->try_lock(); wrap_after(id, WK_TRY, false, ok); return ok; }
  void unlock() { if (wrap_release(id, false)) v->unlock(); }
};
struct Impl : ScopedIf {
  VM* v[SC_NM]; Any<0> a[SC_NM]; Any<1> b[SC_NM]; bool isb[SC_NM];
  explicit Impl(const char* kinds) { for (int i = 0; i < SC_NM; i++) { v[i] = mk(kinds[i]); a[i].v = b[i].v = v[i]; a[i].id = b[i].id = i; isb[i] = kinds[SC_NM + i] == 'b'; } }
  struct Th : ScopedStack {
    Impl& o; int depth = 0;
    struct Ent { typename std::aligned_storage<64, 16>::type mem; void (*del)(void*); } st[SC_DEPTH];
    explicit Th(Impl& x) : o(x) {}
    template <class... M> void make(bool adopt, M&... m) {
      typedef yamc::scoped_lock<M...> SL_; static_assert(sizeof(SL_) <= 64, "");
      Ent& e = st[depth];
      if (adopt) new (&e.mem) SL_(std::adopt_lock, m...); else new (&e.mem) SL_(m...);
      e.del = [](void* p) { static_cast<SL_*>(p)->~SL_(); };
      depth++;
    }
    template <int N, class... M> typename std::enable_if<N == 0>::type rec(bool adopt, const int*, M&... m) { make(adopt, m...); }
    template <int N, class... M> typename std::enable_if<(N > 0 && (N + sizeof...(M) > 4))>::type rec(bool adopt, const int* ids, M&... m) { rec<N - 1>(adopt, ids + 1, m..., o.a[*ids]); }   // five or more: one C++ type
    template <int N, class... M> typename std::enable_if<(N > 0 && (N + sizeof...(M) <= 4))>::type rec(bool adopt, const int* ids, M&... m) {
      if (o.isb[*ids]) rec<N - 1>(adopt, ids + 1, m..., o.b[*ids]); else rec<N - 1>(adopt, ids + 1, m..., o.a[*ids]);
    }
    void enter(const int* ids, int n, bool adopt) override {
      switch (n) { case 0: rec<0>(adopt, ids); break; case 1: rec<1>(adopt, ids); break; case 2: rec<2>(adopt, ids); break; case 3: rec<3>(adopt, ids); break; case 4: rec<4>(adopt, ids); break; case 5: rec<5>(adopt, ids); break; case 6: rec<6>(adopt, ids); break; default: rec<7>(adopt, ids); }
    }
    void leave() override { depth--; st[depth].del(&st[depth].mem); }
  };
  ScopedStack* make_thread() override { return new Th(*this); }
  bool try_one(int i) override { return a[i].try_lock(); }
  void lock_one(int i) override { a[i].lock(); }
  void unlock_one(int i) override { a[i].unlock(); }
  void destroy() override { for (VM* x : v) x->del(); delete this; }
};
}
ScopedIf* scoped_make(const char* kinds) { return new Impl(kinds); }
