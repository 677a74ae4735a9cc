// Family "backoff": spinlocks on one simulated processor without preemption; spacing of yields while waiting.
#include "prog.h"
#include "backoff.h"
#include "props.h"
#include "sutcall.h"
#include <stdio.h>
#include <string.h>
#include <algorithm>
using namespace sim;
static const SpinType* g_types[64]; static int g_ntypes;
void add_spin_types(const SpinType* t, int n) { for (int i = 0; i < n; i++) g_types[g_ntypes++] = &t[i]; std::sort(g_types, g_types + g_ntypes, [](const SpinType* a, const SpinType* b) { return strcmp(a->name, b->name) < 0; }); }
static const SpinType* find_type(const std::string& n) { for (int i = 0; i < g_ntypes; i++) if (n == g_types[i]->name) return g_types[i]; return nullptr; }
// step: op 0 lock, 1 try_lock in a loop with yields; a0 lock index; a1 yields while owning; a2 yields afterwards; a3 sleep while owning; a4 yields before
namespace {
const int MT = 5, NL = 2;
struct TS { uint64_t last, acq0; int nyields; };
struct Led { SpinIf* l[NL]; uint64_t nacq; bool pre; const SpinType* t; const Program* p; int nt, owner[NL]; TS th[MT + 1]; int tof[MAXF]; };
Led* L = new Led();
// attempts that do not count as waiting: spurious failures, and (with preemption) losing the race for a lock that was just free
uint64_t slack(const TS& m) { return 4 + 3 * (uint64_t)fired(F_WEAKCAS) + (L->pre ? 2 * (L->nacq - m.acq0 + L->nt) : 0); }
uint64_t on_yield(uint64_t n) {
  TS& m = L->th[L->tof[cur()]]; int init = L->t->init;
  if (!m.nyields) {
    if (init >= 4 && n < (uint64_t)init / 4 * 3) fail(V_YIELD, "%s: T%d gave the processor away after %llu attempts although the initial count is %d", L->t->name, cur(), (unsigned long long)n, init);
    if (init >= 0 && n > (uint64_t)init + init / 4 + 4 + slack(m)) fail(V_YIELD, "%s: T%d first gave the processor away after %llu attempts although the initial count is %d", L->t->name, cur(), (unsigned long long)n, init);
  }
  else if (n > m.last + slack(m)) fail(V_YIELD, "%s: T%d waited %llu attempts until it yielded, longer than the %llu before", L->t->name, cur(), (unsigned long long)n, (unsigned long long)m.last);
  m.nyields++; m.last = n; m.acq0 = L->nacq; if (m.nyields == 20) probe(1);
  return n + slack(m) + 12 + (L->pre ? 80 : 0);   // the cap of faults still to come; STUCK and the comparison above are the sharp checks
}
void thread_main(void* x) {
  int ti = (int)(intptr_t)x; TS& m = L->th[ti];
  for (const Step& s : L->p->th[ti]) {
    for (int k = 0; k < s.a[4]; k++) yield_now();
    int li = (int)s.a[0];
    if (s.op == 0) {
      m.nyields = 0; m.last = 0; m.acq0 = L->nacq;
      int init = L->t->init;
      yield_watch(init < 0 ? 16 : 2 * (uint64_t)init + 32 + (L->pre ? 80 : 0), on_yield);
      op_begin(false);
      OpResult r = sut_call([&] { L->l[li]->lock(); return O_TRUE; });
      yield_watch(0, nullptr);
      if (m.nyields) probe(0);
      if (r.out != O_TRUE) fail(V_EXC, "lock threw");
    } else {
      bool ok = false;
      for (;;) { op_begin(true); sut_call([&] { ok = L->l[li]->try_lock(); return O_TRUE; }); if (ok) break; yield_now(); }
    }
    if (L->owner[li]) fail(V_EXCL, "%s: acquired by T%d while T%d owns it", L->t->name, cur(), L->owner[li] - 1);
    L->owner[li] = cur() + 1; L->nacq++;
    for (int k = 0; k < s.a[1]; k++) yield_now();
    if (s.a[3]) sleep_until(now() + s.a[3]);
    L->owner[li] = 0;
    sut_call([&] { L->l[li]->unlock(); return O_TRUE; });
    for (int k = 0; k < s.a[2]; k++) yield_now();
  }
}
void body(const Program& p) {
  memset((void*)L, 0, sizeof *L);
  L->p = &p; L->t = find_type(p.type); L->nt = (int)p.th.size(); L->pre = p.p[0];
  for (int& x : L->tof) x = MT;
  for (int i = 0; i < NL; i++) sut_call([&] { L->l[i] = L->t->make(); return O_TRUE; });
  for (int i = 0; i < L->nt; i++) { int f = spawn(thread_main, (void*)(intptr_t)i); L->tof[f] = i; }
  join_all();
  for (int i = 0; i < NL; i++) sut_call([&] { L->l[i]->destroy(); return O_TRUE; });
}
void describe(const Program&, int, const Step& s, char* b, size_t n) {
  snprintf(b, n, "%lld yields, %s L%lld, owning: %lld yields, sleep %lld; %lld yields", (long long)s.a[4], s.op ? "try_lock until it succeeds" : "lock", (long long)s.a[0], (long long)s.a[1], (long long)s.a[3], (long long)s.a[2]);
}
bool normalise(Program& p) {
  if (!find_type(p.type) || p.th.empty() || p.th.size() > MT) return false;
  bool any = false;
  for (auto& th : p.th) for (auto& s : th) { any = true; s.op = s.op == 1; if (s.a[0] < 0 || s.a[0] >= NL) s.a[0] = 0; }
  return any;
}
void gen(Rng& r, const Want&, Program& p, RunCfg& c) {
  const SpinType* t = g_types[r.below(g_ntypes)]; p.type = t->name;
  gen_cfg(r, c, false);
  p.p[0] = t->init <= 1000 && r.oneof(4);       // with preemption: only the spacing of the yields is judged
  if (p.p[0]) { c.coop = 0; if (c.strat == 0 || c.strat == 2) c.strat = 1; } else c.strat = 0, c.coop = 1;
  c.race = 0; c.plain = 0; c.finish = 1000000; c.chaos = 100000;
  for (FaultKind k : {F_STALL, F_SYSJUMP, F_SPURIOUS, F_SIGPICK}) c.rate[k] = 0;
  if (c.rate[F_WEAKCAS]) c.cap[F_WEAKCAS] = std::min<int64_t>(c.cap[F_WEAKCAS], 4);
  c.tick = 10;
  int nt = r.range(2, 4); int nl = r.range(1, NL); int heavy = t->init > 500;
  p.th.resize(nt);
  for (int i = 0; i < nt; i++) {
    int ns = r.range(1, heavy ? 2 : 4);
    for (int k = 0; k < ns; k++) {
      Step s; s.op = r.permille(150); s.a[0] = r.below(nl);
      s.a[1] = r.oneof(8) ? r.below(200) : r.oneof(3) ? r.below(40) : 1 + r.below(8); s.a[2] = r.below(3); s.a[4] = r.below(3);
      if (r.permille(60)) s.a[3] = heavy ? 20000 : 100 + r.below(20000);
      p.th[i].push_back(s);
    }
  }
  normalise(p);
}
const char* const probes[] = {"waited with yields", "waited for 20 yields or more", nullptr};
const Family F = {"backoff", gen, body, nullptr, describe, normalise, probes};
__attribute__((constructor)) void reg() { register_family(&F); }
}
