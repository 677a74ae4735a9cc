// Family "sem": one semaphore, producers and consumers, permit ledger.
#include "prog.h"
#include "sems.h"
#include "props.h"
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <limits.h>
#include <algorithm>
using namespace sim;

static const SemType* g_types[32]; static int g_ntypes;
void add_sem_types(const SemType* t, int n) { for (int i = 0; i < n; i++) g_types[g_ntypes++] = &t[i]; std::sort(g_types, g_types + g_ntypes, [](const SemType* a, const SemType* b) { return strcmp(a->name, b->name) < 0; }); }
static const SemType* find_type(const std::string& n) { for (int i = 0; i < g_ntypes; i++) if (n == g_types[i]->name) return g_types[i]; return nullptr; }
const SemType* find_sem_type(const std::string& n) { return find_type(n); }
int sem_type_count() { return g_ntypes; }
const SemType* sem_type_at(int i) { return g_types[i]; }

// params
enum { PS_INIT, PS_DESTROY, PS_DATA, PS_DRAIN };          // PS_DATA: 1 the semaphore is used as a mutex, 2 producer hands data over
enum { OP_REL = 4, OP_REL1 = 5 };
// step: op; a0 unit*10+clk; a1 duration / update; a2 points after; a3 sleep after; a4 sleep before; a5 repeat
namespace {
const int MT = 310;
struct TS { bool in_acq, in_rel; int form; bool nb, timed, isfor, sysrel, uclk; ns_t dl, dur, invt; int clk; int64_t rel_at_start; };
struct Led {
  SemIf* s; const SemType* t; const Program* p; Guarded* data; int nt; TS th[MT];
  int64_t init, rel_inv, rel_ret, acq; int inflight; int fid[MT]; int tof[MAXF];
  bool destroyed, ctor_failed, fed; int done;
  ns_t rt[64]; int64_t rn[64]; int nr;         // release history: virtual time of return, cumulative
};
Led* L = new Led();
TS& me() { return L->th[L->tof[cur()]]; }
const char* fname(int f) { static const char* const n[] = {"acquire", "try_acquire", "try_acquire_for", "try_acquire_until", "release(n)", "release()"}; return n[f]; }
// permits that were available at every instant from the moment `rel` had been released until now
int64_t always_available(int64_t rel, int others) { return (L->init - L->acq - others) + rel; }

bool acquire(int form, TimeArg ta) {
  TS& m = me(); const SemType* t = L->t;
  m.form = form; m.timed = form >= SFR; m.isfor = form == SFR; m.sysrel = false; m.dl = NEVER; m.clk = CLOCK_MONOTONIC;
  if (m.timed) {
    if (m.isfor) { if (t->caps & CAP_SYSFOR) { m.clk = CLOCK_REALTIME; m.sysrel = true; } m.dl = clock_now(m.clk) + ta.ns; if (ta.ns > 0 && m.dl < 0) m.dl = NEVER - 1; }
    else { if (ta.clk == CK_SYSTEM) m.clk = CLOCK_REALTIME; m.dl = ta.ns - (ta.clk == CK_USER ? USER_CLOCK_OFFSET : 0); }
  }
  m.dur = ta.ns; m.uclk = m.timed && !m.isfor && (ta.clk == CK_USER || ((t->caps & (CAP_SYSFOR | CAP_APPLE)) && ta.clk != CK_SYSTEM));
  bool native_conv = m.timed && (((t->caps & CAP_SYSFOR) && m.clk == CLOCK_MONOTONIC) || (!m.isfor && (t->caps & (CAP_WIN | CAP_APPLE)))); // deadline converted to the system clock
  m.nb = form == SY || (m.timed && m.dl <= clock_now(m.clk) && !fired(F_SYSJUMP));
  m.in_acq = true; m.invt = now(); m.rel_at_start = L->rel_ret;
  bool jump0 = fired(F_SYSJUMP);
  L->inflight++;
  if (m.timed) trace("invoke %s(%lld, clk %d)", fname(form), (long long)ta.ns, ta.clk); else trace("invoke %s", fname(form));
  op_begin(m.nb);
  OpResult r = call_sem(L->s, form, ta);
  m.in_acq = false; L->inflight--;
  trace("return %s -> %s %s", fname(form), r.out == O_TRUE ? "acquired" : r.out == O_FALSE ? "false" : "EXCEPTION", r.out > O_TRUE ? r.what : "");
  if (r.out > O_TRUE) {
    if (r.out == O_SYSERR && api_hits()) { probe(3); return false; }         // a failed system call was reported
    if (L->ctor_failed) return false;           // reported: the native semaphore could not be created
    fail(V_EXC, "%s::%s threw '%s'", t->name, fname(form), r.what); return false;
  }
  if (r.out == O_TRUE) {
    L->acq++;
    if (L->ctor_failed) { fail(V_NATIVE, "%s::%s reports a permit although the native semaphore could not be created", t->name, fname(form)); return true; }
    if ((L->init - L->acq) + L->rel_inv < 0)
      fail(V_TOKENS, "%s: %lld acquisitions succeeded but only %lld permits existed (initial %lld + released %lld)", t->name, (long long)L->acq, (long long)((L->init - L->acq) + L->rel_inv + L->acq), (long long)L->init, (long long)L->rel_inv);
    return true;
  }
  if (form == SA) fail(V_EXC, "acquire returned false");
  if (L->ctor_failed) return false;
  if (api_hits()) { probe(3); return false; }
  int64_t avail = always_available(m.rel_at_start, L->inflight);
  if (avail >= 1) fail(V_TRYFALSE, "%s: %s failed although at least %lld permits were available during the whole call", t->name, fname(form), (long long)avail);
  if (m.timed) {
    ns_t c = m.clk == CLOCK_REALTIME ? max_sys() : now();
    bool jumped = fired(F_SYSJUMP) > 0; (void)jump0;
    bool skip = (m.sysrel || native_conv) && jumped;
    if (c < m.dl && !skip) fail(V_EARLY, "%s: %s returned false %lld ns before its deadline", t->name, fname(form), (long long)(m.dl - c));
    if (!jumped && !m.nb) {
      int64_t rel = 0; for (int i = 0; i < L->nr; i++) { ns_t x = m.clk == CLOCK_REALTIME ? L->rt[i] + (sysnow() - now()) : L->rt[i]; if (x < m.dl - ((t->caps & CAP_WIN) ? 2 * cfg_wintick() : 5000)) rel = L->rn[i]; }
      if (always_available(rel, L->inflight) >= 1) fail(V_TRYFALSE, "%s: %s timed out although a permit had been available since before its deadline", t->name, fname(form));
    }
  }
  probe(0);
  return false;
}
bool release(int64_t n, bool deflt, bool force) {
  TS* m = L->tof[cur()] >= 0 ? &me() : nullptr;
  if (!force && n > L->t->max - ((L->init - L->acq) + L->rel_inv)) return false;    // precondition of release
  if (m) m->in_rel = true;
  L->rel_inv += n;
  trace("invoke release(%lld)", (long long)n);
  op_begin(false);
  OpResult r = call_sem_release(L->s, n, deflt);
  if (m) m->in_rel = false;
  trace("return release%s%s", r.out > O_TRUE ? " EXCEPTION " : "", r.what);
  if (r.out > O_TRUE) { L->rel_inv -= n; if (r.out == O_SYSERR && api_hits()) { probe(3); return false; } if (!L->ctor_failed) fail(V_EXC, "%s::release(%lld) threw '%s'", L->t->name, (long long)n, r.what); return false; }
  L->rel_ret += n;
  if (L->ctor_failed && n > 0) fail(V_NATIVE, "%s::release reports success although the native semaphore could not be created", L->t->name);
  if (L->nr < 64) { L->rt[L->nr] = now(); L->rn[L->nr++] = L->rel_ret; }
  return true;
}
TimeArg targ(int form, int64_t code, int64_t d) {
  TimeArg t; t.unit = (int)(code / 10); t.clk = (int)(code % 10); t.ns = d;
  if (is_abs(d)) { if (form == SU_) { t.unit = UN_NS; t.ns = d - ABS0; return t; } d = t.ns = -1; }
  if ((L->t->caps & CAP_SYSFOR) && t.unit == UN_DBL) t.unit = UN_NS;
  t.ns = unit_round(t.unit, d);
  if (form == SU_) {
    int64_t base = t.clk == CK_SYSTEM ? sysnow() : t.clk == CK_USER ? now() + USER_CLOCK_OFFSET : now();
    t.ns = d + base;
    if (until_unit(t.unit) && t.clk != CK_USER) t.ns = unit_floor(t.unit, t.ns);
  }
  return t;
}
void destroy_now() {
  trace("destroy");
  OpResult r = call_sem_destroy(L->s); L->destroyed = true;
  if (r.out > O_TRUE) fail(V_EXC, "destructor of %s threw '%s'", L->t->name, r.what);
}
void pause(int64_t d) { if (d > 0) sleep_until(now() + d); }
void thread_main(void* a) {
  int ti = (int)(intptr_t)a; const Program& p = *L->p; int mode = (int)p.p[PS_DATA];
  int64_t total = L->init; for (auto& th : p.th) for (auto& s : th) if (s.op >= OP_REL) total += s.op == OP_REL1 ? 1 : s.a[1];
  for (const Step& s : p.th[ti]) for (int rep = 0; rep < (s.a[5] > 0 ? s.a[5] : 1); rep++) {
    pause(s.a[4]);
    if (s.op >= OP_REL) {
      if (mode == 1) continue;
      if (mode == 2 && ti == 0) guarded_write(L->data, seq());
      release(s.op == OP_REL1 ? 1 : s.a[1], s.op == OP_REL1, false);
    } else {
      if (p.p[PS_DESTROY] && L->acq >= total && s.op == SA) continue;  // would wait for ever: nobody releases any more
      bool ok = acquire(s.op, targ(s.op, s.a[0], s.a[1]));
      if (ok && mode == 1) guarded_write(L->data, seq());
      if (ok && mode == 2 && !L->fed) guarded_read(L->data);
      for (int k = 0; k < s.a[2]; k++) point(P_BODY, nullptr);
      pause(s.a[3]);
      if (ok && mode == 1) for (int k = 0; k < 12 && !release(1, rep & 1, true) && !L->ctor_failed; k++);   // a failed system call: try again
    }
  }
  if (p.p[PS_DESTROY] && ti == 0) {
    // the only acquirer takes every permit that is ever released, so no release can start afterwards
    while (L->acq < total) acquire(SA, TimeArg{0, 0, 0});
    probe(1); destroy_now();
  }
  if (L->nt > 255) probe(4);
  L->done++;
}
// nobody else releases any more: hand out permits to whoever is blocked, so that every thread can finish
void feeder(void*) {
  for (int k = 0; k < 10000 && L->done < L->nt; k++) {
    pause(3600000000000ll);
    if (L->done >= L->nt || L->ctor_failed) break;
    int blk = 0; for (int i = 0; i < L->nt; i++) if (L->th[i].in_acq && is_blocked(L->fid[i])) blk++;
    if (blk && L->p->p[PS_DATA] != 1 && (L->init - L->acq) + L->rel_inv == 0) { L->fed = true; release(1 + (L->t->max > 1 ? k % std::min(blk, 3) : 0), false, false); }
  }
}
void checker(void*) {
  if (L->ctor_failed) return;
  int64_t avail = (L->init - L->acq) + L->rel_ret; bool drain = L->p->p[PS_DRAIN] && avail <= 80000; int64_t n = drain ? avail : std::min<int64_t>(avail, 40);
  for (int64_t i = 0; i < n + 1; i++) {
    op_begin(true); OpResult r = call_sem(L->s, SY, TimeArg{0, 0, 0});
    bool want = i < avail;
    if (r.out > O_TRUE) { fail(V_RESIDUE, "%s: try_acquire throws '%s' on an unused semaphore", L->t->name, r.what); break; }
    if ((r.out == O_TRUE) != want) { fail(V_TOKENS, "%s: %lld permits must be left (initial %lld + released %lld - acquired %lld) but %s", L->t->name, (long long)avail, (long long)L->init, (long long)L->rel_ret, (long long)L->acq, want ? "try_acquire fails earlier" : "one more can be acquired"); break; }
    if (i == 3 && n > 6 && !drain) { i = n - 1; break; }
  }
  if (n < avail || n > 6) return;
  // empty now: the timed form polls, one release lets exactly one through
  op_begin(true); OpResult r = call_sem(L->s, SFR, TimeArg{UN_NS, 0, -5}); if (r.out == O_TRUE) fail(V_TOKENS, "%s: permit out of nothing", L->t->name);
  if (r.out > O_TRUE) fail(V_EXC, "%s: try_acquire_for(-5ns) threw '%s'", L->t->name, r.what);
  if (L->t->max > 0) {
    r = call_sem_release(L->s, 1, true); op_begin(true); r = call_sem(L->s, SFR, TimeArg{UN_NS, 0, 0});
    if (r.out != O_TRUE) fail(V_TOKENS, "%s: a released permit cannot be acquired", L->t->name);
  }
}
void quiesce(const Program&) {
  if (!L->s || L->destroyed || L->ctor_failed) return;
  int64_t avail = (L->init - L->acq) + L->rel_ret;
  for (int i = 0; i < L->nt; i++) {
    TS& t = L->th[i];
    if (!is_blocked(L->fid[i]) || info(L->fid[i]).wk == W_SLEEP) continue;
    if (t.in_rel) fail(V_BLOCKNB, "%s: T%d is blocked inside release", L->t->name, L->fid[i]);
    if (!t.in_acq) continue;
    if (t.nb && !(t.timed && fired(F_SYSJUMP))) fail(V_BLOCKNB, "%s: T%d waits inside %s, which must not wait", L->t->name, L->fid[i], fname(t.form));
    if (avail > 0) fail(V_HANG, "%s: %lld permits are available, nothing can run, yet T%d stays blocked in %s", L->t->name, (long long)avail, L->fid[i], fname(t.form));
    if (t.timed) {
      ns_t c = clock_next(t.clk); const ns_t slack = (L->t->caps & CAP_WIN) ? 40000000 * (1 + (t.dur > 0 && t.isfor ? t.dur / 2147483647000000ll : 0)) : 5000; bool late;
      bool conv = ((L->t->caps & CAP_SYSFOR) && t.clk == CLOCK_MONOTONIC) || (!t.isfor && (L->t->caps & (CAP_WIN | CAP_APPLE)));
      if (t.isfor || conv || t.uclk) { // converted to another clock inside the call: allow for the time the conversion took
        if ((t.sysrel || conv) && fired(F_SYSJUMP)) continue;
        if (!first_park_time(L->fid[i])) continue;
        late = c >= t.dl + slack + (last_park_time(L->fid[i]) - t.invt);
        if (t.isfor) late = c >= t.dl + slack + (first_park_time(L->fid[i]) - t.invt);
      } else late = c >= t.dl + slack;
      if (late) fail(V_LATE, "%s: T%d waits in %s until %lld ns after its deadline", L->t->name, L->fid[i], fname(t.form), (long long)(c - t.dl));
    }
  }
}
void body(const Program& p) {
  memset((void*)L, 0, sizeof *L);
  L->p = &p; L->t = find_type(p.type); L->nt = (int)p.th.size(); L->init = p.p[PS_INIT];
  for (int i = 0; i < MAXF; i++) L->tof[i] = -1;
  uint32_t f0 = fired(F_API);
  OpResult r; L->data = guarded_make(); L->s = call_sem_make(L->t, L->init, r);
  if (r.out != O_TRUE) { if (fired(F_API) != f0) return; fail(V_EXC, "constructor of %s threw '%s'", L->t->name, r.what); return; }
  L->ctor_failed = fired(F_API) != f0;
  if (L->ctor_failed) probe(2);
  for (int i = 0; i < L->nt; i++) { int f = spawn(thread_main, (void*)(intptr_t)i); L->fid[i] = f; L->tof[f] = i; }
  if (!p.p[PS_DESTROY]) spawn(feeder, nullptr);
  join_all(); stop_faults();
  if (!L->destroyed) { spawn(checker, nullptr); join_all(); destroy_now(); }
}
void describe(const Program&, int, const Step& s, char* b, size_t n) {
  snprintf(b, n, "%s a1=%lld clk/unit=%lld then %lld points, sleep %lld; sleep before %lld; repeat %lld", fname(s.op), (long long)s.a[1], (long long)s.a[0], (long long)s.a[2], (long long)s.a[3], (long long)s.a[4], (long long)s.a[5]);
}
bool normalise(Program& p) {
  const SemType* t = find_type(p.type);
  if (!t || p.th.empty() || p.th.size() > MT) return false;
  if (p.p[PS_INIT] < 0) p.p[PS_INIT] = 0; if (p.p[PS_INIT] > t->max) p.p[PS_INIT] = t->max;
  bool any = false;
  for (auto& th : p.th) for (auto& s : th) { any = true; if (s.op < 0 || s.op > OP_REL1) s.op = SA; if (s.op == OP_REL && (s.a[1] < 0 || s.a[1] > t->max)) s.a[1] = 1; }
  if (p.p[PS_DATA] == 1) p.p[PS_INIT] = 1;
  if (p.p[PS_DATA] == 2) {
    p.p[PS_INIT] = 0;
    for (size_t i = 0; i < p.th.size(); i++) for (auto& s : p.th[i]) if (i ? s.op >= OP_REL : s.op < OP_REL) s.op = i ? (int)SY : (int)OP_REL1;
    if (p.th[0].size() > 1) p.th[0].resize(1);
    if (p.th[0].size()) p.th[0][0].a[5] = 0;
  }
  if (p.p[PS_DESTROY]) {
    p.p[PS_DATA] = 0;
    if (p.th.size() < 2) return false;
    for (size_t i = 0; i < p.th.size(); i++) for (auto& s : p.th[i]) { s.a[5] = 0; if (i ? s.op < OP_REL : s.op >= OP_REL) s.op = i ? (int)OP_REL1 : (int)SY; if (s.op == OP_REL && s.a[1] < 1) s.a[1] = 1; }
    // the counter may never exceed max even if nobody acquires in between
    int64_t tot = p.p[PS_INIT]; for (auto& th : p.th) for (auto& s : th) if (s.op >= OP_REL) tot += s.op == OP_REL1 ? 1 : s.a[1];
    if (tot > t->max || tot > 64) return false;
  }
  return any;
}
void gen(Rng& r, const Want& w, Program& p, RunCfg& c) {
  for (;;) {
    p.th.clear(); memset(p.p, 0, sizeof p.p);
    const SemType* t;
    do t = g_types[r.below(g_ntypes)]; while ((w.mode == M_NATIVE && !(t->caps & CAP_NATIVE)) || ((t->caps & CAP_VARIANT) && !r.oneof(3)));
    p.type = t->name;
    gen_cfg(r, c, true);
    bool native = t->caps & CAP_NATIVE;
    int nt = r.oneof(12) ? r.range(6, 12) : r.range(2, 5);
    int64_t durs[] = {-2000000000000000000ll, -1000000000, -1, 0, 1, 100, 1000, 5000, 50000, 1000000, 3000000, 20000000, 2500000000ll};
    const int64_t far[] = {1000000000, 4500000000ll, 2200000000000ll, 4400000000000ll, 3600000000000ll, 2600000000000000ll};   // beyond 32 bit nano-, micro- and milliseconds
    int pm_far = w.mode != M_DESTROY && r.oneof(4) ? 250 : 0;
    p.p[PS_INIT] = r.below(4);
    if (w.mode == M_DESTROY) { p.p[PS_DESTROY] = 1; nt = r.range(2, 3); if (r.oneof(2)) p.p[PS_INIT] = 0; }
    else if (w.mode == M_RACE || r.permille(100)) p.p[PS_DATA] = r.range(0, 2);
    bool win = t->caps & CAP_WIN, drain = (w.mode == M_SEM || w.mode == M_NATIVE) && t->max > 100 && r.permille(win ? 20 : 6); p.p[PS_DRAIN] = drain;
    bool bign = (!native || win) && t->max > 100 && r.permille(60), near = r.permille(40) && !p.p[PS_DESTROY];
    if (near) p.p[PS_INIT] = t->max - r.below(3);
    bool cont = r.permille(400);      // few permits, many acquirers
    if (cont) p.p[PS_INIT] = r.below(2);
    bool bigd = false;
    p.th.resize(nt);
    int relw = r.range(1, 4), aw[4] = {3, 2, 2, 2};
    for (int& x : aw) if (r.permille(250)) x = 0;
    if (w.mode == M_SEMTIME) { aw[2] += 6; aw[3] += 6; }
    if (!(aw[0] + aw[1] + aw[2] + aw[3])) aw[0] = 1;
    for (int i = 0; i < nt; i++) {
      int ns = w.mode == M_DESTROY ? r.range(i ? 1 : 0, 2) : r.range(1, 5);
      for (int k = 0; k < ns; k++) {
        Step s;
        if ((int)r.below(8) < relw) { s.op = r.oneof(2) ? OP_REL : OP_REL1; s.a[1] = r.below(r.oneof(3) ? 6 : 3); if (s.op == OP_REL1) s.a[1] = 1; if (bign && s.op == OP_REL && w.mode != M_DESTROY) s.a[1] = r.oneof(2) ? win ? 1000000000ll : 3000000000ll : 70000; if (drain && s.op == OP_REL && !bigd) { bigd = true; const int64_t ds[] = {257, 300, 1000, 32768, 40000, 65537, 70000}; s.a[1] = ds[r.below(7)]; } }
        else {
          int tot = aw[0] + aw[1] + aw[2] + aw[3], x = r.below(tot), f = 0; while (x >= aw[f]) x -= aw[f++];
          s.op = f; s.a[0] = 10 * r.below(NUNIT) + r.below(NCK); s.a[1] = durs[r.below(13)]; if (r.oneof(3) && s.a[1] > 0) s.a[1] += r.below(3000);
          if (r.permille(pm_far)) s.a[1] = far[r.below(6)] + r.below(3000);
          if (s.a[0] / 10 >= UN_SEC && r.oneof(2)) s.a[1] = unit_quantum((int)(s.a[0] / 10)) * r.range(0, 3);
          if (f == SU_ && r.permille(60)) { s.a[1] = ABS0 + r.range(-3, 3); if (r.oneof(2)) s.a[0] = CK_SYSTEM; }
        }
        s.a[2] = r.oneof(2) ? r.below(4) : 0; if (r.permille(250)) s.a[3] = durs[4 + r.below(9)]; if (r.permille(350)) s.a[4] = durs[4 + r.below(9)]; if (r.permille(pm_far / 2)) s.a[4] = far[r.below(6)];
        p.th[i].push_back(s);
      }
    }
    if (r.permille(3) && w.mode != M_DESTROY && p.p[PS_DATA] == 0 && !native) { // long history
      Step a, b; a.op = OP_REL1; b.op = SY; p.th[0].clear(); a.a[5] = r.oneof(4) ? 66000 : 300; b.a[5] = a.a[5];
      p.th[0].push_back(a); if (r.oneof(2)) p.th[0].push_back(b); c.chaos = 500; c.finish = 6000000; for (int f = 0; f < NFAULT; f++) c.rate[f] = 0;
      if (t->max < 70000) a.a[5] = 1;
    }
    if (bigd) { c.chaos = 2000; c.finish = 9000000; for (int f = 0; f < NFAULT; f++) c.rate[f] = 0; if (near) p.p[PS_INIT] = 0; }
    if (native && !bigd) {
      if (w.mode == M_SEM || w.mode == M_SEMTIME || w.mode == M_NATIVE) if (r.permille(500)) { c.rate[F_EINTR] = 100 + r.below(600); c.cap[F_EINTR] = 1 + r.below(8); }
      if (w.mode == M_NATIVE && r.permille(300)) { c.rate[F_API] = r.oneof(2) ? 40 : 200; c.cap[F_API] = 1 + r.below(4); }
    }
    if (w.mode == M_SEMTIME && r.permille(300)) { c.rate[F_SYSJUMP] = 20 + r.below(60); c.cap[F_SYSJUMP] = 1 + r.below(6); }
    if (w.mode == M_RACE) { c.race = 1; if (r.permille(600)) { c.rate[F_STALE] = 30 + r.below(500); c.cap[F_STALE] = 50; } }
    // more threads wait at once than an 8 bit counter can count
    if (w.mode != M_DESTROY && r.permille(2) && t->max >= 400) {
      nt = r.range(258, 300); p.th.assign(nt, std::vector<Step>()); p.p[PS_DATA] = p.p[PS_DRAIN] = 0; p.p[PS_INIT] = r.below(3);
      for (int i = 1; i < nt; i++) { Step s; s.op = r.oneof(20) ? SFR : SA; s.a[1] = 3600000000000ll; p.th[i].push_back(s); }
      int64_t left = nt, before = 1000000; while (left > 0 && p.th[0].size() < 4) { Step s; s.op = OP_REL; s.a[1] = p.th[0].size() == 3 || r.oneof(2) ? left : r.range(1, (int)left); s.a[4] = before; if (r.oneof(2)) before = 0; left -= s.a[1]; p.th[0].push_back(s); }
      for (int f = 0; f < NFAULT; f++) c.rate[f] = 0;
      c.wide = 1; c.race = 0; c.plain = 0; c.chaos = 2000; c.finish = 6000000; c.strat = r.oneof(2) ? 0 : 3; c.psw = 20; c.tick = 1;
    }
    if (normalise(p)) return;
  }
}
const char* const probes[] = {"acquisition reported false", "destroyed by its only acquirer", "native semaphore could not be created", "failed system call reported to the caller", "more than 255 threads", nullptr};
const Family F = {"sem", gen, body, quiesce, describe, normalise, probes};
__attribute__((constructor)) void reg() { register_family(&F); }
}
