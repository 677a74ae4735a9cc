// Family "latch": one latch, many counters and waiters.
#include "prog.h"
#include "sems.h"
#include "props.h"
#include <stdio.h>
#include <string.h>
using namespace sim;
// params: 0 expected, 1 destroy, 2 data
enum { PL_N, PL_DESTROY, PL_DATA };
// step: op; a1 update; a2 points after; a3 sleep after; a4 sleep before
namespace {
const int MT = 310;
struct TL { bool in_wait, in_cd; int op; };
struct Led { LatchIf* l; const Program* p; Guarded* data[MT]; int nt; TL th[MT]; int64_t n, inv, ret; int fid[MT]; int tof[MAXF]; bool destroyed, saw_open; };
Led* L = new Led();
const char* oname(int o) { static const char* const n[] = {"count_down(n)", "count_down()", "wait", "try_wait", "arrive_and_wait(n)", "arrive_and_wait()"}; return n[o]; }
void destroy_now() { trace("destroy"); call_latch_destroy(L->l); L->destroyed = true; }
bool counts(int op) { return op == LO_COUNT || op == LO_COUNT1 || op == LO_AAW || op == LO_AAW1; }
bool waits(int op) { return op == LO_WAIT || op == LO_AAW || op == LO_AAW1; }
int64_t upd(const Step& s) { return s.op == LO_COUNT1 || s.op == LO_AAW1 ? 1 : s.a[1]; }
void opened() { for (int i = 0; i < L->nt; i++) guarded_read(L->data[i]); }
void thread_main(void* a) {
  int ti = (int)(intptr_t)a; TL& m = L->th[ti];
  for (const Step& s : L->p->th[ti]) {
    if (s.a[4] > 0) sleep_until(now() + s.a[4]);
    int64_t u = counts(s.op) ? upd(s) : 0;
    bool done0 = L->ret == L->n, open0 = L->saw_open;
    if (u > 0 && L->p->p[PL_DATA]) guarded_write(L->data[ti], seq());
    // the known last arriver: everyone else has counted down and returned, and thread 0 may destroy the latch as soon as it is let out
    if (L->p->p[PL_DESTROY] == 2 && ti == L->nt - 1) { while (L->ret < L->n - u) sleep_until(now() + 1000); probe(1); }
    L->inv += u; m.op = s.op; m.in_wait = waits(s.op); m.in_cd = !waits(s.op);
    trace("invoke %s %lld", oname(s.op), (long long)u);
    op_begin(!waits(s.op));
    OpResult r = call_latch(L->l, s.op, u);
    m.in_wait = m.in_cd = false; L->ret += u;
    trace("return %s -> %d", oname(s.op), (int)r.out);
    if (r.out > O_TRUE) { fail(V_EXC, "latch::%s threw '%s'", oname(s.op), r.what); return; }
    bool open = waits(s.op) || (s.op == LO_TRY && r.out == O_TRUE);
    if (open) {
      L->saw_open = true;
      if (L->inv != L->n) fail(V_LATCH, "latch: %s %s when only %lld of %lld had been counted down", oname(s.op), s.op == LO_TRY ? "reported true" : "returned", (long long)L->inv, (long long)L->n);
      if (L->p->p[PL_DATA]) opened();
    }
    if (s.op == LO_TRY && r.out != O_TRUE && (done0 || open0)) fail(V_LATCH, "latch: try_wait reports false although the count had reached zero before the call");
    for (int k = 0; k < s.a[2]; k++) point(P_BODY, nullptr);
    if (s.a[3] > 0) sleep_until(now() + s.a[3]);
  }
  if (L->nt > 255) probe(2);
  if (L->p->p[PL_DESTROY] && ti == 0) { probe(0); destroy_now(); }
}
void checker(void*) {
  op_begin(true); OpResult r = call_latch(L->l, LO_TRY, 0);
  if ((r.out == O_TRUE) != (L->ret == L->n)) fail(V_LATCH, "latch: after %lld of %lld count-downs try_wait reports %d", (long long)L->ret, (long long)L->n, (int)r.out);
  if (L->ret == L->n) { call_latch(L->l, LO_WAIT, 0); r = call_latch(L->l, LO_AAW, 0); if (r.out > O_TRUE) fail(V_EXC, "latch: arrive_and_wait(0) threw"); op_begin(true); call_latch(L->l, LO_COUNT, 0); r = call_latch(L->l, LO_TRY, 0); if (r.out != O_TRUE) fail(V_LATCH, "latch does not stay open"); }
}
void quiesce(const Program&) {
  if (!L->l || L->destroyed) return;
  for (int i = 0; i < L->nt; i++) {
    if (!is_blocked(L->fid[i]) || info(L->fid[i]).wk == W_SLEEP) continue;
    if (L->th[i].in_cd) fail(V_BLOCKNB, "latch: T%d is blocked inside %s", L->fid[i], oname(L->th[i].op));
    if (L->th[i].in_wait && L->inv == L->n) fail(V_HANG, "latch: the count has reached zero, nothing can run, yet T%d stays blocked in %s", L->fid[i], oname(L->th[i].op));
  }
}
void body(const Program& p) {
  memset((void*)L, 0, sizeof *L);
  L->p = &p; L->nt = (int)p.th.size(); L->n = p.p[PL_N];
  OpResult r; L->l = call_latch_make(L->n, r);
  if (r.out != O_TRUE) { fail(V_EXC, "latch constructor threw '%s'", r.what); return; }
  for (int i = 0; i < L->nt; i++) L->data[i] = guarded_make();
  for (int i = 0; i < L->nt; i++) { int f = spawn(thread_main, (void*)(intptr_t)i); L->fid[i] = f; L->tof[f] = i; }
  join_all(); stop_faults();
  if (!L->destroyed) { spawn(checker, nullptr); join_all(); destroy_now(); }
}
void describe(const Program&, int, const Step& s, char* b, size_t n) { snprintf(b, n, "%s n=%lld then %lld points, sleep %lld; sleep before %lld", oname(s.op), (long long)s.a[1], (long long)s.a[2], (long long)s.a[3], (long long)s.a[4]); }
// valid programs: count-downs add up to the expected count; a thread never waits before its last count-down
bool normalise(Program& p) {
  if (p.th.empty() || p.th.size() > MT) return false;
  int64_t sum = 0; bool any = false;
  for (auto& th : p.th) {
    int lastc = -1; for (size_t i = 0; i < th.size(); i++) { if (th[i].op < 0 || th[i].op > LO_AAW1) th[i].op = LO_TRY; if (counts(th[i].op)) { if (th[i].op == LO_COUNT1 || th[i].op == LO_AAW1) th[i].a[1] = 1; if (th[i].a[1] < 0) th[i].a[1] = 0; lastc = (int)i; } }
    for (size_t i = 0; i < th.size(); i++) { any = true; Step& s = th[i];
      if ((int)i < lastc) { if (s.op == LO_WAIT) s.op = LO_TRY; if (s.op == LO_AAW) s.op = LO_COUNT; if (s.op == LO_AAW1) s.op = LO_COUNT1; }
      if (counts(s.op)) sum += upd(s); }
  }
  p.p[PL_N] = sum;
  if (p.p[PL_DESTROY] == 2) {
    // thread 0 only waits; the last thread makes the last count-down by arrive_and_wait; the others count down
    size_t n = p.th.size(); if (n < 2) return false;
    for (size_t i = 0; i < n; i++) {
      if (i + 1 == n) { if (p.th[i].size() != 1 || (p.th[i][0].op != LO_AAW && p.th[i][0].op != LO_AAW1) || upd(p.th[i][0]) == 0) return false; continue; }
      if (i == 0 && (p.th[i].empty() || p.th[i].back().op != LO_WAIT)) return false;
      for (size_t k = 0; k < p.th[i].size(); k++) { Step& s = p.th[i][k]; if (i == 0 && k + 1 == p.th[i].size()) continue; if (s.op != LO_COUNT && s.op != LO_COUNT1) return false; }
    }
  } else if (p.p[PL_DESTROY]) {
    // thread 0 is the only one that waits; the others only count down, each by at least one
    bool w = false; if (p.p[PL_DESTROY] != 1) return false;
    for (size_t i = 0; i < p.th.size(); i++) for (auto& s : p.th[i]) {
      if (i == 0) w = w || waits(s.op);
      else { if (s.op == LO_WAIT || s.op == LO_TRY) return false; if (s.op == LO_AAW) s.op = LO_COUNT; if (s.op == LO_AAW1) s.op = LO_COUNT1; if (upd(s) == 0) return false; }
    }
    if (!w) return false;
  }
  return any;
}
void gen(Rng& r, const Want& w, Program& p, RunCfg& c) {
  do {
    p.th.clear(); memset(p.p, 0, sizeof p.p);
    gen_cfg(r, c, true);
    int nt = r.permille(700) ? r.range(2, 4) : r.range(5, 8);
    p.p[PL_DESTROY] = w.mode == M_DESTROY ? 1 + r.oneof(3) : 0; if (w.mode == M_DESTROY) nt = r.range(2, 3);
    p.p[PL_DATA] = w.mode == M_RACE || r.permille(150);
    int64_t durs[] = {1, 100, 1000, 50000, 1000000, 20000000};
    bool big = r.permille(100);
    p.th.resize(nt);
    for (int i = 0; i < nt; i++) {
      int ns = r.range(w.mode == M_DESTROY && i ? 1 : 0, 4);
      for (int k = 0; k < ns; k++) {
        Step s; s.op = w.mode == M_DESTROY && i ? (int)r.below(2) : (int)r.below(6); s.a[1] = r.below(4) + (w.mode == M_DESTROY); if (big && r.oneof(2)) s.a[1] = r.oneof(2) ? 3000000000ll : (1ll << 60) / 8;
        s.a[2] = r.oneof(2) ? r.below(4) : 0; if (r.permille(250)) s.a[3] = durs[r.below(6)]; if (r.permille(350)) s.a[4] = durs[r.below(6)];
        p.th[i].push_back(s);
      }
      if (i == 0 || r.oneof(2)) { Step s; s.op = w.mode == M_DESTROY ? (i ? LO_COUNT1 : r.oneof(3) ? LO_AAW1 : LO_WAIT) : r.oneof(3) ? LO_AAW1 : LO_WAIT; p.th[i].push_back(s); if (r.oneof(3) && w.mode != M_DESTROY) { s.op = r.oneof(2) ? LO_WAIT : LO_TRY; p.th[i].push_back(s); } }
    }
    if (p.p[PL_DESTROY] == 2) {
      for (int i = 0; i + 1 < nt; i++) { for (auto& s : p.th[i]) { if (s.op != LO_COUNT && s.op != LO_COUNT1) s.op = LO_COUNT; } }
      Step s; s.op = LO_WAIT; p.th[0].push_back(s);
      Step f; if (!p.th[nt - 1].empty()) f = p.th[nt - 1].back(); f.op = r.oneof(2) ? LO_AAW : LO_AAW1; if (f.a[1] < 1) f.a[1] = 1; p.th[nt - 1].assign(1, f);
    }
    // more threads wait at once than an 8 bit counter can count
    if (w.mode != M_DESTROY && r.permille(2)) {
      nt = r.range(258, 300); p.th.assign(nt, std::vector<Step>()); p.p[PL_DATA] = 0; bool all = r.oneof(2);
      for (int i = 0; i < nt; i++) { Step s; s.op = i < 2 ? (int)LO_COUNT : all ? (r.oneof(3) ? LO_AAW : LO_AAW1) : LO_WAIT; s.a[1] = 1; if (i < 2) { s.a[1] = r.below(3); s.a[4] = i ? 1000000 : r.below(2000000); } p.th[i].push_back(s); }
      for (int f = 0; f < NFAULT; f++) c.rate[f] = 0;
      c.wide = 1; c.race = 0; c.plain = 0; c.chaos = 2000; c.finish = 6000000; c.strat = r.oneof(2) ? 0 : 3; c.psw = 20; c.tick = 1;
    } else
    if (w.mode == M_RACE) { c.race = 1; if (r.permille(600)) { c.rate[F_STALE] = 30 + r.below(500); c.cap[F_STALE] = 50; } }
  } while (!normalise(p));
}
const char* const probes[] = {"destroyed by its only waiter", "destroyed while the last arriver was on its way out of arrive_and_wait", "more than 255 threads", nullptr};
const Family F = {"latch", gen, body, quiesce, describe, normalise, probes};
__attribute__((constructor)) void reg() { register_family(&F); }
}
