// Family "barrier": one barrier, several participants with weights, several phases, droppers.
#include "prog.h"
#include "sems.h"
#include "props.h"
#include <stdio.h>
#include <string.h>
#include <algorithm>
using namespace sim;
static const BarrierType* g_types[16]; static int g_ntypes;
void add_barrier_types(const BarrierType* t, int n) { for (int i = 0; i < n; i++) g_types[g_ntypes++] = &t[i]; std::sort(g_types, g_types + g_ntypes, [](const BarrierType* a, const BarrierType* b) { return strcmp(a->name, b->name) < 0; }); }
static const BarrierType* find_type(const std::string& n) { for (int i = 0; i < g_ntypes; i++) if (n == g_types[i]->name) return g_types[i]; return nullptr; }
const BarrierType* find_barrier_type(const std::string& n) { return find_type(n); }

enum { PB_PHASES, PB_DESTROY, PB_DATA, PB_AGE, PB_REP, PB_W0 /* weights of threads 0.. */ };
// one step per phase and thread. op: 0 arrive(w-1)+arrive_and_wait, 1 arrive(w)+wait, 2 arrivals one by one, wait for all tokens,
// 3 arrive(w), no wait (last phase only), 4 arrive(w-1)+arrive_and_drop
// 5 arrive, another thread (that never arrives itself) waits with the token: with weight 1 the arriving thread waits for that one,
//   otherwise it arrives a second time, waits with its own token, and may be phases ahead when the other one gets to run
// a1 seed of variation, a2 points between arrive and wait, a3 sleep between, a4 sleep before arriving, a5 sleep after
namespace {
const int MT = 310, MP = 24;
struct TB { int op; int phase; bool in; bool nb; };
struct Mail { int tok; int phase; bool full, quit, nb, data; int taken, back; };
struct Led {
  BarrierIf* b; const BarrierType* t; const Program* p; int nt; TB th[MT]; TB hth[MT]; int hfid[MT]; Mail mail[MT]; Guarded* cell[2][MT]; Guarded* comp; int fid[MT]; int tof[MAXF];
  int64_t n; int64_t inv[MP]; int64_t drops[MP]; int base; int64_t started, done; bool has_completion, destroyed; int phases; bool aged; int over;
  int64_t arrived_ret;
};
Led* L = new Led();
const char* oname(int o) { static const char* const n[] = {"arrive", "wait", "arrive_and_wait", "arrive_and_drop"}; return n[o]; }
int64_t weight(const Program& p, int i) { return PB_W0 + i < (int)(sizeof p.p / sizeof *p.p) ? p.p[PB_W0 + i] : 1; }
int64_t expected(int k) { int64_t e = L->n; for (int i = 0; i < k && i < MP; i++) e -= L->drops[i]; return e; }
bool complete(int k) { return k < L->over || L->inv[k % MP] >= expected(k); }
// phases beyond MP only occur in repeat runs without drops; their arrival counts are kept modulo MP and reset by the completion check
int slot(int k) { return k % MP; }
void do_call(TB& m, int op, int64_t n, int phase, int& token, bool nb, bool data = true) {
  m.op = op; m.phase = phase; m.in = true; m.nb = nb;
  if (op != BO_WAIT) { L->inv[slot(phase)] += op == BO_ARRIVE ? (n < 0 ? 1 : n) : 1; }
  if (op == BO_DROP) L->drops[slot(phase)]++;
  trace("invoke %s n=%lld phase=%d", oname(op), (long long)n, phase);
  op_begin(op == BO_ARRIVE || nb);
  OpResult r = call_barrier(L->b, op, n, token);
  m.in = false;
  if (op != BO_WAIT && phase == L->phases - 1) L->arrived_ret += op == BO_ARRIVE ? (n < 0 ? 1 : n) : 1;
  trace("return %s phase=%d", oname(op), phase);
  if (r.out > O_TRUE) { fail(V_EXC, "%s::%s threw '%s'", L->t->name, oname(op), r.what); return; }
  if (op == BO_WAIT || op == BO_AAW) {
    if (!complete(phase)) fail(V_BARRIER, "%s: T%d left %s of phase %d when only %lld of %lld arrivals had been made", L->t->name, cur(), oname(op), phase, (long long)L->inv[slot(phase)], (long long)expected(phase));
    if (L->has_completion && L->done < phase + 1) fail(V_BARRIER, "%s: T%d left %s of phase %d before its completion function had run (%lld completions)", L->t->name, cur(), oname(op), phase, (long long)L->done);
    if (data && L->p->p[PB_DATA]) { for (int i = 0; i < L->nt; i++) guarded_read(L->cell[phase & 1][i]); if (L->has_completion) guarded_read(L->comp); }
  }
}
void pause(int64_t d) { if (d > 0) sleep_until(now() + d); }
void destroy_now() { trace("destroy"); call_barrier_destroy(L->b); L->destroyed = true; }
void helper_main(void* a) {
  int ti = (int)(intptr_t)a; Mail& b = L->mail[ti];
  for (;;) {
    while (!b.full && !b.quit) ev_wait(&b);
    if (!b.full) return;
    hb_acquire(&b);
    int tok = b.tok, ph = b.phase; bool nb = complete(ph) && (!L->has_completion || L->done > ph), data = b.data;
    b.full = false; b.taken++; ev_wake(&b);
    do_call(L->hth[ti], BO_WAIT, 0, ph, tok, nb, data);
    if (L->done > ph + 2) probe(5); if (L->done > ph + 255) probe(7);
    b.back++; ev_wake(&b);
  }
}
void thread_main(void* a) {
  int ti = (int)(intptr_t)a; TB& m = L->th[ti]; const Program& p = *L->p;
  int64_t w = weight(p, ti); int tok, tok2[8];
  int64_t reps = p.p[PB_REP] > 0 ? p.p[PB_REP] : 1; int phase = 0; bool solo = reps > 1 && L->nt == 1;
  for (int64_t rp = 0; rp < reps && w > 0; rp++)
  for (size_t k = 0; k < p.th[ti].size() && w > 0; k++, phase++) {
    const Step& s = p.th[ti][k];
    // slots of the ring are reused: everything about phase-MP/2 is long over
    if (reps > 1) { L->inv[slot(phase + MP / 2)] = 0; L->over = std::max(L->over, solo ? phase : phase - MP / 2 + 1); }
    pause(s.a[4]);
    // the last arriver of the last phase: everyone else has arrived and returned, and thread 0 may destroy the barrier as soon as it is let out
    if (p.p[PB_DESTROY] == 2 && ti == L->nt - 1 && phase == L->phases - 1) { while (L->arrived_ret < expected(phase) - w) pause(1000); probe(3); }
    if (p.p[PB_DATA]) guarded_write(L->cell[phase & 1][ti], seq());
    bool last = rp == reps - 1 && k + 1 == p.th[ti].size();
    int op = s.op; if (op == 3 && !last) op = 1;
    if (solo && op == 5) {   // the other thread sleeps through a number of whole phases
      static const int gap[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 32, 64, 256};
      Mail& b = L->mail[ti];
      if (b.full || b.back != b.taken) {
        if (phase - b.phase >= gap[s.a[1] & 15]) { pin(L->hfid[ti], false); while (b.full || b.back != b.taken) ev_wait(&b); hb_acquire(&b); }
        else op = 1;
      }
      if (op == 5) {
        do_call(m, BO_ARRIVE, w - 1, phase, tok, false);
        b.tok = tok; b.phase = phase; b.data = false; b.full = true; ev_wake(&b); pause(1000);
        if (!b.full) pin(L->hfid[ti], true);
        do_call(m, BO_ARRIVE, 1, phase, tok2[0], false); do_call(m, BO_WAIT, 0, phase, tok2[0], true); probe(6);
        continue;
      }
    }
    switch (op) {
      case 0: if (w > 1) do_call(m, BO_ARRIVE, w - 1, phase, tok, false); for (int i = 0; i < s.a[2]; i++) point(P_BODY, nullptr); do_call(m, BO_AAW, 1, phase, tok, false); break;
      case 1: case 3:
        do_call(m, BO_ARRIVE, w == 1 && (s.a[1] & 1) ? -1 : w, phase, tok, false);
        if (op == 3) break;
        for (int i = 0; i < s.a[2]; i++) point(P_BODY, nullptr); pause(s.a[3]);
        do_call(m, BO_WAIT, 0, phase, tok, complete(phase) && (!L->has_completion || L->done > phase)); break;
      case 2: {
        int nt = (int)std::min<int64_t>(w, 8); int64_t left = w;
        for (int i = 0; i < nt; i++) { int64_t n = i == nt - 1 ? left : 1; left -= n; do_call(m, BO_ARRIVE, n, phase, tok2[i], false); if (s.a[1] >> i & 1) point(P_BODY, nullptr); }
        pause(s.a[3]);
        for (int i = 0; i < nt; i++) do_call(m, BO_WAIT, 0, phase, tok2[(s.a[1] & 1) ? nt - 1 - i : i], i > 0);
        break; }
      case 4:
        if (w > 1) { do_call(m, BO_ARRIVE, w - 1, phase, tok, false); do_call(m, BO_DROP, 1, phase, tok2[0], false); pause(s.a[3]); do_call(m, BO_WAIT, 0, phase, tok, false); }
        else do_call(m, BO_DROP, 1, phase, tok, false);
        w--; probe(1); break;
      case 5: {
        Mail& b = L->mail[ti];
        while (b.back != b.taken) ev_wait(&b);   // still busy with an earlier token
        do_call(m, BO_ARRIVE, w == 1 ? 1 : w - 1, phase, tok, false);
        if (w > 1 && (s.a[1] & 4)) do_call(m, BO_ARRIVE, 1, phase, tok2[0], false);
        b.tok = tok; b.phase = phase; b.data = w == 1; b.full = true; int n = b.taken; ev_wake(&b);
        if (w > 1) {
          pause(s.a[3]);
          if (!(s.a[1] & 4)) do_call(m, BO_ARRIVE, 1, phase, tok2[0], false);
          do_call(m, BO_WAIT, 0, phase, tok2[0], false);
          while (b.taken == n) ev_wait(&b);
        } else while (b.back == n) ev_wait(&b);
        hb_acquire(&b); probe(6); break; }
    }
    pause(s.a[5]);
  }
  if (L->hfid[ti]) { if (solo) pin(L->hfid[ti], false); L->mail[ti].quit = true; ev_wake(&L->mail[ti]); }
  if (L->nt > 255) probe(4);
  if (p.p[PB_DESTROY] && ti == 0) { probe(0); destroy_now(); }
}
void quiesce(const Program&) {
  if (!L->b || L->destroyed) return;
  for (int j = 0; j < 2 * L->nt; j++) {
    int i = j >> 1, id = j & 1 ? L->hfid[i] : L->fid[i]; TB& t = j & 1 ? L->hth[i] : L->th[i];
    if (!t.in || !is_blocked(id) || info(id).wk == W_SLEEP) continue;
    if (t.op == BO_ARRIVE) fail(V_BLOCKNB, "%s: T%d is blocked inside arrive", L->t->name, id);
    if (t.nb) fail(V_BLOCKNB, "%s: T%d is blocked in wait with a token of the completed phase %d", L->t->name, id, t.phase);
    if (complete(t.phase)) fail(V_HANG, "%s: all %lld arrivals of phase %d have been made, nothing can run, yet T%d stays blocked in %s", L->t->name, (long long)expected(t.phase), t.phase, id, oname(t.op));
    if (t.op == BO_DROP && !known_finding("arrive_and_drop_waits")) fail(V_BARRIER, "%s: T%d waits inside arrive_and_drop for the phase to complete", L->t->name, id);
  }
}
void body(const Program& p) {
  memset((void*)L, 0, sizeof *L);
  L->p = &p; L->t = find_type(p.type); L->nt = (int)p.th.size(); L->phases = (int)p.p[PB_PHASES];
  L->has_completion = strcmp(L->t->name, "barrier<>") != 0;
  for (int i = 0; i < L->nt; i++) L->n += weight(p, i);
  OpResult r; L->b = call_barrier_make(L->t, L->n, r);
  if (r.out != O_TRUE) { fail(V_EXC, "barrier constructor threw '%s'", r.what); return; }
  if (p.p[PB_AGE] > 0) { L->aged = call_barrier_age(L->b, (int)p.p[PB_AGE] - 1); if (L->aged) probe(2); }
  for (int i = 0; i < L->nt; i++) L->cell[0][i] = guarded_make(), L->cell[1][i] = guarded_make();
  L->comp = guarded_make();
  for (int i = 0; i < L->nt; i++) { int f = spawn(thread_main, (void*)(intptr_t)i); L->fid[i] = f; L->tof[f] = i; }
  for (int i = 0; i < L->nt; i++) for (auto& st : p.th[i]) if (st.op == 5) { L->hfid[i] = spawn(helper_main, (void*)(intptr_t)i); break; }
  join_all(); stop_faults();
  if (L->destroyed) return;
  int64_t reps = p.p[PB_REP] > 0 ? p.p[PB_REP] : 1, want = 0;
  if (reps > 1) want = reps * L->phases; else for (int k = 0; k < L->phases; k++) if (expected(k) > 0 && complete(k)) want++;
  if (L->has_completion && L->done != want) fail(V_BARRIER, "%s: %lld phases completed but the completion function ran %lld times", L->t->name, (long long)want, (long long)L->done);
  destroy_now();
}
void describe(const Program& p, int th, const Step& s, char* b, size_t n) {
  static const char* const o[] = {"arrive(w-1), arrive_and_wait", "arrive(w), wait", "arrive one by one, wait for every token", "arrive(w) without wait", "arrive(w-1), arrive_and_drop", "arrive, another thread waits with the token"};
  snprintf(b, n, "%s (weight %lld) var=%lld points=%lld sleeps: between %lld before %lld after %lld", o[s.op % 6], (long long)weight(p, th), (long long)s.a[1], (long long)s.a[2], (long long)s.a[3], (long long)s.a[4], (long long)s.a[5]);
}
bool normalise(Program& p) {
  if (!find_type(p.type) || p.th.empty() || p.th.size() > MT) return false;
  // removing a thread keeps the weights aligned because they are clamped to >= 1
  size_t K = 0; for (auto& t : p.th) K = std::max(K, t.size());
  if (!K || K > (size_t)MP - 2) return false;
  p.p[PB_PHASES] = K;
  for (size_t i = 0; i < p.th.size(); i++) {
    int64_t one = 1, &w = weight(p, (int)i) != 1 || PB_W0 + i < sizeof p.p / sizeof *p.p ? p.p[PB_W0 + i] : one; if (w < 1) w = 1; if (w > (1ll << 57)) w = 1ll << 57;
    auto& t = p.th[i];
    while (t.size() < K) t.push_back(t.empty() ? Step() : t.back());
    for (size_t k = 0; k < K; k++) { Step& s = t[k]; if (s.op < 0 || s.op > 5) s.op = 0; if (s.op == 5 && (p.p[PB_DESTROY] || p.th.size() > 20)) s.op = 1; int lop = s.op; if (p.p[PB_REP] > 1 && s.op >= 3 && (s.op != 5 || p.th.size() > 1 || w < 2)) s.op = 1;
      if (p.p[PB_DESTROY]) { if (s.op == 4) s.op = 1; if (k + 1 == K) { if (i == 0) { if (s.op == 3 || p.p[PB_DESTROY] == 2) s.op = 1; } else if (p.p[PB_DESTROY] == 2 && i + 1 == p.th.size()) { if (lop != 4 || w != 1) s.op = 0; else s.op = 4; } else s.op = 3; } } }
  }
  if (p.p[PB_DESTROY] && p.th.size() < 2) return false;
  return true;
}
void gen(Rng& r, const Want& w, Program& p, RunCfg& c) {
  gen_cfg(r, c, true);
  p.type = g_types[r.below(g_ntypes)]->name;
  int nt = r.permille(800) ? r.range(1, 4) : r.range(5, 8), K = r.range(1, 5);
  p.p[PB_DESTROY] = w.mode == M_DESTROY ? 1 + r.oneof(3) : 0; if (w.mode == M_DESTROY) { nt = r.range(2, 3); K = r.range(1, 3); }
  p.p[PB_DATA] = w.mode == M_RACE || r.permille(150);
  if (r.permille(60)) p.p[PB_AGE] = 1 + r.below(3);
  int dropp = w.mode == M_DROP ? r.range(100, 500) : w.mode == M_BARRIER || w.mode == M_DESTROY ? 0 : 60;
  if (w.mode == M_DROP && nt < 2) nt = 2;
  int64_t durs[] = {1, 100, 1000, 50000, 1000000, 20000000};
  p.th.resize(nt);
  bool tokens = r.permille(150), weighted = r.permille(tokens ? 800 : 400);
  for (int i = 0; i < nt; i++) {
    p.p[PB_W0 + i] = weighted ? r.range(1, 4) : 1; if (r.permille(25)) p.p[PB_W0 + i] = r.oneof(2) ? 1000000 : r.oneof(2) ? 3000000000ll : 1ll << 57;
    for (int k = 0; k < K; k++) {
      Step s; int x = r.below(10); s.op = x < 4 ? 0 : x < 7 ? 1 : x < 9 ? 2 : 3; if (tokens && r.oneof(3)) s.op = 5; if (r.permille(dropp)) s.op = 4;
      s.a[1] = r.below(256); s.a[2] = r.oneof(2) ? r.below(5) : 0;
      if (r.permille(200)) s.a[3] = durs[r.below(6)]; if (r.permille(250)) s.a[4] = durs[r.below(6)]; if (r.permille(150)) s.a[5] = durs[r.below(6)];
      if (p.p[PB_DESTROY] == 2 && i == nt - 1 && k == K - 1 && r.oneof(2)) s.op = 4;
      p.th[i].push_back(s);
    }
  }
  if (dropp == 0 && w.mode != M_DESTROY && r.permille(4)) { p.p[PB_REP] = r.oneof(5) ? 66000 / K : 300 / K; if (p.p[PB_REP] > 500) { p.th.resize(1 + r.below(2)); for (auto& t : p.th) for (auto& s : t) { s.a[2] = s.a[3] = s.a[4] = s.a[5] = 0; } p.p[PB_DATA] = 0; }
    c.chaos = 1500; c.finish = 9000000; for (int f = 0; f < NFAULT; f++) c.rate[f] = 0; c.race = 0; }
  // one participant, and a waiter that sleeps through many phases
  if (w.mode != M_DESTROY && r.permille(dropp ? 10 : 30)) {
    K = r.range(1, 3); p.th.assign(1, std::vector<Step>()); p.p[PB_W0] = r.range(2, 4); p.p[PB_DATA] = 0; p.p[PB_REP] = r.range(5, 40); if (r.permille(50)) p.p[PB_REP] = 600 / K;
    for (int k = 0; k < K; k++) { Step s; s.op = k ? r.below(3) : 5; s.a[1] = p.p[PB_REP] > 40 ? 14 + r.below(2) : r.below(14); p.th[0].push_back(s); }
    c.rate[F_STALL] = 0; c.chaos = 200 * K * p.p[PB_REP]; c.finish += c.chaos; if (p.p[PB_REP] > 40) c.race = 0;
  } else
  // more threads wait at once than an 8 bit counter can count
  if (w.mode != M_DESTROY && r.permille(2)) {
    nt = r.range(258, 300); p.th.assign(nt, std::vector<Step>()); K = r.range(1, 3); for (int i = 0; i < 11; i++) p.p[PB_W0 + i] = 1; p.p[PB_REP] = p.p[PB_DATA] = p.p[PB_AGE] = 0; int64_t dp = r.oneof(2) ? dropp : 0;
    for (int i = 0; i < nt; i++) for (int k = 0; k < K; k++) { Step s; s.op = r.permille(dp) ? 4 : r.below(2); if (!i) s.a[4] = 1000000; p.th[i].push_back(s); }
    for (int f = 0; f < NFAULT; f++) c.rate[f] = 0;
    c.wide = 1; c.race = 0; c.plain = 0; c.chaos = 2000; c.finish = 9000000; c.strat = r.oneof(2) ? 0 : 3; c.psw = 20; c.tick = 1;
  } else
  if (w.mode == M_RACE) { c.race = 1; if (r.permille(600)) { c.rate[F_STALE] = 30 + r.below(500); c.cap[F_STALE] = 50; } }
  normalise(p);
}
const char* const probes[] = {"destroyed by its only waiter", "participants dropped", "barrier started near the end of its phase counter's range", "destroyed while the last arriver was on its way out of arrive_and_wait", "more than 255 threads", "a waiter slept through two further phases", "waited with another thread's token", "a waiter slept through 255 further phases", nullptr};
const Family F = {"barrier", gen, body, quiesce, describe, normalise, probes};
__attribute__((constructor)) void reg() { register_family(&F); }
}
void barrier_completion() {
  if (!L || !L->b) return;
  int k = (int)L->started++;
  trace("completion function begins (phase %d)", k);
  if (L->done != k) fail(V_BARRIER, "%s: completion function entered again while it runs", L->t->name);
  if (!complete(k) || expected(k) <= 0) fail(V_BARRIER, "%s: completion function ran for phase %d after %lld of %lld arrivals", L->t->name, k, (long long)L->inv[slot(k)], (long long)expected(k));
  if (L->p->p[PB_DATA]) { for (int i = 0; i < L->nt; i++) guarded_read(L->cell[k & 1][i]); guarded_write(L->comp, k); }
  point(P_BODY, nullptr); point(P_BODY, nullptr);
  L->done = k + 1;
}
