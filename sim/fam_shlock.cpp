// Family "shlock": shared_lock objects of several threads over mutexes that count and throw; ownership model.
#include "prog.h"
#include "wraps.h"
#include "props.h"
#include "sutcall.h"
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <algorithm>
using namespace sim;
WrapHooks g_wrap;
bool wrap_before(int id, int kind, bool sh) { return g_wrap.before ? g_wrap.before(id, kind, sh) : false; }
void wrap_after(int id, int kind, bool sh, bool ok) { if (g_wrap.after) g_wrap.after(id, kind, sh, ok); }
bool wrap_release(int id, bool sh) { return g_wrap.release ? g_wrap.release(id, sh) : true; }

static const ShlType* g_types[16]; static int g_ntypes;
void add_shl_types(const ShlType* t, int n) { for (int i = 0; i < n; i++) g_types[g_ntypes++] = &t[i]; std::sort(g_types, g_types + g_ntypes, [](const ShlType* a, const ShlType* b) { return strcmp(a->name, b->name) < 0; }); }
static const ShlType* find_type(const std::string& n) { for (int i = 0; i < g_ntypes; i++) if (n == g_types[i]->name) return g_types[i]; return nullptr; }

// step: op (LK_* or OP_WRITE); a0 slot; a1 other slot; a2 mutex; a3 duration; a4 points after; a5 sleep after; a6 clk + 4*unit; a7 sleep before
enum { OP_WRITE = LK_NOPS };
namespace {
const int MT = 6;
struct Slot { int m; bool owns; };
struct TS {
  Slot sl[SHL_NS]; int held[SHL_NM]; bool wheld[SHL_NM];
  bool in_op, nb, writer; int op; int calls, lastok, threw; bool direct, inwait, timed, isfor, uclk; ns_t dl, inv, dur; int clk;
};
struct Led { ShlMutexes* mu; const ShlType* t; const Program* p; int nt; TS th[MT + 1]; int fid[MT + 1]; int tof[MAXF]; bool checking; };
Led* L = new Led();
const char* opname(int o) { static const char* const n[] = {"shared_lock()", "shared_lock(m)", "shared_lock(m,defer)", "shared_lock(m,try)", "shared_lock(m,adopt)", "shared_lock(m,until)", "shared_lock(m,for)", "shared_lock(move)", "operator=(move)", "swap", "std::swap", "lock", "try_lock", "try_lock_for", "try_lock_until", "unlock", "release", "destroy", "(exclusive lock and unlock)"}; return n[o]; }
TS& me() { return L->th[L->tof[cur()]]; }
// ---- called by the wrapped mutexes
bool h_before(int id, int kind, bool) { TS& m = me(); m.calls++; if (!L->checking && !m.writer && fault(F_THROW)) { m.threw++; m.lastok = -1; return true; } m.inwait = true; (void)id; (void)kind; return false; }
void h_after(int id, int, bool sh, bool ok) {
  TS& m = me(); m.lastok = ok; m.inwait = false;
  if (!ok) return;
  if (sh) m.held[id]++; else m.wheld[id] = true;
  for (int i = 0; i <= L->nt; i++) if (&L->th[i] != &m && (L->th[i].wheld[id] || (!sh && L->th[i].held[id]))) fail(V_RWEXCL, "M%d acquired by T%d while T%d holds it", id, cur(), L->fid[i]);
}
bool h_release(int id, bool sh) {
  TS& m = me(); m.calls++;
  if (sh ? m.held[id] <= 0 : !m.wheld[id]) { fail(V_OWN, "%s: %s released M%d although T%d holds no lock on it", L->t->name, opname(m.op), id, cur()); return false; }
  if (sh) m.held[id]--; else m.wheld[id] = false;
  return true;
}
void check_slots(TS& m, ShlIf* th, int op) {
  int want[SHL_NM] = {0};
  for (int i = 0; i < SHL_NS; i++) {
    ShlState st; { Sut s; st = th->state(i); }
    if (st.owns != m.sl[i].owns || st.asbool != m.sl[i].owns) fail(V_OWN, "%s: after %s slot %d reports %s (bool %d) but %s a lock", L->t->name, opname(op), i, st.owns ? "ownership" : "no ownership", st.asbool, m.sl[i].owns ? "owns" : "does not own");
    if (st.mutex != m.sl[i].m) fail(V_OWN, "%s: after %s slot %d is associated with mutex %d instead of %d", L->t->name, opname(op), i, st.mutex, m.sl[i].m);
    if (m.sl[i].owns) want[m.sl[i].m]++;
  }
  for (int k = 0; k < SHL_NM; k++) if (m.held[k] != want[k]) fail(V_OWN, "%s: after %s T%d holds %d shared locks on M%d but its shared_locks own %d", L->t->name, opname(op), cur(), m.held[k], k, want[k]);
}
void pause(int64_t d) { if (d > 0) sleep_until(now() + d); }
bool holds(TS& m, int id) { return m.held[id] > 0; }
bool holds_above(TS& m, int id) { for (int k = id; k < SHL_NM; k++) if (m.held[k]) return true; return false; }

void step(TS& m, ShlIf* th, const Step& s) {
  int op = s.op, i = (int)s.a[0], j = (int)s.a[1], mi = (int)s.a[2];
  Slot& a = m.sl[i]; Slot& b = m.sl[j];
  if (op == LK_MOVE && i == j) return;
  bool ctor = op <= LK_MOVE, acq = (op >= LK_LOCK && op <= LK_FOR && op != LK_DEFER) || (op >= LK_OPLOCK && op <= LK_OPUNTIL);
  bool opform = op >= LK_OPLOCK && op <= LK_OPUNTIL;
  int target = opform ? a.m : mi;
  if (acq && target >= 0) {
    bool mine = m.held[target] - (ctor && a.owns && a.m == target ? 1 : 0) > 0;
    if (!(opform && a.owns) && mine) return;               // re-acquiring is undefined
    if (op == LK_LOCK || op == LK_ADOPT || op == LK_OPLOCK) for (int k = target; k < SHL_NM; k++) if (m.held[k] - (ctor && a.owns && a.m == k ? 1 : 0) > 0 && !(opform && a.owns)) return; // keep blocking requests ordered
  }
  TimeArg t; t.unit = (int)(s.a[6] >> 2) % NUNIT; t.clk = (int)(s.a[6] & 3) % NCK; t.ns = s.a[3];
  if (op == LK_FOR || op == LK_OPFOR) t.ns = unit_round(t.unit, t.ns);
  const int64_t dur = t.ns;
  if (op == LK_UNTIL || op == LK_OPUNTIL) t.ns += t.clk == CK_SYSTEM ? sysnow() : t.clk == CK_USER ? now() + USER_CLOCK_OFFSET : now();
  bool timed = op == LK_UNTIL || op == LK_FOR || op == LK_OPUNTIL || op == LK_OPFOR;
  // expected failure without effect
  Out want = O_TRUE;
  if (opform) want = a.m < 0 ? O_PERM : a.owns ? O_DEADLOCK : O_TRUE;
  if (op == LK_UNLOCK) want = a.owns ? O_TRUE : O_PERM;
  m.op = op; m.calls = 0; m.lastok = -2; m.threw = 0; m.in_op = true; m.inwait = false;
  m.nb = !(op == LK_LOCK || op == LK_ADOPT || op == LK_OPLOCK || timed) || want != O_TRUE;
  ns_t t0 = now();
  m.timed = timed; m.isfor = op == LK_FOR || op == LK_OPFOR; m.uclk = t.clk == CK_USER; m.clk = !m.isfor && t.clk == CK_SYSTEM ? 0 : 1; m.dur = dur; m.inv = t0; m.dl = clock_now(m.clk) + dur;
  trace("invoke slot %d.%s (M%d, %lld, other %d)", i, opname(op), target, (long long)s.a[3], j);
  op_begin(m.nb);
  OpResult r = sut_call([&] { return th->op(op, i, j, mi, t) ? O_TRUE : O_FALSE; });
  m.in_op = false; m.inwait = false;
  trace("return %s -> %s %s", opname(op), r.out == O_TRUE ? "true" : r.out == O_FALSE ? "false" : "EXCEPTION", r.out > O_TRUE ? r.what : "");
  if (want != O_TRUE) {
    probe(0);
    if (r.out != want) fail(V_OWN, "%s: %s on a shared_lock that %s must throw and change nothing, got %s", L->t->name, opname(op), op == LK_UNLOCK ? "does not own" : a.m < 0 ? "has no mutex" : "already owns", r.out == O_TRUE ? "success" : r.out == O_FALSE ? "false" : r.what);
    if (m.calls) fail(V_OWN, "%s: %s touched the mutex although it had to throw", L->t->name, opname(op));
    check_slots(m, th, op); return;
  }
  // model
  if (ctor) { bool self = op == LK_MOVE; Slot mv = b; a = Slot{-1, false}; if (self) { a = mv; b = Slot{-1, false}; } }
  if (acq) {
    if (m.threw) { probe(1); if (r.out != O_OTHER) fail(V_OWN, "%s: %s: the failure of the underlying operation did not reach the caller", L->t->name, opname(op)); }
    else if (r.out > O_TRUE) fail(V_EXC, "%s: %s threw '%s'", L->t->name, opname(op), r.what);
    else {
      bool got = m.lastok == 1;
      if (m.lastok == -2) fail(V_OWN, "%s: %s did not use the mutex", L->t->name, opname(op));
      if (op == LK_OPLOCK || op == LK_LOCK || op == LK_ADOPT) { if (!got) fail(V_OWN, "%s: %s returned without the lock", L->t->name, opname(op)); }
      else if ((r.out == O_TRUE) != got) fail(V_OWN, "%s: %s says %s but the mutex said %s", L->t->name, opname(op), r.out == O_TRUE ? "acquired" : "not acquired", got ? "acquired" : "not acquired");
      if (timed && !got && !fired(F_SYSJUMP) && dur > 0 && now() < t0 + dur) fail(V_OWN, "%s: %s gave up %lld ns early", L->t->name, opname(op), (long long)(t0 + dur - now()));
      if (!got) probe(2);
      a.m = target; a.owns = got;
    }
  } else {
    if (r.out > O_TRUE) fail(V_EXC, "%s: %s threw '%s'", L->t->name, opname(op), r.what);
    switch (op) {
      case LK_DEFER: a = Slot{mi, false}; break;
      case LK_ASSIGN: if (i == j) { ShlState st; { Sut u; st = th->state(i); } if (st.mutex != -1 && st.mutex != a.m) fail(V_OWN, "%s: assigning slot %d to itself associated it with mutex %d instead of %d", L->t->name, i, st.mutex, a.m); a = Slot{st.mutex, st.owns && a.owns && st.mutex >= 0}; break; }   // unspecified, but consistent: the counts in check_slots() decide
        a = b; b = Slot{-1, false}; break;
      case LK_SWAP: case LK_STDSWAP: std::swap(a, b); break;
      case LK_UNLOCK: a.owns = false; break;
      case LK_RELEASE: case LK_DESTROY: a = Slot{-1, false}; break;
    }
  }
  check_slots(m, th, op);
}
void thread_main(void* x) {
  int ti = (int)(intptr_t)x; TS& m = L->th[ti];
  ShlIf* th = nullptr; { Sut s; th = L->mu->make_thread(); }
  for (const Step& s : L->p->th[ti]) {
    pause(s.a[7]);
    if (s.op == OP_WRITE) {
      bool any = false; for (int k = 0; k < SHL_NM; k++) any |= m.held[k] > 0;
      if (any) continue;
      m.writer = true; m.timed = false; m.op = OP_WRITE; m.in_op = true; m.nb = false; op_begin(false);
      sut_call([&] { L->mu->lock((int)s.a[2]); return O_TRUE; });
      m.in_op = false;
      for (int k = 0; k < s.a[4]; k++) point(P_BODY, nullptr);
      pause(s.a[5]);
      sut_call([&] { L->mu->unlock((int)s.a[2]); return O_TRUE; });
      m.writer = false; continue;
    }
    step(m, th, s);
    for (int k = 0; k < s.a[4]; k++) point(P_BODY, nullptr);
    pause(s.a[5]);
  }
  m.op = LK_DESTROY; { Sut s; th->destroy_all(); }
  for (int k = 0; k < SHL_NM; k++) if (m.held[k]) fail(V_OWN, "%s: T%d still holds M%d after all its shared_locks are gone", L->t->name, cur(), k);
}
void checker(void*) {
  L->checking = true;
  for (int k = 0; k < SHL_NM; k++) {
    bool ok = false; op_begin(true);
    OpResult r = sut_call([&] { ok = L->mu->try_lock(k); return O_TRUE; });
    if (r.out > O_TRUE || !ok) fail(V_RESIDUE, "%s: M%d cannot be locked exclusively after all shared_locks are gone", L->t->name, k);
    else sut_call([&] { L->mu->unlock(k); return O_TRUE; });
  }
}
void quiesce(const Program&) {
  for (int i = 0; i < L->nt; i++) {
    TS& t = L->th[i];
    if (t.in_op && t.nb && is_blocked(L->fid[i]) && info(L->fid[i]).wk != W_SLEEP) fail(V_BLOCKNB, "%s: T%d waits inside %s, which must not wait", L->t->name, L->fid[i], opname(t.op));
    if (t.in_op && t.timed && t.inwait && is_blocked(L->fid[i]) && first_park_time(L->fid[i])) {
      ns_t slack = 5000; if (t.isfor) slack += first_park_time(L->fid[i]) - t.inv; else if (t.uclk) slack += last_park_time(L->fid[i]) - t.inv;
      if (clock_next(t.clk) >= t.dl + slack) fail(V_LATE, "%s: T%d waits in %s until %lld ns after its deadline", L->t->name, L->fid[i], opname(t.op), (long long)(clock_next(t.clk) - t.dl));
    }
  }
}
void body(const Program& p) {
  memset((void*)L, 0, sizeof *L);
  L->p = &p; L->t = find_type(p.type); L->nt = (int)p.th.size();
  g_wrap.before = h_before; g_wrap.after = h_after; g_wrap.release = h_release;
  for (int& x : L->tof) x = MT;
  for (int i = 0; i < MT; i++) for (auto& s : L->th[i].sl) s = Slot{-1, false};
  OpResult r = sut_call([&] { L->mu = L->t->make(); return O_TRUE; });
  if (r.out != O_TRUE) { fail(V_EXC, "constructor threw"); return; }
  for (int i = 0; i < L->nt; i++) { int f = spawn(thread_main, (void*)(intptr_t)i); L->fid[i] = f; L->tof[f] = i; }
  join_all(); stop_faults();
  spawn(checker, nullptr); join_all();
  r = sut_call([&] { L->mu->destroy(); return O_TRUE; });
  if (r.out > O_TRUE) fail(V_RESIDUE, "mutex destructor threw '%s'", r.what);
}
void describe(const Program&, int, const Step& s, char* b, size_t n) {
  snprintf(b, n, "slot %lld.%s other=%lld M%lld dur=%lld clk=%lld, then %lld points, sleep %lld, sleep before %lld", (long long)s.a[0], opname(s.op), (long long)s.a[1], (long long)s.a[2], (long long)s.a[3], (long long)s.a[6], (long long)s.a[4], (long long)s.a[5], (long long)s.a[7]);
}
bool normalise(Program& p) {
  if (!find_type(p.type) || p.th.empty() || p.th.size() > MT) return false;
  bool any = false;
  for (auto& th : p.th) for (auto& s : th) { any = true; if (s.op < 0 || s.op > OP_WRITE) s.op = LK_DEFAULT; for (int k : {0, 1, 2}) if (s.a[k] < 0 || s.a[k] > 2) s.a[k] = 0; }
  return any;
}
void gen(Rng& r, const Want&, Program& p, RunCfg& c) {
  p.type = g_types[r.below(g_ntypes)]->name;
  gen_cfg(r, c, true);
  if (r.permille(800)) c.rate[F_SYSJUMP] = 0;
  if (r.permille(500)) { c.rate[F_THROW] = r.oneof(2) ? 100 : 400; c.cap[F_THROW] = 1 + r.below(5); }
  int nt = r.permille(300) ? 1 : r.range(2, 4);
  int wt[LK_NOPS + 1] = {1, 4, 3, 3, 2, 2, 2, 3, 4, 3, 2, 5, 5, 4, 4, 6, 3, 3, 3}; for (int& x : wt) if (r.permille(200)) x = 0;
  int tot = 0; for (int x : wt) tot += x; if (!tot) { wt[LK_LOCK] = 1; tot = 1; }
  int64_t durs[] = {-1, 0, 1, 100, 1000, 5000, 50000, 1000000, 20000000, 3000000000ll, 7200000000000ll};
  int slots = r.range(1, 3), muts = r.range(1, 3);
  p.th.resize(nt);
  for (int i = 0; i < nt; i++) {
    int ns = r.range(1, nt == 1 ? 16 : 8); bool writer = nt > 1 && r.permille(300);
    for (int k = 0; k < ns; k++) {
      Step s; int x = r.below(tot), f = 0; while (x >= wt[f]) x -= wt[f++];
      s.op = writer ? (int)OP_WRITE : f; s.a[0] = r.below(slots); s.a[1] = r.below(slots); s.a[2] = r.below(muts); s.a[3] = durs[r.below(r.oneof(4) ? 11 : 9)];
      s.a[4] = r.below(r.oneof(2) ? 2 : 6); if (r.permille(150)) s.a[5] = durs[2 + r.below(7)]; s.a[6] = r.below(NCK) + 4 * (r.oneof(3) ? r.below(NUNIT) : 0); if (r.permille(150)) s.a[7] = durs[2 + r.below(7)];
      p.th[i].push_back(s);
    }
  }
  normalise(p);
}
const char* const probes[] = {"operation that must throw without effect", "underlying operation threw", "underlying operation failed or timed out", nullptr};
const Family F = {"shlock", gen, body, quiesce, describe, normalise, probes};
__attribute__((constructor)) void reg() { register_family(&F); }
}
