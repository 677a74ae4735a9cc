// Family "misuse": one checked mutex, correct users and misusing users; every misuse must be reported and change nothing.
#include "prog.h"
#include "locks.h"
#include "props.h"
#include <stdio.h>
#include <string.h>
#include <time.h>
using namespace sim;
const LockType* find_lock_type(const std::string& n); int lock_type_count(); const LockType* lock_type_at(int i);
void sim_set_abort_hook(void (*h)());

// params: threads in the mask end while owning; who destroys such an object (0 main thread, 1 the last owner itself)
enum { PU_ABANDON, PU_SELFDEST, PU_CHURN, PU_REBORN };
enum { OP_UNX = NFORM, OP_UNS, NOPS };
// step: op; a0 unit*10+clk; a1 duration; a2 points after; a3 sleep after; a4 sleep before; a5 allow misuse
namespace {
const int MT = 8;
struct TU { int xc, sc; bool in_op, misuse, nb, shared, rel; int op; };
struct Led { LockIf* lk; const LockType* t; const Program* p; int nt, done; TU th[MT + 1]; int fid[MT + 1]; int tof[MAXF]; Guarded* data; bool destroyed, ended, quiet; int misuses; LockIf* rb; bool rsh, rheld, rout; };
Led* L = new Led();
const char* opname(int f) { static const char* const n[] = {"lock", "try_lock", "try_lock_for", "try_lock_until", "lock_shared", "try_lock_shared", "try_lock_shared_for", "try_lock_shared_until", "unlock", "unlock_shared"}; return n[f]; }
bool sh_op(int op) { return (op >= SL && op < NFORM) || op == OP_UNS; }
TU& me() { return L->th[L->tof[cur()]]; }
void on_abort() {
  int i = L->tof[cur()]; TU& m = L->th[i];
  if (m.in_op && m.misuse && (L->t->caps & CAP_ABORT)) { probe(1); mark_contended(); L->ended = true; return; }
  fail(L->t->caps & CAP_ABORT ? V_FALSEREPORT : V_CRASH, "%s: abort() called in %s by T%d although it was used correctly", L->t->name, opname(m.op), cur());
}
bool anyowner(int except) { for (int i = 0; i < L->nt; i++) if (i != except && (L->th[i].xc || L->th[i].sc)) return true; return false; }
void do_op(int op, TimeArg ta) {
  TU& m = me(); const LockType* t = L->t; int ti = L->tof[cur()];
  bool acq = op < NFORM, own = m.xc || m.sc;
  m.op = op; m.shared = sh_op(op); m.rel = !acq;
  m.misuse = acq ? own && !(t->caps & CAP_REC) : op == OP_UNX ? !m.xc : !m.sc;
  m.nb = m.misuse || own || !acq || op == XT || op == ST;
  if (m.misuse) { L->misuses++; probe(anyowner(ti) ? 3 : 2); }
  m.in_op = true;
  trace("invoke %s%s", opname(op), m.misuse ? "  (misuse)" : "");
  op_begin(m.nb);
  OpResult r = acq ? call_op(L->lk, op, ta) : call_unlock(L->lk, op == OP_UNS);
  m.in_op = false;
  trace("return %s -> %s %s", opname(op), r.out == O_TRUE ? "ok" : r.out == O_FALSE ? "false" : "EXCEPTION", r.out > O_TRUE ? r.what : "");
  bool rep = r.out == O_DEADLOCK || r.out == O_PERM || r.out == O_SYSERR;
  if (m.misuse) {
    probe(0);
    if (!rep) fail(V_MISUSE, "%s: %s by T%d, which %s, was not reported (%s)", t->name, opname(op), cur(), acq ? "already owns it" : "does not own it that way", r.out == O_TRUE ? "returned normally" : r.out == O_FALSE ? "returned false" : r.what);
    else if (t->caps & CAP_ABORT) fail(V_MISUSE, "%s: misuse %s threw instead of calling abort()", t->name, opname(op));
    return;
  }
  if (r.out > O_TRUE) { fail(V_FALSEREPORT, "%s: %s by T%d threw '%s' although it was used correctly", t->name, opname(op), cur(), r.what); return; }
  if (!acq) return;
  if (r.out == O_TRUE) {
    for (int i = 0; i < L->nt; i++) if (i != ti) {
      TU& o = L->th[i];
      if (o.xc) fail(m.shared ? V_RWEXCL : V_EXCL, "%s: T%d acquired by %s while T%d owns it", t->name, cur(), opname(op), L->fid[i]);
      if (o.sc && !m.shared) fail(V_RWEXCL, "%s: T%d acquired by %s while T%d holds it shared", t->name, cur(), opname(op), L->fid[i]);
    }
    if (m.shared) m.sc++; else m.xc++;
    if (!m.shared) guarded_write(L->data, seq()); else guarded_read(L->data);
  } else if (op == XL || op == SL) fail(V_EXC, "blocking lock returned false");
}
// releases are taken out of the ledger before the call
void release(bool sh) {
  TU& m = me(); const LockType* t = L->t;
  if (sh) m.sc--; else m.xc--;
  m.in_op = true; m.misuse = false; m.rel = true; m.op = sh ? OP_UNS : OP_UNX; m.nb = true;
  trace("invoke %s", opname(m.op));
  op_begin(false);
  OpResult r = call_unlock(L->lk, sh);
  m.in_op = false; trace("return %s", opname(m.op));
  if (r.out > O_TRUE) fail(V_FALSEREPORT, "%s: %s by its owner T%d threw '%s'", t->name, opname(m.op), cur(), r.what);
}
void pause(int64_t d) { if (d > 0) sleep_until(now() + d); }
TimeArg targ(int op, int64_t code, int64_t d) {
  TimeArg t; t.unit = UN_NS; t.clk = (int)(code % NCK); t.ns = d;
  if (op == XU || op == SU) t.ns += t.clk == CK_SYSTEM ? sysnow() : t.clk == CK_USER ? now() + USER_CLOCK_OFFSET : now();
  return t;
}
void destroy_now() {
  TU& m = L->th[L->tof[cur()]];
  bool owned = anyowner(-1);
  m.in_op = true; m.misuse = owned; m.op = OP_UNX; m.rel = true;
  trace("invoke destructor%s", owned ? "  (misuse: owned)" : "");
  if (owned) L->misuses++;
  L->destroyed = true;
  OpResult r = call_destroy(L->lk);
  m.in_op = false;
  bool rep = r.out == O_DEADLOCK || r.out == O_PERM || r.out == O_SYSERR;
  if (owned) { probe(4); if (!rep || (L->t->caps & CAP_ABORT)) fail(V_MISUSE, "%s: destroying it while a thread owns it was not reported%s", L->t->name, rep ? " by abort()" : ""); }
  else if (r.out > O_TRUE) fail(V_FALSEREPORT, "%s: destroying an unowned object threw '%s'", L->t->name, r.what);
}
void thread_main(void* a) {
  int ti = (int)(intptr_t)a; TU& m = L->th[ti]; const Program& p = *L->p;
  for (const Step& s : p.th[ti]) {
    pause(s.a[4]);
    int op = s.op; bool own = m.xc || m.sc;
    if (!s.a[5]) { // correct use only
      if (op < NFORM && own && !(L->t->caps & CAP_REC)) continue;
      if (op == OP_UNX && !m.xc) continue; if (op == OP_UNS && !m.sc) continue;
    }
    if (p.p[PU_ABANDON] && !own && (op == XL || op == SL)) op++;      // an abandoned lock is never released: do not wait for it
    if (op == OP_UNX && m.xc) release(false);
    else if (op == OP_UNS && m.sc) release(true);
    else do_op(op, targ(op, s.a[0], s.a[1]));
    for (int k = 0; k < s.a[2]; k++) point(P_BODY, nullptr);
    pause(s.a[3]);
  }
  if (!(p.p[PU_ABANDON] >> ti & 1)) { while (m.xc) release(false); while (m.sc) release(true); }
  hb_release(L); bool last = ++L->done == L->nt; if (last) hb_acquire(L);
  if (last && p.p[PU_SELFDEST] && (m.xc || m.sc)) destroy_now();
}
// several more objects, some destroyed while owned: what they took adds up if it is not given back (C31)
void churn(int n) {
  LockIf* k[12]; if (n > 12) n = 12; if (L->t->caps & CAP_ABORT) return;
  for (int i = 0; i < n; i++) { OpResult r; k[i] = call_make(L->t, r); if (r.out != O_TRUE) { fail(V_EXC, "constructor of %s threw '%s'", L->t->name, r.what); return; } }
  for (int i = 0; i < n; i++) {
    bool sh = (L->t->caps & CAP_SHARED) && i % 3 == 0, own = i % 4 != 3; TimeArg t{0, 0, 0};
    op_begin(false); OpResult r = call_op(k[i], sh ? SL : XL, t);
    if (r.out != O_TRUE) { fail(V_RESIDUE, "%s: a new object cannot be locked (%s)", L->t->name, r.what); return; }
    if (!own) call_unlock(k[i], sh);
    r = call_destroy(k[i]);
    if (own != (r.out == O_DEADLOCK || r.out == O_PERM || r.out == O_SYSERR)) fail(own ? V_MISUSE : V_FALSEREPORT, "%s: destroying %s object %s", L->t->name, own ? "an owned" : "an unowned", own ? "was not reported" : "threw");
  }
}
// objects destroyed while owned (reported), then others where they were: the new ones start unowned and are used correctly by two threads
void reborn_helper(void*) {
  while (!L->rb && !L->rout) ev_wait(&L->rb);
  if (!L->rb) return;
  hb_acquire(&L->rb); TimeArg t{0, 0, 0};
  for (int k = 0; k < 2; k++) {
    op_begin(false); OpResult r = call_op(L->rb, k == 0 && L->rsh ? SL : XL, t);
    if (r.out != O_TRUE) { fail(V_FALSEREPORT, "%s: lock of a new object at the address of a destroyed one: %s", L->t->name, r.what); return; }
    L->rheld = true; ev_wake(&L->rheld);
    sleep_until(now() + 2000);
    r = call_unlock(L->rb, k == 0 && L->rsh); if (r.out > O_TRUE) { fail(V_FALSEREPORT, "%s: unlock of a new object at the address of a destroyed one threw '%s'", L->t->name, r.what); return; }
    sleep_until(now() + (k ? 0 : 1000));
  }
}
void reborn(void*) {
  LockIf* k[4]; int n = (int)L->p->p[PU_REBORN] & 3; bool sh = (L->t->caps & CAP_SHARED) && (L->p->p[PU_REBORN] & 4); TimeArg t{0, 0, 0}; OpResult r; n++;
  for (int i = 0; i < n; i++) { k[i] = call_make(L->t, r); if (r.out != O_TRUE) { fail(V_EXC, "constructor of %s threw '%s'", L->t->name, r.what); return; } }
  for (int i = 0; i < n; i++) {
    op_begin(false); r = call_op(k[i], sh ? SL : XL, t); if (r.out != O_TRUE) { fail(V_RESIDUE, "%s: a new object cannot be locked (%s)", L->t->name, r.what); return; }
    r = call_destroy(k[i]); if (!(r.out == O_DEADLOCK || r.out == O_PERM || r.out == O_SYSERR)) fail(V_MISUSE, "%s: destroying an owned object was not reported", L->t->name);
  }
  LockIf* q = call_make(L->t, r); if (r.out != O_TRUE) { fail(V_EXC, "constructor of %s threw '%s'", L->t->name, r.what); return; }
  bool same = false; for (int i = 0; i < n; i++) if (q == k[i]) same = true; if (same) probe(5);
  L->rsh = (L->t->caps & CAP_SHARED) && (L->p->p[PU_REBORN] & 8); hb_release(&L->rb); L->rb = q; ev_wake(&L->rb);
  while (!L->rheld) ev_wait(&L->rheld);
  for (int j = 0; j < 2; j++) {
    bool s2 = sh && j; op_begin(false); r = call_op(q, s2 ? SL : XL, t);
    if (r.out != O_TRUE) { fail(V_FALSEREPORT, "%s: %s of a new object at the address of one that was destroyed while owned: %s", L->t->name, s2 ? "lock_shared" : "lock", r.what); return; }
    sleep_until(now() + 1500);
    r = call_unlock(q, s2); if (r.out > O_TRUE) { fail(V_FALSEREPORT, "%s: unlock of a new object threw '%s'", L->t->name, r.what); return; }
  }
}
void checker(void*) {
  if (L->p->p[PU_CHURN] && !L->ended) { L->quiet = true; churn((int)L->p->p[PU_CHURN]); }
  if (L->destroyed) return;
  L->quiet = true;
  if (!anyowner(-1)) {
    auto tryit = [&](int form) {
      OpResult r; TimeArg t{0, 0, 0}; if (form == XF || form == SF) t.ns = 1000;
      op_begin(true); r = call_op(L->lk, form, t);
      if (r.out != O_TRUE) { fail(V_RESIDUE, "%s: after all threads released it, %s %s%s", L->t->name, opname(form), r.out == O_FALSE ? "does not succeed" : "throws ", r.what); return; }
      r = call_unlock(L->lk, sh_op(form)); if (r.out > O_TRUE) fail(V_RESIDUE, "%s: final unlock threw '%s'", L->t->name, r.what);
    };
    tryit(XT); if (L->t->caps & CAP_SHARED) { tryit(ST); tryit(SL); } tryit(XL);
    if (L->t->caps & CAP_TIMED) { tryit(XF); if (L->t->caps & CAP_SHARED) tryit(SF); }
  }
  destroy_now();
}
void quiesce(const Program&) {
  if (!L->lk || L->destroyed || L->ended) return;
  bool anyx = false, anys = false, wx = false, ws = false; int w = -1;
  for (int i = 0; i < L->nt; i++) { if (L->th[i].xc) anyx = true; if (L->th[i].sc) anys = true; }
  for (int i = 0; i <= L->nt; i++) {
    TU& t = L->th[i];
    if (!L->fid[i] || !t.in_op || !is_blocked(L->fid[i]) || info(L->fid[i]).wk == W_SLEEP) continue;
    if (t.misuse) fail(V_MISUSE, "%s: misuse %s by T%d is not reported, the thread waits", L->t->name, opname(t.op), L->fid[i]);
    else if (t.rel) fail(V_BLOCKNB, "%s: T%d is blocked inside %s", L->t->name, L->fid[i], opname(t.op));
    else if (t.shared) { ws = true; if (w < 0) w = i; } else { wx = true; w = i; }
  }
  if (!anyx && !anys && (wx || ws)) fail(V_HANG, "%s: nobody owns it, nothing can run, yet T%d stays blocked in %s", L->t->name, L->fid[w], opname(L->th[w].op));
  else if (!anyx && anys && ws && !wx) fail(V_SHARE, "%s: T%d stays blocked in %s although only shared locks are held and no writer waits", L->t->name, L->fid[w], opname(L->th[w].op));
}
void body(const Program& p) {
  memset((void*)L, 0, sizeof *L);
  L->p = &p; L->t = find_lock_type(p.type); L->nt = (int)p.th.size();
  for (int& x : L->tof) x = MT;
  sim_set_abort_hook(on_abort);
  OpResult r; L->lk = call_make(L->t, r); L->data = guarded_make();
  if (r.out != O_TRUE) { fail(V_EXC, "constructor of %s threw '%s'", L->t->name, r.what); return; }
  for (int i = 0; i < L->nt; i++) { int f = spawn(thread_main, (void*)(intptr_t)i); L->fid[i] = f; L->tof[f] = i; }
  join_all(); stop_faults();
  if (p.p[PU_REBORN] && !L->ended && !(L->t->caps & CAP_ABORT)) {
    L->quiet = true; spawn(reborn_helper, nullptr); spawn(reborn, nullptr); join_all();
    if (L->rb) { OpResult d = call_destroy(L->rb); if (d.out > O_TRUE) fail(V_FALSEREPORT, "%s: destroying an unowned object threw '%s'", L->t->name, d.what); }
  }
  spawn(checker, nullptr); join_all();
}
void describe(const Program& p, int th, const Step& s, char* b, size_t n) {
  snprintf(b, n, "%s(%lld)%s, %lld points, sleep %lld, sleep before %lld%s", opname(s.op), (long long)s.a[1], s.a[5] ? " even if that is misuse" : "", (long long)s.a[2], (long long)s.a[3], (long long)s.a[4], (p.p[PU_ABANDON] >> th & 1) ? "; ends without releasing" : "");
}
bool normalise(Program& p) {
  const LockType* t = find_lock_type(p.type);
  if (!t || !(t->caps & CAP_CHECKED) || p.th.empty() || p.th.size() > MT) return false;
  bool any = false;
  for (auto& th : p.th) for (auto& s : th) {
    any = true;
    if (s.op < 0 || s.op >= NOPS) s.op = XL;
    if (s.op == OP_UNS && !(t->caps & CAP_SHARED)) s.op = OP_UNX;
    if (s.op < NFORM && sh_op(s.op) && !(t->caps & CAP_SHARED)) s.op -= 4;
    if (!(t->caps & CAP_TIMED)) { if (s.op == XF || s.op == XU) s.op = XT; if (s.op == SF || s.op == SU) s.op = ST; }
  }
  return any;
}
void gen(Rng& r, const Want&, Program& p, RunCfg& c) {
  const LockType* t;
  do t = lock_type_at(r.below(lock_type_count())); while (!(t->caps & CAP_CHECKED));
  p.type = t->name;
  gen_cfg(r, c, true); c.reuse = r.oneof(3); c.rate[F_SYSJUMP] = 0;
  int nt = r.permille(700) ? r.range(1, 3) : r.range(3, 6);
  int wt[NOPS] = {5, 2, 1, 1, 4, 2, 1, 1, 6, 4}; for (int& x : wt) if (r.permille(200)) x = 0;
  int tot = 0; for (int x : wt) tot += x; if (!tot) { wt[0] = wt[8] = 1; tot = 2; }
  int64_t durs[] = {-1, 0, 1, 100, 1000, 5000, 50000, 1000000, 20000000};
  int mis = r.range(30, 600); bool pairs = r.oneof(2);
  p.th.resize(nt);
  for (int i = 0; i < nt; i++) {
    int ns = r.range(1, 8); bool good = r.permille(350);
    for (int k = 0; k < ns; k++) {
      Step s; int x = r.below(tot), f = 0; while (x >= wt[f]) x -= wt[f++];
      s.op = f;
      if (pairs && k && p.th[i][k - 1].op < NFORM && r.permille(500)) s.op = sh_op(p.th[i][k - 1].op) ? OP_UNS : OP_UNX;
      s.a[0] = r.below(NCK); s.a[1] = durs[r.below(9)]; s.a[2] = r.below(r.oneof(2) ? 3 : 9);
      if (r.permille(150)) s.a[3] = durs[2 + r.below(7)]; if (r.permille(200)) s.a[4] = durs[2 + r.below(7)];
      s.a[5] = !good && r.permille(mis);
      p.th[i].push_back(s);
    }
  }
  if (r.permille(250)) { p.p[PU_ABANDON] = 1 + r.below((1u << nt) - 1); p.p[PU_SELFDEST] = r.oneof(2); }
  if (r.permille(150)) { p.p[PU_REBORN] = r.range(1, 15); if (r.permille(800)) c.reuse = 1; }
  if (r.permille(120)) p.p[PU_CHURN] = r.range(6, 12);
  normalise(p);
}
const char* const probes[] = {"misuse reported by exception", "misuse reported by abort()", "misuse while nobody else owns", "misuse while another thread owns", "owned object destroyed", "new object at the address of one destroyed while owned", nullptr};
const Family F = {"misuse", gen, body, quiesce, describe, normalise, probes};
__attribute__((constructor)) void reg() { register_family(&F); }
}
