// Family "stdbox": producers, consumers, movers and readers on two bounded boxes that use a lock type only through the standard wrappers.
#include "prog.h"
#include "stdbox.h"
#include "props.h"
#include <stdio.h>
#include <string.h>
#include <algorithm>
using namespace sim;
const LockType* find_lock_type(const std::string& n); int lock_type_count(); const LockType* lock_type_at(int i);
enum { PX_CAP };
// step: op; a0 box; a1 duration; a2 points after; a3 sleep before
namespace {
const int MV = 4096;
struct Led { const Program* p; BoxIf* b; const LockType* t; int nt, cap; int fid[BX_MT]; int op[BX_MT]; bool in[BX_MT]; int64_t next; unsigned char st[MV] /* 0 unused 1 being put 2 inside 3 taken */; int done; bool alive, closed; };
Led* L = new Led();
const char* const opn[] = {"put", "put(try_to_lock)", "put(defer_lock)", "put(timed)", "get", "get(wait_for)", "get(wait_until)", "get(adopt_lock)", "move(std::lock)", "move(std::try_lock)", "move(scoped_lock)", "read(std::shared_lock)", "read(yamc::shared_lock try)", "read(wait for change)", "swap locks", "move(box 0, then 1)", "move(box 1, then try box 0)", "move(box 1, then box 0, timed)"};
void do_op(int ti, int op, int box, int64_t dur) {
  bool put = op <= BX_PUT_FOR, get = op >= BX_GET && op <= BX_GET_TRY; int64_t v = 0;
  if (put) { if (L->next >= MV) return; v = L->next++; L->st[v] = 1; }
  L->op[ti] = op; L->in[ti] = true; BoxRes x{false, 0, true}; TimeArg t{UN_NS, CK_STEADY, dur};
  trace("invoke %s box %d value %lld", opn[op], box, (long long)v);
  op_begin(false);
  OpResult r = call_box(L->b, ti, op, box, v, t, x);
  L->in[ti] = false;
  trace("return %s -> %s value %lld", opn[op], r.out > O_TRUE ? r.what : x.ok ? "done" : "not done", (long long)(get || !put ? x.v : v));
  if (r.out > O_TRUE) { fail((L->t->caps & CAP_CHECKED) ? V_FALSEREPORT : V_EXC, "%s: %s threw '%s'", L->t->name, opn[op], r.what); return; }
  if (!x.consistent) fail(V_EXCL, "%s: the box is inconsistent inside the critical section of %s", L->t->name, opn[op]);
  if (put) { if (!x.ok) L->st[v] = 0; else if (L->st[v] == 1) L->st[v] = 2; }
  if (get && x.ok) {
    if (x.v < 1 || x.v >= L->next || L->st[x.v] == 0) fail(V_TOKENS, "%s: %s took %lld, which nobody put in", L->t->name, opn[op], (long long)x.v);
    else if (L->st[x.v] == 3) fail(V_TOKENS, "%s: %s took %lld a second time", L->t->name, opn[op], (long long)x.v);
    else L->st[x.v] = 3;
    probe(0);
  }
  if (((op >= BX_MOVE && op <= BX_MOVE_SCOPED) || op >= BX_MOVE_NEST) && x.ok) probe(1);
  if (x.ok) mark_contended();
}
void thread_main(void* a) {
  int ti = (int)(intptr_t)a;
  for (const Step& s : L->p->th[ti]) {
    if (s.a[3] > 0) sleep_until(now() + s.a[3]);
    do_op(ti, s.op, (int)s.a[0], s.a[1]);
    for (int k = 0; k < s.a[2]; k++) point(P_BODY, nullptr);
  }
  L->done++;
}
// once nothing but waiting for an empty or full box is going on
void closer(void*) {
  sleep_until(now() + 36000000000000ll);
  if (L->done < L->nt) probe(2);
  L->closed = true;
  op_begin(false); OpResult r = call_box_close(L->b); if (r.out > O_TRUE) fail(V_EXC, "%s: close threw '%s'", L->t->name, r.what);
}
bool is_put(int op) { return op == BX_PUT || op == BX_PUT_FOR; }
void quiesce(const Program&) {
  if (!L->alive) return;
  bool own[3] = {false, false, false};
  for (int i = 0; i < L->nt; i++) if (L->in[i] && bx_phase[i] == PH_OWN) { if (bx_box[i] == 2) own[0] = own[1] = true; else own[bx_box[i]] = true; }
  for (int i = 0; i < L->nt; i++) if (L->in[i] && (bx_phase[i] == PH_N0 || bx_phase[i] == PH_N1)) own[bx_phase[i] == PH_N1] = true;
  for (int i = 0; i < L->nt; i++) {
    if (!L->in[i] || !is_blocked(L->fid[i]) || info(L->fid[i]).wk == W_SLEEP) continue;
    int b = bx_box[i], ph = bx_phase[i];
    if (ph == PH_N0 || ph == PH_N1) {
      if (!own[ph == PH_N0]) fail(V_HANG, "%s: nobody owns the lock of box %d, nothing can run, yet T%d stays blocked in %s", L->t->name, ph == PH_N0, L->fid[i], opn[L->op[i]]);
      if (L->op[i] == BX_MOVE_BACK) fail(V_HANG, "%s: T%d waits inside try_lock in %s", L->t->name, L->fid[i], opn[L->op[i]]);
      probe(4); continue;
    }
    // a mover that waits owns neither lock: std::lock and scoped_lock wait for one lock only while they hold none
    if (b == 2) { if (!own[0] && !own[1]) fail(V_HANG, "%s: nobody is in a critical section, nothing can run, yet T%d stays blocked in %s", L->t->name, L->fid[i], opn[L->op[i]]); continue; }
    if (own[b]) { if (bx_phase[i] == PH_OWN) fail(V_HANG, "%s: T%d is blocked leaving its critical section in %s", L->t->name, L->fid[i], opn[L->op[i]]); continue; }
    if (bx_phase[i] == PH_ACQ) fail(V_HANG, "%s: nobody owns the lock, nothing can run, yet T%d stays blocked in %s", L->t->name, L->fid[i], opn[L->op[i]]);
    else if (bx_phase[i] == PH_CV) {
      bool can = is_put(L->op[i]) ? L->b->count(b) < L->cap : L->b->count(b) > 0;
      if (can) fail(V_HANG, "%s: the condition T%d waits for in %s is true, nothing can run, yet it is not woken", L->t->name, L->fid[i], opn[L->op[i]]);
      probe(3);
    }
  }
}
void checker(void*) {
  for (int b = 0; b < 2; b++) for (;;) { int n = L->b->count(b); if (n <= 0) break; do_op(0, BX_GET_TRY, b, 0); if (L->b->count(b) >= n) { fail(V_RESIDUE, "%s: the box cannot be emptied", L->t->name); break; } }
  for (int64_t v = 1; v < L->next; v++) if (L->st[v] == 2) { fail(V_TOKENS, "%s: value %lld was put in and is lost", L->t->name, (long long)v); break; }
}
void body(const Program& p) {
  memset((void*)L, 0, sizeof *L); for (int i = 0; i < BX_MT; i++) bx_phase[i] = PH_NONE, bx_box[i] = 0;
  L->p = &p; L->t = find_lock_type(p.type); L->nt = (int)p.th.size(); L->cap = (int)p.p[PX_CAP]; L->next = 1;
  OpResult r; L->b = call_box_make(L->t, L->cap, r);
  if (r.out != O_TRUE) { fail(V_EXC, "constructor of %s threw '%s'", L->t->name, r.what); return; }
  for (int i = 0; i < L->nt; i++) L->fid[i] = spawn(thread_main, (void*)(intptr_t)i);
  L->alive = true;
  spawn(closer, nullptr);
  join_all(); stop_faults(); L->alive = false;
  spawn(checker, nullptr); join_all();
  r = call_box_destroy(L->b); if (r.out > O_TRUE) fail(V_RESIDUE, "%s: destructor threw '%s'", L->t->name, r.what);
}
void describe(const Program&, int, const Step& s, char* b, size_t n) { snprintf(b, n, "%s box %lld, %lld ns, %lld points after; sleep before %lld", opn[s.op], (long long)s.a[0], (long long)s.a[1], (long long)s.a[2], (long long)s.a[3]); }
bool normalise(Program& p) {
  const LockType* t = find_lock_type(p.type);
  if (!t || p.th.empty() || p.th.size() > BX_MT) return false;
  if (p.p[PX_CAP] < 1) p.p[PX_CAP] = 1; if (p.p[PX_CAP] > BX_CAP) p.p[PX_CAP] = BX_CAP;
  bool any = false;
  for (auto& th : p.th) for (auto& s : th) { any = true; if (s.op < 0 || s.op >= BX_NOPS) s.op = BX_PUT; s.a[0] &= 1; }
  return any;
}
void gen(Rng& r, const Want&, Program& p, RunCfg& c) {
  gen_cfg(r, c, true); c.reuse = r.oneof(3);
  const LockType* t; do t = lock_type_at(r.below(lock_type_count())); while ((t->caps & CAP_VARIANT) && !r.oneof(8));
  p.type = t->name; p.p[PX_CAP] = r.range(1, BX_CAP);
  int nt = r.range(2, r.oneof(3) ? BX_MT - 1 : 4);
  int wt[BX_NOPS] = {5, 2, 2, 2, 5, 2, 2, 2, 2, 1, 2, 2, 1, 1, 1, 2, 2, 1}; for (int& x : wt) if (r.permille(300)) x = 0; if (!wt[BX_PUT]) wt[BX_PUT] = 3; if (!wt[BX_GET]) wt[BX_GET] = 2;
  int tot = 0; for (int x : wt) tot += x;
  bool one = r.oneof(2); int64_t durs[] = {-1, 0, 1, 100, 1000, 5000, 50000, 1000000};
  p.th.resize(nt);
  for (int i = 0; i < nt; i++) {
    int ns = r.range(1, r.oneof(3) ? 8 : 4);
    for (int k = 0; k < ns; k++) {
      Step s; int x = r.below(tot), f = 0; while (x >= wt[f]) x -= wt[f++];
      s.op = f; s.a[0] = one && !r.oneof(6) ? 0 : r.below(2); s.a[1] = durs[r.below(8)]; s.a[2] = r.below(r.oneof(2) ? 2 : 6); if (r.permille(200)) s.a[3] = durs[3 + r.below(5)];
      p.th[i].push_back(s);
    }
  }
  if (r.permille(200)) c.race = 1;
  c.finish = 3000000; c.rate[F_SYSJUMP] = 0; if (c.rate[F_LEAP]) c.rate[F_LEAP] = 3;
  normalise(p);
}
const char* const probes[] = {"value taken", "value moved between the boxes", "threads were waiting when the boxes were closed", "a thread waits for its condition", "a thread waits for one box while it owns the other", nullptr};
const Family F = {"stdbox", gen, body, quiesce, describe, normalise, probes};
__attribute__((constructor)) void reg() { register_family(&F); }
}
