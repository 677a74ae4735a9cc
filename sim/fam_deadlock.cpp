// Family "deadlock": several checked mutexes of mixed types, threads that nest acquisitions, back off on reports.
#include "prog.h"
#include "locks.h"
#include "props.h"
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <algorithm>
#include <initializer_list>
using namespace sim;
void sim_set_abort_hook(void (*h)());
const LockType* find_lock_type(const std::string& n); int lock_type_count(); const LockType* lock_type_at(int i);

// p.type = comma separated types of the mutexes
enum { PD_ALLOC };
// step: op=form; a0 mutex; a1 duration; a2 points after; a3 sleep after; a4 sleep before; a5 how many of the held locks to release afterwards; a6 on report: 0 back off and retry, 1 back off and go on, 2 keep holding and go on; a7 clk
namespace {
const int MT = 48, MM = 48;
struct Held { int m; bool sh; };
struct TD { bool in_acq, in_rel; int form, m; bool shared, blocking, timed; bool path; ns_t dl; Held held[64]; int nh; };
struct Led {
  const Program* p; int nt, nm; LockIf* lk[MM]; const LockType* ty[MM]; Guarded* data[MM]; TD th[MT]; int fid[MT]; int tof[MAXF];
  int xc[MM][MT], sc[MM][MT]; bool checking, alive, ended; int caps;
};
Led* L = new Led();
const char* form_name(int f) { static const char* const n[] = {"lock", "try_lock", "try_lock_for", "try_lock_until", "lock_shared", "try_lock_shared", "try_lock_shared_for", "try_lock_shared_until"}; return n[f & 7]; }
bool sh_form(int f) { return f >= SL; }
bool writer_in_call(int m, bool blocked_only) {
  for (int i = 0; i < L->nt; i++) if (L->th[i].in_acq && L->th[i].m == m && !L->th[i].shared && (!blocked_only || (L->th[i].blocking && is_blocked(L->fid[i])))) return true;
  return false;
}
// does thread t's request for m have to wait for thread o? lenient: as far as the specification allows a report
bool edge(int t, int m, int o) {
  if (o == t) return false;
  if (L->xc[m][o]) return true;
  if (!L->sc[m][o]) return false;
  if (!L->th[t].shared) return true;
  return L->ty[m]->pol == POL_WP && writer_in_call(m, false);
}
bool reach(int t, int target, uint64_t& seen) {
  TD& x = L->th[t];
  if (!x.in_acq || !x.blocking) return false;
  for (int o = 0; o < L->nt; o++) if (edge(t, x.m, o)) {
    if (o == target) return true;
    if (seen >> o & 1) continue;
    seen |= 1ull << o;
    if (reach(o, target, seen)) return true;
  }
  return false;
}
void event() { for (int i = 0; i < L->nt; i++) if (L->th[i].in_acq && L->th[i].blocking && !L->th[i].path) { uint64_t s = 1ull << i; if (reach(i, i, s)) L->th[i].path = true; } }

void sim_abort() {
  int i = L->tof[cur()]; TD& x = L->th[i];
  if (x.in_acq && x.blocking && (L->caps & CAP_ABORT)) {
    event();
    if (!x.path) fail(V_FALSEDL, "%s: abort() called in %s on M%d by T%d although its request closed no cycle of waiting threads", L->ty[x.m]->name, form_name(x.form), x.m, cur());
    probe(1); mark_contended(); L->ended = true; return;
  }
  fail(L->caps & CAP_ABORT ? V_FALSEREPORT : V_CRASH, "abort() called in T%d, which does nothing wrong", cur());
}
enum Res { R_OK, R_NO, R_DL, R_MEM };
Res acquire(int ti, int form, int m, TimeArg ta) {
  TD& x = L->th[ti]; const LockType* t = L->ty[m];
  x.form = form; x.m = m; x.shared = sh_form(form); x.blocking = form == XL || form == SL; x.timed = form == XF || form == XU || form == SF || form == SU; x.path = false;
  bool owner = L->xc[m][ti] > 0;
  x.in_acq = true; event();
  trace("invoke M%d.%s", m, form_name(form));
  bool al = L->p->p[PD_ALLOC]; uint32_t fa = fired(F_ALLOC);
  op_begin(form == XT || form == ST || owner);
  set_alloc_faults(al);
  OpResult r = call_op(L->lk[m], form, ta);
  set_alloc_faults(false);
  event(); bool path = x.path;
  x.in_acq = false;
  trace("return M%d.%s -> %s %s", m, form_name(form), r.out == O_TRUE ? "acquired" : r.out == O_FALSE ? "false" : "EXCEPTION", r.out > O_TRUE ? r.what : "");
  if (r.out == O_TRUE) {
    for (int i = 0; i < L->nt; i++) if (i != ti) {
      if (!x.shared && L->xc[m][i]) fail(V_EXCL, "%s: T%d acquired M%d by %s while T%d owns it", t->name, cur(), m, form_name(form), L->fid[i]);
      if (!x.shared && L->sc[m][i]) fail(V_RWEXCL, "%s: T%d acquired M%d exclusively while T%d holds it shared", t->name, cur(), m, L->fid[i]);
      if (x.shared && L->xc[m][i]) fail(V_RWEXCL, "%s: T%d acquired M%d shared while T%d owns it", t->name, cur(), m, L->fid[i]);
    }
    if (x.shared) L->sc[m][ti]++; else L->xc[m][ti]++;
    if (x.nh < 64) x.held[x.nh++] = Held{m, x.shared};
    event();
    return R_OK;
  }
  event();
  if (r.out == O_FALSE) { if (x.blocking) fail(V_EXC, "blocking lock returned false"); return R_NO; }
  if (r.out == O_BADALLOC && al && fired(F_ALLOC) != fa) { probe(2); return R_MEM; }
  if (r.out == O_DEADLOCK && x.blocking) {
    if (!path) fail(V_FALSEDL, "%s: T%d got '%s' from %s on M%d although its request closed no cycle of waiting threads", t->name, cur(), r.what, form_name(form), m);
    if (L->caps & CAP_ABORT) fail(V_MISSEDDL, "%s: a deadlock was reported by an exception instead of abort()", t->name);
    probe(0); if (L->nm > 8) probe(4);
    return R_DL;
  }
  fail(r.out == O_DEADLOCK || r.out == O_PERM ? V_FALSEREPORT : V_EXC, "%s: %s on M%d threw '%s'", t->name, form_name(form), m, r.what);
  return R_NO;
}
void release(int ti, int idx) {
  TD& x = L->th[ti]; Held h = x.held[idx];
  for (int i = idx; i + 1 < x.nh; i++) x.held[i] = x.held[i + 1];
  x.nh--;
  if (h.sh) L->sc[h.m][ti]--; else L->xc[h.m][ti]--;
  x.in_rel = true; x.m = h.m; event();
  trace("invoke M%d.unlock%s", h.m, h.sh ? "_shared" : "");
  for (int k = 0;; k++) {
    op_begin(false);
    uint32_t fa = fired(F_ALLOC);
    set_alloc_faults(L->p->p[PD_ALLOC]);
    OpResult r = call_unlock(L->lk[h.m], h.sh);
    set_alloc_faults(false);
    if (r.out == O_BADALLOC && fired(F_ALLOC) != fa && k < 50) { probe(3); continue; }  // reported: the caller tries again
    if (r.out > O_TRUE && !(k > 0 && r.out == O_PERM)) fail(V_FALSEREPORT, "%s: unlock of M%d threw '%s' although T%d owned it", L->ty[h.m]->name, h.m, r.what, cur());
    break;
  }
  trace("return unlock");
  x.in_rel = false; event();
}
TimeArg targ(int form, int64_t code, int64_t d) {
  TimeArg t; t.unit = UN_NS; t.clk = (int)(code % NCK); t.ns = d;
  if (form == XU || form == SU) t.ns += t.clk == CK_SYSTEM ? sysnow() : t.clk == CK_USER ? now() + USER_CLOCK_OFFSET : now();
  return t;
}
void pause(int64_t d) { if (d > 0) sleep_until(now() + d); }
void back_off(int ti) { while (L->th[ti].nh) release(ti, L->th[ti].nh - 1); }
void thread_main(void* a) {
  int ti = (int)(intptr_t)a; TD& x = L->th[ti];
  for (const Step& s : L->p->th[ti]) {
    pause(s.a[4]);
    int m = (int)s.a[0];
    for (int tries = 0; tries < 6; tries++) {
      bool own = L->xc[m][ti] || L->sc[m][ti];
      if (own && !(L->ty[m]->caps & CAP_REC)) break;
      if (x.nh >= 60) break;
      Res r = acquire(ti, s.op, m, targ(s.op, s.a[7], s.a[1]));
      if (r == R_OK || r == R_NO) break;
      if (r == R_MEM) { if (s.a[6] != 0) break; continue; }
      if (s.a[6] == 2) break;
      back_off(ti);
      if (s.a[6] == 1) break;
      for (int k = 0; k < tries; k++) point(P_BODY, nullptr);
    }
    for (int k = 0; k < s.a[2]; k++) point(P_BODY, nullptr);
    pause(s.a[3]);
    for (int k = 0; k < s.a[5] && x.nh; k++) release(ti, (k & 1) ? 0 : x.nh - 1);
  }
  back_off(ti);
}
void checker(void*) {
  for (int m = 0; m < L->nm; m++) {
    const LockType* t = L->ty[m];
    auto tryit = [&](int form) {
      OpResult r; TimeArg a{0, 0, 0}; if (form == XF || form == SF) a.ns = 1000;
      op_begin(true); r = call_op(L->lk[m], form, a);
      if (r.out != O_TRUE) { fail(V_RESIDUE, "%s (M%d): after all threads released it, %s %s%s", t->name, m, form_name(form), r.out == O_FALSE ? "does not succeed" : "throws ", r.what); return; }
      r = call_unlock(L->lk[m], sh_form(form)); if (r.out > O_TRUE) fail(V_RESIDUE, "%s: final unlock threw '%s'", t->name, r.what);
    };
    tryit(XT); if (t->caps & CAP_SHARED) { tryit(ST); tryit(SL); } tryit(XL);
    if (t->caps & CAP_TIMED) { tryit(XF); if (t->caps & CAP_SHARED) tryit(SF); }
  }
  // nested once more: nothing left behind may look like a cycle
  for (int round = 0; round < 2; round++) {
    int got[MM], n = 0;
    for (int k = 0; k < L->nm; k++) { int m = round ? L->nm - 1 - k : k; op_begin(true); OpResult r = call_op(L->lk[m], XL, TimeArg{0, 0, 0}); if (r.out != O_TRUE) fail(V_RESIDUE, "%s (M%d): lock throws '%s' while nothing else is going on", L->ty[m]->name, m, r.what); else got[n++] = m; }
    while (n) call_unlock(L->lk[got[--n]], false);
  }
}
void quiesce(const Program&) {
  if (!L->alive || L->checking || L->ended) return;
  // waiting graph of threads blocked in lock()/lock_shared()
  uint64_t adj[MT] = {0};
  for (int m = 0; m < L->nm; m++) {
    bool anyx = false, anys = false; for (int i = 0; i < L->nt; i++) { if (L->xc[m][i]) anyx = true; if (L->sc[m][i]) anys = true; }
    bool wx = writer_in_call(m, false);
    for (int i = 0; i < L->nt; i++) {
      TD& t = L->th[i];
      if (!is_blocked(L->fid[i]) || info(L->fid[i]).wk == W_SLEEP) continue;
      if (t.in_rel && t.m == m) fail(V_BLOCKNB, "%s: T%d is blocked inside unlock", L->ty[m]->name, L->fid[i]);
      if (!t.in_acq || t.m != m) continue;
      if (!anyx && !anys) {
        bool wr = !t.shared || !wx || L->ty[m]->pol != POL_WP;
        if (wr) fail(V_HANG, "%s (M%d): nobody owns it, nothing can run, yet T%d stays blocked in %s", L->ty[m]->name, m, L->fid[i], form_name(t.form));
      } else if (!anyx && t.shared && (!wx || L->ty[m]->pol == POL_RP))
        fail(V_SHARE, "%s (M%d): T%d stays blocked in %s although only shared locks are held%s", L->ty[m]->name, m, L->fid[i], form_name(t.form), wx ? "" : " and no writer waits");
      if (!t.blocking) continue;
      for (int o = 0; o < L->nt; o++) if (o != i) {
        if (L->xc[m][o] || (!t.shared && L->sc[m][o])) adj[i] |= 1ull << o;
        if (t.shared && !anyx && L->ty[m]->pol == POL_WP && L->th[o].in_acq && L->th[o].m == m && !L->th[o].shared && L->th[o].blocking) adj[i] |= 1ull << o;
      }
    }
  }
  for (int s = 0; s < L->nt; s++) {
    uint64_t r = adj[s]; for (int k = 0; k < L->nt; k++) for (int j = 0; j < L->nt; j++) if (r >> j & 1) r |= adj[j];
    if (r >> s & 1) {
      char b[400]; int o = 0; for (int i = 0; i < L->nt && o < 300; i++) if ((r >> i & 1) && L->th[i].in_acq) o += snprintf(b + o, sizeof b - o, " T%d in M%d.%s", L->fid[i], L->th[i].m, form_name(L->th[i].form));
      fail(V_MISSEDDL, "threads wait for each other and no deadlock was reported:%s", b);
      fail(V_HANG, "threads wait for each other and no deadlock was reported:%s", b);
    }
  }
}
int split(const std::string& s, std::string* out) { int n = 0; size_t b = 0; int depth = 0; for (size_t i = 0; i <= s.size(); i++) { if (i < s.size() && s[i] == '<') depth++; if (i < s.size() && s[i] == '>') depth--; if (i == s.size() || (s[i] == ',' && !depth)) { if (n < MM && i > b) out[n++] = s.substr(b, i - b); b = i + 1; } } return n; }
void body(const Program& p) {
  memset((void*)L, 0, sizeof *L);
  L->p = &p; L->nt = (int)p.th.size(); std::string names[MM]; L->nm = split(p.type, names);
  for (int i = 0; i < L->nm; i++) {
    L->ty[i] = find_lock_type(names[i]); OpResult r; L->lk[i] = call_make(L->ty[i], r); L->data[i] = guarded_make();
    if (r.out != O_TRUE) { fail(V_EXC, "constructor of %s threw '%s'", L->ty[i]->name, r.what); return; }
  }
  L->caps = L->ty[0]->caps & CAP_VARIANT; sim_set_abort_hook(sim_abort);
  L->alive = true;
  for (int i = 0; i < L->nt; i++) { int f = spawn(thread_main, (void*)(intptr_t)i); L->fid[i] = f; L->tof[f] = i; }
  join_all(); stop_faults(); L->checking = true;
  spawn(checker, nullptr); join_all();
  for (int i = 0; i < L->nm; i++) { OpResult r = call_destroy(L->lk[i]); if (r.out > O_TRUE) fail(V_RESIDUE, "%s (M%d): destructor threw '%s' on an unused object", L->ty[i]->name, i, r.what); }
}
void describe(const Program&, int, const Step& s, char* b, size_t n) {
  static const char* const pol[] = {"release all and retry", "release all and go on", "keep the others and go on"};
  snprintf(b, n, "M%lld.%s(%lld), %lld points, sleep %lld, sleep before %lld, then release %lld; on report: %s", (long long)s.a[0], form_name(s.op), (long long)s.a[1], (long long)s.a[2], (long long)s.a[3], (long long)s.a[4], (long long)s.a[5], pol[s.a[6] % 3]);
}
bool normalise(Program& p) {
  std::string names[MM]; int nm = split(p.type, names);
  if (!nm || p.th.empty() || p.th.size() > MT) return false;
  for (int i = 0; i < nm; i++) { const LockType* t = find_lock_type(names[i]); if (!t || !(t->caps & CAP_CHECKED)) return false; }
  for (int i = 1; i < nm; i++) if ((find_lock_type(names[i])->caps ^ find_lock_type(names[0])->caps) & CAP_VARIANT) return false;   // one validator for all
  bool any = false;
  for (auto& th : p.th) for (auto& s : th) {
    any = true; if (s.a[0] < 0) s.a[0] = 0; s.a[0] %= nm; if (s.op < 0 || s.op >= NFORM) s.op = XL; if (s.a[6] < 0 || s.a[6] > 2) s.a[6] = 0;
    const LockType* t = find_lock_type(names[s.a[0]]);
    if (sh_form(s.op) && !(t->caps & CAP_SHARED)) s.op -= 4;
    if (!(t->caps & CAP_TIMED)) { if (s.op == XF || s.op == XU) s.op = XT; if (s.op == SF || s.op == SU) s.op = ST; }
  }
  return any;
}
void gen(Rng& r, const Want& w, Program& p, RunCfg& c) {
  gen_cfg(r, c, false); c.reuse = r.oneof(3);
  int nm = w.mode == M_WP ? r.range(1, 2) : w.mode == M_ALLOC ? r.range(1, 3) : r.permille(500) ? 2 : r.range(3, 4);
  int nt = w.mode == M_ALLOC ? r.range(2, 4) : r.permille(600) ? r.range(2, 3) : r.range(4, 6);
  const LockType* ty[MM]; int variant = w.mode == M_ALLOC ? 0 : r.oneof(12) ? CAP_ABORT : r.oneof(15) ? CAP_VERBOSE : r.oneof(12) ? CAP_CLANG : 0;
  bool ring = w.mode != M_WP && w.mode != M_ALLOC && r.oneof(400); if (ring) nm = nt = r.range(5, 40);
  bool onlyx = r.permille(200), onlys = r.permille(200), wpb = r.permille(w.mode == M_ALLOC || w.mode == M_DLSOUND ? 250 : 80);
  if (wpb && r.oneof(2)) nm = r.range(1, 2);
  for (int i = 0; i < nm; i++) {
    for (;;) { ty[i] = lock_type_at(r.below(lock_type_count())); if (!(ty[i]->caps & CAP_CHECKED) || (ty[i]->caps & CAP_VARIANT) != variant) continue;
      if ((w.mode == M_WP || wpb) && ty[i]->pol != POL_WP) continue; if (wpb && r.permille(500) && !(ty[i]->caps & CAP_TIMED)) continue; if (w.mode != M_WP && !wpb && onlyx && (ty[i]->caps & CAP_SHARED)) continue; if (w.mode != M_WP && !onlyx && onlys && !(ty[i]->caps & CAP_SHARED)) continue; break; }
    p.type += (i ? "," : "") + std::string(ty[i]->name);
  }
  p.p[PD_ALLOC] = w.mode == M_ALLOC && r.permille(800);
  int wt[NFORM] = {6, 1, 1, 1, 5, 1, 1, 1}; for (int f = 0; f < NFORM; f++) if (r.permille(250)) wt[f] = 0; if (wpb) { wt[XF] += 3; wt[XU] += 2; } if (!(wt[0] + wt[4])) wt[0] = 4;
  int64_t durs[] = {-1, 0, 1, 100, 1000, 5000, 50000, 1000000, 20000000};
  int relp = r.range(0, 500), pol = r.below(4);
  p.th.resize(nt);
  for (int i = 0; i < nt; i++) {
    int ns = r.range(1, r.oneof(3) ? 8 : 4), rot = r.below(nm);
    for (int k = 0; k < ns; k++) {
      Step s; int tot = 0; for (int f = 0; f < NFORM; f++) tot += wt[f]; int x = r.below(tot), f = 0; while (x >= wt[f]) x -= wt[f++];
      s.op = f; s.a[0] = r.permille(600) ? (rot + k) % nm : r.below(nm); s.a[1] = durs[r.below(9)]; s.a[2] = r.below(r.oneof(2) ? 3 : 8);
      if (r.permille(120)) s.a[3] = durs[2 + r.below(7)]; if (r.permille(150)) s.a[4] = durs[2 + r.below(7)];
      if (r.permille(relp)) s.a[5] = r.range(1, 3);
      s.a[6] = pol < 3 ? pol : r.below(3); s.a[7] = r.below(NCK);
      p.th[i].push_back(s);
    }
  }
  if (ring) {   // a long cycle, and now and then one that is not quite closed
    int open = r.oneof(3) ? r.below(nm) : -1, mode = r.below(3); bool shuffled = r.oneof(2);
    for (int i = 0; i < nt; i++) {
      auto st = [&](int m, int64_t after) { Step s; s.op = (after ? r.oneof(2) : r.oneof(2 * nm)) ? SL : XL; s.a[0] = m; s.a[2] = r.below(3); s.a[3] = after; s.a[6] = mode; return s; };
      p.th[i] = {st(i, shuffled ? r.range(200000, 400000) : 200000 + 1000 * i)};
      if (i != open) p.th[i].push_back(st((i + 1) % nm, 0));
    }
    c.chaos = 200000; c.finish = 3000000; c.strat = r.oneof(2) ? 0 : 3; c.psw = 50; c.tick = 1; c.race = c.plain = 0;
  } else
  if (wpb && r.permille(400)) {  // a writer that gives up while a reader it held back owns what another reader asks for
    static const int64_t T[] = {1000, 5000, 50000}; int64_t d = T[r.below(3)]; auto near = [&] { return d + (r.oneof(2) ? 0 : r.range(-60, 60)); };
    auto st = [&](int op, int m, int64_t before, int64_t after) { Step s; s.op = op; s.a[0] = m % nm; s.a[4] = before; s.a[3] = after; s.a[2] = r.below(3); s.a[6] = r.below(3); s.a[1] = near(); s.a[7] = r.below(NCK); return s; };
    if (nt < 3) { nt = 3; p.th.resize(3); }
    int m0 = r.below(nm), m1 = r.below(nm);
    p.th[0] = {st(SL, m0, 0, r.permille(800) ? near() : 0), st(r.permille(700) ? XL : SL, m1, 0, 0)};
    p.th[1] = {st(XL, m1, r.oneof(3) ? 100 : 0, r.oneof(2) ? 100 : 0), st(r.oneof(4) ? SF : SL, m0, 0, 0)};
    p.th[2] = {st(r.permille(750) ? XF : XL, m0, r.oneof(2) ? 50 : 0, 0)};
    if (r.permille(300)) { Step k = st(XL, m1 + 1, 0, 0); p.th[2].insert(p.th[2].begin(), k); }
  }
  if (p.p[PD_ALLOC]) { c.rate[F_ALLOC] = r.oneof(2) ? 100 : 500; c.cap[F_ALLOC] = 1 + r.below(5); }
  c.rate[F_SYSJUMP] = 0;
  normalise(p);
}
const char* const probes[] = {"deadlock reported", "deadlock reported by abort()", "operation failed with bad_alloc", "release failed with bad_alloc and was repeated", "deadlock reported among more than eight mutexes", nullptr};
const Family F = {"deadlock", gen, body, quiesce, describe, normalise, probes};
__attribute__((constructor)) void reg() { register_family(&F); }
}
