// Family "multi": several locks and semaphores at once, nested in every order that cannot deadlock, private objects created and
// destroyed meanwhile, latches and barriers as gates. Every object is checked on its own: what happens to the others must not show.
#include "prog.h"
#include "locks.h"
#include "sems.h"
#include "props.h"
#include <stdio.h>
#include <string.h>
#include <algorithm>
using namespace sim;
const LockType* find_lock_type(const std::string& n); int lock_type_count(); const LockType* lock_type_at(int i);
const SemType* find_sem_type(const std::string& n); int sem_type_count(); const SemType* sem_type_at(int i);
const BarrierType* find_barrier_type(const std::string& n);

// p.type = types of the objects, separated by commas
enum { PM_PERMITS /* initial permits of the semaphores, 2 bits each */, PM_GATES /* number of gates */, PM_GMEMB /* members, 8 bits per gate */, PM_GKIND /* bit: barrier, else latch */ };
// step: op 0 acquire: a0 object, a1 form, a2 unit*10+clk, a3 duration, a4 points after, a5 sleep after
//       op 1 release: a0 which of the held ones   op 2 private object of the type of object a0: a1 form   a6 sleep before
enum { OP_ACQ, OP_REL, OP_TEMP };
namespace {
const int MT = 8, MO = 5, MG = 3;
struct TS { bool in_acq, in_rel, shared, nb, timed, tmp; int o, form; ns_t dl; int clk; int held[64]; bool hsh[64]; int nh; int gate; };
struct Obj { LockIf* lk; const LockType* t; SemIf* s; const SemType* st; Guarded* data; int init; int xc[MT], sc[MT]; uint64_t invokes; const char* name; int caps; };
struct Gate { LatchIf* l; BarrierIf* b; int expect, arrived; uint32_t memb; };
struct Led { const Program* p; int nt, no, ng; Obj o[MO]; Gate g[MG]; TS th[MT]; int fid[MT]; int tof[MAXF]; bool alive; };
Led* L = new Led();
const char* form_name(int f) { static const char* const n[] = {"lock", "try_lock", "try_lock_for", "try_lock_until", "lock_shared", "try_lock_shared", "try_lock_shared_for", "try_lock_shared_until"}; return n[f & 7]; }
bool sh_form(int f) { return f >= SL; }
int fix_form(int f, int caps, bool sem) {
  if (sem) return f & 3;
  if (sh_form(f) && !(caps & CAP_SHARED)) f -= 4;
  if (!(caps & CAP_TIMED)) { if (f == XF || f == XU) f = XT; if (f == SF || f == SU) f = ST; }
  return f;
}
TimeArg targ(const Obj& o, int form, int64_t code, int64_t d) {
  TimeArg t; t.unit = (int)(code / 10 % NUNIT); t.clk = (int)(code % 10 % NCK);
  if (o.caps & CAP_SYSFOR) { if (o.t) t.clk = CK_SYSTEM; if (t.unit == UN_DBL) t.unit = UN_NS; }
  t.ns = unit_round(t.unit, d);
  if ((form & 3) == XU) {
    t.ns = d + (t.clk == CK_SYSTEM ? sysnow() : t.clk == CK_USER ? now() + USER_CLOCK_OFFSET : now());
    if (until_unit(t.unit) && t.clk != CK_USER) t.ns = unit_floor(t.unit, t.ns);
  }
  return t;
}
int held_total(const Obj& o) { int n = 0; for (int i = 0; i < L->nt; i++) n += o.xc[i]; return n; }
OpResult raw_op(Obj& o, int form, const TimeArg& t) { return o.s ? call_sem(o.s, form, t) : call_op(o.lk, form, t); }
OpResult raw_un(Obj& o, bool sh) { return o.s ? call_sem_release(o.s, 1, true) : call_unlock(o.lk, sh); }
bool make(Obj& o, const char* name, int permits) {
  OpResult r; o.name = name; o.t = find_lock_type(name); o.st = o.t ? nullptr : find_sem_type(name); if (o.st && permits > o.st->max) permits = (int)o.st->max; o.init = o.t ? 1 : permits; o.caps = o.t ? o.t->caps : o.st->caps;
  if (o.t) o.lk = call_make(o.t, r); else o.s = call_sem_make(o.st, permits, r);
  if (r.out != O_TRUE) { fail(V_EXC, "constructor of %s threw '%s'", name, r.what); return false; }
  return true;
}
void drop(Obj& o) {
  OpResult r = o.s ? call_sem_destroy(o.s) : call_destroy(o.lk);
  if (r.out > O_TRUE) fail(V_FALSEREPORT, "%s: destructor threw '%s' on an unused object", o.name, r.what);
}
void bad_exc(const Obj& o, int form, const OpResult& r) { fail((o.caps & CAP_CHECKED) ? V_FALSEREPORT : V_EXC, "%s: %s threw '%s' although it was used correctly", o.name, form_name(form), r.what); }

void acquire(int ti, int oi, int form, int64_t code, int64_t d) {
  TS& m = L->th[ti]; Obj& o = L->o[oi]; bool sem = o.s, sh = !sem && sh_form(form);
  bool own = o.xc[ti] || o.sc[ti], rec = false; int top = -1; for (int k = 0; k < m.nh; k++) top = std::max(top, m.held[k]);
  if (own) { if (sem) form = SY; else if (!(o.caps & CAP_REC)) return; else { rec = true; if (sh_form(form)) form -= 4; } }
  else if (oi < top && (form == XL || form == SL)) form++;          // waits only for objects after every one it holds
  if ((oi < top || (own && sem)) && (form & 3) >= XF && (o.caps & CAP_SPIN)) form = XT;
  if (m.nh >= 60) return;
  sh = !sem && sh_form(form);
  TimeArg ta = targ(o, form, code, d);
  m.o = oi; m.form = form; m.shared = sh; m.timed = (form & 3) >= XF; m.tmp = false;
  m.clk = m.timed && (((form & 3) == XU && ta.clk == CK_SYSTEM) || (o.caps & CAP_SYSFOR)) ? 0 : 1;
  m.dl = NEVER; m.nb = form == XT || form == ST || (m.timed && (form & 3) == XF && ta.ns <= 0);
  bool comp = false;
  for (int i = 0; i < L->nt; i++) if (i != ti) {
    TS& x = L->th[i];
    if (o.xc[i] || (!sh && o.sc[i])) comp = true;
    if ((x.in_acq || x.in_rel) && !x.tmp && x.o == oi) comp = true;
  }
  uint64_t inv = ++o.invokes;
  m.in_acq = true;
  trace("invoke #%d.%s", oi, form_name(form));
  op_begin(m.nb);
  OpResult r = raw_op(o, form, ta);
  m.in_acq = false;
  trace("return #%d.%s -> %s %s", oi, form_name(form), r.out == O_TRUE ? "acquired" : r.out == O_FALSE ? "false" : "EXCEPTION", r.out > O_TRUE ? r.what : "");
  if (r.out > O_TRUE) { bad_exc(o, form, r); return; }
  if (r.out == O_TRUE) {
    if (sem) { if (held_total(o) >= o.init) fail(V_TOKENS, "#%d (%s): T%d acquired a permit although all %d are held", oi, o.name, cur(), o.init); }
    else for (int i = 0; i < L->nt; i++) if (i != ti) {
      if (o.xc[i]) fail(sh ? V_RWEXCL : V_EXCL, "#%d (%s): T%d acquired it by %s while T%d owns it", oi, o.name, cur(), form_name(form), L->fid[i]);
      if (!sh && o.sc[i]) fail(V_RWEXCL, "#%d (%s): T%d acquired it by %s while T%d holds it shared", oi, o.name, cur(), form_name(form), L->fid[i]);
    }
    (sh ? o.sc : o.xc)[ti]++; m.held[m.nh] = oi; m.hsh[m.nh++] = sh;
    if (m.nh > 1) probe(0);
    if (!sem || o.init == 1) { if (sh || (sem && o.init > 1)) guarded_read(o.data); else guarded_write(o.data, seq()); }
    if (inv > 1) mark_contended();
    return;
  }
  if (form == XL || form == SL) { fail(V_EXC, "#%d (%s): blocking %s returned false", oi, o.name, form_name(form)); return; }
  if (rec) fail(V_RECUR, "#%d (%s): owner's recursive %s failed", oi, o.name, form_name(form));
  else if (!comp && o.invokes == inv && !(o.caps & CAP_SPIN) && !(sem && held_total(o) >= o.init))
    fail(V_TRYFALSE, "#%d (%s): %s failed although no other thread uses this object", oi, o.name, form_name(form));
}
void release(int ti, int k) {
  TS& m = L->th[ti]; int oi = m.held[k]; bool sh = m.hsh[k]; Obj& o = L->o[oi];
  for (int i = k; i + 1 < m.nh; i++) { m.held[i] = m.held[i + 1]; m.hsh[i] = m.hsh[i + 1]; }
  m.nh--; (sh ? o.sc : o.xc)[ti]--;
  m.in_rel = true; m.tmp = false; m.o = oi; ++o.invokes;
  trace("invoke #%d.unlock", oi);
  op_begin(false);
  OpResult r = raw_un(o, sh);
  m.in_rel = false;
  trace("return #%d.unlock", oi);
  if (r.out > O_TRUE) fail((o.caps & CAP_CHECKED) ? V_FALSEREPORT : V_EXC, "#%d (%s): release threw '%s' although it was used correctly", oi, o.name, r.what);
}
// an object nobody else knows: everything succeeds at once
void temp(int ti, int oi, int form) {
  TS& m = L->th[ti]; Obj o; memset((void*)&o, 0, sizeof o);
  if (!make(o, L->o[oi].name, 1)) return;
  form = fix_form(form, o.caps, o.s);
  trace("private %s: %s", o.name, form_name(form));
  m.tmp = true; m.o = oi; m.form = form; m.timed = false; m.nb = true; m.in_acq = true;
  op_begin(true); TimeArg t{UN_NS, (o.caps & CAP_SYSFOR) ? CK_SYSTEM : CK_STEADY, 0}; if ((form & 3) == XU) t.ns = t.clk == CK_SYSTEM ? sysnow() : now(); 
  OpResult r = raw_op(o, form, t); bool ok = r.out == O_TRUE;
  for (int k = 0; k < 64 && !ok && (o.caps & CAP_SPIN) && r.out == O_FALSE; k++) { r = raw_op(o, form, t); ok = r.out == O_TRUE; }   // may fail spuriously
  m.in_acq = false;
  if (r.out > O_TRUE) { bad_exc(o, form, r); return; }
  if (!ok) { fail(V_TRYFALSE, "%s: %s failed on an object only this thread knows", o.name, form_name(form)); drop(o); return; }
  point(P_BODY, nullptr);
  m.in_rel = true; op_begin(false); r = raw_un(o, !o.s && sh_form(form)); m.in_rel = false;
  if (r.out > O_TRUE) fail((o.caps & CAP_CHECKED) ? V_FALSEREPORT : V_EXC, "%s: release threw '%s' although it was used correctly", o.name, r.what);
  drop(o); probe(1);
}
void pause(int64_t d) { if (d > 0) sleep_until(now() + d); }
void gate(int ti, int gi) {
  TS& m = L->th[ti]; Gate& g = L->g[gi]; OpResult r; int tok = 0;
  m.gate = gi + 1; g.arrived++;
  trace("invoke gate %d", gi);
  op_begin(false);
  if (g.l) r = call_latch(g.l, LO_AAW1, 1); else r = call_barrier(g.b, BO_AAW, 0, tok);
  m.gate = 0;
  trace("return gate %d", gi);
  if (r.out > O_TRUE) fail(V_EXC, "%s gate threw '%s'", g.l ? "latch" : "barrier", r.what);
  if (g.arrived < g.expect) fail(g.l ? V_LATCH : V_BARRIER, "%s %d let T%d through after %d of %d arrivals", g.l ? "latch" : "barrier", gi, cur(), g.arrived, g.expect);
  probe(2);
}
void thread_main(void* a) {
  int ti = (int)(intptr_t)a; TS& m = L->th[ti];
  for (const Step& s : L->p->th[ti]) {
    pause(s.a[6]);
    if (s.op == OP_ACQ) { acquire(ti, (int)s.a[0], (int)s.a[1], s.a[2], s.a[3]); for (int k = 0; k < s.a[4]; k++) point(P_BODY, nullptr); pause(s.a[5]); }
    else if (s.op == OP_REL) { if (m.nh) release(ti, (int)(s.a[0] % m.nh)); }
    else temp(ti, (int)s.a[0], (int)s.a[1]);
  }
  while (m.nh) release(ti, m.nh - 1);
  for (int g = 0; g < L->ng; g++) if (L->g[g].memb >> ti & 1) gate(ti, g);
}
void checker(void*) {
  for (int i = 0; i < L->no; i++) {
    Obj& o = L->o[i];
    auto tryit = [&](int form) {
      bool ok = false; OpResult r;
      for (int k = 0; k < ((o.caps & CAP_SPIN) ? 64 : 1) && !ok; k++) { op_begin(true); TimeArg t{UN_NS, 0, 1000}; r = raw_op(o, form, t); ok = r.out == O_TRUE; if (r.out > O_TRUE) break; }
      if (!ok) { fail(V_RESIDUE, "#%d (%s): after all threads released it, %s %s%s", i, o.name, form_name(form), r.out > O_TRUE ? "throws " : "does not succeed", r.out > O_TRUE ? r.what : ""); return; }
      r = raw_un(o, !o.s && sh_form(form)); if (r.out > O_TRUE) fail(V_RESIDUE, "#%d (%s): final release threw '%s'", i, o.name, r.what);
    };
    tryit(XT); if (o.t && (o.caps & CAP_SHARED)) { tryit(ST); tryit(SL); } tryit(XL);
  }
}
void quiesce(const Program&) {
  if (!L->alive) return;
  for (int g = 0; g < L->ng; g++) if (L->g[g].arrived >= L->g[g].expect) for (int i = 0; i < L->nt; i++)
    if (L->th[i].gate == g + 1 && is_blocked(L->fid[i])) fail(V_HANG, "%s %d: everybody arrived, nothing can run, yet T%d stays blocked", L->g[g].l ? "latch" : "barrier", g, L->fid[i]);
  for (int oi = 0; oi < L->no; oi++) {
    Obj& o = L->o[oi]; bool anyx = false, anys = false, wx = false, ws = false; int b = -1, bs = -1;
    for (int i = 0; i < L->nt; i++) { if (o.xc[i]) anyx = true; if (o.sc[i]) anys = true; }
    for (int i = 0; i < L->nt; i++) {
      TS& t = L->th[i];
      if (t.o != oi || !is_blocked(L->fid[i]) || info(L->fid[i]).wk == W_SLEEP) continue;
      if (t.in_rel) fail(V_BLOCKNB, "#%d (%s): T%d is blocked inside release", oi, o.name, L->fid[i]);
      if (!t.in_acq) continue;
      if (t.tmp) { fail(V_HANG, "%s: T%d is blocked in %s on an object only it knows", o.name, L->fid[i], form_name(t.form)); continue; }
      if (o.s) { if (held_total(o) < o.init) fail(V_HANG, "#%d (%s): a permit is free, nothing can run, yet T%d stays blocked", oi, o.name, L->fid[i]); continue; }
      if (t.shared) { ws = true; bs = i; } else wx = true;
      b = i;
    }
    if (b >= 0 && !anyx && !anys) fail(V_HANG, "#%d (%s): nobody owns it, nothing can run, yet T%d stays blocked in %s", oi, o.name, L->fid[b], form_name(L->th[b].form));
    else if (ws && !wx && !anyx && anys) fail(V_SHARE, "#%d (%s): T%d stays blocked in %s although only shared locks are held and no writer waits", oi, o.name, L->fid[bs], form_name(L->th[bs].form));
    if (b >= 0 || wx) probe(3);
  }
}
int split(const std::string& s, std::string* out) { int n = 0; size_t b = 0; int depth = 0; for (size_t i = 0; i <= s.size(); i++) { if (i < s.size() && (s[i] == '<' || s[i] == '[')) depth++; if (i < s.size() && (s[i] == '>' || s[i] == ']')) depth--; if (i == s.size() || (s[i] == ',' && !depth)) { if (n < MO && i > b) out[n++] = s.substr(b, i - b); b = i + 1; } } return n; }
const char* type_name(const std::string& n) { if (auto* t = find_lock_type(n)) return t->name; if (auto* t = find_sem_type(n)) return t->name; return nullptr; }
void body(const Program& p) {
  memset((void*)L, 0, sizeof *L);
  L->p = &p; L->nt = (int)p.th.size(); std::string names[MO]; L->no = split(p.type, names);
  for (int i = 0; i < L->no; i++) { if (!make(L->o[i], type_name(names[i]), 1 + (p.p[PM_PERMITS] >> (2 * i) & 3) % 3)) return; L->o[i].data = guarded_make(); }
  L->ng = (int)p.p[PM_GATES];
  for (int g = 0; g < L->ng; g++) {
    Gate& x = L->g[g]; OpResult r; x.memb = (uint32_t)(p.p[PM_GMEMB] >> (8 * g)) & ((1u << L->nt) - 1); x.expect = __builtin_popcount(x.memb);
    if (p.p[PM_GKIND] >> g & 1) x.b = call_barrier_make(find_barrier_type("barrier<>"), x.expect, r); else x.l = call_latch_make(x.expect, r);
    if (r.out != O_TRUE) { fail(V_EXC, "constructor of a gate threw '%s'", r.what); return; }
  }
  for (int i = 0; i < L->nt; i++) { int f = spawn(thread_main, (void*)(intptr_t)i); L->fid[i] = f; L->tof[f] = i; }
  L->alive = true;
  join_all(); stop_faults(); L->alive = false;
  spawn(checker, nullptr); join_all();
  for (int i = 0; i < L->no; i++) drop(L->o[i]);
  for (int g = 0; g < L->ng; g++) if (L->g[g].l) call_latch_destroy(L->g[g].l); else call_barrier_destroy(L->g[g].b);
}
void describe(const Program&, int, const Step& s, char* b, size_t n) {
  if (s.op == OP_ACQ) snprintf(b, n, "#%lld.%s(unit/clock %lld, %lld), %lld points, sleep %lld; sleep before %lld", (long long)s.a[0], form_name((int)s.a[1]), (long long)s.a[2], (long long)s.a[3], (long long)s.a[4], (long long)s.a[5], (long long)s.a[6]);
  else if (s.op == OP_REL) snprintf(b, n, "release held[%lld]; sleep before %lld", (long long)s.a[0], (long long)s.a[6]);
  else snprintf(b, n, "private object of the type of #%lld: %s; sleep before %lld", (long long)s.a[0], form_name((int)s.a[1]), (long long)s.a[6]);
}
bool normalise(Program& p) {
  std::string names[MO]; int no = split(p.type, names);
  if (!no || p.th.empty() || p.th.size() > MT) return false;
  bool spin = false; int caps[MO]; bool sem[MO];
  for (int i = 0; i < no; i++) { const LockType* t = find_lock_type(names[i]); const SemType* s = t ? nullptr : find_sem_type(names[i]); if ((!t && !s) || (s && s->max < 1)) return false; caps[i] = t ? t->caps : s->caps; sem[i] = !t; if (caps[i] & CAP_SPIN) spin = true; }
  if (p.p[PM_GATES] < 0) p.p[PM_GATES] = 0; if (p.p[PM_GATES] > MG) p.p[PM_GATES] = MG;
  for (int g = 0; g < p.p[PM_GATES]; g++) if (!((p.p[PM_GMEMB] >> (8 * g)) & ((1 << p.th.size()) - 1))) p.p[PM_GMEMB] |= 1ll << (8 * g);
  bool any = false;
  for (auto& th : p.th) for (auto& s : th) {
    any = true; if (s.op < 0 || s.op > OP_TEMP) s.op = OP_ACQ; if (s.a[0] < 0) s.a[0] = 0;
    if (s.op != OP_REL) { s.a[0] %= no; if (s.a[1] < 0 || s.a[1] >= NFORM) s.a[1] = 0; s.a[1] = fix_form((int)s.a[1], caps[s.a[0]], sem[s.a[0]]); }
    if (spin && s.op == OP_ACQ && (caps[s.a[0]] & CAP_WIN) && (s.a[1] & 3) >= XF) s.a[1] -= s.a[1] & 2 ? (s.a[1] & 3) - 1 : 0;   // Win32 rounds up to a clock tick: too long to spin meanwhile
    if (spin) { s.a[5] = 0; if (s.a[3] > 2000) s.a[3] = 2000; if (s.a[6] > 1000) s.a[6] = 1000; }
  }
  return any;
}
void gen(Rng& r, const Want&, Program& p, RunCfg& c) {
  gen_cfg(r, c, true); c.reuse = r.oneof(3);
  int no = r.permille(550) ? 2 : r.range(3, MO), nt = r.range(2, 6);
  auto pick = [&]() -> std::string {
    if (r.permille(120)) { const SemType* s; do s = sem_type_at(r.below(sem_type_count())); while (s->max < 1); return s->name; }
    const LockType* t; do t = lock_type_at(r.below(lock_type_count())); while ((t->caps & CAP_VARIANT) && !r.oneof(8));
    return t->name; };
  std::string a = pick(); bool same = r.permille(650);
  for (int i = 0; i < no; i++) p.type += (i ? "," : "") + (i == 0 || (same && !r.oneof(8)) ? a : pick());
  p.p[PM_PERMITS] = r.below(1024);
  if (r.permille(300)) { p.p[PM_GATES] = r.range(1, MG); p.p[PM_GKIND] = r.below(8); p.p[PM_GMEMB] = (int64_t)(r.next() & 0xFFFFFF); }
  int64_t durs[] = {-1000, -1, 0, 1, 100, 1000, 5000, 50000, 1000000, 20000000};
  int wt[NFORM] = {6, 3, 2, 2, 5, 2, 1, 1}; for (int& x : wt) if (r.permille(200)) x = 0; if (!wt[0]) wt[0] = 2;
  int tot = 0; for (int x : wt) tot += x;
  int relp = r.range(100, 600), tmp = r.oneof(3) ? 150 : 30; bool home = r.permille(400);
  p.th.resize(nt);
  for (int i = 0; i < nt; i++) {
    int ns = r.range(1, r.oneof(3) ? 12 : 5);
    for (int k = 0; k < ns; k++) {
      Step s; int x = r.below(tot), f = 0; while (x >= wt[f]) x -= wt[f++];
      s.op = OP_ACQ; s.a[0] = home && !r.oneof(5) ? i % no : r.below(no); s.a[1] = f; s.a[2] = 10 * r.below(NUNIT) + r.below(NCK); s.a[3] = durs[r.below(10)]; s.a[4] = r.below(r.oneof(2) ? 2 : 8);
      if (r.permille(tmp)) s.op = OP_TEMP;
      if (r.permille(200)) s.a[5] = durs[3 + r.below(7)]; if (r.permille(250)) s.a[6] = durs[3 + r.below(7)];
      p.th[i].push_back(s);
      if (r.permille(relp)) { Step q; q.op = OP_REL; q.a[0] = r.below(4); p.th[i].push_back(q); }
    }
  }
  c.finish = 3000000; c.rate[F_SYSJUMP] = 0;
  normalise(p);
}
const char* const probes[] = {"several objects held by one thread", "private object used and destroyed", "passed a gate", "blocked on one of several objects", nullptr};
const Family F = {"multi", gen, body, quiesce, describe, normalise, probes};
__attribute__((constructor)) void reg() { register_family(&F); }
}
