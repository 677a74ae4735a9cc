// Family "locks": one lock object, many threads, every acquisition form, refinement of reference models.
#include "prog.h"
#include "locks.h"
#include "props.h"
#include <stdio.h>
#include <string.h>
#include <algorithm>
using namespace sim;

static const LockType* g_types[256]; static int g_ntypes;
void add_lock_types(const LockType* t, int n) { for (int i = 0; i < n; i++) g_types[g_ntypes++] = &t[i]; std::sort(g_types, g_types + g_ntypes, [](const LockType* a, const LockType* b) { return strcmp(a->name, b->name) < 0; }); }
const LockType* find_lock_type(const std::string& n) { for (int i = 0; i < g_ntypes; i++) if (n == g_types[i]->name) return g_types[i]; return nullptr; }
int lock_type_count() { return g_ntypes; }
const LockType* lock_type_at(int i) { return g_types[i]; }

// params
enum { PP_STAGED, PP_DESTROY, PP_ALLOCF, PP_NATH /* 4 bits per thread: first acquisition, its release, nested acquisitions, their releases go by native_handle() */ };
// step: op=form; a0 unit*10+clk; a1 duration ns (slots when staged); a2 hold points; a3 hold sleep ns (slots); a4 pre sleep ns (slots);
//       a5 nesting depth; a6 nested forms seed; a7 repeat
namespace {
const int MT = 310;
struct ThreadL {
  int xc, sc;                 // owned exclusive / shared (ledger)
  bool in_acq, in_rel; int form; bool shared, nb, timed, sysrel; ns_t dl; int clk; ns_t dur; bool isfor;
  bool uclk; ns_t invt; uint64_t inv; uint64_t qpark; // sequence numbers
  uint64_t inv_relcnt;        // exclusive release invocations when the operation began
  bool inv_relactive, rel_excl;
  int suspects; int suspect_by[4]; Cls suspect_cls; char suspect_what[64];
  bool competition; uint64_t others_inv;
  bool self_rec;
};
struct Led {
  LockIf* lk; Guarded* data; const LockType* t; const Program* p;
  int nt; ThreadL th[MT];
  uint64_t invokes, xinvokes; // acquisitions and releases invoked; exclusive ones
  uint64_t last_xrel_seq; uint64_t xrel_cnt;
  int fid[MT]; int tof[MAXF];
  // staged model
  bool staged, model_ok; ns_t t0; std::vector<char>* used;
  struct Ev { int kind, th; bool shared, nb; } ev[64]; int nev; // 0 acquire 1 release
  int mx_owner, mx_count; std::vector<int>* mq; bool ms_owner[MT]; int ms_cnt; bool mres_false[MT];
  bool destroyed; int64_t refs; bool finished_any; int done_threads; ns_t slotlen;
};
Led* L = new Led();
ThreadL& me() { return L->th[L->tof[cur()]]; }
int mytid() { return L->tof[cur()]; }
bool via_native(int what) { return mytid() < 15 && (L->p->p[PP_NATH] >> (4 * mytid() + what) & 1); }
bool is_shared_form(int f) { return f >= SL; }
const char* form_name(int f) { static const char* const n[] = {"lock", "try_lock", "try_lock_for", "try_lock_until", "lock_shared", "try_lock_shared", "try_lock_shared_for", "try_lock_shared_until"}; return n[f & 7]; }

// ---- staged slots
ns_t alloc_slot(ns_t want) {
  int64_t k = (want - L->t0 + L->slotlen - 1) / L->slotlen; if (k < 1) k = 1;
  if ((now() - L->t0) / L->slotlen + 1 > k) k = (now() - L->t0) / L->slotlen + 1;
  while (k < (int64_t)L->used->size() && (*L->used)[k]) k++;
  if (k >= (int64_t)L->used->size()) return want;
  (*L->used)[k] = 1;
  return L->t0 + k * L->slotlen;
}
void pause_for(int64_t d) {
  if (L->staged) sleep_until(alloc_slot(now() + d * L->slotlen));
  else if (d > 0) sleep_until(now() + d);
}
void log_ev(int kind, int th, bool sh, bool nb) {
  if (!L->staged) return;
  if (L->nev >= 64) { L->model_ok = false; return; }
  L->ev[L->nev++] = Led::Ev{kind, th, sh, nb};
}

void note_suspect(int t1, int t2, Cls c, const char* what) {
  ThreadL& a = L->th[t1];
  if (a.suspects < 4) a.suspect_by[a.suspects] = t2;
  if (!a.suspects) { a.suspect_cls = c; snprintf(a.suspect_what, sizeof a.suspect_what, "%s", what); }
  a.suspects++;
}
uint64_t park_of(int t) { uint64_t p = first_park(L->fid[t]); uint64_t q = L->th[t].qpark; if (!p) return q; if (!q) return p; return p < q ? p : q; }

// ---- one acquisition
bool acquire(int form, const TimeArg& ta0, bool rec_owner) {
  ThreadL& m = me(); int ti = mytid();
  TimeArg ta = ta0; bool timed = form == XF || form == XU || form == SF || form == SU;
  bool sh = is_shared_form(form);
  m.form = form; m.shared = sh; m.timed = timed; m.isfor = form == XF || form == SF; m.suspects = 0; m.qpark = 0;
  m.sysrel = false; m.self_rec = rec_owner;
  ns_t dl = NEVER; int clk = 1 /*CLOCK_MONOTONIC*/;
  if (timed) {
    if (m.isfor) { if (L->t->caps & CAP_SYSFOR) { clk = 0; m.sysrel = true; } dl = clock_now(clk) + ta.ns; }
    else {
      if (L->t->caps & CAP_SYSFOR) ta.clk = CK_SYSTEM;
      if (ta.clk == CK_SYSTEM) clk = 0;
      dl = ta.ns - (ta.clk == CK_USER ? USER_CLOCK_OFFSET : 0);
    }
  }
  m.dl = dl; m.clk = clk; m.dur = ta.ns; m.uclk = timed && !m.isfor && (ta.clk == CK_USER || (L->t->caps & CAP_WIN));   // Win32 waits are relative
  bool nojump = fired(F_SYSJUMP) == 0;
  m.nb = form == XT || form == ST || (timed && dl <= clock_now(clk) && nojump);
  m.in_acq = true; m.invt = now(); m.inv = seq(); m.inv_relcnt = L->xrel_cnt;
  m.inv_relactive = false; for (int i = 0; i < L->nt; i++) if (L->th[i].in_rel && L->th[i].rel_excl) m.inv_relactive = true;
  // competition
  m.competition = false;
  for (int i = 0; i < L->nt; i++) if (i != ti) {
    ThreadL& o = L->th[i];
    bool conflict = o.xc || (!sh && o.sc);
    bool incall = sh ? (o.in_acq && !o.shared) || (o.in_rel && o.rel_excl) : o.in_acq || o.in_rel;   // shared operations do not conflict with each other
    if (conflict || incall) m.competition = true;
  }
  uint64_t inv0 = ++L->invokes; if (!sh) ++L->xinvokes;
  uint64_t conf0 = sh ? L->xinvokes : L->invokes;
  if (tracing()) {
    if (timed) trace("invoke %s(%s%lld ns)", form_name(form), m.isfor ? "" : ta.clk == CK_SYSTEM ? "system " : ta.clk == CK_USER ? "user clock " : "steady ", (long long)ta.ns);
    else trace("invoke %s", form_name(form));
  }
  log_ev(0, ti, sh, m.nb);
  op_begin(m.nb);
  const bool nat = (form == XL || form == XT || form == SL || form == ST) && via_native(rec_owner ? 2 : 0);
  if (nat) { trace("by native_handle()"); probe(9); }
  OpResult r = call_op(L->lk, nat ? form | VIA_NATIVE : form, ta);
  m.in_acq = false;
  trace("return %s -> %s%s%s", form_name(form), r.out == O_TRUE ? "acquired" : r.out == O_FALSE ? "false" : "EXCEPTION ", r.out > O_TRUE ? r.what : "", "");
  if (r.out > O_TRUE) {
    if (r.out == O_BADALLOC && fired(F_ALLOC)) return false;
    if (r.out == O_SYSERR && api_hits()) { probe(5); return false; }        // a failed system call was reported
    fail((L->t->caps & CAP_CHECKED) ? V_FALSEREPORT : V_EXC, "%s::%s threw '%s' although it was used correctly", L->t->name, form_name(form), r.what);
    L->model_ok = false;
    return false;
  }
  if (r.out == O_TRUE) {
    for (int i = 0; i < L->nt; i++) if (i != ti) {
      ThreadL& o = L->th[i];
      if (!sh && o.xc) fail(V_EXCL, "%s: T%d acquired by %s while T%d still owns the exclusive lock", L->t->name, cur(), form_name(form), L->fid[i]);
      if (!sh && o.sc) fail(V_RWEXCL, "%s: T%d acquired the exclusive lock by %s while T%d still owns a shared lock", L->t->name, cur(), form_name(form), L->fid[i]);
      if (sh && o.xc) fail(V_RWEXCL, "%s: T%d acquired a shared lock by %s while T%d still owns the exclusive lock", L->t->name, cur(), form_name(form), L->fid[i]);
    }
    if (sh) m.sc++; else m.xc++;
    // order
    Policy pol = L->t->pol;
    if (pol != POL_NONE && !rec_owner) for (int i = 0; i < L->nt; i++) if (i != ti) {
      ThreadL& o = L->th[i];
      if (!o.in_acq || o.nb) continue;
      uint64_t pk = park_of(i);
      if (!pk) continue;
      if (pk < m.inv) {  // o was already waiting when we made our request
        bool bad = false;
        switch (pol) {
          case POL_FIFO: bad = true; break;
          case POL_TASK: bad = !(o.shared && sh); break;
          case POL_PHASE: bad = !sh || (!o.shared && L->xrel_cnt == m.inv_relcnt && !m.inv_relactive); break;
          case POL_WP: bad = !o.shared && sh; break;
          default: break;
        }
        if (bad) note_suspect(i, ti, pol == POL_FIFO ? V_FIFO : V_POLICY, "request made later");
      } else if (pol == POL_WP && sh && !o.shared && L->last_xrel_seq > pk) {
        note_suspect(i, ti, V_POLICY, "waiting reader at hand-over");
      }
    }
    if (m.suspects) {
      fail(m.suspect_cls, "%s: T%d waited in %s and was overtaken by T%d (%s)", L->t->name, cur(), form_name(form), L->fid[m.suspect_by[0]], m.suspect_what);
      m.suspects = 0;
    }
    if (inv0 > 1) mark_contended();
  } else {
    if (form == XL || form == SL) fail(V_EXC, "blocking lock returned false");
    if (timed) {
      ns_t c = clk == 0 ? max_sys() : now();
      bool skip = (m.sysrel || ((L->t->caps & CAP_WIN) && clk == 0)) && fired(F_SYSJUMP);   // Win32 waits are relative
      if (api_hits()) skip = true;
      if (c < dl && !skip) fail(V_EARLY, "%s: %s returned false %lld ns before its deadline (dur/deadline %lld, clock %s)", L->t->name, form_name(form), (long long)(dl - c), (long long)ta.ns, clk == 0 ? "system" : ta.clk == CK_USER ? "user" : "steady");
    }
    if (api_hits()) probe(5);
    else if (rec_owner) fail(V_RECUR, "%s: owner's recursive %s failed", L->t->name, form_name(form));
    else if (!m.competition && (sh ? L->xinvokes : L->invokes) == conf0 && !(L->t->caps & CAP_SPIN))
      fail(V_TRYFALSE, "%s: %s failed although no other thread held, acquired or waited for the lock in a conflicting mode", L->t->name, form_name(form));
    probe(0);
  }
  return r.out == O_TRUE;
}
void release(bool sh, bool nested = false) {
  ThreadL& m = me();
  if (sh) m.sc--; else m.xc--;
  m.in_rel = true; m.rel_excl = !sh; ++L->invokes; if (!sh) ++L->xinvokes;
  bool full = sh ? m.sc == 0 : m.xc == 0;
  if (!sh && full) { L->last_xrel_seq = seq(); L->xrel_cnt++; }
  if (full) log_ev(1, mytid(), sh, false);
  trace("invoke unlock%s", sh ? "_shared" : "");
  op_begin(false);
  OpResult r = call_unlock(L->lk, sh, via_native(nested ? 3 : 1));
  trace("return unlock");
  m.in_rel = false;
  if (r.out > O_TRUE) fail((L->t->caps & CAP_CHECKED) ? V_FALSEREPORT : V_EXC, "%s::unlock threw '%s' although it was used correctly", L->t->name, r.what);
}
TimeArg targ(int form, int64_t code, int64_t d) {
  TimeArg t; t.unit = (int)(code / 10); t.clk = (int)(code % 10);
  if (L->staged) d = d <= 0 ? -1000 : alloc_slot(now() + d * L->slotlen) - now();
  if (is_abs(d) && form != XU && form != SU) d = -1;
  t.ns = d;
  if (L->t->caps & CAP_SYSFOR) t.clk = CK_SYSTEM;
  if (is_abs(d)) { t.unit = UN_NS; t.ns = d - ABS0; return t; }
  t.ns = unit_round(t.unit, d);
  if (form == XU || form == SU) {
    t.ns = d + (t.clk == CK_SYSTEM ? sysnow() : t.clk == CK_USER ? now() + USER_CLOCK_OFFSET : now());
    if (until_unit(t.unit)) t.ns = unit_floor(t.unit, t.ns);
  }
  return t;
}
void do_step(const Step& s) {
  int reps = s.a[7] > 0 ? (int)s.a[7] : 1;
  for (int rp = 0; rp < reps; rp++) {
    if (s.a[4] > 0) pause_for(s.a[4]);
    bool sh = is_shared_form(s.op);
    if (!acquire(s.op, targ(s.op, s.a[0], s.a[1]), false)) continue;
    if (sh) guarded_read(L->data); else guarded_write(L->data, seq());
    int depth = (int)s.a[5]; int got = 0; uint64_t fs = (uint64_t)s.a[6];
    for (int d = 0; d < depth; d++) {
      int f = depth > 40 ? (int)((fs >> (2 * (d % 8))) & 3) : (int)((fs >> (2 * (d % 24))) & 3);
      if (!(L->t->caps & CAP_TIMED) && f > XT) f &= 1;
      TimeArg t; t.unit = UN_NS; t.clk = CK_STEADY; t.ns = f == XF ? (int64_t)(fs % 3) * 1000 - 1000 : 0;
      if (f == XU) t = targ(XU, 0, 0);
      if (acquire(f, t, true)) got++;
    }
    for (int k = 0; k < s.a[2]; k++) point(P_BODY, nullptr);
    if (s.a[3] > 0) pause_for(s.a[3]);
    while (got-- > 0) release(false, true);
    if (sh) guarded_read(L->data); else guarded_write(L->data, seq());
    release(sh);
  }
}
void destroy_now() {
  trace("destroy");
  OpResult r = call_destroy(L->lk);
  L->destroyed = true;
  if (r.out > O_TRUE) fail(V_FALSEREPORT, "%s: destructor threw '%s' on an unused object", L->t->name, r.what);
}
void thread_main(void* a) {
  int ti = (int)(intptr_t)a;
  const Program& p = *L->p;
  for (const Step& s : p.th[ti]) do_step(s);
  if (p.p[PP_DESTROY] > 1) {
    // everybody else leaves for good from under a shared (or exclusive) lock; thread 0 destroys the object once it has had it exclusively after that
    if (ti) { bool sh = !(p.p[PP_DESTROY] >> ti & 2); if (acquire(sh ? SL : XL, TimeArg{0, 0, 0}, false)) { for (int k = 0; k < ti; k++) point(P_BODY, nullptr); L->refs--; release(sh); } else L->refs = 1000; }
    else for (ns_t d = 100;; d *= 2) {
      bool alone = false, got = acquire(XL, TimeArg{0, 0, 0}, false);
      if (got) { alone = L->refs == 1; release(false); }
      if (alone) { probe(7); destroy_now(); }
      if (alone || !got || L->refs >= 500) break;
      sleep_until(now() + d);
    }
  } else if (p.p[PP_DESTROY]) {
    // drop a reference under the lock; the last one destroys the object right after its own unlock
    if (acquire(XL, TimeArg{0, 0, 0}, false)) {
      bool last = --L->refs == 0;
      release(false);
      if (last) { probe(1); destroy_now(); }
    }
  }
  L->done_threads++;
}
void checker(void*) {
  // after everything: the object must be free, usable in every form, and destroyable
  auto tryit = [&](int form, int64_t d) {
    bool ok = false;
    for (int k = 0; k < ((L->t->caps & CAP_SPIN) ? 64 : 1) && !ok; k++) {
      OpResult r; TimeArg t{0, 0, 0}; if (form == XF || form == SF) t.ns = d;
      op_begin(true); r = call_op(L->lk, form, t); ok = r.out == O_TRUE;
      if (r.out > O_TRUE) fail(V_RESIDUE, "%s: after all threads released, %s threw '%s'", L->t->name, form_name(form), r.what);
    }
    if (!ok) fail(V_RESIDUE, "%s: after all threads released, %s does not succeed", L->t->name, form_name(form));
    else { OpResult r = call_unlock(L->lk, is_shared_form(form)); if (r.out > O_TRUE) fail(V_RESIDUE, "%s: final unlock threw '%s'", L->t->name, r.what); }
  };
  tryit(XT, 0);
  if (L->t->caps & CAP_SHARED) { tryit(ST, 0); tryit(SL, 0); }
  tryit(XL, 0);
  if (L->t->caps & CAP_TIMED) { tryit(XF, 1000); if (L->t->caps & CAP_SHARED) tryit(SF, 1000); }
}

// ---- reference model for the fair types (staged runs)
// waiting entries: thread*2 + shared
void m_grant() {
  auto& q = *L->mq;
  bool phase = L->t->pol == POL_PHASE;
  if (L->mx_owner >= 0 || L->ms_cnt || q.empty()) return;
  if (!(q[0] & 1)) { L->mx_owner = q[0] >> 1; q.erase(q.begin()); return; }
  // shared in front
  for (size_t i = 0; i < q.size();) {
    if (q[i] & 1) { L->ms_owner[q[i] >> 1] = true; L->ms_cnt++; q.erase(q.begin() + i); }
    else if (phase) i++;
    else break;
  }
}
void m_acquire(int th, bool sh, bool nb) {
  auto& q = *L->mq;
  bool can = sh ? (L->mx_owner < 0 && q.empty()) : (L->mx_owner < 0 && !L->ms_cnt && q.empty());
  if (can) { if (sh) { L->ms_owner[th] = true; L->ms_cnt++; } else L->mx_owner = th; }
  else if (!nb) q.push_back(th * 2 + sh);
}
void m_release(int th, bool sh) {
  if (sh) { if (!L->ms_owner[th]) { L->model_ok = false; return; } L->ms_owner[th] = false; L->ms_cnt--; if (!L->ms_cnt) m_grant(); }
  else { if (L->mx_owner != th) { L->model_ok = false; return; } L->mx_owner = -1; m_grant(); }
}
void m_timeout(int th) {
  auto& q = *L->mq;
  for (size_t i = 0; i < q.size(); i++) if (q[i] >> 1 == th) {
    bool sh = q[i] & 1; q.erase(q.begin() + i);
    if (!sh && i == 0 && L->ms_cnt) while (!q.empty() && (q[0] & 1)) { L->ms_owner[q[0] >> 1] = true; L->ms_cnt++; q.erase(q.begin()); }
    return;
  }
}
void model_check() {
  if (!L->staged || !L->model_ok) return;
  if (!(L->t->caps & CAP_FAIR)) { L->nev = 0; return; }
  // time-outs of waiters since the last quiescence
  int to[MT], nto = 0;
  for (int e : *L->mq) { ThreadL& t = L->th[e >> 1]; if (t.timed && clock_now(t.clk) >= t.dl) to[nto++] = e >> 1; }
  int total = nto + L->nev;
  if (total > 1) { L->model_ok = false; probe(3); return; }
  if (total == 1) probe(2);
  if (nto) m_timeout(to[0]);
  if (L->nev) { Led::Ev& e = L->ev[0]; if (e.kind == 0) m_acquire(e.th, e.shared, e.nb); else m_release(e.th, e.shared); if (!L->model_ok) return; }
  L->nev = 0;
  for (int i = 0; i < L->nt; i++) {
    ThreadL& t = L->th[i];
    bool mx = L->mx_owner == i, ms = L->ms_owner[i], mw = false;
    for (int e : *L->mq) if (e >> 1 == i) mw = true;
    bool ox = t.xc > 0, os = t.sc > 0, ow = t.in_acq;
    if (mx != ox || ms != os || mw != ow) {
      Cls c = L->t->pol == POL_FIFO ? V_FIFO : V_POLICY;
      L->model_ok = false;
      fail(c, "%s: T%d is %s but the %s reference model says %s (t=%lld)", L->t->name, L->fid[i], ox ? "exclusive owner" : os ? "shared owner" : ow ? "waiting" : "idle",
           L->t->pol == POL_FIFO ? "FIFO" : L->t->pol == POL_TASK ? "task-fair" : "phase-fair", mx ? "exclusive owner" : ms ? "shared owner" : mw ? "waiting" : "idle", (long long)now());
      return;
    }
  }
}
void quiesce(const Program&) {
  if (!L->lk || L->destroyed) return;
  bool anyx = false, anys = false, wx = false, ws = false; int a_wx = -1, a_ws = -1;
  for (int i = 0; i < L->nt; i++) {
    ThreadL& t = L->th[i];
    if (t.xc) anyx = true; if (t.sc) anys = true;
    if (t.in_rel) fail(V_BLOCKNB, "%s: T%d is blocked inside unlock", L->t->name, L->fid[i]);
    if (!t.in_acq) continue;
    if (!is_blocked(L->fid[i])) continue;
    FiberInfo fi = info(L->fid[i]);
    if (fi.wk == W_SLEEP && t.timed && (!t.nb || fired(F_SYSJUMP)) && (L->t->caps & CAP_WIN)) continue;   // sleeps off the rest of its time-out
    if (!t.qpark) t.qpark = seq();
    if (t.nb && !(t.timed && fired(F_SYSJUMP))) fail(V_BLOCKNB, "%s: T%d waits inside %s, which must not wait", L->t->name, L->fid[i], form_name(t.form));
    if (t.self_rec) fail(V_RECUR, "%s: owner T%d is blocked in its own recursive %s", L->t->name, L->fid[i], form_name(t.form));
    if (t.timed) {
      ns_t c = clock_next(t.clk); bool late;
      const ns_t slack = (L->t->caps & CAP_WIN) ? 40000000 * (1 + (t.dl - t.invt) / 2147483647000000ll) : 5000;   // Win32: rounding to ms, one tick
      if ((L->t->caps & CAP_WIN) && t.clk == 0 && fired(F_SYSJUMP)) late = false;
      else if (t.isfor) late = t.sysrel ? (!fired(F_SYSJUMP) && first_park_time(L->fid[i]) && c >= clock_now(t.clk) - now() + first_park_time(L->fid[i]) + t.dur + slack)
                                   : (first_park_time(L->fid[i]) && clock_next(1) >= first_park_time(L->fid[i]) + t.dur + slack);
      else if (t.uclk) late = c >= t.dl + slack + (last_park_time(L->fid[i]) - t.invt); // libstdc++ converts foreign clocks in two reads
      else late = c >= t.dl + slack;
      if (late) fail(V_LATE, "%s: T%d waits in %s until %lld ns after its deadline", L->t->name, L->fid[i], form_name(t.form), (long long)(c - t.dl));
    }
    (void)fi;
    if (t.shared) { ws = true; a_ws = i; } else { wx = true; a_wx = i; }
  }
  if (!anyx && !anys && (wx || ws)) {
    int w = wx ? a_wx : a_ws;
    fail(V_HANG, "%s: nobody owns the lock, nothing can run, yet T%d stays blocked in %s", L->t->name, L->fid[w], form_name(L->th[w].form));
  } else if (!anyx && anys && ws && !wx) {
    fail(V_SHARE, "%s: T%d stays blocked in %s although only shared locks are held and no writer waits", L->t->name, L->fid[a_ws], form_name(L->th[a_ws].form));
  } else if (!anyx && ws && L->t->pol == POL_RP) {
    fail(V_POLICY, "%s: T%d stays blocked in %s although no writer owns the lock (ReaderPrefer)", L->t->name, L->fid[a_ws], form_name(L->th[a_ws].form));
  }
  if (L->nt > 256) { int own = 0, wait = 0; for (int i = 0; i < L->nt; i++) { if (L->th[i].sc) own++; if (L->th[i].in_acq) wait++; } if (own > 255 || wait > 255) probe(8); }
  if (wx && ws) probe(4);
  model_check();
}
void body(const Program& p) {
  auto* used = L->used; auto* mq = L->mq;
  memset((void*)L, 0, sizeof *L);
  L->used = used; L->mq = mq;
  if (!L->used) L->used = new std::vector<char>(); if (!L->mq) L->mq = new std::vector<int>();
  L->used->assign(4000, 0); L->mq->clear();
  L->p = &p; L->t = find_lock_type(p.type); L->staged = p.p[PP_STAGED]; L->model_ok = true; L->mx_owner = -1; L->slotlen = 1000000;
  L->nt = (int)p.th.size(); L->refs = L->nt; L->t0 = now();
  uint32_t f0 = fired(F_API);
  OpResult r; L->data = guarded_make(); L->lk = call_make(L->t, r);
  if (r.out == O_SYSERR && fired(F_API) != f0) { probe(6); L->lk = nullptr; return; }   // reported
  if (r.out == O_TRUE && fired(F_API) != f0) fail(V_NATIVE, "%s: constructed although the native object could not be created", L->t->name);
  if (r.out != O_TRUE) { fail(V_EXC, "constructor of %s threw '%s'", L->t->name, r.what); return; }
  for (int i = 0; i < L->nt; i++) { int f = spawn(thread_main, (void*)(intptr_t)i); L->fid[i] = f; L->tof[f] = i; }
  join_all();
  stop_faults();
  if (!L->destroyed) {
    bool dp = false; for (auto& t : p.th) for (auto& s : t) if (s.a[5] >= 64) dp = true;
    uint64_t lim = 1024 + 128 * (uint64_t)L->nt;
    if (!dp && usage().bytes > lim) fail(V_LEAK, "%s: nobody uses it any more, yet it holds %llu bytes of memory", L->t->name, (unsigned long long)usage().bytes);
    int f = spawn(checker, nullptr); (void)f; join_all();
    destroy_now();
  }
}
void describe(const Program& p, int, const Step& s, char* b, size_t n) {
  int k = snprintf(b, n, "%s", form_name(s.op));
  if (s.op == XF || s.op == XU || s.op == SF || s.op == SU) k += snprintf(b + k, n - k, "(%lld%s)", (long long)s.a[1], p.p[PP_STAGED] ? " slots" : "ns");
  snprintf(b + k, n - k, " hold=%lld points+%lld sleep, pre-sleep=%lld, nested=%lld, repeat=%lld", (long long)s.a[2], (long long)s.a[3], (long long)s.a[4], (long long)s.a[5], (long long)s.a[7]);
}
bool normalise(Program& p) {
  const LockType* t = find_lock_type(p.type);
  if (!t || p.th.empty() || p.th.size() > MT) return false;
  bool any = false;
  for (auto& th : p.th) for (auto& s : th) {
    any = true;
    if (s.op < 0 || s.op >= NFORM) s.op = XL;
    if (is_shared_form(s.op) && !(t->caps & CAP_SHARED)) s.op -= 4;
    if (!(t->caps & CAP_TIMED)) { if (s.op == XF || s.op == XU) s.op = XT; if (s.op == SF || s.op == SU) s.op = ST; }
    if (!(t->caps & CAP_REC) || is_shared_form(s.op)) s.a[5] = 0;
    if (t->caps & CAP_SPIN) s.a[3] = 0;
    if (!(t->caps & CAP_NATH)) p.p[PP_NATH] = 0;
    if (p.p[PP_STAGED]) { for (int k : {3, 4}) if (s.a[k] < 1) s.a[k] = 1; s.a[2] = 0; s.a[7] = 0; }
  }
  if (p.p[PP_DESTROY] > 1 && !(t->caps & CAP_SHARED)) p.p[PP_DESTROY] = 1;
  if ((t->caps & CAP_SPIN) && p.p[PP_STAGED]) return false;
  return any;
}
bool type_ok(const LockType* t, int mode) {
  switch (mode) {
    case M_RW: return t->caps & CAP_SHARED;
    case M_REC: return t->caps & CAP_REC;
    case M_TIMED: return t->caps & CAP_TIMED;
    case M_FIFO: return t->pol == POL_FIFO;
    case M_TASK: return t->pol == POL_TASK;
    case M_PHASE: return t->pol == POL_PHASE;
    case M_RP: return t->pol == POL_RP;
    case M_WP: return t->pol == POL_WP;
    case M_LIVE: return true;
    case M_CHK: return t->caps & CAP_CHECKED;
    case M_NATH: return t->caps & CAP_NATH;
    case M_NATIVE: return t->caps & CAP_NATIVE;
    default: return true;
  }
}
void gen(Rng& r, const Want& w, Program& p, RunCfg& c) {
  int mode = w.mode;
  const LockType* t;
  do t = g_types[r.below(g_ntypes)]; while (!type_ok(t, mode) || ((t->caps & CAP_VARIANT) && (mode != M_CHK && !r.oneof(8))));
  p.type = t->name;
  if (mode == M_NATH) p.p[PP_NATH] = (int64_t)(r.next() >> 4);
  bool pol = mode >= M_FIFO && mode <= M_WP;
  bool spin = t->caps & CAP_SPIN, shared = t->caps & CAP_SHARED, timed = t->caps & CAP_TIMED;
  bool staged = !spin && (pol ? r.permille(650) : (mode == M_LIVE || mode == M_TIMED || mode == M_TRY) ? r.permille(250) : r.permille(80));
  p.p[PP_STAGED] = staged;
  if (mode == M_DESTROY) { p.p[PP_DESTROY] = shared && r.oneof(2) ? 2 + (r.oneof(3) ? r.below(16) * 2 : 0) : 1; staged = false; p.p[PP_STAGED] = 0; }
  gen_cfg(r, c, true);
  int nt = mode == M_DESTROY ? r.range(2, 3) : staged ? r.range(3, 7) : r.permille(700) ? r.range(2, 3) : r.range(4, 6);
  bool crowd = !staged && mode != M_DESTROY && r.permille(mode == M_RW ? 20 : 6);
  if (crowd) nt = r.range(10, 70);
  p.th.resize(nt);
  int steps_max = staged ? r.range(1, 4) : crowd ? 1 : r.range(1, 5);
  // weights per form
  int wt[NFORM] = {0};
  wt[XL] = 4; wt[XT] = 2; if (timed) { wt[XF] = 3; wt[XU] = 3; }
  if (shared) { wt[SL] = 4; wt[ST] = 2; if (timed) { wt[SF] = 3; wt[SU] = 3; } }
  for (int f = 0; f < NFORM; f++) if (wt[f] && r.permille(250)) wt[f] = 0; // swarm
  if (mode == M_TRY) { wt[XT] = 6; if (shared) wt[ST] = 6; }
  if (mode == M_TIMED) { wt[XF] += 5; wt[XU] += 5; if (shared) { wt[SF] += 5; wt[SU] += 5; } }
  if (mode == M_DESTROY) { for (int& x : wt) x = 0; wt[XL] = 3; wt[XT] = 1; if (timed) wt[XF] = 2; if (shared) wt[SL] = wt[ST] = 1; }
  int tot = 0; for (int x : wt) tot += x;
  if (!tot) { wt[XL] = 1; tot = 1; }
  int64_t durs[] = {-1000000000, -1, 0, 1, 100, 1000, 5000, 50000, 1000000, 3000000, 20000000, 2500000000ll};
  const int64_t far[] = {1000000000, 4500000000ll, 2200000000000ll, 4400000000000ll, 3600000000000ll, 2600000000000000ll};   // beyond 32 bit nano-, micro- and milliseconds
  int pm_far = !spin && mode != M_DESTROY && r.oneof(4) ? 250 : 0;
  int pm_past = r.oneof(4) ? 100 : 0, pm_long = (t->caps & CAP_WIN) && r.oneof(4) ? 200 : 0;
  bool warm = !staged && !crowd && mode != M_DESTROY && r.permille(4);
  bool deep = (t->caps & CAP_REC) && r.permille(mode == M_REC ? 6 : 1);
  for (int i = 0; i < nt; i++) {
    int ns = mode == M_DESTROY ? r.range(0, 1) : r.range(1, steps_max);
    for (int k = 0; k < ns; k++) {
      Step s; int x = r.below(tot); int f = 0; while (x >= wt[f]) x -= wt[f++];
      s.op = f; s.a[0] = 10 * r.below(NUNIT) + r.below(NCK);
      if (staged) {
        s.a[0] = 10 * (r.oneof(3) ? UN_DBL : UN_NS) + r.below(NCK);
        s.a[1] = r.permille(150) ? 0 : r.range(1, 12); s.a[3] = r.range(1, 9); s.a[4] = r.range(1, 9);
      } else {
        s.a[1] = durs[r.below(12)]; if (r.oneof(3) && s.a[1] > 0) s.a[1] += r.below(3000);
        if ((f == XU || f == SU) && r.permille(20)) { s.a[1] = ABS0 + r.range(-3, 3); if (r.oneof(2)) s.a[0] = CK_SYSTEM; }
        if (r.permille(pm_far)) s.a[1] = far[r.below(6)] + r.below(3000);
        if (s.a[0] / 10 >= UN_SEC && r.oneof(2)) s.a[1] = unit_quantum((int)(s.a[0] / 10)) * r.range(0, 3);
        if (r.permille(pm_past)) s.a[1] = -2000000000000000000ll;
        if (r.permille(pm_long)) { s.a[1] = r.oneof(2) ? 5184000000000000ll : 4294967295ll * 1000000 - r.below(3) * 500000; s.a[0] = 10 * UN_NS + s.a[0] % 10; }   // beyond the range of a DWORD of milliseconds
        s.a[2] = r.permille(500) ? r.range(0, 3) : r.range(0, 15);
        if (!spin && r.permille(300)) s.a[3] = durs[3 + r.below(8)];
        if (!spin && r.permille(300)) s.a[4] = durs[3 + r.below(8)];
        if (!spin && r.permille(pm_far)) s.a[3] = far[r.below(6)];
      }
      if ((t->caps & CAP_REC) && r.permille(mode == M_REC ? 700 : 200)) { s.a[5] = r.range(1, 4); s.a[6] = (int64_t)(r.next() >> 8); }
      p.th[i].push_back(s);
    }
  }
  if (mode == M_DESTROY) for (auto& th : p.th) for (auto& s : th) { s.a[3] = 0; if (r.oneof(2)) s.a[4] = 0; }
  if (warm) { Step& s = p.th[0].empty() ? (p.th[0].push_back(Step()), p.th[0][0]) : p.th[0][0]; s.a[7] = r.oneof(8) ? 66000 : 270; s.a[3] = s.a[4] = 0; s.a[2] = 0; s.a[5] = 0; if (s.a[1] > 1000) s.a[1] = 1000; c.chaos = 1000; c.finish = 6000000; for (int f = 0; f < NFAULT; f++) c.rate[f] = 0; c.rate[F_SPURIOUS] = 0; }
  if (!warm && !deep && !strcmp(w.prop, "C31") && !staged && !crowd && r.permille(100)) for (auto& t : p.th) if (!t.empty()) { Step& s = t[r.below((int)t.size())]; s.a[7] = r.range(20, 90); c.finish = 6000000; }   // many acquisitions by everybody
  if (deep) { Step& s = p.th[0].empty() ? (p.th[0].push_back(Step()), p.th[0][0]) : p.th[0][0]; s.op = XL; s.a[5] = r.oneof(6) ? 66000 : r.range(250, 300); s.a[6] = (int64_t)(r.next() >> 8); s.a[7] = 0; c.finish = 9000000; for (int f = 0; f < NFAULT; f++) c.rate[f] = 0; }
  if (staged) {
    c.tick = 1 + r.below(20); c.rate[F_LEAP] = 0; c.rate[F_STALL] = 0; c.rate[F_SYSJUMP] = 0; c.chaos = 100000;
    if (mode == M_TIMED && !(t->caps & CAP_SYSFOR) && r.oneof(2)) {}
  }
  if (mode == M_TIMED && !staged && r.permille(500)) { c.rate[F_SYSJUMP] = 20 + r.below(60); c.cap[F_SYSJUMP] = 1 + r.below(6); }
  if (mode == M_RACE) { c.race = 1; if (r.permille(700)) { c.rate[F_STALE] = 30 + r.below(500); c.cap[F_STALE] = 50; } }
  if (mode == M_NATIVE && r.permille(400)) { c.rate[F_API] = r.oneof(2) ? 60 : 400; c.cap[F_API] = 1 + r.below(5); }
  if (mode == M_NATIVE && shared && !staged && !crowd && !(t->caps & CAP_WIN) && r.permille(300)) { c.maxrd = 1 + r.below(2); for (auto& th : p.th) for (auto& s : th) s.a[3] = 0; }
  if (crowd) { c.chaos = 3000; c.finish = 3000000; }
  if (spin && !staged) c.finish = 3000000;
  // more threads than an 8 bit counter can count: all of them own the lock in shared mode, or wait for one owner, at the same time
  if (!spin && !staged && !crowd && !warm && !deep && mode != M_DESTROY && r.permille(shared ? 2 : 1) && r.oneof(3)) {
    nt = r.range(258, 308); p.th.assign(nt, std::vector<Step>());
    bool readers = shared && !r.oneof(3), mixed = shared && r.oneof(2);
    for (int i = 0; i < nt; i++) {
      Step s; s.a[3] = 0;
      if (readers) { s.op = r.oneof(8) && timed ? SU : r.oneof(6) ? ST : SL; s.a[3] = 1000000 + r.below(5) * 1000; if (i < 2) { s.op = i ? XL : XT; s.a[3] = 0; s.a[4] = 500000; } }
      else { s.op = i == 1 && shared ? SL : mixed && r.oneof(3) ? SL : XL; if (!i) s.a[3] = 1000000; else s.a[4] = 100; if (i == 1) s.a[4] = r.oneof(2) ? 500000 : 100; }
      s.a[1] = 1000000000;
      p.th[i].push_back(s);
    }
    for (int f = 0; f < NFAULT; f++) c.rate[f] = 0;
    c.wide = 1; c.race = 0; c.plain = 0; c.maxrd = 0; c.chaos = 2000; c.finish = 6000000; c.strat = r.oneof(2) ? 0 : 3; c.psw = 20; c.tick = 1;
  }
  normalise(p);
}
const char* const probes[] = {"acquisition reported false", "object destroyed by its last user", "reference model transitions compared", "model skipped (two events in one instant)", "readers and writers waiting together", "failed system call reported to the caller", "constructor reported a failed system call", "object destroyed after the others left from under shared locks", "more than 255 threads own or wait at once", "acquired by the platform's function on native_handle()", nullptr};
void body_(const Program& p) { body(p); }
const Family F = {"locks", gen, body_, quiesce, describe, normalise, probes};
__attribute__((constructor)) void reg() { register_family(&F); }
}
