// Family "scoped": scoped_locks of several threads over up to seven mutexes of mixed types named in any order.
#include "prog.h"
#include "wraps.h"
#include "props.h"
#include "sutcall.h"
#include <stdio.h>
#include <string.h>
#include <algorithm>
using namespace sim;
// step: op; a0 ids packed as octal digits (id+1), first named lowest; a1 adopt; a2 points inside; a3 sleep inside; a4 points after; a5 sleep before; a6 mutex for OP_ONE
enum { OP_ENTER, OP_LEAVE, OP_ONE };
namespace {
const int MT = 6;
struct Scope { int ids[SC_NM], n; };
struct TS { int held[SC_NM]; Scope st[SC_DEPTH]; int depth; int acq[SC_NM], rel[SC_NM]; int threw; bool plain, in_op, adopting, nb; int idx; };
struct Led { ScopedIf* mu; const Program* p; int nt; TS th[MT + 1]; int fid[MT + 1]; int tof[MAXF]; bool checking; char kinds[24]; };
Led* L = new Led();
TS& me() { return L->th[L->tof[cur()]]; }
bool h_before(int, int, bool) { TS& m = me(); if (!L->checking && !m.plain && fault(F_THROW)) { m.threw++; return true; } return false; }
void h_after(int id, int, bool, bool ok) {
  if (!ok) return;
  TS& m = me(); m.held[id]++; m.acq[id]++;
  for (int i = 0; i <= L->nt; i++) if (&L->th[i] != &m && L->th[i].held[id]) fail(V_EXCL, "M%d acquired by T%d while T%d holds it", id, cur(), L->fid[i]);
}
bool h_release(int id, bool) {
  TS& m = me();
  if (m.held[id] <= 0) { fail(V_OWN, "scoped_lock: T%d released M%d, which it does not hold", cur(), id); return false; }
  m.held[id]--; m.rel[id]++; return true;
}
int unpack(int64_t x, int* ids) { int n = 0; bool seen[SC_NM] = {false}; for (; x && n < SC_NM; x >>= 3) { int d = (int)(x & 7) - 1; if (d >= 0 && d < SC_NM && !seen[d]) { seen[d] = true; ids[n++] = d; } } return n; }
void pause(int64_t d) { if (d > 0) sleep_until(now() + d); }
void names(const int* ids, int n, char* b, size_t sz) { int o = 0; b[0] = 0; for (int i = 0; i < n; i++) o += snprintf(b + o, sz - o, "%sM%d", i ? "," : "", ids[i]); }
void clear(TS& m) { memset(m.acq, 0, sizeof m.acq); memset(m.rel, 0, sizeof m.rel); m.threw = 0; }
bool rec(int id) { return scoped_recursive(L->kinds[id]); }
void enter(TS& m, ScopedStack* st, const Step& s) {
  if (m.depth == SC_DEPTH) return;
  Scope sc; sc.n = unpack(s.a[0], sc.ids);
  int top = -1; for (int k = 0; k < SC_NM; k++) if (m.held[k]) top = k;
  Scope ok; ok.n = 0;          // a nested scope may only name mutexes above those held, or recursive ones it holds: no hold-and-wait cycle
  for (int i = 0; i < sc.n; i++) if (sc.ids[i] > top || (m.held[sc.ids[i]] && rec(sc.ids[i]))) ok.ids[ok.n++] = sc.ids[i];
  sc = ok;
  char nm[64]; names(sc.ids, sc.n, nm, sizeof nm);
  int before[SC_NM]; memcpy(before, m.held, sizeof before);
  bool adopt = s.a[1] != 0;
  if (adopt) {
    int o[SC_NM]; std::copy(sc.ids, sc.ids + sc.n, o); for (int i = 0; i < sc.n; i++) for (int j = i + 1; j < sc.n; j++) if (o[j] < o[i]) std::swap(o[i], o[j]);
    m.plain = true;
    for (int i = 0; i < sc.n; i++) { op_begin(false); OpResult r = sut_call([&] { L->mu->lock_one(o[i]); return O_TRUE; }); if (r.out > O_TRUE) fail(V_EXC, "lock() threw '%s'", r.what); }
    m.plain = false;
    probe(2);
  }
  clear(m);
  trace("scoped_lock(%s%s)", nm, adopt ? ", adopt" : "");
  m.in_op = true; m.nb = adopt || sc.n == 0; op_begin(m.nb);
  OpResult r = sut_call([&] { st->enter(sc.ids, sc.n, adopt); return O_TRUE; });
  m.in_op = false;
  trace("scoped_lock(%s) -> %s", nm, r.out == O_TRUE ? "constructed" : r.what);
  if (adopt) {
    if (r.out > O_TRUE) fail(V_EXC, "adopting scoped_lock(%s) threw '%s'", nm, r.what);
    for (int k = 0; k < SC_NM; k++) if (m.acq[k] || m.rel[k]) fail(V_OWN, "adopting scoped_lock(%s) %s M%d", nm, m.acq[k] ? "locked" : "unlocked", k);
    m.st[m.depth++] = sc; return;
  }
  if (r.out > O_TRUE) {
    if (!m.threw) fail(V_EXC, "scoped_lock(%s) threw '%s' although no lock operation failed", nm, r.what);
    probe(0);
    for (int k = 0; k < SC_NM; k++) if (m.held[k] != before[k]) fail(V_OWN, "scoped_lock(%s) failed with an exception but M%d stays locked", nm, k);
    return;
  }
  if (m.threw) fail(V_OWN, "scoped_lock(%s) was constructed although locking failed with an exception", nm);
  for (int k = 0; k < SC_NM; k++) {
    int want = before[k]; for (int i = 0; i < sc.n; i++) if (sc.ids[i] == k) want++;
    if (m.held[k] != want) fail(V_OWN, "scoped_lock(%s) constructed: M%d is held %d times by T%d instead of %d", nm, k, m.held[k], cur(), want);
    if (m.rel[k]) probe(1);
  }
  if (sc.n >= 3) probe(3);
  m.st[m.depth++] = sc;
}
void leave(TS& m, ScopedStack* st) {
  if (!m.depth) return;
  Scope sc = m.st[--m.depth]; char nm[64]; names(sc.ids, sc.n, nm, sizeof nm);
  int before[SC_NM]; memcpy(before, m.held, sizeof before); clear(m);
  m.in_op = true; m.nb = true; op_begin(true);
  trace("~scoped_lock(%s)", nm);
  OpResult r = sut_call([&] { st->leave(); return O_TRUE; });
  m.in_op = false;
  if (r.out > O_TRUE) fail(V_EXC, "~scoped_lock(%s) threw '%s'", nm, r.what);
  for (int k = 0; k < SC_NM; k++) {
    int want = before[k]; for (int i = 0; i < sc.n; i++) if (sc.ids[i] == k) want--;
    if (m.held[k] != want || m.acq[k]) fail(V_OWN, "~scoped_lock(%s): M%d is held %d times by T%d afterwards instead of %d", nm, k, m.held[k], cur(), want);
  }
}
void thread_main(void* x) {
  int ti = (int)(intptr_t)x; TS& m = L->th[ti]; m.idx = ti;
  ScopedStack* st; { Sut s; st = L->mu->make_thread(); }
  for (const Step& s : L->p->th[ti]) {
    pause(s.a[5]);
    if (s.op == OP_ENTER) enter(m, st, s);
    else if (s.op == OP_LEAVE) leave(m, st);
    else {
      int id = (int)s.a[6]; int top = -1; for (int k = 0; k < SC_NM; k++) if (m.held[k]) top = k;
      if (id <= top) continue;
      m.plain = true; op_begin(false);
      sut_call([&] { L->mu->lock_one(id); return O_TRUE; });
      for (int k = 0; k < s.a[2]; k++) point(P_BODY, nullptr);
      pause(s.a[3]);
      sut_call([&] { L->mu->unlock_one(id); return O_TRUE; });
      m.plain = false;
    }
    for (int k = 0; k < s.a[2] && s.op == OP_ENTER; k++) point(P_BODY, nullptr);
    if (s.op == OP_ENTER) pause(s.a[3]);
    for (int k = 0; k < s.a[4]; k++) point(P_BODY, nullptr);
  }
  while (m.depth) leave(m, st);
  for (int k = 0; k < SC_NM; k++) if (m.held[k]) fail(V_OWN, "T%d still holds M%d after all its scoped_locks are gone", cur(), k);
}
void checker(void*) {
  L->checking = true;
  for (int k = 0; k < SC_NM; k++) {
    bool ok = false; op_begin(true);
    for (int tries = 0; tries < 8 && !ok; tries++) { OpResult r = sut_call([&] { ok = L->mu->try_one(k); return O_TRUE; }); if (r.out > O_TRUE) { fail(V_RESIDUE, "try_lock of M%d threw '%s'", k, r.what); return; } }
    if (!ok) fail(V_RESIDUE, "M%d cannot be locked after all scoped_locks are gone", k);
    else sut_call([&] { L->mu->unlock_one(k); return O_TRUE; });
  }
}
void quiesce(const Program&) {
  for (int i = 0; i < L->nt; i++) { TS& t = L->th[i]; if (t.in_op && t.nb && is_blocked(L->fid[i]) && info(L->fid[i]).wk != W_SLEEP) fail(V_BLOCKNB, "T%d waits in a scoped_lock operation that must not wait", L->fid[i]); }
}
void body(const Program& p) {
  memset((void*)L, 0, sizeof *L);
  L->p = &p; L->nt = (int)p.th.size();
  g_wrap.before = h_before; g_wrap.after = h_after; g_wrap.release = h_release;
  for (int& x : L->tof) x = MT;
  strncpy(L->kinds, p.type.c_str(), sizeof L->kinds - 1);
  OpResult r = sut_call([&] { L->mu = scoped_make(L->kinds); return O_TRUE; });
  if (r.out != O_TRUE) { fail(V_EXC, "constructor threw"); return; }
  for (int i = 0; i < L->nt; i++) { int f = spawn(thread_main, (void*)(intptr_t)i); L->fid[i] = f; L->tof[f] = i; }
  join_all(); stop_faults();
  spawn(checker, nullptr); join_all();
  r = sut_call([&] { L->mu->destroy(); return O_TRUE; });
  if (r.out > O_TRUE) fail(V_RESIDUE, "mutex destructor threw '%s'", r.what);
}
void describe(const Program&, int, const Step& s, char* b, size_t n) {
  int ids[SC_NM]; int c = unpack(s.a[0], ids); char nm[64]; names(ids, c, nm, sizeof nm);
  if (s.op == OP_ENTER) snprintf(b, n, "scoped_lock(%s%s), then %lld points, sleep %lld; sleep before %lld", nm, s.a[1] ? ", adopt" : "", (long long)(s.a[2] + s.a[4]), (long long)s.a[3], (long long)s.a[5]);
  else if (s.op == OP_LEAVE) snprintf(b, n, "destroy newest scoped_lock");
  else snprintf(b, n, "lock and unlock M%lld", (long long)s.a[6]);
}
bool normalise(Program& p) {
  if (p.type.size() != 2 * SC_NM || p.th.empty() || p.th.size() > MT) return false;
  bool any = false, spin = p.type.substr(0, SC_NM).find_first_of("st") != std::string::npos;   // sleeping owners make spinners burn the step budget
  for (auto& th : p.th) for (auto& s : th) { any = true; if (spin) for (int k : {3, 5}) if (s.a[k] > 1000) s.a[k] = 1000; if (s.op < 0 || s.op > OP_ONE) s.op = OP_ENTER; if (s.a[6] < 0 || s.a[6] >= SC_NM) s.a[6] = 0; if (s.a[0] < 0) s.a[0] = 0; }
  return any;
}
void gen(Rng& r, const Want&, Program& p, RunCfg& c) {
  std::string kinds; int nk = (int)strlen(scoped_kinds); bool same = r.oneof(4); char one = scoped_kinds[r.below(nk)];
  for (int i = 0; i < SC_NM; i++) kinds += same ? one : scoped_kinds[r.below(nk)];
  int mixed = r.below(3); for (int i = 0; i < SC_NM; i++) kinds += mixed == 0 ? 'a' : r.oneof(2) ? 'a' : 'b';
  p.type = kinds;
  gen_cfg(r, c, true);
  c.rate[F_SYSJUMP] = 0;
  if (r.permille(500)) { c.rate[F_THROW] = r.oneof(2) ? 50 : 300; c.cap[F_THROW] = 1 + r.below(4); }
  int nt = r.permille(150) ? 1 : r.range(2, 5);
  int64_t durs[] = {0, 1, 100, 1000, 5000, 50000, 1000000};
  int nm = r.oneof(4) ? SC_NM : r.range(1, 4); bool nest = r.oneof(3);
  p.th.resize(nt);
  for (int i = 0; i < nt; i++) {
    int ns = r.range(1, 6);
    for (int k = 0; k < ns; k++) {
      Step s; s.op = r.permille(150) ? OP_ONE : OP_ENTER;
      int perm[SC_NM]; for (int j = 0; j < SC_NM; j++) perm[j] = j; for (int j = nm - 1; j > 0; j--) std::swap(perm[j], perm[r.below(j + 1)]);
      int n = r.permille(60) ? 0 : r.permille(150) ? 1 : r.range(1, nm);
      for (int j = 0; j < n; j++) s.a[0] |= (int64_t)(perm[j] + 1) << (3 * j);
      s.a[1] = r.permille(150); s.a[2] = r.below(5); if (r.permille(150)) s.a[3] = durs[r.below(7)]; s.a[4] = r.below(2); if (r.permille(150)) s.a[5] = durs[r.below(7)]; s.a[6] = r.below(nm);
      p.th[i].push_back(s);
      if (s.op == OP_ENTER && !(nest && r.permille(600))) { Step l; l.op = OP_LEAVE; p.th[i].push_back(l); }
      else if (r.permille(500)) { Step l; l.op = OP_LEAVE; p.th[i].push_back(l); }
    }
  }
  normalise(p);
}
const char* const probes[] = {"constructor left by exception", "backed off and retried", "adopted", "three or more mutexes", nullptr};
const Family F = {"scoped", gen, body, quiesce, describe, normalise, probes};
__attribute__((constructor)) void reg() { register_family(&F); }
}
