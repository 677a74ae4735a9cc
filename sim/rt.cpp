// Simulator runtime. Built WITHOUT -fsanitize=thread; implements the __tsan_* hooks itself.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <iostream>
#include <assert.h>
#include <errno.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <new>
#include <typeinfo>
#include <cxxabi.h>

#define KEEP __attribute__((section("simkeep")))

extern "C" {
extern char __data_start[], _end[], __start_simkeep[], __stop_simkeep[];
void sim_switch(void** save_sp, void* new_sp);
}
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  .cfi_startproc
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
  .cfi_endproc
.size sim_switch,.-sim_switch
)");

namespace sim {

const char* const fault_names[NFAULT] = {"spurious_wakeup", "notify_picks_any", "weak_cas_failure", "stale_load",
  "time_leap", "system_clock_jump", "eintr", "alloc_failure", "early_timeout", "os_call_failure", "thread_stall", "user_mutex_throws"};
const char* const cls_names[NCLS] = {"NONE", "EXCL", "RWEXCL", "RACE", "HANG", "STUCK", "BLOCKNB", "TRYFALSE", "EARLY",
  "LATE", "FIFO", "POLICY", "MISUSE", "FALSEREPORT", "MISSEDDL", "FALSEDL", "RESIDUE", "TOKENS", "LATCH", "BARRIER", "OWN",
  "UAD", "CRASH", "EXC", "YIELD", "NATIVE", "RECUR", "SHARE", "LEAK", "LIMIT"};

uint64_t mix64(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull);
  z = (z ^ (z >> 32)) * 0xD6E8FEB86659FD93ull;
  z = (z ^ (z >> 29)) * 0x94D049BB133111EBull;
  return z ^ (z >> 32);
}

// ------------------------------------------------------------------ memory layout
static const uintptr_t BASE = 0x100000000000ull;
static const size_t ARENA = 64ull << 20;
static const size_t STK = 256 << 10;
static const size_t STACKS = STK * MAXF;
static const size_t REGION = ARENA + STACKS;
static const size_t NGRAN = REGION / 8;

struct Cells { uint32_t ep; uint32_t rot; uint64_t c[4]; uint32_t pc[4]; };
// cell: clk(32) | tid(12) | mask(8) | flags(12): 1 write 2 atomic 4 used

struct VC { uint32_t c[MAXF]; };

struct SyncObj { uintptr_t addr; uint32_t ep; VC w, r; };
struct StoreRec { uint64_t val; uint32_t tid, clk; bool rel; VC vc; };
static const int NHIST = 8;
struct AtomLoc { uintptr_t addr; uint32_t ep; uint32_t n; uint8_t size; bool dead; StoreRec st[NHIST]; uint32_t seen[MAXF]; };
static const int NSYNC = 4096, NATOM = 4096;

struct Fiber {
  FState st; WaitKind wk; const void* obj; int clock; ns_t deadline; bool timedout; bool woken;
  void* sp; uintptr_t fs;
  void (*fn)(void*); void* arg;
  int in_sut; bool allocf;
  uint64_t firstpark, ownsteps; uint32_t api, expired; uint64_t ypts, ylimit; uint64_t (*ycb)(uint64_t); ns_t firstparkt, lastparkt; bool nb; ns_t opmaxsys; 
  uint64_t stall_until; uint64_t wseq; uint32_t prio; uint64_t plaincnt;
  VC vc, acqf, relf; bool have_relf;
  int join_target;
  bool used;
};

static const size_t NDEC = 1 << 22;
struct G {
  Fiber f[MAXF]; int nf, width; int cur; Fiber* cf;
  RunCfg cfg; uint64_t counted; Rng rng, frng;
  bool active, ended, trace, finishing, in_q, replaying;
  const Decision* rep; size_t nrep, reppos;
  Decision* dec; size_t ndec; uint32_t decidx;
  ns_t now, sysoff; ns_t next_due, qnext; bool jumpedback; ns_t maxsys;
  uint64_t steps, switches, hash, path, evseq, finish_at, finish_end;
  uint32_t run_epoch;
  uint32_t fired[NFAULT];
  uint64_t pct_cp[16]; int npct; uint32_t lowprio;
  int finish_q;
  void* driver_sp; uintptr_t driver_fs;
  void (*onq)(void*); void* onq_arg;
  Result* res; char* brk;
  Cells* shadow; uint32_t* alive; Cells* dshadow; uint8_t* bloom; uint32_t* bloomep;
  SyncObj* syncs; AtomLoc* atoms; int nsync, natom;
  char* snap1; char* snap2; size_t n1, n2;
  uint64_t ublocks, ubytes; struct { const void* p; const char* kind; } osobj[1024]; int nos; void* freed[4096]; int nfreed; uint64_t reused;
  char tlsnap[MAXF][4096];
  uint64_t wd_run; int wd_ticks; uint64_t runno;
  void (*abort_hook)();
  char* altstack;
  bool ready; bool sysjump_allowed;
  uint64_t pointkinds[NPOINT];
};
static KEEP G* g = nullptr;
static KEEP bool have_fsgsbase = false;

static inline void set_fs(uintptr_t v) {
  if (have_fsgsbase) asm volatile("wrfsbase %0" ::"r"(v) : "memory");
  else { long r; asm volatile("syscall" : "=a"(r) : "0"(SYS_arch_prctl), "D"(0x1002), "S"(v) : "rcx", "r11", "memory"); }
}
static inline uintptr_t get_fs() { uintptr_t v; asm volatile("movq %%fs:0x10,%0" : "=r"(v)); return v; }

static inline bool in_region(uintptr_t a) { return a - BASE < REGION; }
static inline bool in_data(uintptr_t a) { return a >= (uintptr_t)__data_start && a < (uintptr_t)_end; }

static bool g_run() { return g && g->active; }
bool sim_active() { return g && g->active && !g->in_q && g->cf->in_sut > 0; }
#define ACTIVE (__builtin_expect(g != nullptr, 1) && g->active && !g->in_q && g->cf->in_sut > 0)

// ------------------------------------------------------------------ pool threads (donate TLS)
struct PoolArg { volatile uintptr_t fs; volatile int ready; };
static void* pool_main(void* p) {
  PoolArg* a = (PoolArg*)p;
  free(malloc(24)); void* q[8]; for (int i = 0; i < 8; i++) q[i] = malloc(64 + 32 * i); for (int i = 0; i < 8; i++) free(q[i]);
  (void)__cxxabiv1::__cxa_get_globals();
  a->fs = get_fs();
  __atomic_store_n(&a->ready, 1, __ATOMIC_SEQ_CST);
  for (;;) { long r; asm volatile("syscall" : "=a"(r) : "0"(SYS_pause) : "rcx", "r11", "memory"); }
  return nullptr;
}
static bool ensure_pool(int i) {
  Fiber& f = g->f[i];
  if (f.fs) return true;
  bool act = g->active; g->active = false;
  sigset_t all, old; sigfillset(&all);
  sigprocmask(SIG_SETMASK, &all, &old);
  uintptr_t curfs = get_fs();
  set_fs(g->driver_fs);
  pthread_attr_t at; pthread_attr_init(&at);
  void* st = mmap(nullptr, 128 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  bool ok = st != MAP_FAILED;
  if (ok) pthread_attr_setstack(&at, st, 128 << 10);
  PoolArg a; a.fs = 0; a.ready = 0;
  pthread_t t;
  if (ok && pthread_create(&t, &at, pool_main, &a)) ok = false;
  while (ok && !__atomic_load_n(&a.ready, __ATOMIC_SEQ_CST)) { long r; asm volatile("syscall" : "=a"(r) : "0"(SYS_sched_yield) : "rcx", "r11", "memory"); }
  f.fs = a.fs;
  if (ok) memcpy(g->tlsnap[i], (char*)f.fs - 4096, 4096);
  set_fs(curfs);
  sigprocmask(SIG_SETMASK, &old, nullptr);
  g->active = act;
  return ok;
}

// ------------------------------------------------------------------ end of run
[[noreturn]] static void to_driver() {
  g->active = false; g->ended = true;
  void* dummy; set_fs(g->driver_fs);
  sim_switch(&dummy, g->driver_sp);
  __builtin_trap();
}
static bool fatal_cls(Cls c) { return c == V_HANG || c == V_STUCK || c == V_CRASH || c == V_LIMIT || c == V_UAD; }
void fail(Cls c, const char* fmt, ...) {
  char buf[900];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (!g->active) return;
  if (g->trace) fprintf(stderr, "  !! %s: %s (t=%lld step=%llu)\n", cls_names[c], buf, (long long)g->now, (unsigned long long)g->steps);
  if (g->counted >> c & 1) {
    g->res->cls = c; snprintf(g->res->msg, sizeof g->res->msg, "%s: %s", cls_names[c], buf);
    g->hash = mix64(g->hash, 0xF00 + c);
    to_driver();
  }
  if (!g->res->other[c]++) snprintf(g->res->othermsg, sizeof g->res->othermsg, "%s: %s", cls_names[c], buf);
  if (fatal_cls(c)) to_driver();
}
void trace(const char* fmt, ...) {
  if (!g->trace) return;
  va_list ap; va_start(ap, fmt);
  fprintf(stderr, "  [%6llu] t=%-12lld T%d ", (unsigned long long)g->steps, (long long)g->now, g->cur);
  vfprintf(stderr, fmt, ap); fputc('\n', stderr); va_end(ap);
}
bool tracing() { return g->trace; }

// ------------------------------------------------------------------ decisions and faults
uint32_t decide(uint32_t n, uint32_t sugg) {
  uint32_t idx = g->decidx++, v;
  if (g->replaying) {
    v = 0;
    while (g->reppos < g->nrep && g->rep[g->reppos].idx < idx) g->reppos++;
    if (g->reppos < g->nrep && g->rep[g->reppos].idx == idx) v = g->rep[g->reppos].val;
    if (v >= n) v = 0;
  } else v = sugg < n ? sugg : 0;
  if (v) {
    if (g->ndec >= NDEC) fail(V_LIMIT, "too many decisions");
    g->dec[g->ndec].idx = idx; g->dec[g->ndec].val = v; g->ndec++;
  }
  return v;
}
Rng& rng() { return g->rng; }
bool in_chaos() { return !g->finishing; }
static inline bool fault_on(FaultKind k) { return !g->finishing && g->cfg.rate[k] > 0 && g->fired[k] < (uint64_t)g->cfg.cap[k]; }
bool fault(FaultKind k) {
  if (!g->active || !fault_on(k)) return false;
  if (!decide(2, g->rng.permille((int)g->cfg.rate[k]))) return false;
  g->fired[k]++; g->hash = mix64(g->hash, 0xFA0 + k); if (k == F_API) g->cf->api++;
  if (g->trace) trace("fault %s", fault_names[k]);
  return true;
}
uint32_t fired(FaultKind k) { return g->fired[k]; }
uint32_t api_hits() { return g->cf->api; }
void count_fault(FaultKind k) { g->fired[k]++; if (g->trace) trace("fault %s", fault_names[k]); }
ns_t cfg_wintick() { return g->cfg.wintick > 0 ? g->cfg.wintick : 15625000; }
ns_t cfg_winphase() { return (ns_t)(mix64((uint64_t)g->cfg.seed, 99) % (uint64_t)cfg_wintick()); }
bool cfg_rwpref() { return g->cfg.rwpref; }

// ------------------------------------------------------------------ time
ns_t now() { return g->now; }
static ns_t sat_add(ns_t a, ns_t b) { ns_t r; if (__builtin_add_overflow(a, b, &r)) return b > 0 ? INT64_MAX : INT64_MIN; return r; }
ns_t clock_now(int c) { return c == CLOCK_REALTIME ? sat_add(g->now, g->sysoff) : g->now; }
ns_t clock_next(int c) { return c == CLOCK_REALTIME ? sat_add(g->qnext, g->sysoff) : g->qnext; }
ns_t sysnow() { return clock_now(CLOCK_REALTIME); }
uint64_t step() { return g->steps; }
uint64_t seq() { return ++g->evseq; }
static ns_t due_of(const Fiber& f) {
  if (f.st != FS_BLOCKED || f.deadline == NEVER) return NEVER;
  return f.clock == CLOCK_REALTIME ? sat_add(f.deadline, -g->sysoff) : f.deadline;
}
static void bump_sys() {
  ns_t s = sysnow();
  for (int i = 0; i < g->nf; i++) if (g->f[i].opmaxsys < s) g->f[i].opmaxsys = s;
}
static void expire() {
  ns_t nd = NEVER;
  for (int i = 0; i < g->nf; i++) {
    Fiber& f = g->f[i];
    ns_t d = due_of(f);
    if (d == NEVER) continue;
    if (d <= g->now) { f.st = FS_RUN; f.timedout = true; }
    else if (d < nd) nd = d;
  }
  g->next_due = nd;
  if (g->cfg.rate[F_SYSJUMP]) bump_sys();
}
ns_t max_sys() { ns_t s = sysnow(); if (g->cf->opmaxsys > s) return g->cf->opmaxsys; return s; }
bool sys_jumped_back() { return g->jumpedback; }

// ------------------------------------------------------------------ vector clocks
static inline void vjoin(VC& a, const VC& b) { for (int i = 0, n = g->nf; i < n; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void vcopy(VC& a, const VC& b) { memcpy(a.c, b.c, sizeof(uint32_t) * (size_t)(g->width)); }
static inline void vtick() { g->cf->vc.c[g->cur]++; }
static SyncObj* sync_of(const void* p) {
  uintptr_t a = (uintptr_t)p;
  uint32_t h = (uint32_t)(mix64(a, 7) % NSYNC);
  for (int i = 0; i < NSYNC; i++, h = (h + 1) % NSYNC) {
    SyncObj& s = g->syncs[h];
    if (s.ep != g->run_epoch) {
      if (g->nsync++ > NSYNC / 2) { fail(V_LIMIT, "too many sync objects"); to_driver(); }
      memset(s.w.c, 0, sizeof(uint32_t) * (size_t)g->width); memset(s.r.c, 0, sizeof(uint32_t) * (size_t)g->width); s.ep = g->run_epoch; s.addr = a; return &s;
    }
    if (s.addr == a) return &s;
  }
  __builtin_trap();
}
void hb_release(const void* o) { vjoin(sync_of(o)->w, g->cf->vc); vtick(); }
void hb_acquire(const void* o) { vjoin(g->cf->vc, sync_of(o)->w); }
static void hb_release_r(const void* o) { vjoin(sync_of(o)->r, g->cf->vc); vtick(); }
static void hb_acquire_wr(const void* o) { SyncObj* s = sync_of(o); vjoin(g->cf->vc, s->w); vjoin(g->cf->vc, s->r); }

// ------------------------------------------------------------------ scheduler
int cur() { return g->cur; }
static void do_switch(int to) {
  if (to == g->cur) return;
  Fiber* from = g->cf; Fiber* t = &g->f[to];
  g->cur = to; g->cf = t; g->switches++;
  int e = errno; (void)e;
  set_fs(t->fs);
  sim_switch(&from->sp, t->sp);
}
static int rotated_runnable(int* out, bool cur_first, bool include_stalled) {
  int n = 0;
  for (int k = 0; k < g->nf; k++) {
    int i = g->cur + k; if (i >= g->nf) i -= g->nf;
    if (k == 0 && !cur_first) continue;
    if (g->f[i].st == FS_RUN && (include_stalled || g->f[i].stall_until <= g->steps)) out[n++] = i;
  }
  if (!cur_first && g->f[g->cur].st == FS_RUN && (include_stalled || g->cf->stall_until <= g->steps)) out[n++] = g->cur;
  return n;
}
static void begin_finish() {
  if (g->finishing) return;
  g->finishing = true; g->finish_end = g->steps + g->cfg.finish;
  for (int i = 0; i < g->nf; i++) g->f[i].stall_until = 0;
  if (g->trace) fprintf(stderr, "  [%6llu] -- faults stop; fair scheduling from here\n", (unsigned long long)g->steps);
}
void stop_faults() { begin_finish(); }
void pin(int fid, bool on) { if (!g->finishing) { g->f[fid].stall_until = on ? ~0ull >> 1 : 0; if (g->trace) trace(on ? "T%d gets no processor" : "T%d gets a processor again", fid); } }
// what: 0 point, 1 yield, 2 blocked/done
static int pick(int what) {
  int c[MAXF]; int n;
  for (;;) {
    n = rotated_runnable(c, what == 0, false);
    if (!n) n = rotated_runnable(c, what == 0, true);
    if (n) break;
    // quiescent
    ns_t nd = NEVER;
    for (int i = 0; i < g->nf; i++) { ns_t d = due_of(g->f[i]); if (d < nd) nd = d; }
    if (g->onq) { g->qnext = nd == NEVER || nd < g->now ? g->now : nd; g->in_q = true; g->onq(g->onq_arg); g->in_q = false; }
    if (nd == NEVER) {
      char b[600]; int o = 0; b[0] = 0;
      for (int i = 0; i < g->nf && o < 500; i++) if (g->f[i].st == FS_BLOCKED)
        o += snprintf(b + o, sizeof b - o, " T%d(wait kind %d)", i, g->f[i].wk);
      fail(V_HANG, "no thread can run and no timer is pending; blocked:%s", b);
      to_driver();
    }
    if (nd > g->now) g->now = nd;
    g->hash = mix64(g->hash, 0x71AE + (uint64_t)g->now);
    expire();
  }
  if (n == 1) return c[0];
  if (g->finishing && g->cfg.coop) return c[0];
  if (g->finishing) {
    if (what == 0 && --g->finish_q > 0 && c[0] == g->cur) return c[0];
    g->finish_q = 1 + g->frng.below(12);
    return c[g->frng.below(n)];
  }
  uint32_t sugg = 0;
  if (!g->replaying) {
    switch (g->cfg.strat) {
      case 0: sugg = 0; break;
      case 1: if (what != 0 || g->rng.permille((int)g->cfg.psw)) sugg = g->rng.below(n); break;
      case 2: {
        if (what == 1) g->cf->prio = g->lowprio--;
        for (int i = 0; i < g->npct; i++) if (g->pct_cp[i] && g->steps >= g->pct_cp[i]) { g->pct_cp[i] = 0; g->cf->prio = g->lowprio--; }
        uint32_t best = 0;
        for (int i = 0; i < n; i++) if (g->f[c[i]].prio > g->f[c[best]].prio) best = i;
        sugg = best; break;
      }
      case 3: if (g->rng.permille((int)g->cfg.psw)) sugg = g->rng.below(n); break;
      default: sugg = what == 0 ? (g->rng.permille(300) ? 1 : 0) : 0;
    }
  }
  return c[decide(n, sugg)];
}
static const ns_t leaps[] = {0, 1000, 60000, 500000, 1100000, 7000000, 1000000000, 60000000000ll};
static const ns_t jumps[] = {0, 1000000, -1000000, 50000000, -50000000, 10000000000ll, -10000000000ll, 3600000000000ll, -3600000000000ll};
static void sys_shift(ns_t d) {
  bump_sys();
  g->sysoff = sat_add(g->sysoff, d);
  if (d < 0) g->jumpedback = true;
  bump_sys(); 
  g->next_due = 0;
}
static void common_point(PointKind k, const void* a) {
  g->steps++; g->now += g->cfg.tick; g->cf->ownsteps++; g->pointkinds[k]++;
  uint64_t e = ((uint64_t)g->cur << 56) ^ ((uint64_t)k << 48) ^ (uintptr_t)a;
  g->hash = mix64(g->hash, e);
  if (!g->finishing) {
    if (g->steps >= g->finish_at) begin_finish();
    else {
      if (fault_on(F_LEAP)) { uint32_t v = decide(8, g->rng.permille((int)g->cfg.rate[F_LEAP]) ? 1 + g->rng.below(7) : 0);
        if (v) { g->fired[F_LEAP]++; g->now = sat_add(g->now, leaps[v]); if (g->trace) trace("fault time_leap +%lldns", (long long)leaps[v]); } }
      if (fault_on(F_SYSJUMP)) { uint32_t v = decide(9, g->rng.permille((int)g->cfg.rate[F_SYSJUMP]) ? 1 + g->rng.below(8) : 0);
        if (v) { g->fired[F_SYSJUMP]++; if (g->trace) trace("fault system_clock_jump %+lldns", (long long)jumps[v]); sys_shift(jumps[v]); } }
      if (fault_on(F_STALL)) { uint32_t v = decide(1 + g->nf, g->rng.permille((int)g->cfg.rate[F_STALL]) ? 1 + g->rng.below(g->nf) : 0);
        if (v) { g->fired[F_STALL]++; g->f[v - 1].stall_until = g->steps + 50 + (g->cfg.horizon); if (g->trace) trace("fault thread_stall T%d", v - 1); } }
    }
  } else if (g->steps >= g->finish_end) {
    fail(V_STUCK, "no completion within %lld points after faults stopped (T%d still active)", (long long)g->cfg.finish, g->cur);
    to_driver();
  }
  if (g->now >= g->next_due) expire();
}
void point(PointKind k, const void* a) {
  if (!g->active || g->in_q) return;
  common_point(k, a);
  Fiber* f = g->cf;
  if (f->ylimit && k == P_ATOMIC && ++f->ypts > f->ylimit) { uint64_t l = f->ylimit; f->ylimit = 0; fail(V_YIELD, "T%d waits for a spinlock and has made %llu attempts since it last gave the processor away", g->cur, (unsigned long long)l + 1); }
  if (f->nb && f->ownsteps > 20000) { f->nb = false; fail(V_BLOCKNB, "operation that must not wait took %llu own steps", (unsigned long long)f->ownsteps); }
  int to = pick(0);
  if (to != g->cur) do_switch(to);
}
static void yield_seen() { Fiber* f = g->cf; if (f->ylimit) { f->ylimit = f->ycb(f->ypts); f->ypts = 0; } }
void yield_watch(uint64_t limit, uint64_t (*cb)(uint64_t)) { g->cf->ylimit = limit; g->cf->ycb = cb; g->cf->ypts = 0; }
static void yield_point() {
  yield_seen();
  common_point(P_YIELD, nullptr);
  int to = pick(1);
  if (to != g->cur) do_switch(to);
}
void yield_now() { if (g->active && !g->in_q) yield_point(); }
static void mark_park() { if (!g->cf->firstpark) { g->cf->firstpark = ++g->evseq; g->cf->firstparkt = g->now; } }
static void yield_seen();
bool block(WaitKind wk, const void* obj, int clock, ns_t deadline) {
  if (wk == W_SLEEP) yield_seen();
  Fiber* f = g->cf;
  f->st = FS_BLOCKED; f->wk = wk; f->obj = obj; f->clock = clock; f->deadline = deadline; f->timedout = false; f->woken = false;
  f->wseq = ++g->evseq;
  ns_t d = due_of(*f);
  if (d <= g->now) { f->st = FS_RUN; f->timedout = true; }
  else if (d < g->next_due) g->next_due = d;
  if (wk == W_COND || wk == W_OS || wk == W_SEM || wk == W_RWLOCK || (wk == W_MUTEX && deadline != NEVER)) { if (!f->firstpark) { f->firstpark = f->wseq; f->firstparkt = g->now; } f->lastparkt = g->now; }
  g->steps++; g->hash = mix64(g->hash, ((uint64_t)g->cur << 56) ^ 0xB10C ^ (uint64_t)wk << 40 ^ (uintptr_t)obj);
  if (f->st == FS_BLOCKED) g->res->contended = true;
  int to = pick(2);
  if (to != g->cur) do_switch(to);
  f->obj = nullptr; f->wk = W_NONE;
  bool w = f->woken || !f->timedout;
  return w;
}
void wake_all(const void* obj) {
  for (int i = 0; i < g->nf; i++) { Fiber& f = g->f[i]; if (f.st == FS_BLOCKED && f.obj == obj) { f.st = FS_RUN; f.woken = true; } }
}
int waiters(const void* obj) { int n = 0; for (int i = 0; i < g->nf; i++) if (g->f[i].st == FS_BLOCKED && g->f[i].obj == obj) n++; return n; }
int wake_some(const void* obj, int n) {
  int w = 0;
  while (n-- > 0) {
    int best = -1; int cand[MAXF], nc = 0;
    for (int i = 0; i < g->nf; i++) if (g->f[i].st == FS_BLOCKED && g->f[i].obj == obj) { cand[nc++] = i; if (best < 0 || g->f[i].wseq < g->f[best].wseq) best = i; }
    if (best < 0) break;
    if (nc > 1 && fault_on(F_SIGPICK)) {
      // rotate candidates so that option 0 is the oldest
      int k = 0; while (cand[k] != best) k++;
      uint32_t v = decide(nc, g->rng.permille((int)g->cfg.rate[F_SIGPICK]) ? g->rng.below(nc) : 0);
      if (v) { g->fired[F_SIGPICK]++; best = cand[(k + v) % nc]; }
    }
    g->f[best].st = FS_RUN; g->f[best].woken = true; w++;
  }
  return w;
}
void sleep_until(ns_t t) {
  if (t <= g->now) { point(P_SLEEP, nullptr); return; }
  while (g->now < t) block(W_SLEEP, nullptr, CLOCK_MONOTONIC, t);
}
void ev_wait(void* o) { block(W_ONCE, o, CLOCK_MONOTONIC, NEVER); hb_acquire(o); }
void ev_wake(void* o) { hb_release(o); wake_all(o); }
bool sleep_os(ns_t d) { while (g->now < d) block(W_SLEEP, nullptr, CLOCK_MONOTONIC, d); return true; }

static void fiber_main() {
  Fiber* f = g->cf;
  try { f->fn(f->arg); }
  catch (abi::__forced_unwind&) { throw; }
  catch (std::exception& e) { fail(V_CRASH, "uncaught exception %s in T%d", e.what(), g->cur); to_driver(); }
  catch (...) { fail(V_CRASH, "uncaught exception in T%d", g->cur); to_driver(); }
  f->st = FS_DONE;
  if (g->cur == 0) to_driver();
  vjoin(g->f[0].vc, f->vc);
  Fiber& m = g->f[0];
  if (m.st == FS_BLOCKED && m.wk == W_JOIN) {
    bool done = true;
    if (m.join_target >= 0) done = g->f[m.join_target].st == FS_DONE;
    else for (int i = 1; i < g->nf; i++) if (g->f[i].st != FS_DONE) done = false;
    if (done) { m.st = FS_RUN; m.woken = true; }
  }
  int to = pick(2);
  do_switch(to);
  __builtin_trap();
}
static void prep_fiber(int i, void (*fn)(void*), void* arg) {
  Fiber& f = g->f[i];
  uintptr_t fs = f.fs;
  memset((void*)&f, 0, offsetof(Fiber, vc));
  for (VC* v : {&f.vc, &f.acqf, &f.relf}) memset(v->c, 0, sizeof(uint32_t) * (size_t)g->width);
  f.have_relf = false; f.join_target = 0;
  f.fs = fs;
  f.st = FS_RUN; f.fn = fn; f.arg = arg; f.deadline = NEVER; f.used = true; f.opmaxsys = INT64_MIN;
  f.prio = 1000 + (g->replaying ? 0 : g->rng.below(1000000));
  char* top = (char*)BASE + ARENA + STK * (size_t)(i + 1);
  uint64_t* s = (uint64_t*)(top - 64);
  *--s = 0;                      // alignment: rsp%16==8 at entry
  *--s = (uint64_t)(void*)fiber_main;
  for (int k = 0; k < 6; k++) *--s = 0;
  f.sp = s;
}
int spawn(void (*fn)(void*), void* arg) {
  int i = g->nf;
  if (i >= g->width) { fail(V_LIMIT, "too many fibers"); to_driver(); }
  if (!ensure_pool(i)) { fail(V_LIMIT, "no pool thread for fiber %d", i); to_driver(); }
  prep_fiber(i, fn, arg);
  vcopy(g->f[i].vc, g->cf->vc);
  g->f[i].vc.c[i] = 1; vtick();
  g->nf++;
  return i;
}
void join_all() {
  for (;;) {
    bool done = true;
    for (int i = 1; i < g->nf; i++) if (g->f[i].st != FS_DONE) done = false;
    if (done) return;
    g->cf->join_target = -1;
    block(W_JOIN, nullptr, CLOCK_MONOTONIC, NEVER);
  }
}
void join_fiber(int id) {
  while (g->f[id].st != FS_DONE) { g->cf->join_target = id; block(W_JOIN, nullptr, CLOCK_MONOTONIC, NEVER); }
}
int live_threads() { int n = 0; for (int i = 1; i < g->nf; i++) if (g->f[i].st != FS_DONE) n++; return n; }

// ------------------------------------------------------------------ misc family services
void probe(int i) { g->res->probes[i & 31]++; }
void mark_contended() { g->res->contended = true; }
FiberInfo info(int id) { Fiber& f = g->f[id]; return FiberInfo{f.st, f.wk, f.obj, f.deadline, f.clock}; }
ns_t first_park_time(int id) { return g->f[id].firstpark ? g->f[id].firstparkt : 0; }
ns_t last_park_time(int id) { return g->f[id].lastparkt; }
uint64_t first_park(int id) { return g->f[id].firstpark; }
bool is_blocked(int id) { return g->f[id].st == FS_BLOCKED; }
void op_begin(bool nb) { Fiber* f = g->cf; f->firstpark = 0; f->firstparkt = 0; f->lastparkt = 0; f->ownsteps = 0; f->api = 0; f->expired = 0; f->nb = nb; f->opmaxsys = sysnow(); }
uint64_t own_steps(int id) { return g->f[id].ownsteps; }
void set_alloc_faults(bool on) { g->cf->allocf = on; }
Sut::Sut() { saved = g->cf->in_sut; g->cf->in_sut = 1; }
Sut::~Sut() { g->cf->in_sut = saved; }

// ------------------------------------------------------------------ memory: arena, poison, shadow
static void forget(uintptr_t a, size_t n);
void* arena_alloc(size_t n) {
  if (g->cfg.reuse) for (int i = g->nfreed - 1; i >= 0 && i >= g->nfreed - 32; i--) {
    char* p = (char*)g->freed[i]; if (!p || ((((size_t*)p)[-1] + 15) & ~size_t(15)) != ((n + 15) & ~size_t(15))) continue;
    g->freed[i] = nullptr; while (g->nfreed && !g->freed[g->nfreed - 1]) g->nfreed--;
    if (g->active) hb_acquire(p - 16);
    forget((uintptr_t)p, (n + 7) & ~size_t(7));
    ((size_t*)p)[-1] = n; size_t own = g->active && g->cf->in_sut; ((size_t*)p)[-2] = own;
    if (own) { g->ublocks++; g->ubytes += n; }
    size_t g0 = ((uintptr_t)p - BASE) / 8, ng = (n + 7) / 8; if (!ng) ng = 1;
    for (size_t k = 0; k < ng; k++) g->alive[g0 + k] = g->run_epoch;
    memset(p, 0xCD, (n + 7) & ~size_t(7)); g->reused++;
    return p;
  }
  size_t tot = ((n + 15) & ~size_t(15)) + 32;
  if (n > ARENA || g->brk + tot > (char*)BASE + ARENA) return nullptr;
  char* p = g->brk + 16; g->brk += tot;
  ((size_t*)p)[-1] = n;
  size_t own = g->active && g->cf->in_sut; ((size_t*)p)[-2] = own;
  if (own) { g->ublocks++; g->ubytes += n; }
  size_t g0 = ((uintptr_t)p - BASE) / 8, ng = (n + 7) / 8; if (!ng) ng = 1;
  for (size_t i = 0; i < ng; i++) g->alive[g0 + i] = g->run_epoch;
  memset(p, 0xCD, (n + 7) & ~size_t(7));
  return p;
}
void disown(void* p) { size_t& own = ((size_t*)p)[-2]; if (in_region((uintptr_t)p) && own) { own = 0; g->ublocks--; g->ubytes -= ((size_t*)p)[-1]; } }
bool failed() { return g->res->cls != V_NONE; }
Usage usage() { return Usage{g->ublocks, g->ubytes, g->nos, g->nos ? g->osobj[0].kind : ""}; }
void os_open(const void* p, const char* kind) {
  if (!g->active || !g->cf->in_sut) return;
  for (int i = 0; i < g->nos; i++) if (g->osobj[i].p == p) return;
  if (g->nos < 1024) { g->osobj[g->nos].p = p; g->osobj[g->nos++].kind = kind; }
}
void os_close(const void* p) { if (g->active) for (int i = 0; i < g->nos; i++) if (g->osobj[i].p == p) { g->osobj[i] = g->osobj[--g->nos]; return; } }
static void race_range(uintptr_t a, size_t n, int fl, uint32_t pc);
static const uint32_t PC_FREE = 1;
void arena_free(void* p) {
  if (!p) return;
  if (!in_region((uintptr_t)p)) return;
  if (!g->active) return;
  size_t n = ((size_t*)p)[-1];
  size_t g0 = ((uintptr_t)p - BASE) / 8, ng = (n + 7) / 8; if (!ng) ng = 1;
  if (g->alive[g0] != g->run_epoch) { fail(V_CRASH, "double free or free of a bad pointer"); to_driver(); }
  if (((size_t*)p)[-2]) { g->ublocks--; g->ubytes -= n; }
  if (g->cfg.race && g->cf->in_sut) race_range((uintptr_t)p, n, 1, PC_FREE);
  for (size_t i = 0; i < ng; i++) g->alive[g0 + i] = 0;
  memset(p, 0xDD, (n + 7) & ~size_t(7));
  if (g->cfg.reuse && g->nfreed < 4096) { hb_release((char*)p - 16); g->freed[g->nfreed++] = p; }
}
static void bad_access(uintptr_t a, const char* what, void* pc) {
  fail(V_UAD, "%s at %p touches %s (pc %p)", what, (void*)a, a - BASE < ARENA ? "memory that was freed or never allocated (object already destroyed)" : "a stack frame that no longer exists", pc);
  to_driver();
}
static inline void check_live(uintptr_t a, size_t n, const char* what, void* pc) {
  uintptr_t off = a - BASE;
  if (off < ARENA) {
    if (g->alive[off / 8] != g->run_epoch || g->alive[(off + n - 1) / 8] != g->run_epoch) bad_access(a, what, pc);
  } else if (off < REGION) {
    int o = (int)((off - ARENA) / STK);
    if (o != g->cur) {
      if (o >= g->nf || g->f[o].st == FS_DONE) bad_access(a, what, pc);
      else if (g->f[o].st != FS_FREE && a + 128 < (uintptr_t)g->f[o].sp) bad_access(a, what, pc);
    }
  }
}
bool addr_ok(const void* p, const char* what) { check_live((uintptr_t)p, 1, what, __builtin_return_address(0)); return true; }

static inline Cells* cells_of(uintptr_t a) {
  uintptr_t off = a - BASE;
  if (off < REGION) return &g->shadow[off / 8];
  if (in_data(a)) return &g->dshadow[(a - ((uintptr_t)__data_start & ~7ull)) / 8];
  return nullptr;
}
static void race_one(uintptr_t a, uint32_t mask, int fl, uint32_t pc) {
  Cells* c = cells_of(a);
  if (!c) return;
  if (c->ep != g->run_epoch) { c->ep = g->run_epoch; c->rot = 0; c->c[0] = c->c[1] = c->c[2] = c->c[3] = 0; }
  uint32_t me = g->cur, clk = g->cf->vc.c[me];
  uint64_t nv = (uint64_t)clk << 32 | (uint64_t)me << 20 | (uint64_t)mask << 12 | (uint64_t)(fl | 4);
  int slot = -1;
  for (int i = 0; i < 4; i++) {
    uint64_t v = c->c[i];
    if (v == nv) return;
    if (!v) { if (slot < 0) slot = i; continue; }
    uint32_t t = v >> 20 & 4095, m = v >> 12 & 255, f = v & 4095, k = v >> 32;
    if (t == me) { if ((m & ~mask) == 0 && (fl | 4) >= (int)f && ((fl & 1) || !(f & 1)) ) slot = i; continue; }
    if (!(m & mask)) continue;
    if (!((f | fl) & 1)) continue;
    if ((f & 2) && (fl & 2)) continue;
    if (k <= g->cf->vc.c[t]) { if (slot < 0 && (m & ~mask) == 0) slot = i; continue; }
    if (pc == PC_FREE || c->pc[i] == PC_FREE) { fail(V_UAD, "the destruction of the object at %p and an access to it by T%u (pc 0x%x) are unordered", (void*)a, pc == PC_FREE ? t : me, pc == PC_FREE ? c->pc[i] : pc); to_driver(); }
    fail(V_RACE, "data race at %p: %s%s by T%u (pc 0x%x) and %s%s by T%u (pc 0x%x) are unordered", (void*)a,
         f & 2 ? "atomic " : "", f & 1 ? "write" : "read", t, c->pc[i], fl & 2 ? "atomic " : "", fl & 1 ? "write" : "read", me, pc);
    return;
  }
  if (slot < 0) slot = c->rot++ & 3;
  c->c[slot] = nv; c->pc[slot] = pc;
}
static void race_range(uintptr_t a, size_t n, int fl, uint32_t pc) {
  while (n) {
    uint32_t o = a & 7; size_t k = 8 - o; if (k > n) k = n;
    race_one(a & ~7ull, (((1u << k) - 1) << o) & 255, fl, pc);
    a += k; n -= k;
  }
}
void use_region(const void* p, size_t n, bool w) { check_live((uintptr_t)p, n, "access", nullptr); if (g->cfg.race) race_range((uintptr_t)p, n, w ? 1 : 0, 0); }

// what the simulator knows about a block that is about to become another object
static void forget(uintptr_t a, size_t n) {
  for (size_t i = 0; i < n; i += 8) if (Cells* c = cells_of(a + i)) c->ep = 0;
  for (uint32_t i = 0; n && g->natom && i < n; i += 4) {
    uint32_t h = (uint32_t)(mix64(a + i, 3) % NATOM);
    for (int k = 0; k < NATOM; k++, h = (h + 1) % NATOM) { AtomLoc& l = g->atoms[h]; if (l.ep != g->run_epoch) break; if (l.addr == a + i) l.dead = true; }
    h = (uint32_t)(mix64(a + i, 7) % NSYNC);
    for (int k = 0; k < NSYNC; k++, h = (h + 1) % NSYNC) { SyncObj& s = g->syncs[h]; if (s.ep != g->run_epoch) break; if (s.addr == a + i) { memset(s.w.c, 0, sizeof(uint32_t) * (size_t)g->width); memset(s.r.c, 0, sizeof(uint32_t) * (size_t)g->width); break; } }
  }
}
// ------------------------------------------------------------------ atomics with store history
static AtomLoc* find_atom(uintptr_t a) {
  uint32_t h = (uint32_t)(mix64(a, 3) % NATOM);
  for (int i = 0; i < NATOM; i++, h = (h + 1) % NATOM) {
    AtomLoc& l = g->atoms[h];
    if (l.ep != g->run_epoch) return nullptr;
    if (l.addr == a && !l.dead) return &l;
  }
  return nullptr;
}
static AtomLoc* atom_of(uintptr_t a, int size, uint64_t curval) {
  uint32_t h = (uint32_t)(mix64(a, 3) % NATOM);
  for (int i = 0; i < NATOM; i++, h = (h + 1) % NATOM) {
    AtomLoc& l = g->atoms[h];
    bool fresh = l.ep != g->run_epoch;
    if (!fresh && !(l.addr == a)) continue;
    if (!fresh && !l.dead && l.size == size) {
      if (l.st[(l.n - 1) % NHIST].val == curval) return &l;  // memory agrees with history
    }
    if (fresh && g->natom++ > NATOM / 2) { fail(V_LIMIT, "too many atomic locations"); to_driver(); }
    l.ep = g->run_epoch; l.addr = a; l.size = size; l.dead = false; l.n = 1;
    l.st[0].val = curval; l.st[0].tid = 0; l.st[0].clk = 0; l.st[0].rel = false;
    memset(l.seen, 0, sizeof(uint32_t) * (size_t)g->width);
    return &l;
  }
  __builtin_trap();
}
static inline bool is_acq(int mo) { mo &= 0xffff; return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool is_rel(int mo) { mo &= 0xffff; return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static uint64_t atom_load(AtomLoc* l, int mo, bool latest) {
  int me = g->cur;
  uint32_t last = l->n - 1, lo = l->n > NHIST ? l->n - NHIST : 0;
  if (l->seen[me] > lo) lo = l->seen[me];
  uint32_t idx = last;
  if (!latest && (mo & 0xffff) != __ATOMIC_SEQ_CST && fault_on(F_STALE) && lo < last) {
    for (uint32_t i = last; i > lo; i--) { StoreRec& s = l->st[i % NHIST]; if (s.clk <= g->cf->vc.c[s.tid]) { lo = i; break; } }
    if (lo < last) {
      uint32_t cnt = last - lo + 1;
      uint32_t v = decide(cnt, g->rng.permille((int)g->cfg.rate[F_STALE]) ? 1 + g->rng.below(cnt - 1) : 0);
      if (v) { g->fired[F_STALE]++; if (g->trace) trace("fault stale_load (%u stores back)", v); }
      idx = last - v;
    }
  }
  l->seen[me] = idx;
  StoreRec& s = l->st[idx % NHIST];
  if (s.rel) { if (is_acq(mo)) vjoin(g->cf->vc, s.vc); else vjoin(g->cf->acqf, s.vc); }
  return s.val;
}
static void atom_store(AtomLoc* l, uint64_t v, int mo, bool rmw) {
  int me = g->cur;
  StoreRec& p = l->st[(l->n - 1) % NHIST];
  StoreRec& s = l->st[l->n % NHIST];
  bool rel = false; VC nv;   // only the first width entries are used
  if (is_rel(mo)) { vcopy(nv, g->cf->vc); rel = true; }
  else if (g->cf->have_relf) { vcopy(nv, g->cf->relf); rel = true; }
  if (p.rel && (rmw || (p.tid == (uint32_t)me && p.clk))) { if (rel) vjoin(nv, p.vc); else { vcopy(nv, p.vc); rel = true; } }
  s.val = v; s.tid = me; s.clk = g->cf->vc.c[me]; s.rel = rel; if (rel) vcopy(s.vc, nv);
  l->seen[me] = l->n; l->n++;
  vtick();
}

// ------------------------------------------------------------------ run control
struct TrapCtx { int dummy; };
static void crash_jump(const char* what, uintptr_t addr, uintptr_t pc) {
  char b[200]; snprintf(b, sizeof b, "%s at address %p (pc %p) in T%d", what, (void*)addr, (void*)pc, g->cur);
  fail(V_CRASH, "%s", b);
  to_driver();
}
static void on_signal(int sig, siginfo_t* si, void* uc) {
  ucontext_t* u = (ucontext_t*)uc;
  if (sig == SIGVTALRM && (!g || !g->active)) return;
  if (!g || !g->active) {
    static const char m[] = "sim: signal outside a run\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r;
    signal(sig, SIG_DFL); raise(sig); _exit(3);
  }
  if (sig == SIGVTALRM) {
    if (g->wd_run != g->runno) { g->wd_run = g->runno; g->wd_ticks = 0; return; }
    if (++g->wd_ticks < 5) return;
    g->wd_ticks = 0;
    fail(V_STUCK, "T%d computes without reaching any synchronisation point (CPU watchdog)", g->cur);
    to_driver();
  }
  crash_jump(sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : "SIGILL",
             (uintptr_t)si->si_addr, (uintptr_t)u->uc_mcontext.gregs[REG_RIP]);
}
static void on_terminate() {
  if (g && g->active) { fail(V_CRASH, "std::terminate called in T%d (exception left a noexcept function or a destructor)", g->cur); to_driver(); }
  fprintf(stderr, "sim: terminate outside a run\n"); _exit(3);
}
void rt_init() {
  if (g) return;
  have_fsgsbase = (getauxval(AT_HWCAP2) & 2) != 0;
  G* ng = (G*)mmap(nullptr, sizeof(G), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  auto big = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return p; };
  void* r = mmap((void*)BASE, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != (void*)BASE) { fprintf(stderr, "sim: cannot map region\n"); _exit(2); }
  for (int i = 0; i < MAXF; i++) mprotect((char*)BASE + ARENA + STK * (size_t)i, 4096, PROT_NONE);
  ng->shadow = (Cells*)big(NGRAN * sizeof(Cells));
  ng->alive = (uint32_t*)big(NGRAN * 4);
  ng->dshadow = (Cells*)big(((_end - __data_start) / 8 + 4) * sizeof(Cells));
  ng->syncs = (SyncObj*)big(sizeof(SyncObj) * NSYNC);
  ng->atoms = (AtomLoc*)big(sizeof(AtomLoc) * NATOM);
  ng->dec = (Decision*)big(sizeof(Decision) * NDEC);
  g = ng;
}
void rt_worker_init() {
  std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
  g->driver_fs = get_fs();
  for (int i = 0; i < 8; i++) if (!ensure_pool(i)) { fprintf(stderr, "sim: cannot create pool threads\n"); _exit(2); }
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_size = 128 << 10; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM, SIGABRT};
  for (int s : sg) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
  g->n1 = __start_simkeep - __data_start; g->n2 = _end - __stop_simkeep;
  g->snap1 = (char*)malloc(g->n1); g->snap2 = (char*)malloc(g->n2);
  memcpy(g->snap1, __data_start, g->n1); memcpy(g->snap2, __stop_simkeep, g->n2);
  g->ready = true;
}
static void restore_statics() {
  memcpy(__data_start, g->snap1, g->n1); memcpy(__stop_simkeep, g->snap2, g->n2);
}
void run_sim(const RunCfg& cfg, uint64_t counted, const std::vector<Decision>* replay, bool trace_on,
             void (*body)(void*), void* arg, void (*onq)(void*), Result& out) {
  g->cfg = cfg; g->counted = counted; g->trace = trace_on; g->replaying = replay != nullptr;
  g->rep = replay ? replay->data() : nullptr; g->nrep = replay ? replay->size() : 0; g->reppos = 0;
  g->ndec = 0; g->decidx = 0; g->onq = onq; g->onq_arg = arg;
  g->rng = Rng(mix64((uint64_t)cfg.seed, 0x5EED)); g->frng = Rng(mix64((uint64_t)cfg.seed, 0xF1));
  g->now = 1000000000000ll; g->sysoff = cfg.sysoff; g->next_due = NEVER; g->jumpedback = false;
  g->steps = g->switches = g->evseq = 0; g->hash = 0x1234; g->finishing = false; g->finish_at = cfg.chaos; g->finish_end = 0; g->finish_q = 1;
  memset(g->fired, 0, sizeof g->fired);
  g->lowprio = 900; g->npct = (int)(cfg.pctd > 16 ? 16 : cfg.pctd);
  for (int i = 0; i < g->npct; i++) g->pct_cp[i] = 1 + g->rng.below((uint32_t)cfg.horizon);
  if (++g->run_epoch == 0) { g->run_epoch = 1; }
  g->nsync = g->natom = 0; g->ublocks = g->ubytes = 0; g->nos = 0; g->nfreed = 0; g->brk = (char*)BASE + 64; g->abort_hook = nullptr;
  memset((void*)&out, 0, sizeof out); g->res = &out; g->runno++; g->ended = false; g->in_q = false;
  ns_t t0 = g->now;
  g->nf = 1; g->width = cfg.wide ? MAXF : NARROW; g->cur = 0; g->cf = &g->f[0];
  prep_fiber(0, body, arg);
  g->f[0].vc.c[0] = 1;
  g->active = true;
  set_fs(g->f[0].fs);
  sim_switch(&g->driver_sp, g->f[0].sp);
  set_fs(g->driver_fs);
  g->active = false;
  for (int i = 0; i < g->nf; i++) memcpy((char*)g->f[i].fs - 4096, g->tlsnap[i], 4096);
  restore_statics();
  out.hash = g->hash; out.steps = g->steps; out.switches = g->switches; out.simtime = g->now - t0;
  memcpy(out.fired, g->fired, sizeof out.fired); out.ndecisions = (uint32_t)g->ndec;
}
void last_decisions(std::vector<Decision>& o) { o.assign(g->dec, g->dec + g->ndec); }
} // namespace sim

void sim_set_abort_hook(void (*h)()) { sim::g->abort_hook = h; }
using namespace sim;


// ==================================================================== tsan hooks
static inline void plain_access(void* p, size_t n, bool w, void* pc) {
  uintptr_t a = (uintptr_t)p;
  if (g->cfg.plain && !g->finishing) {
    uintptr_t off = a - BASE;
    bool own = off >= ARENA && off < REGION && (int)((off - ARENA) / STK) == g->cur;
    if (!own && decide(2, g->rng.permille((int)g->cfg.plain))) point(P_PLAIN, p);
  }
  if (in_region(a)) check_live(a, n, w ? "write" : "read", pc);
  if (w && g->natom) { AtomLoc* l = find_atom(a); if (l) l->dead = true; }
  if (g->cfg.race) race_range(a, n, w ? 1 : 0, (uint32_t)(uintptr_t)pc);
  if (++g->cf->plaincnt > 200000000ull) { fail(V_STUCK, "endless loop without synchronisation in T%d", g->cur); to_driver(); }
}
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
#define RW(N) \
  void __tsan_read##N(void* p) { if (ACTIVE) plain_access(p, N, false, RA); } \
  void __tsan_write##N(void* p) { if (ACTIVE) plain_access(p, N, true, RA); } \
  void __tsan_volatile_read##N(void* p) { if (ACTIVE) plain_access(p, N, false, RA); } \
  void __tsan_volatile_write##N(void* p) { if (ACTIVE) plain_access(p, N, true, RA); } \
  void __tsan_unaligned_read##N(void* p) { if (ACTIVE) plain_access(p, N, false, RA); } \
  void __tsan_unaligned_write##N(void* p) { if (ACTIVE) plain_access(p, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (ACTIVE && n) plain_access(p, n, false, RA); }
void __tsan_write_range(void* p, size_t n) { if (ACTIVE && n) plain_access(p, n, true, RA); }
// clang calls these where gcc keeps the plain function
void* __tsan_memset(void* p, int c, size_t n) { if (ACTIVE && n) plain_access(p, n, true, RA); return memset(p, c, n); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (ACTIVE && n) { plain_access((void*)s, n, false, RA); plain_access(d, n, true, RA); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (ACTIVE && n) { plain_access((void*)s, n, false, RA); plain_access(d, n, true, RA); } return memmove(d, s, n); }
void __tsan_vptr_update(void** p, void*) { if (ACTIVE) plain_access(p, 8, true, RA); }
void __tsan_vptr_read(void** p) { if (ACTIVE) plain_access(p, 8, false, RA); }
}
template <class T> static AtomLoc* at_begin(volatile T* a, void* pc, bool w) {
  check_live((uintptr_t)a, sizeof(T), "atomic access", pc);
  point(P_ATOMIC, (void*)a);
  check_live((uintptr_t)a, sizeof(T), "atomic access", pc);
  if (g->cfg.race) race_range((uintptr_t)a, sizeof(T), 2 | (w ? 1 : 0), (uint32_t)(uintptr_t)pc);
  return atom_of((uintptr_t)a, sizeof(T), (uint64_t)*a);
}
template <class T> static T at_load(const volatile T* a, int mo, void* pc) {
  if (!ACTIVE) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
  AtomLoc* l = at_begin<T>((volatile T*)a, pc, false);
  return (T)atom_load(l, mo, false);
}
template <class T> static void at_store(volatile T* a, T v, int mo, void* pc) {
  if (!ACTIVE) { *a = v; return; }
  AtomLoc* l = at_begin<T>(a, pc, true);
  atom_store(l, (uint64_t)v, mo, false);
  *a = v;
}
template <class T, class Fn> static T at_rmw(volatile T* a, int mo, void* pc, Fn fn) {
  if (!ACTIVE) { T o = *a; *a = fn(o); return o; }
  AtomLoc* l = at_begin<T>(a, pc, true);
  T o = (T)atom_load(l, mo, true), nv = fn(o);
  atom_store(l, (uint64_t)nv, mo, true);
  *a = nv;
  return o;
}
template <class T> static bool at_cas(volatile T* a, T* c, T v, int mo, int fmo, bool weak, void* pc) {
  if (!ACTIVE) { if (*a == *c) { *a = v; return true; } *c = *a; return false; }
  AtomLoc* l = at_begin<T>(a, pc, true);
  T o = (T)l->st[(l->n - 1) % NHIST].val;
  if (o == *c && !(weak && fault(F_WEAKCAS))) {
    atom_load(l, mo, true); atom_store(l, (uint64_t)v, mo, true); *a = v; return true;
  }
  o = (T)atom_load(l, fmo, true);
  *c = o; return false;
}
extern "C" {
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) { return at_load<T>(a, mo, RA); } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { at_store<T>(a, v, mo, RA); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, RA, [&](T) { return v; }); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, RA, [&](T o) { return (T)(o + v); }); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, RA, [&](T o) { return (T)(o - v); }); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, RA, [&](T o) { return (T)(o & v); }); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, RA, [&](T o) { return (T)(o | v); }); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, RA, [&](T o) { return (T)(o ^ v); }); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, RA, [&](T o) { return (T)~(o & v); }); } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return at_cas<T>(a, c, v, mo, fmo, false, RA); } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return at_cas<T>(a, c, v, mo, fmo, true, RA); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { at_cas<T>(a, &c, v, mo, fmo, false, RA); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (!ACTIVE) return;
  point(P_ATOMIC, nullptr);
  static const char scf = 0;
  if (is_acq(mo)) vjoin(g->cf->vc, g->cf->acqf);
  if ((mo & 0xffff) == __ATOMIC_SEQ_CST) { hb_acquire(&scf); hb_release(&scf); }
  if (is_rel(mo)) { vcopy(g->cf->relf, g->cf->vc); g->cf->have_relf = true; }
}
void __tsan_atomic_signal_fence(int) {}
}

// ==================================================================== interposed libc/pthread
static inline bool mine(const void* p) { uintptr_t a = (uintptr_t)p; return in_region(a) || in_data(a); }
static const int DEAD = 0x7dead;
[[noreturn]] static void ub(const char* what, const void* o) { fail(V_CRASH, "undefined behaviour: %s (%p) in T%d", what, o, g->cur); to_driver(); }
static void touch(const void* p, void* pc, const char* w = "synchronisation call") { check_live((uintptr_t)p, 8, w, pc); }
static inline bool is_dead(const void* p, int word) { return ((const int*)p)[word] == DEAD; }
static void dead_use(const char* what) { fail(V_UAD, "%s used after it was destroyed, in T%d", what, g->cur); to_driver(); }
static ns_t ts_ns(const struct timespec* t) {
  __int128 v = (__int128)t->tv_sec * 1000000000 + t->tv_nsec;
  if (v > INT64_MAX - 1) v = INT64_MAX - 1;
  if (v < INT64_MIN / 2) v = INT64_MIN / 2;
  return (ns_t)v;
}
static bool bad_ts(const struct timespec* t) { return t->tv_nsec < 0 || t->tv_nsec >= 1000000000; }

// mutex overlay: [0] owner fiber+1, [1] recursion count, [4] kind
static int mx_lock(int* p, int clock, ns_t dl, bool nonblock, bool interruptible = false) {
  (void)interruptible;
  int me = g->cur + 1;
  if (p[0] == me) {
    if ((p[4] & 3) == PTHREAD_MUTEX_RECURSIVE) { if (fault(F_API)) return EAGAIN; p[1]++; return 0; }   // EAGAIN: maximum number of recursive locks exceeded
    if (nonblock) return EBUSY;
    if ((p[4] & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  while (p[0]) {
    if (nonblock) return EBUSY;
    if (!block(W_MUTEX, p, clock, dl)) { if (is_dead(p, 4)) dead_use("mutex"); if (!p[0]) break; return ETIMEDOUT; }
    touch(p, nullptr);
    if (is_dead(p, 4)) dead_use("mutex");
  }
  p[0] = me; p[1] = 1;
  hb_acquire(p);
  return 0;
}
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  if (g_run() && ACTIVE && mine(m)) touch(m, RA);
  if (ACTIVE && mine(m)) os_open(m, "pthread mutex");
  memset(m, 0, sizeof *m);
  if (a) ((int*)m)[4] = (*(const int*)a) & 3;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!ACTIVE || !mine(m)) return 0;
  touch(m, RA); point(P_MUTEX, m);
  int* p = (int*)m;
  if (is_dead(p, 4)) dead_use("mutex");
  if (p[0]) { fail(V_CRASH, "mutex %p destroyed while locked by T%d", (void*)m, p[0] - 1); return EBUSY; }
  if (waiters(p)) ub("mutex destroyed while threads wait for it", m);
  os_close(m);
  p[4] = DEAD;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!ACTIVE || !mine(m)) return 0;
  touch(m, RA); point(P_MUTEX, m); touch(m, RA);
  if (is_dead(m, 4)) dead_use("mutex");
  return mx_lock((int*)m, CLOCK_MONOTONIC, NEVER, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!ACTIVE || !mine(m)) return 0;
  touch(m, RA); point(P_MUTEX, m); touch(m, RA);
  if (is_dead(m, 4)) dead_use("mutex");
  return mx_lock((int*)m, CLOCK_MONOTONIC, NEVER, true);
}
static int mx_timed(pthread_mutex_t* m, int clk, const struct timespec* ts, void* pc) {
  if (!ACTIVE || !mine(m)) return 0;
  touch(m, pc); point(P_MUTEX, m); touch(m, pc);
  if (is_dead(m, 4)) dead_use("mutex");
  int* p = (int*)m;
  if (p[0] == 0 || p[0] == g->cur + 1) { if (p[0] == 0 || (p[4] & 3) == PTHREAD_MUTEX_RECURSIVE) return mx_lock(p, clk, NEVER, true); }
  if (bad_ts(ts)) return EINVAL;
  if (fault(F_API)) return EDEADLK;   // "a deadlock condition was detected": any failure but the time-out
  mark_park();
  return mx_lock(p, clk, ts_ns(ts), false);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mx_timed(m, CLOCK_REALTIME, ts, RA); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return mx_timed(m, c, ts, RA); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!ACTIVE || !mine(m)) return 0;
  touch(m, RA); point(P_MUTEX, m); touch(m, RA);
  int* p = (int*)m;
  if (is_dead(m, 4)) dead_use("mutex");
  if (p[0] != g->cur + 1) {
    if ((p[4] & 3) == PTHREAD_MUTEX_NORMAL) ub("unlock of a mutex that the thread does not own", m);
    fail(V_NATIVE, "unlock of a recursive mutex that T%d does not own", g->cur);
    return EPERM;
  }
  if (--p[1] > 0) return 0;
  hb_release(p);
  p[0] = 0;
  wake_all(p);
  return 0;
}
// condition variable overlay: [0] clock id
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  memset(c, 0, sizeof *c);
  if (a) ((int*)c)[0] = ((*(const int*)a) >> 1) & 1;
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!ACTIVE || !mine(c)) return 0;
  touch(c, RA); point(P_COND, c);
  if (is_dead(c, 4)) dead_use("condition variable");
  if (waiters(c)) ub("condition variable destroyed while threads wait on it", c);
  ((int*)c)[4] = DEAD;
  return 0;
}
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, int clk, const struct timespec* ts, void* pc) {
  if (!ACTIVE || !mine(c)) return 0;
  touch(c, pc); touch(m, pc); point(P_COND, c); touch(c, pc); touch(m, pc);
  if (is_dead(c, 4)) dead_use("condition variable");
  int* p = (int*)m;
  if (ts && bad_ts(ts)) return EINVAL;
  if (p[0] != g->cur + 1) ub("condition wait without owning the mutex", m);
  ns_t dl = ts ? ts_ns(ts) : NEVER;
  bool spur = fault(F_SPURIOUS);
  int cnt = p[1];
  hb_release(p);
  p[0] = 0; p[1] = 0; wake_all(p);
  int rc = 0;
  if (spur) { mark_park(); point(P_COND, c); }
  else if (!block(W_COND, c, clk, dl)) rc = ETIMEDOUT;
  touch(m, pc, "re-lock after a condition wait");
  if (is_dead(m, 4)) dead_use("mutex");
  mx_lock(p, CLOCK_MONOTONIC, NEVER, false);
  p[1] = cnt;
  return rc;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cv_wait(c, m, CLOCK_MONOTONIC, nullptr, RA); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cv_wait(c, m, ((int*)c)[0] ? CLOCK_MONOTONIC : CLOCK_REALTIME, ts, RA); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) { return cv_wait(c, m, clk, ts, RA); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!ACTIVE || !mine(c)) return 0;
  touch(c, RA); point(P_COND, c); touch(c, RA);
  if (is_dead(c, 4)) dead_use("condition variable");
  wake_some(c, 1);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!ACTIVE || !mine(c)) return 0;
  touch(c, RA); point(P_COND, c); touch(c, RA);
  if (is_dead(c, 4)) dead_use("condition variable");
  wake_all(c);
  return 0;
}
// rwlock overlay: [0] writer fiber+1, [1] readers, [2] waiting writers, [3] dead mark
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) {
  if (g_run() && ACTIVE && mine(l)) touch(l, RA);
  if (g_run() && ACTIVE && mine(l)) os_open(l, "rwlock");
  memset(l, 0, sizeof *l); return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) {
  if (!ACTIVE || !mine(l)) return 0;
  touch(l, RA); point(P_RWLOCK, l);
  int* p = (int*)l;
  if (is_dead(p, 3)) dead_use("rwlock");
  if (p[0] || p[1]) { fail(V_CRASH, "rwlock destroyed while held"); return EBUSY; }
  if (waiters(p)) ub("rwlock destroyed while threads wait for it", l);
  p[3] = DEAD; os_close(l);
  return 0;
}
static int rw_wr(pthread_rwlock_t* l, bool nb, int clk, const struct timespec* ts, void* pc) {
  if (!ACTIVE || !mine(l)) return 0;
  touch(l, pc); point(P_RWLOCK, l); touch(l, pc);
  int* p = (int*)l;
  if (is_dead(p, 3)) dead_use("rwlock");
  if (ts && bad_ts(ts)) return EINVAL;   // checked first, as glibc does for read-write locks (POSIX permits it, and permits not checking when the lock is free)
  if (p[0] == g->cur + 1) return nb ? EBUSY : EDEADLK;
  if (p[0] || p[1]) {
    if (nb) return EBUSY;
    if (ts && fault(F_API)) return EDEADLK;
    p[2]++;
    while (p[0] || p[1]) {
      if (!block(W_RWLOCK, p, clk, ts ? ts_ns(ts) : NEVER) && (p[0] || p[1])) { p[2]--; wake_all(p); return ETIMEDOUT; }
      touch(l, pc); if (is_dead(p, 3)) dead_use("rwlock");
    }
    p[2]--;
  }
  p[0] = g->cur + 1; hb_acquire_wr(p);
  return 0;
}
static int rw_rd(pthread_rwlock_t* l, bool nb, int clk, const struct timespec* ts, void* pc) {
  if (!ACTIVE || !mine(l)) return 0;
  touch(l, pc); point(P_RWLOCK, l); touch(l, pc);
  int* p = (int*)l;
  if (is_dead(p, 3)) dead_use("rwlock");
  if (ts && bad_ts(ts)) return EINVAL;   // checked first, as glibc does for read-write locks (POSIX permits it, and permits not checking when the lock is free)
  if (p[0] == g->cur + 1) return nb ? EBUSY : EDEADLK;
  if (fault(F_API)) return EAGAIN;   // maximum number of read locks exceeded
  if (g->cfg.maxrd && !p[0] && p[1] >= g->cfg.maxrd) {   // and this time it stays exceeded until somebody unlocks
    g->cf->api++; g->fired[F_API]++;
    if (ts && clock_now(clk) >= ts_ns(ts) && !g->fired[F_SYSJUMP] && ++g->cf->expired > 20) fail(V_LATE, "T%d goes on asking for a read lock after its deadline", g->cur);
    return EAGAIN;
  }
  auto blocked = [&] { return p[0] || (g->cfg.rwpref && p[2] > 0); };
  if (blocked()) {
    if (nb) return EBUSY;
    while (blocked()) {
      if (!block(W_RWLOCK, p, clk, ts ? ts_ns(ts) : NEVER) && blocked()) return ETIMEDOUT;
      touch(l, pc); if (is_dead(p, 3)) dead_use("rwlock");
    }
  }
  p[1]++; hb_acquire(p);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rw_wr(l, false, CLOCK_MONOTONIC, nullptr, RA); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_wr(l, true, CLOCK_MONOTONIC, nullptr, RA); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* t) { return rw_wr(l, false, CLOCK_REALTIME, t, RA); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { return rw_wr(l, false, c, t, RA); }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rw_rd(l, false, CLOCK_MONOTONIC, nullptr, RA); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_rd(l, true, CLOCK_MONOTONIC, nullptr, RA); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* t) { return rw_rd(l, false, CLOCK_REALTIME, t, RA); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t) { return rw_rd(l, false, c, t, RA); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!ACTIVE || !mine(l)) return 0;
  touch(l, RA); point(P_RWLOCK, l); touch(l, RA);
  int* p = (int*)l;
  if (is_dead(p, 3)) dead_use("rwlock");
  if (p[0] == g->cur + 1) { hb_release(p); p[0] = 0; wake_all(p); return 0; }
  if (p[0] || p[1] <= 0) ub("unlock of a rwlock that the thread does not hold", l);
  hb_release_r(p); p[1]--; wake_all(p);
  return 0;
}
// spinlock: glibc's is one int; 0 = locked in glibc's convention is irrelevant here: 1 free, 2 held
int pthread_spin_init(pthread_spinlock_t* s, int) {
  if (g_run() && ACTIVE && mine((void*)s)) touch((void*)s, RA);
  if (g_run() && ACTIVE && mine((void*)s)) os_open((void*)s, "spinlock");
  *s = 1; return 0;
}
int pthread_spin_destroy(pthread_spinlock_t* s) {
  if (!ACTIVE || !mine((void*)s)) return 0;
  touch((void*)s, RA); if (*s == 2) { fail(V_CRASH, "spinlock destroyed while locked"); return EBUSY; } *s = DEAD; os_close((void*)s); return 0; }
int pthread_spin_lock(pthread_spinlock_t* s) {
  if (!ACTIVE || !mine((void*)s)) return 0;
  void* v = (void*)s;
  do { check_live((uintptr_t)s, 4, "spinlock", RA); point(P_SPIN, v); check_live((uintptr_t)s, 4, "spinlock", RA); if (*s == DEAD) dead_use("spinlock");
    if (*s == 2) { yield_point(); } } while (*s == 2);
  *s = 2; hb_acquire(v);
  return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* s) {
  if (!ACTIVE || !mine((void*)s)) return 0;
  check_live((uintptr_t)s, 4, "spinlock", RA); point(P_SPIN, (void*)s);
  if (*s == DEAD) dead_use("spinlock");
  if (*s == 2) return EBUSY;
  *s = 2; hb_acquire((void*)s); return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* s) {
  if (!ACTIVE || !mine((void*)s)) return 0;
  check_live((uintptr_t)s, 4, "spinlock", RA); point(P_SPIN, (void*)s);
  if (*s == DEAD) dead_use("spinlock");
  hb_release((void*)s); *s = 1; return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  int* p = (int*)o;
  if (!ACTIVE || !mine(o)) { if (*p != 2) { *p = 1; try { fn(); } catch (...) { *p = 0; throw; } *p = 2; } return 0; }
  point(P_ONCE, o);
  for (;;) {
    if (*p == 2) { hb_acquire(o); return 0; }
    if (*p == 0) break;
    block(W_ONCE, o, CLOCK_MONOTONIC, NEVER);
  }
  *p = 1;
  try { fn(); } catch (...) { *p = 0; wake_all(o); throw; }
  hb_release(o); *p = 2; wake_all(o);
  return 0;
}
int __cxa_guard_acquire(long long* gd) {
  char* b = (char*)gd;
  if (b[0]) { if (ACTIVE) hb_acquire(gd); return 0; }
  if (!ACTIVE) { b[1] = 1; return 1; }
  point(P_ONCE, gd);
  while (b[1] && !b[0]) block(W_ONCE, gd, CLOCK_MONOTONIC, NEVER);
  if (b[0]) { hb_acquire(gd); return 0; }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long* gd) { char* b = (char*)gd; if (ACTIVE) { hb_release(gd); } b[0] = 1; b[1] = 0; if (ACTIVE) wake_all(gd); }
void __cxa_guard_abort(long long* gd) { char* b = (char*)gd; b[1] = 0; if (ACTIVE) wake_all(gd); }
pthread_t pthread_self(void) {
  if (g && g->active) return (pthread_t)(0x7e0000000000ull + (uintptr_t)g->cur * 0x1700ull);
  return (pthread_t)get_fs();
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
// semaphores: [0] value, [1] magic
static const int SEMLIVE = 0x5e3a, SEMBAD = 0x5e3b;   // SEMBAD: sem_init failed
int sem_init(sem_t* s, int, unsigned v) {
  int* p = (int*)s;
  if (ACTIVE && mine(s)) { touch(s, RA); if (fault(F_API)) { p[1] = SEMBAD; errno = ENOSPC; return -1; } }
  if (v > INT_MAX) { errno = EINVAL; return -1; }
  if (ACTIVE && mine(s)) os_open(s, "POSIX semaphore");
  p[0] = (int)v; p[1] = SEMLIVE; return 0;
}
int sem_destroy(sem_t* s) {
  int* p = (int*)s;
  if (!ACTIVE || !mine(s)) return 0;
  touch(s, RA); point(P_SEM, s);
  if (p[1] == SEMBAD) { errno = EINVAL; return -1; }
  if (p[1] != SEMLIVE) dead_use("semaphore");
  if (waiters(s)) ub("semaphore destroyed while threads wait on it", s);
  os_close(s);
  p[1] = DEAD; return 0;
}
static int sem_take(sem_t* s, bool nb, int clk, const struct timespec* ts, void* pc) {
  int* p = (int*)s;
  if (!ACTIVE || !mine(s)) return 0;
  touch(s, pc); point(P_SEM, s); touch(s, pc);
  if (p[1] == SEMBAD) { errno = EINVAL; return -1; }
  if (p[1] != SEMLIVE) dead_use("semaphore");
  if (ts && bad_ts(ts)) { errno = EINVAL; return -1; }
  while (p[0] == 0) {
    if (nb) { errno = EAGAIN; return -1; }
    if (fault(F_EINTR)) {
      mark_park();
      int n = 1 + (int)decide(4, g->rng.below(4));
      while (n-- > 0) yield_point();
      errno = EINTR; return -1;
    }
    if (!block(W_SEM, s, clk, ts ? ts_ns(ts) : NEVER) && p[0] == 0) { errno = ETIMEDOUT; return -1; }
    touch(s, pc); if (p[1] != SEMLIVE) dead_use("semaphore");
  }
  p[0]--; hb_acquire(s);
  return 0;
}
int sem_wait(sem_t* s) { return sem_take(s, false, CLOCK_MONOTONIC, nullptr, RA); }
int sem_trywait(sem_t* s) {
  if (ACTIVE && mine(s) && g->cfg.rate[F_API] > 0 && fault(F_EINTR)) { touch(s, RA); point(P_SEM, s); g->cf->api++; errno = EINTR; return -1; }   // POSIX allows it; counts as a reported failure
  return sem_take(s, true, CLOCK_MONOTONIC, nullptr, RA); }
int sem_timedwait(sem_t* s, const struct timespec* t) { return sem_take(s, false, CLOCK_REALTIME, t, RA); }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) { return sem_take(s, false, c, t, RA); }
int sem_post(sem_t* s) {
  int* p = (int*)s;
  if (!ACTIVE || !mine(s)) return 0;
  touch(s, RA); point(P_SEM, s); touch(s, RA);
  if (p[1] == SEMBAD) { errno = EINVAL; return -1; }
  if (p[1] != SEMLIVE) dead_use("semaphore");
  if (p[0] == INT_MAX) { errno = EOVERFLOW; return -1; }
  hb_release(s); p[0]++; wake_some(s, 1);
  return 0;
}
int sem_getvalue(sem_t* s, int* v) { if (ACTIVE && mine(s)) point(P_SEM, s); *v = ((int*)s)[0]; return 0; }
// clocks
static long raw2(long nr, long a, long b) { long r; asm volatile("syscall" : "=a"(r) : "0"(nr), "D"(a), "S"(b) : "rcx", "r11", "memory"); return r; }
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!(g && g->active)) return (int)raw2(SYS_clock_gettime, c, (long)ts);
  if (ACTIVE) point(P_CLOCK, nullptr);
  int cc = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? CLOCK_REALTIME : CLOCK_MONOTONIC;
  ns_t t = clock_now(cc);
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* p) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec*) {
  if (!ACTIVE) return 0;
  if (bad_ts(ts)) return EINVAL;
  point(P_SLEEP, nullptr);
  ns_t d = ts_ns(ts);
  if (!(fl & TIMER_ABSTIME)) { sleep_until(g->now + (d > 0 ? d : 0)); return 0; }
  int cc = c == CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC;
  while (clock_now(cc) < d) block(W_SLEEP, nullptr, cc, d);
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) { int e = clock_nanosleep(CLOCK_MONOTONIC, 0, ts, rem); if (e) { errno = e; return -1; } return 0; }
int usleep(useconds_t us) { struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { struct timespec ts = {(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }
int sched_yield(void) { if (ACTIVE) yield_point(); return 0; }
void abort(void) {
  if (g && g->active) {
    if (g->abort_hook) { g->in_q = true; g->abort_hook(); g->in_q = false; to_driver(); }
    fail(V_CRASH, "abort() called in T%d", g->cur); to_driver();
  }
  signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134);
}
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  if (g && g->active) { const char* b = strrchr(f, '/'); fail(V_CRASH, "assertion failed: %s at %s:%u (%s) in T%d", e, b ? b + 1 : f, l, fn ? fn : "", g->cur); to_driver(); }
  fprintf(stderr, "assertion failed outside a run: %s %s:%u\n", e, f, l); _exit(3);
}
}
static void* sim_new(size_t n) {
  if (ACTIVE) {
    if (g->cf->allocf && fault(F_ALLOC)) return nullptr;
    return arena_alloc(n ? n : 1);
  }
  return malloc(n ? n : 1);
}
static void sim_del(void* p) { if (!p) return; if (in_region((uintptr_t)p)) arena_free(p); else free(p); }
void* operator new(size_t n) { void* p = sim_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = sim_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n); }
void operator delete(void* p) noexcept { sim_del(p); }
void operator delete[](void* p) noexcept { sim_del(p); }
void operator delete(void* p, size_t) noexcept { sim_del(p); }
void operator delete[](void* p, size_t) noexcept { sim_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_del(p); }
