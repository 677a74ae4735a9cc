// Deterministic simulator for shared-memory concurrent code: fibers, virtual time, seeded scheduler,
// weak-memory store histories, happens-before race detector, fault injection, replay.
// Everything the code under test (SUT) can use to be nondeterministic arrives here:
//   - atomics and plain accesses through the __tsan_* hooks the compiler emits,
//   - pthread_* / sem_* / clock / sleep / yield / futex calls through symbol interposition,
//   - memory through operator new/delete.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>

namespace sim {

typedef int64_t ns_t;
static const int MAXF = 324;           // fibers (0 = run body)
static const int NARROW = 100;         // fibers in a run whose configuration is not wide
static const ns_t NEVER = INT64_MAX;

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
  bool permille(int p) { return p > 0 && (int)below(1000) < p; }
  bool oneof(int n) { return below(n) == 0; }
};
uint64_t mix64(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- faults
enum FaultKind {
  F_SPURIOUS,  // condition wait returns without notification
  F_SIGPICK,   // notify_one wakes an arbitrary waiter instead of the oldest
  F_WEAKCAS,   // compare_exchange_weak fails spuriously
  F_STALE,     // a non-seq_cst load reads an older, still permitted store
  F_LEAP,      // thread (machine) is suspended: monotonic time leaps forward
  F_SYSJUMP,   // system clock is set (forwards or backwards)
  F_EINTR,     // interruptible wait returns EINTR
  F_ALLOC,     // operator new throws bad_alloc
  F_EARLY,     // OS wait returns "timeout" earlier than asked (Windows)
  F_API,       // OS call fails / out of resources
  F_STALL,     // one thread is not scheduled for a while
  F_THROW,     // user-supplied mutex operation throws
  NFAULT
};
extern const char* const fault_names[NFAULT];

// ---------------------------------------------------------------- run configuration (part of a replay file)
struct RunCfg {
  int64_t seed = 1;
  int64_t strat = 0;     // 0 cooperative, 1 random walk, 2 PCT, 3 sticky random, 4 round robin
  int64_t psw = 100;     // preemption probability per point (permille) for 1,3
  int64_t pctd = 3;      // PCT change points
  int64_t horizon = 400; // PCT horizon (points)
  int64_t tick = 10;     // virtual ns per point
  int64_t chaos = 4000;  // points of adversarial phase
  int64_t finish = 300000; // points of fair, fault free finish phase
  int64_t sysoff = 0;    // realtime = monotonic + sysoff at start
  int64_t race = 0;      // race detector on
  int64_t plain = 0;     // permille: preemption points at plain accesses
  int64_t coop = 0;      // 1: one processor, no preemption, also after the faults stop: threads switch only at yields and waits
  int64_t maxrd = 0;     // pthread_rwlock: number of read locks from which on EAGAIN is returned, 0 none
  int64_t wide = 0;      // 1: up to MAXF fibers, otherwise NARROW (vector clocks are copied in that width)
  int64_t wintick = 15625000; // simulated Windows: system clock tick
  int64_t reuse = 0;     // freed memory is handed out again (last freed first); use after free is not seen then
  int64_t rwpref = 0;    // simulated pthread_rwlock: 0 reader preference, 1 writer preference
  int64_t rate[NFAULT] = {0};
  int64_t cap[NFAULT] = {0};
};

// ---------------------------------------------------------------- violation classes
enum Cls {
  V_NONE, V_EXCL, V_RWEXCL, V_RACE, V_HANG, V_STUCK, V_BLOCKNB, V_TRYFALSE, V_EARLY, V_LATE, V_FIFO, V_POLICY,
  V_MISUSE, V_FALSEREPORT, V_MISSEDDL, V_FALSEDL, V_RESIDUE, V_TOKENS, V_LATCH, V_BARRIER, V_OWN, V_UAD,
  V_CRASH, V_EXC, V_YIELD, V_NATIVE, V_RECUR, V_SHARE, V_LEAK, V_LIMIT, NCLS
};
extern const char* const cls_names[NCLS];

enum PointKind { P_ATOMIC, P_MUTEX, P_COND, P_RWLOCK, P_SPIN, P_SEM, P_ONCE, P_CLOCK, P_YIELD, P_SLEEP, P_PLAIN, P_BODY, P_ALLOC, P_WIN, P_FUTEX, NPOINT };

enum WaitKind { W_NONE, W_MUTEX, W_COND, W_RWLOCK, W_SPIN, W_SEM, W_ONCE, W_SLEEP, W_JOIN, W_OS, W_FUTEX };
enum FState { FS_FREE, FS_RUN, FS_BLOCKED, FS_DONE };

struct FiberInfo { FState st; WaitKind wk; const void* obj; ns_t deadline; int clock; };

// ---------------------------------------------------------------- result of a run
struct Result {
  Cls cls = V_NONE;
  char msg[1024];
  uint64_t hash = 0, path_hash = 0;
  uint64_t steps = 0, switches = 0;
  ns_t simtime = 0;
  uint32_t fired[NFAULT];
  uint32_t other[NCLS];   // anomalies of classes this check does not count
  char othermsg[256];
  uint32_t ndecisions = 0;
  uint32_t probes[32];
  bool contended = false;
};

// Run `body` (on fiber 0) under cfg. counted: mask of classes that end the run.
struct Decision { uint32_t idx, val; };
void rt_init();                       // once per process image (before fork)
void rt_worker_init();                // once per process that runs simulations
void run_sim(const RunCfg& cfg, uint64_t counted, const std::vector<Decision>* replay, bool trace,
             void (*body)(void*), void* arg, void (*on_quiesce)(void*), Result& out);
void last_decisions(std::vector<Decision>& out);

// ---------------------------------------------------------------- used by families (inside a run)
int  spawn(void (*fn)(void*), void* arg);     // from fiber 0
void join_all();                              // fiber 0 waits for every spawned fiber
void join_fiber(int id);
int  cur();
ns_t now();
ns_t sysnow();
uint64_t step();
uint64_t seq();                               // fresh event sequence number
void point(PointKind k, const void* addr);
void sleep_until(ns_t t);
void pin(int fid, bool on);   // a thread that is not scheduled while another one can run (until it is unpinned or faults stop)
void ev_wait(void* o); void ev_wake(void* o);                        // harness events: wait until somebody calls ev_wake(o), possibly longer than needed or not at all: loop
bool sleep_os(ns_t deadline);                 // used by stubs
bool in_chaos();
bool fault(FaultKind k);
uint32_t decide(uint32_t n, uint32_t suggestion);
Rng& rng();                                   // run PRNG: only to produce suggestions
[[gnu::format(printf, 2, 3)]] void fail(Cls c, const char* fmt, ...);
[[gnu::format(printf, 1, 2)]] void trace(const char* fmt, ...);
bool tracing();
void probe(int i);
void mark_contended();
FiberInfo info(int id);
uint64_t first_park(int id);                  // seq of first wait on a condition (or OS object) since op_begin, 0 if none
bool is_blocked(int id);
ns_t first_park_time(int id);                 // virtual time of that first wait, 0 if none
ns_t last_park_time(int id);
void op_begin(bool nonblocking);              // resets park bookkeeping and own-step counter of current fiber
uint64_t own_steps(int id);
// atomic operations of the current fiber between two yields: more than limit is V_YIELD; at each yield cb gets their number and returns the next limit
void yield_watch(uint64_t limit, uint64_t (*cb)(uint64_t));
void yield_now();
void stop_faults();                           // enter the fault free phase now
uint32_t fired(FaultKind k);
uint32_t api_hits();                          // OS call failures injected into the current fiber since its op_begin
void count_fault(FaultKind k);                // a deviation the platform model produced by itself
ns_t cfg_wintick(); ns_t cfg_winphase(); bool cfg_rwpref();
ns_t max_sys();                               // largest value the system clock had since op_begin of the current fiber
bool sys_jumped_back();
void set_alloc_faults(bool on);               // for the current fiber
void count_point(int kind);
void use_region(const void* p, size_t n, bool write); // uninstrumented code touching SUT memory

// SUT code runs between enter and leave (hooks, arena and faults are active only there).
struct Sut {
  int saved;
  Sut();
  ~Sut();
};
// blocking core for stubs
bool block(WaitKind wk, const void* obj, int clock, ns_t deadline); // false: timed out
void wake_all(const void* obj);
int  wake_some(const void* obj, int n);
int  waiters(const void* obj);
void hb_release(const void* obj);
void hb_acquire(const void* obj);
ns_t clock_now(int clock);
ns_t clock_next(int clock);                     // inside on_quiesce: the clock at the instant at which the next timer ends the quiet
bool sim_active();      // inside a run and in SUT code
bool addr_ok(const void* p, const char* what);
void* arena_alloc(size_t n);
// what the code under test holds: blocks of memory it allocated, operating system objects it initialised
struct Usage { uint64_t blocks, bytes; int os; const char* oskind; };
Usage usage();
void disown(void* p);   // a block that is not the code under test's
bool failed();
void os_open(const void* p, const char* kind);
void os_close(const void* p);
void arena_free(void* p);
int  live_threads();
}
