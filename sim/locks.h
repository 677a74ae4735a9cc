// Adapter interface between the (uninstrumented) families and the (instrumented) code under test.
#pragma once
#include <stdint.h>
enum Form { XL, XT, XF, XU, SL, ST, SF, SU, NFORM };
enum { CAP_TIMED = 1, CAP_SHARED = 2, CAP_REC = 4, CAP_FAIR = 8, CAP_CHECKED = 16, CAP_SPIN = 32, CAP_NATIVE = 64,
       CAP_SYSFOR = 128 /* relative time-outs run on the system clock */, CAP_TRYWEAK = 256, CAP_WIN = 512, CAP_APPLE = 1024,
       CAP_NOTRY = 2048, CAP_BUSY = 4096, CAP_ABORT = 8192, CAP_NODETECT = 16384,
       CAP_NATH = 32768 /* has native_handle() */, CAP_VERBOSE = 65536, CAP_CLANG = 131072 /* other compiler, NDEBUG */, CAP_VARIANT = CAP_ABORT | CAP_NODETECT | CAP_VERBOSE | CAP_CLANG /* not the default configuration */ };
enum { VIA_NATIVE = 16 };   // added to a form: by the platform's own function on native_handle()
enum Policy { POL_NONE, POL_FIFO, POL_RP, POL_WP, POL_TASK, POL_PHASE };
struct TimeArg { int unit; int clk; int64_t ns; };   // FOR: duration ns; UNTIL: absolute deadline (ns) on the clock
enum { UN_NS, UN_US, UN_MS, UN_DBL, UN_SEC, UN_HOUR, UN_128 /* 1/128 s */, UN_I32 /* microseconds in an int */, NUNIT };
inline int64_t unit_quantum(int u) { switch (u) { case UN_US: case UN_I32: return 1000; case UN_MS: return 1000000; case UN_SEC: return 1000000000; case UN_HOUR: return 3600000000000ll; case UN_128: return 7812500; default: return 1; } }
inline int64_t unit_floor(int u, int64_t d) { int64_t q = unit_quantum(u), k = d / q; if (d % q && d < 0) k--; return k * q; }
// the duration nearest to d that the unit can express
inline int64_t unit_round(int u, int64_t d) { if (u == UN_I32) { if (d > 2147483647000ll) d = 2147483647000ll; if (d < -2147483647000ll) d = -2147483647000ll; } int64_t q = unit_quantum(u); return d / q * q; }
inline bool until_unit(int u) { return u == UN_MS || u == UN_SEC; }     // units of the time points passed to "until" forms
enum { CK_STEADY, CK_SYSTEM, CK_USER, NCK };
static const int64_t USER_CLOCK_OFFSET = 5000000000ll;
struct LockIf {
  virtual bool op(int form, const TimeArg& t) = 0;
  virtual void unlock(bool shared) = 0;
  virtual void nunlock(bool shared) = 0;
  virtual void destroy() = 0;
  virtual void destruct() = 0;   // runs the destructor, keeps the memory
};
struct LockType { const char* name; int caps; Policy pol; LockIf* (*make)(); };
struct Guarded { int64_t a, b; };                     // data protected by the lock, accessed by instrumented code
Guarded* guarded_make();
void guarded_write(Guarded*, int64_t v);
int64_t guarded_read(Guarded*);
const LockType* lock_types(int& n);                   // all linked types
void add_lock_types(const LockType* t, int n);
// what an operation of the code under test ended with
enum Out { O_FALSE, O_TRUE, O_DEADLOCK, O_PERM, O_BADALLOC, O_SYSERR, O_OTHER };
struct OpResult { Out out; int code; char what[96]; };
OpResult call_op(LockIf* l, int form, const TimeArg& t);      // inside a Sut scope, catches everything
OpResult call_unlock(LockIf* l, bool shared, bool native = false);
OpResult call_destroy(LockIf* l);
LockIf* call_make(const LockType* t, OpResult& r);
