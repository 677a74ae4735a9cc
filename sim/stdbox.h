// Two bounded boxes of numbers, guarded by two locks of one type, used through the standard library's wrappers only.
#pragma once
#include "locks.h"
enum { BX_PUT, BX_PUT_TRY, BX_PUT_DEFER, BX_PUT_FOR, BX_GET, BX_GET_FOR, BX_GET_UNTIL, BX_GET_TRY, BX_MOVE, BX_MOVE_TRY, BX_MOVE_SCOPED, BX_READ, BX_READ_Y, BX_READ_WAIT, BX_SWAP, BX_MOVE_NEST /* box 0, then box 1 */, BX_MOVE_BACK /* box 1, then try box 0 */, BX_MOVE_BACKFOR, BX_NOPS };
enum { PH_NONE, PH_ACQ, PH_OWN, PH_CV, PH_N0, PH_N1 };                 // where a thread is: acquiring, in the critical section, waiting for its condition, owning box 0 and asking for box 1, or the reverse
struct BoxRes { bool ok; int64_t v; bool consistent; };
struct BoxIf {
  virtual BoxRes op(int tid, int op, int box, int64_t v, const TimeArg& t) = 0;
  virtual void close() = 0;
  virtual int count(int box) = 0;                       // not synchronised: only at quiescence
  virtual bool cond(int tid) = 0;                       // would the condition the thread waits for be true now? likewise
  virtual void destroy() = 0;
};
static const int BX_MT = 8, BX_CAP = 3;
extern volatile int bx_phase[BX_MT], bx_box[BX_MT];
BoxIf* call_box_make(const LockType* t, int cap, OpResult& r);
OpResult call_box(BoxIf* b, int tid, int op, int box, int64_t v, const TimeArg& t, BoxRes& res);
OpResult call_box_close(BoxIf* b);
OpResult call_box_destroy(BoxIf* b);
