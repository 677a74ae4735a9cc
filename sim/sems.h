// Semaphores, latches, barriers: adapter interfaces.
#pragma once
#include "locks.h"
enum SemForm { SA, SY, SFR, SU_ };   // acquire, try_acquire, try_acquire_for, try_acquire_until
struct SemIf {
  virtual bool op(int form, const TimeArg& t) = 0;
  virtual void release(int64_t n) = 0;
  virtual void release1() = 0;
  virtual void destroy() = 0;
};
struct SemType { const char* name; int caps; int64_t max; SemIf* (*make)(int64_t desired); };
void add_sem_types(const SemType* t, int n);
OpResult call_sem(SemIf* s, int form, const TimeArg& t);
OpResult call_sem_release(SemIf* s, int64_t n, bool deflt);
OpResult call_sem_destroy(SemIf* s);
SemIf* call_sem_make(const SemType* t, int64_t desired, OpResult& r);

enum { LO_COUNT, LO_COUNT1, LO_WAIT, LO_TRY, LO_AAW, LO_AAW1 };
struct LatchIf { virtual bool op(int op, int64_t n) = 0; virtual void destroy() = 0; };
LatchIf* call_latch_make(int64_t n, OpResult& r);
OpResult call_latch(LatchIf* l, int op, int64_t n);
OpResult call_latch_destroy(LatchIf* l);

struct BarrierIf {
  virtual int arrive(int64_t n, bool deflt) = 0;     // returns a token slot
  virtual void wait(int token) = 0;
  virtual void arrive_and_wait() = 0;
  virtual void arrive_and_drop() = 0;
  virtual bool make_old(int phases_left) = 0;
  virtual void destroy() = 0;
};
struct BarrierType { const char* name; BarrierIf* (*make)(int64_t expected); };
void add_barrier_types(const BarrierType* t, int n);
void barrier_completion();                            // called by the completion function (uninstrumented)
enum { BO_ARRIVE, BO_WAIT, BO_AAW, BO_DROP };
BarrierIf* call_barrier_make(const BarrierType* t, int64_t n, OpResult& r);
OpResult call_barrier(BarrierIf* b, int op, int64_t n, int& token);
OpResult call_barrier_destroy(BarrierIf* b);
bool call_barrier_age(BarrierIf* b, int left);
