#include <bits/stdc++.h>
#include "sems.h"
#include "sutcall.h"
OpResult call_sem(SemIf* s, int form, const TimeArg& t) { return sut_call([&] { return s->op(form, t) ? O_TRUE : O_FALSE; }); }
OpResult call_sem_release(SemIf* s, int64_t n, bool d) { return sut_call([&] { if (d) s->release1(); else s->release(n); return O_TRUE; }); }
OpResult call_sem_destroy(SemIf* s) { return sut_call([&] { s->destroy(); return O_TRUE; }); }
SemIf* call_sem_make(const SemType* t, int64_t d, OpResult& r) { SemIf* p = nullptr; r = sut_call([&] { p = t->make(d); return O_TRUE; }); return p; }
OpResult call_latch(LatchIf* l, int op, int64_t n) { return sut_call([&] { return l->op(op, n) ? O_TRUE : O_FALSE; }); }
OpResult call_latch_destroy(LatchIf* l) { return sut_call([&] { l->destroy(); return O_TRUE; }); }
OpResult call_barrier(BarrierIf* b, int op, int64_t n, int& token) {
  return sut_call([&] { switch (op) { case BO_ARRIVE: token = b->arrive(n < 0 ? 1 : n, n < 0); break; case BO_WAIT: b->wait(token); break; case BO_AAW: b->arrive_and_wait(); break; default: b->arrive_and_drop(); } return O_TRUE; });
}
BarrierIf* call_barrier_make(const BarrierType* t, int64_t n, OpResult& r) { BarrierIf* p = nullptr; r = sut_call([&] { p = t->make(n); return O_TRUE; }); return p; }
OpResult call_barrier_destroy(BarrierIf* b) { return sut_call([&] { b->destroy(); return O_TRUE; }); }
bool call_barrier_age(BarrierIf* b, int left) { bool v = false; sut_call([&] { v = b->make_old(left); return O_TRUE; }); return v; }
