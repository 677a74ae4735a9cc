// instrumented helpers
#include "sut_lock.h"
#include "rt.h"
#include "sutcall.h"
Guarded* guarded_make() { sim::Sut s; Guarded* g = new Guarded; g->a = 0; g->b = 0; sim::disown(g); return g; }
void guarded_write(Guarded* g, int64_t v) { sim::Sut s; g->a = v; g->b = g->b + 1; }
int64_t guarded_read(Guarded* g) { sim::Sut s; return g->a + g->b; }
OpResult call_op(LockIf* l, int form, const TimeArg& t) { return sut_call([&] { return l->op(form, t) ? O_TRUE : O_FALSE; }); }
OpResult call_unlock(LockIf* l, bool sh, bool nat) { return sut_call([&] { if (nat) l->nunlock(sh); else l->unlock(sh); return O_TRUE; }); }
OpResult call_destroy(LockIf* l) { return sut_call([&] { l->destroy(); return O_TRUE; }); }
LockIf* call_make(const LockType* t, OpResult& r) { LockIf* p = nullptr; r = sut_call([&] { p = t->make(); return O_TRUE; }); return p; }
