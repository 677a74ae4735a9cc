#pragma once
#include <string.h>
#include <new>
#include <system_error>
#include "locks.h"
#include "rt.h"
template <class F> OpResult sut_call(F f) {
  OpResult r; r.code = 0; r.what[0] = 0; r.out = O_OTHER;
  sim::Sut s;
  try { r.out = f(); }
  catch (std::system_error& e) {
    r.code = e.code().value();
    r.out = e.code() == std::errc::resource_deadlock_would_occur ? O_DEADLOCK : e.code() == std::errc::operation_not_permitted ? O_PERM : O_SYSERR;
    strncpy(r.what, e.what(), sizeof r.what - 1); r.what[sizeof r.what - 1] = 0;
  }
  catch (std::bad_alloc&) { r.out = O_BADALLOC; strcpy(r.what, "bad_alloc"); }
  catch (std::exception& e) { r.out = O_OTHER; strncpy(r.what, e.what(), sizeof r.what - 1); r.what[sizeof r.what - 1] = 0; }
  catch (...) { r.out = O_OTHER; strcpy(r.what, "unknown exception"); }
  return r;
}
