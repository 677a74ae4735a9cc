// Mutex wrappers that report every acquisition and release to a family and can fail on demand.
#pragma once
#include "locks.h"
enum { WK_LOCK, WK_TRY, WK_TIMED, WK_UNLOCK };
struct WrapHooks {
  bool (*before)(int id, int kind, bool shared);   // true: throw instead of doing it
  void (*after)(int id, int kind, bool shared, bool ok);
  bool (*release)(int id, bool shared);            // false: not owned, skip the call
};
extern WrapHooks g_wrap;
bool wrap_before(int id, int kind, bool shared);
void wrap_after(int id, int kind, bool shared, bool ok);
bool wrap_release(int id, bool shared);

// shared_lock over NM wrapped mutexes
enum { LK_DEFAULT, LK_LOCK, LK_DEFER, LK_TRY, LK_ADOPT, LK_UNTIL, LK_FOR, LK_MOVE, // construction forms
       LK_ASSIGN, LK_SWAP, LK_STDSWAP, LK_OPLOCK, LK_OPTRY, LK_OPFOR, LK_OPUNTIL, LK_UNLOCK, LK_RELEASE, LK_DESTROY, LK_NOPS };
struct ShlState { int mutex; bool owns, asbool; };   // mutex -1: none, -2: unknown pointer
struct ShlIf {   // one thread's set of shared_lock slots
  virtual bool op(int op, int slot, int other, int m, const TimeArg& t) = 0;
  virtual ShlState state(int slot) = 0;
  virtual void destroy_all() = 0;
};
struct ShlMutexes { virtual ShlIf* make_thread() = 0; virtual void lock(int m) = 0; virtual bool try_lock(int m) = 0; virtual void unlock(int m) = 0; virtual void lock_shared(int m) = 0; virtual void unlock_shared(int m) = 0; virtual void destroy() = 0; };
struct ShlType { const char* name; int caps; ShlMutexes* (*make)(); };
static const int SHL_NM = 3, SHL_NS = 3;
void add_shl_types(const ShlType* t, int n);

// scoped_lock over any of seven wrapped mutexes: one thread's stack of scoped_locks
static const int SC_NM = 7, SC_DEPTH = 3;
struct ScopedStack { virtual void enter(const int* ids, int n, bool adopt) = 0; virtual void leave() = 0; };   // leave: newest first
struct ScopedIf { virtual ScopedStack* make_thread() = 0; virtual bool try_one(int id) = 0; virtual void lock_one(int id) = 0; virtual void unlock_one(int id) = 0; virtual void destroy() = 0; };
ScopedIf* scoped_make(const char* kinds);            // one letter per mutex: kind, upper bits of the position give the C++ type
extern const char scoped_kinds[];
bool scoped_recursive(char kind);
