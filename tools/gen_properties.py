#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
I = "include/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],
        state=[dict(name=a, meaning=b, where=I+c) for a,b,c in state],
        mechanism=[dict(name=a, where=I+b) for a,b in mech],
        observe_at=list(observe), hook_needed=hook)))

SPIN=["naive_spin_mutex.hpp","ttas_spin_mutex.hpp"]
EXCL=SPIN+["alternate_mutex.hpp","fair_mutex.hpp","checked_mutex.hpp","posix_native_mutex.hpp"]
SHARED=["alternate_shared_mutex.hpp","fair_shared_mutex.hpp","checked_shared_mutex.hpp","posix_native_mutex.hpp"]
PLAT=["win_native_mutex.hpp","apple_native_mutex.hpp"]

prop("C01","At most one thread owns an exclusive lock",
 "For every mutex type of the library (spin, spin_weak, spin_ttas, alternate, fair, checked and the native wrappers, recursive, timed and shared ones included), from the moment any acquiring call of one thread reports success until that thread starts its matching release, no other thread's exclusive acquisition of the same object reports success. This holds whichever mix of lock, try_lock and timed acquisition is used and however threads are delayed, woken spuriously or timed out.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of any number of threads mixing lock/try_lock/try_lock_for/try_lock_until/unlock, with spurious wake-ups, timer races and arbitrary stalls",
 "The tests run a few threads on free-running schedules and compare a counter; an overlap that needs one specific preemption between two instructions of lock() and unlock() is practically never produced.",
 EXCL+SHARED+PLAT,
 [("atomic compare-exchange on state_","naive_spin_mutex.hpp"),("predicate re-checked under internal mutex","alternate_mutex.hpp"),("ticket / wait-queue head","fair_mutex.hpp"),("owner_ under internal mutex","checked_mutex.hpp")],
 [("state_","lock word of the spinlocks","naive_spin_mutex.hpp"),("next_/curr_/queue_","who is served","fair_mutex.hpp")],
 ["return of lock/try_lock*/lock_shared*, invocation of unlock*"])

prop("C02","Writers exclude readers and writers; readers share",
 "For every shared mutex type and policy, while a thread holds the exclusive lock no other thread holds a shared lock, and while any thread holds a shared lock nobody holds the exclusive lock. Any number of threads can hold the shared lock at once: a shared request is never made to wait merely because other threads hold shared locks.",
 ["schedules","histories","fault_sequences","configurations"],
 "every interleaving of readers and writers using blocking, try and timed forms, under each policy (ReaderPrefer, WriterPrefer, TaskFairness, PhaseFairness, native)",
 "Tests fix one reader/writer choreography with 200 ms steps; the property quantifies over all overlaps, including time-outs and wake-ups inside the hand-over.",
 SHARED+["yamc_rwlock_sched.hpp","win_native_mutex.hpp"],
 [("RwLockPolicy::wait_wlock/wait_rlock","yamc_rwlock_sched.hpp"),("locked_ node and its reader count","fair_shared_mutex.hpp")],
 [("rwcount / nwriter,nreader","holders and waiting writers","yamc_rwlock_sched.hpp")],
 ["return of lock*/lock_shared*, invocation of unlock*/unlock_shared"])

prop("C03","Releasing synchronises with the next acquisition; no data races",
 "Whatever a thread wrote before it released a lock, counted down or released a semaphore, or arrived at a latch or barrier is visible, without a data race, to the thread whose acquisition or wait that release let through, under the C++ memory model and not only on strongly ordered hardware. The library's own code has no data race on its objects when it is used correctly by any number of threads.",
 ["schedules","histories"],
 "every interleaving and every execution allowed by the C++ memory model (stale relaxed reads included), for locks, shared locks, semaphores, latch and barrier",
 "The tests run on x86, where a missing acquire or release is invisible, and a race is not an assertion failure.",
 EXCL+SHARED+["yamc_semaphore.hpp","yamc_latch.hpp","yamc_barrier.hpp","yamc_lock_validator.hpp"],
 [("memory orders of the lock word","naive_spin_mutex.hpp"),("memory orders of the lock word","ttas_spin_mutex.hpp"),("internal mutex around every state change","alternate_mutex.hpp")],
 (),["user data accessed inside critical sections","all memory accesses made by the library's code"])

prop("C04","A free lock is always handed to some waiter (no lost wake-up)",
 "Whenever a lock has become available to threads blocked in it (released, downgraded by a reader leaving, or freed of a competing waiter that timed out or failed), some blocked thread that may own it acquires it without any further operation on the object: no call stays blocked forever on an available lock. Every blocking acquisition returns once all conflicting owners have released and stopped competing.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of blocking, timed and try operations with time-outs and spurious wake-ups at any point; once owners release, progress within a bounded number of scheduler steps",
 "A lost wake-up shows as a hang in one interleaving in thousands; the tests only run a handful of choreographed hand-overs.",
 EXCL+SHARED+PLAT+["yamc_rwlock_sched.hpp"],
 [("notify in unlock under the internal mutex","alternate_mutex.hpp"),("notify_all after popping the queue","fair_mutex.hpp"),("marking shared nodes lockable on release and on writer time-out","fair_shared_mutex.hpp"),("notify on release and on failed timed writer","alternate_shared_mutex.hpp")],
 (),["state in which every thread is blocked or asleep"])

prop("C05","Recursive mutexes: owner re-enters, n locks need n unlocks",
 "For every recursive mutex type the owning thread can acquire again by any form (lock, try_lock, timed) immediately and successfully at any depth, other threads stay excluded until it has released as often as it acquired, and after the last release another thread can acquire. Ownership belongs to the thread, never to a thread that merely had it before.",
 ["schedules","histories","inputs"],
 "every nesting depth and mix of acquisition forms by the owner against any interleaving of other threads",
 "Tests nest to depth 3 with one competitor; depth, acquisition mix and the ownership hand-over race are not explored.",
 ["alternate_mutex.hpp","fair_mutex.hpp","checked_mutex.hpp","posix_native_mutex.hpp","win_native_mutex.hpp"],
 [("owner_/ncount_ check before waiting","fair_mutex.hpp"),("relaxed owner_ check outside the lock","alternate_mutex.hpp")],
 [("owner_, ncount_","owning thread and depth","alternate_mutex.hpp")],["return values of nested acquisitions"])

prop("C06","try_lock never blocks, tells the truth and leaves no trace",
 "try_lock and try_lock_shared (and a timed form whose deadline has already passed) return without waiting for another owner; true means the caller now owns the lock and false means it does not and that the object is as if the call had not been made. Except for the spinlocks, whose try_lock may fail spuriously, they do not fail while no other thread holds, is acquiring or is waiting for the lock in a conflicting mode.",
 ["schedules","histories"],
 "every interleaving of try operations with owners, waiters and time-outs on all mutex types",
 "Tests call try_lock in settled states only; the answers during hand-over and the effect of failed tries on later operations are not observed.",
 EXCL+SHARED+PLAT,
 [("try_lock under internal mutex","alternate_mutex.hpp"),("impl_try_lock / impl_try_lock_shared queue tests","fair_shared_mutex.hpp"),("RwLockPolicy::wait_* test","checked_shared_mutex.hpp")],
 (),["return value of try_lock/try_lock_shared","state of the object after all threads released"])

prop("C07","Timed acquisition: never early, never late, never both",
 "A timed lock operation returns false only after its deadline has passed on the clock the caller named (the steady clock for the relative forms; the system clock for the POSIX native wrappers) and returns true exactly when the caller owns the lock; spurious wake-ups, repeated contention and jumps of an unrelated clock neither shorten nor lengthen the wait. A call that gives up leaves no trace: later operations of any thread behave as if it had never been made.",
 ["schedules","fault_sequences","inputs","histories"],
 "every race between release and expiry, every spurious wake-up, system-clock jumps, zero, negative and far deadlines, steady, system and user clocks, relative and absolute forms",
 "Tests wait 300 ms against an owner that never releases, or 3 minutes against one that does; expiry racing with release, wake-ups before the deadline and clock changes cannot be arranged in real time.",
 ["alternate_mutex.hpp","alternate_shared_mutex.hpp","fair_mutex.hpp","fair_shared_mutex.hpp","checked_mutex.hpp","checked_shared_mutex.hpp","posix_native_mutex.hpp","win_native_mutex.hpp"],
 [("do_try_lockwait: wait_until in a predicate loop with re-check","alternate_mutex.hpp"),("impl_try_lockwait: unlinking the waiter on time-out","fair_mutex.hpp"),("deadline computed once from the steady clock","fair_shared_mutex.hpp")],
 (),["return value and simulated clock at return of try_lock_for/until and shared forms"])

prop("C08","Fair exclusive mutexes serve waiters in arrival order",
 "For every fair exclusive mutex (plain, recursive, timed, recursive timed) a thread that is already waiting when another thread makes its request acquires before that later thread, whichever acquisition forms they use; a later try_lock never succeeds past a waiting thread. A waiter that times out only removes itself: the order of the others is unchanged.",
 ["schedules","histories","fault_sequences"],
 "every set of waiters, wake-up order, spurious wake-up and time-out position in the queue",
 "Tests stage one fixed four-thread queue with one time-out.",
 ["fair_mutex.hpp"],
 [("ticket counters next_/curr_","fair_mutex.hpp"),("intrusive wait queue wq_*","fair_mutex.hpp")],
 [("queue_","arrival order of waiters","fair_mutex.hpp")],["order of returns of acquisitions relative to arrival"])

prop("C09","Task-fair shared mutex: FIFO between readers and writers",
 "For the fair shared mutexes with TaskFairness, a waiting request is never overtaken by a conflicting request made later, and only directly neighbouring shared requests are granted together. When a waiting request times out the rest keep their order, and shared requests that thereby become adjacent to the current readers are admitted at once.",
 ["schedules","histories","fault_sequences"],
 "every arrival sequence of exclusive and shared requests (blocking, try, timed), release order, time-out position and spurious wake-up",
 "Tests stage two fixed arrival sequences; queue surgery on time-out and release has far more cases.",
 ["fair_shared_mutex.hpp"],
 [("impl_unlock: marks the directly following shared group","fair_shared_mutex.hpp"),("impl_try_lockwait: admits the group behind a timed-out writer","fair_shared_mutex.hpp")],
 [("queue_, locked_, node.status","wait queue and lockable marks","fair_shared_mutex.hpp")],["set of owners after every step in which all threads are blocked"])

prop("C10","Phase-fair shared mutex: phases alternate, nobody starves",
 "For the fair shared mutexes with PhaseFairness (the default), releasing an exclusive lock when a shared request is next in line admits all shared requests then waiting together, otherwise the next exclusive request alone; shared requests arriving while a writer waits do not join the running shared phase. Writers are served in arrival order among themselves and a waiting writer is bypassed only by shared requests admitted in such a phase switch.",
 ["schedules","histories","fault_sequences"],
 "every arrival sequence of exclusive and shared requests (blocking, try, timed), release order, time-out position and spurious wake-up",
 "Tests stage two fixed arrival sequences.",
 ["fair_shared_mutex.hpp"],
 [("impl_unlock: moves all shared nodes to the front when phase switches","fair_shared_mutex.hpp"),("wq_shared_lockable: newcomers queue behind a writer","fair_shared_mutex.hpp")],
 [("queue_, locked_, node.status","wait queue and lockable marks","fair_shared_mutex.hpp")],["set of owners after every step in which all threads are blocked"])

prop("C11","ReaderPrefer: readers are admitted whenever no writer owns",
 "Under ReaderPrefer (the default policy of the alternate and checked shared mutexes) a shared request is granted whenever no thread holds the exclusive lock, regardless of waiting writers, and a writer is admitted only once all shared locks are released. When the last reader leaves, a waiting writer acquires.",
 ["schedules","histories","fault_sequences"],
 "every arrival and release order of readers and writers, timed and untimed, try and blocking",
 "Tests use one two-reader-one-writer choreography.",
 ["yamc_rwlock_sched.hpp","alternate_shared_mutex.hpp","checked_shared_mutex.hpp"],
 [("ReaderPrefer::wait_rlock/wait_wlock/release_rlock","yamc_rwlock_sched.hpp")],
 [("rwcount","writer bit and reader count","yamc_rwlock_sched.hpp")],["set of owners and waiters when all threads are blocked"])

prop("C12","WriterPrefer: waiting writers hold back new readers, and only then",
 "Under WriterPrefer, while a writer is waiting, shared requests made later wait until that writer has acquired and released or has given up, and when the lock becomes free a waiting writer gets it before any waiting reader. As soon as no writer owns or waits, all waiting readers are admitted, also when the last waiting writer left by time-out or by an exception.",
 ["schedules","histories","fault_sequences"],
 "every arrival and release order of readers and writers, timed and untimed, try and blocking, including writers that time out or fail",
 "Tests use one choreography in which no writer gives up.",
 ["yamc_rwlock_sched.hpp","alternate_shared_mutex.hpp","checked_shared_mutex.hpp"],
 [("WriterPrefer::before_wait_wlock/after_wait_wlock","yamc_rwlock_sched.hpp"),("do_try_lockwait time-out path","alternate_shared_mutex.hpp")],
 [("nwriter","owner bit and number of waiting writers","yamc_rwlock_sched.hpp")],["set of owners and waiters when all threads are blocked"])

prop("C13","Checked mutexes report every misuse and never a correct use",
 "On every checked mutex type, releasing a lock the calling thread does not own, acquiring again by any form a non-recursive or shared one the caller already owns, and destroying an object that any thread owns are each reported (a system_error, or abort when so configured), every time and whatever other threads are doing. A reported misuse changes nothing for the object and its real owners, and operations used correctly are never reported as misuse.",
 ["schedules","histories","configurations"],
 "every misuse operation at every point of every interleaving of correct users, in throwing and aborting configuration, with and without deadlock detection",
 "Tests perform each misuse once in a settled state.",
 ["checked_mutex.hpp","checked_shared_mutex.hpp"],
 [("owner_ comparison before every operation","checked_mutex.hpp"),("e_owner_/s_owner_ lookup","checked_shared_mutex.hpp"),("dtor_precondition","checked_mutex.hpp")],
 [("owner_, e_owner_, s_owner_","recorded owners","checked_shared_mutex.hpp")],["exceptions/abort of each operation, later behaviour of the object"])

prop("C14","Deadlock detection: every lock cycle is reported, nobody hangs",
 "When threads block in lock() or lock_shared() of checked mutexes so that they wait for each other in a cycle of any length over any mix of checked mutex types, the request that closes the cycle is reported instead of blocking, however the lock requests, releases, failed attempts and wake-ups interleave. If the threads that get a report back off, all threads finish.",
 ["schedules","histories","programs"],
 "every program of lock/lock_shared/try/timed/unlock over several checked mutexes and every interleaving, cycles of any length including repeated deadlocks after earlier reports",
 "Tests stage cycles of 2 to 4 threads in one order, once each, with 200 ms gaps; simultaneous requests, spurious wake-ups and histories with earlier reports are not reached.",
 ["yamc_lock_validator.hpp","checked_mutex.hpp","checked_shared_mutex.hpp"],
 [("global owner/waiter table and find_closepath","yamc_lock_validator.hpp"),("enqueue before every wait","checked_mutex.hpp")],
 [("mutexmap owners/waiters","wait-for graph","yamc_lock_validator.hpp")],["state in which every thread is blocked"])

prop("C15","Deadlock detection never cries wolf",
 "lock() or lock_shared() of a checked mutex reports a deadlock only if, at that moment, the caller's request really closes a cycle of threads each blocked in lock() or lock_shared() on a lock owned by the next; after a report has been handled, earlier failures, time-outs and wake-ups have left nothing behind that makes a later correct request fail or crash.",
 ["schedules","histories","programs"],
 "every program and interleaving over several checked mutexes, including histories with previously reported deadlocks and waiters that have been notified but not yet run",
 "Tests never continue after a report and have only a few non-deadlock scenarios.",
 ["yamc_lock_validator.hpp","checked_mutex.hpp","checked_shared_mutex.hpp"],
 [("enqueue/dequeue/locked/unlocked bookkeeping","yamc_lock_validator.hpp")],
 [("mutexmap owners/waiters","wait-for graph","yamc_lock_validator.hpp")],["error results of lock/lock_shared against the true wait-for graph"])

prop("C16","An operation that fails with an exception has no effect",
 "When an acquiring operation on a checked mutex leaves by exception (reported deadlock, or memory allocation failing anywhere inside the call), the calling thread does not own the lock, other threads can still acquire and release it in every mode, and the object can be used and destroyed normally. The same holds for releases: a release that is let in either takes effect or reports, and never leaves the lock stuck.",
 ["fault_sequences","schedules","histories"],
 "an allocation failure at any allocation inside any operation, and a deadlock report at any request, in every interleaving with other users",
 "The tests never fail an allocation and destroy everything right after a reported deadlock.",
 ["checked_mutex.hpp","checked_shared_mutex.hpp","yamc_lock_validator.hpp","yamc_rwlock_sched.hpp"],
 [("order of state change and table update in lock/try_lock/do_try_lockwait","checked_mutex.hpp"),("before_wait_wlock/after_wait_wlock pairing","checked_shared_mutex.hpp")],
 (),["ownership, later acquisitions and destruction after a failed call"])

prop("C17","Semaphores neither lose nor invent permits, and wake waiters",
 "For every semaphore (generic and native) the number of successful acquisitions never exceeds the initial count plus the permits released, every released permit can be acquired exactly once, and no thread stays blocked in an acquisition while a permit is available; release(n) lets up to n waiting threads through. try_acquire never blocks and, with a permit available to it and no competing acquirer, does not fail.",
 ["schedules","histories","inputs","fault_sequences"],
 "every interleaving of acquire, try_acquire, timed acquire and release(n) by any number of threads, any initial count and update value",
 "Tests use two or three threads in a fixed order and small counts.",
 ["yamc_semaphore.hpp","posix_semaphore.hpp","win_semaphore.hpp","gcd_semaphore.hpp"],
 [("counter_ under internal mutex, notify_all on release","yamc_semaphore.hpp"),("sem_post loop","posix_semaphore.hpp")],
 [("counter_","available permits","yamc_semaphore.hpp")],["returns of acquire/try_acquire*, invocations of release"])

prop("C18","Timed and interrupted semaphore acquisition is exact",
 "A timed acquisition returns false only after its deadline has passed on its clock (steady for the relative form of the generic semaphore, system for the POSIX one) without having consumed a permit, returns true only having consumed exactly one, and does not outlast its deadline; a wait that is interrupted by a signal or wakes spuriously goes on waiting instead of failing. Deadlines in the past, however far, act like try_acquire.",
 ["schedules","fault_sequences","inputs"],
 "every race of release with expiry, signal interruption at any wait, spurious wake-ups, system-clock jumps, any deadline",
 "Tests have one expiring and one non-expiring wait without signals or clock changes.",
 ["yamc_semaphore.hpp","posix_semaphore.hpp","win_semaphore.hpp","gcd_semaphore.hpp"],
 [("do_try_acquirewait","yamc_semaphore.hpp"),("sem_timedwait/sem_wait error handling","posix_semaphore.hpp"),("millisecond rounding","win_semaphore.hpp")],
 (),["result and simulated clock at return of try_acquire_for/until, exceptions of acquire"])

prop("C19","A latch opens exactly when its count reaches zero, for everyone",
 "No wait or arrive_and_wait returns, and no try_wait reports true, before the sum of count-downs has reached the initial count; once it has, every thread waiting and every later wait returns and try_wait reports true, permanently. Count-downs by several threads and of any size add up exactly.",
 ["schedules","histories","inputs"],
 "every interleaving of count_down(n), arrive_and_wait(n), wait and try_wait by any number of threads, any counts",
 "Tests use three threads counting down by one.",
 ["yamc_latch.hpp"],
 [("counter_ under internal mutex, notify_all at zero","yamc_latch.hpp")],
 [("counter_","remaining count","yamc_latch.hpp")],["returns of wait/try_wait/arrive_and_wait"])

prop("C20","Barrier phases: nobody leaves early, completion runs once, all leave",
 "In every phase of a barrier, no waiting thread is released until exactly the expected number of arrivals of that phase has been made; the completion function runs exactly once per phase, after all those arrivals and before any thread waiting for that phase proceeds, and all waiting threads are then released, any number of phases over. Arriving never blocks, arrivals for the next phase may overlap with threads still leaving the previous one, and waiting with the token of a completed phase returns at once.",
 ["schedules","histories","inputs"],
 "every interleaving of arrive(n), wait(token) and arrive_and_wait over many phases and participants, with slow leavers and spurious wake-ups",
 "Tests run two or three phases in one order.",
 ["yamc_barrier.hpp"],
 [("phase_completion_step under internal mutex","yamc_barrier.hpp"),("phase comparison in wait","yamc_barrier.hpp")],
 [("counter_, init_count_, phase_","arrivals outstanding, expected count, phase","yamc_barrier.hpp")],["returns of wait/arrive_and_wait, calls of the completion function"])

prop("C21","Dropping out of a barrier shrinks all later phases, without waiting",
 "arrive_and_drop counts as the caller's arrival in the current phase and lowers by one the number of arrivals expected in every later phase, whether the caller is the first, a middle or the last to arrive; the remaining participants then complete every later phase among themselves. It does not wait for the phase to complete.",
 ["schedules","histories"],
 "every arrival order of droppers and other participants over several phases, several droppers per phase",
 "The one test with a later phase has the dropper arrive last.",
 ["yamc_barrier.hpp"],
 [("arrive_and_drop / phase_completion_step","yamc_barrier.hpp")],
 [("init_count_","expected count of later phases","yamc_barrier.hpp")],["completion of phases after a drop; returns of arrive_and_drop"])

prop("C22","shared_lock owns exactly what it says and releases it exactly once",
 "Through any sequence of construction forms, lock, try and timed operations, unlock, release, swap, move construction and move assignment, and whether the underlying lock operations succeed, fail, time out or throw, each shared_lock reports ownership iff a shared lock acquired through it is outstanding, every acquired shared lock is released exactly once (or handed to the caller of release), timed forms wait until the deadline they are given and no longer, and operations without a mutex or on an already owned lock throw without effect. After all shared_locks are gone, the mutex can be locked exclusively.",
 ["histories","schedules","fault_sequences"],
 "every operation sequence of several shared_locks in several threads on real shared mutexes with contention, time-outs and injected failures of the underlying operation",
 "Tests use a mock mutex that never blocks or throws, and one short sequence per member function.",
 ["yamc_shared_lock.hpp"],
 [("pm_/owns_ bookkeeping","yamc_shared_lock.hpp")],
 [("pm_, owns_","associated mutex and ownership","yamc_shared_lock.hpp")],["owns_lock/mutex, calls reaching the mutex, exclusive lock afterwards"])

prop("C23","scoped_lock takes all its mutexes or none and cannot deadlock",
 "Constructing a scoped_lock over any number of mutexes of any types returns with all of them locked, whatever order other threads name them in, and never deadlocks against other scoped_locks; if locking one throws, none stays locked. Destruction releases each of them exactly once, and the adopting form takes over locks already held without locking again.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of threads locking overlapping sets of 0 to 4 mutexes in any order, with failures of the underlying operations",
 "Tests use mock mutexes from a single thread.",
 ["yamc_scoped_lock.hpp"],
 [("std::lock over all mutexes, unlock of each in the destructor","yamc_scoped_lock.hpp")],
 (),["ownership of each mutex inside and after the scope"])

prop("C24","An object may be destroyed as soon as its last user is through",
 "A mutex, semaphore, latch or barrier may be destroyed by a thread as soon as that thread knows, from its own acquisition or wait having returned, that no thread will start another operation on it: releases, count-downs and arrivals of other threads that are still on their way out never touch the object any more.",
 ["schedules"],
 "every interleaving of a releasing thread delayed at any point inside its call with an acquiring thread that destroys the object",
 "Tests join all threads before destroying anything.",
 EXCL+SHARED+["yamc_semaphore.hpp","yamc_latch.hpp","yamc_barrier.hpp","posix_semaphore.hpp"],
 [("notification before the internal mutex is released","alternate_mutex.hpp"),("internal mutex released as the last access","alternate_mutex.hpp"),("single store in unlock","naive_spin_mutex.hpp")],
 (),["memory accesses to the object after its destructor started"])

prop("C25","Spinlock waiting keeps giving the processor away",
 "A thread that waits for a spinlock with the default exponential or the yield backoff keeps yielding the processor at non-increasing intervals, starting from the configured initial count, for as long as it waits; so on a single processor without preemption the owner gets to run and every waiting thread eventually acquires.",
 ["schedules","configurations","histories"],
 "every cooperative (yield-only) schedule, waiting time, number of waiters and initial count",
 "Tests run on many cores with preemption, where a backoff that stops yielding still passes.",
 ["yamc_backoff_spin.hpp","naive_spin_mutex.hpp","ttas_spin_mutex.hpp"],
 [("exponential::wait halves the interval down to 1","yamc_backoff_spin.hpp")],
 [("initcount, counter","yield interval and countdown","yamc_backoff_spin.hpp")],["number of lock-word polls between yields"])

prop("C26","Native wrappers never turn a failed or partial system call into success",
 "When an operating-system call below a native wrapper (POSIX, Windows, macOS) fails, is out of resources, is interrupted or returns earlier than asked, the wrapper reports the failure or goes on waiting: it never reports a lock or permit it did not get, never keeps one it reported as not obtained, and never shortens a wait. A deadline that has already passed is a poll, not a wait.",
 ["fault_sequences","inputs","schedules"],
 "every failure result the system calls document, injected at any call, early time-outs within a clock tick, any deadline",
 "The system calls never fail under test, and the Windows and macOS wrappers are not even compiled here.",
 ["posix_native_mutex.hpp","posix_semaphore.hpp","win_native_mutex.hpp","win_semaphore.hpp","gcd_semaphore.hpp","apple_native_mutex.hpp"],
 [("result checks after each native call","win_semaphore.hpp"),("validate_native_handle","gcd_semaphore.hpp"),("do_try_lockwait rounding","win_native_mutex.hpp")],
 (),["results and exceptions of wrapper operations against the simulated system object"])

prop("C27","Types keep the standard library's interface",
 "All mutex, lock, semaphore, latch and barrier types are non-copyable and offer the member functions, types and constants of their C++ standard counterparts, so that they can replace them in generic code that compiles against the standard types.",
 ["programs"],
 "every program written against the standard interface",
 "Tests instantiate a sample of generic uses.",
 EXCL+SHARED+["yamc_semaphore.hpp","yamc_latch.hpp","yamc_barrier.hpp","yamc_shared_lock.hpp","yamc_scoped_lock.hpp"],
 [("class definitions","alternate_mutex.hpp")],(),["compilation"])

prop("C28","A native handle is the very object its mutex uses",
 "What native_handle() of a native mutex returns is the platform object that the wrapper itself locks, whole and in its platform's own representation: a thread may acquire or release through the handle and through the wrapper in any mixture, for each of exclusive, shared and recursive ownership, and all guarantees of the mutex keep holding for the mixture. The wrapper keeps no ownership state of its own that an operation through the handle would leave stale.",
 ["programs","schedules","histories"],
 "every mixture of operations through handle and wrapper, by any threads, recursion included, POSIX, Windows and macOS wrappers",
 "No test uses a native handle, and the Windows and macOS wrappers are not even compiled here.",
 ["posix_native_mutex.hpp","win_native_mutex.hpp","apple_native_mutex.hpp"],
 [("native_handle()","posix_native_mutex.hpp"),("native_handle()","win_native_mutex.hpp")],
 [("mtx_, rwlock_, slock_, hmtx_, cs_, srwlock_, oslock_","the platform object","posix_native_mutex.hpp")],
 ["ownership as seen by both kinds of operation","results of the platform calls on the handle"])

prop("C29","Objects are independent of one another",
 "Operations on one lock, semaphore, latch or barrier never acquire, block, wake, delay or change another one: however many objects of whatever types exist, are created and destroyed, or are held by one thread at a time, and in whatever order they are released, each behaves as it would alone. In particular an object used by one thread only never makes that thread wait or fail, and threads that acquire objects in a consistent order always all finish.",
 ["histories","schedules","configurations"],
 "every set of objects of equal or mixed types, nesting and release order, creation and destruction meanwhile",
 "The tests use one object at a time, or two that never contend at once.",
 EXCL+SHARED+["yamc_semaphore.hpp","yamc_latch.hpp","yamc_barrier.hpp","yamc_lock_validator.hpp"],
 [("all state in non-static members; the lock validator's global table is the one exception","alternate_mutex.hpp"),("validator::global_table","yamc_lock_validator.hpp")],
 [("global_mutexmap, global_counter","deadlock detection's table of all checked mutexes","yamc_lock_validator.hpp")],
 ["ownership per object","blocked threads per object at quiescence","results on objects only one thread knows"])

prop("C30","Every mutex works below the standard wrappers and condition_variable_any",
 "Code that uses a yamc mutex only through lock_guard, unique_lock (in each construction form), std::lock, std::try_lock, shared_lock, scoped_lock and std::condition_variable_any gets what it would get from std::mutex: critical sections are consistent, nothing handed from thread to thread is lost or duplicated, no correct use throws, and a thread whose condition has become true and was notified always gets on.",
 ["schedules","histories","programs"],
 "every program of producers, consumers, movers and readers on bounded boxes, every lock type, spurious and arbitrary wake-ups, time-outs racing with notifications",
 "The tests drive each mutex by its own members; a lost wake-up or a retry of std::lock depends on the interleaving.",
 EXCL+SHARED+["yamc_shared_lock.hpp","yamc_scoped_lock.hpp"],
 [("lock, try_lock, unlock and shared forms as the Lockable requirements want them","alternate_mutex.hpp"),("shared_lock","yamc_shared_lock.hpp"),("scoped_lock","yamc_scoped_lock.hpp")],
 (),["values taken against values put in","threads blocked while their condition is true"])

prop("C31","What an object takes it gives back",
 "Whatever memory, kernel object or bookkeeping entry a lock, semaphore, latch or barrier acquires in its construction or use is released by the time it has been destroyed, in every history: contended, timed out, interrupted, reported as misuse or deadlock, failed for lack of memory or because of the operating system, and also when the constructor itself fails. An object that stays alive does not hold more as the number of operations on it grows: between uses it holds an amount bounded by the number of threads, and objects created and destroyed without end leave nothing behind in any table shared between them.",
 ["histories","schedules","fault_sequences"],
 "every history of construction, use by several threads, failed operations and destruction, of every type and back end",
 "The tests neither count what is allocated nor make allocation or system calls fail.",
 ["checked_mutex.hpp","checked_shared_mutex.hpp","yamc_lock_validator.hpp","posix_native_mutex.hpp","posix_semaphore.hpp","win_native_mutex.hpp","win_semaphore.hpp","gcd_semaphore.hpp"],
 [("validator::ctor, dtor, enqueue, dequeue, locked, unlocked","yamc_lock_validator.hpp"),("destructors that close the native object","win_semaphore.hpp")],
 [("global_mutexmap","entries of live checked mutexes","yamc_lock_validator.hpp"),("hsem_, dsem_, sem_","native semaphore","win_semaphore.hpp")],
 ["blocks and bytes allocated by the library and not yet freed","native objects created and not yet closed"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,s)
    for p in P:
        n=p["statement"].count(". ")+1
        if n>3: print(p["id"],"has",n,"sentences")
    print("ok",len(P))
except ImportError: pass
