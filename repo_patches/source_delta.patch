From d962e67dbda65702140579ceb92e66bcb21e3639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 01/17] fix: wake readers held back by a timed writer that
 gives up waiting

---
 include/alternate_shared_mutex.hpp | 1 +
 include/checked_shared_mutex.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/alternate_shared_mutex.hpp b/include/alternate_shared_mutex.hpp
index 64b79e4..42ebc88 100644
--- a/include/alternate_shared_mutex.hpp
+++ b/include/alternate_shared_mutex.hpp
@@ -152,6 +152,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers may have been held back by this writer
         return false;
       }
     }
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 4362520..8186276 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -301,6 +301,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        cv_.notify_all();  // readers may have been held back by this writer
         return false;
       }
     }
-- 
2.43.0


From 70abb50ed8cce912be0fac869c888114a3d3641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 02/17] fix: posix semaphore goes on waiting after EINTR and
 accepts deadlines before the epoch

---
 include/posix_semaphore.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 4775445..4a6a453 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -87,14 +87,22 @@ class counting_semaphore {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch, tv_nsec shall be in [0, 1000000000)
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
 
     errno = 0;
-    if (::sem_timedwait(&sem_, &abs_timeout) == 0) {
-      return true;
-    } else if (errno != ETIMEDOUT) {
-      throw_errno("sem_timedwait");
+    while (::sem_timedwait(&sem_, &abs_timeout) != 0) {
+      if (errno == ETIMEDOUT) {
+        return false;
+      } else if (errno != EINTR) {
+        throw_errno("sem_timedwait");
+      }
+      // interrupted by a signal handler, continue to wait
     }
-    return false;
+    return true;
   }
 
 public:
@@ -133,8 +141,11 @@ public:
   void acquire()
   {
     errno = 0;
-    if (::sem_wait(&sem_) != 0) {
-      throw_errno("sem_wait");
+    while (::sem_wait(&sem_) != 0) {
+      if (errno != EINTR) {
+        throw_errno("sem_wait");
+      }
+      // interrupted by a signal handler, continue to wait
     }
   }
 
-- 
2.43.0


From 80e346a39b4b46391ec2f01f0b7fb92d620d0834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 03/17] fix: shared_lock::unlock without an associated mutex
 throws instead of asserting

---
 include/yamc_shared_lock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yamc_shared_lock.hpp b/include/yamc_shared_lock.hpp
index 229fd15..77a738e 100644
--- a/include/yamc_shared_lock.hpp
+++ b/include/yamc_shared_lock.hpp
@@ -159,10 +159,10 @@ public:
 
   void unlock()
   {
-    assert(pm_ != nullptr);
     if (!owns_) {
       throw std::system_error(std::make_error_code(std::errc::operation_not_permitted), "shared_lock::unlock");
     }
+    assert(pm_ != nullptr);
     pm_->unlock_shared();
     owns_ = false;
   }
-- 
2.43.0


From 9c37387e2ee42eeac78b5835b2b4c28eb510a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 04/17] fix: barrier::arrive_and_drop lowers the expected count
 whoever arrives last

---
 include/yamc_barrier.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 135d717..8d79621 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -66,12 +66,9 @@ class barrier {
   mutable std::condition_variable cv_;
   mutable std::mutex mtx_;
 
-  void phase_completion_step(bool drop)
+  void phase_completion_step()
   {
     completion_();
-    if (drop) {
-      --init_count_;
-    }
     counter_ = init_count_;
     ++phase_;
     cv_.notify_all();
@@ -108,7 +105,7 @@ public:
     arrival_token token{phase_};
     counter_ -= update;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     return token;
   }
@@ -129,7 +126,7 @@ public:
     auto arrival_phase = phase_;
     counter_ -= 1;
     if (counter_ == 0) {
-      phase_completion_step(false);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
@@ -142,8 +139,9 @@ public:
     assert(0 < counter_);
     auto arrival_phase = phase_;
     counter_ -= 1;
+    init_count_ -= 1;  // all subsequent phases expect one less arrival
     if (counter_ == 0) {
-      phase_completion_step(true);
+      phase_completion_step();
     }
     while (phase_ <= arrival_phase) {
       cv_.wait(lk);
-- 
2.43.0


From 4fc25fffaccf4fa145a4a03fe374b46b78d63be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 05/17] fix: barrier phase counter may wrap around

---
 include/yamc_barrier.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yamc_barrier.hpp b/include/yamc_barrier.hpp
index 8d79621..c46ea8b 100644
--- a/include/yamc_barrier.hpp
+++ b/include/yamc_barrier.hpp
@@ -113,7 +113,7 @@ public:
   void wait(arrival_token&& arrival) const
   {
     std::unique_lock<decltype(mtx_)> lk(mtx_);
-    while (phase_ <= arrival.phase_) {
+    while (phase_ == arrival.phase_) {
       cv_.wait(lk);
     }
   }
@@ -128,7 +128,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
@@ -143,7 +143,7 @@ public:
     if (counter_ == 0) {
       phase_completion_step();
     }
-    while (phase_ <= arrival_phase) {
+    while (phase_ == arrival_phase) {
       cv_.wait(lk);
     }
   }
-- 
2.43.0


From defcbe227825c1c8c02de58ed2959a29d3c6d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 06/17] fix: a lock request reported as deadlock no longer
 stays registered as waiting

---
 include/yamc_lock_validator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 008d74e..0a3dddf 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -162,6 +162,7 @@ public:
         << " " << (shared ? "shared-lock" : "lock") << '\n';
       dump_mutexmap(std::cout, table.mutexmap);
       std::cout << "==== DEADLOCK DETECTED ====" << std::endl;
+      remove_elem(table.mutexmap[mkey].waiters, tid);  // caller gives up waiting
       return false;
     }
 #if YAMC_CHECK_VERBOSE
-- 
2.43.0


From 91ffd4a183a5baa650bb1452991386d651662b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 07/17] fix: notified threads no longer count as waiting in
 deadlock detection

---
 include/checked_mutex.hpp        | 2 ++
 include/checked_shared_mutex.hpp | 3 +++
 include/yamc_lock_validator.hpp  | 8 ++++++++
 3 files changed, 13 insertions(+)

diff --git a/include/checked_mutex.hpp b/include/checked_mutex.hpp
index a95597d..8c2af24 100644
--- a/include/checked_mutex.hpp
+++ b/include/checked_mutex.hpp
@@ -150,6 +150,7 @@ protected:
     }
     owner_ = std::thread::id();
     validator::unlocked(reinterpret_cast<uintptr_t>(this), tid, false);
+    validator::notified(reinterpret_cast<uintptr_t>(this));
     cv_.notify_all();
   }
 };
@@ -236,6 +237,7 @@ protected:
     if (--ncount_ == 0) {
       owner_ = std::thread::id();
       validator::unlocked(reinterpret_cast<uintptr_t>(this), tid, false);
+      validator::notified(reinterpret_cast<uintptr_t>(this));
       cv_.notify_all();
     }
   }
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 8186276..0aeed1c 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -164,6 +164,7 @@ protected:
     e_owner_ = {};
     RwLockPolicy::release_wlock(state_);
     validator::unlocked(reinterpret_cast<uintptr_t>(this), tid, false);
+    validator::notified(reinterpret_cast<uintptr_t>(this));
     cv_.notify_all();
   }
 
@@ -229,6 +230,7 @@ protected:
 #endif
     }
     if (RwLockPolicy::release_rlock(state_)) {
+      validator::notified(reinterpret_cast<uintptr_t>(this));
       cv_.notify_all();
     }
     auto result = std::remove(s_owner_.begin(), s_owner_.end(), tid);
@@ -301,6 +303,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         if (!RwLockPolicy::wait_wlock(state_))  // re-check predicate
           break;
         RwLockPolicy::after_wait_wlock(state_);
+        detail::validator::notified(reinterpret_cast<uintptr_t>(this));
         cv_.notify_all();  // readers may have been held back by this writer
         return false;
       }
diff --git a/include/yamc_lock_validator.hpp b/include/yamc_lock_validator.hpp
index 0a3dddf..3f6fb69 100644
--- a/include/yamc_lock_validator.hpp
+++ b/include/yamc_lock_validator.hpp
@@ -178,6 +178,13 @@ public:
     auto&& table = global_table();
     remove_elem(table.mutexmap[mkey].waiters, tid);
   }
+
+  // all waiting threads are woken up, each of them calls enqueue() again if it has to keep waiting
+  static void notified(uintptr_t mkey)
+  {
+    auto&& table = global_table();
+    table.mutexmap[mkey].waiters.clear();
+  }
 };
 
 
@@ -189,6 +196,7 @@ public:
   static void unlocked(uintptr_t, std::thread::id, bool) {}
   static bool enqueue(uintptr_t, std::thread::id, bool) { return true; }
   static void dequeue(uintptr_t, std::thread::id) {}
+  static void notified(uintptr_t) {}
 };
 
 
-- 
2.43.0


From d1024a805ab783f080d2beafc850c31528e78995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 08/17] fix: a writer whose lock request fails with an
 exception no longer holds readers back

---
 include/checked_shared_mutex.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index 0aeed1c..b1a5cec 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -111,17 +111,24 @@ protected:
 #endif
     }
     RwLockPolicy::before_wait_wlock(state_);
-    while (RwLockPolicy::wait_wlock(state_)) {
-      if (!validator::enqueue(reinterpret_cast<uintptr_t>(this), tid, false)) {
-        // deadlock detection
+    try {
+      while (RwLockPolicy::wait_wlock(state_)) {
+        if (!validator::enqueue(reinterpret_cast<uintptr_t>(this), tid, false)) {
+          // deadlock detection
 #if YAMC_CHECKED_CALL_ABORT
-        std::abort();
+          std::abort();
 #else
-        throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
+          throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur), "deadlock");
 #endif
+        }
+        cv_.wait(lk);
+        validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
       }
-      cv_.wait(lk);
-      validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
+    } catch (...) {
+      RwLockPolicy::after_wait_wlock(state_);
+      validator::notified(reinterpret_cast<uintptr_t>(this));
+      cv_.notify_all();  // readers may have been held back by this writer
+      throw;
     }
     RwLockPolicy::after_wait_wlock(state_);
     RwLockPolicy::acquire_wlock(state_);
-- 
2.43.0


From d04464416f059f1047811fe626fe68b1443ddc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 09/17] fix: checked mutexes stay free when the lock validator
 runs out of memory

---
 include/checked_mutex.hpp        | 12 +++++------
 include/checked_shared_mutex.hpp | 36 +++++++++++++++++++++-----------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/include/checked_mutex.hpp b/include/checked_mutex.hpp
index 8c2af24..9e52a85 100644
--- a/include/checked_mutex.hpp
+++ b/include/checked_mutex.hpp
@@ -112,8 +112,8 @@ protected:
       cv_.wait(lk);
       validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
     }
-    owner_ = tid;
     validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    owner_ = tid;
   }
 
   bool try_lock()
@@ -131,8 +131,8 @@ protected:
     if (owner_ != std::thread::id()) {
       return false;
     }
-    owner_ = tid;
     validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    owner_ = tid;
     return true;
   }
 
@@ -198,9 +198,9 @@ protected:
       validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
     }
     assert(owner_ == std::thread::id());
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     ncount_ = 1;
     owner_ = tid;
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
   }
 
   bool try_lock()
@@ -213,9 +213,9 @@ protected:
     }
     if (ncount_ == 0) {
       assert(owner_ == std::thread::id());
+      validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
       ncount_ = 1;
       owner_ = tid;
-      validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
       return true;
     }
     return false;
@@ -294,8 +294,8 @@ class timed_mutex : private detail::mutex_base {
         return false;
       }
     }
-    owner_ = tid;
     detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    owner_ = tid;
     return true;
   }
 
@@ -377,9 +377,9 @@ class recursive_timed_mutex : private detail::recursive_mutex_base {
       }
     }
     assert(owner_ == std::thread::id());
+    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     ncount_ = 1;
     owner_ = tid;
-    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     return true;
   }
 
diff --git a/include/checked_shared_mutex.hpp b/include/checked_shared_mutex.hpp
index b1a5cec..3fbf9d4 100644
--- a/include/checked_shared_mutex.hpp
+++ b/include/checked_shared_mutex.hpp
@@ -84,6 +84,18 @@ protected:
     return std::find(s_owner_.begin(), s_owner_.end(), tid) != s_owner_.end();
   }
 
+  void acquire_shared(std::thread::id tid)
+  {
+    s_owner_.push_back(tid);
+    try {
+      validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
+    } catch (...) {
+      s_owner_.pop_back();
+      throw;
+    }
+    RwLockPolicy::acquire_rlock(state_);
+  }
+
   void dtor_precondition(const char* emsg)
   {
     std::lock_guard<decltype(mtx_)> lk(mtx_);
@@ -124,6 +136,7 @@ protected:
         cv_.wait(lk);
         validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
       }
+      validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     } catch (...) {
       RwLockPolicy::after_wait_wlock(state_);
       validator::notified(reinterpret_cast<uintptr_t>(this));
@@ -133,7 +146,6 @@ protected:
     RwLockPolicy::after_wait_wlock(state_);
     RwLockPolicy::acquire_wlock(state_);
     e_owner_ = tid;
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
   }
 
   bool try_lock()
@@ -150,9 +162,9 @@ protected:
     }
     if (RwLockPolicy::wait_wlock(state_))
       return false;
+    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     RwLockPolicy::acquire_wlock(state_);
     e_owner_ = tid;
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     return true;
   }
 
@@ -199,9 +211,7 @@ protected:
       cv_.wait(lk);
       validator::dequeue(reinterpret_cast<uintptr_t>(this), tid);
     }
-    RwLockPolicy::acquire_rlock(state_);
-    s_owner_.push_back(tid);
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
+    acquire_shared(tid);
   }
 
   bool try_lock_shared()
@@ -218,9 +228,7 @@ protected:
     }
     if (RwLockPolicy::wait_rlock(state_))
       return false;
-    RwLockPolicy::acquire_rlock(state_);
-    s_owner_.push_back(tid);
-    validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
+    acquire_shared(tid);
     return true;
   }
 
@@ -316,9 +324,15 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
       }
     }
     RwLockPolicy::after_wait_wlock(state_);
+    try {
+      detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
+    } catch (...) {
+      detail::validator::notified(reinterpret_cast<uintptr_t>(this));
+      cv_.notify_all();  // readers may have been held back by this writer
+      throw;
+    }
     RwLockPolicy::acquire_wlock(state_);
     e_owner_ = tid;
-    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, false);
     return true;
   }
 
@@ -343,9 +357,7 @@ class basic_shared_timed_mutex : private detail::shared_mutex_base<RwLockPolicy>
         return false;
       }
     }
-    RwLockPolicy::acquire_rlock(state_);
-    s_owner_.push_back(tid);
-    detail::validator::locked(reinterpret_cast<uintptr_t>(this), tid, true);
+    base::acquire_shared(tid);
     return true;
   }
 
-- 
2.43.0


From 1f96747b450c3a2883192e9ace54953850fce6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 10/17] fix: Win32 timed waits with a negative or very long
 timeout

A negative duration was converted to a huge DWORD and blocked for weeks (or
forever if it happened to equal INFINITE), a duration of 2^32 ms or more was
truncated.
---
 include/win_native_mutex.hpp | 30 ++++++++++++++++++++----------
 include/win_semaphore.hpp    | 30 ++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index 85d8990..081545b 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -68,18 +68,28 @@ class native_mutex {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
-    DWORD result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
+    auto rest_in_msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
+    DWORD result;
+    do {
+      // Timeout of zero or less is just polling, and the interval that exceeds the range of DWORD type
+      // (the maximum value is reserved for INFINITE) is divided into several waits.
+      DWORD timeout_in_msec = 0;
+      if (0 < rest_in_msec) {
+        timeout_in_msec = static_cast<DWORD>(rest_in_msec < 0x7FFFFFFF ? rest_in_msec : 0x7FFFFFFF);
+      }
+      result = ::WaitForSingleObject(hmtx_, timeout_in_msec);
 #if YAMC_WIN_ACCURATE_TIMEOUT
-    if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
-      // Win32 wait functions will return early than specified timeout interval by design.
-      // (https://docs.microsoft.com/windows/win32/sync/wait-functions for more details)
-      //
-      // The current thread sleep one more "tick" to guarantee timing specification in C++ Standard,
-      // that actual timeout interval shall be longer than requested timeout of try_lock_*().
-      ::Sleep(1);
-    }
+      if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
+        // Win32 wait functions will return early than specified timeout interval by design.
+        // (https://docs.microsoft.com/windows/win32/sync/wait-functions for more details)
+        //
+        // The current thread sleep one more "tick" to guarantee timing specification in C++ Standard,
+        // that actual timeout interval shall be longer than requested timeout of try_lock_*().
+        ::Sleep(1);
+      }
 #endif
+      rest_in_msec -= timeout_in_msec;
+    } while (result == WAIT_TIMEOUT && 0 < rest_in_msec);
     if (result != WAIT_OBJECT_0 && result != WAIT_TIMEOUT) {
       // [thread.mutex.requirements.mutex]
       // resource_unavailable_try_again - if any native handle type manipulated is not available.
diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index c70550b..40c270c 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -71,18 +71,28 @@ class counting_semaphore {
   {
     using namespace std::chrono;
     // round up timeout to milliseconds precision
-    DWORD timeout_in_msec = static_cast<DWORD>(duration_cast<milliseconds>(timeout + nanoseconds{999999}).count());
-    DWORD result = ::WaitForSingleObject(hsem_, timeout_in_msec);
+    auto rest_in_msec = duration_cast<milliseconds>(timeout + nanoseconds{999999}).count();
+    DWORD result;
+    do {
+      // Timeout of zero or less is just polling, and the interval that exceeds the range of DWORD type
+      // (the maximum value is reserved for INFINITE) is divided into several waits.
+      DWORD timeout_in_msec = 0;
+      if (0 < rest_in_msec) {
+        timeout_in_msec = static_cast<DWORD>(rest_in_msec < 0x7FFFFFFF ? rest_in_msec : 0x7FFFFFFF);
+      }
+      result = ::WaitForSingleObject(hsem_, timeout_in_msec);
 #if YAMC_WIN_ACCURATE_TIMEOUT
-    if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
-      // Win32 wait functions will return early than specified timeout interval by design.
-      // (https://docs.microsoft.com/windows/win32/sync/wait-functions for more details)
-      //
-      // The current thread sleep one more "tick" to guarantee timing specification in C++ Standard,
-      // that actual timeout interval shall be longer than requested timeout of try_acquire_*().
-      ::Sleep(1);
-    }
+      if (result == WAIT_TIMEOUT && 0 < timeout_in_msec) {
+        // Win32 wait functions will return early than specified timeout interval by design.
+        // (https://docs.microsoft.com/windows/win32/sync/wait-functions for more details)
+        //
+        // The current thread sleep one more "tick" to guarantee timing specification in C++ Standard,
+        // that actual timeout interval shall be longer than requested timeout of try_acquire_*().
+        ::Sleep(1);
+      }
 #endif
+      rest_in_msec -= timeout_in_msec;
+    } while (result == WAIT_TIMEOUT && 0 < rest_in_msec);
     if (result != WAIT_OBJECT_0 && result != WAIT_TIMEOUT) {
       // [thread.mutex.requirements.mutex]
       // resource_unavailable_try_again - if any native handle type manipulated is not available.
-- 
2.43.0


From a6160b1bd7c5b621ff1036aa9dbe7727c39e636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 11/17] fix: win::counting_semaphore::release(0) reported an
 error

C++ Standard allows zero update, but ReleaseSemaphore() requires a count
greater than zero.
---
 include/win_semaphore.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/win_semaphore.hpp b/include/win_semaphore.hpp
index 40c270c..028de1b 100644
--- a/include/win_semaphore.hpp
+++ b/include/win_semaphore.hpp
@@ -131,6 +131,9 @@ public:
   void release(std::ptrdiff_t update = 1)
   {
     validate_native_handle("counting_semaphore::release");
+    if (update == 0) {
+      return;  // ReleaseSemaphore() rejects zero release count
+    }
     BOOL result = ::ReleaseSemaphore(hsem_, (LONG)update, NULL);
     if (!result) {
       // [thread.mutex.requirements.mutex]
-- 
2.43.0


From e799d69804cbf3d819ff34a2d37062f2035215f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 12/17] fix: posix::rwlock and native_recursive_mutex ignored
 EAGAIN

lock_shared() and recursive lock() returned as if the lock was acquired when
the native call reported that the maximum number of locks is exceeded.
---
 include/posix_native_mutex.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index 83314d7..b4e8d6a 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -26,7 +26,9 @@
 #ifndef POSIX_NATIVE_MUTEX_HPP_
 #define POSIX_NATIVE_MUTEX_HPP_
 
+#include <cerrno>
 #include <chrono>
+#include <system_error>
 // POSIX(pthreads) mutex
 #include <pthread.h>
 #include <time.h>
@@ -180,7 +182,11 @@ public:
 
   void lock()
   {
-    ::pthread_mutex_lock(&mtx_);
+    if (::pthread_mutex_lock(&mtx_) != 0) {
+      // [thread.mutex.requirements.mutex]
+      // resource_unavailable_try_again - if maximum number of recursive locks has been exceeded.
+      throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), "pthread_mutex_lock");
+    }
   }
 
   bool try_lock()
@@ -245,7 +251,12 @@ class rwlock {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
-    return (::pthread_rwlock_timedrdlock(&rwlock_, &abs_timeout) == 0);
+    int result;
+    do {
+      // EAGAIN - maximum number of read locks has been exceeded, keep trying until timeout.
+      result = ::pthread_rwlock_timedrdlock(&rwlock_, &abs_timeout);
+    } while (result == EAGAIN && system_clock::now() < tp);
+    return (result == 0);
   }
 #endif
 
@@ -276,7 +287,11 @@ public:
 
   void lock_shared()
   {
-    ::pthread_rwlock_rdlock(&rwlock_);
+    int result;
+    do {
+      // EAGAIN - maximum number of read locks has been exceeded, keep trying.
+      result = ::pthread_rwlock_rdlock(&rwlock_);
+    } while (result == EAGAIN);
   }
 
   bool try_lock_shared()
-- 
2.43.0


From e00bc5f1c13fc4e9a7000058fd107a8e582d41c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 13/17] fix: gcd::counting_semaphore::try_acquire_until with
 deadline of UNIX epoch

dispatch_walltime() saturates to DISPATCH_TIME_FOREVER there, so an expired
deadline waited forever.
---
 include/gcd_semaphore.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gcd_semaphore.hpp b/include/gcd_semaphore.hpp
index f0b86d7..8d82cb2 100644
--- a/include/gcd_semaphore.hpp
+++ b/include/gcd_semaphore.hpp
@@ -161,7 +161,12 @@ public:
   {
     validate_native_handle("counting_semaphore::try_acquire_until");
     const struct ::timespec unix_epoch = { 0, 0 };
-    auto timeout = ::dispatch_walltime(&unix_epoch, detail::from_unix_epoch(abs_time));
+    const int64_t delta = detail::from_unix_epoch(abs_time);
+    auto timeout = ::dispatch_walltime(&unix_epoch, delta);
+    if (delta <= 1) {
+      // dispatch_walltime() returns DISPATCH_TIME_FOREVER for the UNIX epoch itself
+      timeout = DISPATCH_TIME_NOW;
+    }
 
     long result = ::dispatch_semaphore_wait(dsema_, timeout);
     if (result != KERN_SUCCESS && result != KERN_OPERATION_TIMED_OUT) {
-- 
2.43.0


From b83982d2f973e8b10f819bbf7bc17f767bd9e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 14/17] fix: win::native_mutex::native_handle returned the
 address of the handle

---
 include/win_native_mutex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/win_native_mutex.hpp b/include/win_native_mutex.hpp
index 081545b..a33cb93 100644
--- a/include/win_native_mutex.hpp
+++ b/include/win_native_mutex.hpp
@@ -152,7 +152,7 @@ public:
   using native_handle_type = ::HANDLE;
   native_handle_type native_handle()
   {
-    return &hmtx_;
+    return hmtx_;
   }
 };
 
-- 
2.43.0


From 30f3af266e2cb34c98beac8b77310d3ee552f224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 15/17] fix: posix semaphore reads the given clock before the
 system clock

The order in which the operands of '+' are evaluated is unspecified. When
the system clock was read first (clang), the time until the second reading
shortened the wait and try_acquire_until could fail before its deadline.
---
 include/posix_semaphore.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/posix_semaphore.hpp b/include/posix_semaphore.hpp
index 4a6a453..57bf105 100644
--- a/include/posix_semaphore.hpp
+++ b/include/posix_semaphore.hpp
@@ -57,7 +57,9 @@ inline
 std::chrono::time_point<std::chrono::system_clock, Duration>
 to_system_timepoint(const std::chrono::time_point<Clock, Duration>& tp)
 {
-  return std::chrono::system_clock::now() + (tp - Clock::now());
+  // read the given clock first, time elapsed between two readings never shortens waiting
+  auto rel_time = tp - Clock::now();
+  return std::chrono::system_clock::now() + rel_time;
 }
 
 template<typename Duration>
-- 
2.43.0


From 7b9d347b16c6ecdd13c2a8b8719813cef13ecd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 16/17] fix: fair_shared_mutex.hpp uses assert() without
 including <cassert>

---
 include/fair_shared_mutex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fair_shared_mutex.hpp b/include/fair_shared_mutex.hpp
index 857b06c..66d4440 100644
--- a/include/fair_shared_mutex.hpp
+++ b/include/fair_shared_mutex.hpp
@@ -26,6 +26,7 @@
 #ifndef YAMC_FAIR_SHARED_MUTEX_HPP_
 #define YAMC_FAIR_SHARED_MUTEX_HPP_
 
+#include <cassert>
 #include <chrono>
 #include <condition_variable>
 #include <mutex>
-- 
2.43.0


From 1f9c9f182468119dac072aae559130efe2088003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 17/17] fix: posix timed lock fails on a free lock when the
 deadline precedes the epoch

---
 include/posix_native_mutex.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/posix_native_mutex.hpp b/include/posix_native_mutex.hpp
index b4e8d6a..38d9143 100644
--- a/include/posix_native_mutex.hpp
+++ b/include/posix_native_mutex.hpp
@@ -81,6 +81,11 @@ class native_mutex {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch, tv_nsec shall be in [0, 1000000000)
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_mutex_timedlock(&mtx_, &abs_timeout) == 0);
   }
 #endif
@@ -156,6 +161,11 @@ class native_recursive_mutex {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch, tv_nsec shall be in [0, 1000000000)
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_mutex_timedlock(&mtx_, &abs_timeout) == 0);
   }
 #endif
@@ -242,6 +252,11 @@ class rwlock {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch, tv_nsec shall be in [0, 1000000000)
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     return (::pthread_rwlock_timedwrlock(&rwlock_, &abs_timeout) == 0);
   }
 
@@ -251,6 +266,11 @@ class rwlock {
     struct ::timespec abs_timeout;
     abs_timeout.tv_sec = system_clock::to_time_t(tp);
     abs_timeout.tv_nsec = (long)(duration_cast<nanoseconds>(tp.time_since_epoch()).count() % 1000000000);
+    if (abs_timeout.tv_nsec < 0) {
+      // time point before the epoch, tv_nsec shall be in [0, 1000000000)
+      abs_timeout.tv_sec -= 1;
+      abs_timeout.tv_nsec += 1000000000;
+    }
     int result;
     do {
       // EAGAIN - maximum number of read locks has been exceeded, keep trying until timeout.
-- 
2.43.0

