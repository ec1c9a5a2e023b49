From c49c9401f1a3ea918501b453628beeb9593cf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 01/65] fix: keep tv_nsec non-negative for deadlines before the
 clock's epoch

---
 include/boost/thread/detail/platform_time.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/thread/detail/platform_time.hpp b/include/boost/thread/detail/platform_time.hpp
index c0e40d6..15da57b 100644
--- a/include/boost/thread/detail/platform_time.hpp
+++ b/include/boost/thread/detail/platform_time.hpp
@@ -120,6 +120,11 @@ inline FP init_steady_clock(kern_return_t & err)
       timespec ts;
       ts.tv_sec = static_cast<long> (s);
       ts.tv_nsec = static_cast<long> (ns - s * 1000000000l);
+      if (ts.tv_nsec < 0) // a timespec with a negative tv_nsec is invalid (EINVAL)
+      {
+        --ts.tv_sec;
+        ts.tv_nsec += 1000000000l;
+      }
       return ts;
     }
     inline boost::time_max_t timespec_to_ns(timespec const& ts)
@@ -147,6 +152,11 @@ inline FP init_steady_clock(kern_return_t & err)
 #if defined BOOST_THREAD_CHRONO_POSIX_API || defined BOOST_THREAD_CHRONO_MAC_API
         ts_val.tv_sec = rel_time.total_seconds();
         ts_val.tv_nsec = static_cast<long>(rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second()));
+        if (ts_val.tv_nsec < 0)
+        {
+          --ts_val.tv_sec;
+          ts_val.tv_nsec += 1000000000l;
+        }
 #else
         ns_val = static_cast<boost::time_max_t>(rel_time.total_seconds()) * 1000000000l;
         ns_val += rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second());
-- 
2.43.0


From 2c758665ccec3bb0faf906143091cf6a8240324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 02/65] fix: timed shared-to-exclusive conversion must not
 overtake a pending upgrade

try_unlock_shared_and_lock_until only tested for a single shared owner. While
a thread waits in unlock_upgrade_and_lock its own share is already given up,
so both threads were granted exclusive ownership.
---
 include/boost/thread/pthread/shared_mutex.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index d4b8280..07a4d63 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -105,6 +105,13 @@ namespace boost
                 return shared_count==1;
             }
 
+            // the only shared owner, and no thread is waiting in
+            // unlock_upgrade_and_lock for that owner to leave
+            bool only_shared () const
+            {
+                return shared_count==1 && !upgrade;
+            }
+
             void lock_shared ()
             {
                 ++shared_count;
@@ -569,7 +576,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::one_shared, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::only_shared, &state)))
           {
               return false;
           }
-- 
2.43.0


From 01590ab06838edd8d486ade3a8495e85f92dc90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 03/65] fix: wake timed conversions to exclusive when one
 shared owner remains

The *_and_lock_until conversions wait for the state with one shared owner left,
but unlock_shared only notified when none was left, so they succeeded at their
deadline at the earliest.
---
 include/boost/thread/pthread/shared_mutex.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index 07a4d63..057c716 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -268,6 +268,12 @@ namespace boost
                 }
                 release_waiters();
             }
+            else if (state.one_shared())
+            {
+                // the remaining owner may be waiting in one of the timed
+                // conversions to exclusive ownership
+                shared_cond.notify_all();
+            }
         }
 
         void lock()
-- 
2.43.0


From c5d3271f26b2f64c44ff831885c8241747d0406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 04/65] fix: timed shared-to-upgrade conversion waits on the
 condition it needs

It waited on exclusive_cond: it consumed notifications meant for a waiting
writer and was not told when the upgrade owner left.
---
 include/boost/thread/pthread/shared_mutex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index 057c716..0f9ba24 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -636,7 +636,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
           {
               return false;
           }
-- 
2.43.0


From 1516f0febdc1aeaa9f6bd37e7eda16e880732aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 05/65] fix: v2 shared/upgrade mutex acquisition is not an
 interruption point

An interruption delivered while lock() waits for the readers left the mutex
marked as write-entered for ever, keeping everybody else out.
---
 include/boost/thread/v2/shared_mutex.hpp | 60 ++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 70ba47d..a696a3f 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -152,6 +152,9 @@ public:
 #include <boost/thread/detail/config.hpp>
 #include <boost/thread/mutex.hpp>
 #include <boost/thread/condition_variable.hpp>
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+#include <boost/thread/detail/thread_interruption.hpp>
+#endif
 #include <boost/thread/mutex.hpp>
 #ifdef BOOST_THREAD_USES_CHRONO
 #include <boost/chrono.hpp>
@@ -274,6 +277,9 @@ namespace boost {
 
     inline void shared_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer, this));
       state_ |= write_entered_;
@@ -296,6 +302,9 @@ namespace boost {
     bool shared_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -317,6 +326,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -349,6 +361,9 @@ namespace boost {
 
     inline void shared_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -374,6 +389,9 @@ namespace boost {
     bool shared_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -391,6 +409,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -652,6 +673,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader, this));
       state_ |= write_entered_;
@@ -674,6 +698,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -695,6 +722,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -728,6 +758,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -753,6 +786,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -770,6 +806,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -806,6 +845,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_upgrade()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -831,6 +873,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -848,6 +893,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_upgrade(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -895,6 +943,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -950,6 +1001,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -980,6 +1034,9 @@ namespace boost {
 
     inline void upgrade_mutex::unlock_upgrade_and_lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
@@ -1009,6 +1066,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_upgrade_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
-- 
2.43.0


From b12905aa5e0a89fa65c0a76220c79af6088ef267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 06/65] fix: v2 shared/upgrade mutex wakes waiters when a
 writer gives up

A timed exclusive acquisition or conversion that timed out cleared the
write-entered mark without notifying the threads blocked by it.
---
 include/boost/thread/v2/shared_mutex.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index a696a3f..4bf756a 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -316,6 +316,8 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // those who were kept out meanwhile may proceed
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -340,6 +342,8 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // those who were kept out meanwhile may proceed
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -712,6 +716,8 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // those who were kept out meanwhile may proceed
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -736,6 +742,8 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        // those who were kept out meanwhile may proceed
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -962,6 +970,8 @@ namespace boost {
         ++num_readers;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
+        // those who were kept out meanwhile may proceed
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -1082,6 +1092,8 @@ namespace boost {
         ++num_readers;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
+        // those who were kept out meanwhile may proceed
+        gate1_.notify_all();
         return false;
       }
       return true;
-- 
2.43.0


From 8503adab6db1875d9a514184ab798cd97ac0bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 07/65] fix: v2 upgrade_mutex restores the current reader count
 after a failed timed conversion

The count taken before the wait was written back, so readers that left
meanwhile were counted for ever and no writer could get in any more.
---
 include/boost/thread/v2/shared_mutex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 4bf756a..f8b22c7 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -967,7 +967,8 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // other readers may have left while this thread was waiting
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
         // those who were kept out meanwhile may proceed
@@ -1089,7 +1090,8 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // other readers may have left while this thread was waiting
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
         // those who were kept out meanwhile may proceed
-- 
2.43.0


From 1bfcb47e68bdc94f5c5762e487dce2c6c215601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 08/65] fix: no_interruption_point sleeps must not end early
 when a signal interrupts nanosleep

---
 src/pthread/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 9deef7a..cea64d7 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -36,6 +36,7 @@
 #include <vxCpuLib.h>
 #endif
 
+#include <errno.h>
 #include <fstream>
 #include <string>
 #include <set>
@@ -456,7 +457,9 @@ namespace boost
                         BOOST_VERIFY(!pthread_delay_np(&ts.getTs()));
 #       endif
 #   elif defined(BOOST_HAS_NANOSLEEP)
-                        nanosleep(&ts.getTs(), 0);
+                        // resume when a signal handler has interrupted the sleep
+                        timespec left = ts.getTs();
+                        while (nanosleep(&left, &left) == -1 && errno == EINTR) {}
 #   else
                         // This should never be reached due to BOOST_THREAD_SLEEP_FOR_IS_STEADY
 #   endif
-- 
2.43.0


From 6e716c9b1cec10a87a8c6dc476fd1cf1a7dccdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 09/65] fix: thread_specific_ptr cleanup that uses its own
 pointer no longer cleans up twice

---
 src/pthread/thread.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index cea64d7..1088408 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -113,7 +113,18 @@ namespace boost
                                     = thread_info->tss_data.begin();
                                 if(current->second.func && (current->second.value!=0))
                                 {
-                                    (*current->second.caller)(current->second.func,current->second.value);
+                                    // The cleanup function may use, change or erase this very node:
+                                    // mark it as cleaned up first and leave what is stored meanwhile
+                                    // to another round.
+                                    void const* const key=current->first;
+                                    detail::tss_data_node::cleanup_func_t const func=current->second.func;
+                                    current->second.func=0;
+                                    (*current->second.caller)(func,current->second.value);
+                                    current=thread_info->tss_data.find(key);
+                                    if(current==thread_info->tss_data.end() || current->second.func)
+                                    {
+                                        continue;
+                                    }
                                 }
                                 thread_info->tss_data.erase(current);
                             }
@@ -766,12 +777,17 @@ namespace boost
                           detail::tss_data_node::cleanup_func_t func,
                           void* tss_data,bool cleanup_existing)
         {
-            if(tss_data_node* const current_node=find_tss_data(key))
+            tss_data_node* current_node=find_tss_data(key);
+            while(current_node && cleanup_existing && current_node->func && (current_node->value!=0))
+            {
+                // The cleanup function may use, change or erase this very node.
+                tss_data_node::cleanup_func_t const existing_func=current_node->func;
+                current_node->func=0;
+                (*current_node->caller)(existing_func,current_node->value);
+                current_node=find_tss_data(key);
+            }
+            if(current_node)
             {
-                if(cleanup_existing && current_node->func && (current_node->value!=0))
-                {
-                    (*current_node->caller)(current_node->func,current_node->value);
-                }
                 if(func || (tss_data!=0))
                 {
                     current_node->caller=caller;
-- 
2.43.0


From aac4ec1da3fd056d55a8a7daa85bbfb76b471c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 10/65] fix: promise refuses a second result after a deferred
 or at-thread-exit result

---
 include/boost/thread/future.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 154114a..7be8346 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -464,7 +464,7 @@ namespace boost
             void set_exception_deferred(exception_ptr e)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -669,7 +669,7 @@ namespace boost
             void set_value_deferred(source_reference_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -684,7 +684,7 @@ namespace boost
             void set_value_deferred(rvalue_source_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -810,7 +810,7 @@ namespace boost
             void set_value_deferred(T& result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -885,7 +885,7 @@ namespace boost
             void set_value_deferred()
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->done || this->is_constructed)
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -2375,7 +2375,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2386,7 +2386,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2398,7 +2398,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2453,7 +2453,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2466,7 +2466,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2651,7 +2651,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2670,7 +2670,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2836,7 +2836,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2856,7 +2856,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->done || future_->is_constructed)
             {
                 boost::throw_exception(promise_already_satisfied());
             }
-- 
2.43.0


From c0e011fa12c875f3d6d6193475ac9fb5b11d45e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 11/65] fix: promise at-thread-exit setters work before
 get_future with lazy promises

---
 include/boost/thread/future.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 7be8346..063244a 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2497,6 +2497,7 @@ namespace boost
         template <class TR>
         typename boost::enable_if_c<is_copy_constructible<TR>::value && is_same<R, TR>::value, void>::type set_value_at_thread_exit(TR const& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2506,6 +2507,7 @@ namespace boost
 #else
         void set_value_at_thread_exit(source_reference_type r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2515,6 +2517,7 @@ namespace boost
 #endif
         void set_value_at_thread_exit(BOOST_THREAD_RV_REF(R) r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2523,6 +2526,7 @@ namespace boost
         }
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2698,6 +2702,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit(R& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2707,6 +2712,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2884,6 +2890,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit()
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2893,6 +2900,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
-- 
2.43.0


From cd4eca2e724002d8d341cfa3294d1edc08d81a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:56 +0000
Subject: [PATCH 12/65] fix: at-thread-exit notifications happen when the
 thread ends, not when its last handle goes

---
 include/boost/thread/pthread/thread_data.hpp |  2 ++
 src/pthread/thread.cpp                       | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/thread_data.hpp b/include/boost/thread/pthread/thread_data.hpp
index c43b276..93aca61 100644
--- a/include/boost/thread/pthread/thread_data.hpp
+++ b/include/boost/thread/pthread/thread_data.hpp
@@ -178,6 +178,8 @@ namespace boost
               async_states_.push_back(as);
             }
 //#endif
+            // Unlocks, notifies and makes ready what was registered to be so at thread exit.
+            void run_thread_exit_notifications();
         };
 
         BOOST_THREAD_DECL thread_data_base* get_current_thread_data();
diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 1088408..7f2ec28 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -49,14 +49,23 @@ namespace boost
     {
         thread_data_base::~thread_data_base()
         {
-            for (notify_list_t::iterator i = notify.begin(), e = notify.end();
+            run_thread_exit_notifications();
+        }
+
+        void thread_data_base::run_thread_exit_notifications()
+        {
+            notify_list_t to_notify;
+            to_notify.swap(notify);
+            for (notify_list_t::iterator i = to_notify.begin(), e = to_notify.end();
                     i != e; ++i)
             {
                 i->second->unlock();
                 i->first->notify_all();
             }
 //#ifndef BOOST_NO_EXCEPTIONS
-            for (async_states_t::iterator i = async_states_.begin(), e = async_states_.end();
+            async_states_t to_make_ready;
+            to_make_ready.swap(async_states_);
+            for (async_states_t::iterator i = to_make_ready.begin(), e = to_make_ready.end();
                     i != e; ++i)
             {
                 (*i)->notify_deferred();
@@ -206,6 +215,8 @@ namespace boost
 #endif
                 detail::tls_destructor(thread_info.get());
                 detail::set_current_thread_data(0);
+                // The thread_info can outlive the thread, as long as a boost::thread refers to it.
+                thread_info->run_thread_exit_notifications();
                 boost::lock_guard<boost::mutex> lock(thread_info->data_mutex);
                 thread_info->done=true;
                 thread_info->done_condition.notify_all();
-- 
2.43.0


From 50faff5631e6bb36d8919edcb652777085bda927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 13/65] fix: an interrupted completion_latch waiter no longer
 holds up the opening

---
 include/boost/thread/completion_latch.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/completion_latch.hpp b/include/boost/thread/completion_latch.hpp
index 03f4e89..0ee2434 100644
--- a/include/boost/thread/completion_latch.hpp
+++ b/include/boost/thread/completion_latch.hpp
@@ -16,6 +16,7 @@
 #include <boost/chrono/duration.hpp>
 #include <boost/chrono/time_point.hpp>
 #include <boost/assert.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 //#include <boost/thread/detail/nullary_function.hpp>
 #include <boost/thread/csbl/functional.hpp>
 
@@ -53,7 +54,17 @@ namespace boost
       {
         that_.leavers_.cond_.wait(lk, detail::counter_is_zero(that_.leavers_));
         that_.waiters_.inc_and_notify_all();
-        that_.leavers_.cond_.wait(lk, detail::counter_is_not_zero(that_.leavers_));
+        BOOST_TRY
+        {
+          that_.leavers_.cond_.wait(lk, detail::counter_is_not_zero(that_.leavers_));
+        }
+        BOOST_CATCH (...)
+        {
+          // e.g. interrupted: the destructor will not run, and nobody has to wait for this waiter any more.
+          that_.waiters_.dec_and_notify_all();
+          BOOST_RETHROW
+        }
+        BOOST_CATCH_END
       }
       ~around_wait()
       {
-- 
2.43.0


From 1dc1af4cafa2ff4c7abbe8c13d994b7ad3286514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 14/65] fix: a moved-from devector is empty again, so a queue
 survives underlying_queue()

---
 include/boost/thread/csbl/devector.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/csbl/devector.hpp b/include/boost/thread/csbl/devector.hpp
index c2bc0bb..4baf7aa 100644
--- a/include/boost/thread/csbl/devector.hpp
+++ b/include/boost/thread/csbl/devector.hpp
@@ -45,7 +45,10 @@ namespace boost
       devector(BOOST_RV_REF(devector) x) BOOST_NOEXCEPT
          :  data_(boost::move(x.data_)),
             front_index_(x.front_index_)
-      {}
+      {
+        x.data_.clear();
+        x.front_index_ = 0;
+      }
 
       devector& operator=(BOOST_COPY_ASSIGN_REF(devector) x)
       {
@@ -62,8 +65,13 @@ namespace boost
          BOOST_NOEXCEPT_IF(vector_type::allocator_traits_type::propagate_on_container_move_assignment::value)
 #endif
       {
-        data_ = boost::move(x.data_);
-        front_index_ = x.front_index_;
+        if (&x != this)
+        {
+          data_ = boost::move(x.data_);
+          front_index_ = x.front_index_;
+          x.data_.clear();
+          x.front_index_ = 0;
+        }
         return *this;
       }
 
-- 
2.43.0


From 46955243a9fe80d427dcecc2622c2ded91f6f0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 15/65] fix: sync_bounded_queue::size counts modulo the ring
 size, not modulo the capacity

---
 include/boost/thread/concurrent_queues/sync_bounded_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index c081bfe..3dcc589 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -127,7 +127,7 @@ namespace concurrent
     inline size_type size(lock_guard<mutex>& lk) const BOOST_NOEXCEPT
     {
       if (full(lk)) return capacity(lk);
-      return ((in_+capacity(lk)-out_) % capacity(lk));
+      return ((in_+capacity_-out_) % capacity_);
     }
 
     inline void throw_if_closed(unique_lock<mutex>&);
-- 
2.43.0


From 04a4600d0d0d43e92018278399f05eda560010b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 16/65] fix: sync_bounded_queue::wait_push_back returns closed
 when the queue is closed while it waits

---
 .../concurrent_queues/sync_bounded_queue.hpp  | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index 3dcc589..30395d6 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -542,8 +542,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(const ValueType& elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(elem, wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(elem, in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
@@ -572,6 +574,21 @@ namespace concurrent
     return try_push_back(elem, lk);
   }
 
+  template <typename ValueType>
+  typename sync_bounded_queue<ValueType>::size_type sync_bounded_queue<ValueType>::wait_until_not_full(unique_lock<mutex>& lk, bool& closed)
+  {
+    for (;;)
+    {
+      if (closed_) {closed=true; return in_;}
+      size_type in_p_1 = inc(in_);
+      if (in_p_1 != out_) // ! full()
+      {
+        return in_p_1;
+      }
+      ++waiting_full_;
+      not_full_.wait(lk);
+    }
+  }
   template <typename ValueType>
   typename sync_bounded_queue<ValueType>::size_type sync_bounded_queue<ValueType>::wait_until_not_full(unique_lock<mutex>& lk)
   {
@@ -647,8 +664,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(BOOST_THREAD_RV_REF(ValueType) elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(boost::move(elem), wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(boost::move(elem), in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
-- 
2.43.0


From 9aeeb2292a24eb7089f92e2ae9a89ee652ccabdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 17/65] fix: sync_bounded_queue wakes all waiters, as the only
 one notified could be interrupted or fail

---
 .../thread/concurrent_queues/sync_bounded_queue.hpp  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index 30395d6..02b3321 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -157,18 +157,22 @@ namespace concurrent
     {
       if (waiting_empty_ > 0)
       {
-        --waiting_empty_;
+        // A single notified waiter may leave without using the notification (interruption,
+        // throwing element), so all of them have to look.
+        waiting_empty_ = 0;
         lk.unlock();
-        not_empty_.notify_one();
+        not_empty_.notify_all();
       }
     }
     inline void notify_not_full_if_needed(unique_lock<mutex>& lk)
     {
       if (waiting_full_ > 0)
       {
-        --waiting_full_;
+        // A single notified waiter may leave without using the notification (interruption,
+        // throwing element), so all of them have to look.
+        waiting_full_ = 0;
         lk.unlock();
-        not_full_.notify_one();
+        not_full_.notify_all();
       }
     }
 
-- 
2.43.0


From c8d917899c851219156b87e7944455bbdf969f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 18/65] fix: sync_timed_queue::pull_until does not look at the
 top of an empty queue when the clock jumps back

---
 include/boost/thread/concurrent_queues/sync_timed_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
index fd8d5a3..a94a6a2 100644
--- a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
@@ -290,6 +290,7 @@ namespace detail
       if (super::closed(lk)) return queue_op_status::closed;
       if (clock::now() >= tp) return super::empty(lk) ? queue_op_status::timeout : queue_op_status::not_ready;
 
+      if (super::empty(lk)) continue; // the clock jumped back since the wait timed out
       const time_point tpmin((std::min)(tp, detail::limit_timepoint(super::data_.top().time)));
       super::cond_.wait_until(lk, tpmin);
     }
-- 
2.43.0


From 6b10d6fd341fcedcbf5e90e095ca9b997d6e81c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 19/65] fix: sync_timed_queue waits by the steady clock, so a
 system clock jump just before the wait cannot make it long

---
 include/boost/thread/concurrent_queues/sync_timed_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
index a94a6a2..874e8ba 100644
--- a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
@@ -270,7 +270,7 @@ namespace detail
       if (not_empty_and_time_reached(lk)) return false; // success
       if (super::closed(lk)) return true; // closed
 
-      const time_point tpmin(detail::limit_timepoint(super::data_.top().time));
+      const chrono::steady_clock::time_point tpmin(detail::convert_to_steady_clock_timepoint(super::data_.top().time));
       super::cond_.wait_until(lk, tpmin);
     }
   }
@@ -291,7 +291,7 @@ namespace detail
       if (clock::now() >= tp) return super::empty(lk) ? queue_op_status::timeout : queue_op_status::not_ready;
 
       if (super::empty(lk)) continue; // the clock jumped back since the wait timed out
-      const time_point tpmin((std::min)(tp, detail::limit_timepoint(super::data_.top().time)));
+      const chrono::steady_clock::time_point tpmin(detail::convert_to_steady_clock_timepoint((std::min)(tp, super::data_.top().time)));
       super::cond_.wait_until(lk, tpmin);
     }
   }
-- 
2.43.0


From 3111ff64fdaf8f9568c9af60254df181e8f72ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 20/65] fix: promise move assignment breaks the promise it
 overwrites

The documentation says that a result associated with the assigned-to promise
that is not ready gets broken_promise; it was dropped silently and its futures
waited for ever.
---
 include/boost/thread/future.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 063244a..0a4c5f7 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2327,10 +2327,8 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // The result that was associated with *this is abandoned as by the destructor.
+            promise(boost::move(rhs)).swap(*this);
             return *this;
         }
 
@@ -2622,10 +2620,8 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // The result that was associated with *this is abandoned as by the destructor.
+            promise(boost::move(rhs)).swap(*this);
             return *this;
         }
 
@@ -2807,10 +2803,8 @@ namespace boost
 
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // The result that was associated with *this is abandoned as by the destructor.
+            promise(boost::move(rhs)).swap(*this);
             return *this;
         }
 
-- 
2.43.0


From 868e0ccd841ad3cb42c6c4db0adc50f56f437918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 21/65] fix: a promise without state throws promise_moved
 instead of dereferencing null

set_value, emplace, set_exception and set_wait_callback now check the state as
get_future and the deferred setters already do (without lazy initialisation a
moved-from promise has none).
---
 include/boost/thread/future.hpp | 48 +++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 0a4c5f7..e51b14b 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2372,6 +2372,10 @@ namespace boost
             set_value(TR const &  r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2383,6 +2387,10 @@ namespace boost
         void set_value(source_reference_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2395,6 +2403,10 @@ namespace boost
         void set_value(rvalue_source_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2450,6 +2462,10 @@ namespace boost
         void emplace(BOOST_THREAD_FWD_REF(Args) ...args)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2463,6 +2479,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2541,6 +2561,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
@@ -2650,6 +2674,10 @@ namespace boost
         void set_value(R& r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2669,6 +2697,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2725,6 +2757,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
@@ -2835,6 +2871,10 @@ namespace boost
         void set_value()
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2855,6 +2895,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->done || future_->is_constructed)
             {
@@ -2911,6 +2955,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
-- 
2.43.0


From 411417cef4e70a8dee1048f35c85e4d665eb8257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 22/65] fix: shared_future::get_or returns the given value
 instead of throwing the stored exception

---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index e51b14b..90219ae 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2233,7 +2233,7 @@ namespace boost
             {
                 boost::throw_exception(future_uninitialized());
             }
-            this->future_->wait();
+            this->future_->wait(false);
             if (this->future_->has_value()) return this->future_->get_sh();
             else return boost::move(v);
         }
-- 
2.43.0


From 7092b502ed0020b65c84998a7462ed9fc9ad1112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 23/65] fix: an interrupted future::get leaves the future valid

get() invalidated the future before waiting, so an interruption while waiting
threw thread_interrupted and made the result unreachable. get_or already waits first.
---
 include/boost/thread/future.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 90219ae..c3467cd 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1799,6 +1799,7 @@ namespace boost
                 boost::throw_exception(future_uninitialized());
             }
 #ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
+            this->future_->wait(lk, false);
             this->future_->invalidate(lk);
 #endif
             return this->future_->get(lk);
@@ -2060,6 +2061,7 @@ namespace boost
                     boost::throw_exception(future_uninitialized());
                 }
     #ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
+                this->future_->wait(lk, false);
                 this->future_->invalidate(lk);
     #endif
                 return this->future_->get(lk);
-- 
2.43.0


From 6569232f2f0ee04be9fcd95143932569d71fb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 24/65] fix: promise<R&>::set_value_deferred reports a missing
 state as promise_moved

---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index c3467cd..44e11a6 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2692,7 +2692,7 @@ namespace boost
             lazy_init();
             if (future_.get()==0)
             {
-                boost::throw_exception(promise_already_satisfied());
+                boost::throw_exception(promise_moved());
             }
             future_->set_value_deferred(r);
         }
-- 
2.43.0


From b0f9f55c8c70520c4c6d70fe7abfe2b4ed5b30e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 25/65] fix: async does not hang when its thread or shared
 state cannot be created

---
 include/boost/thread/future.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 44e11a6..35d334a 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -937,10 +937,9 @@ namespace boost
           {
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
             join();
-#elif defined BOOST_THREAD_ASYNC_FUTURE_WAITS
-            unique_lock<boost::mutex> lk(this->mutex);
-            this->waiters.wait(lk, boost::bind(&shared_state_base::is_done, this));
 #endif
+            // There is nothing to wait for: the thread that makes this state ready owns it too.
+            // If that thread could not be started, the state never becomes ready.
           }
 
           virtual void wait(boost::unique_lock<boost::mutex>& lk, bool rethrow)
-- 
2.43.0


From ff5e68a3e7f3e7d82a09ad99e79de044d615a32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 26/65] fix: a deferred task returning a reference runs without
 holding the lock of its shared state

---
 include/boost/thread/future.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 35d334a..bdeb439 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1080,7 +1080,11 @@ namespace boost
           virtual void execute(boost::unique_lock<boost::mutex>& lck) {
             try
             {
-              this->mark_finished_with_result_internal(func_(), lck);
+              Fp local_fuct=boost::move(func_);
+              relocker relock(lck);
+              Rp& res = local_fuct();
+              relock.lock();
+              this->mark_finished_with_result_internal(res, lck);
             }
             catch (...)
             {
-- 
2.43.0


From d0b4100c1e1feee8dbd224de91c8a9ed82041742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 27/65] fix: make_shared_future<void> is ready

---
 include/boost/thread/future.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index bdeb439..c690fb6 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4520,6 +4520,7 @@ namespace detail {
 
   inline shared_future<void> make_shared_future()  {
     promise<void> p;
+    p.set_value();
     return BOOST_THREAD_MAKE_RV_REF(p.get_future().share());
   }
 
-- 
2.43.0


From 1efcc990ff8702137556c0861ee0f574c5e20ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 28/65] fix: packaged_task::set_wait_callback reports an empty
 task

---
 include/boost/thread/future.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index c690fb6..6cd0002 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -3860,6 +3860,9 @@ namespace boost
 #endif
         template<typename F>
         void set_wait_callback(F f) {
+            if(!task) {
+                boost::throw_exception(task_moved());
+            }
             task->set_wait_callback(f,this);
         }
     };
-- 
2.43.0


From d93fa54b05793b2a59b58fd7366784e8185e80c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 29/65] fix: packaged_task::reset makes a new shared state

---
 include/boost/thread/future.hpp | 45 ++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 6cd0002..16fe1e1 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -3022,13 +3022,8 @@ namespace boost
                 started(false)
             {}
 
-            void reset()
-            {
-              // todo The packaged_task::reset must be as if an assignemnt froma new packaged_task with the same function
-              // the reset function is an optimization that avoids reallocating a new task.
-              started=false;
-              this->validate();
-            }
+            // A new task, not started yet, with the function of this one.
+            virtual boost::shared_ptr<shared_state_base> renew()=0;
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             virtual void do_run(BOOST_THREAD_RV_REF(ArgTypes) ... args)=0;
             void run(BOOST_THREAD_RV_REF(ArgTypes) ... args)
@@ -3120,6 +3115,11 @@ namespace boost
               return boost::move(f);
             }
 
+            boost::shared_ptr<shared_state_base> renew()
+            {
+              return boost::make_shared<task_shared_state>(boost::move(f));
+            }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3200,6 +3200,11 @@ namespace boost
               return f;
             }
 
+            boost::shared_ptr<shared_state_base> renew()
+            {
+              return boost::make_shared<task_shared_state>(boost::move(f));
+            }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3280,6 +3285,11 @@ namespace boost
                   return f;
                 }
 
+                boost::shared_ptr<shared_state_base> renew()
+                {
+                  return boost::make_shared<task_shared_state>(f);
+                }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
                 void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
                 {
@@ -3359,6 +3369,11 @@ namespace boost
                   return boost::move(f);
                 }
 
+                boost::shared_ptr<shared_state_base> renew()
+                {
+                  return boost::make_shared<task_shared_state>(f);
+                }
+
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
                 void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
                 {
@@ -3434,6 +3449,11 @@ namespace boost
             {
               return boost::move(f);
             }
+
+            boost::shared_ptr<shared_state_base> renew()
+            {
+              return boost::make_shared<task_shared_state>(boost::move(f));
+            }
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3509,6 +3529,11 @@ namespace boost
             {
               return f;
             }
+
+            boost::shared_ptr<shared_state_base> renew()
+            {
+              return boost::make_shared<task_shared_state>(f);
+            }
 #if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined(BOOST_THREAD_PROVIDES_VARIADIC_THREAD)
             void do_apply(BOOST_THREAD_RV_REF(ArgTypes) ... args)
             {
@@ -3798,11 +3823,13 @@ namespace boost
 #endif
         void reset() {
             if (!valid())
-              boost::throw_exception(future_error(system::make_error_code(future_errc::no_state)));
+              boost::throw_exception(task_moved());
 
             // As if *this = packaged_task(task->callable());
 
-            task->reset();
+            task_ptr fresh(boost::static_pointer_cast<typename task_ptr::element_type>(task->renew()));
+            task->owner_destroyed();
+            task.swap(fresh);
             future_obtained=false;
         }
 
-- 
2.43.0


From dd01fe14a49f970d866dd7ce1be877e3ba5d410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 30/65] fix: destroying an unsatisfied promise or task does not
 throw when memory is exhausted

---
 include/boost/thread/future.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 16fe1e1..b813d0b 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -148,6 +148,19 @@ namespace boost
             relocker& operator=(relocker const&);
         };
 
+        // Does not throw: destructors use it.
+        inline boost::exception_ptr broken_promise_ptr()
+        {
+          try
+          {
+            return boost::copy_exception(broken_promise());
+          }
+          catch (...)
+          {
+            return boost::current_exception();
+          }
+        }
+
         struct shared_state_base : enable_shared_from_this<shared_state_base>
         {
             typedef std::list<boost::condition_variable_any*> waiter_list;
@@ -2318,7 +2331,7 @@ namespace boost
 
                 if(!future_->done && !future_->is_constructed)
                 {
-                    future_->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lock);
+                    future_->mark_exceptional_finish_internal(detail::broken_promise_ptr(), lock);
                 }
             }
         }
@@ -2635,7 +2648,7 @@ namespace boost
 
                 if(!future_->done && !future_->is_constructed)
                 {
-                    future_->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lock);
+                    future_->mark_exceptional_finish_internal(detail::broken_promise_ptr(), lock);
                 }
             }
         }
@@ -2828,7 +2841,7 @@ namespace boost
 
                 if(!future_->done && !future_->is_constructed)
                 {
-                    future_->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lock);
+                    future_->mark_exceptional_finish_internal(detail::broken_promise_ptr(), lock);
                 }
             }
         }
@@ -3076,7 +3089,7 @@ namespace boost
                 if(!started)
                 {
                     started=true;
-                    this->mark_exceptional_finish_internal(boost::copy_exception(boost::broken_promise()), lk);
+                    this->mark_exceptional_finish_internal(broken_promise_ptr(), lk);
                 }
             }
         };
-- 
2.43.0


From e7d1f879c610f2a59ad99c04310fcd7c210c5120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 31/65] fix: a continuation that cannot be launched gets the
 failure

---
 include/boost/thread/future.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index b813d0b..25500d6 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -298,11 +298,15 @@ namespace boost
             void do_continuation(boost::unique_lock<boost::mutex>& lock)
             {
                 if (! continuations.empty()) {
-                  continuations_type the_continuations = continuations;
-                  continuations.clear();
+                  continuations_type the_continuations;
+                  the_continuations.swap(continuations);
                   relocker rlk(lock);
                   for (continuations_type::iterator it = the_continuations.begin(); it != the_continuations.end(); ++it) {
-                    (*it)->launch_continuation();
+                    try {
+                      (*it)->launch_continuation();
+                    } catch (...) {
+                      (*it)->mark_exceptional_finish();
+                    }
                   }
                 }
             }
@@ -318,11 +322,16 @@ namespace boost
             void do_continuation(boost::unique_lock<boost::mutex>& lock) \
             { \
                 if (! this->continuations.empty()) { \
-                  continuations_type the_continuations = this->continuations; \
-                  this->continuations.clear(); \
+                  continuations_type the_continuations; \
+                  the_continuations.swap(this->continuations); \
                   relocker rlk(lock); \
                   for (continuations_type::iterator it = the_continuations.begin(); it != the_continuations.end(); ++it) { \
-                    (*it)->launch_continuation(); \
+                    try { \
+                      (*it)->launch_continuation(); \
+                    } catch (...) { \
+                      /* the setter is done: the failure belongs to the continuation, and the others must still run */ \
+                      (*it)->mark_exceptional_finish(); \
+                    } \
                   } \
                 } \
             }
-- 
2.43.0


From c091897d37c1fb99077193de86094966bfc929c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 32/65] fix: a continuation shares the executor it inherits
 from its parent

---
 include/boost/thread/future.hpp | 38 ++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 25500d6..d8533b2 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4815,6 +4815,13 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    // the executor of the parent: it is shared, as the parent can go first
+    void init(boost::unique_lock<boost::mutex> &lk, executor_ptr_type& ex)
+    {
+      this->set_executor_policy(ex, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       run_it<base_type> fct(static_shared_from_this(this));
       this->get_executor()->submit(boost::move(fct));
@@ -4894,6 +4901,13 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    // the executor of the parent: it is shared, as the parent can go first
+    void init(boost::unique_lock<boost::mutex> &lk, executor_ptr_type& ex)
+    {
+      this->set_executor_policy(ex, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       run_it<base_type> fct(static_shared_from_this(this));
       this->get_executor()->submit(boost::move(fct));
@@ -5107,8 +5121,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
       assert(this->future_->get_executor());
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor();
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                     lock, boost::move(*this), boost::forward<F>(func)
                 )));
@@ -5131,8 +5145,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
           assert(this->future_->get_executor());
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor();
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                         lock, boost::move(*this), boost::forward<F>(func)
                     )));
@@ -5233,8 +5247,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
       assert(this->future_->get_executor());
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor();
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                     lock, boost::move(*this), boost::forward<F>(func)
                 )));
@@ -5257,8 +5271,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
           assert(this->future_->get_executor());
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor();
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                         lock, boost::move(*this), boost::forward<F>(func)
                     )));
@@ -5359,8 +5373,8 @@ namespace detail {
               )));
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor();
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_shared_future_executor_continuation_shared_state<Ex, shared_future<R>, future_type>(ex,
                     lock, *this, boost::forward<F>(func)
                 )));
@@ -5382,8 +5396,8 @@ namespace detail {
                   )));
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor();
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_shared_future_executor_continuation_shared_state<Ex, shared_future<R>, future_type>(ex,
                         lock, *this, boost::forward<F>(func)
                     )));
-- 
2.43.0


From a4bd750859dd8d40b41433c7199348eb99132d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 33/65] fix: a deferred continuation waits for its parent
 without holding its own lock, and is not lost when that wait is interrupted

---
 include/boost/thread/future.hpp | 40 ++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index d8533b2..9d167b9 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -409,12 +409,18 @@ namespace boost
             void wait_internal(boost::unique_lock<boost::mutex> &lk, bool rethrow=true)
             {
               do_callback(lk);
-              if (is_deferred_)
+              while (!done)
               {
-                is_deferred_=false;
-                execute(lk);
+                if (is_deferred_)
+                {
+                  is_deferred_=false;
+                  execute(lk);
+                }
+                else
+                {
+                  waiters.wait(lk);
+                }
               }
-              waiters.wait(lk, boost::bind(&shared_state_base::is_done, this));
               if(rethrow && exception)
               {
                   boost::rethrow_exception(exception);
@@ -4931,8 +4937,19 @@ namespace detail {
       this->set_deferred();
     }
 
+    // the continuation runs in the thread that waits for it, so the parent doesn't have to know about it
+    void init(boost::unique_lock<boost::mutex>&) {    }
+
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      try {
+        relocker relock(lk);
+        this->parent.wait();
+      } catch (...) {
+        // waiting was interrupted: leave the continuation to the next thread that waits
+        this->is_deferred_ = true;
+        this->waiters.notify_all();
+        throw;
+      }
       this->call(lk);
     }
 
@@ -4954,8 +4971,19 @@ namespace detail {
       this->set_deferred();
     }
 
+    // the continuation runs in the thread that waits for it, so the parent doesn't have to know about it
+    void init(boost::unique_lock<boost::mutex>&) {    }
+
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      try {
+        relocker relock(lk);
+        this->parent.wait();
+      } catch (...) {
+        // waiting was interrupted: leave the continuation to the next thread that waits
+        this->is_deferred_ = true;
+        this->waiters.notify_all();
+        throw;
+      }
       this->call(lk);
     }
 
-- 
2.43.0


From e7a80832eedeaf04c408ed26b15dbc1c57d7494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 34/65] fix: when_all and when_any over a range keep the shared
 futures given valid

---
 include/boost/thread/future.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 9d167b9..714b852 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5668,6 +5668,18 @@ namespace detail
   BOOST_CONSTEXPR_OR_CONST input_iterator_tag input_iterator_tag_value = {};
   BOOST_CONSTEXPR_OR_CONST vector_tag vector_tag_value = {};
   BOOST_CONSTEXPR_OR_CONST values_tag values_tag_value = {};
+  // the futures of a range are moved, the shared futures are copied
+  template <class F>
+  struct when_iterator {
+    template <class InputIterator>
+    static std::move_iterator<InputIterator> make(InputIterator it) { return std::make_move_iterator(it); }
+  };
+  template <class R>
+  struct when_iterator<shared_future<R> > {
+    template <class InputIterator>
+    static InputIterator make(InputIterator it) { return it; }
+  };
+
   ////////////////////////////////
   // detail::future_async_when_all_shared_state
   ////////////////////////////////
@@ -5714,7 +5726,7 @@ namespace detail
   public:
     template< typename InputIterator>
     future_when_all_vector_shared_state(input_iterator_tag, InputIterator first, InputIterator last)
-    : vec_(std::make_move_iterator(first), std::make_move_iterator(last))
+    : vec_(when_iterator<F>::make(first), when_iterator<F>::make(last))
     {
     }
 
@@ -5785,7 +5797,7 @@ namespace detail
   public:
     template< typename InputIterator>
     future_when_any_vector_shared_state(input_iterator_tag, InputIterator first, InputIterator last)
-    : vec_(std::make_move_iterator(first), std::make_move_iterator(last))
+    : vec_(when_iterator<F>::make(first), when_iterator<F>::make(last))
     {
     }
 
-- 
2.43.0


From ecbd5118365b4588a884936e9417d4a00e947faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 35/65] fix: when_all runs all the deferred tasks of its
 arguments, when_any looks at its arguments in order

---
 include/boost/thread/future.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 714b852..0b6a3ec 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5841,15 +5841,17 @@ namespace detail
   };
 
 
-  template <class Tuple, std::size_t i=csbl::tuple_size<Tuple>::value>
+  // runs all the deferred tasks in order, returns whether there is any future that is not deferred
+  template <class Tuple, std::size_t i=0, std::size_t n=csbl::tuple_size<Tuple>::value>
   struct accumulate_run_if_is_deferred {
     bool operator ()(Tuple& t)
     {
-      return (! csbl::get<i-1>(t).run_if_is_deferred()) || accumulate_run_if_is_deferred<Tuple,i-1>()(t);
+      bool const res = ! csbl::get<i>(t).run_if_is_deferred();
+      return accumulate_run_if_is_deferred<Tuple,i+1,n>()(t) || res;
     }
   };
-  template <class Tuple>
-  struct accumulate_run_if_is_deferred<Tuple, 0> {
+  template <class Tuple, std::size_t n>
+  struct accumulate_run_if_is_deferred<Tuple, n, n> {
     bool operator ()(Tuple& )
     {
       return false;
@@ -5913,16 +5915,16 @@ namespace detail
   };
 
 
-  template <class Tuple, std::size_t i=csbl::tuple_size<Tuple>::value>
+  template <class Tuple, std::size_t i=0, std::size_t n=csbl::tuple_size<Tuple>::value>
   struct apply_any_run_if_is_deferred_or_ready {
     bool operator ()(Tuple& t)
     {
-      if (csbl::get<i-1>(t).run_if_is_deferred_or_ready()) return true;
-      return apply_any_run_if_is_deferred_or_ready<Tuple,i-1>()(t);
+      if (csbl::get<i>(t).run_if_is_deferred_or_ready()) return true;
+      return apply_any_run_if_is_deferred_or_ready<Tuple,i+1,n>()(t);
     }
   };
-  template <class Tuple>
-  struct apply_any_run_if_is_deferred_or_ready<Tuple, 0> {
+  template <class Tuple, std::size_t n>
+  struct apply_any_run_if_is_deferred_or_ready<Tuple, n, n> {
     bool operator ()(Tuple& )
     {
       return false;
-- 
2.43.0


From 82b00088c2cecffdac0bc96e33faa4afc2897b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 36/65] fix: concurrent wait_for_any calls don't deadlock on
 the order of their futures

---
 include/boost/thread/future.hpp               | 4 +++-
 include/boost/thread/futures/wait_for_any.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 0b6a3ec..0d6fd58 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1181,8 +1181,10 @@ namespace boost
                 {
                     for(count_type_portable i=0;i<count;++i)
                     {
-                        locks[i]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex));
+                        locks[i]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex, boost::defer_lock));
                     }
+                    // other threads can wait for the same futures in another order
+                    boost::lock(locks.get(), locks.get() + count);
                 }
 
                 void lock()
diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index 3f5d7b0..111396f 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -62,8 +62,10 @@ namespace boost
         {
           for (count_type_portable i = 0; i < count; ++i)
           {
-            locks[i] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex()));
+            locks[i] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex(), boost::defer_lock));
           }
+          // other threads can wait for the same futures in another order
+          boost::lock(locks.get(), locks.get() + count);
         }
 
         void lock()
-- 
2.43.0


From 8489f64fe07c99a320bddc600d595ab1b4b50b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 37/65] fix: wait_for_any copes with empty futures and with
 shared futures of one state

---
 include/boost/thread/future.hpp               | 12 +++++++++++-
 include/boost/thread/futures/wait_for_any.hpp | 14 ++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 0d6fd58..3f10b65 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1210,10 +1210,20 @@ namespace boost
                 future_count(0)
             {}
 
+            // several shared futures can refer to the same state, which must be locked once
+            bool registered(detail::shared_state_base const* state) const
+            {
+                for(count_type i=0;i<futures_.size();++i)
+                {
+                    if(futures_[i].future_.get()==state) return true;
+                }
+                return false;
+            }
+
             template<typename F>
             void add(F& f)
             {
-                if(f.future_)
+                if(f.future_ && ! registered(f.future_.get()))
                 {
                   registered_waiter waiter(f.future_,f.future_->notify_when_ready(cv),future_count);
                   try {
diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index 111396f..d4272d0 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -92,10 +92,20 @@ namespace boost
       {
       }
 
+      // several shared futures can refer to the same state, which must be locked once
+      bool registered(Future& f) const
+      {
+        for (count_type i = 0; i < waiters_.size(); ++i)
+        {
+          if (&waiters_[i].future_->mutex() == &f.mutex()) return true;
+        }
+        return false;
+      }
+
       template <typename F>
       void add(F& f)
       {
-        if (f.valid())
+        if (f.valid() && ! registered(f))
         {
           registered_waiter waiter(f, f.notify_when_ready(cv), future_count);
           try
@@ -107,8 +117,8 @@ namespace boost
             f.future_->unnotify_when_ready(waiter.handle);
             throw;
           }
-          ++future_count;
         }
+        ++future_count;
       }
 
 #ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
-- 
2.43.0


From 4827cca49d104f0189d43eb4bccd2b1ec85e13c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 38/65] fix: a basic_thread_pool whose destructor interrupts it
 completes the accepted closures

---
 include/boost/thread/executors/basic_thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index ef40ea0..430318c 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -98,7 +98,8 @@ namespace executors
           }
           catch (boost::thread_interrupted&)
           {
-            return;
+            // Once closed, the closures already accepted have to be completed.
+            if (! closed()) return;
           }
         }
       }
-- 
2.43.0


From cd4ee07f88873ad4abaeb0d94d6f0d379b0ba18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 39/65] fix: a basic_thread_pool that cannot create all its
 threads joins the others

---
 include/boost/thread/executors/basic_thread_pool.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index 430318c..96af968 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -157,6 +157,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -183,6 +184,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -202,6 +204,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -221,6 +224,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
-- 
2.43.0


From 00707ba0a0976d5ac8fe66f10d091c3f9fcfa098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 40/65] fix: a basic_thread_pool can be joined before it is
 destroyed

---
 include/boost/thread/executors/basic_thread_pool.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index 96af968..651a9b8 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -249,7 +249,8 @@ namespace executors
       for (unsigned i = 0; i < threads.size(); ++i)
       {
         //threads[i].interrupt();
-        threads[i].join();
+        if (threads[i].joinable())
+          threads[i].join();
       }
     }
 
@@ -272,7 +273,8 @@ namespace executors
       for (unsigned i = 0; i < threads.size(); ++i)
       {
         threads[i].interrupt();
-        threads[i].join();
+        if (threads[i].joinable())
+          threads[i].join();
       }
     }
 
-- 
2.43.0


From 61832d1d81e30cc5ee437a038dcbe16f92bfba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 41/65] fix: copies of a generic_executor_ref refer to its
 executor

---
 .../boost/thread/executors/generic_executor_ref.hpp   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/generic_executor_ref.hpp b/include/boost/thread/executors/generic_executor_ref.hpp
index abe7da4..a6c6619 100644
--- a/include/boost/thread/executors/generic_executor_ref.hpp
+++ b/include/boost/thread/executors/generic_executor_ref.hpp
@@ -105,8 +105,15 @@ namespace boost
     {
     }
 
-    //generic_executor_ref(generic_executor_ref const& other) noexcept    {}
-    //generic_executor_ref& operator=(generic_executor_ref const& other) noexcept    {}
+    // The copies refer to the same executor, also when the source is not const:
+    // the constructor above would refer to the source of the copy.
+    generic_executor_ref(generic_executor_ref const& other) : ex(other.ex) {}
+    generic_executor_ref(generic_executor_ref& other) : ex(other.ex) {}
+    generic_executor_ref& operator=(generic_executor_ref const& other)
+    {
+      ex = other.ex;
+      return *this;
+    }
 
 
     /**
-- 
2.43.0


From 95c3d730e0427e2dab53cea6c32bc703b9cb9546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 42/65] fix: thread_executor joins its threads before its mutex
 is destroyed

---
 include/boost/thread/executors/thread_executor.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/thread_executor.hpp b/include/boost/thread/executors/thread_executor.hpp
index 9de87b1..6458f35 100644
--- a/include/boost/thread/executors/thread_executor.hpp
+++ b/include/boost/thread/executors/thread_executor.hpp
@@ -73,7 +73,9 @@ namespace executors
     {
       // signal to all the worker thread that there will be no more submissions.
       close();
-      // all the scoped threads will join before destroying
+      // all the scoped threads will join before destroying;
+      // the closures can still call member functions meanwhile.
+      threads_.clear();
     }
 
     /**
-- 
2.43.0


From ac09b11b61df5561939c127177dc565f818d8a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 43/65] fix: the destructor of serial_executor_cont waits for
 its closures

---
 include/boost/thread/executors/serial_executor_cont.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/thread/executors/serial_executor_cont.hpp b/include/boost/thread/executors/serial_executor_cont.hpp
index baccf73..1a49b31 100644
--- a/include/boost/thread/executors/serial_executor_cont.hpp
+++ b/include/boost/thread/executors/serial_executor_cont.hpp
@@ -99,6 +99,11 @@ namespace executors
     {
       // signal to the worker thread that there will be no more submissions.
       close();
+      // waits for the last closure: the continuations make use of ex_.
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      this_thread::disable_interruption di;
+#endif
+      if (fut_.valid()) fut_.wait();
     }
 
     /**
-- 
2.43.0


From c2749dc50e6640ce7ed9847d55fcdf63e956554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 44/65] fix: a serial_executor_cont survives a submission that
 runs out of memory

---
 .../boost/thread/executors/serial_executor_cont.hpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/executors/serial_executor_cont.hpp b/include/boost/thread/executors/serial_executor_cont.hpp
index 1a49b31..4fbc771 100644
--- a/include/boost/thread/executors/serial_executor_cont.hpp
+++ b/include/boost/thread/executors/serial_executor_cont.hpp
@@ -38,7 +38,7 @@ namespace executors
   private:
 
     generic_executor_ref ex_;
-    BOOST_THREAD_FUTURE<void> fut_; // protected by mtx_
+    shared_future<void> fut_; // protected by mtx_; shared so that a failing then() doesn't consume it
     bool closed_; // protected by mtx_
     mutex mtx_;
 
@@ -50,7 +50,7 @@ namespace executors
       };
       continuation(BOOST_THREAD_RV_REF(work) tsk)
       : task(boost::move(tsk)) {}
-      void operator()(BOOST_THREAD_FUTURE<void> f)
+      void operator()(shared_future<void> f)
       {
         try {
           task();
@@ -87,7 +87,7 @@ namespace executors
      */
     template <class Executor>
     serial_executor_cont(Executor& ex)
-    : ex_(ex), fut_(make_ready_future()), closed_(false)
+    : ex_(ex), fut_(make_ready_future().share()), closed_(false)
     {
     }
     /**
@@ -153,14 +153,14 @@ namespace executors
     {
       lock_guard<mutex> lk(mtx_);
       if (closed(lk))       BOOST_THROW_EXCEPTION( sync_queue_is_closed() );
-      fut_ = fut_.then(ex_, continuation(work(closure)));
+      fut_ = fut_.then(ex_, continuation(work(closure))).share();
     }
 #endif
     void submit(void (*closure)())
     {
       lock_guard<mutex> lk(mtx_);
       if (closed(lk))       BOOST_THROW_EXCEPTION( sync_queue_is_closed() );
-      fut_ = fut_.then(ex_, continuation(work(closure)));
+      fut_ = fut_.then(ex_, continuation(work(closure))).share();
     }
 
     template <typename Closure>
@@ -168,7 +168,7 @@ namespace executors
     {
       lock_guard<mutex> lk(mtx_);
       if (closed(lk))       BOOST_THROW_EXCEPTION( sync_queue_is_closed() );
-      fut_ = fut_.then(ex_, continuation(work(boost::forward<Closure>(closure))));
+      fut_ = fut_.then(ex_, continuation(work(boost::forward<Closure>(closure)))).share();
     }
 
   };
-- 
2.43.0


From 629c110e7a079ef028037c8d74d303a5ca4e275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 45/65] fix: submitting an lvalue to the executors derived from
 a scheduler doesn't move it

---
 include/boost/thread/executors/scheduler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 654c9fb..1d244b7 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -50,7 +50,7 @@ namespace boost
     template <class Executor, class Function>
     resubmitter<Executor, typename decay<Function>::type>
     resubmit(Executor& ex, BOOST_THREAD_FWD_REF(Function) funct) {
-      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::move(funct));
+      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::forward<Function>(funct));
     }
 
     /// Wraps references to a @c Scheduler and an @c Executor providing an @c Executor that
-- 
2.43.0


From 405ac3b9e81d13696987ec8a894ffd8f514e1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 46/65] fix: a scheduled_thread_pool that cannot create all its
 threads joins the others

---
 .../thread/executors/scheduled_thread_pool.hpp     | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index 6202f2d..c66bf0b 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -26,9 +26,19 @@ namespace executors
 
     scheduled_thread_pool(size_t num_threads) : super()
     {
-      for(size_t i = 0; i < num_threads; i++)
+      try
       {
-        _workers.create_thread(bind(&super::loop, this));
+        for(size_t i = 0; i < num_threads; i++)
+        {
+          _workers.create_thread(bind(&super::loop, this));
+        }
+      }
+      catch (...)
+      {
+        this->close();
+        _workers.interrupt_all();
+        _workers.join_all();
+        throw;
       }
     }
 
-- 
2.43.0


From d688a0a4428b4a02c2e7e95a2b3cca5dd3d3353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 47/65] fix: thread_group::create_thread allocates before it
 starts the thread

---
 include/boost/thread/detail/thread_group.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/detail/thread_group.hpp b/include/boost/thread/detail/thread_group.hpp
index 4105c73..25f21ff 100644
--- a/include/boost/thread/detail/thread_group.hpp
+++ b/include/boost/thread/detail/thread_group.hpp
@@ -76,8 +76,11 @@ namespace boost
         thread* create_thread(F threadfunc)
         {
             boost::lock_guard<shared_mutex> guard(m);
+            // Nothing may fail once the thread has been started.
+            std::list<thread*> node(1);
             boost::csbl::unique_ptr<thread> new_thread(new thread(threadfunc));
-            threads.push_back(new_thread.get());
+            node.front() = new_thread.get();
+            threads.splice(threads.end(), node);
             return new_thread.release();
         }
 
-- 
2.43.0


From 8b5811be6b7afd159f566c0d3cd7370ef34ee5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 48/65] fix: reverse_lock re-acquires shared and upgrade
 ownership as such

---
 include/boost/thread/reverse_lock.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/reverse_lock.hpp b/include/boost/thread/reverse_lock.hpp
index 479c314..0692402 100644
--- a/include/boost/thread/reverse_lock.hpp
+++ b/include/boost/thread/reverse_lock.hpp
@@ -33,8 +33,10 @@ namespace boost
         ~reverse_lock()
         {
           if (mtx) {
-            mtx->lock();
-            m = BOOST_THREAD_MAKE_RV_REF(Lock(*mtx, adopt_lock));
+            // lock through the Lock type: it knows which kind of ownership it releases.
+            Lock l(*mtx, defer_lock);
+            l.lock();
+            m = ::boost::move(l);
           }
         }
 
-- 
2.43.0


From 232eb6bc2a2cb48f837fb37c51e3d2d14cbcb03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 49/65] fix: comparing a synchronized_value with itself does
 not deadlock

---
 include/boost/thread/synchronized_value.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/thread/synchronized_value.hpp b/include/boost/thread/synchronized_value.hpp
index 4e48a85..29a7edc 100644
--- a/include/boost/thread/synchronized_value.hpp
+++ b/include/boost/thread/synchronized_value.hpp
@@ -840,6 +840,7 @@ namespace boost
      */
     bool operator==(synchronized_value const& rhs)  const
     {
+      if (this == &rhs) return *this == value_; // lock the mutex once
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -852,6 +853,7 @@ namespace boost
      */
     bool operator<(synchronized_value const& rhs) const
     {
+      if (this == &rhs) return *this < value_; // lock the mutex once
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -864,6 +866,7 @@ namespace boost
      */
     bool operator>(synchronized_value const& rhs) const
     {
+      if (this == &rhs) return *this > value_; // lock the mutex once
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -872,6 +875,7 @@ namespace boost
     }
     bool operator<=(synchronized_value const& rhs) const
     {
+      if (this == &rhs) return *this <= value_; // lock the mutex once
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -880,6 +884,7 @@ namespace boost
     }
     bool operator>=(synchronized_value const& rhs) const
     {
+      if (this == &rhs) return *this >= value_; // lock the mutex once
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
-- 
2.43.0


From a771550dd68acac9e1b5e90e844db3cae292fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 50/65] fix: destroying a thread pool or scheduler in an
 interrupted thread does not terminate

---
 include/boost/thread/executors/basic_thread_pool.hpp   | 10 ++++++++++
 .../boost/thread/executors/scheduled_thread_pool.hpp   |  4 ++++
 include/boost/thread/executors/scheduler.hpp           |  2 ++
 include/boost/thread/executors/scheduling_adaptor.hpp  |  2 ++
 4 files changed, 18 insertions(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index 651a9b8..a8caad2 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -157,6 +157,8 @@ namespace executors
       catch (...)
       {
         close();
+        // the threads already created use this object
+        boost::this_thread::disable_interruption do_not_disturb;
         interrupt_and_join();
         throw;
       }
@@ -184,6 +186,8 @@ namespace executors
       catch (...)
       {
         close();
+        // the threads already created use this object
+        boost::this_thread::disable_interruption do_not_disturb;
         interrupt_and_join();
         throw;
       }
@@ -204,6 +208,8 @@ namespace executors
       catch (...)
       {
         close();
+        // the threads already created use this object
+        boost::this_thread::disable_interruption do_not_disturb;
         interrupt_and_join();
         throw;
       }
@@ -224,6 +230,8 @@ namespace executors
       catch (...)
       {
         close();
+        // the threads already created use this object
+        boost::this_thread::disable_interruption do_not_disturb;
         interrupt_and_join();
         throw;
       }
@@ -237,6 +245,8 @@ namespace executors
     {
       // signal to all the worker threads that there will be no more submissions.
       close();
+      // exceptions from a destructor call std::terminate
+      boost::this_thread::disable_interruption do_not_disturb;
       // joins all the threads before destroying the thread pool resources (e.g. the queue).
       interrupt_and_join();
     }
diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index c66bf0b..6943e61 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -36,6 +36,8 @@ namespace executors
       catch (...)
       {
         this->close();
+        // the threads already created use this object
+        boost::this_thread::disable_interruption do_not_disturb;
         _workers.interrupt_all();
         _workers.join_all();
         throw;
@@ -45,6 +47,8 @@ namespace executors
     ~scheduled_thread_pool()
     {
       this->close();
+      // exceptions from a destructor call std::terminate
+      boost::this_thread::disable_interruption do_not_disturb;
       _workers.interrupt_all();
       _workers.join_all();
     }
diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 1d244b7..5b44890 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -237,6 +237,8 @@ namespace boost
       ~scheduler()
       {
         this->close();
+        // exceptions from a destructor call std::terminate
+        boost::this_thread::disable_interruption do_not_disturb;
         thr.interrupt();
         thr.join();
       }
diff --git a/include/boost/thread/executors/scheduling_adaptor.hpp b/include/boost/thread/executors/scheduling_adaptor.hpp
index 9a432f9..e4b57f3 100644
--- a/include/boost/thread/executors/scheduling_adaptor.hpp
+++ b/include/boost/thread/executors/scheduling_adaptor.hpp
@@ -38,6 +38,8 @@ namespace executors
     ~scheduling_adaptor()
     {
       this->close();
+      // exceptions from a destructor call std::terminate
+      boost::this_thread::disable_interruption do_not_disturb;
       _scheduler.interrupt();
       _scheduler.join();
     }
-- 
2.43.0


From 0eedffa894e950df88736e202bcb0a163beca4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 51/65] fix: task_region_handle::run does not lose a started
 task when memory runs out

---
 .../boost/thread/experimental/parallel/v2/task_region.hpp  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/thread/experimental/parallel/v2/task_region.hpp b/include/boost/thread/experimental/parallel/v2/task_region.hpp
index b8ec759..a1082a3 100644
--- a/include/boost/thread/experimental/parallel/v2/task_region.hpp
+++ b/include/boost/thread/experimental/parallel/v2/task_region.hpp
@@ -214,6 +214,13 @@ protected:
           boost::throw_exception(task_canceled_exception());
         }
       }
+#endif
+      // Once the task has been started its future must not get lost.
+      if (group.size() == group.capacity())
+      {
+        group.reserve(2 * group.size() + 1);
+      }
+#if defined BOOST_THREAD_TASK_REGION_HAS_SHARED_CANCELED
 #if defined BOOST_THREAD_PROVIDES_EXECUTORS
       group.push_back(async(*ex, detail::wrapped<task_region_handle_gen<Executor>, F>(*this, forward<F>(f))));
 #else
-- 
2.43.0


From f861641940becdd54d32eb10739208f17893b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 52/65] fix: a task_region waits for its tasks when interrupted
 or out of memory

---
 .../experimental/parallel/v2/task_region.hpp  | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/experimental/parallel/v2/task_region.hpp b/include/boost/thread/experimental/parallel/v2/task_region.hpp
index a1082a3..c8a61d3 100644
--- a/include/boost/thread/experimental/parallel/v2/task_region.hpp
+++ b/include/boost/thread/experimental/parallel/v2/task_region.hpp
@@ -148,6 +148,32 @@ BOOST_THREAD_INLINE_NAMESPACE(v2)
         boost::throw_exception(exs);
       }
     }
+
+    // Called when the body of the region exits with an exception
+    void add_current_exception()
+    {
+      try
+      {
+        detail::handle_task_region_exceptions(exs);
+      }
+      catch (...)
+      {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        boost::this_thread::disable_interruption di;
+#endif
+        wait_for_all(group.begin(), group.end());
+        throw;
+      }
+    }
+
+    // The tasks refer to this object: the end of the region cannot be interrupted.
+    void wait_all_uninterrupted()
+    {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption di;
+#endif
+      wait_all();
+    }
 protected:
 #if ! defined BOOST_THREAD_TASK_REGION_HAS_SHARED_CANCELED && ! defined BOOST_THREAD_PROVIDES_EXECUTORS
     task_region_handle_gen()
@@ -285,9 +311,9 @@ protected:
     }
     catch (...)
     {
-      detail::handle_task_region_exceptions(tr.exs);
+      tr.add_current_exception();
     }
-    tr.wait_all();
+    tr.wait_all_uninterrupted();
   }
 
   template <typename Executor, typename F>
@@ -306,9 +332,9 @@ protected:
     }
     catch (...)
     {
-      detail::handle_task_region_exceptions(tr.exs);
+      tr.add_current_exception();
     }
-    tr.wait_all();
+    tr.wait_all_uninterrupted();
   }
 
   template <typename F>
-- 
2.43.0


From 9c4f015cb67c9b0034e4ecc7fa4d5b9836e33234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 53/65] fix: at_thread_exit does not leak its function when
 memory runs out

---
 include/boost/thread/detail/thread.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/detail/thread.hpp b/include/boost/thread/detail/thread.hpp
index a1bfe64..d207ae9 100644
--- a/include/boost/thread/detail/thread.hpp
+++ b/include/boost/thread/detail/thread.hpp
@@ -22,6 +22,7 @@
 #include <boost/thread/interruption.hpp>
 #endif
 #include <boost/thread/detail/thread_heap_alloc.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/thread/detail/make_tuple_indices.hpp>
 #include <boost/thread/detail/invoke.hpp>
 #include <boost/thread/detail/is_convertible.hpp>
@@ -854,7 +855,16 @@ namespace boost
         void at_thread_exit(F f)
         {
             detail::thread_exit_function_base* const thread_exit_func=detail::heap_new<detail::thread_exit_function<F> >(f);
-            detail::add_thread_exit_function(thread_exit_func);
+            BOOST_TRY
+            {
+                detail::add_thread_exit_function(thread_exit_func);
+            }
+            BOOST_CATCH(...)
+            {
+                detail::heap_delete(thread_exit_func);
+                BOOST_RETHROW
+            }
+            BOOST_CATCH_END
         }
     }
 }
-- 
2.43.0


From 74ce2e236f1193ccc46a1b621f7f9ac95686329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 54/65] fix: notify_all_at_thread_exit releases its lock when
 memory runs out

---
 src/pthread/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 7f2ec28..13c4827 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -822,7 +822,8 @@ namespace boost
         detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
         if(current_thread_data)
         {
-            current_thread_data->notify_all_at_thread_exit(&cond, lk.release());
+            current_thread_data->notify_all_at_thread_exit(&cond, lk.mutex());
+            lk.release();
         }
     }
 
-- 
2.43.0


From 966ba64fd4fddec4aa3798e3fe0468f12017d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 55/65] fix: a promise stays unset when registering it for the
 thread exit runs out of memory

---
 include/boost/thread/future.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 3f10b65..8e40daa 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -499,6 +499,21 @@ namespace boost
               exception=e;
               this->is_constructed = true;
             }
+            // Called with the deferred result stored, which is taken back if this cannot be registered.
+            void register_at_thread_exit()
+            {
+              try
+              {
+                detail::make_ready_at_thread_exit(shared_from_this());
+              }
+              catch (...)
+              {
+                unique_lock<boost::mutex> lk(this->mutex);
+                exception = exception_ptr();
+                this->is_constructed = false;
+                throw;
+              }
+            }
             void set_exception_at_thread_exit(exception_ptr e)
             {
               set_exception_deferred(e);
@@ -509,7 +524,7 @@ namespace boost
 //              }
 //              exception=e;
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->register_at_thread_exit();
             }
 
             bool has_value() const
@@ -748,7 +763,7 @@ namespace boost
 //#endif
 //
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->register_at_thread_exit();
             }
             void set_value_at_thread_exit(rvalue_source_type result_)
             {
@@ -771,7 +786,7 @@ namespace boost
 //#endif
 //#endif
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->register_at_thread_exit();
             }
 
         private:
@@ -854,7 +869,7 @@ namespace boost
 //                  throw_exception(promise_already_satisfied());
 //              result= &result_;
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->register_at_thread_exit();
             }
 
         private:
@@ -928,7 +943,7 @@ namespace boost
 //                  throw_exception(promise_already_satisfied());
 //              }
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->register_at_thread_exit();
             }
         private:
             shared_state(shared_state const&);
-- 
2.43.0


From 7a12df1c6361d52bba9ce454d1bc15763a577b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 56/65] fix: user_scheduler::run_queued_closures runs the
 queued closures

---
 include/boost/thread/user_scheduler.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/user_scheduler.hpp b/include/boost/thread/user_scheduler.hpp
index 4d02658..8dc6667 100644
--- a/include/boost/thread/user_scheduler.hpp
+++ b/include/boost/thread/user_scheduler.hpp
@@ -187,11 +187,11 @@ namespace boost
     void run_queued_closures()
     {
       sync_queue<work>::underlying_queue_type q = work_queue.underlying_queue();
-      while (q.empty())
+      while (! q.empty())
       {
-        work task = q.front();
-        q.pop_front();
+        work& task = q.front();
         task();
+        q.pop_front();
       }
     }
 
-- 
2.43.0


From 90f9573237043e3a6fa151d3504df21b127a9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 57/65] fix: define the destructors of the polymorphic
 lockables

---
 include/boost/thread/poly_lockable.hpp        | 6 +++---
 include/boost/thread/poly_shared_lockable.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/thread/poly_lockable.hpp b/include/boost/thread/poly_lockable.hpp
index 751d8ae..57470ee 100644
--- a/include/boost/thread/poly_lockable.hpp
+++ b/include/boost/thread/poly_lockable.hpp
@@ -22,7 +22,7 @@ namespace boost
   {
   public:
 
-    virtual ~basic_poly_lockable() = 0;
+    virtual ~basic_poly_lockable() {}
 
     virtual void lock() = 0;
     virtual void unlock() = 0;
@@ -38,7 +38,7 @@ namespace boost
   {
   public:
 
-    virtual ~poly_lockable() = 0;
+    virtual ~poly_lockable() {}
     virtual bool try_lock() = 0;
   };
   //]
@@ -47,7 +47,7 @@ namespace boost
   class timed_poly_lockable: public poly_lockable
   {
   public:
-    virtual ~timed_poly_lockable()=0;
+    virtual ~timed_poly_lockable() {}
 
     virtual bool try_lock_until(chrono::system_clock::time_point const & abs_time)=0;
     virtual bool try_lock_until(chrono::steady_clock::time_point const & abs_time)=0;
diff --git a/include/boost/thread/poly_shared_lockable.hpp b/include/boost/thread/poly_shared_lockable.hpp
index 869017b..aec8263 100644
--- a/include/boost/thread/poly_shared_lockable.hpp
+++ b/include/boost/thread/poly_shared_lockable.hpp
@@ -22,7 +22,7 @@ namespace boost
   class shared_poly_lockable: public timed_poly_lockable
   {
   public:
-    virtual ~shared_poly_lockable() = 0;
+    virtual ~shared_poly_lockable() {}
 
     virtual void lock_shared() = 0;
     virtual bool try_lock_shared() = 0;
@@ -53,7 +53,7 @@ namespace boost
   class upgrade_poly_lockable: public shared_poly_lockable
   {
   public:
-    virtual ~upgrade_poly_lockable() = 0;
+    virtual ~upgrade_poly_lockable() {}
 
     virtual void lock_upgrade() = 0;
     virtual bool try_lock_upgrade() = 0;
-- 
2.43.0


From 2143b4fab65696a7634e771c38a0b290ab6779f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 58/65] fix: the allocator constructors of promise and
 packaged_task release the memory when they throw

The memory came from allocate(), and the shared state was then constructed in
it: when that threw (no mutex, no memory, or a throwing copy of the function)
nobody returned the memory to the allocator.
---
 include/boost/thread/detail/memory.hpp | 24 ++++++++++++++++++
 include/boost/thread/future.hpp        | 35 ++++++++++++++++++++------
 2 files changed, 52 insertions(+), 7 deletions(-)

diff --git a/include/boost/thread/detail/memory.hpp b/include/boost/thread/detail/memory.hpp
index 51ce84f..8d4d95c 100644
--- a/include/boost/thread/detail/memory.hpp
+++ b/include/boost/thread/detail/memory.hpp
@@ -43,6 +43,30 @@ namespace boost
         alloc_traits::deallocate(alloc_, p, s_);
       }
     };
+
+    // Memory for one object, given back unless the construction of the object succeeds.
+    template <class _Alloc>
+    class allocated_memory
+    {
+      typedef csbl::allocator_traits<_Alloc> alloc_traits;
+    public:
+      typedef typename alloc_traits::pointer pointer;
+    private:
+      _Alloc& alloc_;
+      pointer p_;
+      allocated_memory(allocated_memory const&);
+      allocated_memory& operator=(allocated_memory const&);
+    public:
+      explicit allocated_memory(_Alloc& a)
+      : alloc_(a), p_(alloc_traits::allocate(alloc_, 1))
+      {}
+      ~allocated_memory()
+      {
+        if (p_) alloc_traits::deallocate(alloc_, p_, 1);
+      }
+      pointer get() const BOOST_NOEXCEPT { return p_; }
+      void release() BOOST_NOEXCEPT { p_ = pointer(); }
+    };
   } //namespace thread_detail
 }
 #endif //  BOOST_THREAD_DETAIL_MEMORY_HPP
diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 8e40daa..58036d6 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2352,7 +2352,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          future_ = future_ptr(::new(a2.allocate(1)) detail::shared_state<R>(), D(a2, 1) );
+          thread_detail::allocated_memory<A2> memory(a2);
+          detail::shared_state<R>* const state = ::new(memory.get()) detail::shared_state<R>();
+          memory.release();
+          future_ = future_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 #endif
@@ -2669,7 +2672,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          future_ = future_ptr(::new(a2.allocate(1)) detail::shared_state<R&>(), D(a2, 1) );
+          thread_detail::allocated_memory<A2> memory(a2);
+          detail::shared_state<R&>* const state = ::new(memory.get()) detail::shared_state<R&>();
+          memory.release();
+          future_ = future_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 #endif
@@ -2862,7 +2868,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          future_ = future_ptr(::new(a2.allocate(1)) detail::shared_state<void>(), D(a2, 1) );
+          thread_detail::allocated_memory<A2> memory(a2);
+          detail::shared_state<void>* const state = ::new(memory.get()) detail::shared_state<void>();
+          memory.release();
+          future_ = future_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 #endif
@@ -3774,7 +3783,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          task = task_ptr(::new(a2.allocate(1)) task_shared_state_type(f), D(a2, 1) );
+          thread_detail::allocated_memory<A2> memory(a2);
+          task_shared_state_type* const state = ::new(memory.get()) task_shared_state_type(f);
+          memory.release();
+          task = task_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 #endif // BOOST_THREAD_RVALUE_REFERENCES_DONT_MATCH_FUNCTION_PTR
@@ -3798,7 +3810,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          task = task_ptr(::new(a2.allocate(1)) task_shared_state_type(boost::forward<F>(f)), D(a2, 1) );
+          thread_detail::allocated_memory<A2> memory(a2);
+          task_shared_state_type* const state = ::new(memory.get()) task_shared_state_type(boost::forward<F>(f));
+          memory.release();
+          task = task_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 #else // ! defined BOOST_NO_CXX11_RVALUE_REFERENCES
@@ -3818,7 +3833,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          task = task_ptr(::new(a2.allocate(1)) task_shared_state_type(f), D(a2, 1) );
+          thread_detail::allocated_memory<A2> memory(a2);
+          task_shared_state_type* const state = ::new(memory.get()) task_shared_state_type(f);
+          memory.release();
+          task = task_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
         template <class F, class Allocator>
@@ -3837,7 +3855,10 @@ namespace boost
           A2 a2(a);
           typedef thread_detail::allocator_destructor<A2> D;
 
-          task = task_ptr(::new(a2.allocate(1)) task_shared_state_type(boost::move(f)), D(a2, 1) );
+          thread_detail::allocated_memory<A2> memory(a2);
+          task_shared_state_type* const state = ::new(memory.get()) task_shared_state_type(boost::move(f));
+          memory.release();
+          task = task_ptr(state, D(a2, 1) );
           future_obtained = false;
         }
 
-- 
2.43.0


From 9ad964f1ab0aa37e112d6e8bc3522d0f7f23c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:38 +0000
Subject: [PATCH 59/65] fix: a writer that waits for a shared_mutex keeps new
 readers out also after it lost a race for it

Releasing the mutex cleared exclusive_waiting_blocked and woke readers and a
writer. When the readers were faster, the writer went back to sleep without
setting the flag again, so further readers got in for as long as they
overlapped and the writer starved.
---
 include/boost/thread/pthread/shared_mutex.hpp | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index 0f9ba24..c214cdc 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -79,6 +79,19 @@ namespace boost
                 return ! (shared_count || exclusive);
             }
 
+            // Evaluated by a waiting writer each time it wakes. Whoever released
+            // the mutex has let everybody in again, so when others were faster
+            // the writer has to keep further readers out until they are gone.
+            bool can_lock_or_block_shared ()
+            {
+                if(can_lock())
+                {
+                    return true;
+                }
+                exclusive_waiting_blocked = true;
+                return false;
+            }
+
             void lock ()
             {
                 exclusive = true;
@@ -283,7 +296,7 @@ namespace boost
 #endif
             boost::unique_lock<boost::mutex> lk(state_change);
             state.exclusive_waiting_blocked=true;
-            exclusive_cond.wait(lk, boost::bind(&state_data::can_lock, &state));
+            exclusive_cond.wait(lk, boost::bind(&state_data::can_lock_or_block_shared, &state));
             state.exclusive=true;
         }
 
@@ -295,7 +308,7 @@ namespace boost
 #endif
             boost::unique_lock<boost::mutex> lk(state_change);
             state.exclusive_waiting_blocked=true;
-            if(!exclusive_cond.timed_wait(lk, timeout, boost::bind(&state_data::can_lock, &state)))
+            if(!exclusive_cond.timed_wait(lk, timeout, boost::bind(&state_data::can_lock_or_block_shared, &state)))
             {
                 state.exclusive_waiting_blocked=false;
                 release_waiters();
@@ -313,7 +326,7 @@ namespace boost
 #endif
             boost::unique_lock<boost::mutex> lk(state_change);
             state.exclusive_waiting_blocked=true;
-            if(!exclusive_cond.timed_wait(lk, relative_time, boost::bind(&state_data::can_lock, &state)))
+            if(!exclusive_cond.timed_wait(lk, relative_time, boost::bind(&state_data::can_lock_or_block_shared, &state)))
             {
                 state.exclusive_waiting_blocked=false;
                 release_waiters();
@@ -337,7 +350,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.exclusive_waiting_blocked=true;
-          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock, &state)))
+          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_or_block_shared, &state)))
           {
               state.exclusive_waiting_blocked=false;
               release_waiters();
-- 
2.43.0


From 55ac5978972f37523277c73fc41f7ae4368aab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:52 +0000
Subject: [PATCH 60/65] fix: unlock_upgrade_and_lock keeps new readers out of a
 shared_mutex while it waits

---
 include/boost/thread/pthread/shared_mutex.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index c214cdc..e77d0a5 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -36,6 +36,7 @@ namespace boost
               shared_count(0),
               exclusive(false),
               upgrade(false),
+              upgrade_waiting(false),
               exclusive_waiting_blocked(false)
             {}
 
@@ -105,7 +106,7 @@ namespace boost
 
             bool can_lock_shared () const
             {
-                return ! (exclusive || exclusive_waiting_blocked);
+                return ! (exclusive || exclusive_waiting_blocked || upgrade_waiting);
             }
 
             bool no_shared () const
@@ -156,6 +157,9 @@ namespace boost
             unsigned shared_count;
             bool exclusive;
             bool upgrade;
+            // an upgrade owner waits for the shared owners to leave; it must not
+            // be kept waiting by new ones
+            bool upgrade_waiting;
             bool exclusive_waiting_blocked;
         };
 
@@ -483,7 +487,9 @@ namespace boost
             boost::unique_lock<boost::mutex> lk(state_change);
             state.assert_lock_upgraded();
             state.unlock_shared();
+            state.upgrade_waiting=true;
             upgrade_cond.wait(lk, boost::bind(&state_data::no_shared, &state));
+            state.upgrade_waiting=false;
             state.upgrade=false;
             state.exclusive=true;
             state.assert_locked();
-- 
2.43.0


From e8fc0120330438e93e57999ec0e255cf9b972760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:56 +0000
Subject: [PATCH 61/65] fix: what is set or notified at thread exit is lost on
 threads not started by boost::thread

promise::set_*_at_thread_exit, packaged_task::make_ready_at_thread_exit and
notify_all_at_thread_exit did nothing on a thread without thread data, so the
future never became ready; with thread data of an external thread the mutex
passed to notify_all_at_thread_exit stayed locked for ever, and the destructor
dropped the shared states. Make the thread data if needed and let its
destructor, run by the TLS destructor, do the notifications.
---
 src/pthread/thread.cpp | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 13c4827..36b3ffc 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -235,20 +235,9 @@ namespace boost
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
                 interrupt_enabled=false;
 #endif
-            }
-            ~externally_launched_thread()
-            {
-                BOOST_ASSERT(notify.empty());
-                notify.clear();
-//#ifndef BOOST_NO_EXCEPTIONS
-                BOOST_ASSERT(async_states_.empty());
-                async_states_.clear();
-//#endif
             }
             void run()
             {}
-            void notify_all_at_thread_exit(condition_variable*, mutex*)
-            {}
 
         private:
             externally_launched_thread(externally_launched_thread&);
@@ -819,12 +808,9 @@ namespace boost
 
     BOOST_THREAD_DECL void notify_all_at_thread_exit(condition_variable& cond, unique_lock<mutex> lk)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
-        if(current_thread_data)
-        {
-            current_thread_data->notify_all_at_thread_exit(&cond, lk.mutex());
-            lk.release();
-        }
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
+        current_thread_data->notify_all_at_thread_exit(&cond, lk.mutex());
+        lk.release();
     }
 
 //#ifndef BOOST_NO_EXCEPTIONS
@@ -832,11 +818,8 @@ namespace detail
 {
     void BOOST_THREAD_DECL make_ready_at_thread_exit(shared_ptr<shared_state_base> as)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
-        if(current_thread_data)
-        {
-            current_thread_data->make_ready_at_thread_exit(as);
-        }
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
+        current_thread_data->make_ready_at_thread_exit(as);
     }
 }
 //#endif
-- 
2.43.0


From 88e923ac88be04dd11f7979715cc38e7d70a2bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:04 +0000
Subject: [PATCH 62/65] fix: exit functions registered by other exit functions
 are lost on threads not started by boost::thread

The value of the TLS key is reset before its destructor runs, so what exit
functions and thread-specific cleanups register went to new thread data, which
only PTHREAD_DESTRUCTOR_ITERATIONS rounds clean up. Keep the data of the thread
current while they run, as it is on a boost::thread.
---
 src/pthread/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 36b3ffc..a66484f 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -102,6 +102,9 @@ namespace boost
 
                     if(thread_info)
                     {
+                        // What runs below still finds the data of its thread, although the value
+                        // of the key is reset before its destructor is called.
+                        BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,thread_info.get()));
                         while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks)
                         {
 
@@ -138,6 +141,7 @@ namespace boost
                                 thread_info->tss_data.erase(current);
                             }
                         }
+                        BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,0));
                         thread_info->self.reset();
                     }
                 }
-- 
2.43.0


From 9f19e0ad49c57db0cc0ccb21dc582dd6fd6e1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:20 +0000
Subject: [PATCH 63/65] fix: timed_lock of a special duration reports a lock
 that was not taken

timed_mutex::timed_lock and recursive_timed_mutex::timed_lock returned true
without locking for neg_infin and not_a_date_time, as a condition variable may.
Try to lock instead.
---
 include/boost/thread/pthread/mutex.hpp           | 2 +-
 include/boost/thread/pthread/recursive_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/mutex.hpp b/include/boost/thread/pthread/mutex.hpp
index 94a7388..a6262ba 100644
--- a/include/boost/thread/pthread/mutex.hpp
+++ b/include/boost/thread/pthread/mutex.hpp
@@ -142,7 +142,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
diff --git a/include/boost/thread/pthread/recursive_mutex.hpp b/include/boost/thread/pthread/recursive_mutex.hpp
index 2aaf425..de4d981 100644
--- a/include/boost/thread/pthread/recursive_mutex.hpp
+++ b/include/boost/thread/pthread/recursive_mutex.hpp
@@ -248,7 +248,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
-- 
2.43.0


From e8f0ea6367e26737c6cbf3af8bc2a0f607c51e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:20 +0000
Subject: [PATCH 64/65] fix: infinite and very far absolute times are taken as
 times in the past

The conversion to nanoseconds overflowed, so waits, locks, joins and sleeps
until system_time(pos_infin), as get_system_time_sentinel() gives, timed out at
once. What does not fit becomes the farthest time that does.
---
 include/boost/thread/detail/platform_time.hpp | 33 +++++++++++++++----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/detail/platform_time.hpp b/include/boost/thread/detail/platform_time.hpp
index 15da57b..626a3ab 100644
--- a/include/boost/thread/detail/platform_time.hpp
+++ b/include/boost/thread/detail/platform_time.hpp
@@ -9,6 +9,7 @@
 
 #include <boost/thread/detail/config.hpp>
 #include <boost/thread/thread_time.hpp>
+#include <limits>
 #if defined BOOST_THREAD_USES_DATETIME
 #include <boost/date_time/posix_time/conversion.hpp>
 #endif
@@ -133,6 +134,20 @@ inline FP init_steady_clock(kern_return_t & err)
     }
 #endif
 
+    // The farthest time from now or from the epoch, in whole seconds. What is farther (or infinite)
+    // does not fit in nanoseconds and becomes this.
+    inline boost::time_max_t platform_max_seconds()
+    {
+      return (std::numeric_limits<boost::time_max_t>::max)() / 1000000000l - 1;
+    }
+    inline boost::time_max_t platform_add_ns(boost::time_max_t lhs, boost::time_max_t rhs)
+    {
+      const boost::time_max_t limit = platform_max_seconds() * 1000000000l;
+      if (rhs > 0 && lhs > limit - rhs) return limit;
+      if (rhs < 0 && lhs < -limit - rhs) return -limit;
+      return lhs + rhs;
+    }
+
     struct platform_duration
     {
 #if defined BOOST_THREAD_CHRONO_POSIX_API || defined BOOST_THREAD_CHRONO_MAC_API
@@ -149,6 +164,12 @@ inline FP init_steady_clock(kern_return_t & err)
 #if defined BOOST_THREAD_USES_DATETIME
       platform_duration(boost::posix_time::time_duration const& rel_time)
       {
+        const boost::time_max_t seconds = rel_time.total_seconds();
+        if (seconds > platform_max_seconds() || seconds < -platform_max_seconds())
+        {
+          *this = platform_duration((seconds < 0 ? -platform_max_seconds() : platform_max_seconds()) * 1000000000l);
+          return;
+        }
 #if defined BOOST_THREAD_CHRONO_POSIX_API || defined BOOST_THREAD_CHRONO_MAC_API
         ts_val.tv_sec = rel_time.total_seconds();
         ts_val.tv_nsec = static_cast<long>(rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second()));
@@ -287,15 +308,15 @@ inline FP init_steady_clock(kern_return_t & err)
 
     inline real_platform_timepoint operator+(real_platform_timepoint const& lhs, platform_duration const& rhs)
     {
-      return real_platform_timepoint(lhs.getNs() + rhs.getNs());
+      return real_platform_timepoint(platform_add_ns(lhs.getNs(), rhs.getNs()));
     }
     inline real_platform_timepoint operator+(platform_duration const& lhs, real_platform_timepoint const& rhs)
     {
-      return real_platform_timepoint(lhs.getNs() + rhs.getNs());
+      return real_platform_timepoint(platform_add_ns(lhs.getNs(), rhs.getNs()));
     }
     inline platform_duration operator-(real_platform_timepoint const& lhs, real_platform_timepoint const& rhs)
     {
-      return platform_duration(lhs.getNs() - rhs.getNs());
+      return platform_duration(platform_add_ns(lhs.getNs(), -rhs.getNs()));
     }
 
     struct real_platform_clock
@@ -391,15 +412,15 @@ inline FP init_steady_clock(kern_return_t & err)
 
   inline mono_platform_timepoint operator+(mono_platform_timepoint const& lhs, platform_duration const& rhs)
   {
-    return mono_platform_timepoint(lhs.getNs() + rhs.getNs());
+    return mono_platform_timepoint(platform_add_ns(lhs.getNs(), rhs.getNs()));
   }
   inline mono_platform_timepoint operator+(platform_duration const& lhs, mono_platform_timepoint const& rhs)
   {
-    return mono_platform_timepoint(lhs.getNs() + rhs.getNs());
+    return mono_platform_timepoint(platform_add_ns(lhs.getNs(), rhs.getNs()));
   }
   inline platform_duration operator-(mono_platform_timepoint const& lhs, mono_platform_timepoint const& rhs)
   {
-    return platform_duration(lhs.getNs() - rhs.getNs());
+    return platform_duration(platform_add_ns(lhs.getNs(), -rhs.getNs()));
   }
 
   struct mono_platform_clock
-- 
2.43.0


From 398cea5139473ecf178e29e666d3e33ae51c207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:37 +0000
Subject: [PATCH 65/65] fix: a wait until the maximal time of another clock
 overflows

With a real time internal clock, condition variables added the remaining time of
a steady deadline to the current time in the representation of the caller's clock,
and returned at once, over and over. Add it as the other waits do.
---
 include/boost/thread/pthread/condition_variable.hpp     | 2 +-
 include/boost/thread/pthread/condition_variable_fwd.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/condition_variable.hpp b/include/boost/thread/pthread/condition_variable.hpp
index e3c511f..63df352 100644
--- a/include/boost/thread/pthread/condition_variable.hpp
+++ b/include/boost/thread/pthread/condition_variable.hpp
@@ -374,7 +374,7 @@ namespace boost
             // is report correctly whether or not it reached the timeout time.
             typedef typename common_type<Duration, typename Clock::duration>::type common_duration;
             common_duration d(t - Clock::now());
-            do_wait_until(lock, detail::internal_chrono_clock::now() + d);
+            do_wait_until(lock, detail::internal_platform_clock::now() + detail::platform_duration(d));
             if (t > Clock::now()) return cv_status::no_timeout;
             else return cv_status::timeout;
         }
diff --git a/include/boost/thread/pthread/condition_variable_fwd.hpp b/include/boost/thread/pthread/condition_variable_fwd.hpp
index f596348..6639867 100644
--- a/include/boost/thread/pthread/condition_variable_fwd.hpp
+++ b/include/boost/thread/pthread/condition_variable_fwd.hpp
@@ -261,7 +261,7 @@ namespace boost
             // is report correctly whether or not it reached the timeout time.
             typedef typename common_type<Duration, typename Clock::duration>::type common_duration;
             common_duration d(t - Clock::now());
-            do_wait_until(lock, detail::internal_chrono_clock::now() + d);
+            do_wait_until(lock, detail::internal_platform_clock::now() + detail::platform_duration(d));
             if (t > Clock::now()) return cv_status::no_timeout;
             else return cv_status::timeout;
         }
-- 
2.43.0

