From 13bad9976fe825abb87a5d2c3c992b5416e74147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 01/61] fix: inplace_stop_callback: synchronize inline
 invocation with the stop request

The loads in __try_lock_unless_stop_requested_ were relaxed, so a callback that is registered after
stop was requested, and is therefore run inline, did not see writes made before request_stop().
---
 include/stdexec/stop_token.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index a53bd91..44146ce 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -325,7 +325,9 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     const noexcept -> bool
   {
     STDEXEC::__stok::__spin_wait __spin;
-    auto                         __old_state = __state_.load(STDEXEC::__std::memory_order_relaxed);
+    // Observing the stop-requested flag must synchronize with the request_stop() that set it: the
+    // caller goes on to execute the stop callback inline.
+    auto                         __old_state = __state_.load(STDEXEC::__std::memory_order_acquire);
     do
     {
       while (true)
@@ -342,7 +344,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
         else
         {
           __spin.__wait();
-          __old_state = __state_.load(STDEXEC::__std::memory_order_relaxed);
+          __old_state = __state_.load(STDEXEC::__std::memory_order_acquire);
         }
       }
     }
@@ -351,7 +353,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
                                              ? (__locked_flag_ | __stop_requested_flag_)
                                              : __locked_flag_,
                                            STDEXEC::__std::memory_order_acq_rel,
-                                           STDEXEC::__std::memory_order_relaxed));
+                                           STDEXEC::__std::memory_order_acquire));
 
     // Lock acquired successfully
     return true;
-- 
2.43.0


From fbb36c0204e9204fd1e159ad45d75bcc7eddab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 02/61] fix: when_all: do not complete twice when stop is
 requested while the last child arrives

The stop callback incremented the arrival count unconditionally. If the last arrival had already
brought it to zero and was about to deregister the callback, the callback's own arrival brought it
to zero a second time and completed the operation again.
---
 include/stdexec/__detail/__when_all.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__when_all.hpp b/include/stdexec/__detail/__when_all.hpp
index 305bf4f..88043d8 100644
--- a/include/stdexec/__detail/__when_all.hpp
+++ b/include/stdexec/__detail/__when_all.hpp
@@ -565,8 +565,20 @@ namespace STDEXEC
       constexpr void operator()() const noexcept
       {
         // Temporarily increment the count to avoid concurrent/recursive arrivals to
-        // pull the rug under our feet. Relaxed memory order is fine here.
-        __state_->__count_.fetch_add(1, __std::memory_order_relaxed);
+        // pull the rug under our feet. Relaxed memory order is fine here. If the count has
+        // already dropped to zero then the last arrival is completing the operation (and
+        // is going to wait for this callback to return); there is nothing left to stop.
+        std::size_t __count = __state_->__count_.load(__std::memory_order_relaxed);
+        do
+        {
+          if (__count == 0)
+          {
+            return;
+          }
+        }
+        while (!__state_->__count_.compare_exchange_weak(__count,
+                                                         __count + 1,
+                                                         __std::memory_order_relaxed));
 
         __state_t __expected = __started;
         // Transition to the "stopped" state if and only if we're in the
-- 
2.43.0


From 6a94fc41e54193339f061973897c4de4bbaf7810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 03/61] fix: when_any: do not complete twice when stop is
 requested while the last child arrives

Same defect as in when_all: the stop callback resurrected an arrival count that was already zero.
---
 include/exec/when_any.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index 1e1a58b..3853509 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -88,8 +88,20 @@ namespace experimental::execution
         constexpr void operator()() const noexcept
         {
           // Temporarily increment the count to avoid concurrent/recursive arrivals to
-          // pull the rug under our feet. Relaxed memory order is fine here.
-          __op_->__count_.fetch_add(1, __std::memory_order_relaxed);
+          // pull the rug under our feet. Relaxed memory order is fine here. If the count has
+          // already dropped to zero then the last arrival is completing the operation (and
+          // is going to wait for this callback to return); there is nothing left to stop.
+          std::size_t __count = __op_->__count_.load(__std::memory_order_relaxed);
+          do
+          {
+            if (__count == 0)
+            {
+              return;
+            }
+          }
+          while (!__op_->__count_.compare_exchange_weak(__count,
+                                                        __count + 1,
+                                                        __std::memory_order_relaxed));
 
           __op_->__stop_source_.request_stop();
 
-- 
2.43.0


From 2c69a591136323d864968b9046045d3c9afd5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 04/61] fix: bwos: a thief must synchronize with the grant of
 the block it steals from

---
 include/exec/detail/bwos_lifo_queue.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/exec/detail/bwos_lifo_queue.hpp b/include/exec/detail/bwos_lifo_queue.hpp
index a45863c..cc23d7f 100644
--- a/include/exec/detail/bwos_lifo_queue.hpp
+++ b/include/exec/detail/bwos_lifo_queue.hpp
@@ -530,7 +530,9 @@ namespace experimental::execution::bwos
   auto lifo_queue<Tp, Allocator>::block_type::steal(std::uint32_t thief_round) noexcept
     -> fetch_result<Tp>
   {
-    std::uint64_t    spos  = steal_tail_.load(STDEXEC::__std::memory_order_relaxed);
+    // Acquire ordering pairs with the release in grant(): without it, tail_ may be read as left
+    // behind by the previous use of this block
+    std::uint64_t    spos  = steal_tail_.load(STDEXEC::__std::memory_order_acquire);
     std::uint64_t    sidx  = spos & 0xFFFF'FFFFu;
     std::uint64_t    round = spos >> 32;
     fetch_result<Tp> result{};
@@ -552,8 +554,13 @@ namespace experimental::execution::bwos
       result.status = lifo_queue_error_code::empty;
       return result;
     }
-    // Try to claim the item at spos by atomically incrementing steal_tail_
-    if (!steal_tail_.compare_exchange_strong(spos, spos + 1, STDEXEC::__std::memory_order_relaxed))
+    // Try to claim the item at spos by atomically incrementing steal_tail_. The block may have been
+    // taken over, refilled and granted again (with an equal spos) in the meantime, so this must
+    // synchronize with the latest grant()
+    if (!steal_tail_.compare_exchange_strong(spos,
+                                             spos + 1,
+                                             STDEXEC::__std::memory_order_acquire,
+                                             STDEXEC::__std::memory_order_relaxed))
     {
       // Another thief claimed this item, retry
       result.status = lifo_queue_error_code::conflict;
-- 
2.43.0


From 79275d5e6ab8178fd78abf9c45e50de0d12d5b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 05/61] fix: schedule_all: items must synchronize with the
 completion of the sequence

---
 include/exec/static_thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index f84d038..5fe3edf 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1668,7 +1668,7 @@ namespace experimental::execution
 
         void set_value() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
+          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_acq_rel);
           if (countdown == 1)
           {
             STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
@@ -1677,7 +1677,7 @@ namespace experimental::execution
 
         void set_stopped() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
+          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_acq_rel);
           if (countdown == 1)
           {
             STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-- 
2.43.0


From 68472993502cc078d14bd605e72f4a0543e9994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 06/61] fix: schedule_all: do not touch the operation state
 after enqueueing the last items

---
 include/exec/static_thread_pool.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index 5fe3edf..d1b452f 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1765,9 +1765,14 @@ namespace experimental::execution
             STDEXEC::start(items_[i].__get());
           }
 
-          std::unique_lock lock{this->start_mutex_};
-          this->has_started_ = true;
-          this->pool_.bulk_enqueue(remote_queue, std::move(this->tasks_), this->tasks_size_);
+          // Once the last items are enqueued the sequence may complete and *this may be destroyed.
+          _static_thread_pool& pool = this->pool_;
+          std::unique_lock     lock{this->start_mutex_};
+          this->has_started_    = true;
+          auto        tasks     = std::move(this->tasks_);
+          std::size_t num_tasks = this->tasks_size_;
+          lock.unlock();
+          pool.bulk_enqueue(remote_queue, std::move(tasks), num_tasks);
         }
 
        private:
-- 
2.43.0


From 6487475742babd54170982ab2b36786a6e37c52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 07/61] fix: timed_thread_context: do not lose the wake-up for
 a command stuck behind an unlinked one

---
 include/exec/timed_thread_scheduler.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index b19e5a2..eb24e70 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -229,7 +229,9 @@ namespace experimental::execution
                                                          STDEXEC::__std::memory_order_relaxed);
         return;
       }
-      if (command_queue_.push_back(op))
+      command_queue_.push_back(op);
+      // Notify even if the queue was not empty: the consumer may have found it empty because a
+      // node in front of this one was not linked yet.
       {
         std::scoped_lock lock{ready_mutex_};
         ready_ = true;
-- 
2.43.0


From 28e56e4e2caba1d1ee5de8c91c585569da105b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 08/61] fix: timed_thread_context: honour a stop request that
 overtakes the start of its timer

---
 include/exec/timed_thread_scheduler.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index eb24e70..63213d7 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -104,6 +104,7 @@ namespace experimental::execution
       timed_thread_schedule_operation_base* prev_  = nullptr;
       timed_thread_schedule_operation_base* left_  = nullptr;
       timed_thread_schedule_operation_base* right_ = nullptr;
+      bool                                  stop_seen_ = false;
       void (*set_stopped_)(timed_thread_operation_base*) noexcept;
     };
 
@@ -159,7 +160,14 @@ namespace experimental::execution
           {
             auto* task  = static_cast<task_type*>(op);
             task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
-            heap_.insert(task);
+            if (task->stop_seen_)
+            {
+              task->set_stopped_(task);
+            }
+            else
+            {
+              heap_.insert(task);
+            }
           }
           else
           {
@@ -169,6 +177,11 @@ namespace experimental::execution
             {
               stop_op->target_->set_stopped_(stop_op->target_);
             }
+            else
+            {
+              // Either the timer already fired or its stop command overtook its schedule command.
+              stop_op->target_->stop_seen_ = true;
+            }
             stop_op->set_value_(stop_op);
           }
         }
-- 
2.43.0


From 061a65270dfb34693036781d6686930ebb1c343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 09/61] fix: timed_thread_context: complete operations whose
 commands were not seen before the context stopped

---
 include/exec/timed_thread_scheduler.hpp | 59 ++++++++++++++-----------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index 63213d7..2f8016f 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -150,41 +150,46 @@ namespace experimental::execution
     using stop_type    = _time_thrd_sched::timed_thread_stop_operation;
     using time_point   = std::chrono::steady_clock::time_point;
 
-    void run()
+    void execute_commands()
     {
-      while (true)
+      while (command_type* op = command_queue_.pop_front())
       {
-        while (command_type* op = command_queue_.pop_front())
+        if (op->command_ == command_type::command_type::schedule)
         {
-          if (op->command_ == command_type::command_type::schedule)
+          auto* task  = static_cast<task_type*>(op);
+          task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
+          if (task->stop_seen_)
           {
-            auto* task  = static_cast<task_type*>(op);
-            task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
-            if (task->stop_seen_)
-            {
-              task->set_stopped_(task);
-            }
-            else
-            {
-              heap_.insert(task);
-            }
+            task->set_stopped_(task);
           }
           else
           {
-            STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
-            auto* stop_op = static_cast<stop_type*>(op);
-            if (heap_.erase(stop_op->target_))
-            {
-              stop_op->target_->set_stopped_(stop_op->target_);
-            }
-            else
-            {
-              // Either the timer already fired or its stop command overtook its schedule command.
-              stop_op->target_->stop_seen_ = true;
-            }
-            stop_op->set_value_(stop_op);
+            heap_.insert(task);
           }
         }
+        else
+        {
+          STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
+          auto* stop_op = static_cast<stop_type*>(op);
+          if (heap_.erase(stop_op->target_))
+          {
+            stop_op->target_->set_stopped_(stop_op->target_);
+          }
+          else
+          {
+            // Either the timer already fired or its stop command overtook its schedule command.
+            stop_op->target_->stop_seen_ = true;
+          }
+          stop_op->set_value_(stop_op);
+        }
+      }
+    }
+
+    void run()
+    {
+      while (true)
+      {
+        execute_commands();
         time_point now = std::chrono::steady_clock::now();
         task_type* op  = heap_.front();
         while (op && op->time_point_ <= now)
@@ -210,6 +215,8 @@ namespace experimental::execution
             STDEXEC::__spin_loop_pause();
             expected = 0;
           }
+          // No command can be submitted any more, but some may not have been seen yet.
+          execute_commands();
           op = heap_.front();
           while (op)
           {
-- 
2.43.0


From 660e60573f8b11deda230e5157c047494a858641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 10/61] fix: timed_thread_context: stopping must synchronize
 with submissions in flight

---
 include/exec/timed_thread_scheduler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index 2f8016f..79776dc 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -210,6 +210,7 @@ namespace experimental::execution
           while (
             !n_submissions_in_flight_.compare_exchange_weak(expected,
                                                             context_closed,
+                                                            STDEXEC::__std::memory_order_acquire,
                                                             STDEXEC::__std::memory_order_relaxed))
           {
             STDEXEC::__spin_loop_pause();
@@ -257,7 +258,7 @@ namespace experimental::execution
         ready_ = true;
         cv_.notify_one();
       }
-      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
     }
 
     void request_stop()
-- 
2.43.0


From a258e5c0541839aee5c128755478c3486df25465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 11/61] fix: timed_thread_context: a stop request must not
 touch a context that is being destroyed

---
 include/exec/timed_thread_scheduler.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index 79776dc..9103a75 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -299,21 +299,25 @@ namespace experimental::execution
             time_point,
             [](_time_thrd_sched::timed_thread_operation_base* op) noexcept
             {
-              auto* self    = static_cast<timed_thread_schedule_at_op*>(op);
-              int   counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+              auto* self = static_cast<timed_thread_schedule_at_op*>(op);
+              // Wait for a concurrent stop request to be done with the context, which may be about
+              // to go away.
+              self->stop_callback_.reset();
+              int counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
               if (counter == 1)
               {
-                self->stop_callback_.reset();
                 STDEXEC::set_stopped(std::move(self->rcvr_));
               }
             },
             [](_time_thrd_sched::timed_thread_operation_base* op) noexcept
             {
-              auto* self    = static_cast<timed_thread_schedule_at_op*>(op);
-              int   counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+              auto* self = static_cast<timed_thread_schedule_at_op*>(op);
+              // Wait for a concurrent stop request to be done with the context, which may be about
+              // to go away.
+              self->stop_callback_.reset();
+              int counter = self->ref_count_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
               if (counter == 1)
               {
-                self->stop_callback_.reset();
                 STDEXEC::set_value(std::move(self->rcvr_));
               }
             }}
-- 
2.43.0


From e44e684ba58ec7d95e455c48afc63694f96126e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 12/61] fix: spawn_future: keep the state alive while a stop
 request is forwarded to the spawned work

---
 include/stdexec/__detail/__spawn_future.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/stdexec/__detail/__spawn_future.hpp b/include/stdexec/__detail/__spawn_future.hpp
index fd74006..ed0c3c8 100644
--- a/include/stdexec/__detail/__spawn_future.hpp
+++ b/include/stdexec/__detail/__spawn_future.hpp
@@ -365,6 +365,9 @@ namespace STDEXEC
       //   4. any other value means __consume has "registered" its receiver to be completed
       //      by __complete when it is invoked
       __std::atomic<void*> __registered_receiver_{nullptr};
+      // One reference for the producer/consumer pair, plus one while __try_cancel is running: the
+      // spawned work may complete inside of the call to request_stop() that __try_cancel makes.
+      __std::atomic<int> __refs_{1};
       // Type-erased completion callback.
       //
       // The void* will receive the address of the receiver, which will need to have its
@@ -377,6 +380,11 @@ namespace STDEXEC
 
       void __destroy() noexcept
       {
+        if (__refs_.fetch_sub(1, __std::memory_order_acq_rel) != 1)
+        {
+          return;
+        }
+
         [[maybe_unused]]
         auto __assoc = std::move(__assoc_);
 
@@ -459,6 +467,12 @@ namespace STDEXEC
       {
         auto* __self = static_cast<__spawn_future_state*>(__base_ptr);
 
+        // Keep *__self alive until we return; if the spawned work completes synchronously when we
+        // request stop, then it's __complete, called further down this very call stack, that gives up
+        // the last other reference.
+        __self->__refs_.fetch_add(1, __std::memory_order_relaxed);
+        __scope_guard __guard{[__self]() noexcept { __self->__destroy(); }};
+
         // Consider: there's a sense in which we only need to invoke request_stop if we've arrived
         //           here before the producer has invoked __complete so I wonder whether it's possible
         //           to avoid invoking request_stop when it's unnecessary. It might be.
-- 
2.43.0


From 55e883dae681b8ad99f325d739ab08f5df0119d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 13/61] fix: async_scope: deregister the stop callback before
 handing the future state to the spawned work

---
 include/exec/async_scope.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/exec/async_scope.hpp b/include/exec/async_scope.hpp
index 7635dbb..3e2b90d 100644
--- a/include/exec/async_scope.hpp
+++ b/include/exec/async_scope.hpp
@@ -384,6 +384,9 @@ namespace experimental::execution
       {
         if (__state_ != nullptr)
         {
+          // The stop callback refers to the state, which is about to be handed over to the
+          // spawned operation (and may be destroyed by it at any time).
+          __forward_consumer_.reset();
           auto             __raw_state = __state_.get();
           std::unique_lock __guard{__raw_state->__mutex_};
           if (__raw_state->__data_.index() > 0)
-- 
2.43.0


From 4d0cf0a89c3faab4a5e45c212657904ba7a74fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 14/61] fix: parallel_scheduler: release the backend when a
 schedule operation is not handed over to it

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 5d0c290..9ab5562 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -209,6 +209,14 @@ namespace STDEXEC
 
       STDEXEC_IMMOVABLE(__system_op);
 
+      ~__system_op()
+      {
+        if (!__handed_over_)
+        {
+          std::destroy_at(&__preallocated_.__as<__backend_ptr_t>());
+        }
+      }
+
       /// Starts the work stored in `this`.
       void start() & noexcept
       {
@@ -221,12 +229,17 @@ namespace STDEXEC
         auto& __sched_impl = __preallocated_.__as<__backend_ptr_t>();
         auto  __impl       = std::move(__sched_impl);
         std::destroy_at(&__sched_impl);
+        __handed_over_ = true;
         __impl->schedule(__rcvr_, __preallocated_.__as_storage());
       }
 
       /// Object that receives completion from the work described by the sender.
       __receiver_proxy<_Rcvr> __rcvr_;
 
+      /// True once the preallocated storage belongs to the backend; until then it holds the
+      /// backend interface.
+      bool __handed_over_{false};
+
       /// Preallocated space for storing the operation state on the implementation size.
       /// We also store here the backend interface for the scheduler before we actually
       /// start the operation.
-- 
2.43.0


From 879fbf52b6327299e4c9b427ecafe1a0dd015a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 15/61] fix: parallel_scheduler: destroy the predecessor's
 operation state when the bulk work does not start

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 9ab5562..fd180c8 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -610,13 +610,22 @@ namespace STDEXEC
       /// Preallocated space for storing the inner operation state, and then storage space for the backend call.
       __aligned_storage<_PreallocatedSize, _PreallocatedAlign> __preallocated_;
 
+      /// True while the preallocated space holds the inner operation state.
+      bool __has_inner_op_state_{false};
+
+      void __destroy_inner_op_state() noexcept
+      {
+        __has_inner_op_state_ = false;
+        std::destroy_at(&__preallocated_.template __as<__inner_op_state>());
+      }
+
       /// Destroys the inner operation state object, and returns the preallocated storage for it to be used by the backend.
       static auto
       __prepare_storage_for_backend_impl(__bulk_state_base_t* __base) -> std::span<std::byte>
       {
         auto* __self = static_cast<__system_bulk_op*>(__base);
         // We don't need anymore the storage for the previous operation state.
-        __self->__preallocated_.template __as<__inner_op_state>().~__inner_op_state();
+        __self->__destroy_inner_op_state();
         // Reuse the preallocated storage for the backend.
         return __self->__preallocated_.__as_storage();
       }
@@ -637,6 +646,17 @@ namespace STDEXEC
 
         // Start using the preallocated buffer to store the inner operation state.
         new (__preallocated_.__as_ptr()) __inner_op_state(static_cast<_InitF&&>(__initFunc)(*this));
+        __has_inner_op_state_ = true;
+      }
+
+      ~__system_bulk_op()
+      {
+        // The bulk work has not been handed over to the backend: the inner operation state
+        // is still alive.
+        if (__has_inner_op_state_)
+        {
+          __destroy_inner_op_state();
+        }
       }
 
       __system_bulk_op(__system_bulk_op const &)                    = delete;
-- 
2.43.0


From ddfb91b7f2f79cd61e6b3877512a16f34f148c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:46 +0000
Subject: [PATCH 16/61] fix: parallel_scheduler: concurrent first uses must
 agree on one backend

---
 .../__detail/__parallel_scheduler_default_impl.hpp     | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
index 86ce869..b978491 100644
--- a/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_default_impl.hpp
@@ -350,11 +350,15 @@ namespace STDEXEC::__parallel_scheduler_default_impl
       // Note: we are lazy-loading the instance to avoid creating it if it is not needed.
       auto __new_instance = __factory_.load(__std::memory_order_relaxed)();
 
-      // Store the newly created instance.
+      // Store the newly created instance, unless another thread was faster.
       __acquire_instance_lock();
-      __instance_ = __new_instance;
+      if (!__instance_)
+      {
+        __instance_ = __new_instance;
+      }
+      __rcvr = __instance_;
       __release_instance_lock();
-      return __new_instance;
+      return __rcvr;
     }
 
     /// Set `__new_factory` as the new factory for `_Interface` and return the old one.
-- 
2.43.0


From ac060f50b9efe7d768a2b54e5acc28564ae0a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 17/61] fix: inplace_stop_source: do not touch the stop source
 after the last stop callback

An operation that forwards stop requests to its child owns a stop source.
When the child completes inside its stop callback, the operation may be
destroyed while request_stop() is still executing on its stop source.
---
 include/stdexec/stop_token.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index 44146ce..a383a7f 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -276,6 +276,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
       if (__callbacks_ != nullptr)
         __callbacks_->__prev_ptr_ = &__callbacks_;
 
+      bool const __last = __callbacks_ == nullptr;
       __state_.store(__stop_requested_flag_, STDEXEC::__std::memory_order_release);
 
       bool __removed_during_callback       = false;
@@ -289,6 +290,11 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
         __callbk->__callback_completed_.store(true, STDEXEC::__std::memory_order_release);
       }
 
+      // No callbacks are added once stop has been requested. After the last one do not touch
+      // *this: it may have completed the operation that owns this stop source.
+      if (__last)
+        return true;
+
       __lock_();
     }
 
-- 
2.43.0


From 313f75ac91187432878003882c971446f386ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 18/61] fix: finally must let an exception thrown by connect
 escape instead of terminating

The operation state's constructor and connect were unconditionally noexcept although they connect both
senders, so a throwing connect (or a throwing copy of a sender) called std::terminate.
---
 include/stdexec/__detail/__finally.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 82565d3..8327ec9 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -167,7 +167,8 @@ namespace STDEXEC
       constexpr explicit __final_opstate(__cleanup_callback_t* __cleanup_callback,
                                          _CvFinalSender&&      __final,
                                          _Receiver&&           __rcvr,
-                                         _Env2                 __env2) noexcept
+                                         _Env2                 __env2)
+        noexcept(__nothrow_connectable<_CvFinalSender, __final_receiver_t>)
         : __opstate_base<_Storage, _Receiver, _Env2>{static_cast<_Receiver&&>(__rcvr),
                                                      static_cast<_Env2&&>(__env2)}
         , __cleanup_callback_{__cleanup_callback}
@@ -359,7 +360,7 @@ namespace STDEXEC
 
       template <__decays_to<__sender> _Self, class _Receiver>
       STDEXEC_EXPLICIT_THIS_BEGIN(auto connect)(this _Self&& __self,
-                                                _Receiver&&  __receiver) noexcept
+                                                _Receiver&&  __receiver)
         -> __opstate_t<_Self, _Receiver>
       {
         return __opstate_t<_Self, _Receiver>{static_cast<_Self&&>(__self).__initial_sndr_,
-- 
2.43.0


From b0325cbe7161644696e3a76de1a23bd712d6d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 19/61] fix: fork_join must let an exception thrown by connect
 escape instead of terminating

The operation state's constructor and connect were unconditionally noexcept although they connect the
child and the forked senders.
---
 include/exec/fork_join.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/fork_join.hpp b/include/exec/fork_join.hpp
index f2b1f71..8279e56 100644
--- a/include/exec/fork_join.hpp
+++ b/include/exec/fork_join.hpp
@@ -130,7 +130,7 @@ namespace experimental::execution
       using _cache_sndr_t = _fork_join::_cache_sndr_t<_variant_t<_child_completions_t>, _domain_t>;
 
       STDEXEC_ATTRIBUTE(host, device)
-      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr) noexcept
+      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr)
         : _rcvr_(static_cast<Rcvr&&>(rcvr))
         , _fork_opstate_(STDEXEC::connect(STDEXEC::__apply(_mk_when_all_fn{},
                                                            static_cast<Closures&&>(closures),
@@ -266,7 +266,7 @@ namespace experimental::execution
       }
 
       static constexpr auto __connect =
-        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr) noexcept
+        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr)
         -> _fork_join::_opstate_t<STDEXEC::__child_of<_Sender>,
                                   STDEXEC::__data_of<_Sender>,
                                   _Receiver>
-- 
2.43.0


From 97c17792ba88a86b80a9699ed2ec1b2500136f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 20/61] fix: a throwing move of a let_* callable or of a
 type-erased value must not terminate

The let_* operation state base and __any::__box moved their arguments inside unconditionally noexcept
constructors although their callers advertise that construction may throw.
---
 include/stdexec/__detail/__any.hpp | 5 +++--
 include/stdexec/__detail/__let.hpp | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 7325c82..395748e 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -485,12 +485,13 @@ namespace STDEXEC::__any
   template <class _Value>
   struct __box
   {
-    constexpr explicit __box(_Value __val) noexcept
+    constexpr explicit __box(_Value __val) noexcept(__nothrow_move_constructible<_Value>)
       : __val_(std::move(__val))
     {}
 
     template <class... _Args>
-    constexpr explicit __box(_Args &&...__args) noexcept
+    constexpr explicit __box(_Args &&...__args)
+      noexcept(__nothrow_constructible_from<_Value, _Args...>)
       : __val_(static_cast<_Args &&>(__args)...)
     {}
 
diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 9777fcc..5304f2e 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -174,7 +174,8 @@ namespace STDEXEC
                                         _CvFn           __cv,
                                         _Sender const & __sndr,
                                         _Fun            __fn,
-                                        _Receiver&&     __rcvr) noexcept
+                                        _Receiver&&     __rcvr)
+        noexcept(__nothrow_move_constructible<_Fun>)
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __fn_(STDEXEC::__allocator_aware_forward(static_cast<_Fun&&>(__fn), __rcvr_))
         // TODO(ericniebler): this needs a fallback:
-- 
2.43.0


From 3ab261d825bfeaf33dd57768ae9b334fe7826457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:58 +0000
Subject: [PATCH 21/61] fix: transform_sender must not claim to be noexcept
 when an inner transformation may throw

__get_declfn accumulated the noexcept-ness of the outer transformations in _Nothrow and then ignored it
when the recursion ended, so connecting e.g. an lvalue on/starts_on sender whose copy throws terminated.
---
 include/stdexec/__detail/__transform_sender.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__transform_sender.hpp b/include/stdexec/__detail/__transform_sender.hpp
index 88f2151..3d365cd 100644
--- a/include/stdexec/__detail/__transform_sender.hpp
+++ b/include/stdexec/__detail/__transform_sender.hpp
@@ -64,7 +64,7 @@ namespace STDEXEC
         }
         else if constexpr (__same_as<__result_t, _Sndr>)
         {
-          return __declfn<__result_t, __is_nothrow>();
+          return __declfn<__result_t, (_Nothrow && __is_nothrow)>();
         }
         else if constexpr (__same_as<_OpTag, start_t>)
         {
-- 
2.43.0


From 28078fb97e3a43604101ffa99adf1317294b243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 22/61] fix: task_scheduler: bulk under a sequenced policy must
 visit each index once

---
 include/stdexec/__detail/__task_scheduler.hpp | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 476a259..9e4b4fc 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -383,13 +383,13 @@ namespace STDEXEC
           // Start the bulk operation.
           if constexpr (__same_as<_BulkTag, bulk_chunked_t>)
           {
-            __state_->__backend_.schedule_bulk_chunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_chunked(__state_->__backend_shape(),
                                                        *__state_,
                                                        std::span{__state_->__storage_});
           }
           else
           {
-            __state_->__backend_.schedule_bulk_unchunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_unchunked(__state_->__backend_shape(),
                                                          *__state_,
                                                          std::span{__state_->__storage_});
           }
@@ -523,10 +523,6 @@ namespace STDEXEC
       {
         STDEXEC_TRY
         {
-          using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
-          constexpr bool __parallelize =
-            __same_as<__policy_t, STDEXEC::parallel_policy>
-            || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
           __visit(__task::__get_execute_bulk_fn<__parallelize>(_BulkTag(),
                                                                __fn_,
                                                                __shape_,
@@ -544,6 +540,18 @@ namespace STDEXEC
       template <class, class, class, class, class>
       friend struct __bulk_receiver;
 
+      using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
+      static constexpr bool __parallelize =
+        __same_as<__policy_t, STDEXEC::parallel_policy>
+        || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
+
+      //! Without parallelism, the backend is asked for one item, which runs the entire range.
+      [[nodiscard]]
+      constexpr auto __backend_shape() const noexcept -> size_t
+      {
+        return __parallelize || __shape_ == 0 ? __shape_ : 1;
+      }
+
       _Fn                          __fn_;
       size_t                       __shape_;
       _Values                      __values_{__no_init};
-- 
2.43.0


From 28d7808360424705e4c714b2bed27663d7b89351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 23/61] fix: task_scheduler: bulk must not complete while the
 backend still runs it

---
 include/stdexec/__detail/__task_scheduler.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 9e4b4fc..4737eb9 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -27,6 +27,7 @@ import stdexec;
 
 // include these after __execution_fwd.hpp
 #  include "__any.hpp"
+#  include "__atomic.hpp"
 #  include "__bulk.hpp"
 #  include "__concepts.hpp"
 #  include "__diagnostics.hpp"
@@ -511,6 +512,12 @@ namespace STDEXEC
 
       constexpr void set_value() noexcept final
       {
+        if (__eptr_)
+        {
+          STDEXEC::set_error(std::move(this->__rcvr_), std::move(__eptr_));
+          return;
+        }
+
         // Send the stored values to the downstream receiver.
         __visit([](auto& __rcvr, auto& __tupl)
                 { __apply(STDEXEC::set_value, std::move(__tupl), std::move(__rcvr)); },
@@ -532,7 +539,12 @@ namespace STDEXEC
         }
         STDEXEC_CATCH_ALL
         {
-          STDEXEC::set_error(std::move(this->__rcvr_), std::current_exception());
+          // Only remember the first exception here. The backend completes the operation
+          // after all the calls to execute have returned.
+          if (!__failed_.exchange(true))
+          {
+            __eptr_ = std::current_exception();
+          }
         }
       }
 
@@ -555,6 +567,8 @@ namespace STDEXEC
       _Fn                          __fn_;
       size_t                       __shape_;
       _Values                      __values_{__no_init};
+      __std::atomic<bool>          __failed_{false};
+      std::exception_ptr           __eptr_;
       __any_task_scheduler_backend __backend_;
       alignas(STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_ALIGN) std::byte
         __storage_[STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_SIZE];
-- 
2.43.0


From 1e234dbab3f12ceb9da263deb831f9396c45e8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 24/61] fix: bulk_unchunked must not call the function for a
 negative shape

---
 include/stdexec/__detail/__bulk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__bulk.hpp b/include/stdexec/__detail/__bulk.hpp
index 337af08..69e704f 100644
--- a/include/stdexec/__detail/__bulk.hpp
+++ b/include/stdexec/__detail/__bulk.hpp
@@ -322,7 +322,7 @@ namespace STDEXEC
 
           STDEXEC_TRY
           {
-            for (__shape_t __i{}; __i != __shape; ++__i)
+            for (__shape_t __i{}; __i < __shape; ++__i)
             {
               __state.__data_.__fun_(__shape_t(__i), __args...);
             }
-- 
2.43.0


From 1e878da1a27526ca020de3a8fce8b8181edbf540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 25/61] fix: task_scheduler: bulk on a wrapped inline_scheduler
 must not recurse endlessly

---
 include/stdexec/__detail/__task_scheduler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 4737eb9..648b530 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -150,6 +150,9 @@ namespace STDEXEC
       {
         template <class... _Env>
           requires __callable<get_completion_scheduler_t<set_value_t>, _Sch const &, _Env...>
+                && (!__decays_to<
+                    __call_result_t<get_completion_scheduler_t<set_value_t>, _Sch const &, _Env...>,
+                    task_scheduler>)  // An inline scheduler must not dispatch back to the task_scheduler.
         [[nodiscard]]
         constexpr auto
         query(get_completion_scheduler_t<set_value_t>, _Env const &... __env) const noexcept
-- 
2.43.0


From 01ec7b43156da8eef89b67eb999364497afc6595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 26/61] fix: thread_pool_base: bulk must honour a sequenced
 policy

---
 include/exec/thread_pool_base.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index ed4f44c..bcedd6a 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -68,6 +68,13 @@ namespace experimental::execution
     using __decay_ref_t = STDEXEC::__decay_t<_Ty>&;
 
     using task_base = exec::static_thread_pool::task_base;
+
+    // Only a policy that permits parallelism lets the pool split up the work of a bulk sender.
+    template <class Sender>
+    concept parallel_bulk_sender = STDEXEC::__one_of<
+      std::remove_cvref_t<decltype(STDEXEC::__declval<STDEXEC::__data_of<Sender>>().__pol_.__get())>,
+      STDEXEC::parallel_policy,
+      STDEXEC::parallel_unsequenced_policy>;
   }  // namespace _pool_
 
   template <class DerivedPoolType>  // CRTP
@@ -82,6 +89,7 @@ namespace experimental::execution
     struct domain : STDEXEC::default_domain
     {
       template <sender_for<STDEXEC::bulk_chunked_t> Sender, class Env>
+        requires _pool_::parallel_bulk_sender<Sender>
       static constexpr auto transform_sender(STDEXEC::set_value_t, Sender&& sndr, Env const & env)
       {
         auto& [tag, data, child] = sndr;
@@ -112,6 +120,7 @@ namespace experimental::execution
       }
 
       template <sender_for<STDEXEC::bulk_unchunked_t> Sender, class Env>
+        requires _pool_::parallel_bulk_sender<Sender>
       static constexpr auto transform_sender(STDEXEC::set_value_t, Sender&& sndr, Env const & env);
     };
 
-- 
2.43.0


From 409c7df0ba682a6b392e89600bd564363e74bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 27/61] fix: thread_pool_base: bulk must not narrow the
 parallelism to the shape type

---
 include/exec/thread_pool_base.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index bcedd6a..526556c 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -216,8 +216,10 @@ namespace experimental::execution
         {
           // With work stealing, is std::min necessary, or can we feel free to ask for more agents (tasks)
           // than we can actually deal with at one time?
+          // NB: the parallelism may not be representable as a Shape.
           return static_cast<std::uint32_t>(
-            (std::min) (shape_, static_cast<Shape>(pool_.available_parallelism())));
+            (std::min) (static_cast<std::uint64_t>(shape_),
+                        static_cast<std::uint64_t>(pool_.available_parallelism())));
         }
 
         template <class F>
-- 
2.43.0


From 7a4aee9e1fc60529d792248ff8b4e4f1b339a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:23 +0000
Subject: [PATCH 28/61] fix: thread_pool_base: bulk must agree with itself on
 the number of agents

---
 include/exec/thread_pool_base.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index 526556c..314d46a 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -207,12 +207,21 @@ namespace experimental::execution
         Shape            shape_;
         Fun              fun_;
 
+        // The parallelism of the pool may change over time, so this is asked only once.
+        std::uint32_t const num_agents_{compute_num_agents()};
+
         std::atomic<std::uint32_t> finished_threads_{0};
         std::atomic<std::uint32_t> thread_with_exception_{0};
         std::exception_ptr         exception_;
 
         [[nodiscard]]
-        auto num_agents_required() const -> std::uint32_t
+        auto num_agents_required() const noexcept -> std::uint32_t
+        {
+          return num_agents_;
+        }
+
+        [[nodiscard]]
+        auto compute_num_agents() const -> std::uint32_t
         {
           // With work stealing, is std::min necessary, or can we feel free to ask for more agents (tasks)
           // than we can actually deal with at one time?
-- 
2.43.0


From c5124f12a97dd2b62566fc3526ab5b4f4fd26337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:11 +0000
Subject: [PATCH 29/61] fix: any: over-aligned values must not be stored in the
 small buffer

---
 include/stdexec/__detail/__any.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 395748e..b97fcfa 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -367,7 +367,8 @@ namespace STDEXEC::__any
       // If _Model requires movability, then it must be nothrow moveable to be small.
       STDEXEC_CONSTEXPR_LOCAL bool __nothrow_movable = !__extension_of<_Model, __imovable>
                                                     || __nothrow_move_constructible<_Model>;
-      return sizeof(_Model) <= __buffer_size && __nothrow_movable;
+      return sizeof(_Model) <= __buffer_size && alignof(_Model) <= _Model::__buffer_alignment
+          && __nothrow_movable;
     }
   }
 
@@ -1853,7 +1854,7 @@ namespace STDEXEC::__any
     template <class _Other>
     static constexpr bool __as_large_as =
       (__iabstract<_Interface>::__buffer_size >= _Interface<_Other>::__buffer_size)
-      && (_Interface<_Other>::__buffer_alignment % __iabstract<_Interface>::__buffer_alignment == 0)
+      && (__iabstract<_Interface>::__buffer_alignment >= _Interface<_Other>::__buffer_alignment)
       && (_Other::__root_kind == __root_kind::__value);
 
    public:
-- 
2.43.0


From d54ac82996240dfd7d38871f68bc02b1708456e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:06 +0000
Subject: [PATCH 30/61] fix: any_ptr: self-assignment must not clear the
 pointer

---
 include/stdexec/__detail/__any.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index b97fcfa..240dd23 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -2016,8 +2016,11 @@ namespace STDEXEC::__any
 
     constexpr __any_ptr_base &operator=(__any_ptr_base const &__other) noexcept
     {
-      __reset(__reference_);
-      __reference_.__copy_from(__other.__reference_);
+      if (this != std::addressof(__other))
+      {
+        __reset(__reference_);
+        __reference_.__copy_from(__other.__reference_);
+      }
       return *this;
     }
 
-- 
2.43.0


From 0f1f48b7d0fb6d4ced8300ed735f1805ad810ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:17 +0000
Subject: [PATCH 31/61] fix: any: a cast must find the object of a holder with
 a derived interface

---
 include/stdexec/__detail/__any.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 240dd23..8d58a6f 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -1686,6 +1686,13 @@ namespace STDEXEC::__any
       using __value_model     = __copy_cvref_t<_CvProxy, __value_root<_Interface, _Value>>;
       using __reference_model = __copy_cvref_t<_CvProxy, __reference_root<_Interface, _Value>>;
 
+      STDEXEC_IF_NOT_CONSTEVAL
+      {
+        // The model may implement an interface derived from _Interface, in which case it is
+        // not a __value_root<_Interface, _Value>.
+        return static_cast<__copy_cvref_t<_CvProxy, _Value> *>(__data(*__proxy_ptr));
+      }
+
       // get the address of the model from the proxy:
       auto *__model_ptr = std::addressof(__value(*__proxy_ptr));
 
-- 
2.43.0


From bd3664f3d1cdce1c7cb3287cabb6fd366219490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 32/61] fix: variant: a throwing copy must not terminate

---
 include/stdexec/__detail/__variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__variant.hpp b/include/stdexec/__detail/__variant.hpp
index 721ea18..850db2e 100644
--- a/include/stdexec/__detail/__variant.hpp
+++ b/include/stdexec/__detail/__variant.hpp
@@ -154,7 +154,7 @@ namespace STDEXEC
       {
         template <class _Self, class _Ty>
         constexpr void operator()(_Self &__self, _Ty const &__val) const  //
-          noexcept(__nothrow_decay_copyable<_Ty>)
+          noexcept(__nothrow_decay_copyable<_Ty const &>)
         {
           __self.template emplace<__decay_t<_Ty>>(__val);
         }
-- 
2.43.0


From 91917a70731241f7220702b781e7f901f61783f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 33/61] fix: any: a holder must be empty after an in-place
 construction throws

---
 include/stdexec/__detail/__any.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 8d58a6f..8bcd8fb 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -637,6 +637,19 @@ namespace STDEXEC::__any
     }
   };
 
+  struct __empty_guard
+  {
+    std::byte *__buff_;
+
+    constexpr ~__empty_guard()
+    {
+      if (__buff_ != nullptr)
+      {
+        *__std::start_lifetime_as<__tagged_ptr>(__buff_) = __tagged_ptr();
+      }
+    }
+  };
+
   template <class _Model, class _Allocator, class... _Args>
   constexpr _Model &__emplace_into([[maybe_unused]] _Allocator const    &__alloc,
                                    [[maybe_unused]] __iroot            *&__root_ptr,
@@ -653,8 +666,12 @@ namespace STDEXEC::__any
     {
       if (STDEXEC::__any::__is_small<_Model>(__buff.size()))
       {
-        return *std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
-                                  static_cast<_Args &&>(__args)...);
+        // If construction throws, the buffer must go back to representing "empty".
+        __empty_guard __guard{__buff.data()};
+        _Model       &__model = *std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
+                                             static_cast<_Args &&>(__args)...);
+        __guard.__buff_ = nullptr;
+        return __model;
       }
       else
       {
-- 
2.43.0


From ee526bcbae392bba31a28779b28672a93b955d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:41 +0000
Subject: [PATCH 34/61] fix: merge_each: complete the outer item when its
 sender fails or is stopped

---
 include/exec/sequence/merge_each.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 397e312..90a9f4b 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1029,7 +1029,7 @@ namespace experimental::execution
           if constexpr (!__is_nothrow)
           {
             __op_->store_error(std::current_exception());
-            __op_->nested_sequence_break();
+            __next_seq_op_->nested_sequence_break();
           }
         }
       }
@@ -1038,12 +1038,12 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         __op_->store_error(static_cast<_Error&&>(__error));
-        __op_->nested_sequence_break();
+        __next_seq_op_->nested_sequence_break();
       }
 
       void set_stopped() noexcept
       {
-        __op_->nested_sequence_complete();
+        __next_seq_op_->nested_sequence_complete();
       }
 
       using __env_t = typename _OperationBase::__nested_stop_env_t;
-- 
2.43.0


From 737376351c2849f6ac7f2d518c3a2ea5fe3c3891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 35/61] fix: transform_each, merge: a throwing subscribe must
 not terminate

---
 include/exec/sequence/merge.hpp          | 5 ++++-
 include/exec/sequence/transform_each.hpp | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/exec/sequence/merge.hpp b/include/exec/sequence/merge.hpp
index ddf6fa0..e3d310c 100644
--- a/include/exec/sequence/merge.hpp
+++ b/include/exec/sequence/merge.hpp
@@ -130,7 +130,10 @@ namespace experimental::execution
       {
         template <class _Receiver, class... _Sequences>
         auto operator()(_Receiver& __rcvr, __ignore, __ignore, _Sequences... __sequences)
-          noexcept(__nothrow_decay_copyable<_Sequences...>) -> __operation<_Receiver, _Sequences...>
+          noexcept(__nothrow_constructible_from<__operation<_Receiver, _Sequences...>,
+                                                _Receiver,
+                                                _Sequences...>)
+            -> __operation<_Receiver, _Sequences...>
         {
           return __operation<_Receiver, _Sequences...>{static_cast<_Receiver&&>(__rcvr),
                                                        static_cast<_Sequences&&>(__sequences)...};
diff --git a/include/exec/sequence/transform_each.hpp b/include/exec/sequence/transform_each.hpp
index 74a5d49..7b9ed3f 100644
--- a/include/exec/sequence/transform_each.hpp
+++ b/include/exec/sequence/transform_each.hpp
@@ -104,6 +104,8 @@ namespace experimental::execution
     struct __operation : __operation_base<_Receiver, _Adaptor>
     {
       __operation(_Sender&& __sndr, _Receiver __rcvr, _Adaptor __adaptor)
+        noexcept(__nothrow_move_constructible<_Receiver, _Adaptor>
+                 && __nothrow_subscribable<_Sender, __receiver<_Receiver, _Adaptor>>)
         : __operation_base<_Receiver, _Adaptor>{static_cast<_Receiver&&>(__rcvr),
                                                 static_cast<_Adaptor&&>(__adaptor)}
         , __opstate_{
@@ -124,8 +126,11 @@ namespace experimental::execution
       _Receiver& __rcvr_;
 
       template <class _Adaptor, class _Sequence>
-      auto operator()(__ignore, _Adaptor __adaptor, _Sequence&& __sequence)
-        noexcept(__nothrow_decay_copyable<_Adaptor, _Sequence>)
+      auto operator()(__ignore, _Adaptor __adaptor, _Sequence&& __sequence) noexcept(
+        __nothrow_constructible_from<__operation<_Sequence, _Receiver, _Adaptor>,
+                                     _Sequence,
+                                     _Receiver,
+                                     _Adaptor>)
           -> __operation<_Sequence, _Receiver, _Adaptor>
       {
         return {static_cast<_Sequence&&>(__sequence),
-- 
2.43.0


From eed7df45ab1cc1f866a0cfa99530f2a3c8874401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 36/61] fix: merge_each: a failure must stop the other sources
 also when the receiver cannot be stopped

---
 include/exec/sequence/merge_each.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 90a9f4b..2799516 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -125,11 +125,7 @@ namespace experimental::execution
 
       bool request_stop() noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.request_stop();
-        }
-        return false;
+        return __stop_source_.request_stop();
       }
 
       inplace_stop_token get_token() const & noexcept
-- 
2.43.0


From b99c00e05862bf1d5f8b4d1d1f4e9709b9d21076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:56 +0000
Subject: [PATCH 37/61] fix: iterate: stop producing items once stop was
 requested

---
 include/exec/sequence/iterate.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/exec/sequence/iterate.hpp b/include/exec/sequence/iterate.hpp
index a85f37c..7c176d1 100644
--- a/include/exec/sequence/iterate.hpp
+++ b/include/exec/sequence/iterate.hpp
@@ -148,6 +148,12 @@ namespace experimental::execution
         {
           STDEXEC::set_value(static_cast<_Receiver&&>(this->__rcvr_));
         }
+        else if (get_stop_token(STDEXEC::get_env(this->__rcvr_)).stop_requested())
+        {
+          // The item sender would complete with set_stopped without advancing the iterator; a
+          // receiver that ignores stopped items would be offered the same item forever.
+          STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
+        }
         else
         {
           STDEXEC_TRY
-- 
2.43.0


From e5ba4f9d9d17bbe74ef5c2254db259d37e1a8dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 38/61] fix: merge_each: a completion inside request_stop must
 not destroy the stop source

---
 include/exec/sequence/merge_each.hpp | 30 +++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 2799516..dc84b69 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -77,11 +77,12 @@ namespace experimental::execution
     {
       struct __on_stop_request
       {
-        inplace_stop_source& __stop_source_;
+        void* __op_;
+        void (*__stop_)(void*) noexcept;
 
         void operator()() noexcept
         {
-          __stop_source_.request_stop();
+          __stop_(__op_);
         }
       };
       using __env_t           = env_of_t<_Receiver>;
@@ -96,13 +97,18 @@ namespace experimental::execution
       inplace_stop_source __stop_source_{};
       __callback_t        __on_stop_{};
 
-      void register_token(_Receiver& __receiver) noexcept
+      template <class _Operation>
+      void register_token(_Receiver& __receiver, _Operation* __op) noexcept
       {
         if constexpr (!unstoppable_token<__stop_token_t>)
         {
           // register stop callback:
           __on_stop_.emplace(get_stop_token(STDEXEC::get_env(__receiver)),
-                             __on_stop_request{__stop_source_});
+                             __on_stop_request{__op,
+                                               [](void* __op) noexcept
+                                               {
+                                                 static_cast<_Operation*>(__op)->on_stop_request();
+                                               }});
         }
       }
 
@@ -388,6 +394,20 @@ namespace experimental::execution
         }
       }
 
+      void on_stop_request() noexcept
+      {
+        // A nested operation can complete from inside request_stop. Keep the operation active so
+        // that the stop source is not destroyed before request_stop returns.
+        std::int32_t __active = __active_.load();
+        while (__active != 0 && !__active_.compare_exchange_weak(__active, __active + 1))
+        {}
+        __nested_stop_.request_stop();
+        if (__active != 0)
+        {
+          complete_if_none_active();
+        }
+      }
+
       void sequence_started() noexcept
       {
         __active_ = 1;
@@ -1182,7 +1202,7 @@ namespace experimental::execution
 
       void start() & noexcept
       {
-        this->__nested_stop_.register_token(this->__rcvr_);
+        this->__nested_stop_.register_token(this->__rcvr_, static_cast<__base_t*>(this));
         if (this->__nested_stop_.stop_requested())
         {
           // Stop has already been requested. Don't bother starting
-- 
2.43.0


From 12c4fe1ceb46d1e8b1280ed2499c37da09e000e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 39/61] fix: merge_each: deregister the stop callback before
 completing early

---
 include/exec/sequence/merge_each.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index dc84b69..325384f 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1207,6 +1207,7 @@ namespace experimental::execution
         {
           // Stop has already been requested. Don't bother starting
           // the child operations.
+          this->__nested_stop_.unregister_token();
           STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
         }
         else
-- 
2.43.0


From d4417e9e742929e033f3b20810c169d3e8db29b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:41 +0000
Subject: [PATCH 40/61] fix: finally: run the final sender also when storing
 the result throws

---
 include/stdexec/__detail/__finally.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 8327ec9..19dbf16 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -188,21 +188,28 @@ namespace STDEXEC
         }
         else
         {
-          STDEXEC_TRY
+          using __tuple_t = __decayed_tuple<_Args...>;
+          if constexpr (__nothrow_decay_copyable<_Args...>)
           {
-            using __tuple_t = __decayed_tuple<_Args...>;
             this->__result_.template emplace<__tuple_t>(static_cast<_Args&&>(__args)...);
-            (*__cleanup_callback_)(this);
-            STDEXEC::start(this->__final_opstate_);
           }
-          STDEXEC_CATCH_ALL
+          else
           {
-            if constexpr (!__nothrow_decay_copyable<_Args...>)
+            STDEXEC_TRY
+            {
+              this->__result_.template emplace<__tuple_t>(static_cast<_Args&&>(__args)...);
+            }
+            STDEXEC_CATCH_ALL
             {
-              (*__cleanup_callback_)(this);
-              STDEXEC::set_error(static_cast<_Receiver&&>(this->__rcvr_), std::current_exception());
+              // The result could not be stored, so the result is now an error. The final sender
+              // must run regardless.
+              using __error_tuple_t = __tuple<set_error_t, std::exception_ptr>;
+              this->__result_.template emplace<__error_tuple_t>(set_error_t(),
+                                                                std::current_exception());
             }
           }
+          (*__cleanup_callback_)(this);
+          STDEXEC::start(this->__final_opstate_);
         }
       }
 
-- 
2.43.0


From e60c818535fd1ddbde5b3264d4364109a87fcf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:45 +0000
Subject: [PATCH 41/61] fix: task: an exception thrown by connecting an awaited
 sender must not terminate

---
 include/exec/task.hpp               | 6 +++---
 include/stdexec/__detail/__task.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 1b0cbda..34d9334 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -600,7 +600,7 @@ namespace experimental::execution
 #ifndef __clang_analyzer__
         template <sender _CvSender>
           requires __start_scheduler_provider<_Context>
-        auto await_transform(_CvSender&& __sndr) noexcept -> decltype(auto)
+        auto await_transform(_CvSender&& __sndr) -> decltype(auto)
         {
           if constexpr (__completes_where_it_starts<set_value_t,
                                                     env_of_t<_CvSender>,
@@ -628,13 +628,13 @@ namespace experimental::execution
 #endif
 
         template <__sender_adaptor_closure_for<__just_void<__scheduler_t>> _Closure>
-        auto await_transform(_Closure&& __closure) noexcept -> decltype(auto)
+        auto await_transform(_Closure&& __closure) -> decltype(auto)
         {
           return await_transform(static_cast<_Closure&&>(__closure)(__just_void<__scheduler_t>()));
         }
 
         template <class _Awaitable>
-        constexpr auto await_transform(_Awaitable&& __awaitable) noexcept -> decltype(auto)
+        constexpr auto await_transform(_Awaitable&& __awaitable) -> decltype(auto)
         {
           return with_awaitable_senders<__promise>::await_transform(
             static_cast<_Awaitable&&>(__awaitable));
diff --git a/include/stdexec/__detail/__task.hpp b/include/stdexec/__detail/__task.hpp
index 66e1b43..578bbfd 100644
--- a/include/stdexec/__detail/__task.hpp
+++ b/include/stdexec/__detail/__task.hpp
@@ -718,7 +718,7 @@ namespace STDEXEC
     }
 
     template <sender _Sender>
-    constexpr auto await_transform(_Sender&& __sndr) noexcept
+    constexpr auto await_transform(_Sender&& __sndr)
     {
       using __schedule_sndr_t = schedule_result_t<start_scheduler_type>;
       if constexpr (__completes_where_it_starts<set_value_t, env_of_t<__schedule_sndr_t>, __env>)
-- 
2.43.0


From 22a2fea60a1bb3c75d482fa50c48986109fb9f1b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:55:05 +0000
Subject: [PATCH 42/61] fix: exec::task: a failed reschedule_coroutine_on must
 throw, not terminate

---
 include/exec/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 34d9334..f8e7492 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -468,7 +468,7 @@ namespace experimental::execution
         }
       }
 
-      void await_resume() noexcept
+      void await_resume()
       {
         if (__eptr_)
         {
-- 
2.43.0


From 2153db2ee3388469ad376de3029a8097646ce5be Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 43/61] fix: task_scheduler: forward stop requests from foreign
 stop tokens

---
 include/stdexec/__detail/__task_scheduler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 648b530..d67b3c7 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -316,6 +316,9 @@ namespace STDEXEC
 
       constexpr void start() noexcept
       {
+        // Forward stop requests to the scheduled operation also when the receiver's stop token
+        // is not an inplace_stop_token.
+        __rcvr_proxy_.__register_stop_callback();
         __backend_.schedule(__rcvr_proxy_, std::span{__storage_});
       }
 
-- 
2.43.0


From 4b5673245b17e04c4fd4b530f76a0fa6c043af0e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:26:37 +0000
Subject: [PATCH 44/61] fix: task_scheduler: over-aligned operation states must
 not be placed in misaligned storage

---
 include/stdexec/__detail/__task_scheduler.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index d67b3c7..dc77c21 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -46,6 +46,7 @@ import stdexec;
 
 #  if !STDEXEC_USE_MODULES()
 #    include <cstddef>
+#    include <cstdint>
 
 #    include <exception>
 #    include <span>
@@ -684,6 +685,15 @@ namespace STDEXEC
 
     //////////////////////////////////////////////////////////////////////////////////////
     // __emplace_into
+    //! Whether an object of type _Ty can be constructed at the start of the storage.
+    template <class _Ty>
+    [[nodiscard]]
+    constexpr auto __fits_in_situ(std::span<std::byte> __storage) noexcept -> bool
+    {
+      return __storage.size() >= sizeof(_Ty)
+          && reinterpret_cast<std::uintptr_t>(__storage.data()) % alignof(_Ty) == 0;
+    }
+
     template <class _Ty, class _Alloc, class... _Args>
     constexpr auto
     __emplace_into(std::span<std::byte> __storage, _Alloc const & __alloc, _Args&&... __args)
@@ -692,7 +702,7 @@ namespace STDEXEC
       auto __alloc_copy = STDEXEC::__rebind_allocator<_Ty>(__alloc);
       using __traits_t  = std::allocator_traits<decltype(__alloc_copy)>;
 
-      bool const    __in_situ = __storage.size() >= sizeof(_Ty);
+      bool const    __in_situ = __task::__fits_in_situ<_Ty>(__storage);
       auto*         __ptr     = __in_situ ? reinterpret_cast<_Ty*>(__storage.data())
                                           : __traits_t::allocate(__alloc_copy, 1);
       __scope_guard __guard{
@@ -776,7 +786,7 @@ namespace STDEXEC
       STDEXEC_TRY
       {
         using __opstate_t        = __task::__opstate<_Alloc, _Sndr, _Env>;
-        bool const     __in_situ = __storage.size() >= sizeof(__opstate_t);
+        bool const     __in_situ = __task::__fits_in_situ<__opstate_t>(__storage);
         _Alloc const & __alloc   = *this;
         auto&          __opstate = __task::__emplace_into<__opstate_t>(__storage,
                                                               __alloc,
-- 
2.43.0


From 6bd2338cc49cf6c2ac2c8268b32600807d479548 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:33:46 +0000
Subject: [PATCH 45/61] fix: task_scheduler: a failure of the scheduler's bulk
 operation must reach the receiver

---
 .../__detail/__parallel_scheduler_backend.hpp        |  9 +++++++--
 include/stdexec/__detail/__task_scheduler.hpp        | 12 ++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_backend.hpp b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
index c18c4cc..2ba5aee 100644
--- a/include/stdexec/__detail/__parallel_scheduler_backend.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
@@ -204,7 +204,12 @@ namespace STDEXEC
 
     // Partially implements the _RcvrProxy interface (either receiver_proxy or
     // bulk_item_receiver_proxy) in terms of a concrete receiver type _Rcvr.
-    template <class _Rcvr, class _RcvrProxy, bool _Infallible = false>
+    // _Infallible: set_error is never called. _Unstoppable: set_stopped is never called when
+    // the receiver's stop token is unstoppable.
+    template <class _Rcvr,
+              class _RcvrProxy,
+              bool _Infallible  = false,
+              bool _Unstoppable = _Infallible>
     struct STDEXEC_ATTRIBUTE(empty_bases) __receiver_proxy_base
       : _RcvrProxy
       , __stop_callback_for<stop_token_of_t<env_of_t<_Rcvr>>>
@@ -249,7 +254,7 @@ namespace STDEXEC
 
       constexpr void set_stopped() noexcept final
       {
-        if constexpr (_Infallible && unstoppable_token<__stop_token_t>)
+        if constexpr (_Unstoppable && unstoppable_token<__stop_token_t>)
         {
           STDEXEC_ASSERT(!+"set_stopped called on an unstoppable receiver proxy");
           __std::unreachable();
diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index dc77c21..b875c1a 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -505,7 +505,7 @@ namespace STDEXEC
     //! downstream receiver.
     template <class _BulkTag, class _Policy, class _Fn, class _Rcvr, class _Values>
     struct __bulk_state final
-      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, true>
+      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, false, true>
     {
       constexpr explicit __bulk_state(_Rcvr                        __rcvr,
                                       size_t                       __shape,
@@ -876,11 +876,11 @@ namespace STDEXEC
   {
     // Implementation of the get_start_scheduler_t query for __receiver_proxy_base and
     // __proxy_env from __parallel_scheduler_backend.hpp.
-    template <class _Rcvr, class _Proxy, bool _Infallible>
-    constexpr void
-    __receiver_proxy_base<_Rcvr, _Proxy, _Infallible>::__query(get_start_scheduler_t,
-                                                               __type_index __value_type,
-                                                               void*        __dest) const noexcept
+    template <class _Rcvr, class _Proxy, bool _Infallible, bool _Unstoppable>
+    constexpr void __receiver_proxy_base<_Rcvr, _Proxy, _Infallible, _Unstoppable>::__query(
+      get_start_scheduler_t,
+      __type_index __value_type,
+      void*        __dest) const noexcept
     {
       if (__value_type == __mtypeid<task_scheduler>)
       {
-- 
2.43.0


From 8024a166b2bc43ca4f0d203f68cfb968aaa5e07b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:23:20 +0000
Subject: [PATCH 46/61] fix: __frame_allocator: the allocator for a derived
 memory resource must be equality comparable

---
 include/exec/__frame_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/exec/__frame_allocator.hpp b/include/exec/__frame_allocator.hpp
index 6a5f0e6..349bb6d 100644
--- a/include/exec/__frame_allocator.hpp
+++ b/include/exec/__frame_allocator.hpp
@@ -141,6 +141,12 @@ namespace experimental::execution
           return __resource_;
         }
 
+        template <class _Uy>
+        friend constexpr bool operator==(type const &__lhs, type<_Uy> const &__rhs) noexcept
+        {
+          return *__lhs.resource() == *__rhs.resource();
+        }
+
        private:
         _Delegate *__resource_;
       };
-- 
2.43.0


From 1cf475bef566def6a464afc271686760a6c2969f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:24:26 +0000
Subject: [PATCH 47/61] fix: exec::function: use the allocator of the
 receiver's environment for the operation state

---
 include/exec/function.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/function.hpp b/include/exec/function.hpp
index f0ba12f..872e719 100644
--- a/include/exec/function.hpp
+++ b/include/exec/function.hpp
@@ -141,14 +141,14 @@ namespace experimental::execution
       using __receiver_t   = __receiver_wrapper<__any_receiver_ref<_Sigs, _Queries>>;
       using __prop_t       = __receiver_t::__prop_t;
       using __stop_token_t = stop_token_of_t<env_of_t<__receiver_t>>;
-      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<_Receiver const &>()));
+      using __adaptee_t    = decltype(__choose_frame_allocator(__declval<env_of_t<_Receiver>>()));
 
       __memory_resource_adaptor_t<__adaptee_t> __resource_;
       __prop_t                                 __env_;
       _any::_state<_Receiver, __stop_token_t>  __rcvr_;
 
       explicit __opstate_base(_Receiver __rcvr)
-        : __resource_(__choose_frame_allocator(std::as_const(__rcvr)))
+        : __resource_(__choose_frame_allocator(STDEXEC::get_env(__rcvr)))
         , __env_(__make_env())
         , __rcvr_(static_cast<_Receiver &&>(__rcvr))
       {}
-- 
2.43.0


From cbaeeb55d3c1a1af2b1a1a8894bbed8257778e4d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:25:58 +0000
Subject: [PATCH 48/61] fix: __any_allocator: allocate must return storage
 aligned for the value type

---
 include/stdexec/__detail/__any_allocator.hpp | 36 ++++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__any_allocator.hpp b/include/stdexec/__detail/__any_allocator.hpp
index c0ff20e..916d6a7 100644
--- a/include/stdexec/__detail/__any_allocator.hpp
+++ b/include/stdexec/__detail/__any_allocator.hpp
@@ -31,6 +31,9 @@ import stdexec;
 #  include "__memory.hpp"
 #  include "__typeinfo.hpp"
 
+#  include <cstring>
+#  include <memory>
+
 #  include "__prologue.hpp"
 
 STDEXEC_PRAGMA_IGNORE_GNU("-Warray-bounds")
@@ -112,19 +115,46 @@ namespace STDEXEC
     [[nodiscard]]
     constexpr auto allocate(size_t __n) -> _Ty*
     {
-      void* __void_ptr = __alloc_.allocate(__n * sizeof(_Ty));
-      return static_cast<_Ty*>(__void_ptr);
+      if constexpr (alignof(_Ty) > 1)
+      {
+        // The type-erased allocator hands out bytes, which it need not align. Allocate
+        // enough to align the array, and remember where the allocation starts just in
+        // front of it.
+        std::byte* const __base  = __alloc_.allocate(__n * sizeof(_Ty) + __overhead_);
+        void*            __ptr   = __base + sizeof(std::byte*);
+        size_t           __space = __n * sizeof(_Ty) + alignof(_Ty) - 1;
+        __ptr                    = std::align(alignof(_Ty), __n * sizeof(_Ty), __ptr, __space);
+        std::memcpy(static_cast<std::byte*>(__ptr) - sizeof(std::byte*), &__base, sizeof(__base));
+        return static_cast<_Ty*>(__ptr);
+      }
+      else
+      {
+        void* __void_ptr = __alloc_.allocate(__n * sizeof(_Ty));
+        return static_cast<_Ty*>(__void_ptr);
+      }
     }
 
     constexpr void deallocate(_Ty* __ptr, size_t __n) noexcept
     {
       void* __void_ptr = static_cast<void*>(__ptr);
-      __alloc_.deallocate(static_cast<std::byte*>(__void_ptr), __n * sizeof(_Ty));
+      if constexpr (alignof(_Ty) > 1)
+      {
+        std::byte* __base{};
+        std::memcpy(&__base, static_cast<std::byte*>(__void_ptr) - sizeof(__base), sizeof(__base));
+        __alloc_.deallocate(__base, __n * sizeof(_Ty) + __overhead_);
+      }
+      else
+      {
+        __alloc_.deallocate(static_cast<std::byte*>(__void_ptr), __n * sizeof(_Ty));
+      }
     }
 
     constexpr auto operator==(__any_allocator const &) const noexcept -> bool = default;
 
    private:
+    // what allocate() asks for in excess of the array itself
+    static constexpr size_t __overhead_ = sizeof(std::byte*) + alignof(_Ty) - 1;
+
     struct __alloc_impl final : __any::__any<__detail::__byte_allocator>
     {
       using __alloc_impl::__any::__any;
-- 
2.43.0


From 3c30f74f54cd4b7519b582860993dda33fe31c0a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:26:44 +0000
Subject: [PATCH 49/61] fix: ex::task: use the allocator passed to a member
 function or lambda coroutine

---
 include/stdexec/__detail/__task.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/stdexec/__detail/__task.hpp b/include/stdexec/__detail/__task.hpp
index 578bbfd..6edf7ed 100644
--- a/include/stdexec/__detail/__task.hpp
+++ b/include/stdexec/__detail/__task.hpp
@@ -783,6 +783,25 @@ namespace STDEXEC
       __promise::operator delete(__ptr, __bytes);
     }
 
+    // When the coroutine is a member function or a lambda, the object comes first:
+    template <class _This, class _Alloc, class... _Args>
+    static void*
+    operator new(size_t __bytes, _This const&, std::allocator_arg_t, _Alloc __alloc, _Args&&...)
+    {
+      return __promise::operator new(__bytes, std::allocator_arg, std::move(__alloc));
+    }
+
+    template <class _This, class _Alloc, class... _Args>
+    static void operator delete(void*  __ptr,
+                                size_t __bytes,
+                                _This const&,
+                                std::allocator_arg_t,
+                                _Alloc,
+                                _Args&&...) noexcept
+    {
+      __promise::operator delete(__ptr, __bytes);
+    }
+
    private:
     template <class>
     friend struct __awaiter;
-- 
2.43.0


From 58dd7d6e2b5f39af09c3b139c76e25fba7b14fdc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:32:06 +0000
Subject: [PATCH 50/61] fix: ex::task: a failed allocation (or a throwing
 environment) when a task is awaited must not terminate

---
 include/stdexec/__detail/__task.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/stdexec/__detail/__task.hpp b/include/stdexec/__detail/__task.hpp
index 6edf7ed..8f66e35 100644
--- a/include/stdexec/__detail/__task.hpp
+++ b/include/stdexec/__detail/__task.hpp
@@ -348,7 +348,7 @@ namespace STDEXEC
     template <class _ParentPromise>
       requires __task::__has_compatible_environment_with<env_of_t<_ParentPromise&>, _TaskEnv>
     [[nodiscard]]
-    constexpr auto as_awaitable(_ParentPromise& __parent) && noexcept
+    constexpr auto as_awaitable(_ParentPromise& __parent) &&
     {
       return __awaiter<_ParentPromise>(static_cast<task&&>(*this), __parent);
     }
@@ -400,7 +400,7 @@ namespace STDEXEC
 
     template <class _Env>
     [[nodiscard]]
-    static auto __mk_sched(_Env const & __env, allocator_type const & __alloc) noexcept  //
+    static auto __mk_sched(_Env const & __env, allocator_type const & __alloc)  //
       -> start_scheduler_type
     {
       // NOT TO SPEC: try constructing the scheduler with the allocator if possible.
@@ -429,7 +429,7 @@ namespace STDEXEC
 
     template <class _Env>
     [[nodiscard]]
-    static auto __mk_own_env(_Env const & __env) noexcept
+    static auto __mk_own_env(_Env const & __env)
     {
       if constexpr (__std::constructible_from<__own_env_t<_Env>, _Env>)
       {
@@ -443,8 +443,7 @@ namespace STDEXEC
 
     template <class _Env>
     [[nodiscard]]
-    static auto
-    __mk_env(_Env const & __env, __own_env_t<_Env> const & __own_env) noexcept -> _TaskEnv
+    static auto __mk_env(_Env const & __env, __own_env_t<_Env> const & __own_env) -> _TaskEnv
     {
       if constexpr (__std::constructible_from<_TaskEnv, __own_env_t<_Env> const &>)
       {
@@ -465,7 +464,7 @@ namespace STDEXEC
       template <class _ParentEnv, class _OwnEnv>
       constexpr explicit __awaiter_base(task&&             __task,
                                         _ParentEnv const & __parent_env,
-                                        _OwnEnv const &    __own_env) noexcept
+                                        _OwnEnv const &    __own_env)
         : allocator_type(__mk_alloc(__parent_env))
         , __sch_(__mk_sched(__parent_env, __get_allocator()))
         , __env_(__mk_env(__parent_env, __own_env))
@@ -523,7 +522,7 @@ namespace STDEXEC
       , __awaiter_base
       , __stop_callback_box_t<env_of_t<_ParentPromise>>
     {
-      constexpr explicit __awaiter(task&& __task, _ParentPromise& __parent) noexcept
+      constexpr explicit __awaiter(task&& __task, _ParentPromise& __parent)
         : __awaiter::__own_env_box{__mk_own_env(STDEXEC::get_env(__parent))}
         , __awaiter_base(static_cast<task&&>(__task), STDEXEC::get_env(__parent), this->__own_env_)
         , __parent_(__parent)
-- 
2.43.0


From 4e0df6478d206639411c475a3ca7e918fe2568f5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:35:50 +0000
Subject: [PATCH 51/61] fix: task_scheduler: copying a scheduler that does not
 fit in the small buffer must not allocate

---
 include/stdexec/__detail/__task_scheduler.hpp | 69 ++++++++++++++++++-
 1 file changed, 67 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index b875c1a..fb1f225 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -49,6 +49,7 @@ import stdexec;
 #    include <cstdint>
 
 #    include <exception>
+#    include <memory>
 #    include <span>
 #    include <utility>
 #  endif
@@ -242,14 +243,31 @@ namespace STDEXEC
     template <class _Sch, class _Alloc>
     class __backend_for;
 
+    template <class _Sch, class _Alloc>
+    class __shared_backend_for;
+
+    // Copying a scheduler must neither throw nor fail. A backend that does not fit in the
+    // small buffer of __any_task_scheduler_backend is therefore shared by the copies.
+    template <class _Sch, class _Alloc>
+    static constexpr auto __mk_backend(_Sch __sch, _Alloc const & __alloc)
+    {
+      using __backend_t    = __backend_for<_Sch, _Alloc>;
+      // the model of the backend also has a pointer to its virtual function table:
+      using __fits_in_situ = __mbool<sizeof(__backend_t) <= 2 * sizeof(void*)
+                                     && alignof(__backend_t) <= alignof(void*)>;
+      using __result_t =
+        __if_c<__fits_in_situ::value, __backend_t, __shared_backend_for<_Sch, _Alloc>>;
+      return __result_t(std::move(__sch), __alloc);
+    }
+
    public:
     using scheduler_concept = scheduler_tag;
 
     template <__not_same_as<task_scheduler> _Sch, class _Alloc = std::allocator<_Sch>>
       requires __infallible_scheduler<_Sch, __task::__env_t<true>>
     constexpr explicit task_scheduler(_Sch __sch, _Alloc const & __alloc = {})
-      : __backend_(__backend_for{std::move(__sch), STDEXEC::__rebind_allocator<_Sch>(__alloc)},
-                   STDEXEC::__rebind_allocator<__backend_for<_Sch, _Alloc>>(__alloc))
+      : __backend_(__mk_backend(std::move(__sch), STDEXEC::__rebind_allocator<_Sch>(__alloc)),
+                   __alloc)
     {
       using __opstate_t = __task::__opstate<_Alloc, schedule_result_t<_Sch>, __task::__env_t<true>>;
       static_assert(sizeof(__opstate_t) <= STDEXEC_TASK_SCHEDULE_OPSTATE_SIZE,
@@ -872,6 +890,53 @@ namespace STDEXEC
     _Sch __sch_;
   };
 
+  // A backend whose copies share the ownership of the scheduler.
+  template <class _Sch, class _Alloc>
+  class task_scheduler::__shared_backend_for
+  {
+    using __backend_t = __backend_for<_Sch, _Alloc>;
+
+   public:
+    explicit __shared_backend_for(_Sch __sch, _Alloc const & __alloc)
+      : __backend_(std::allocate_shared<__backend_t>(__alloc, std::move(__sch), __alloc))
+    {}
+
+    void schedule(parallel_scheduler_replacement::receiver_proxy& __rcvr_proxy,
+                  std::span<std::byte>                            __storage) noexcept
+    {
+      __backend_->schedule(__rcvr_proxy, __storage);
+    }
+
+    void schedule_bulk_chunked(size_t                                                    __count,
+                               parallel_scheduler_replacement::bulk_item_receiver_proxy& __rcvr,
+                               std::span<std::byte> __storage) noexcept
+    {
+      __backend_->schedule_bulk_chunked(__count, __rcvr, __storage);
+    }
+
+    void schedule_bulk_unchunked(size_t                                                    __count,
+                                 parallel_scheduler_replacement::bulk_item_receiver_proxy& __rcvr,
+                                 std::span<std::byte> __storage) noexcept
+    {
+      __backend_->schedule_bulk_unchunked(__count, __rcvr, __storage);
+    }
+
+    [[nodiscard]]
+    auto query(get_forward_progress_guarantee_t) const noexcept -> forward_progress_guarantee
+    {
+      return __backend_->query(get_forward_progress_guarantee);
+    }
+
+    friend bool
+    operator==(__shared_backend_for const & __lhs, __shared_backend_for const & __rhs) noexcept
+    {
+      return __lhs.__backend_ == __rhs.__backend_ || *__lhs.__backend_ == *__rhs.__backend_;
+    }
+
+   private:
+    std::shared_ptr<__backend_t> __backend_;
+  };
+
   namespace __detail
   {
     // Implementation of the get_start_scheduler_t query for __receiver_proxy_base and
-- 
2.43.0


From bcbe15832e17ab55d2ffa62b0c1ac0fc4499c38a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:38:41 +0000
Subject: [PATCH 52/61] fix: connecting with an allocator: a throwing
 allocator-extended move must not terminate

---
 include/stdexec/__detail/__basic_sender.hpp |  7 ++-
 include/stdexec/__detail/__let.hpp          |  6 ++-
 include/stdexec/__detail/__memory.hpp       | 49 +++++++++++++++++++++
 3 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__basic_sender.hpp b/include/stdexec/__detail/__basic_sender.hpp
index 49933cf..fcac2b1 100644
--- a/include/stdexec/__detail/__basic_sender.hpp
+++ b/include/stdexec/__detail/__basic_sender.hpp
@@ -112,7 +112,8 @@ namespace STDEXEC
       template <class _CvData>
       STDEXEC_ATTRIBUTE(host, device)
       constexpr __state(_Receiver __rcvr, _CvData&& __data)
-        noexcept(__nothrow_decay_copyable<_CvData>)
+        noexcept(__nothrow_decay_copyable<_CvData>
+                 && STDEXEC::__nothrow_allocator_aware_forward<_CvData, _Receiver>())
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __data_(STDEXEC::__allocator_aware_forward(static_cast<_CvData&&>(__data), __rcvr_))
       {}
@@ -168,7 +169,9 @@ namespace STDEXEC
 
       static constexpr auto __get_state =  //
         []<class _Sender, class _Receiver>(_Sender&& __sndr, _Receiver&& __rcvr) noexcept(
-          __nothrow_decay_copyable<__data_of<_Sender>>)
+          __nothrow_decay_copyable<__data_of<_Sender>>
+          && STDEXEC::__nothrow_allocator_aware_forward<__data_of<_Sender>,
+                                                        std::remove_cvref_t<_Receiver>>())
         -> __state<std::remove_cvref_t<_Receiver>, std::remove_cvref_t<__data_of<_Sender>>>
       {
         return __state{static_cast<_Receiver&&>(__rcvr),
diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 5304f2e..ca40357 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -175,7 +175,8 @@ namespace STDEXEC
                                         _Sender const & __sndr,
                                         _Fun            __fn,
                                         _Receiver&&     __rcvr)
-        noexcept(__nothrow_move_constructible<_Fun>)
+        noexcept(__nothrow_move_constructible<_Fun>
+                 && STDEXEC::__nothrow_allocator_aware_forward<_Fun, _Receiver>())
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __fn_(STDEXEC::__allocator_aware_forward(static_cast<_Fun&&>(__fn), __rcvr_))
         // TODO(ericniebler): this needs a fallback:
@@ -304,7 +305,8 @@ namespace STDEXEC
 
       constexpr explicit __opstate(_CvChild&& __child, _Fun __fn, _Receiver&& __rcvr)
         noexcept(__nothrow_connectable<_CvChild, __first_rcvr_t>
-                 && __nothrow_move_constructible<_Fun>)
+                 && __nothrow_move_constructible<_Fun>
+                 && STDEXEC::__nothrow_allocator_aware_forward<_Fun, _Receiver>())
         : __opstate::__opstate_base(_SetTag(),
                                     __copy_cvref_fn<_CvChild>{},
                                     __child,
diff --git a/include/stdexec/__detail/__memory.hpp b/include/stdexec/__detail/__memory.hpp
index 36d9602..4c828a5 100644
--- a/include/stdexec/__detail/__memory.hpp
+++ b/include/stdexec/__detail/__memory.hpp
@@ -124,6 +124,55 @@ namespace STDEXEC
     return __obj_using_alloc_fn<_Alloc>{__alloc};
   }
 
+  // Whether make_obj_using_allocator<_Ty>(__alloc, static_cast<_Arg>(__arg)) is known not to throw
+  template <class _Ty, class _Arg, class _Alloc>
+  inline constexpr bool __nothrow_obj_using_alloc = __nothrow_constructible_from<_Ty, _Arg>;
+
+  template <class _Ty, class _Arg, class _Alloc>
+    requires std::uses_allocator_v<_Ty, _Alloc>
+  inline constexpr bool __nothrow_obj_using_alloc<_Ty, _Arg, _Alloc> =
+    __nothrow_constructible_from<_Ty, std::allocator_arg_t, _Alloc const &, _Arg>
+    || (!__std::constructible_from<_Ty, std::allocator_arg_t, _Alloc const &, _Arg>
+        && __nothrow_constructible_from<_Ty, _Arg, _Alloc const &>);
+
+  // the members of a pair are constructed with the allocator
+  template <class _Ty, class _Uy, class _Arg, class _Alloc>
+  inline constexpr bool __nothrow_obj_using_alloc<std::pair<_Ty, _Uy>, _Arg, _Alloc> =
+    !std::uses_allocator_v<_Ty, _Alloc> && !std::uses_allocator_v<_Uy, _Alloc>
+    && __nothrow_constructible_from<std::pair<_Ty, _Uy>, _Arg>;
+
+  template <class _Alloc>
+  struct __nothrow_objs_using_alloc_fn
+  {
+    template <class... _Ts>
+    constexpr auto operator()(_Ts &&...) const noexcept
+      -> __mbool<(__nothrow_obj_using_alloc<__decay_t<_Ts>, _Ts, _Alloc> && ...)>;
+  };
+
+  // Whether __allocator_aware_forward does not throw
+  template <class _Ty, class _Context>
+  [[nodiscard]]
+  consteval auto __nothrow_allocator_aware_forward() noexcept -> bool
+  {
+    using __value_t = __decay_t<_Ty>;
+    if constexpr (!__callable<get_allocator_t, env_of_t<_Context>>)
+    {
+      return true;
+    }
+    else
+    {
+      using __alloc_t = __decay_t<__call_result_t<get_allocator_t, env_of_t<_Context>>>;
+      if constexpr (__is_instance_of<__value_t, __tuple>)
+      {
+        return __apply_result_t<__nothrow_objs_using_alloc_fn<__alloc_t>, _Ty>::value;
+      }
+      else
+      {
+        return __nothrow_obj_using_alloc<__value_t, _Ty, __alloc_t>;
+      }
+    }
+  }
+
   template <class _Ty, class _Context>
   [[nodiscard]]
   constexpr auto __allocator_aware_forward(_Ty &&__obj, _Context const &__ctx) -> decltype(auto)
-- 
2.43.0


From 5194d21e8ae2a1021b6df2414c1c119f733e34f7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:11:21 +0000
Subject: [PATCH 53/61] fix: let_value and friends must not advertise the
 completion behavior of their child

---
 include/stdexec/__detail/__let.hpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index ca40357..d43ca8e 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -509,6 +509,32 @@ namespace STDEXEC
     //   }
     // };
 
+    // Nothing is known about where or when the senders returned from the function complete,
+    // so the completion behavior of the child must not be advertised as that of the whole.
+    template <class _ChildAttrs>
+    struct __attrs
+    {
+      template <class _Tag, class... _Env>
+      [[nodiscard]]
+      constexpr auto query(__get_completion_behavior_t<_Tag>, _Env const &...) const noexcept
+      {
+        return __completion_behavior::__unknown;
+      }
+
+      template <__forwarding_query _Query, class... _Args>
+        requires __queryable_with<_ChildAttrs, _Query, _Args...>
+      [[nodiscard]]
+      constexpr auto query(_Query, _Args &&...__args) const
+        noexcept(__nothrow_queryable_with<_ChildAttrs, _Query, _Args...>)
+          -> __query_result_t<_ChildAttrs, _Query, _Args...>
+      {
+        return __query<_Query>()(__attrs_, static_cast<_Args &&>(__args)...);
+      }
+
+      STDEXEC_ATTRIBUTE(no_unique_address)
+      _ChildAttrs __attrs_;
+    };
+
     //! Implementation of the `let_*_t` types, where `_SetTag` is, e.g., `set_value_t` for `let_value`.
     template <class _LetTag>
     struct __let_t
@@ -597,10 +623,10 @@ namespace STDEXEC
 
      public:
       static constexpr auto __get_attrs =
-        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept -> decltype(auto)
+        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
       {
         // TODO(ericniebler): this needs a proper implementation
-        return __fwd_env(STDEXEC::get_env(__child));
+        return __attrs<env_of_t<_Child const &>>{STDEXEC::get_env(__child)};
       };
 
       template <class _CvSender, class... _Env>
-- 
2.43.0


From 1c52b34395ffaa42ddcb7c388e34bca4eefad0ea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:11:23 +0000
Subject: [PATCH 54/61] fix: affine must not advertise inline completion when
 it reschedules its child

---
 include/stdexec/__detail/__affine.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__affine.hpp b/include/stdexec/__detail/__affine.hpp
index 2306561..3d64a14 100644
--- a/include/stdexec/__detail/__affine.hpp
+++ b/include/stdexec/__detail/__affine.hpp
@@ -148,9 +148,10 @@ namespace STDEXEC
       {
         constexpr auto __behavior = __get_completion_behavior<_Tag, _Sender, _Env...>();
 
-        // When the child sender completes inline, we can return "inline" here instead of
-        // "__asynchronous_affine".
-        if constexpr (__behavior == __completion_behavior::__inline_completion)
+        // When the child sender completes inline and is not adapted, we can return "inline"
+        // here instead of "__asynchronous_affine".
+        if constexpr (__behavior == __completion_behavior::__inline_completion
+                      && (__is_affine<_Sender, _Env> && ...))
         {
           return __completion_behavior::__inline_completion;
         }
-- 
2.43.0


From ef07c5ae6dc0115f5e326e7e4cfe879676f8f69f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:36:25 +0000
Subject: [PATCH 55/61] fix: any_sender: deliver to receivers with
 rvalue-qualified completion functions

---
 include/exec/any_sender_of.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/any_sender_of.hpp b/include/exec/any_sender_of.hpp
index d399013..e59fe6e 100644
--- a/include/exec/any_sender_of.hpp
+++ b/include/exec/any_sender_of.hpp
@@ -357,20 +357,20 @@ namespace experimental::execution
       constexpr void set_value(As &&..._as) noexcept
       {
         _callback_.__destroy();
-        Receiver::set_value(static_cast<As &&>(_as)...);
+        STDEXEC::set_value(static_cast<Receiver &&>(*this), static_cast<As &&>(_as)...);
       }
 
       template <class Error>
       constexpr void set_error(Error &&_err) noexcept
       {
         _callback_.__destroy();
-        Receiver::set_error(static_cast<Error &&>(_err));
+        STDEXEC::set_error(static_cast<Receiver &&>(*this), static_cast<Error &&>(_err));
       }
 
       constexpr void set_stopped() noexcept
       {
         _callback_.__destroy();
-        Receiver::set_stopped();
+        STDEXEC::set_stopped(static_cast<Receiver &&>(*this));
       }
 
       [[nodiscard]]
-- 
2.43.0


From 0a062e9acc05b6196fef5ba120bc1be16abcb501 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:36:25 +0000
Subject: [PATCH 56/61] fix: affine: a child that is not adapted completes the
 way it says

---
 include/stdexec/__detail/__affine.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__affine.hpp b/include/stdexec/__detail/__affine.hpp
index 3d64a14..7f4025a 100644
--- a/include/stdexec/__detail/__affine.hpp
+++ b/include/stdexec/__detail/__affine.hpp
@@ -148,12 +148,12 @@ namespace STDEXEC
       {
         constexpr auto __behavior = __get_completion_behavior<_Tag, _Sender, _Env...>();
 
-        // When the child sender completes inline and is not adapted, we can return "inline"
-        // here instead of "__asynchronous_affine".
-        if constexpr (__behavior == __completion_behavior::__inline_completion
+        // When the child sender is not adapted, it completes the way it says. An adapted
+        // child is always "__asynchronous_affine".
+        if constexpr (__completion_behavior::__is_affine(__behavior)
                       && (__is_affine<_Sender, _Env> && ...))
         {
-          return __completion_behavior::__inline_completion;
+          return __behavior;
         }
         else
         {
-- 
2.43.0


From c173fbc266c7a334f3c1abdff1186678fec98815 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:36:25 +0000
Subject: [PATCH 57/61] fix: affine: forward queries to the child's attributes

---
 include/stdexec/__detail/__affine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__affine.hpp b/include/stdexec/__detail/__affine.hpp
index 7f4025a..541754f 100644
--- a/include/stdexec/__detail/__affine.hpp
+++ b/include/stdexec/__detail/__affine.hpp
@@ -164,10 +164,10 @@ namespace STDEXEC
       template <__forwarding_query _Tag, class... _Args>
         requires(!__completion_query<_Tag>)
              && __queryable_with<env_of_t<_Sender>, _Tag, _Args const &...>
-      constexpr auto query(_Tag, _Args const &...) const noexcept
+      constexpr auto query(_Tag, _Args const &...__args) const noexcept
         -> __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>
       {
-        return __query_result_t<env_of_t<_Sender>, _Tag, _Args const &...>{};
+        return __query<_Tag>()(STDEXEC::get_env(__sndr_), __args...);
       }
 
       _Sender const &__sndr_;
-- 
2.43.0


From ec1fd6001fcbaae22f0ced2be31a6a769d9f91d9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:12:07 +0000
Subject: [PATCH 58/61] fix: io_uring_context: complete schedule_after on a
 stopped context, start a stop operation only once

An operation that was started after the context had been stopped was never completed: its
count of outstanding parts was zero. If the receiver's token and the context were stopped
while the operation completed, its stop operation was pushed to the queue twice; and the
callbacks are now gone before the count is released, so that run_until_empty() does not
return before the stop operation is in the queue.
---
 include/exec/linux/io_uring_context.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 011cf1f..1fcd536 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -917,7 +917,7 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const &) noexcept
       {
-        if (__op_->__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        if (__op_->__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel) == 1)
         {
           __op_->__on_context_stop_.reset();
           __op_->__on_receiver_stop_.reset();
@@ -930,6 +930,7 @@ namespace experimental::execution
         int expected = 1;
         if (__op_->__n_ops_.compare_exchange_strong(expected,
                                                     2,
+                                                    STDEXEC::__std::memory_order_acq_rel,
                                                     STDEXEC::__std::memory_order_relaxed))
         {
           if (__op_->context().submit(this))
@@ -1043,10 +1044,12 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const & __cqe) noexcept
       {
-        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        // Afterwards, the stop operation has either been submitted or it will never be.
+        __on_context_stop_.reset();
+        __on_receiver_stop_.reset();
+        // The count is zero if the context was stopped before the operation has been submitted.
+        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_acq_rel) <= 1)
         {
-          __on_context_stop_.reset();
-          __on_receiver_stop_.reset();
           __receiver_t& __receiver = this->__base_.receiver();
           __context&    __context_ = this->__base_.context();
           auto          token      = STDEXEC::get_stop_token(STDEXEC::get_env(__receiver));
-- 
2.43.0


From b22eda56380fe121d7d040e8118540da45946ab6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:12:07 +0000
Subject: [PATCH 59/61] fix: io_uring_context: do not lose wakeups, stop
 requests, tasks and restarts

- The wakeup operation stays armed: a stop request, or a second run, left the context
  without one (it then slept through submissions), or submitted it twice (run_until_empty()
  did not return). A restarted context returned from run_until_stopped() at once.
- run(): a stop request made before the context is reopened is no longer discarded, and an
  exception completes the operation once.
- A cancellation no longer lets the tasks behind it be submitted to a stopped context.
- Do not wait while tasks are pending that fit into the ring, keep room for a cancellation,
  and complete, not submit, cancellations when the context closes.
- Do not return from run_until_empty() while there are new requests.
---
 include/exec/linux/io_uring_context.hpp | 146 ++++++++++++++++--------
 1 file changed, 100 insertions(+), 46 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 1fcd536..ad69aab 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -174,9 +174,13 @@ namespace experimental::execution
     {
       __task_vtable const * __vtable_;
       __task*               __next_{nullptr};
+      // Cancellations are submitted even if the context is stopped, and take precedence if the
+      // completion queue is almost exhausted.
+      bool __is_cancellation_{false};
 
-      explicit __task(__task_vtable const & __vtable)
+      explicit __task(__task_vtable const & __vtable, bool __is_cancellation = false)
         : __vtable_{&__vtable}
+        , __is_cancellation_{__is_cancellation}
       {}
     };
 
@@ -233,13 +237,21 @@ namespace experimental::execution
       // If is_stopped is true, no new tasks are submitted to the io_uring unless it is a cancellation.
       // If is_stopped is true and a task is not ready to be completed, the task is completed with
       // an io_uring_cqe object with the result field set to -ECANCELED.
-      auto submit(__task_queue __tasks, __u32 __max_submissions, bool __is_stopped) noexcept
-        -> __submission_result
+      // The task __wakeup is submitted even if is_stopped is true. If __is_closed is true, nothing
+      // is submitted to the io_uring, not even cancellations.
+      auto submit(__task_queue   __tasks,
+                  __u32          __max_submissions,
+                  bool           __is_stopped,
+                  __task const * __wakeup,
+                  bool           __is_closed = false) noexcept -> __submission_result
       {
         __u32 __tail          = __tail_.load(STDEXEC::__std::memory_order_relaxed);
         __u32 __head          = __head_.load(STDEXEC::__std::memory_order_acquire);
         __u32 __current_count = __tail - __head;
         STDEXEC_ASSERT(__current_count <= __n_total_slots_);
+        // Leave room for a cancellation, otherwise operations that can only be completed by
+        // cancelling them would keep their own cancellations from being submitted.
+        __u32 const __max_regular = __max_submissions > 0 ? __max_submissions - 1 : 0;
         __max_submissions = STDEXEC::__umin(
           {__max_submissions, __n_total_slots_ - __current_count});
         __submission_result __result{};
@@ -250,17 +262,19 @@ namespace experimental::execution
           ::io_uring_sqe& __sqe   = __entries_[__index];
           __op                    = __tasks.pop_front();
           STDEXEC_ASSERT(__op->__vtable_);
+          bool const __is_exempt = __op->__is_cancellation_ || __op == __wakeup;
           if (__op->__vtable_->__ready_(__op))
           {
             __result.__ready.push_back(__op);
           }
+          else if (!__is_exempt && !__is_stopped && __result.__n_submitted >= __max_regular)
+          {
+            __result.__pending.push_back(__op);
+          }
           else
           {
             __op->__vtable_->__submit_(__op, __sqe);
-#    ifdef STDEXEC_HAS_IO_URING_ASYNC_CANCELLATION
-            __is_stopped = __is_stopped && __sqe.opcode != IORING_OP_ASYNC_CANCEL;
-#    endif
-            if (__is_stopped)
+            if (__is_closed || (__is_stopped && !__is_exempt))
             {
               __stop(__op);
             }
@@ -325,6 +339,13 @@ namespace experimental::execution
           __tail = __tail_.load(STDEXEC::__std::memory_order_acquire);
         }
         __head_.store(__head, STDEXEC::__std::memory_order_release);
+        complete_ready(static_cast<__task_queue&&>(__ready));
+        return __count;
+      }
+
+      // This function completes all tasks in the given queue of ready tasks.
+      static void complete_ready(__task_queue __ready) noexcept
+      {
         while (!__ready.empty())
         {
           __task*        __op = __ready.pop_front();
@@ -332,7 +353,6 @@ namespace experimental::execution
           __dummy_cqe.user_data = bit_cast<__u64>(__op);
           __op->__vtable_->__complete_(__op, __dummy_cqe);
         }
-        return __count;
       }
     };
 
@@ -342,6 +362,8 @@ namespace experimental::execution
     {
       __context* __context_ = nullptr;
       int        __eventfd_ = -1;
+      // true from start() until the completion, which starts the operation again
+      bool __is_armed_ = false;
 #    ifdef STDEXEC_HAS_IORING_OP_READ
       std::uint64_t __buffer_ = 0;
 #    else
@@ -372,6 +394,7 @@ namespace experimental::execution
       static void __complete_(__task* __pointer, ::io_uring_cqe const &) noexcept
       {
         __wakeup_operation& __self = *static_cast<__wakeup_operation*>(__pointer);
+        __self.__is_armed_         = false;
         __self.start();
       }
 
@@ -427,7 +450,9 @@ namespace experimental::execution
       /// @brief Resets the io context to its initial state.
       void reset()
       {
-        if (__is_running_.load(STDEXEC::__std::memory_order_relaxed) || __n_total_submitted_ > 0)
+        if (__is_running_.load(STDEXEC::__std::memory_order_relaxed)
+            // the wakeup operation stays submitted
+            || __n_total_submitted_ > 1)
         {
           STDEXEC_THROW(std::runtime_error("exec::io_uring_context::reset() called on a running "
                                            "context"));
@@ -512,7 +537,8 @@ namespace experimental::execution
         __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
                                                                     __pending_),
                                                                   __max_submissions,
-                                                                  __stop_source_->stop_requested());
+                                                                  __stop_source_->stop_requested(),
+                                                                  &__wakeup_operation_);
         __n_total_submitted_ += __result.__n_submitted;
         __n_newly_submitted_ += __result.__n_submitted;
         STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
@@ -526,7 +552,8 @@ namespace experimental::execution
           __max_submissions = __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
           __result          = __submission_queue_.submit(static_cast<__task_queue&&>(__pending_),
                                                 __max_submissions,
-                                                __stop_source_->stop_requested());
+                                                __stop_source_->stop_requested(),
+                                                &__wakeup_operation_);
           __n_total_submitted_ += __result.__n_submitted;
           __n_newly_submitted_ += __result.__n_submitted;
           STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
@@ -535,6 +562,22 @@ namespace experimental::execution
       }
 
       void run_until_stopped()
+      {
+        __begin_run();
+        __run();
+      }
+
+      void run_until_empty()
+      {
+        __begin_run();
+        __break_loop_.store(true, STDEXEC::__std::memory_order_relaxed);
+        __run();
+      }
+
+     private:
+      // Makes the calling thread the one that drives the io context and reopens the context if it
+      // has been stopped. Must be followed by a call to __run().
+      void __begin_run()
       {
         bool expected_running = false;
         // Only one thread of execution is allowed to drive the io context.
@@ -545,37 +588,43 @@ namespace experimental::execution
           STDEXEC_THROW(std::runtime_error("exec::io_uring_context::run() called on a running "
                                            "context"));
         }
-        else
+        // Check whether we restart the context after a context-wide stop.
+        // We have to reset the stop source in this case.
+        int __in_flight = __n_submissions_in_flight_.load(STDEXEC::__std::memory_order_relaxed);
+        if (__in_flight == __no_new_submissions)
         {
-          // Check whether we restart the context after a context-wide stop.
-          // We have to reset the stop source in this case.
-          int __in_flight = __n_submissions_in_flight_.load(STDEXEC::__std::memory_order_relaxed);
-          if (__in_flight == __no_new_submissions)
-          {
-            __stop_source_.emplace();
-            // Make emplacement of stop source visible to other threads and open the door for new submissions.
-            __n_submissions_in_flight_.store(0, STDEXEC::__std::memory_order_release);
-          }
-          else
-          {
-            // This can only happen for the very first pass of run_until_stopped()
-            __wakeup_operation_.start();
-          }
+          __stop_source_.emplace();
+          // Make emplacement of stop source visible to other threads and open the door for new submissions.
+          __n_submissions_in_flight_.store(0, STDEXEC::__std::memory_order_release);
         }
+        // Has no effect unless this is the very first run.
+        __wakeup_operation_.start();
+      }
+
+      void __run()
+      {
         scope_guard __not_running{
           [&]() noexcept { __is_running_.store(false, STDEXEC::__std::memory_order_relaxed); }};
         __pending_.append(__requests_.pop_all_reversed());
         while (__n_total_submitted_ > 0 || !__pending_.empty())
         {
           run_some();
-          if (__n_total_submitted_ == 0
-              || (__n_total_submitted_ == 1
-                  && __break_loop_.load(STDEXEC::__std::memory_order_acquire)))
+          // The wakeup operation is always submitted, and the only one if there is no other work.
+          if (__n_total_submitted_ <= 1 && __pending_.empty()
+              && (__break_loop_.load(STDEXEC::__std::memory_order_acquire)
+                  || __stop_source_->stop_requested()))
           {
+            __pending_.append(__requests_.pop_all_reversed());
+            if (!__pending_.empty())
+            {
+              continue;
+            }
             __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
             break;
           }
-          constexpr int __min_complete = 1;
+          // Do not wait if there are tasks that did not fit into the submission queue: there is
+          // room for them as soon as the kernel has consumed the new submissions.
+          unsigned const __min_complete = __pending_.empty() || __n_newly_submitted_ == 0 ? 1 : 0;
           STDEXEC_ASSERT(0 <= __n_total_submitted_
                          && std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
           int rc = __io_uring_enter(__ring_fd_,
@@ -595,7 +644,6 @@ namespace experimental::execution
         STDEXEC_ASSERT(__n_total_submitted_ <= 1);
         if (__stop_source_->stop_requested() && __pending_.empty())
         {
-          STDEXEC_ASSERT(__n_total_submitted_ == 0);
           // try to shutdown the request queue
           int __n_in_flight_expected = 0;
           while (
@@ -617,13 +665,17 @@ namespace experimental::execution
           __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
                                                                       __pending_),
                                                                     __params_.cq_entries,
+                                                                    true,
+                                                                    &__wakeup_operation_,
                                                                     true);
           STDEXEC_ASSERT(__result.__n_submitted == 0);
           STDEXEC_ASSERT(__result.__pending.empty());
-          __completion_queue_.complete(static_cast<__task_queue&&>(__result.__ready));
+          __completion_queue::complete_ready(static_cast<__task_queue&&>(__result.__ready));
         }
       }
 
+     public:
+
       struct __on_stop
       {
         __context& __context_;
@@ -650,25 +702,33 @@ namespace experimental::execution
 
         void start() & noexcept
         {
+          STDEXEC_TRY
+          {
+            __context_.__begin_run();
+          }
+          STDEXEC_CATCH_ALL
+          {
+            STDEXEC::set_error(static_cast<_Rcvr&&>(__rcvr_), std::current_exception());
+            return;
+          }
+          // Registered after __begin_run(), which would discard an earlier stop request.
           std::optional<__on_stopped_callback> __callback(std::in_place,
                                                           STDEXEC::get_stop_token(
                                                             STDEXEC::get_env(__rcvr_)),
                                                           __on_stop{__context_});
           STDEXEC_TRY
           {
-            if (__mode_ == until::stopped)
-            {
-              __context_.run_until_stopped();
-            }
-            else
+            if (__mode_ == until::empty)
             {
-              __context_.run_until_empty();
+              __context_.__break_loop_.store(true, STDEXEC::__std::memory_order_relaxed);
             }
+            __context_.__run();
           }
           STDEXEC_CATCH_ALL
           {
             __callback.reset();
             STDEXEC::set_error(static_cast<_Rcvr&&>(__rcvr_), std::current_exception());
+            return;
           }
           __callback.reset();
           if (__context_.stop_requested())
@@ -713,12 +773,6 @@ namespace experimental::execution
         return __run_sender{this, __mode};
       }
 
-      void run_until_empty()
-      {
-        __break_loop_.store(true, STDEXEC::__std::memory_order_relaxed);
-        run_until_stopped();
-      }
-
       auto get_scheduler() noexcept -> __scheduler;
 
      private:
@@ -743,7 +797,7 @@ namespace experimental::execution
 
     inline void __wakeup_operation::start() & noexcept
     {
-      if (!__context_->__stop_source_->stop_requested())
+      if (!std::exchange(__is_armed_, true))
       {
         __context_->__pending_.push_front(this);
       }
@@ -893,7 +947,7 @@ namespace experimental::execution
       _Base* __op_;
      public:
       explicit __stop_operation(_Base* __op) noexcept
-        : __task(__vtable)
+        : __task(__vtable, true)
         , __op_{__op}
       {}
 
-- 
2.43.0


From 4026323110cc75b71856950e147843009169879a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 07:46:41 +0000
Subject: [PATCH 60/61] fix: when_any: deregister the stop callback before
 completing a stopped start

---
 include/exec/when_any.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index 3853509..b55b4ad 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -240,6 +240,8 @@ namespace experimental::execution
                                  typename __op_base_t::__forward_stop_request{this});
         if (this->__stop_source_.stop_requested())
         {
+          // Deregister before completing: the receiver's stop token need not outlive the completion.
+          this->__on_stop_.reset();
           STDEXEC::set_stopped(static_cast<_Receiver&&>(this->__rcvr_));
         }
         else
-- 
2.43.0


From 1d66a887a0d5a0ba9fef34b7a4147d4d4cea38e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 08:02:16 +0000
Subject: [PATCH 61/61] fix: schedule_all: the sequence must not complete while
 start() is still starting items

---
 include/exec/static_thread_pool.hpp | 31 +++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index d1b452f..201091e 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1574,7 +1574,9 @@ namespace experimental::execution
         bool                                 has_started_{false};
         __intrusive_queue<&task_base::next_> tasks_{};
         std::size_t                          tasks_size_{};
-        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_)};
+        // One count for each item and one for start(), so that the sequence cannot complete, and
+        // *this cannot be destroyed, before start() is done with it.
+        __std::atomic<std::size_t> countdown_{std::ranges::size(range_) + 1};
       };
 
       template <class Range, class ItemReceiver>
@@ -1658,6 +1660,14 @@ namespace experimental::execution
           , rcvr_(static_cast<Receiver&&>(rcvr))
         {}
 
+        void arrive() noexcept
+        {
+          if (this->countdown_.fetch_sub(1, __std::memory_order_acq_rel) == 1)
+          {
+            STDEXEC::set_value(static_cast<Receiver&&>(rcvr_));
+          }
+        }
+
         Receiver rcvr_;
       };
 
@@ -1668,20 +1678,12 @@ namespace experimental::execution
 
         void set_value() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_acq_rel);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->arrive();
         }
 
         void set_stopped() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_acq_rel);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->arrive();
         }
 
         auto get_env() const noexcept -> env_of_t<Receiver>
@@ -1765,14 +1767,13 @@ namespace experimental::execution
             STDEXEC::start(items_[i].__get());
           }
 
-          // Once the last items are enqueued the sequence may complete and *this may be destroyed.
-          _static_thread_pool& pool = this->pool_;
-          std::unique_lock     lock{this->start_mutex_};
+          std::unique_lock lock{this->start_mutex_};
           this->has_started_    = true;
           auto        tasks     = std::move(this->tasks_);
           std::size_t num_tasks = this->tasks_size_;
           lock.unlock();
-          pool.bulk_enqueue(remote_queue, std::move(tasks), num_tasks);
+          this->pool_.bulk_enqueue(remote_queue, std::move(tasks), num_tasks);
+          this->arrive();
         }
 
        private:
-- 
2.43.0

