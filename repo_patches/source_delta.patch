From 947a9f8550dc01f5c66c438723e1528cf1db2800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 01/24] fix: do not lose a barrier completion to a spuriously
 failing exchange

wait() and complete() attempt the exchange exactly once, a spurious failure
of compare_exchange_weak dropped the completion or dereferenced null.
---
 src/lightweight_barrier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index 03c0d5b..c9dac48 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -106,7 +106,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
     // try to become the owner of the mutex
     auto candidate = std::make_unique<waiter>();
     previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, candidate.get(), std::memory_order_acq_rel)) {
         // value was incomplete before, we are the owner now so wait
         auto* barrier = candidate.release();
@@ -117,7 +117,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
         return true;
     }
     // else: somebody else placed a waiter barrier before, use it instead
-    // (previous holds the barrier obtained from compare_exchange_weak above)
+    // (previous holds the barrier obtained from compare_exchange_strong above)
     return previous->wait(timeout);
 }
 
@@ -128,7 +128,7 @@ lightweight_barrier::complete()
     // branches are kept for readability
 
     auto* previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, kCompleted, std::memory_order_acq_rel)) { // NOLINT
         // nobody was waiting and now marked as complete
     } else if (kCompleted == previous) { // NOLINT
-- 
2.43.0


From 9edf1228d4d9ffe30780b7849724561b18698a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 02/24] fix: a group notification must not fire before its
 operations completed

group_impl::notify waits with milliseconds::max() which overflowed in
wait_for() and hence expired immediately.
---
 src/lightweight_barrier.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index c9dac48..8c588d6 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -52,7 +52,10 @@ public:
 
         std::unique_lock<std::mutex> lock(m_mutex);
         if (!predicate()) {
-            if (std::chrono::milliseconds(-1) != timeout) {
+            // wait_for() overflows for timeouts close to the maximum and
+            // would return immediately, so treat the maximum as infinite
+            if (std::chrono::milliseconds(-1) != timeout &&
+                std::chrono::milliseconds::max() != timeout) {
                 return m_cond.wait_for(lock, timeout, predicate);
             }
             m_cond.wait(lock, predicate);
-- 
2.43.0


From 7dc23141c7aaeffdb560e624f26a25c88a80bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 03/24] fix: group must wait for operations added after it ran
 empty

Once the first batch of operations completed, the barrier of the consumable
was passed for good and wait() would ignore any operation added afterwards.
---
 src/naive/naive_consumable.cpp | 11 +++++++++--
 src/naive/naive_consumable.h   |  5 ++++-
 src/naive/naive_group.cpp      | 17 ++++++++++++-----
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index f2459c0..2efcb65 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -31,10 +31,17 @@ consumable::consumable(size_t resources, const consumable_ptr& preceeding)
   , m_resources(resources)
 {}
 
-void
+bool
 consumable::add_resource()
 {
-    m_resources.fetch_add(size_t(1));
+    auto resources = m_resources.load();
+    do {
+        // fully consumed, i.e. the barrier was completed already
+        if (0 == resources) {
+            return false;
+        }
+    } while (!m_resources.compare_exchange_weak(resources, resources + 1));
+    return true;
 }
 
 void
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index 605f770..bcef181 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -61,8 +61,11 @@ public:
         If the consumable had already been fully consumed by the
         time this is called, this will have no effect and the
         consumable remain fully consumed.
+
+        @return true if the resource was added or false if the consumable
+                had already been fully consumed
      */
-    void add_resource();
+    bool add_resource();
 
     /**
         @brief Consumes a resource removing it from the list of
diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 7a7f3e5..4daec7e 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -39,16 +39,21 @@ public:
       : igroup_impl()
       , m_pool(pool)
       , m_backend(backend)
-      , m_consumable(std::make_shared<consumable>())
+      // the one resource is owned by the group and prevents the consumable
+      // from completing before it got replaced by wait()
+      , m_consumable(std::make_shared<consumable>(1))
     {}
 
     ~group_impl() override = default;
 
     void async(const operation_ptr& op, const iqueue_impl_ptr& q) final
     {
-        const auto c = std::atomic_load(&m_consumable);
-        XDISPATCH_ASSERT(c);
-        c->add_resource();
+        consumable_ptr c;
+        do {
+            // needs another attempt if replaced (and consumed) by wait()
+            c = std::atomic_load(&m_consumable);
+            XDISPATCH_ASSERT(c);
+        } while (!c->add_resource());
         q->async(std::make_shared<consuming_operation>(op, c));
     }
 
@@ -62,11 +67,13 @@ public:
         consumable_ptr new_c;
         do {
             old_c = std::atomic_load(&m_consumable);
-            new_c = std::make_shared<consumable>(0, old_c);
+            new_c = std::make_shared<consumable>(1, old_c);
         } while (
           !std::atomic_compare_exchange_weak(&m_consumable, &old_c, new_c));
         XDISPATCH_ASSERT(old_c);
         XDISPATCH_ASSERT(new_c);
+        // no more operations are added, give up the resource of the group
+        old_c->consume_resource();
         return old_c->wait_for_consumed(timeout);
 
         // FIXME(zwicker): This is blocking and will not work if invoked from
-- 
2.43.0


From a728b1a53b3b8e77e61f1ed9b11f2cd39b3d3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 04/24] fix: waiting on a group many times must not exhaust
 memory and stack

Each wait() added another consumable to a chain which was never shortened
and is traversed recursively.
---
 src/naive/naive_consumable.cpp | 11 +++++++++--
 src/naive/naive_consumable.h   |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index 2efcb65..0230343 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -63,8 +63,15 @@ bool
 consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
 {
     // make sure that the preceeding consumable is satisfied
-    if (m_preceeding && m_preceeding.get() != this) {
-        if (m_preceeding->wait_for_consumed(timeout)) {
+    // skip those preceeding consumables which got consumed in the meantime so
+    // that the chain does not grow with each wait
+    auto preceeding = std::atomic_load(&m_preceeding);
+    while (preceeding && 0 == preceeding->m_resources.load()) {
+        preceeding = std::atomic_load(&preceeding->m_preceeding);
+        std::atomic_store(&m_preceeding, preceeding);
+    }
+    if (preceeding && preceeding.get() != this) {
+        if (preceeding->wait_for_consumed(timeout)) {
             // satisfied, continue with this
         } else {
             return false;
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index bcef181..bb0c923 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -86,7 +86,7 @@ public:
       std::chrono::milliseconds timeout = std::chrono::milliseconds(-1));
 
 private:
-    const consumable_ptr m_preceeding;
+    consumable_ptr m_preceeding;
     std::atomic<size_t> m_resources;
     lightweight_barrier m_barrier;
 };
-- 
2.43.0


From c58b877d5bccdd3ad1c5965639fb419e3cfd4467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 05/24] fix: cancelable must neither drop concurrent calls nor
 stop waiting for them

enter() failed whenever another call was active, so that emits of a signal
to a parallel queue got lost (and batched handlers stalled for good). Only
the first disable() waited for an active call to complete.
---
 include/xdispatch/impl/cancelable.h | 29 ++++++------------
 src/cancelable.cpp                  | 46 ++++++++++++++++-------------
 2 files changed, 34 insertions(+), 41 deletions(-)

diff --git a/include/xdispatch/impl/cancelable.h b/include/xdispatch/impl/cancelable.h
index 1ecac5e..765db21 100644
--- a/include/xdispatch/impl/cancelable.h
+++ b/include/xdispatch/impl/cancelable.h
@@ -47,24 +47,15 @@ __XDISPATCH_BEGIN_NAMESPACE
 class XDISPATCH_EXPORT cancelable
 {
 public:
-    enum active_state
-    {
-        /**< Entity is not in a queue right now */
-        active_disabled = 0,
-        /**< Entity has been queued but not executed yet */
-        active_enabled,
-        /**< Entity is actively being executed */
-        active_running
-    };
-
     /**
        @brief Constructs an active (not disabled) cancelable.
      */
     cancelable();
 
     /**
-       Marks the entity as not to be queued anywhere,
-       i.e. sets it to active_disabled
+       Marks the entity as not to be called anymore and waits
+       for all active calls to complete unless invoked from within
+       such a call
     */
     void disable();
 
@@ -72,27 +63,25 @@ protected:
     friend class cancelable_scope;
 
     /**
-        Notifies the entity that it is about to be called,
-        i.e. sets it to active_running if the entity had been enabled
+        Notifies the entity that it is about to be called, several
+        calls may be active at the same time
 
         Make sure to balance this with calls to leave().
         It is recommended to not invoke this directly but go through
         cancelable_scope instead which manages this for you.
 
-        @returns true if the entity had been active_enabled
+        @returns true if the entity had not been disabled
     */
     bool enter();
 
     /**
-        Notifies the entity that the call is done,
-        i.e. sets it to active_enabled again if it had
-        been in the active_running state before
+        Notifies the entity that the call is done
     */
     void leave();
 
 private:
-    // the current state of the handler
-    std::atomic<active_state> m_active;
+    // the number of active calls and if the entity was disabled
+    std::atomic<int> m_active;
     // barrier to ensure defined cancellation
     lightweight_barrier m_barrier;
 };
diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index 46351aa..df652e5 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -27,46 +27,50 @@
 
 __XDISPATCH_BEGIN_NAMESPACE
 
-static thread_local std::set<cancelable*> current_c;
+static thread_local std::multiset<cancelable*> current_c;
+
+// flag set in the state when disabled, the remaining bits hold
+// the number of active calls
+static constexpr int kDisabled = 1 << 30;
 
 cancelable::cancelable()
-  : m_active(active_enabled)
+  : m_active(0)
 {}
 
 void
 cancelable::disable()
 {
+    const auto previous = m_active.fetch_or(kDisabled);
     if (current_c.find(this) != current_c.end()) {
-        // recursion
-        m_active.store(active_disabled);
-    } else {
-        auto current = m_active.exchange(active_disabled);
-        if (active_running == current) {
-            // tried to disable while still running
-            m_barrier.wait();
-        }
+        // recursion, the current call will complete later
+        return;
+    }
+    if (0 != (previous & ~kDisabled)) {
+        // tried to disable while still running
+        m_barrier.wait();
     }
 }
 
 bool
 cancelable::enter()
 {
-    auto expected = active_enabled;
-    if (m_active.compare_exchange_strong(expected, active_running)) {
-        current_c.insert(this);
-        return true;
-    }
-    // disabled
-    return false;
+    auto current = m_active.load();
+    do {
+        if (0 != (current & kDisabled)) {
+            // disabled
+            return false;
+        }
+    } while (!m_active.compare_exchange_weak(current, current + 1));
+    current_c.insert(this);
+    return true;
 }
 
 void
 cancelable::leave()
 {
-    current_c.erase(this);
-    auto expected = active_running;
-    if (!m_active.compare_exchange_strong(expected, active_enabled)) {
-        // disabled in the meantime
+    current_c.erase(current_c.find(this));
+    if ((kDisabled | 1) == m_active.fetch_sub(1)) {
+        // disabled in the meantime and this was the last active call
         m_barrier.complete();
     }
 }
-- 
2.43.0


From b787d35e47e12362516acc76eb0fa875f872e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 06/24] fix: do not access a timer or notifier after it may
 have been released

The handler call left the cancelable only after it had completed the barrier
its worker is waiting for, by then the worker may have released the last
reference already.
---
 src/naive/naive_socket_notifier.cpp | 12 ++++++++----
 src/naive/naive_timer.cpp           | 10 +++++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 488c74d..8168b91 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -163,10 +163,14 @@ public:
                     lightweight_barrier barrier;
                     queue->async(make_operation(
                       [handler, socket, type, &barrier, &handler_cancelable] {
-                          cancelable_scope scope(handler_cancelable);
-                          if (scope) {
-                              execute_operation_on_this_thread(
-                                *handler, socket, type);
+                          {
+                              // must be left before completing the barrier as
+                              // the notifier may get released afterwards
+                              cancelable_scope scope(handler_cancelable);
+                              if (scope) {
+                                  execute_operation_on_this_thread(
+                                    *handler, socket, type);
+                              }
                           }
                           barrier.complete();
                       }));
diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 239de07..34d5469 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -104,9 +104,13 @@ public:
 
                 lightweight_barrier barrier;
                 queue->async(make_operation([handler, &barrier, &cancelable] {
-                    cancelable_scope scope(cancelable);
-                    if (scope) {
-                        execute_operation_on_this_thread(*handler);
+                    {
+                        // must be left before completing the barrier as the
+                        // timer may get released anytime afterwards
+                        cancelable_scope scope(cancelable);
+                        if (scope) {
+                            execute_operation_on_this_thread(*handler);
+                        }
                     }
                     barrier.complete();
                 }));
-- 
2.43.0


From 351fe8d3cde04d1ec3b2c93ed3e723ce8501bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 07/24] fix: a timer resumed right after suspending must not
 fire twice

The worker of the previous resume() kept going besides the new one. Use a
cookie to tell workers apart as done by the socket notifier already.
---
 src/naive/naive_timer.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 34d5469..ef0f279 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -44,6 +44,7 @@ public:
       , m_pool(pool)
       , m_handler()
       , m_running(0)
+      , m_worker_cookie(0)
       , m_cancelable()
     {}
 
@@ -78,23 +79,28 @@ public:
     void resume(std::chrono::milliseconds delay) final
     {
         std::lock_guard<std::mutex> lock(m_CS);
+        if (m_running < 0) {
+            // cancelled so do not proceed
+            return;
+        }
         if (1 != ++m_running) {
             // only proceed when we become runnable
             return;
         }
 
         const auto this_ptr = shared_from_this();
+        const auto cookie = m_worker_cookie;
 
         // the timer will execute via a helper borrowed from the
         // global default threadpool. It is ensured that enough
         // threads are available for the pool even though the
         // timer is blocking while it is active
-        auto timer_op = make_operation([this_ptr, delay] {
+        auto timer_op = make_operation([this_ptr, cookie, delay] {
             ithreadpool::block_scope blocked;
             std::this_thread::sleep_for(delay);
 
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
-            while (this_ptr->m_running > 0) {
+            while (cookie == this_ptr->m_worker_cookie) {
                 const auto handler = this_ptr->m_handler;
                 const auto interval = this_ptr->m_interval;
                 const auto queue = this_ptr->m_queue;
@@ -132,14 +138,23 @@ public:
     void suspend() override
     {
         std::lock_guard<std::mutex> lock(m_CS);
-        --m_running;
+        if (m_running > 0) {
+            --m_running;
+            // when we have just suspended increment the cookie
+            // so any workers kicked off with the previous cookie
+            // know they should end.
+            if (0 == m_running) {
+                ++m_worker_cookie;
+            }
+        }
     }
 
     void cancel() override
     {
         {
             std::lock_guard<std::mutex> lock(m_CS);
-            m_running = 0;
+            m_running = -1;
+            ++m_worker_cookie;
         }
         m_cancelable.disable();
     }
@@ -154,6 +169,7 @@ private:
     ithreadpool_ptr m_pool;
     operation_ptr m_handler;
     int m_running;
+    int m_worker_cookie;
     cancelable m_cancelable;
 };
 
-- 
2.43.0


From fb8f2d4746a0a631043eb3e72ea8b5be742a1380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 08/24] fix: socket notifier must end once its socket was
 closed

select() reports an invalid socket through errno, so that the worker kept
spinning and printing warnings forever.
---
 src/naive/naive_socket_notifier.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 8168b91..48807ee 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -107,6 +107,7 @@ public:
                 const auto type = this_ptr->m_type;
 
                 int res = -1;
+                int error = 0;
                 {
                     inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
@@ -125,6 +126,7 @@ public:
                     } else {
                         res = select(nfds, nullptr, &fds, nullptr, &timeout);
                     }
+                    error = errno;
                 }
 
                 if (cookie != this_ptr->m_worker_cookie) {
@@ -140,7 +142,7 @@ public:
                     break;
                 }
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-                if (EBADF == res) {
+                if (-1 == res && EBADF == error) {
                     // socket was closed somewhere else
                     XDISPATCH_WARNING()
                       << "socket_notifier: Socket " << socket << " is invalid";
@@ -177,7 +179,7 @@ public:
                     barrier.wait();
                 } else {
                     XDISPATCH_WARNING() << "socket_notifier: select(" << socket
-                                        << ") failed: " << strerror(errno);
+                                        << ") failed: " << strerror(error);
                 }
             }
         });
-- 
2.43.0


From a1787ac38807fb67f97c021a70f7c87bbfdfc509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 09/24] fix: socket notifier must not write out of bounds of
 its fd_set

select() only supports descriptors below FD_SETSIZE.
---
 src/naive/naive_socket_notifier.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 48807ee..d5f64af 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -101,6 +101,15 @@ public:
         auto socket_notifier_op = make_operation([this_ptr, cookie] {
             ithreadpool::block_scope blocked;
 
+#if (defined XDISPATCH2_HAVE_SOCKETPAIR) && !(defined XDISPATCH2_HAVE_WINSOCK2)
+            if (this_ptr->m_socket < 0 || this_ptr->m_socket >= FD_SETSIZE) {
+                // using it with an fd_set would corrupt memory
+                XDISPATCH_WARNING() << "socket_notifier: Socket "
+                                    << this_ptr->m_socket << " is invalid";
+                return;
+            }
+#endif
+
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
             while (cookie == this_ptr->m_worker_cookie) {
                 const auto socket = this_ptr->m_socket;
-- 
2.43.0


From 9284b4a759867ec36ee2ce29b0d41b70287cc2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 10/24] fix: connection_manager must not disconnect while
 holding its lock

Disconnecting waits for active handlers to complete, a handler using the
manager at the same time would deadlock.
---
 src/signals.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/signals.cpp b/src/signals.cpp
index 3872be6..4958d34 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -20,6 +20,7 @@
  */
 
 #include <algorithm>
+#include <iterator>
 
 #include "xdispatch_internal.h"
 #include "xdispatch/signals.h"
@@ -34,19 +35,30 @@ connection_manager::~connection_manager()
 void
 connection_manager::reset_connections()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    m_connections.clear();
+    // disconnect outside of the lock as this waits for active handlers
+    // which might be using the manager themselves
+    std::vector<scoped_connection> connections;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        std::swap(connections, m_connections);
+    }
 }
 
 void
 connection_manager::reset_connections_with(const signal_p& s)
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    const auto last = std::remove_if(
-      m_connections.begin(),
-      m_connections.end(),
-      [&s](const scoped_connection& sc) { return sc.is_connected_to(s); });
-    m_connections.erase(last, m_connections.end());
+    // disconnect outside of the lock as this waits for active handlers
+    // which might be using the manager themselves
+    std::vector<scoped_connection> connections;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        const auto last = std::stable_partition(
+          m_connections.begin(),
+          m_connections.end(),
+          [&s](const scoped_connection& sc) { return !sc.is_connected_to(s); });
+        std::move(last, m_connections.end(), std::back_inserter(connections));
+        m_connections.erase(last, m_connections.end());
+    }
 }
 
 connection_manager&
-- 
2.43.0


From 0223793d495b6ab21153a664be3d7d342741f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 11/24] fix: waitable_queue must not release operations while
 holding its lock

An operation using the queue from its destructor would deadlock.
---
 src/waitable_queue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 4876d4a..5dec6d8 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -61,6 +61,9 @@ public:
 
             lock.unlock();
             xdispatch::execute_operation_on_this_thread(*op);
+            // must not be released while locked, its destruction
+            // may want to use the queue again
+            op.reset();
             lock.lock();
             ++m_completed;
         }
-- 
2.43.0


From ebb5cb57698f3b4f5c776fdcbfa2de36c7e7fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 12/24] fix: waitable_queue must release operations executed
 after a delay

The handler of the timer was owning the timer, leaking both along with the
operation. Use the delayed_operation which takes care of breaking the cycle.
---
 src/waitable_queue.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 5dec6d8..fecadf9 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -162,11 +162,8 @@ public:
     {
         auto timer =
           backend_for_type(backend()).create_timer(shared_from_this());
-        timer->handler(make_operation([op, timer] {
-            execute_operation_on_this_thread(*op);
-            timer->cancel();
-        }));
-        timer->resume(delay);
+        naive::delayed_operation::create_and_dispatch(
+          std::move(timer), delay, op);
     }
 
     backend_type backend() override
-- 
2.43.0


From ea0e479cb3f7b346317802e62433784ce6da2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 13/24] fix: detaching one of several queues sharing a
 threadpool must not release it

Each queue attaches the pool once but the first to detach removed the entries
of all queues, so that the pool could get destroyed on one of its threads.
---
 src/naive/naive_operation_queue_manager.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/naive/naive_operation_queue_manager.cpp b/src/naive/naive_operation_queue_manager.cpp
index 7ce0ab5..4fdf549 100644
--- a/src/naive/naive_operation_queue_manager.cpp
+++ b/src/naive/naive_operation_queue_manager.cpp
@@ -39,11 +39,12 @@ void
 operation_queue_manager::detach(const void* const q)
 {
     m_thread.execute(make_operation([q, this] {
-        for (auto it = m_queues.begin(); it != m_queues.end();) {
+        // remove one entry only, the same object might have been attached
+        // several times, e.g. a threadpool shared by several queues
+        for (auto it = m_queues.begin(); it != m_queues.end(); ++it) {
             if (it->get() == q) {
-                it = m_queues.erase(it);
-            } else {
-                ++it;
+                m_queues.erase(it);
+                break;
             }
         }
     }));
-- 
2.43.0


From 63ba089d333fbe7996723445d0ec8b02371364aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 14/24] fix: manual_thread must not miss being cancelled

The flag was tested without the lock and before waiting, a cancel() in between
was lost so that the destructor of the thread would never return.
---
 src/naive/naive_manual_thread.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/naive/naive_manual_thread.cpp b/src/naive/naive_manual_thread.cpp
index 4bf5778..8b3921a 100644
--- a/src/naive/naive_manual_thread.cpp
+++ b/src/naive/naive_manual_thread.cpp
@@ -56,12 +56,16 @@ manual_thread::run()
 {
     thread_utils::set_current_thread_name(m_name);
     thread_utils::set_current_thread_priority(m_priority);
-    while (!m_cancelled) {
+    while (true) {
         std::vector<operation_ptr> active_ops;
         {
             std::unique_lock<std::mutex> guard(m_CS);
-            if (m_queued_ops.empty()) {
-                m_cond.wait(guard);
+            m_cond.wait(guard, [this] {
+                return m_cancelled || !m_queued_ops.empty();
+            });
+            if (m_cancelled) {
+                m_cancelled = false;
+                break;
             }
             std::swap(m_queued_ops, active_ops);
         }
@@ -70,8 +74,6 @@ manual_thread::run()
             execute_operation_on_this_thread(*op);
         }
     }
-
-    m_cancelled = false;
 }
 
 void
-- 
2.43.0


From 2907fa76fdb360bda3383fb61a9b012dab009869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 15/24] fix: semaphore must not lose a wakeup on weakly ordered
 systems

A waiter announcing itself and then testing the count as well as release()
changing the count and then testing for waiters could both miss each other.
---
 src/naive/naive_semaphore.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/naive/naive_semaphore.cpp b/src/naive/naive_semaphore.cpp
index c221336..93ca3d1 100644
--- a/src/naive/naive_semaphore.cpp
+++ b/src/naive/naive_semaphore.cpp
@@ -40,12 +40,10 @@ semaphore::semaphore(int count)
 bool
 semaphore::try_acquire()
 {
-    // use consume semantics since we do not require a full
-    // write barrier here but only depend on any changes to
-    // m_count to be visible. The full barrier will be issued
-    // by compare_exchange_weak below instead and would only
-    // be duplicated if done up here as well.
-    auto old_count = m_count.load(std::memory_order_consume);
+    // needs to be sequentially consistent with m_waiters as a waiter
+    // announces itself before testing the count a last time while
+    // release() changes the count before testing for waiters
+    auto old_count = m_count.load(std::memory_order_seq_cst);
     do {
         XDISPATCH_ASSERT(old_count >= 0);
         if (0 == old_count) {
@@ -100,7 +98,7 @@ semaphore::wait_acquire(std::chrono::milliseconds timeout)
                 explicit waiter_scope(std::atomic<int>& waiters)
                   : m_waiters(waiters)
                 {
-                    m_waiters.fetch_add(1, std::memory_order_release);
+                    m_waiters.fetch_add(1, std::memory_order_seq_cst);
                 }
                 waiter_scope(const waiter_scope& other) = delete;
                 ~waiter_scope()
@@ -127,7 +125,7 @@ semaphore::release(int count)
     m_count.fetch_add(count, std::memory_order_seq_cst);
 
     // if there is waiters we should notify them
-    if (0 != m_waiters.load(std::memory_order_acquire)) {
+    if (0 != m_waiters.load(std::memory_order_seq_cst)) {
         std::unique_lock<std::mutex> lock(m_CS);
         if (1 == count) {
             m_cond.notify_one();
-- 
2.43.0


From b0c33a06d6091b1922f4e8ba8c4911ff96be00ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 16/24] fix: threadpool must not abort on a transient state of
 its counters

A new worker may already be idle before it is accounted as active and may
end in between reading both counters.
---
 src/naive/naive_threadpool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index c995561..2ae98c0 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -311,10 +311,10 @@ threadpool::schedule()
       m_data->m_active_threads.load(std::memory_order_consume);
     const int idle_threads =
       m_data->m_idle_threads.load(std::memory_order_consume);
+    // note: both counters change independently of each other so there may
+    //       seem to be more idle than active threads here
     XDISPATCH_ASSERT(idle_threads >= 0);
     XDISPATCH_ASSERT(active_threads >= 0);
-    XDISPATCH_ASSERT(idle_threads <= active_threads &&
-                     "We must never have more idle than active threads");
 
     if (idle_threads > 0) {
         // idle count will be decremented by thread waking up again
-- 
2.43.0


From 16d2de9c125afcc2271e8a05b9f9f318c1730107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 17/24] fix: threadpool must not miss work on weakly ordered
 systems

The ending worker updates the counters and then tests for work while execute()
adds work and then tests the counters, this requires sequential consistency.
---
 src/naive/naive_threadpool.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index 2ae98c0..068b886 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -168,9 +168,9 @@ public:
                     } else {
                         // end this thread it seems there is no work remaining
                         m_data->m_idle_threads.fetch_sub(
-                          1, std::memory_order_release);
+                          1, std::memory_order_seq_cst);
                         m_data->m_active_threads.fetch_sub(
-                          1, std::memory_order_release);
+                          1, std::memory_order_seq_cst);
 
                         // Opportunistic recovery:
                         // There is a chance that while we made the decision to
@@ -308,9 +308,9 @@ threadpool::schedule()
 {
     // lets check if there is an idle thread first
     const int active_threads =
-      m_data->m_active_threads.load(std::memory_order_consume);
+      m_data->m_active_threads.load(std::memory_order_seq_cst);
     const int idle_threads =
-      m_data->m_idle_threads.load(std::memory_order_consume);
+      m_data->m_idle_threads.load(std::memory_order_seq_cst);
     // note: both counters change independently of each other so there may
     //       seem to be more idle than active threads here
     XDISPATCH_ASSERT(idle_threads >= 0);
-- 
2.43.0


From d19cd4bdc592ae5ff09dcb617b9835ac3763e26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 18/24] fix: signal teardown must neither deadlock nor be
 accessed afterwards

The destructor waited for active handlers while holding the lock, which such
a handler needs to disconnect. A connection outliving its signal accessed the
signal whenever a call was still queued.
---
 include/xdispatch/impl/cancelable.h |  5 +++++
 src/cancelable.cpp                  |  6 ++++++
 src/signals.cpp                     | 18 +++++++++++++++---
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/xdispatch/impl/cancelable.h b/include/xdispatch/impl/cancelable.h
index 765db21..77aeaa4 100644
--- a/include/xdispatch/impl/cancelable.h
+++ b/include/xdispatch/impl/cancelable.h
@@ -59,6 +59,11 @@ public:
     */
     void disable();
 
+    /**
+       @returns true if the entity was disabled
+     */
+    bool is_disabled() const;
+
 protected:
     friend class cancelable_scope;
 
diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index df652e5..fb2df82 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -51,6 +51,12 @@ cancelable::disable()
     }
 }
 
+bool
+cancelable::is_disabled() const
+{
+    return 0 != (m_active.load() & kDisabled);
+}
+
 bool
 cancelable::enter()
 {
diff --git a/src/signals.cpp b/src/signals.cpp
index 4958d34..f3230c6 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -198,12 +198,17 @@ signal_p::signal_p()
 
 signal_p::~signal_p()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
+    std::vector<connection_handler_ptr> handlers;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        std::swap(handlers, m_handlers);
+    }
 
-    for (const auto& handler : m_handlers) {
+    // needs to happen outside of the lock as this waits for active
+    // handlers which might disconnect at the same time
+    for (const auto& handler : handlers) {
         handler->disable();
     }
-    m_handlers.clear();
 }
 
 bool
@@ -211,6 +216,13 @@ signal_p::disconnect(connection& c)
 {
     const auto c_void = c.m_id.lock();
     const auto c_handler = std::static_pointer_cast<connection_handler>(c_void);
+    if (c_handler && c_handler->m_active.is_disabled()) {
+        // disconnected before or the signal does not exist anymore so no
+        // member may be accessed, just make sure the handler is not active
+        c.m_id.reset();
+        c_handler->disable();
+        return false;
+    }
     if (c_handler) {
         std::lock_guard<std::mutex> lock(m_CS);
         const auto last =
-- 
2.43.0


From 6c8924fba737fe37f53eea10d814ee1372f30920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 19/24] fix: skip_all must not disable handlers for good

As documented only the calls queued so far are to be skipped, the next emit
needs to queue calls again. This also no longer waits for active handlers
while holding the lock.
---
 include/xdispatch/signals.h | 14 ++++++++++++--
 src/signals.cpp             | 24 +++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index f59ef85..d0a93e3 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -247,12 +247,22 @@ protected:
         /// i.e. makes sure it is not executed anymore
         void disable();
 
+        /// Makes sure none of the currently queued calls is executed
+        void skip();
+
+        /// To be called before executing a queued call
+        /// @param generation The generation at the time of queueing
+        /// @returns false if the call has been skipped
+        bool begin(int generation);
+
         // the queue to execute the handler on
         const queue m_queue;
         // the current state of the handler
         cancelable m_active;
         // the number of items that have been queued
         std::atomic<int> m_pending;
+        // the number of times queued items have been skipped
+        std::atomic<int> m_generation;
         // the mode in which the handler will be called
         notification_mode m_mode;
     };
@@ -398,10 +408,10 @@ public:
                 }
             } else if (notification_mode::single_updates == handler->m_mode ||
                        pending < 1) {
+                const int generation = handler->m_generation;
                 auto invocation = [=] {
                     cancelable_scope cancel_scope(handler->m_active);
-                    if (cancel_scope) {
-                        handler->m_pending--;
+                    if (cancel_scope && handler->begin(generation)) {
                         std::static_pointer_cast<connection_handler_t>(handler)
                           ->m_func(argList...);
                     }
diff --git a/src/signals.cpp b/src/signals.cpp
index f3230c6..6626c9d 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -179,6 +179,7 @@ signal_p::connection_handler::connection_handler(const queue& q,
   : m_queue(q)
   , m_active()
   , m_pending(0)
+  , m_generation(0)
   , m_mode(m)
 {}
 
@@ -188,6 +189,27 @@ signal_p::connection_handler::disable()
     m_active.disable();
 }
 
+void
+signal_p::connection_handler::skip()
+{
+    ++m_generation;
+    m_pending = 0;
+}
+
+bool
+signal_p::connection_handler::begin(int generation)
+{
+    if (generation != m_generation) {
+        // skipped
+        return false;
+    }
+    auto pending = m_pending.load();
+    while (pending > 0 &&
+           !m_pending.compare_exchange_weak(pending, pending - 1)) {
+    }
+    return true;
+}
+
 signal_p::signal_p(const group& g)
   : m_group(new group(g))
 {}
@@ -243,7 +265,7 @@ signal_p::skip_all()
     std::lock_guard<std::mutex> lock(m_CS);
 
     for (const auto& handler : m_handlers) {
-        handler->disable();
+        handler->skip();
     }
 }
 
-- 
2.43.0


From 0318d0630385af662519f3edb96d5cd089980fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 20/24] fix: signal_barrier must keep the values of the raise
 unblocking it

Any further raise dispatched before the handler got disconnected did overwrite
the values while they might be read. Also the handler could access members
not constructed yet or destroyed already.
---
 include/xdispatch/signals_barrier.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/xdispatch/signals_barrier.h b/include/xdispatch/signals_barrier.h
index 474b546..73d5c99 100644
--- a/include/xdispatch/signals_barrier.h
+++ b/include/xdispatch/signals_barrier.h
@@ -93,10 +93,15 @@ public:
     explicit signal_barrier(signal<void(Args...)>& signal)
       : m_signal(signal)
       , m_barrier()
+      , m_values()
+      , m_raised(false)
       , m_connection(signal.connect([this](Args... values) {
-          m_values.set(values...);
-          m_connection.disconnect();
-          m_barrier.complete();
+          // only the first raise counts, m_connection must not be used in
+          // here as it is not necessarily assigned already
+          if (!m_raised.exchange(true)) {
+              m_values.set(values...);
+              m_barrier.complete();
+          }
       }))
     {}
 
@@ -154,8 +159,11 @@ public:
 private:
     signal<void(Args...)>& m_signal;
     lightweight_barrier m_barrier;
-    scoped_connection m_connection;
     value_holder<0> m_values;
+    std::atomic<bool> m_raised;
+    // needs to be last so that it is disconnected before any of the
+    // members accessed by the handler get destroyed
+    scoped_connection m_connection;
 };
 
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From bac0e9b75c96a63e596d704417e5dfe3c897d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 21/24] fix: reject empty handlers of timers and notifiers

All other functions taking an operation assert it is valid while these two
would dereference null.
---
 src/socket_notifier.cpp | 1 +
 src/timer.cpp           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/socket_notifier.cpp b/src/socket_notifier.cpp
index da5962b..c691299 100644
--- a/src/socket_notifier.cpp
+++ b/src/socket_notifier.cpp
@@ -58,6 +58,7 @@ socket_notifier::cancel()
 void
 socket_notifier::handler(const socket_notifier_operation_ptr& op)
 {
+    XDISPATCH_ASSERT(op);
     queue_operation_with_d(*op, m_target_queue.implementation().get());
     m_impl->handler(op);
 }
diff --git a/src/timer.cpp b/src/timer.cpp
index ab13e06..f824ea5 100644
--- a/src/timer.cpp
+++ b/src/timer.cpp
@@ -69,6 +69,7 @@ timer::cancel()
 void
 timer::handler(const operation_ptr& op)
 {
+    XDISPATCH_ASSERT(op);
     queue_operation_with_d(*op, m_target_queue.implementation().get());
     m_impl->handler(op);
 }
-- 
2.43.0


From dfe2c075a7e2fc8508580e97889d1adf56552fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 22/24] fix: release the slot of a blocked thread to the
 QThreadPool

The calls to reserveThread() and releaseThread() were mixed up: A thread
announced as blocked took a second slot of the pool instead of giving up
its own, so operations waiting for others on the same pool starved.
---
 src/qt5/qt5_threadpool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index c6dbbda..b30d08a 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -89,13 +89,15 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 void
 ThreadPoolProxy::notify_thread_blocked()
 {
-    m_pool->reserveThread();
+    // gives up the slot of this thread so that the pool may start another
+    m_pool->releaseThread();
 }
 
 void
 ThreadPoolProxy::notify_thread_unblocked()
 {
-    m_pool->releaseThread();
+    // takes the slot given up when blocking
+    m_pool->reserveThread();
 }
 
 } // namespace qt5
-- 
2.43.0


From 12db785d24ee314f5364c8b46d3e6ff299a88765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 23/24] fix: a waitable_queue stays usable after an operation
 threw

The queue was left marked as active when the exception of an operation
executed by a waiting thread passed, so that each further wait blocked
forever.
---
 src/waitable_queue.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index fecadf9..e1754aa 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -60,16 +60,24 @@ public:
             m_operations.pop_front();
 
             lock.unlock();
-            xdispatch::execute_operation_on_this_thread(*op);
+            try {
+                xdispatch::execute_operation_on_this_thread(*op);
+            } catch (...) {
+                // whoever handles the exception needs to be able to
+                // use the queue again
+                op.reset();
+                lock.lock();
+                ++m_completed;
+                deactivate();
+                throw;
+            }
             // must not be released while locked, its destruction
             // may want to use the queue again
             op.reset();
             lock.lock();
             ++m_completed;
         }
-        // notify we are no longer active
-        m_active = false;
-        m_cond.notify_all();
+        deactivate();
     }
 
     void wait_for_one()
@@ -121,6 +129,13 @@ public:
     }
 
 private:
+    // notifies we are no longer active
+    void deactivate()
+    {
+        m_active = false;
+        m_cond.notify_all();
+    }
+
     std::mutex m_CS;
     std::condition_variable m_cond;
 
-- 
2.43.0


From 9edf8f28604e7941385f50808fa09590d4fcbcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 24/24] fix: connections made from another thread follow their
 Qt receiver

setParent() is refused by Qt when the manager was created on another
thread than its receiver. The manager got leaked and handlers were
invoked on destroyed receivers.
---
 src/qt5/qt5_signals.h | 61 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/qt5/qt5_signals.h b/src/qt5/qt5_signals.h
index fab9213..0a83741 100644
--- a/src/qt5/qt5_signals.h
+++ b/src/qt5/qt5_signals.h
@@ -22,6 +22,8 @@
 #ifndef XDISPATCH_QT5_SIGNALS_H_
 #define XDISPATCH_QT5_SIGNALS_H_
 
+#include <map>
+
 #include <QtCore/QMutex>
 #include <QtCore/QMutexLocker>
 #include <QtCore/QObject>
@@ -56,18 +58,59 @@ public:
     static ObjectConnectionManager* get(QObject* object,
                                         bool createIfMissing = false)
     {
-        static QMutex sCS; // shared lock to ensure no two managers get created
-                           // for an object
-
-        QMutexLocker lock(&sCS);
-        auto* oc = object->findChild<ObjectConnectionManager*>(
-          QString(), Qt::FindDirectChildrenOnly);
-        if (createIfMissing && nullptr == oc) {
-            oc = new ObjectConnectionManager;
-            oc->setParent(object);
+        registry& r = managers();
+
+        QMutexLocker lock(&r.m_CS);
+        const auto it = r.m_managers.find(object);
+        if (it != r.m_managers.end()) {
+            return it->second;
         }
+        if (!createIfMissing) {
+            return nullptr;
+        }
+        // this can be called from any thread so that the manager cannot
+        // become a child of the object, a parent needs to live on the same
+        // thread
+        auto* oc = new ObjectConnectionManager;
+        r.m_managers.emplace(object, oc);
+        QObject::connect(
+          object, &QObject::destroyed, [object] { release(object); });
         return oc;
     }
+
+private:
+    struct registry
+    {
+        // shared lock to ensure no two managers get created for an object
+        QMutex m_CS;
+        std::map<QObject*, ObjectConnectionManager*> m_managers;
+    };
+
+    static registry& managers()
+    {
+        // never destroyed as objects might get deleted during static
+        // destruction
+        static auto* s_registry = new registry;
+        return *s_registry;
+    }
+
+    // Invoked when the object is being destroyed
+    static void release(QObject* object)
+    {
+        registry& r = managers();
+
+        ObjectConnectionManager* oc = nullptr;
+        {
+            QMutexLocker lock(&r.m_CS);
+            const auto it = r.m_managers.find(object);
+            if (it != r.m_managers.end()) {
+                oc = it->second;
+                r.m_managers.erase(it);
+            }
+        }
+        // waits for active handlers, hence not to be done with the lock held
+        delete oc;
+    }
 };
 
 } // namespace qt5
-- 
2.43.0

