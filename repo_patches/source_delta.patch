From f67a4d629e422d5077fe681e9a11b963469186e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 01/45] fix: keep the 64-bit cursor when testing capacity of a
 multi-producer sequencer

The private overload took the cursor as int, so past 2^31 events try_next()
compared a truncated position with the gating sequences and handed out slots
that consumers had not read yet (or refused free ones).
---
 .../high_performance/disruptor4cpp/multi_producer_sequencer.h   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 02fe4d2..49f4b61 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -230,7 +230,7 @@ private:
     static constexpr int INDEX_MASK = static_cast<int>(BufferSize) - 1;
     static constexpr int INDEX_SHIFT = util::log2(BufferSize);
 
-    bool has_available_capacity(int required_capacity, int cursor_value)
+    bool has_available_capacity(int required_capacity, int64_t cursor_value)
     {
         int64_t wrap_point = (cursor_value + required_capacity) - static_cast<int64_t>(BufferSize);
         int64_t cached_gating_sequence = gating_sequence_cache_.get();
-- 
2.43.0


From 79806590e8e3ead1e72b9efe6f863a1828080f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 02/45] fix: publish multi-producer availability flags with
 release/acquire atomics

The per-slot availability flags were plain ints written by producers and read
by consumers with no synchronisation: a data race, and the event payload was
not ordered before the flag that announces it.
---
 .../disruptor4cpp/multi_producer_sequencer.h          | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
index 49f4b61..c338074 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/multi_producer_sequencer.h
@@ -47,9 +47,9 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 #define DISRUPTOR4CPP_MULTI_PRODUCER_SEQUENCER_H_
 
+#include <atomic>
 #include <cstddef>
 #include <cstdint>
-#include <cstring>
 #include <memory>
 #include <stdexcept>
 #include <thread>
@@ -79,7 +79,8 @@ public:
         , wait_strategy_()
         , gating_sequences_()
     {
-        std::memset(available_buffer_, ~0, sizeof(available_buffer_));
+        for (auto &flag : available_buffer_)
+            flag.store(-1, std::memory_order_relaxed);
     }
 
     ~multi_producer_sequencer() = default;
@@ -209,7 +210,7 @@ public:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        return available_buffer_[index] == flag;
+        return available_buffer_[index].load(std::memory_order_acquire) == flag;
     }
 
     int64_t get_highest_published_sequence(int64_t lower_bound, int64_t available_sequence) const
@@ -247,7 +248,7 @@ private:
     {
         int index = calculate_index(seq);
         int flag = calculate_availability_flag(seq);
-        available_buffer_[index] = flag;
+        available_buffer_[index].store(flag, std::memory_order_release);
     }
 
     int calculate_availability_flag(int64_t seq) const
@@ -261,7 +262,7 @@ private:
     TSequence gating_sequence_cache_;
     TWaitStrategy wait_strategy_;
     std::vector<TSequence *> gating_sequences_;
-    int available_buffer_[BufferSize];
+    std::atomic<int> available_buffer_[BufferSize];
 };
 } // namespace disruptor4cpp
 
-- 
2.43.0


From 887fe65a050cb86904f8090b91952f7ecd372e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 03/45] fix: do not lose a halt requested while a batch event
 processor starts

---
 .../high_performance/disruptor4cpp/batch_event_processor.h  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
index 7ac664f..94a3f14 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/batch_event_processor.h
@@ -94,7 +94,7 @@ public:
 
     void halt()
     {
-        running_.store(false, std::memory_order_release);
+        running_.exchange(false, std::memory_order_acq_rel);
         sequence_barrier_.alert();
     }
 
@@ -107,6 +107,10 @@ public:
             throw std::runtime_error("Thread is already running");
 
         sequence_barrier_.clear_alert();
+        // A halt requested before the alert was cleared must not be lost.
+        expected_running_state = true;
+        if (!running_.compare_exchange_strong(expected_running_state, true))
+            sequence_barrier_.alert();
         notify_start();
 
         typename TRingBuffer::event_type *event = nullptr;
-- 
2.43.0


From 5b56b8aa2bd1cbd6b2c93d740341699dc24cca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 04/45] fix: wake the no-op event processor when it is halted

---
 .../disruptor4cpp/no_op_event_processor.h              | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
index 833c6ff..04435db 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/disruptor4cpp/no_op_event_processor.h
@@ -82,7 +82,11 @@ public:
 
     typename TRingBuffer::sequence_type &get_sequence() { return sequence_; }
 
-    void halt() { running_.store(false, std::memory_order_release); }
+    void halt()
+    {
+        running_.exchange(false, std::memory_order_acq_rel);
+        sequence_barrier_.alert();
+    }
 
     bool is_running() const { return running_.load(std::memory_order_acquire); }
 
@@ -95,6 +99,10 @@ public:
         // Implemenent with the same logic in batch event processor without notification.
         // Different from the java version.
         sequence_barrier_.clear_alert();
+        // A halt requested before the alert was cleared must not be lost.
+        expected_running_state = true;
+        if (!running_.compare_exchange_strong(expected_running_state, true))
+            sequence_barrier_.alert();
         int64_t next_sequence = sequence_.get() + 1;
         try {
             while (true) {
-- 
2.43.0


From 6dc3fd7b54eb09740a449979b7eb65b221a95a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 05/45] fix: make the links of the lock-free stack atomic

---
 .../core/include/klepsydra/core/lock_free_stack.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/lock_free_stack.h b/core/modules/core/include/klepsydra/core/lock_free_stack.h
index a60e83c..9757333 100644
--- a/core/modules/core/include/klepsydra/core/lock_free_stack.h
+++ b/core/modules/core/include/klepsydra/core/lock_free_stack.h
@@ -18,6 +18,8 @@
 #define LOCK_FREE_STACK_H
 
 #include <atomic>
+#include <cstdint>
+#include <functional>
 #include <iostream>
 #include <memory>
 #include <vector>
@@ -33,7 +35,7 @@ class LockFreeStack
 
     struct node_t final
     {
-        uint16_t index_next;
+        std::atomic<uint16_t> index_next;
     };
 
     struct head_t final
@@ -76,12 +78,12 @@ public:
             if (initFunction != nullptr) {
                 initFunction(data_buffer[i]);
             }
-            node_buffer[i].index_next = i + 1;
+            node_buffer[i].index_next.store(i + 1, std::memory_order_relaxed);
         }
         if (initFunction != nullptr) {
             initFunction(data_buffer[realCapacity - 1]);
         }
-        node_buffer[realCapacity - 1].index_next = UNDEF_INDEX;
+        node_buffer[realCapacity - 1].index_next.store(UNDEF_INDEX, std::memory_order_relaxed);
         head.store(head_t(node_buffer, &node_buffer[0]), std::memory_order_relaxed);
     }
 
@@ -109,12 +111,13 @@ public:
 private:
     node_t *_pop(std::atomic<head_t> &h)
     {
-        head_t next, orig = h.load(std::memory_order_relaxed);
+        head_t next, orig = h.load(std::memory_order_acquire);
         do {
             if (orig.node_index == UNDEF_INDEX)
                 return nullptr;
             next.aba = orig.aba + 1;
-            next.node_index = node_buffer[orig.node_index].index_next;
+            next.node_index = node_buffer[orig.node_index].index_next.load(
+                std::memory_order_relaxed);
         } while (!h.compare_exchange_weak(orig,
                                           next,
                                           std::memory_order_acq_rel,
@@ -126,7 +129,7 @@ private:
     {
         head_t next, orig = h.load(std::memory_order_relaxed);
         do {
-            node->index_next = orig.node_index;
+            node->index_next.store(orig.node_index, std::memory_order_relaxed);
             next.aba = orig.aba + 1;
             next.node_index = _getIndex(node);
         } while (!h.compare_exchange_weak(orig,
-- 
2.43.0


From c6a0c7e3661696e01d4b98ffec8b151bc12996ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:30 +0000
Subject: [PATCH 06/45] fix: count failed pool acquisitions atomically

---
 core/modules/core/include/klepsydra/core/smart_object_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modules/core/include/klepsydra/core/smart_object_pool.h b/core/modules/core/include/klepsydra/core/smart_object_pool.h
index f4f1d36..3f2ac59 100644
--- a/core/modules/core/include/klepsydra/core/smart_object_pool.h
+++ b/core/modules/core/include/klepsydra/core/smart_object_pool.h
@@ -17,6 +17,7 @@
 #ifndef SMART_OBJECT_POOL_H
 #define SMART_OBJECT_POOL_H
 
+#include <atomic>
 #include <functional>
 #include <klepsydra/core/lock_free_stack.h>
 #include <memory>
@@ -139,7 +140,7 @@ public:
     /*!
      * @brief objectPoolFails
      */
-    long objectPoolFails = 0;
+    std::atomic<long> objectPoolFails{0};
 
 private:
     std::function<void(T &)> _finalizerFunction;
-- 
2.43.0


From 47ba2afe2acca761d9d8fca68301bac2c858c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 07/45] fix: never take from an empty queue when a timed wait
 is woken early

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index d331aab..5417aa8 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -287,8 +287,9 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() { return !m_queue.empty(); }))
                 return false;
         }
 
@@ -315,8 +316,9 @@ public:
             if (timeout == 0)
                 return false;
 
-            if (m_non_empty_condition.wait_for(lock, std::chrono::microseconds(timeout)) ==
-                std::cv_status::timeout)
+            if (!m_non_empty_condition.wait_for(lock,
+                                                std::chrono::microseconds(timeout),
+                                                [this]() { return !m_queue.empty(); }))
                 return false;
         }
 
-- 
2.43.0


From acf8403c8fa9209909a544725e1b4b421a4b3f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 08/45] fix: let blocking pushes into a queue without limit
 through

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 5417aa8..bd3db94 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -89,7 +89,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -106,7 +106,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(item);
         m_non_empty_condition.notify_one();
@@ -123,7 +123,7 @@ public:
         std::unique_lock<std::mutex> lock(m_mutex);
         m_non_full_condition.wait(lock,
                                   [this]() // Lambda funct
-                                  { return m_queue.size() < m_max_num_items; });
+                                  { return m_max_num_items == 0 || m_queue.size() < m_max_num_items; });
 
         m_queue.push(std::move(item));
         m_non_empty_condition.notify_one();
-- 
2.43.0


From 394a60aeeb3206992d251b4d5417a7f15f818de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 09/45] fix: keep the limit of a queue that is copied or moved

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index bd3db94..de4b613 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -59,7 +59,13 @@ public:
      * @brief SafeQueue
      * @param sq
      */
-    SafeQueue(SafeQueue &&sq) { m_queue = std::move(sq.m_queue); }
+    SafeQueue(SafeQueue &&sq)
+    {
+        std::lock_guard<std::mutex> lock(sq.m_mutex);
+        m_queue = std::move(sq.m_queue);
+        m_max_num_items = sq.m_max_num_items;
+        sq.m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief SafeQueue
@@ -69,6 +75,7 @@ public:
     {
         std::lock_guard<std::mutex> lock(sq.m_mutex);
         m_queue = sq.m_queue;
+        m_max_num_items = sq.m_max_num_items;
     }
 
     ~SafeQueue() { std::lock_guard<std::mutex> lock(m_mutex); }
-- 
2.43.0


From 4b1ab4d6d96e2668ba7f5a626a59f08daf6d6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 10/45] fix: wake blocked pushes when the limit of a queue
 changes

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index de4b613..1474faa 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -84,7 +84,12 @@ public:
      * @brief set_max_num_items Sets the maximum number of items in the queue. Defaults is 0: No limit
      * @param max_num_items
      */
-    void set_max_num_items(unsigned int max_num_items) { m_max_num_items = max_num_items; }
+    void set_max_num_items(unsigned int max_num_items)
+    {
+        std::lock_guard<std::mutex> lock(m_mutex);
+        m_max_num_items = max_num_items;
+        m_non_full_condition.notify_all();
+    }
 
     /**
      * @brief push Pushes the item into the queue. It blocks if the queue is full
-- 
2.43.0


From a0d855cf920b19c8da4ac50f4a90ee9a0e5049d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 11/45] fix: lock both queues without deadlock when swapping or
 assigning them

---
 .../include/klepsydra/mem_core/safe_queue.h   | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index 1474faa..ce308a0 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -377,8 +377,9 @@ public:
     void swap(SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
             m_queue.swap(sq.m_queue);
 
             if (!m_queue.empty())
@@ -397,8 +398,9 @@ public:
     SafeQueue &operator=(const SafeQueue &sq)
     {
         if (this != &sq) {
-            std::lock_guard<std::mutex> lock1(m_mutex);
-            std::lock_guard<std::mutex> lock2(sq.m_mutex);
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
             std::queue<T, Container> temp{sq.m_queue};
             m_queue.swap(temp);
 
@@ -416,11 +418,15 @@ public:
      */
     SafeQueue &operator=(SafeQueue &&sq)
     {
-        std::lock_guard<std::mutex> lock(m_mutex);
-        m_queue = std::move(sq.m_queue);
+        if (this != &sq) {
+            std::unique_lock<std::mutex> lock1(m_mutex, std::defer_lock);
+            std::unique_lock<std::mutex> lock2(sq.m_mutex, std::defer_lock);
+            std::lock(lock1, lock2);
+            m_queue = std::move(sq.m_queue);
 
-        if (!m_queue.empty())
-            m_non_empty_condition.notify_all();
+            if (!m_queue.empty())
+                m_non_empty_condition.notify_all();
+        }
 
         return *this;
     }
-- 
2.43.0


From 08e87d917ae09d881a1cd45e6a46356fb09bfc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:27 +0000
Subject: [PATCH 12/45] fix: wake blocked pushes when the contents of a queue
 are replaced

---
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue.h      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
index ce308a0..19181d0 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue.h
@@ -387,6 +387,9 @@ public:
 
             if (!sq.m_queue.empty())
                 sq.m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
+            sq.m_non_full_condition.notify_all();
         }
     }
 
@@ -406,6 +409,8 @@ public:
 
             if (!m_queue.empty())
                 m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
         }
 
         return *this;
@@ -426,6 +431,9 @@ public:
 
             if (!m_queue.empty())
                 m_non_empty_condition.notify_all();
+
+            m_non_full_condition.notify_all();
+            sq.m_non_full_condition.notify_all();
         }
 
         return *this;
-- 
2.43.0


From e6f9f47fe3fbeb3d087b69b6858b18a7c23a4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 13/45] fix: let state machine observers register and
 unregister observers

---
 state_machine/modules/state_machine/src/state_machine_impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_impl.cpp b/state_machine/modules/state_machine/src/state_machine_impl.cpp
index 684a9a2..d4dc933 100644
--- a/state_machine/modules/state_machine/src/state_machine_impl.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_impl.cpp
@@ -74,7 +74,8 @@ void StateMachineImpl::enqueueAndUpdate(const std::string &event)
 
 void StateMachineImpl::updateObservers(const std::string &stateId, bool stateChanged)
 {
-    for (auto observer : _observers) {
+    const auto observers = _observers; // an observer may register or unregister others
+    for (auto observer : observers) {
         observer(_id + ":" + stateId, stateChanged);
     }
 }
-- 
2.43.0


From 039dfd4a154b622aed82deb17a80bd6ccd833e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 14/45] fix: run state actions safely when they add actions or
 trigger updates

---
 .../state_machine/src/state_machine_listener.cpp     | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/state_machine/modules/state_machine/src/state_machine_listener.cpp b/state_machine/modules/state_machine/src/state_machine_listener.cpp
index 61edb07..2a3e9ea 100644
--- a/state_machine/modules/state_machine/src/state_machine_listener.cpp
+++ b/state_machine/modules/state_machine/src/state_machine_listener.cpp
@@ -55,20 +55,24 @@ void StateMachineListener::removeActions()
 void StateMachineListener::updateCurrentState(const std::string &currentStateId, bool stateChanged)
 {
     if (stateChanged) {
+        // actions may add or remove actions, or trigger another update, while they run
         if (_oneOffActions.find(currentStateId) != _oneOffActions.end()) {
-            for (auto action : _oneOffActions[currentStateId]) {
+            const auto oneOffActions = std::move(_oneOffActions[currentStateId]);
+            _oneOffActions.erase(currentStateId);
+            for (auto action : oneOffActions) {
                 action(currentStateId);
             }
-            _oneOffActions.erase(currentStateId);
         }
         if (_actions.find(currentStateId) != _actions.end()) {
-            for (auto action : _actions[currentStateId]) {
+            const auto actions = _actions[currentStateId];
+            for (auto action : actions) {
                 action(currentStateId);
             }
         }
     }
     if (_periodicActions.find(currentStateId) != _periodicActions.end()) {
-        for (auto action : _periodicActions[currentStateId]) {
+        const auto periodicActions = _periodicActions[currentStateId];
+        for (auto action : periodicActions) {
             action(currentStateId);
         }
     }
-- 
2.43.0


From f8198d850c36c5e44b91b3901405ba26a58c0922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 15/45] fix: only look for an error when closing a socket
 failed

---
 core/modules/socket_mdlw/src/base_socket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/modules/socket_mdlw/src/base_socket.cpp b/core/modules/socket_mdlw/src/base_socket.cpp
index 506ef7b..c29576a 100644
--- a/core/modules/socket_mdlw/src/base_socket.cpp
+++ b/core/modules/socket_mdlw/src/base_socket.cpp
@@ -60,7 +60,7 @@ void kpsr::socket_mdlw::BaseSocket::close()
     }
     while (true) {
         int state = ::close(socketId);
-        if (state == invalidSocketId) {
+        if (state == 0) {
             break;
         }
         switch (errno) {
-- 
2.43.0


From 996d09656154fdb5911fb6d4c9bd1d1b386333ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 16/45] fix: recognise a moved socket by its invalid id, not by
 id 0

---
 .../socket_mdlw/include/klepsydra/socket_core/data_socket.tpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
index c9323ea..f48a401 100644
--- a/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
+++ b/core/modules/socket_mdlw/include/klepsydra/socket_core/data_socket.tpp
@@ -35,7 +35,7 @@ template<typename F>
  */
 std::size_t DataSocket::getMessageData(char* buffer, std::size_t size, F scanForEnd)
 {
-    if (getSocketId() == 0)
+    if (getSocketId() == invalidSocketId)
     {
         throw std::logic_error(buildErrorMessage("DataSocket::", __func__, ": accept called on a bad socket object (this object was moved)"));
     }
-- 
2.43.0


From d3cfe1ff3d6134a5f1cc2bff9173a4e98251367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 17/45] fix: reject a binary message that is shorter than the
 event

---
 .../klepsydra/serialization/void_caster_mapper.h       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
index 452b703..3320321 100644
--- a/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
+++ b/serialization/modules/serialization/include/klepsydra/serialization/void_caster_mapper.h
@@ -14,11 +14,12 @@
  * limitations under the License.
  */
 
-#ifndef IDENTITY_MAPPER_H
-#define IDENTITY_MAPPER_H
+#ifndef VOID_CASTER_MAPPER_H
+#define VOID_CASTER_MAPPER_H
 
 #include <cstring>
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 
 #include <klepsydra/serialization/mapper.h>
@@ -45,6 +46,9 @@ public:
      */
     void fromMiddleware(const std::vector<unsigned char> &message, T &event)
     {
+        if (message.size() < sizeof(T)) {
+            throw std::length_error("kpsr::Mapper::fromMiddleware: Message too short.");
+        }
         std::memcpy(&event, message.data(), sizeof(T));
     }
 
@@ -62,4 +66,4 @@ public:
 };
 } // namespace kpsr
 
-#endif // IDENTITY_MAPPER_H
+#endif // VOID_CASTER_MAPPER_H
-- 
2.43.0


From 199cc0ebf7e8478e18be14324b3f347f8edaefc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 18/45] fix: look up listener statistics by id and forget them
 with all listeners

---
 .../klepsydra/core/unsafe_multi_listener_event_emitter.h   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
index 07a6d87..e768369 100644
--- a/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/unsafe_multi_listener_event_emitter.h
@@ -176,7 +176,7 @@ public:
         }
         _listenersNameMap.clear();
         _subscriberNameMap.clear();
-        _listenersNameMap.clear();
+        _listenerStats.clear();
         _listeners.clear();
     }
 
@@ -227,10 +227,11 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
-        if (_listenerStats.size() <= listenerId) {
+        auto listenerStatsIterator = _listenerStats.find(listenerId);
+        if (_listenerStats.end() == listenerStatsIterator) {
             return nullptr;
         }
-        return _listenerStats.at(listenerId);
+        return listenerStatsIterator->second;
     }
 
 private:
-- 
2.43.0


From b6087d5bab374fb7480b044916af5dbb3836126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 19/45] fix: run a single execution listener once when events
 are emitted at the same time

---
 .../klepsydra/core/safe_event_emitter.h       | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index 6354945..338be66 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -132,10 +132,11 @@ public:
         }
 
         for (auto &h : handlers) {
-            h->runCallback(event, enqueuedTimeNs);
-            if (h->isOnce) {
-                removeListener(nullptr, h->id);
+            // Whoever takes a single execution listener out is the only one to run it.
+            if (h->isOnce && !takeOnceListener(h->id)) {
+                continue;
             }
+            h->runCallback(event, enqueuedTimeNs);
         }
     }
 
@@ -242,6 +243,18 @@ private:
         }
     };
 
+    bool takeOnceListener(unsigned int listenerId)
+    {
+        std::lock_guard<std::mutex> lock(mutex);
+        for (auto it = listeners.begin(); it != listeners.end(); ++it) {
+            if (it->second->id == listenerId) {
+                listeners.erase(it);
+                return true;
+            }
+        }
+        return false;
+    }
+
     unsigned int addListener(Container *container,
                              const std::string &listenerName,
                              const std::string &subscriberName,
-- 
2.43.0


From 618d243429104647e38311325eb26f6840958f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 20/45] fix: access the listeners of a safe event emitter under
 its lock

---
 .../core/include/klepsydra/core/safe_event_emitter.h        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/safe_event_emitter.h b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
index 338be66..44441f2 100644
--- a/core/modules/core/include/klepsydra/core/safe_event_emitter.h
+++ b/core/modules/core/include/klepsydra/core/safe_event_emitter.h
@@ -117,7 +117,7 @@ public:
                    const Event &event) override
     {
         spdlog::trace("{}. subscriberName: {}", __PRETTY_FUNCTION__, subscriberName);
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
 
@@ -147,7 +147,7 @@ public:
      */
     void discardEvent(const std::string &subscriberName) override
     {
-        std::vector<std::shared_ptr<ListenerBase>> handlers(listeners.size());
+        std::vector<std::shared_ptr<ListenerBase>> handlers;
         {
             std::lock_guard<std::mutex> lock(mutex);
             auto range = listeners.equal_range(subscriberName);
@@ -177,6 +177,7 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getListenerStats(const unsigned int &listenerId) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
         auto i = std::find_if(listeners.begin(),
                               listeners.end(),
                               [&](std::pair<const std::string, std::shared_ptr<ListenerBase>> p) {
@@ -190,6 +191,7 @@ public:
 
     void removeAllListeners(Container *container) override
     {
+        std::lock_guard<std::mutex> lock(mutex);
         if (container) {
             for (auto &subscriberListenerBasePair : listeners) {
                 container->detach(subscriberListenerBasePair.second->listenerStats.get());
-- 
2.43.0


From 0f5733691d682654e2ac81b49e49f26d39954562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 21/45] fix: return no statistics for a listener that is not
 registered

---
 .../include/klepsydra/core/event_emitter_subscriber.h    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
index 731899f..67047b2 100644
--- a/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
+++ b/core/modules/core/include/klepsydra/core/event_emitter_subscriber.h
@@ -167,11 +167,16 @@ public:
      */
     std::shared_ptr<SubscriptionStats> getSubscriptionStats(const std::string &name)
     {
+        auto listenerIterator = _listenersMap.find(name);
+        if (listenerIterator == _listenersMap.end()) {
+            spdlog::debug("{}. Listener {} not found.", __PRETTY_FUNCTION__, name);
+            return nullptr;
+        }
         spdlog::trace("{}. ListenerId {} for name: {}",
                       __PRETTY_FUNCTION__,
-                      _listenersMap[name],
+                      listenerIterator->second,
                       name);
-        return _eventEmitter->getListenerStats(_listenersMap[name]);
+        return _eventEmitter->getListenerStats(listenerIterator->second);
     }
 
 protected:
-- 
2.43.0


From 6a4388980a73c0685725112968ef8791270b20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 22/45] fix: run reply callbacks outside of the pending request
 list and its lock

---
 .../include/klepsydra/core/callback_handler.h | 59 ++++++++++++-------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/callback_handler.h b/core/modules/core/include/klepsydra/core/callback_handler.h
index 6808a56..d456e16 100644
--- a/core/modules/core/include/klepsydra/core/callback_handler.h
+++ b/core/modules/core/include/klepsydra/core/callback_handler.h
@@ -116,22 +116,17 @@ public:
     virtual void requestAndReply(const Request &request,
                                  const std::function<void(const Reply &)> &callback)
     {
-        std::pair<Request, std::function<void(const Reply &)>> pair = std::make_pair(request,
-                                                                                     callback);
-        _requestCallbackVector.push_back(pair);
+        addRequest(request, callback);
         _publisher->publish(request);
     }
 
 protected:
     virtual void onReplyReceived(const Reply &reply)
     {
-        for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end();) {
-            if (_correlationFunction((*it).first, reply)) {
-                (*it).second(reply);
-                _requestCallbackVector.erase(it);
-                return;
-            }
-            ++it;
+        std::function<void(const Reply &)> callback;
+        if (takeCallback(reply, callback)) {
+            callback(reply);
+            return;
         }
         spdlog::info(
             "CallbackHandler::onReplyReceived. Reply not mapped. Callback name: {}. _publisher: {}",
@@ -139,6 +134,33 @@ protected:
             _publisher->name);
     }
 
+    /**
+     * @brief addRequest remembers the callback of a request until its reply arrives.
+     */
+    virtual void addRequest(const Request &request,
+                            const std::function<void(const Reply &)> &callback)
+    {
+        _requestCallbackVector.push_back(std::make_pair(request, callback));
+    }
+
+    /**
+     * @brief takeCallback forgets the first request correlated with the reply and hands out its
+     * callback, so that the callback is free to issue new requests.
+     *
+     * @return false if the reply is not correlated with any pending request.
+     */
+    virtual bool takeCallback(const Reply &reply, std::function<void(const Reply &)> &callback)
+    {
+        for (auto it = _requestCallbackVector.begin(); it != _requestCallbackVector.end(); ++it) {
+            if (_correlationFunction((*it).first, reply)) {
+                callback = std::move((*it).second);
+                _requestCallbackVector.erase(it);
+                return true;
+            }
+        }
+        return false;
+    }
+
 private:
     Publisher<Request> *_publisher;
     Subscriber<Reply> *_subscriber;
@@ -221,23 +243,18 @@ public:
 
     virtual ~MultiThreadCallbackHandler() {}
 
-    /**
-     * @brief requestAndReply
-     * @param request Event to publish
-     * @param callback std::function to invoke when the reply is received.
-     */
-    void requestAndReply(const Request &request,
-                         const std::function<void(const Reply &)> &callback) override
+protected:
+    void addRequest(const Request &request,
+                    const std::function<void(const Reply &)> &callback) override
     {
         std::lock_guard<std::mutex> lock(_mutex);
-        CallbackHandler<Request, Reply>::requestAndReply(request, callback);
+        CallbackHandler<Request, Reply>::addRequest(request, callback);
     }
 
-protected:
-    void onReplyReceived(const Reply &reply) override
+    bool takeCallback(const Reply &reply, std::function<void(const Reply &)> &callback) override
     {
         std::lock_guard<std::mutex> lock(_mutex);
-        CallbackHandler<Request, Reply>::onReplyReceived(reply);
+        return CallbackHandler<Request, Reply>::takeCallback(reply, callback);
     }
 
 private:
-- 
2.43.0


From 4a2dab474a5941087d89203b8ba9a39a866c9347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:25 +0000
Subject: [PATCH 23/45] fix: detach from the container exactly what is detached

---
 core/modules/core/src/core_container.cpp | 33 ++++++++----------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/core/modules/core/src/core_container.cpp b/core/modules/core/src/core_container.cpp
index b1d9542..a35e47b 100644
--- a/core/modules/core/src/core_container.cpp
+++ b/core/modules/core/src/core_container.cpp
@@ -96,23 +96,16 @@ void kpsr::CoreContainer::detach(Service *service)
     if (nullptr == service) {
         return;
     }
-    std::lock_guard<std::mutex> lock(_serviceMutex);
     {
-        auto itr = std::find_if(_managedServices.begin(),
-                                _managedServices.end(),
-                                [service](Service *item) {
-                                    return item->serviceStats.name == service->serviceStats.name;
-                                });
+        std::lock_guard<std::mutex> lock(_serviceMutex);
+        auto itr = std::find(_managedServices.begin(), _managedServices.end(), service);
         if (itr != _managedServices.end()) {
             _managedServices.erase(itr);
         }
     }
     {
-        auto itr = std::find_if(_serviceStats.begin(),
-                                _serviceStats.end(),
-                                [service](ServiceStats *item) {
-                                    return item->name == service->serviceStats.name;
-                                });
+        std::lock_guard<std::mutex> lock(_serviceStatsMutex);
+        auto itr = std::find(_serviceStats.begin(), _serviceStats.end(), &service->serviceStats);
         if (itr != _serviceStats.end()) {
             _serviceStats.erase(itr);
         }
@@ -141,11 +134,7 @@ void kpsr::CoreContainer::detach(FunctionStats *functionStats)
         return;
     }
     std::lock_guard<std::mutex> lock(_functionStatsMutex);
-    auto itr = std::find_if(_functionStats.begin(),
-                            _functionStats.end(),
-                            [functionStats](FunctionStats *item) {
-                                return item->name == functionStats->name;
-                            });
+    auto itr = std::find(_functionStats.begin(), _functionStats.end(), functionStats);
     if (itr != _functionStats.end()) {
         _functionStats.erase(itr);
     }
@@ -205,11 +194,7 @@ void kpsr::CoreContainer::detach(SubscriptionStats *subscriptionStats)
         return;
     }
     std::lock_guard<std::mutex> lock(_subscriptionStatsMutex);
-    auto itr = std::find_if(_subscriptionStats.begin(),
-                            _subscriptionStats.end(),
-                            [subscriptionStats](SubscriptionStats *item) {
-                                return item->name == subscriptionStats->name;
-                            });
+    auto itr = std::find(_subscriptionStats.begin(), _subscriptionStats.end(), subscriptionStats);
     if (itr != _subscriptionStats.end()) {
         _subscriptionStats.erase(itr);
     }
@@ -220,7 +205,11 @@ void kpsr::CoreContainer::detach(PublicationStats *publicationStats)
     if (nullptr == publicationStats) {
         return;
     }
-    _publicationStats.clear();
+    std::lock_guard<std::mutex> lock(_publishStatsMutex);
+    auto itr = std::find(_publicationStats.begin(), _publicationStats.end(), publicationStats);
+    if (itr != _publicationStats.end()) {
+        _publicationStats.erase(itr);
+    }
 }
 
 std::string kpsr::CoreContainer::getName() const
-- 
2.43.0


From 4026f834271bf21c473c7b6ce1ea0e4f6f02c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 24/45] fix: guard the statistics of a container by one mutex
 of their kind

---
 core/modules/core/src/core_container.cpp | 70 +++++++++++++++---------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/core/modules/core/src/core_container.cpp b/core/modules/core/src/core_container.cpp
index a35e47b..924d7e3 100644
--- a/core/modules/core/src/core_container.cpp
+++ b/core/modules/core/src/core_container.cpp
@@ -37,20 +37,32 @@ void kpsr::CoreContainer::start()
 {
     _running = true;
 
-    for (auto stats : _serviceStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_serviceStatsMutex);
+        for (auto stats : _serviceStats) {
+            stats->start();
+        }
     }
 
-    for (auto stats : _functionStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_functionStatsMutex);
+        for (auto stats : _functionStats) {
+            stats->start();
+        }
     }
 
-    for (auto stats : _publicationStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_publishStatsMutex);
+        for (auto stats : _publicationStats) {
+            stats->start();
+        }
     }
 
-    for (auto stats : _subscriptionStats) {
-        stats->start();
+    {
+        std::lock_guard<std::mutex> lock(_subscriptionStatsMutex);
+        for (auto stats : _subscriptionStats) {
+            stats->start();
+        }
     }
 }
 
@@ -58,20 +70,32 @@ void kpsr::CoreContainer::stop()
 {
     _running = false;
 
-    for (auto stats : _serviceStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_serviceStatsMutex);
+        for (auto stats : _serviceStats) {
+            stats->stop();
+        }
     }
 
-    for (auto stats : _functionStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_functionStatsMutex);
+        for (auto stats : _functionStats) {
+            stats->stop();
+        }
     }
 
-    for (auto stats : _publicationStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_publishStatsMutex);
+        for (auto stats : _publicationStats) {
+            stats->stop();
+        }
     }
 
-    for (auto stats : _subscriptionStats) {
-        stats->stop();
+    {
+        std::lock_guard<std::mutex> lock(_subscriptionStatsMutex);
+        for (auto stats : _subscriptionStats) {
+            stats->stop();
+        }
     }
 }
 
@@ -80,17 +104,13 @@ void kpsr::CoreContainer::attach(Service *service)
     if (nullptr == service) {
         return;
     }
-    std::lock_guard<std::mutex> lock(_serviceMutex);
-    _managedServices.push_back(service);
-    _serviceStats.push_back(&service->serviceStats);
-    if (_running) {
-        spdlog::info(
-            "Attaching service {} after container {} started. Statistics might not be accurate.",
-            service->serviceStats.name,
-            _applicationName);
-        service->serviceStats.start();
+    {
+        std::lock_guard<std::mutex> lock(_serviceMutex);
+        _managedServices.push_back(service);
     }
+    attach(&service->serviceStats);
 }
+
 void kpsr::CoreContainer::detach(Service *service)
 {
     if (nullptr == service) {
-- 
2.43.0


From fbb1f5d7dc30a691e781fc076645a6dd6516a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 25/45] fix: overwrite a dynamic property when it is set again

---
 .../core/include/klepsydra/core/configuration_properties.h  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/configuration_properties.h b/core/modules/core/include/klepsydra/core/configuration_properties.h
index 12216fb..410c501 100644
--- a/core/modules/core/include/klepsydra/core/configuration_properties.h
+++ b/core/modules/core/include/klepsydra/core/configuration_properties.h
@@ -59,9 +59,9 @@ public:
                 spdlog::debug("Overwriting old data with new value");
             }
         }
-        auto insertionResult = _properties.insert(
-            std::make_pair(propertyName, std::make_shared<Property<T>>(propertyValue)));
-        return insertionResult.second;
+        _properties[propertyName] = std::make_shared<Property<T>>(propertyValue);
+
+        return true;
     }
 
     void copyFrom(const DynamicConfigurationProperties &other, const std::string &prefix = "")
-- 
2.43.0


From 86577e14dad1d8186bfbb8860136e0ca2252dccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 26/45] fix: load properties of every type when a key of one
 type is already taken

---
 core/modules/core/src/configuration_environment.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/modules/core/src/configuration_environment.cpp b/core/modules/core/src/configuration_environment.cpp
index 7b5ace3..bcc1759 100644
--- a/core/modules/core/src/configuration_environment.cpp
+++ b/core/modules/core/src/configuration_environment.cpp
@@ -143,13 +143,12 @@ bool ConfigurationEnvironment::loadFile(const std::string &fileName, const std::
 bool ConfigurationEnvironment::copyFrom(const ConfigurationEnvironment &otherEnvironment,
                                         const std::string &rootNode)
 {
-    bool copyResult = true;
-    copyResult = copyResult &&
-                 _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode);
-    copyResult = copyResult && _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode);
-    copyResult = copyResult && _intProperties.copyFrom(otherEnvironment._intProperties, rootNode);
-    copyResult = copyResult &&
-                 _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode);
+    // every kind is copied, even if keys of another kind are already taken
+    bool copyResult = _stringProperties.copyFrom(otherEnvironment._stringProperties, rootNode);
+    copyResult = _boolProperties.copyFrom(otherEnvironment._boolProperties, rootNode) && copyResult;
+    copyResult = _intProperties.copyFrom(otherEnvironment._intProperties, rootNode) && copyResult;
+    copyResult = _floatProperties.copyFrom(otherEnvironment._floatProperties, rootNode) &&
+                 copyResult;
     return copyResult;
 }
 
-- 
2.43.0


From e359849905c9c63df880373cf8482345ccff79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 27/45] fix: report properties that are missing in a property
 file

---
 core/modules/core/src/prop_file_environment.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/modules/core/src/prop_file_environment.cpp b/core/modules/core/src/prop_file_environment.cpp
index 4bc752b..bc35685 100644
--- a/core/modules/core/src/prop_file_environment.cpp
+++ b/core/modules/core/src/prop_file_environment.cpp
@@ -28,7 +28,7 @@ bool kpsr::PropertyFileEnvironment::getPropertyString(const std::string &key,
                                                       std::string const &rootNode)
 {
     value = _configFile.getValueOfKey<std::string>(key, defaultValue);
-    return true;
+    return _configFile.keyExists(key);
 }
 
 bool kpsr::PropertyFileEnvironment::getPropertyInt(const std::string &key,
@@ -37,7 +37,7 @@ bool kpsr::PropertyFileEnvironment::getPropertyInt(const std::string &key,
                                                    std::string const &rootNode)
 {
     value = _configFile.getValueOfKey<int>(key, defaultValue);
-    return true;
+    return _configFile.keyExists(key);
 }
 
 bool kpsr::PropertyFileEnvironment::getPropertyFloat(const std::string &key,
@@ -46,7 +46,7 @@ bool kpsr::PropertyFileEnvironment::getPropertyFloat(const std::string &key,
                                                      std::string const &rootNode)
 {
     value = _configFile.getValueOfKey<float>(key, defaultValue);
-    return true;
+    return _configFile.keyExists(key);
 }
 
 bool kpsr::PropertyFileEnvironment::getPropertyBool(const std::string &key,
@@ -55,7 +55,7 @@ bool kpsr::PropertyFileEnvironment::getPropertyBool(const std::string &key,
                                                     std::string const &rootNode)
 {
     value = _configFile.getValueOfKey<bool>(key, defaultValue);
-    return true;
+    return _configFile.keyExists(key);
 }
 
 void kpsr::PropertyFileEnvironment::setPropertyString(const std::string &key,
-- 
2.43.0


From eaf084deabf2ea705f24d9e2631d3d700caf24b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 28/45] fix: refuse an invalid hexadecimal property

---
 .../core/include/klepsydra/core/prop_file_convert.h   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/modules/core/include/klepsydra/core/prop_file_convert.h b/core/modules/core/include/klepsydra/core/prop_file_convert.h
index d4c9a40..a4e0837 100644
--- a/core/modules/core/include/klepsydra/core/prop_file_convert.h
+++ b/core/modules/core/include/klepsydra/core/prop_file_convert.h
@@ -41,13 +41,12 @@ public:
         T returnVal;
         std::istringstream iss(val);
         std::string::size_type hexCode = val.find("0x", 0);
-        if (hexCode == std::string::npos) {
-            if (!(iss >> returnVal))
-                throw std::invalid_argument("CFG: Not a valid " + (std::string) typeid(T).name() +
-                                            " received!\n");
-        } else {
-            iss >> std::hex >> returnVal;
+        if (hexCode != std::string::npos) {
+            iss >> std::hex;
         }
+        if (!(iss >> returnVal))
+            throw std::invalid_argument("CFG: Not a valid " + (std::string) typeid(T).name() +
+                                        " received!\n");
 
         return returnVal;
     }
-- 
2.43.0


From 47bc9267fd17863ba5e2aa2202385e9c0b8f873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 29/45] fix: keep the spaces in a string property of a property
 file

---
 .../modules/core/include/klepsydra/core/prop_file_convert.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/modules/core/include/klepsydra/core/prop_file_convert.h b/core/modules/core/include/klepsydra/core/prop_file_convert.h
index a4e0837..55ecd8d 100644
--- a/core/modules/core/include/klepsydra/core/prop_file_convert.h
+++ b/core/modules/core/include/klepsydra/core/prop_file_convert.h
@@ -51,6 +51,12 @@ public:
         return returnVal;
     }
 };
+
+template<>
+inline std::string PropertyFileConvert::string_to_T<std::string>(const std::string &val)
+{
+    return val;
+}
 } // namespace kpsr
 
 #endif
-- 
2.43.0


From 32190970b5668267b19c8f64ba0a4ba52504e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:30 +0000
Subject: [PATCH 30/45] fix: keep properties of different root nodes apart in
 the memory environment

---
 core/modules/mem_mdlw/src/mem_env.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/modules/mem_mdlw/src/mem_env.cpp b/core/modules/mem_mdlw/src/mem_env.cpp
index b0d40bf..f19f126 100644
--- a/core/modules/mem_mdlw/src/mem_env.cpp
+++ b/core/modules/mem_mdlw/src/mem_env.cpp
@@ -14,13 +14,21 @@
 
 #include <klepsydra/mem_core/mem_env.h>
 
+namespace {
+// properties of different root nodes are different properties
+std::string fullKey(const std::string &key, const std::string &rootNode)
+{
+    return rootNode.empty() ? key : rootNode + "/" + key;
+}
+} // namespace
+
 bool kpsr::mem::MemEnv::getPropertyString(const std::string &key,
                                           std::string &value,
                                           std::string const &defaultValue,
                                           std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = stringDataMap.find(key);
+    auto it = stringDataMap.find(fullKey(key, rootNode));
     if (it == stringDataMap.end()) {
         value = defaultValue;
         return false;
@@ -36,7 +44,7 @@ bool kpsr::mem::MemEnv::getPropertyInt(const std::string &key,
                                        std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = intDataMap.find(key);
+    auto it = intDataMap.find(fullKey(key, rootNode));
     if (it == intDataMap.end()) {
         value = defaultValue;
         return false;
@@ -52,7 +60,7 @@ bool kpsr::mem::MemEnv::getPropertyFloat(const std::string &key,
                                          std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = floatDataMap.find(key);
+    auto it = floatDataMap.find(fullKey(key, rootNode));
     if (it == floatDataMap.end()) {
         value = defaultValue;
         return false;
@@ -68,7 +76,7 @@ bool kpsr::mem::MemEnv::getPropertyBool(const std::string &key,
                                         std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    auto it = boolDataMap.find(key);
+    auto it = boolDataMap.find(fullKey(key, rootNode));
     if (it == boolDataMap.end()) {
         value = defaultValue;
         return false;
@@ -83,7 +91,7 @@ void kpsr::mem::MemEnv::setPropertyString(const std::string &key,
                                           std::string const &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    stringDataMap[key] = value;
+    stringDataMap[fullKey(key, rootNode)] = value;
 }
 
 void kpsr::mem::MemEnv::setPropertyInt(const std::string &key,
@@ -91,7 +99,7 @@ void kpsr::mem::MemEnv::setPropertyInt(const std::string &key,
                                        const std::string &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    intDataMap[key] = value;
+    intDataMap[fullKey(key, rootNode)] = value;
 }
 
 void kpsr::mem::MemEnv::setPropertyFloat(const std::string &key,
@@ -99,7 +107,7 @@ void kpsr::mem::MemEnv::setPropertyFloat(const std::string &key,
                                          const std::string &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    floatDataMap[key] = value;
+    floatDataMap[fullKey(key, rootNode)] = value;
 }
 
 void kpsr::mem::MemEnv::setPropertyBool(const std::string &key,
@@ -107,7 +115,7 @@ void kpsr::mem::MemEnv::setPropertyBool(const std::string &key,
                                         const std::string &rootNode)
 {
     std::lock_guard<std::mutex> lock(mutex);
-    boolDataMap[key] = value;
+    boolDataMap[fullKey(key, rootNode)] = value;
 }
 
 bool kpsr::mem::MemEnv::loadFile(const std::string &fileName, const std::string &nodeName)
-- 
2.43.0


From 61c5957381f63607aab8f568872e7073ae951d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 31/45] fix: let a polling thread that starts late find out
 that it was stopped

---
 core/modules/mem_mdlw/src/in_memory_queue_poller.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
index 9f397b6..cdf19e0 100644
--- a/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
+++ b/core/modules/mem_mdlw/src/in_memory_queue_poller.cpp
@@ -39,17 +39,20 @@ void InMemoryQueuePoller::stop()
     if (!isStarted()) {
         return;
     }
+    // A thread that enters its loop only now has to find out as well.
+    _started.store(false, std::memory_order_release);
     _running.store(false, std::memory_order_release);
     if (_threadNotifier.joinable()) {
         _threadNotifier.join();
     }
+    _running.store(false, std::memory_order_release);
     _loopFunction = (std::packaged_task<void()>(
         std::bind(&InMemoryQueuePoller::pollingLoop, this))); // to allow restarting
-    _started.store(false, std::memory_order_release);
 }
 
 InMemoryQueuePoller::~InMemoryQueuePoller()
 {
+    _started = false;
     _running = false;
     if (_threadNotifier.joinable()) {
         _threadNotifier.join();
@@ -59,7 +62,7 @@ InMemoryQueuePoller::~InMemoryQueuePoller()
 void InMemoryQueuePoller::pollingLoop()
 {
     _running.store(true, std::memory_order_release);
-    while (isRunning()) {
+    while (isStarted() && isRunning()) {
         takeEventFromQueue();
     }
 }
-- 
2.43.0


From 86a44483563af67f15dcce121d823c8dc89f1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:54 +0000
Subject: [PATCH 32/45] fix: end the polling thread before what it polls from
 is destroyed

---
 .../include/klepsydra/mem_core/basic_middleware_provider.h     | 3 +++
 .../klepsydra/mem_core/concurrent_middleware_provider.h        | 3 +++
 .../include/klepsydra/mem_core/concurrent_queue_poller.h       | 3 +++
 .../mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
index 8601697..a5fee4f 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_middleware_provider.h
@@ -78,6 +78,9 @@ public:
             new SafeQueuePoller<T>(_internalQueue, this->_eventEmitter, eventName, 1000));
     }
 
+    // The polling thread uses the queue, so it has to end first.
+    ~BasicMiddlewareProvider() { this->_poller->stop(); }
+
     SafeQueue<EventData<const T>> _internalQueue;
 };
 } // namespace mem
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
index a14246f..8d91e60 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_middleware_provider.h
@@ -86,6 +86,9 @@ public:
                                          _token));
     }
 
+    // The polling thread uses the queue, so it has to end first.
+    ~ConcurrentMiddlewareProvider() { this->_poller->stop(); }
+
     /**
      * @brief _internalQueue
      */
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
index 04b0a68..278b545 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/concurrent_queue_poller.h
@@ -70,6 +70,9 @@ public:
         , _token(token)
     {}
 
+    // The polling thread uses this class, so it has to end first.
+    ~ConcurrentQueuePoller() { this->stop(); }
+
 private:
     void takeEventFromQueue() override
     {
diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
index 512cfdb..a21de4a 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/safe_queue_poller.h
@@ -63,6 +63,9 @@ public:
         , _internalQueue(safeQueue)
     {}
 
+    // The polling thread uses this class, so it has to end first.
+    ~SafeQueuePoller() { this->stop(); }
+
 private:
     void takeEventFromQueue() override
     {
-- 
2.43.0


From 5d0341b09176afd33f6aa67e479096ef0ee1d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 33/45] fix: end a scheduled task with its scheduler and when
 another one takes its name

---
 .../mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h    | 5 +++++
 core/modules/mem_mdlw/src/basic_scheduler.cpp                | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
index 4d75aa9..9c00640 100644
--- a/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
+++ b/core/modules/mem_mdlw/include/klepsydra/mem_core/basic_scheduler.h
@@ -84,6 +84,11 @@ private:
          */
         ScheduledThread(const std::string &name, int after, bool repeat, std::function<void()> task);
 
+        /**
+         * @brief Stops the task: a thread must not be destroyed while it can still be joined.
+         */
+        ~ScheduledThread();
+
         /**
          * @brief
          */
diff --git a/core/modules/mem_mdlw/src/basic_scheduler.cpp b/core/modules/mem_mdlw/src/basic_scheduler.cpp
index c138501..e000ebf 100644
--- a/core/modules/mem_mdlw/src/basic_scheduler.cpp
+++ b/core/modules/mem_mdlw/src/basic_scheduler.cpp
@@ -26,6 +26,11 @@ kpsr::mem::BasicScheduler::ScheduledThread::ScheduledThread(const std::string &n
     , _task(task)
 {}
 
+kpsr::mem::BasicScheduler::ScheduledThread::~ScheduledThread()
+{
+    stop();
+}
+
 void kpsr::mem::BasicScheduler::ScheduledThread::start()
 {
     _isRunning = true;
-- 
2.43.0


From c7dadec0f2bf6f53f097811b27a09858bd249933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:14 +0000
Subject: [PATCH 34/45] fix: end an event loop whose thread starts late

---
 .../include/klepsydra/high_performance/event_loop.h          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index 1c11a91..81dc955 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -128,6 +128,11 @@ public:
             return;
         }
         _isStarted.store(false, std::memory_order_release);
+        // A halt would be lost if the thread did not get to the processor yet.
+        while (!this->batchEventProcessor->is_running() &&
+               _batchProcessorThreadFuture.wait_for(std::chrono::microseconds(100)) !=
+                   std::future_status::ready) {
+        }
         this->batchEventProcessor->halt();
         spdlog::debug("kpsr::high_perf::EventLoop::stop. Halting the batchEventProcessor");
         if (this->batchProcessorThread.joinable()) {
-- 
2.43.0


From 47306cf401768c8507286a8a63b25928b4f6bea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:54 +0000
Subject: [PATCH 35/45] fix: stop an event loop before what its thread uses is
 destroyed

---
 .../include/klepsydra/high_performance/event_loop.h          | 5 +++++
 .../high_performance/event_loop_middleware_provider.h        | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
index 81dc955..77afb59 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop.h
@@ -95,6 +95,11 @@ public:
             new BatchProcessor(_ringBuffer, std::move(barrier), _eventHandler, name));
     }
 
+    /**
+     * @brief The loop ends with its thread.
+     */
+    ~EventLoop() { stop(); }
+
     /**
      * @brief start start consumer thread
      */
diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
index e063641..28e9f67 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
@@ -88,7 +88,8 @@ public:
         , _scheduler(nullptr)
     {}
 
-    ~EventLoopMiddlewareProvider() {}
+    // The thread of the loop uses the publishers and subscribers.
+    ~EventLoopMiddlewareProvider() { stop(); }
 
     template<class T>
     /**
-- 
2.43.0


From 241b4ef6168f6510229ff19b07c9378930d3bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:08 +0000
Subject: [PATCH 36/45] fix: end a multiplexer subscriber that starts late, and
 let the publisher forget one that has ended

---
 .../data_multiplexer_subscriber.h             | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
index 47c3530..80e0dc8 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/data_multiplexer_subscriber.h
@@ -102,6 +102,7 @@ public:
         long counterUs = 0;
         while (!this->batchEventProcessor->is_running()) {
             if (counterUs > _timeoutUs) {
+                end();
                 throw std::runtime_error("Could not start the DataMultiplexerListener");
             }
             std::this_thread::sleep_for(std::chrono::microseconds(100));
@@ -115,18 +116,27 @@ public:
         if (!_started) {
             return;
         }
-        while (!batchEventProcessor->is_running()) {
-            std::this_thread::sleep_for(std::chrono::microseconds(1));
+        end();
+    }
+
+    std::unique_ptr<BatchProcessor> batchEventProcessor;
+
+private:
+    void end()
+    {
+        // A halt would be lost if the thread did not get to the processor yet.
+        while (!batchEventProcessor->is_running() &&
+               _batchProcessorThreadFuture.wait_for(std::chrono::microseconds(1)) !=
+                   std::future_status::ready) {
         }
         batchEventProcessor->halt();
         if (_batchProcessorThread.joinable()) {
             _batchProcessorThread.join();
         }
+        // The publisher must not wait for a subscriber that has ended.
+        _ringBuffer.remove_gating_sequence(batchEventProcessor->get_sequence());
     }
 
-    std::unique_ptr<BatchProcessor> batchEventProcessor;
-
-private:
     RingBuffer &_ringBuffer;
     DataMultiplexerEventHandler<TEvent> _eventHandler;
     std::atomic<bool> _started;
-- 
2.43.0


From 5d0bad7f3ff5ad73186e7b7fda497fb0674d4c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:48 +0000
Subject: [PATCH 37/45] fix: binary ZMQ channel sends the rest of an earlier
 event after a shorter one

---
 .../include/klepsydra/zmq_core/to_zmq_middleware_provider.h    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
index 9c250b9..ab2bd53 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/to_zmq_middleware_provider.h
@@ -91,7 +91,8 @@ public:
                 if (!event) {
                     event = new std::stringbuf;
                 }
-                event->pubseekpos(0);
+                // An event must not be followed by the rest of a longer one sent before.
+                static_cast<std::stringbuf *>(event)->str(std::string());
             };
             std::function<void(Base &)> finalizerFunction = [](Base &event) { delete event; };
             std::unique_ptr<BinaryToZMQChannel> toZmqChannel{
-- 
2.43.0


From bb786b48cc360c87566c097197a297a9d4083b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:48 +0000
Subject: [PATCH 38/45] fix: topic can not be registered at a ZMQ channel again
 after it was unregistered

---
 .../klepsydra/zmq_core/from_zmq_middleware_provider.h       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index f6be1db..cd22254 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -86,7 +86,11 @@ public:
      * @brief unregisterFromTopic
      * @param topic
      */
-    void unregisterFromTopic(const std::string &topic) { _zmqPoller->unregisterFromTopic(topic); }
+    void unregisterFromTopic(const std::string &topic)
+    {
+        _zmqPoller->unregisterFromTopic(topic);
+        _subscriberMap.erase(topic);
+    }
 
     /**
      * @brief start Launches the polling thread.
-- 
2.43.0


From 7e7ff83c2748800473228a5bebc0711d5db8b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:04 +0000
Subject: [PATCH 39/45] fix: ZMQ channel destroyed while its poller runs

---
 .../klepsydra/zmq_core/from_zmq_middleware_provider.h        | 5 +++++
 .../modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
index cd22254..7676842 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/from_zmq_middleware_provider.h
@@ -58,6 +58,11 @@ public:
         : _zmqPoller(std::move(zmqPoller))
     {}
 
+    /**
+     * @brief Stops the poller, which uses the registered channels.
+     */
+    ~FromZmqChannel() { _zmqPoller->stop(); }
+
     template<class T>
     /**
      * @brief registerToTopic
diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 25dda71..8406a77 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -97,7 +97,7 @@ public:
         _started.store(false, std::memory_order_release);
     }
 
-    ~ZMQPoller()
+    virtual ~ZMQPoller()
     {
         _running = false;
         if (_threadNotifier.joinable()) {
-- 
2.43.0


From 1936b4092ee18bdfb1b8083c44f0d5054aa57075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:04 +0000
Subject: [PATCH 40/45] fix: stop of a ZMQ poller hangs when its thread starts
 late

---
 .../include/klepsydra/zmq_core/zmq_poller.h        | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
index 8406a77..5ce894b 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_poller.h
@@ -89,12 +89,14 @@ public:
         if (!isStarted()) {
             return;
         }
-        _running.store(false, std::memory_order_release);
+        // A thread that starts late must see that it is not wanted any more.
+        _started.store(false);
+        _running.store(false);
         if (_threadNotifier.joinable()) {
             _threadNotifier.join();
         }
+        _running.store(false);
         _poller = std::packaged_task<void()>(std::bind(&ZMQPoller::pollingLoop, this));
-        _started.store(false, std::memory_order_release);
     }
 
     virtual ~ZMQPoller()
@@ -148,8 +150,10 @@ public:
 protected:
     void pollingLoop()
     {
-        _running.store(true, std::memory_order_relaxed);
-        this->poll();
+        _running.store(true);
+        if (isStarted()) {
+            this->poll();
+        }
     }
 
     /**
@@ -160,7 +164,7 @@ protected:
     /**
      * @brief isStarted
      */
-    bool isStarted() { return _started.load(std::memory_order_acquire); }
+    bool isStarted() { return _started.load(); }
 
     zmq::socket_t &_subscriber;
     long _pollPeriod;
-- 
2.43.0


From 110dfb1c1af438e8efe39f97f0cd19389314e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:50 +0000
Subject: [PATCH 41/45] fix: ZMQ environments created in the same millisecond
 ignore each other

---
 core/modules/zmq_mdlw/src/zmq_env.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index 2315b74..bba3a62 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -13,6 +13,7 @@
 // limitations under the License.
 
 #include <algorithm>
+#include <atomic>
 #include <chrono>
 #include <string.h>
 
@@ -25,6 +26,16 @@ static const std::string DEFAULT_ZMQ_TOPIC_NAME = "DEFAULT_ZMQ_TOPIC_NAME";
 static const std::string DEFAULT_ZMQ_ENV_KEY = "DEFAULT_ZMQ_ENV_KEY";
 static const int DEFAULT_ZMQ_ENV_POOL_PERIOD = 1000;
 
+// Environments ignore what they have sent themselves, so that no two of them may have the same id.
+static long newSourceId()
+{
+    static std::atomic<long> count(0);
+    return std::chrono::duration_cast<std::chrono::nanoseconds>(
+               std::chrono::system_clock::now().time_since_epoch())
+               .count() +
+           count++;
+}
+
 kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(const std::string &configurationFileName,
                                std::string zmqKey,
                                std::string topicName,
@@ -40,9 +51,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(const std::string &configurationFileName,
     , _topicName(topicName)
     , _zmqKey(zmqKey)
     , _pollPeriod(pollPeriod)
-    , _timestamp(std::chrono::duration_cast<std::chrono::milliseconds>(
-                     std::chrono::system_clock::now().time_since_epoch())
-                     .count())
+    , _timestamp(newSourceId())
     , mapper()
     , _isEnvLocal(true)
 {
@@ -66,9 +75,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
     : _zmqSubscriber(zmqSubscriber)
     , _decorableEnv(configurationEnvironment)
     , _zmqPublisher(zmqPublisher)
-    , _timestamp(std::chrono::duration_cast<std::chrono::milliseconds>(
-                     std::chrono::system_clock::now().time_since_epoch())
-                     .count())
+    , _timestamp(newSourceId())
     , mapper()
     , _isEnvLocal(false)
 {
-- 
2.43.0


From 86e7aded806e59c0fce2d8dfcbb250e58ed153ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:50 +0000
Subject: [PATCH 42/45] fix: race on the end of the thread of a ZMQ environment

---
 core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
index 3b438dc..34b733d 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
@@ -19,6 +19,7 @@
 
 #include <zmq.hpp>
 
+#include <atomic>
 #include <future>
 
 #include <klepsydra/serialization/json_cereal_mapper.h>
@@ -57,7 +58,7 @@ private:
     ZMQEnv *_zmqEnv;
     long _sourceId;
     int _pollPeriod;
-    bool _running;
+    std::atomic<bool> _running;
     kpsr::Mapper<ZMQEnvironmentData, std::string> mapper;
     std::thread _threadPoller;
 };
-- 
2.43.0


From 7c931110332afc65bebc553a9944afe8568bbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:23 +0000
Subject: [PATCH 43/45] fix: race between a ZMQ environment's poller and its
 user

---
 .../zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h      |  3 +++
 core/modules/zmq_mdlw/src/zmq_env.cpp                  | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
index 34b733d..ac6533c 100644
--- a/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
+++ b/core/modules/zmq_mdlw/include/klepsydra/zmq_core/zmq_env.h
@@ -21,6 +21,7 @@
 
 #include <atomic>
 #include <future>
+#include <mutex>
 
 #include <klepsydra/serialization/json_cereal_mapper.h>
 
@@ -206,6 +207,8 @@ private:
     ZMQConfigurationPoller *_poller;
     kpsr::Mapper<ZMQEnvironmentData, std::string> mapper;
     bool _isEnvLocal;
+    // The poller updates the configuration while the application uses it.
+    std::mutex _mutex;
 };
 } // namespace zmq_mdlw
 } // namespace kpsr
diff --git a/core/modules/zmq_mdlw/src/zmq_env.cpp b/core/modules/zmq_mdlw/src/zmq_env.cpp
index bba3a62..92463dd 100644
--- a/core/modules/zmq_mdlw/src/zmq_env.cpp
+++ b/core/modules/zmq_mdlw/src/zmq_env.cpp
@@ -95,6 +95,7 @@ kpsr::zmq_mdlw::ZMQEnv::ZMQEnv(ConfigurationEnvironment *configurationEnvironmen
 
 bool kpsr::zmq_mdlw::ZMQEnv::updateConfiguration(const std::string &configurationData)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->updateConfiguration(configurationData);
 }
 
@@ -103,6 +104,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyString(const std::string &key,
                                                const std::string &defaultValue,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyString(key, value, defaultValue, rootNode);
 }
 
@@ -111,6 +113,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyInt(const std::string &key,
                                             const int defaultValue,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyInt(key, value, defaultValue, rootNode);
 }
 
@@ -119,6 +122,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyFloat(const std::string &key,
                                               const float defaultValue,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyFloat(key, value, defaultValue, rootNode);
 }
 
@@ -127,6 +131,7 @@ bool kpsr::zmq_mdlw::ZMQEnv::getPropertyBool(const std::string &key,
                                              const bool defaultValue,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     return _decorableEnv->getPropertyBool(key, value, defaultValue, rootNode);
 }
 
@@ -134,6 +139,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyString(const std::string &key,
                                                const std::string &value,
                                                const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyString(key, value, rootNode);
     publishConfiguration();
 }
@@ -142,6 +148,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyInt(const std::string &key,
                                             const int &value,
                                             const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyInt(key, value, rootNode);
     publishConfiguration();
 }
@@ -150,6 +157,7 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyFloat(const std::string &key,
                                               const float &value,
                                               const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyFloat(key, value, rootNode);
     publishConfiguration();
 }
@@ -158,12 +166,14 @@ void kpsr::zmq_mdlw::ZMQEnv::setPropertyBool(const std::string &key,
                                              const bool &value,
                                              const std::string &rootNode)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     _decorableEnv->setPropertyBool(key, value, rootNode);
     publishConfiguration();
 }
 
 bool kpsr::zmq_mdlw::ZMQEnv::loadFile(const std::string &fileName, const std::string &nodeName)
 {
+    std::lock_guard<std::mutex> lock(_mutex);
     if (_decorableEnv->loadFile(fileName, nodeName)) {
         publishConfiguration();
         return true;
-- 
2.43.0


From bc172992a7084ec49ce9f0b2d83d0dcb5719b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:22 +0000
Subject: [PATCH 44/45] fix: event loop's scheduler publisher stays attached to
 a container set later

Its statistics were attached to the container behind its back, so it did not
detach them when it ended and the container kept a dangling pointer.
---
 .../klepsydra/high_performance/event_loop_middleware_provider.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
index 28e9f67..72246ff 100644
--- a/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
+++ b/high_performance/modules/high_performance/include/klepsydra/high_performance/event_loop_middleware_provider.h
@@ -197,7 +197,7 @@ public:
                         schedulerSubscriber->setContainer(container);
                         Publisher<std::function<void()>> *schedulerPublisher =
                             getPublisher<std::function<void()>>(keyValue.first, 0, nullptr, nullptr);
-                        _container->attach(&schedulerPublisher->publicationStats);
+                        schedulerPublisher->setContainer(_container);
                     }
                 } else {
                     //TODO: detach all statistics
-- 
2.43.0


From f6b960f4e93e32e578640d7d0935681a4de71372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:09 +0000
Subject: [PATCH 45/45] fix: default sensor has no sequence number

---
 core/modules/core/include/klepsydra/core/sensor.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/modules/core/include/klepsydra/core/sensor.h b/core/modules/core/include/klepsydra/core/sensor.h
index 486ee14..3db60b4 100644
--- a/core/modules/core/include/klepsydra/core/sensor.h
+++ b/core/modules/core/include/klepsydra/core/sensor.h
@@ -43,6 +43,7 @@ public:
      * @brief Sensor
      */
     Sensor()
+        : seq(0)
     {
         std::chrono::milliseconds ms = std::chrono::duration_cast<std::chrono::milliseconds>(
             std::chrono::system_clock::now().time_since_epoch());
-- 
2.43.0

