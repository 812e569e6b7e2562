From 65ba02a5c13e6dc8bd954bcf9dc1147032beb021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:24 +0000
Subject: [PATCH 01/44] fix: task completion is published with release/acquire
 and reported to the parent once

The counter of unfinished tasks used relaxed ordering, so a thread returning from
wait() was not guaranteed to see the effects of the tasks it waited for. finish()
also re-read the counter after decrementing it: two tasks finishing together could
both see zero and decrement the grandparent twice, so waiting for it returned early.
---
 include/co_ecs/thread_pool/task.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 18b8a7e..b79e1c5 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -31,7 +31,7 @@ public:
     /// @brief Checks if the task has been completed.
     /// @return True if the task is completed, otherwise false.
     bool is_completed() const noexcept {
-        return _unfinishedTasks.load(std::memory_order::relaxed) == 0;
+        return _unfinishedTasks.load(std::memory_order::acquire) == 0;
     }
 
     /// @brief Retrieves the parent task if it exists.
@@ -42,10 +42,11 @@ public:
 
 private:
     void finish() {
-        _unfinishedTasks.fetch_sub(1, std::memory_order::relaxed);
-
-        if (is_completed() && _parent) {
-            _parent->finish();
+        // Once the counter drops to zero a waiter may reuse this task, so do not touch it afterwards. Only the call
+        // that drops it to zero notifies the parent.
+        auto* parent = _parent;
+        if (_unfinishedTasks.fetch_sub(1, std::memory_order::acq_rel) == 1 && parent) {
+            parent->finish();
         }
     }
 
-- 
2.43.0


From 514be1164cb51b3f2f54c3467da96fa7388c158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 02/44] fix: a child attached to a completed task keeps that
 task's parent unfinished

---
 include/co_ecs/thread_pool/task.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index b79e1c5..fca2783 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -18,7 +18,7 @@ public:
     task_t(auto&& func, task_t* parent = nullptr) : _func(std::forward<decltype(func)>(func)), _parent(parent) {
         _unfinishedTasks.store(1, std::memory_order::relaxed);
         if (_parent) {
-            _parent->_unfinishedTasks.fetch_add(1, std::memory_order::relaxed);
+            _parent->add_child();
         }
     }
 
@@ -41,6 +41,14 @@ public:
     }
 
 private:
+    void add_child() noexcept {
+        // A child attached to an already completed task makes it unfinished again. It has reported its completion to
+        // its own parent and is going to do so once more, so the parent has to be told.
+        if (_unfinishedTasks.fetch_add(1, std::memory_order::relaxed) == 0 && _parent) {
+            _parent->add_child();
+        }
+    }
+
     void finish() {
         // Once the counter drops to zero a waiter may reuse this task, so do not touch it afterwards. Only the call
         // that drops it to zero notifies the parent.
-- 
2.43.0


From af410e94fe88eb25d0d86da834aa8c2ef26ab9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 03/44] fix: an unfinished task is never overwritten by newer
 ones

---
 include/co_ecs/thread_pool/task.hpp | 40 ++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index fca2783..a5455f6 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -1,8 +1,11 @@
 #pragma once
 
-#include <array>
 #include <atomic>
+#include <cstddef>
+#include <cstdint>
+#include <deque>
 #include <functional>
+#include <new>
 
 namespace co_ecs {
 
@@ -60,14 +63,14 @@ private:
 
     std::function<void()> _func{};          ///< The function that the task executes.
     task_t* _parent{};                      ///< Optional pointer to the parent task.
-    std::atomic<uint16_t> _unfinishedTasks; ///< Atomic counter for tracking unfinished tasks.
+    std::atomic<uint32_t> _unfinishedTasks; ///< Atomic counter for tracking unfinished tasks.
 };
 
 /// @brief Manages a pool of tasks, allocated from a circular array. Tasks are reused instead of being deallocated
 /// explicitly.
 class task_pool {
 public:
-    /// @brief Maximum number of tasks that can exist at any given time per worker.
+    /// @brief Number of tasks the circular buffer of a thread starts with and grows by when too many are unfinished.
     constexpr static std::size_t max_tasks = 4096;
 
     /// @brief Allocates a task with the specified function and parent, placing it in a circular buffer.
@@ -75,15 +78,40 @@ public:
     /// @param parent Optional pointer to a parent task.
     /// @return Pointer to the newly allocated task.
     static task_t* allocate(auto&& func, task_t* parent = nullptr) {
-        auto& task = _tasks_array[_task_counter++ & (max_tasks - 1)];
+        auto& task = next();
         task.~task_t();
         new (&task) task_t(std::forward<decltype(func)>(func), parent);
         return &task;
     }
 
 private:
-    static inline thread_local std::size_t _task_counter;                  ///< Counter to index into the tasks array.
-    static inline thread_local std::array<task_t, max_tasks> _tasks_array; ///< Circular buffer of tasks.
+    /// @brief Returns the next task in the circular buffer that may be overwritten.
+    static task_t& next() {
+        while (true) {
+            if (_tasks.empty() || _skipped > _tasks.size() / 4) {
+                _task_counter = _tasks.size();
+                _skipped = 0;
+                while (_tasks.size() < _task_counter + max_tasks) {
+                    _tasks.emplace_back();
+                }
+            }
+
+            if (_task_counter == _tasks.size()) {
+                _task_counter = 0;
+                _skipped = 0;
+            }
+
+            auto& task = _tasks[_task_counter++];
+            if (task.is_completed()) {
+                return task;
+            }
+            _skipped++;
+        }
+    }
+
+    static inline thread_local std::size_t _task_counter; ///< Index of the next task in the buffer.
+    static inline thread_local std::size_t _skipped;      ///< Unfinished tasks met in this pass over the buffer.
+    static inline thread_local std::deque<task_t> _tasks; ///< Circular buffer of tasks.
 };
 
 } // namespace co_ecs
-- 
2.43.0


From dfa3229bf8684021159707bdbe7f034617037d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 04/44] fix: failing to start a worker is reported and leaves
 no thread or pool behind

---
 include/co_ecs/thread_pool/thread_pool.hpp | 54 +++++++++++++---------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/include/co_ecs/thread_pool/thread_pool.hpp b/include/co_ecs/thread_pool/thread_pool.hpp
index f97b153..35786c3 100644
--- a/include/co_ecs/thread_pool/thread_pool.hpp
+++ b/include/co_ecs/thread_pool/thread_pool.hpp
@@ -223,34 +223,30 @@ public:
         }
         _instance = this;
 
-        // create main worker that will execute tasks in main thread
-        _workers.emplace_back(std::make_unique<worker>(*this, 0));
-        worker::current_worker = _workers[0].get();
-
-        // create background workers
-        for (auto i = 1; i < num_workers; i++) {
-            _workers.emplace_back(std::make_unique<worker>(*this, i));
-        }
+        try {
+            // create main worker that will execute tasks in main thread
+            _workers.emplace_back(std::make_unique<worker>(*this, 0));
+            worker::current_worker = _workers[0].get();
+
+            // create background workers
+            for (auto i = 1; i < num_workers; i++) {
+                _workers.emplace_back(std::make_unique<worker>(*this, i));
+            }
 
-        // start workers
-        for (auto i = 1; i < num_workers; i++) {
-            _workers[i]->start();
+            // start workers
+            for (auto i = 1; i < num_workers; i++) {
+                _workers[i]->start();
+            }
+        } catch (...) {
+            // the destructor is not going to run, do not leave the workers that did start behind
+            shutdown();
+            throw;
         }
     }
 
     /// @brief Destroy thread pool, worker threads are notified to exit and joined.
     ~thread_pool() {
-        // stop workers
-        for (auto i = 1; i < _workers.size(); i++) {
-            _workers[i]->stop();
-        }
-
-        // join worker threads
-        for (auto i = 1; i < _workers.size(); i++) {
-            _workers[i]->join();
-        }
-
-        _instance = nullptr;
+        shutdown();
     }
 
     thread_pool(const thread_pool&) = delete;
@@ -304,6 +300,20 @@ public:
     }
 
 private:
+    void shutdown() {
+        // stop workers
+        for (auto i = 1; i < _workers.size(); i++) {
+            _workers[i]->stop();
+        }
+
+        // join worker threads
+        for (auto i = 1; i < _workers.size(); i++) {
+            _workers[i]->join();
+        }
+
+        _instance = nullptr;
+    }
+
     worker& main_worker() noexcept {
         return *_workers[0];
     }
-- 
2.43.0


From f08f4946f3a1c93009f15169cd0422a2a4005267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:08 +0000
Subject: [PATCH 05/44] fix: the grown queue array is published with its
 contents

---
 include/co_ecs/detail/work_stealing_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/work_stealing_queue.hpp b/include/co_ecs/detail/work_stealing_queue.hpp
index b835ae6..4e8224d 100644
--- a/include/co_ecs/detail/work_stealing_queue.hpp
+++ b/include/co_ecs/detail/work_stealing_queue.hpp
@@ -67,7 +67,8 @@ public:
             auto* tmp = array->grow(bottom, top);
             _garbage.push_back(array);
             std::swap(array, tmp);
-            _array.store(array, std::memory_order_relaxed);
+            // thieves read the elements through this pointer
+            _array.store(array, std::memory_order_release);
         }
 
         array->push(bottom, std::forward<decltype(o)>(o));
-- 
2.43.0


From 5e5060d09a4340ac0a969a3605fceafdcdffd6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 06/44] fix: a worker exits only after the tasks it stores have
 been read

---
 include/co_ecs/thread_pool/thread_pool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/thread_pool/thread_pool.hpp b/include/co_ecs/thread_pool/thread_pool.hpp
index 35786c3..78bac8d 100644
--- a/include/co_ecs/thread_pool/thread_pool.hpp
+++ b/include/co_ecs/thread_pool/thread_pool.hpp
@@ -132,7 +132,8 @@ public:
         }
 
         void stop() {
-            _active.store(false, std::memory_order::relaxed);
+            // an exiting worker destroys its task storage, which other workers have been reading
+            _active.store(false, std::memory_order::release);
         }
 
         void join() {
@@ -142,7 +143,7 @@ public:
         }
 
         auto is_active() const noexcept -> bool {
-            return _active.load(std::memory_order::relaxed);
+            return _active.load(std::memory_order::acquire);
         }
 
         [[nodiscard]] task_t* get_task() {
-- 
2.43.0


From 8c170163afe6a4f3498cacd17037636baf9c659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 07/44] fix: hash_table::erase destroys the value left in the
 vacated bucket

---
 include/co_ecs/detail/hash_table.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 45c81ba..ee39f02 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -721,6 +721,8 @@ private:
             auto n_info = _info.begin() + index;
 
             if (!n_info->occupied || n_info->psl == 0) {
+                // the bucket that is left unoccupied still holds a moved-from value
+                allocator_traits::destroy(_buckets.allocator(), ptr);
                 break;
             }
 
-- 
2.43.0


From 41ad4daeafe63acd4050356f493f4e1292db0708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 08/44] fix: hash_table range constructor sizes its bucket info
 and cleans up when an element throws

---
 include/co_ecs/detail/hash_table.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index ee39f02..46f6fb9 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -326,8 +326,7 @@ public:
         const Hash& hash = Hash(),
         const key_equal& equal = key_equal(),
         const Allocator& alloc = Allocator()) :
-        _buckets(alloc, bucket_count), _info(default_bucket_count), _equal(equal), _hash(hash) {
-        assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
+        hash_table(bucket_count, hash, equal, alloc) {
         for (; first != last; ++first) {
             emplace_or_assign_impl(std::move(*first));
         }
-- 
2.43.0


From d714ea23db8cdc74fea588748f65e5b8d34de284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 09/44] fix: copying a hash_table leaks nothing when copying an
 element throws

---
 include/co_ecs/detail/hash_table.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 46f6fb9..dd770e6 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -382,11 +382,13 @@ public:
     ///
     /// @param rhs Right hand side
     constexpr hash_table(const hash_table& rhs) :
-        _info(rhs._info), _size(rhs._size), _hash(rhs._hash), _equal(rhs._equal),
-        _buckets(rhs._buckets.allocator(), rhs._buckets.size()) {
-        for (std::size_t idx{}; const auto& info : _info) {
+        hash_table(rhs._buckets.size(), rhs._hash, rhs._equal, rhs._buckets.allocator()) {
+        // the destructor cleans up what has been copied if a copy throws
+        for (std::size_t idx{}; const auto& info : rhs._info) {
             if (info.occupied) {
                 std::uninitialized_copy_n(rhs._buckets.begin() + idx, 1, _buckets.begin() + idx);
+                _info[idx] = info;
+                _size++;
             }
             idx++;
         }
-- 
2.43.0


From 168da387e87300f433084eeed7b7dad3b08f495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 10/44] fix: hash_table::reserve rounds up to a power of two

---
 include/co_ecs/detail/hash_table.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index dd770e6..dec668a 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <bit>
 #include <cassert>
 #include <memory>
 #include <stdexcept>
@@ -613,7 +614,8 @@ public:
             return;
         }
 
-        hash_table h_table(new_size, _hash, _equal, _buckets.allocator());
+        // the number of buckets has to be a power of two
+        hash_table h_table(std::bit_ceil(new_size), _hash, _equal, _buckets.allocator());
 
         for (auto& value : *this) {
             h_table._emplace_impl(std::move(value));
-- 
2.43.0


From 752ad4a8c030f8647d3321d0fbac223c301fd37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 11/44] fix: values inserted into a hash_table may come from
 the table itself

---
 include/co_ecs/detail/hash_table.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index dec668a..3aeb7eb 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -745,6 +745,8 @@ private:
 
     template<typename... Args>
     constexpr auto emplace_impl(Args&&... args) -> std::pair<iterator, bool> {
+        // the arguments may refer to an element of this table, use them before it grows
+        value_type value(std::forward<Args>(args)...);
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
@@ -752,18 +754,20 @@ private:
             reserve(new_size);
         }
 
-        return _emplace_impl(std::forward<Args>(args)...);
+        return _emplace_impl(std::move(value));
     }
 
     template<typename... Args>
     constexpr auto emplace_or_assign_impl(Args&&... args) -> std::pair<iterator, bool> {
+        // the arguments may refer to an element of this table, use them before it grows
+        value_type value(std::forward<Args>(args)...);
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
             const auto new_size = buckets_size << size_type{ 1 };
             reserve(new_size);
         }
-        return _emplace_or_assign_impl(std::forward<Args>(args)...);
+        return _emplace_or_assign_impl(std::move(value));
     }
 
     template<typename... Args>
-- 
2.43.0


From c2301719be2ecc18784b063788d0797c55ff6557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:16 +0000
Subject: [PATCH 12/44] fix: sparse_table::operator[] reports a failed
 allocation

---
 include/co_ecs/detail/sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index 69ad330..c052f72 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -255,7 +255,7 @@ public:
     ///
     /// @param key Key to look for
     /// @return Reference to element found or inserted
-    constexpr auto operator[](const key_type& key) noexcept -> mapped_type&
+    constexpr auto operator[](const key_type& key) -> mapped_type&
         requires(is_map)
     {
         auto [iter, _] = emplace(key);
-- 
2.43.0


From ea2f1ae8902b31ef9b332db1bac49516fecf2584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 13/44] fix: a moved-from sparse_table is empty and usable

---
 include/co_ecs/detail/sparse_table.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index c052f72..d468bac 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -38,7 +38,11 @@ public:
     /// @brief Move constructor
     ///
     /// @param rhs Sparse container to move from
-    constexpr sparse_table(sparse_table&& rhs) noexcept = default;
+    constexpr sparse_table(sparse_table&& rhs) noexcept :
+        _dense(std::move(rhs._dense)), _sparse(std::move(rhs._sparse)), _size(rhs._size),
+        _sparse_capacity(rhs._sparse_capacity) {
+        rhs.reset();
+    }
 
     /// @brief Copy constructor
     ///
@@ -49,7 +53,16 @@ public:
     ///
     /// @param rhs Sparse container to move from
     /// @return Container data from rhs moved to
-    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& = default;
+    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& {
+        if (this != &rhs) {
+            _dense = std::move(rhs._dense);
+            _sparse = std::move(rhs._sparse);
+            _size = rhs._size;
+            _sparse_capacity = rhs._sparse_capacity;
+            rhs.reset();
+        }
+        return *this;
+    }
 
     /// @brief Copy assignment
     ///
@@ -303,6 +316,14 @@ private:
         }
     }
 
+    // a moved-from table is empty
+    constexpr void reset() noexcept {
+        _dense.clear();
+        _sparse.clear();
+        _size = 0;
+        _sparse_capacity = 0;
+    }
+
     std::vector<value_type, Allocator> _dense;
     std::vector<key_type> _sparse;
 
-- 
2.43.0


From 6b396787844ca70d65aaa29c1485a107e44c13c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 14/44] fix: sparse_table may hold every value of its key type

---
 include/co_ecs/detail/sparse_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index d468bac..1921d26 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -228,7 +228,7 @@ public:
         } else {
             _dense.emplace_back(key);
         }
-        _sparse[key] = _size;
+        _sparse[key] = static_cast<key_type>(_size);
         ++_size;
         return std::pair(_dense.begin() + _sparse[key], true);
     }
@@ -327,7 +327,7 @@ private:
     std::vector<value_type, Allocator> _dense;
     std::vector<key_type> _sparse;
 
-    key_type _size{};
+    std::size_t _size{};
     size_t _sparse_capacity{};
 };
 
-- 
2.43.0


From f800cf6d62d22f092cddb94da5147ca5e560e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 15/44] fix: creating or recycling handles does not hand out
 reserved ones again

---
 include/co_ecs/detail/handle.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/co_ecs/detail/handle.hpp b/include/co_ecs/detail/handle.hpp
index d7d9fc5..1c55d5b 100644
--- a/include/co_ecs/detail/handle.hpp
+++ b/include/co_ecs/detail/handle.hpp
@@ -72,6 +72,8 @@ public:
     /// @brief Creates a new handle.
     /// @return Handle
     [[nodiscard]] constexpr auto create() -> H {
+        // IDs that have been reserved but not flushed yet are taken
+        flush();
         if (!_free_ids.empty()) {
             auto id = _free_ids.back();
             _free_ids.pop_back();
@@ -99,6 +101,8 @@ public:
         if (!alive(handle)) {
             return;
         }
+        // IDs that have been reserved but not flushed yet are at the end of the free list
+        flush();
         _generations[handle.id()]++;
         _free_ids.push_back(handle.id());
         _free_cursor.fetch_add(1, std::memory_order::relaxed);
-- 
2.43.0


From 1c9169b50c404fbe398907237588e4cd56cadfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 16/44] fix: handle_pool stays consistent when an allocation
 fails

---
 include/co_ecs/detail/handle.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/co_ecs/detail/handle.hpp b/include/co_ecs/detail/handle.hpp
index 1c55d5b..3bdfb49 100644
--- a/include/co_ecs/detail/handle.hpp
+++ b/include/co_ecs/detail/handle.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <atomic>
 #include <cstdint>
 #include <numeric>
@@ -80,9 +81,8 @@ public:
             _free_cursor.store(_free_ids.size(), std::memory_order::relaxed);
             return H{ id, _generations[id] };
         }
-        auto handle = H{ _next_id.fetch_add(1, std::memory_order::relaxed) };
-        _generations.emplace_back();
-        return handle;
+        grow(1);
+        return H{ _next_id.fetch_add(1, std::memory_order::relaxed) };
     };
 
     /// @brief Checks if a handle is still alive.
@@ -125,9 +125,9 @@ public:
     constexpr void flush() {
         auto free_cursor = _free_cursor.load(std::memory_order::relaxed);
 
-        while (free_cursor < 0) {
-            _generations.emplace_back();
-            free_cursor++;
+        if (free_cursor < 0) {
+            grow(static_cast<std::size_t>(-free_cursor));
+            free_cursor = 0;
         }
 
         while (_free_ids.size() > free_cursor) {
@@ -138,6 +138,15 @@ public:
     }
 
 private:
+    /// @brief Makes room for more IDs, so that recycling any of them does not have to allocate.
+    constexpr void grow(std::size_t count) {
+        const auto size = _generations.size() + count;
+        if (_free_ids.capacity() < size) {
+            _free_ids.reserve(std::max(size, _free_ids.capacity() * 2));
+        }
+        _generations.resize(size);
+    }
+
     std::atomic<typename H::id_t> _next_id{};
     std::atomic<std::int64_t> _free_cursor{};
     std::vector<typename H::generation_t> _generations;
-- 
2.43.0


From 14695665bacf1119a49d7466dbc1d613201a6dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 17/44] fix: erasing the last entity of a chunk in the middle
 leaves no hole behind

---
 include/co_ecs/chunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 097dc75..da1e5bc 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -126,7 +126,7 @@ public:
     /// @return std::optional<entity>
     auto swap_erase(std::size_t index, chunk& other) noexcept -> std::optional<entity> {
         assert((index < _size) && "Entity index exceeds chunk size");
-        if (size() == 1 || index == _size - 1) {
+        if (this == &other && index == _size - 1) {
             pop_back();
             return std::nullopt;
         }
-- 
2.43.0


From be9798be618883c406210d6a4fd8b51c8a49a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 18/44] fix: components are stored at addresses aligned as
 their types require

---
 include/co_ecs/archetype.hpp   | 30 +++++++++++++++++-------------
 include/co_ecs/chunk.hpp       | 22 ++++++++++++++--------
 include/co_ecs/detail/bits.hpp |  9 +++++++++
 3 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 78a5227..b307af9 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -188,11 +188,10 @@ private:
         const std::size_t size_in_bytes = _max_size * meta.type->size;
         const std::size_t align = meta.type->align;
 
+        offset = detail::align_up_2n(offset, align);
         _blocks.emplace(meta.id, offset, meta);
 
-        offset += detail::mod_2n(offset, align) + size_in_bytes;
-
-        return offset;
+        return offset + size_in_bytes;
     }
 
     // Calculates the maximum size of individual components this chunk buffer can hold
@@ -220,7 +219,13 @@ private:
         auto remaining_elements_count = remaining_space / packed_components_size(components_meta);
 
         // The maximum amount of entities we can hold is grater by 1 for which we calculated aligned_size
-        return remaining_elements_count + 1;
+        auto max_size = remaining_elements_count + 1;
+
+        // Padding between blocks may take more space than padding of a single entity does
+        while (max_size > 1 && aligned_components_size(components_meta, max_size) > chunk::chunk_bytes) {
+            max_size--;
+        }
+        return max_size;
     }
 
     // Calculate size of packed structure of components
@@ -231,15 +236,14 @@ private:
             [](const auto& res, const auto& meta) { return res + meta.type->size; });
     }
 
-    // Calculate size of properly aligned structure of components
-    static auto aligned_components_size(auto&& components_meta) noexcept -> std::size_t {
-        auto begin = chunk::alloc_alignment;
-        auto end = begin;
+    // Calculate size of properly aligned arrays of components
+    static auto aligned_components_size(auto&& components_meta, std::size_t count = 1) noexcept -> std::size_t {
+        std::size_t end = 0;
 
-        // Add single component element size accounting for its alignment
-        auto add_elements = [&end](const component_meta& meta) {
-            end += detail::mod_2n(std::bit_cast<std::size_t>(end), meta.type->align);
-            end += meta.type->size;
+        // Add component elements size accounting for their alignment
+        auto add_elements = [&end, count](const component_meta& meta) {
+            end = detail::align_up_2n(end, meta.type->align);
+            end += meta.type->size * count;
         };
 
         add_elements(component_meta::of<entity>());
@@ -247,7 +251,7 @@ private:
             add_elements(meta);
         }
 
-        return end - begin;
+        return end;
     }
 
     template<component_reference ComponentRef>
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index da1e5bc..889c760 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <algorithm>
 #include <cassert>
+#include <cstddef>
 #include <cstdint>
 #include <new>
 #include <optional>
@@ -40,19 +42,15 @@ public:
     static constexpr std::size_t chunk_bytes = static_cast<const std::size_t>(16U * 1024); // 16 KB
 
     /// @brief Block allocation alignment
-    static constexpr std::size_t alloc_alignment = alignof(entity);
-
-    /// @brief Chunk buffer type
-    struct alignas(alloc_alignment) chunk_buffer {
-        std::byte data[chunk_bytes];
-    };
+    static constexpr std::size_t alloc_alignment = alignof(std::max_align_t);
 
     /// @brief Construct a new chunk object
     ///
     /// @param blocks Component blocks
     /// @param max_size Maxium size of entries this chunk can hold
     chunk(const blocks_type& blocks, std::size_t max_size) :
-        _blocks(&blocks), _max_size(max_size), _buffer((new chunk_buffer)->data) {
+        _blocks(&blocks), _max_size(max_size),
+        _buffer(static_cast<std::byte*>(::operator new(chunk_bytes, buffer_alignment(blocks)))) {
     }
 
     /// @brief Deleted copy constructor
@@ -94,7 +92,7 @@ public:
                 block.meta.type->destruct(_buffer + block.offset + i * block.meta.type->size);
             }
         }
-        delete reinterpret_cast<chunk_buffer*>(_buffer);
+        ::operator delete(_buffer, buffer_alignment(*_blocks));
     }
 
     /// @brief Emplace back components into blocks
@@ -255,6 +253,14 @@ public:
 private:
     friend class base_registry;
 
+    static auto buffer_alignment(const blocks_type& blocks) noexcept -> std::align_val_t {
+        auto alignment = alloc_alignment;
+        for (const auto& [id, block] : blocks) {
+            alignment = std::max(alignment, block.meta.type->align);
+        }
+        return std::align_val_t{ alignment };
+    }
+
     constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) noexcept {
         assert((index < self._size) && "Entity index exceeds chunk size");
 
diff --git a/include/co_ecs/detail/bits.hpp b/include/co_ecs/detail/bits.hpp
index a7f4651..193e317 100644
--- a/include/co_ecs/detail/bits.hpp
+++ b/include/co_ecs/detail/bits.hpp
@@ -11,6 +11,15 @@ constexpr auto mod_2n(auto value, auto divisor) noexcept -> decltype(auto) {
     return value & (divisor - 1U);
 }
 
+/// @brief Round value up to a multiple of b=2^n
+///
+/// @param value Value
+/// @param divisor Power of 2 divisor
+/// @return decltype(auto) Result
+constexpr auto align_up_2n(auto value, auto divisor) noexcept -> decltype(value) {
+    return (value + divisor - 1U) & ~(divisor - 1U);
+}
+
 /// @brief Check if value is a power of 2
 /// @param value Power of two value
 /// @return True if power of two, false otherwise
-- 
2.43.0


From f5d40fcddcc58259e37b8fee959abb89ff00715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 19/44] fix: failing to create an archetype leaves no empty
 entry behind

---
 include/co_ecs/archetype.hpp | 43 +++++++++++++-----------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index b307af9..bf8221b 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -308,13 +308,7 @@ public:
     /// @param components Components meta set
     /// @return archetype*
     auto ensure_archetype(const component_meta_set& components) -> archetype* {
-        auto& archetype = _archetypes[components.ids()];
-        if (!archetype) {
-            archetype = create_archetype(components);
-        }
-        assert((archetype->components().ids() == components.ids())
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return find_or_create(components.ids(), [&] { return create_archetype(components); });
     }
 
     /// @brief Get or create an archetype matching the passed Components types
@@ -326,13 +320,7 @@ public:
         _search_component_set.clear();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype(component_meta_set::create<Components...>());
-        }
-        assert((archetype->components().ids() == _search_component_set)
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return find_or_create(_search_component_set, [&] { return create_archetype(component_meta_set::create<Components...>()); });
     }
 
     /// @brief Get or create an archetype by adding new Components to an anchor archetype
@@ -345,13 +333,7 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype_added<Components...>(anchor_archetype);
-        }
-        assert((archetype->components().ids() == _search_component_set)
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return find_or_create(_search_component_set, [&] { return create_archetype_added<Components...>(anchor_archetype); });
     }
 
     /// @brief Get or create an archetype by removing Components from an anchor archetype
@@ -364,13 +346,7 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.erase<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
-        if (!archetype) {
-            archetype = create_archetype_removed<Components...>(anchor_archetype);
-        }
-        assert((archetype->components().ids() == _search_component_set)
-               && "Archetype components do not match the search request");
-        return archetype.get();
+        return find_or_create(_search_component_set, [&] { return create_archetype_removed<Components...>(anchor_archetype); });
     }
 
     /// @brief Returns iterator to the beginning of archetypes container
@@ -409,6 +385,17 @@ public:
     }
 
 private:
+    // An archetype is added to the map once it has been created, so that a failure does not leave an entry without one
+    auto find_or_create(const component_set& ids, auto&& create) -> archetype* {
+        auto iter = _archetypes.find(ids);
+        if (iter == _archetypes.end()) {
+            iter = _archetypes.emplace(ids, create()).first;
+        }
+        auto* archetype = iter->second.get();
+        assert((archetype->components().ids() == ids) && "Archetype components do not match the search request");
+        return archetype;
+    }
+
     static auto create_archetype(auto&& components) -> std::unique_ptr<archetype> {
         return std::make_unique<archetype>(std::forward<decltype(components)>(components));
     }
-- 
2.43.0


From 237363d62bc619353bf612469f788f5eb60ae84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 20/44] fix: copying an entity leaves nothing behind when
 copying a component throws

---
 include/co_ecs/archetype.hpp | 18 ++++++++++++++----
 include/co_ecs/chunk.hpp     | 26 +++++++++++++++++++-------
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index bf8221b..35d8edf 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -78,9 +78,7 @@ public:
         auto& chunk = get_chunk(location);
         auto& last_chunk = _chunks.back();
         auto maybe_ent = chunk.swap_erase(location.entry_index, last_chunk);
-        if (last_chunk.empty() && _chunks.size() > 1) {
-            _chunks.pop_back();
-        }
+        remove_empty_chunk();
         return maybe_ent;
     }
 
@@ -119,7 +117,13 @@ public:
 
         assert((location.entry_index < chunk.size()) && "Entity location index exceeds chunk size");
 
-        auto entry_index = chunk.copy(location.entry_index, free_chunk);
+        std::size_t entry_index{};
+        try {
+            entry_index = chunk.copy(location.entry_index, free_chunk);
+        } catch (...) {
+            other.remove_empty_chunk();
+            throw;
+        }
         auto new_location = entity_location{
             &other,
             other._chunks.size() - 1,
@@ -276,6 +280,12 @@ private:
         return get_chunk_impl(*this, location);
     }
 
+    void remove_empty_chunk() noexcept {
+        if (_chunks.back().empty() && _chunks.size() > 1) {
+            _chunks.pop_back();
+        }
+    }
+
     auto ensure_free_chunk() -> chunk& {
         auto& chunk = _chunks.back();
         if (!chunk.full()) {
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 889c760..35d07bf 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -171,15 +171,27 @@ public:
         assert((index < _size) && "Entity index exceeds chunk size");
         assert((!other_chunk.full()) && "Other chunk is full, cannot move entity to it");
         const std::size_t other_chunk_index = other_chunk._size;
-        for (const auto& [id, block] : *_blocks) {
-            const auto* type = block.meta.type;
-            if (!other_chunk._blocks->contains(id)) {
-                continue;
+        auto destination = [&](component_id_t id, const block_metadata& block) {
+            return other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * block.meta.type->size;
+        };
+        auto iter = _blocks->begin();
+        try {
+            for (; iter != _blocks->end(); ++iter) {
+                const auto& [id, block] = *iter;
+                const auto* type = block.meta.type;
+                if (other_chunk._blocks->contains(id) && type->copy_construct) {
+                    type->copy_construct(destination(id, block), _buffer + block.offset + index * type->size);
+                }
             }
-            auto* ptr = other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size;
-            if (type->copy_construct) {
-                type->copy_construct(ptr, _buffer + block.offset + index * type->size);
+        } catch (...) {
+            // destroy the components which have been copied
+            while (iter != _blocks->begin()) {
+                const auto& [id, block] = *--iter;
+                if (other_chunk._blocks->contains(id)) {
+                    block.meta.type->destruct(destination(id, block));
+                }
             }
+            throw;
         }
         other_chunk._size++;
         return other_chunk_index;
-- 
2.43.0


From a50a97d94327ac690258cceece2b405cbf4308b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 21/44] fix: failing to create, copy or move an entity leaves
 no entity behind

---
 include/co_ecs/base_registry.hpp | 64 +++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 13 deletions(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 2a5ea7a..d09620d 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -55,6 +55,9 @@ public:
     void destroy(entity ent) {
         auto location = get_location(ent);
 
+        // publish reserved entities now, this may fail
+        sync();
+
         // returns the entity that has been moved to a new location
         auto moved = location.archetype->swap_erase(location);
         remove_location(ent.id());
@@ -142,11 +145,35 @@ protected:
         // compile-time check to make sure all component types in parameter pack are unique
         [[maybe_unused]] detail::unique_types<Components...> uniqueness_check;
 
-        auto entity = allocate();
         auto archetype = _archetypes.ensure_archetype<Components...>();
-        auto location = archetype->template emplace<Components...>(entity, std::forward<Components>(args)...);
-        set_location(entity.id(), location);
-        return entity;
+        return create_with([&](entity ent) {
+            create_location(ent, [&] {
+                return archetype->template emplace<Components...>(ent, std::forward<Components>(args)...);
+            });
+        });
+    }
+
+    // Allocates an entity and calls func to fill it, the entity is not going to exist when that fails
+    constexpr auto create_with(auto&& func) -> entity {
+        auto ent = allocate();
+        try {
+            func(ent);
+        } catch (...) {
+            _entity_pool.recycle(ent);
+            throw;
+        }
+        return ent;
+    }
+
+    // Sets the location of a new entity to what func returns. All that may fail is done before func is through.
+    constexpr void create_location(entity ent, auto&& func) {
+        set_location(ent.id(), entity_location{});
+        try {
+            set_location(ent.id(), func());
+        } catch (...) {
+            remove_location(ent.id());
+            throw;
+        }
     }
 
     template<component C>
@@ -208,11 +235,13 @@ protected:
 
     entity move(entity ent, base_registry& dest) {
         assert((&dest != this) && "Move to the same registry does not make sense");
-        return move(ent, dest, dest.allocate());
+        ensure_alive(ent);
+        return dest.create_with([&](entity placeholder) { move(ent, dest, placeholder); });
     }
 
     entity copy(entity ent, base_registry& dest) const {
-        return copy(ent, dest, dest.allocate());
+        ensure_alive(ent);
+        return dest.create_with([&](entity placeholder) { copy(ent, dest, placeholder); });
     }
 
     entity move(entity ent, base_registry& dest, placeholder_entity placeholder) {
@@ -220,7 +249,15 @@ protected:
         auto* src_archetype = location.archetype;
         auto* dst_archetype = dest._archetypes.ensure_archetype(src_archetype->components());
 
-        auto [new_location, moved] = src_archetype->move(location, *dst_archetype);
+        // publish reserved entities now, this may fail
+        sync();
+
+        entity_location new_location;
+        std::optional<entity> moved;
+        dest.create_location(placeholder, [&] {
+            std::tie(new_location, moved) = src_archetype->move(location, *dst_archetype);
+            return new_location;
+        });
 
         remove_location(ent.id());
         if (moved && moved != ent) { // moved entity has been transfered to a different Registry
@@ -234,8 +271,6 @@ protected:
                  [new_location.chunk_index]                                  // find the Chunk the entity was moved to
              .ptr_unchecked<entity>(new_location.entry_index) = placeholder; // update entity value in the Chunk
 
-        dest.set_location(placeholder.get_entity().id(), new_location);
-
         return placeholder;
     }
 
@@ -243,7 +278,12 @@ protected:
         auto location = get_location(ent);
         auto* src_archetype = location.archetype;
         auto* dst_archetype = dest._archetypes.ensure_archetype(src_archetype->components());
-        auto new_location = src_archetype->copy(location, *dst_archetype);
+
+        entity_location new_location;
+        dest.create_location(placeholder, [&] {
+            new_location = src_archetype->copy(location, *dst_archetype);
+            return new_location;
+        });
 
         // TODO: handle inside Archetype
         *dst_archetype
@@ -251,13 +291,11 @@ protected:
                  [new_location.chunk_index]                                  // find the Chunk the EntityId was moved to
              .ptr_unchecked<entity>(new_location.entry_index) = placeholder; // update EntityId value in the Chunk
 
-        dest.set_location(placeholder.get_entity().id(), new_location);
-
         return placeholder;
     }
 
     entity clone(entity ent) {
-        return copy(ent, *this, allocate());
+        return copy(ent, *this);
     }
 
     entity clone(entity ent, placeholder_entity placeholder) {
-- 
2.43.0


From 206ddbe50b697f79fb340de191c12443811f1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 22/44] fix: setting a component whose constructor throws
 leaves the entity as it was

---
 include/co_ecs/base_registry.hpp | 34 +++++++++++++++++++-------------
 include/co_ecs/entity_ref.hpp    | 16 +++++++--------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index d09620d..ce11cb8 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -176,28 +176,34 @@ protected:
         }
     }
 
+    // Returns the component of an entity or nullptr if it does not have one
     template<component C>
-    constexpr auto set_impl(entity ent) -> std::pair<bool, C*> {
+    constexpr auto find_impl(entity ent) -> C* {
         auto& location = get_location(ent);
-        auto*& archetype = location.archetype;
+        auto* archetype = location.archetype;
 
-        if (archetype->contains<C>()) {
-            return { false, std::addressof(archetype->template get<C>(location)) };
-        } else {
-            auto new_archetype = _archetypes.ensure_archetype_added<C>(archetype);
-            auto [new_location, moved] = archetype->move(location, *new_archetype);
+        return archetype->contains<C>() ? std::addressof(archetype->template get<C>(location)) : nullptr;
+    }
 
-            auto ptr = std::addressof(new_archetype->template get<C>(new_location));
+    // Adds a component to an entity that does not have one
+    template<component C>
+    constexpr auto insert_impl(entity ent, C&& value) -> C& {
+        auto& location = get_location(ent);
+        auto*& archetype = location.archetype;
 
-            if (moved) {
-                set_location(moved->id(), location);
-            }
+        auto new_archetype = _archetypes.ensure_archetype_added<C>(archetype);
+        auto [new_location, moved] = archetype->move(location, *new_archetype);
 
-            archetype = new_archetype;
-            set_location(ent.id(), new_location);
+        auto ptr = std::construct_at(std::addressof(new_archetype->template get<C>(new_location)), std::move(value));
 
-            return { true, ptr };
+        if (moved) {
+            set_location(moved->id(), location);
         }
+
+        archetype = new_archetype;
+        set_location(ent.id(), new_location);
+
+        return *ptr;
     }
 
     template<component C>
diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index f1b7751..f64eaa0 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -148,11 +148,11 @@ public:
     /// @return C& Reference to the component C.
     template<component C>
     [[nodiscard]] constexpr auto get_or_insert(auto&&... args) -> C& {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<decltype(args)>(args)...);
+        if (auto* ptr = _registry.get().template find_impl<C>(_entity)) {
+            return *ptr;
         }
-        return *ptr;
+        // constructing the component may fail or use other components of this entity, so do it first
+        return _registry.get().template insert_impl<C>(_entity, C(std::forward<decltype(args)>(args)...));
     }
 
     /// @brief Set component to an entity. It can either override a component value that is already assigned to an
@@ -175,11 +175,11 @@ public:
     /// @return entity_ref Returns this entity to allow method chaining.
     template<component C, typename... Args>
     constexpr auto set(Args&&... args) -> entity_ref {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<Args>(args)...);
-        } else {
+        if (auto* ptr = _registry.get().template find_impl<C>(_entity)) {
             *ptr = C{ std::forward<Args>(args)... };
+        } else {
+            // constructing the component may fail or use other components of this entity, so do it first
+            _registry.get().template insert_impl<C>(_entity, C(std::forward<Args>(args)...));
         }
         return *this;
     }
-- 
2.43.0


From 5ac61c528cbfa14e441f373da84fe93ba9165b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 23/44] fix: querying a destroyed entity and throwing visitors
 report an exception

---
 include/co_ecs/chunk.hpp      | 6 +++---
 include/co_ecs/entity_ref.hpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 35d07bf..f765a60 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -200,14 +200,14 @@ public:
     /// @brief Visit components at given index
     /// @param index Index of an entity
     /// @param func Func to apply to components
-    constexpr void visit(std::size_t index, auto&& func) noexcept {
+    constexpr void visit(std::size_t index, auto&& func) {
         visit_impl(*this, index, std::forward<decltype(func)>(func));
     }
 
     /// @brief Visit components at given index
     /// @param index Index of an entity
     /// @param func Func to apply to components
-    constexpr void visit(std::size_t index, auto&& func) const noexcept {
+    constexpr void visit(std::size_t index, auto&& func) const {
         visit_impl(*this, index, std::forward<decltype(func)>(func));
     }
 
@@ -273,7 +273,7 @@ private:
         return std::align_val_t{ alignment };
     }
 
-    constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) noexcept {
+    constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) {
         assert((index < self._size) && "Entity index exceeds chunk size");
 
         constexpr auto is_const = std::is_const_v<std::remove_reference_t<decltype(self)>>;
diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index f64eaa0..bca9d13 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -28,7 +28,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -52,7 +52,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
@@ -368,7 +368,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -392,7 +392,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
-- 
2.43.0


From 75dbb93537a67c54d479d5a53e495f96a2ab62b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 24/44] fix: commands outlive the thread that recorded them

---
 include/co_ecs/command.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 720313a..8434b85 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -4,8 +4,11 @@
 #include <co_ecs/registry.hpp>
 
 #include <deque>
+#include <functional>
+#include <memory>
 #include <mutex>
 #include <variant>
+#include <vector>
 
 namespace co_ecs {
 
@@ -18,8 +21,8 @@ public:
     /// @brief Retrieves the thread-local command buffer instance.
     /// @return Reference to the thread-local command buffer.
     static auto get() -> command_buffer& {
-        static thread_local command_buffer buf;
-        return buf;
+        static thread_local std::shared_ptr<command_buffer> buf = create();
+        return *buf;
     }
 
     /// @brief Flushes all commands in the command buffers to the given registry.
@@ -28,22 +31,32 @@ public:
         registry.sync();
 
         std::lock_guard lk{ _mutex };
-        for (auto* command_buffer : _command_buffers) {
+        for (auto& command_buffer : _command_buffers) {
             command_buffer->play_commands(registry);
         }
+
+        // drop buffers of the threads that have exited
+        std::erase_if(_command_buffers, [](const auto& command_buffer) {
+            return command_buffer.use_count() == 1 && command_buffer->_commands.empty();
+        });
     }
 
 private:
     static inline std::mutex _mutex; ///< Mutex to synchronize access to the command buffers vector.
-    static inline std::vector<command_buffer*>
+    static inline std::vector<std::shared_ptr<command_buffer>>
         _command_buffers; ///< Vector containing all thread-local command buffers.
 
     friend class command_writer;
     friend class command_entity_ref;
 
-    command_buffer() {
+    command_buffer() = default;
+
+    // A buffer is shared with the list of all buffers, because commands outlive the thread which records them
+    static auto create() -> std::shared_ptr<command_buffer> {
+        std::shared_ptr<command_buffer> buf{ new command_buffer };
         std::lock_guard lk{ _mutex };
-        _command_buffers.push_back(this);
+        _command_buffers.push_back(buf);
+        return buf;
     }
 
     template<typename T>
-- 
2.43.0


From f4389d1bc402e0812f6259f7d382a208a44ccae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 25/44] fix: a component set by a command does not stay in the
 staging registry

---
 include/co_ecs/command.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 8434b85..785e1bf 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -181,8 +181,10 @@ public:
         _commands.push<command_buffer::command_set>(staging_entity,
             _entity,
             [](auto& staging_registry, auto staging_entity, auto& dest_registry, auto dest_entity) {
-                dest_registry.get_entity(dest_entity)
-                    .template set<C>(std::move(staging_registry.get_entity(staging_entity).template get<C>()));
+                auto staged = staging_registry.get_entity(staging_entity);
+                auto value = std::move(staged.template get<C>());
+                staged.destroy();
+                dest_registry.get_entity(dest_entity).template set<C>(std::move(value));
             });
         return *this;
     }
-- 
2.43.0


From a7f9312ecd3dc800a0d0e99ba2665248ce8eead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 26/44] fix: a failed create or clone command does not leave a
 reserved entity behind

---
 include/co_ecs/base_registry.hpp |  9 +++++++++
 include/co_ecs/command.hpp       | 21 ++++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index ce11cb8..9eef887 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -108,6 +108,15 @@ public:
         _entity_pool.flush();
     }
 
+    /// @brief Gives up an entity returned by \ref reserve() that is not going to be used.
+    /// @param placeholder Reserved entity
+    constexpr void release(placeholder_entity placeholder) {
+        sync();
+        if (!_entity_archetype_map.contains(placeholder.get_entity().id())) {
+            _entity_pool.recycle(placeholder);
+        }
+    }
+
     /// @brief Checks if the specified entity has all the given components.
     /// @tparam C Variadic template arguments representing the component types to check.
     /// @param ent The entity to check for component existence.
diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 785e1bf..5146900 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -83,7 +83,15 @@ private:
         }
 
         void execute(registry& staging, registry& destination) {
-            staging.get_entity(_staging_entity).move(destination, _reserved);
+            auto staged = staging.get_entity(_staging_entity);
+            try {
+                staged.move(destination, _reserved);
+            } catch (...) {
+                // this command is not going to be applied again
+                staged.destroy();
+                destination.release(_reserved);
+                throw;
+            }
         }
 
     private:
@@ -97,7 +105,13 @@ private:
         }
 
         void execute(registry& staging, registry& destination) {
-            destination.get_entity(_entity).clone(_reserved);
+            try {
+                destination.get_entity(_entity).clone(_reserved);
+            } catch (...) {
+                // this command is not going to be applied again
+                destination.release(_reserved);
+                throw;
+            }
         }
 
     private:
@@ -267,8 +281,9 @@ public:
     /// @return A reference to the newly created command entity.
     template<component... Args>
     auto create(Args&&... args) -> command_entity_ref {
-        auto entity = _reg.reserve();
+        // may fail, so do it before an entity is reserved
         auto staging_entity = _cmds.staging().template create<Args...>(std::forward<Args>(args)...);
+        auto entity = _reg.reserve();
         _cmds.push<command_buffer::command_create>(staging_entity, entity);
         return command_entity_ref{ _cmds, _reg, entity.get_entity() };
     }
-- 
2.43.0


From 37bc811c15f2d82de0b71de4ac40c52b9b4363fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 27/44] fix: a system with exclusive registry access does not
 run next to any other system

---
 include/co_ecs/system/access.hpp | 2 +-
 include/co_ecs/system/stage.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/system/access.hpp b/include/co_ecs/system/access.hpp
index f3dc4b5..44068a2 100644
--- a/include/co_ecs/system/access.hpp
+++ b/include/co_ecs/system/access.hpp
@@ -42,7 +42,7 @@ public:
     /// @param other The other access pattern to check against.
     /// @return True if this access pattern allows the other, false otherwise.
     [[nodiscard]] auto allows(const access_pattern_t& other) const noexcept -> bool {
-        if ((writes_all() && other.reads_all()) || (reads_all() && !other.reads_all())) {
+        if (writes_all() || other.writes_all() || (reads_all() && !other.reads_all())) {
             return false;
         }
 
diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 1a2b453..eed2b65 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -82,7 +82,7 @@ public:
                 auto executor = _systems[i]->create_executor(registry, user_context);
                 auto system_access_pattern = executor->access_pattern();
 
-                if (!access_pattern.allows(system_access_pattern)) {
+                if (!executor_set.empty() && !access_pattern.allows(system_access_pattern)) {
                     ++i;
                     continue;
                 }
-- 
2.43.0


From df86c5e18a7a5c7f3b1d5674bafe240b31ae56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 28/44] fix: main thread systems run once per stage run and not
 next to systems they conflict with

---
 include/co_ecs/system/stage.hpp | 79 ++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index eed2b65..0d805f0 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -9,6 +9,12 @@ namespace co_ecs {
 /// This type alias defines a vector of unique pointers to system executor interfaces.
 using vector_of_executors_t = std::vector<std::unique_ptr<system_executor_interface>>;
 
+/// @brief Systems of a stage that are executed at the same time.
+struct executor_batch {
+    vector_of_executors_t executors;             ///< Systems executed by any worker.
+    vector_of_executors_t main_thread_executors; ///< Systems executed one after another by the main thread.
+};
+
 class stage_executor;
 class schedule;
 
@@ -72,34 +78,51 @@ public:
     /// @param user_context Optional user context.
     /// @return Unique pointer to the created stage executor.
     auto create_executor(registry& registry, void* user_context = nullptr) -> std::unique_ptr<stage_executor> {
-        std::vector<vector_of_executors_t> executors{};
+        vector_of_executors_t executors;
+        for (auto& system : _systems) {
+            executors.emplace_back(system->create_executor(registry, user_context));
+        }
+
+        // Main thread systems
+        vector_of_executors_t main_thread_executors;
+        for (auto& system : _main_thread_systems) {
+            main_thread_executors.emplace_back(system->create_executor(registry, user_context));
+        }
+
+        std::vector<executor_batch> batches{};
 
-        while (!_systems.empty()) {
+        while (!executors.empty() || !main_thread_executors.empty()) {
+            executor_batch& batch = batches.emplace_back();
             access_pattern_t access_pattern;
-            vector_of_executors_t& executor_set = executors.emplace_back();
 
-            for (size_t i = 0; i < _systems.size();) {
-                auto executor = _systems[i]->create_executor(registry, user_context);
-                auto system_access_pattern = executor->access_pattern();
+            for (size_t i = 0; i < executors.size();) {
+                auto system_access_pattern = executors[i]->access_pattern();
 
-                if (!executor_set.empty() && !access_pattern.allows(system_access_pattern)) {
+                if (!batch.executors.empty() && !access_pattern.allows(system_access_pattern)) {
                     ++i;
                     continue;
                 }
 
                 access_pattern &= system_access_pattern;
-                executor_set.emplace_back(std::move(executor));
-                _systems.erase(_systems.begin() + i);
+                batch.executors.emplace_back(std::move(executors[i]));
+                executors.erase(executors.begin() + i);
             }
-        }
 
-        // Main thread systems
-        vector_of_executors_t main_thread_executors;
-        for (auto& system : _main_thread_systems) {
-            main_thread_executors.emplace_back(system->create_executor(registry, user_context));
+            // Systems executed in the meantime by the main thread: they run one after another, so only the systems above
+            // have to allow them
+            for (size_t i = 0; i < main_thread_executors.size();) {
+                if (!batch.executors.empty()
+                    && !access_pattern.allows(main_thread_executors[i]->access_pattern())) {
+                    ++i;
+                    continue;
+                }
+
+                batch.main_thread_executors.emplace_back(std::move(main_thread_executors[i]));
+                main_thread_executors.erase(main_thread_executors.begin() + i);
+            }
         }
 
-        return std::make_unique<stage_executor>(_name, std::move(executors), std::move(main_thread_executors));
+        return std::make_unique<stage_executor>(_name, std::move(batches));
     }
 
 private:
@@ -140,32 +163,27 @@ public:
     /// @brief Constructs a new stage executor.
     ///
     /// @param name Name of the stage.
-    /// @param executor_set Set of system executors.
-    /// @param main_thread_executors Main thread system executors.
-    explicit stage_executor(std::string_view name,
-        std::vector<vector_of_executors_t> executor_set,
-        vector_of_executors_t main_thread_executors) :
-        _executor_set(std::move(executor_set)), _main_thread_executors(std::move(main_thread_executors)), _name(name) {
+    /// @param batches Batches of system executors.
+    explicit stage_executor(std::string_view name, std::vector<executor_batch> batches) :
+        _batches(std::move(batches)), _name(name) {
     }
 
     /// @brief Runs all systems in the stage.
     void run() {
-        for (auto& executors : _executor_set) {
-            execute_batch(executors);
+        for (auto& batch : _batches) {
+            execute_batch(batch);
         }
     }
 
 private:
     /// @brief Executes a batch of systems.
     ///
-    /// @tparam WorkBatch Type of the work batch.
-    /// @param work_batch The batch of work to be executed.
-    template<typename WorkBatch>
-    void execute_batch(WorkBatch&& work_batch) {
+    /// @param batch The batch of work to be executed.
+    void execute_batch(executor_batch& batch) {
         task_t* parent{};
         thread_pool& _thread_pool = thread_pool::get();
 
-        for (auto& work_item : work_batch) {
+        for (auto& work_item : batch.executors) {
             auto task = _thread_pool.submit([&work_item]() { work_item->run(); }, parent);
             if (!parent) {
                 parent = task;
@@ -173,7 +191,7 @@ private:
         }
 
         // in the meantime execute main thread systems
-        for (auto& executor : _main_thread_executors) {
+        for (auto& executor : batch.main_thread_executors) {
             executor->run();
         }
 
@@ -183,8 +201,7 @@ private:
     }
 
 private:
-    std::vector<vector_of_executors_t> _executor_set;
-    vector_of_executors_t _main_thread_executors;
+    std::vector<executor_batch> _batches;
     std::string_view _name;
 };
 
-- 
2.43.0


From fc08b7453a4d2d1fa96205850d7c4f9fa5639c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 29/44] fix: beginning a stage does not invalidate references
 to the previous ones

---
 include/co_ecs/system/schedule.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/system/schedule.hpp b/include/co_ecs/system/schedule.hpp
index 77f40d5..fe52187 100644
--- a/include/co_ecs/system/schedule.hpp
+++ b/include/co_ecs/system/schedule.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <deque>
+
 #include <co_ecs/registry.hpp>
 #include <co_ecs/thread_pool/thread_pool.hpp>
 
@@ -58,7 +60,7 @@ public:
 
 private:
     stage _init_stage{ *this };
-    std::vector<stage> _stages;
+    std::deque<stage> _stages; // stages stay where they are, begin_stage() hands out references
 };
 
 /// @class schedule_executor
-- 
2.43.0


From c2f9f613cb8b556fd9865a157246a07e31cf6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 30/44] fix: a command that cannot be recorded leaves nothing
 staged or reserved

---
 include/co_ecs/command.hpp | 40 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 5146900..68557c0 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -59,9 +59,21 @@ private:
         return buf;
     }
 
+    // Constructs the command in place, i.e. after the memory for it has been allocated
     template<typename T>
-    void push(auto&&... args) {
-        _commands.emplace_back(T{ std::forward<decltype(args)>(args)... });
+    auto push(auto&&... args) -> T& {
+        return std::get<T>(_commands.emplace_back(std::in_place_type<T>, std::forward<decltype(args)>(args)...));
+    }
+
+    // Pushes a command for a staged entity, which is not going to stay staged if that fails
+    template<typename T>
+    auto push_staged(entity staged, auto&&... args) -> T& {
+        try {
+            return push<T>(staged, std::forward<decltype(args)>(args)...);
+        } catch (...) {
+            _staging.destroy(staged);
+            throw;
+        }
     }
 
     auto staging() noexcept -> registry& {
@@ -79,7 +91,11 @@ private:
 
     class command_create {
     public:
-        command_create(entity ent, placeholder_entity reserved) : _staging_entity(ent), _reserved(reserved) {
+        command_create(entity ent, registry& registry) : _staging_entity(ent), _reserved(registry.reserve()) {
+        }
+
+        [[nodiscard]] auto get_entity() const noexcept -> entity {
+            return _reserved.get_entity();
         }
 
         void execute(registry& staging, registry& destination) {
@@ -101,7 +117,11 @@ private:
 
     class command_clone {
     public:
-        command_clone(entity ent, placeholder_entity reserved) : _entity(ent), _reserved(reserved) {
+        command_clone(entity ent, registry& registry) : _entity(ent), _reserved(registry.reserve()) {
+        }
+
+        [[nodiscard]] auto get_entity() const noexcept -> entity {
+            return _reserved.get_entity();
         }
 
         void execute(registry& staging, registry& destination) {
@@ -192,7 +212,7 @@ public:
     template<component C, typename... Args>
     auto set(Args&&... args) -> command_entity_ref& {
         auto staging_entity = _commands.staging().template create<C>(C{ std::forward<Args>(args)... });
-        _commands.push<command_buffer::command_set>(staging_entity,
+        _commands.push_staged<command_buffer::command_set>(staging_entity,
             _entity,
             [](auto& staging_registry, auto staging_entity, auto& dest_registry, auto dest_entity) {
                 auto staged = staging_registry.get_entity(staging_entity);
@@ -221,9 +241,8 @@ public:
     /// @brief Clones the entity.
     /// @return A reference to the cloned command_entity_ref.
     auto clone() const -> command_entity_ref {
-        auto entity = _registry.reserve();
-        _commands.push<command_buffer::command_clone>(_entity, entity);
-        return command_entity_ref{ _commands, _registry, entity.get_entity() };
+        auto& command = _commands.push<command_buffer::command_clone>(_entity, _registry);
+        return command_entity_ref{ _commands, _registry, command.get_entity() };
     }
 
     /// @brief Conversion operator to entity.
@@ -283,9 +302,8 @@ public:
     auto create(Args&&... args) -> command_entity_ref {
         // may fail, so do it before an entity is reserved
         auto staging_entity = _cmds.staging().template create<Args...>(std::forward<Args>(args)...);
-        auto entity = _reg.reserve();
-        _cmds.push<command_buffer::command_create>(staging_entity, entity);
-        return command_entity_ref{ _cmds, _reg, entity.get_entity() };
+        auto& command = _cmds.push_staged<command_buffer::command_create>(staging_entity, _reg);
+        return command_entity_ref{ _cmds, _reg, command.get_entity() };
     }
 
     /// @brief Destroys an existing entity.
-- 
2.43.0


From c9758a888a6baec0d42f3a0097adbb8af91fc610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:53 +0000
Subject: [PATCH 31/44] fix: post-incrementing a hash_table iterator terminates

---
 include/co_ecs/detail/hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 3aeb7eb..815875a 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -222,7 +222,7 @@ private:
         /// @return iterator_impl& Iterator
         constexpr auto operator++(int) noexcept -> iterator_impl {
             iterator_impl tmp(*this);
-            *this ++;
+            ++*this;
             return tmp;
         }
 
-- 
2.43.0


From fdc5e06cbf0f369c25ccb1f656abd52f3336bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 32/44] fix: a failed copy assignment leaves a sparse_table as
 it was

---
 include/co_ecs/detail/sparse_table.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index 1921d26..42b4bb7 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -68,7 +68,11 @@ public:
     ///
     /// @param rhs Sparse container to copy from
     /// @return Container data from rhs copied to
-    constexpr auto operator=(const sparse_table& rhs) -> sparse_table& = default;
+    constexpr auto operator=(const sparse_table& rhs) -> sparse_table& {
+        sparse_table copy(rhs);
+        *this = std::move(copy);
+        return *this;
+    }
 
     /// @brief Destructor
     constexpr ~sparse_table() = default;
-- 
2.43.0


From 77b8d5cb90238bc79edd1a2250a0899e4009ffbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:15 +0000
Subject: [PATCH 33/44] fix: moving a hash_table does not allocate

---
 include/co_ecs/detail/hash_table.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 815875a..9971454 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 #include <co_ecs/detail/bits.hpp>
@@ -407,8 +408,10 @@ public:
     /// @brief Move copy constructor
     ///
     /// @param rhs Right hand side
-    constexpr hash_table(hash_table&& rhs) noexcept {
-        swap(std::move(rhs));
+    constexpr hash_table(hash_table&& rhs) noexcept :
+        _size(std::exchange(rhs._size, 0)), _buckets(std::move(rhs._buckets)), _info(std::move(rhs._info)),
+        _equal(rhs._equal), _hash(rhs._hash) {
+        // rhs is left with no buckets
     }
 
     /// @brief Move assignment operator
@@ -689,6 +692,9 @@ private:
     template<typename C>
     void erase_impl(C&& key) {
         size_type bucket_size = _buckets.size();
+        if (bucket_size == 0) {
+            return;
+        }
 
         size_type hash = _hash(key);
         size_type psl = 0;
@@ -749,7 +755,9 @@ private:
         value_type value(std::forward<Args>(args)...);
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
-        if (_size > threshold) {
+        if (buckets_size == 0) {
+            reserve(default_bucket_count);
+        } else if (_size > threshold) {
             const auto new_size = buckets_size << size_type{ 1 };
             reserve(new_size);
         }
@@ -763,7 +771,9 @@ private:
         value_type value(std::forward<Args>(args)...);
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
-        if (_size > threshold) {
+        if (buckets_size == 0) {
+            reserve(default_bucket_count);
+        } else if (_size > threshold) {
             const auto new_size = buckets_size << size_type{ 1 };
             reserve(new_size);
         }
-- 
2.43.0


From 1d50d2654e1c8a2053a3187c9d7ca5369130ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 34/44] fix: a hash_table does not shrink below the initial
 number of buckets

---
 include/co_ecs/detail/hash_table.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 9971454..67ae962 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <bit>
 #include <cassert>
 #include <memory>
@@ -618,7 +619,7 @@ public:
         }
 
         // the number of buckets has to be a power of two
-        hash_table h_table(std::bit_ceil(new_size), _hash, _equal, _buckets.allocator());
+        hash_table h_table(std::bit_ceil(std::max(new_size, default_bucket_count)), _hash, _equal, _buckets.allocator());
 
         for (auto& value : *this) {
             h_table._emplace_impl(std::move(value));
-- 
2.43.0


From f8018d762ea26e7768fa635bcf9bdf186362843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 35/44] fix: a thread whose task buffer could not be allocated
 was left without one

---
 include/co_ecs/thread_pool/task.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index a5455f6..7d3c468 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -87,6 +87,8 @@ public:
 private:
     /// @brief Returns the next task in the circular buffer that may be overwritten.
     static task_t& next() {
+        auto& _tasks = tasks();
+
         while (true) {
             if (_tasks.empty() || _skipped > _tasks.size() / 4) {
                 _task_counter = _tasks.size();
@@ -109,9 +111,14 @@ private:
         }
     }
 
+    /// @brief Returns the circular buffer of the thread. Creating it may fail, it is attempted again by the next call.
+    static std::deque<task_t>& tasks() {
+        static thread_local std::deque<task_t> tasks;
+        return tasks;
+    }
+
     static inline thread_local std::size_t _task_counter; ///< Index of the next task in the buffer.
     static inline thread_local std::size_t _skipped;      ///< Unfinished tasks met in this pass over the buffer.
-    static inline thread_local std::deque<task_t> _tasks; ///< Circular buffer of tasks.
 };
 
 } // namespace co_ecs
-- 
2.43.0


From 13cb5bfb31e652a9f60b98908267ca5cfef9134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 36/44] fix: a task that could not be queued kept its parent
 unfinished forever

---
 include/co_ecs/thread_pool/task.hpp        | 5 +++++
 include/co_ecs/thread_pool/thread_pool.hpp | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 7d3c468..e6a3cb9 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -31,6 +31,11 @@ public:
         finish();
     }
 
+    /// @brief Marks the task as completed without executing its function.
+    void cancel() {
+        finish();
+    }
+
     /// @brief Checks if the task has been completed.
     /// @return True if the task is completed, otherwise false.
     bool is_completed() const noexcept {
diff --git a/include/co_ecs/thread_pool/thread_pool.hpp b/include/co_ecs/thread_pool/thread_pool.hpp
index 78bac8d..9cbb1ff 100644
--- a/include/co_ecs/thread_pool/thread_pool.hpp
+++ b/include/co_ecs/thread_pool/thread_pool.hpp
@@ -65,7 +65,13 @@ public:
         /// @param parent Parent task pointer
         task_t* submit(auto&& func, task_t* parent = nullptr) {
             task_t* task = task_pool::allocate(std::forward<decltype(func)>(func), parent);
-            submit(task);
+            try {
+                submit(task);
+            } catch (...) {
+                // nobody is going to execute it, do not keep those waiting who wait for its parent
+                task->cancel();
+                throw;
+            }
             return task;
         }
 
-- 
2.43.0


From 56d43499d68b6c4046cab83b6447e900602808cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 37/44] fix: parallel_for failed while batches referring to its
 variables were still running

---
 include/co_ecs/thread_pool/parallel_for.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/thread_pool/parallel_for.hpp b/include/co_ecs/thread_pool/parallel_for.hpp
index c0d8e5c..50709bb 100644
--- a/include/co_ecs/thread_pool/parallel_for.hpp
+++ b/include/co_ecs/thread_pool/parallel_for.hpp
@@ -40,11 +40,19 @@ void parallel_for(R&& range, auto&& func) {
         // submit batches
         {
             task_t* parent = nullptr;
-            for (auto& batch : batches) {
-                auto* task = thread_pool.submit([&batch, &func]() { std::ranges::for_each(batch, func); }, parent);
-                if (!parent) {
-                    parent = task;
+            try {
+                for (auto& batch : batches) {
+                    auto* task = thread_pool.submit([&batch, &func]() { std::ranges::for_each(batch, func); }, parent);
+                    if (!parent) {
+                        parent = task;
+                    }
                 }
+            } catch (...) {
+                // the batches submitted so far refer to this function's variables
+                if (parent) {
+                    thread_pool.wait(parent);
+                }
+                throw;
             }
             thread_pool.wait(parent);
         }
-- 
2.43.0


From 75b2b76566435e6bd7e43c9072c4610c699dff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 38/44] fix: a failing stage left systems running

---
 include/co_ecs/system/stage.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 0d805f0..2346768 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -183,16 +183,24 @@ private:
         task_t* parent{};
         thread_pool& _thread_pool = thread_pool::get();
 
-        for (auto& work_item : batch.executors) {
-            auto task = _thread_pool.submit([&work_item]() { work_item->run(); }, parent);
-            if (!parent) {
-                parent = task;
+        try {
+            for (auto& work_item : batch.executors) {
+                auto task = _thread_pool.submit([&work_item]() { work_item->run(); }, parent);
+                if (!parent) {
+                    parent = task;
+                }
             }
-        }
 
-        // in the meantime execute main thread systems
-        for (auto& executor : batch.main_thread_executors) {
-            executor->run();
+            // in the meantime execute main thread systems
+            for (auto& executor : batch.main_thread_executors) {
+                executor->run();
+            }
+        } catch (...) {
+            // do not leave systems running
+            if (parent) {
+                _thread_pool.wait(parent);
+            }
+            throw;
         }
 
         if (parent) {
-- 
2.43.0


From 35decfa15ff7de0fc7581e2e141ba94e93d81f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 39/44] fix: a thread whose scratch memory could not be
 allocated handed out null pointers

---
 .../co_ecs/detail/allocator/temp_allocator.hpp   | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/co_ecs/detail/allocator/temp_allocator.hpp b/include/co_ecs/detail/allocator/temp_allocator.hpp
index 5cb4037..850a0a0 100644
--- a/include/co_ecs/detail/allocator/temp_allocator.hpp
+++ b/include/co_ecs/detail/allocator/temp_allocator.hpp
@@ -6,12 +6,12 @@ namespace co_ecs::detail {
 
 constexpr auto global_stack_allocator_size = 16ull * 1024 * 1024; // 16 MB
 
-static thread_local inline std::unique_ptr<uint8_t[]> global_stack_allocator_buffer(
-    new uint8_t[global_stack_allocator_size]);
-
-/// @brief Global stack allocator
-static thread_local inline stack_allocator global_stack_allocator{ global_stack_allocator_buffer.get(),
-    global_stack_allocator_size };
+/// @brief Global stack allocator of the thread. Creating it may fail, it is attempted again by the next call.
+inline auto global_stack_allocator() -> stack_allocator& {
+    static thread_local std::unique_ptr<uint8_t[]> buffer(new uint8_t[global_stack_allocator_size]);
+    static thread_local stack_allocator allocator{ buffer.get(), global_stack_allocator_size };
+    return allocator;
+}
 
 /// @brief Frame allocator, use for temporary allocations
 /// @tparam T Type
@@ -37,7 +37,7 @@ public:
     /// @param n Elements to allocate
     /// @return Pointer to allocated memory
     [[nodiscard]] constexpr T* allocate(std::size_t n) {
-        auto* ptr = static_cast<T*>(global_stack_allocator.allocate(n * sizeof(T), alignof(T)));
+        auto* ptr = static_cast<T*>(global_stack_allocator().allocate(n * sizeof(T), alignof(T)));
         if (!ptr) {
             throw std::bad_alloc{};
         }
@@ -49,7 +49,7 @@ public:
     /// @param n Number of elements to allocate (must be the same as passed to the corresponding allocate() p is
     /// obtained from)
     constexpr void deallocate(T* p, [[maybe_unused]] std::size_t n) {
-        return global_stack_allocator.deallocate(p);
+        return global_stack_allocator().deallocate(p);
     }
 };
 
-- 
2.43.0


From 6c45d7cd2561952b5ac64917bb182300e02a0273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 40/44] fix: work_stealing_queue leaked an array when memory
 was exhausted

---
 include/co_ecs/detail/work_stealing_queue.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/work_stealing_queue.hpp b/include/co_ecs/detail/work_stealing_queue.hpp
index 4e8224d..2e2400a 100644
--- a/include/co_ecs/detail/work_stealing_queue.hpp
+++ b/include/co_ecs/detail/work_stealing_queue.hpp
@@ -20,8 +20,9 @@ public:
         assert((mod_2n(capacity, 2) == 0) && "Capacity must be a power of two");
         _top.store(0, std::memory_order_relaxed);
         _bottom.store(0, std::memory_order_relaxed);
-        _array.store(new array{capacity}, std::memory_order_relaxed);
+        // may fail as well, so before the array is allocated
         _garbage.reserve(32);
+        _array.store(new array{capacity}, std::memory_order_relaxed);
     }
 
     work_stealing_queue(const work_stealing_queue& rhs) = delete;
@@ -64,6 +65,8 @@ public:
         auto* array = _array.load(std::memory_order::relaxed);
 
         if (array->capacity() - 1 < (bottom - top)) {
+            // adding to it must not fail, the new array would be lost
+            _garbage.reserve(_garbage.size() + 1);
             auto* tmp = array->grow(bottom, top);
             _garbage.push_back(array);
             std::swap(array, tmp);
-- 
2.43.0


From 597396a441bbffa4f6ccde662ec5e57ae81430a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 41/44] fix: a task buffer that could not be allocated
 completely reused tasks too early

---
 include/co_ecs/thread_pool/task.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index e6a3cb9..6f241c8 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -96,11 +96,11 @@ private:
 
         while (true) {
             if (_tasks.empty() || _skipped > _tasks.size() / 4) {
-                _task_counter = _tasks.size();
+                // either grows as a whole or fails, a shorter buffer would reuse tasks too early
+                const auto size = _tasks.size();
+                _tasks.resize(size + max_tasks);
+                _task_counter = size;
                 _skipped = 0;
-                while (_tasks.size() < _task_counter + max_tasks) {
-                    _tasks.emplace_back();
-                }
             }
 
             if (_task_counter == _tasks.size()) {
-- 
2.43.0


From 342eb8e433c8c5f0d26d58899f8b2578c69eb72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 42/44] fix: stack_allocator allocated beyond its buffer when
 no byte was left

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index e4d604d..158ead5 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -52,6 +52,11 @@ public:
         assert(is_power_of_2(alignment) && "Alignment must be a power of two");
         assert((alignment <= std::numeric_limits<padding_t>::max()) && "Alignment is out of range");
 
+        // No space left for the allocation header
+        if (remaining() < sizeof(alloc_header)) {
+            return nullptr;
+        }
+
         // Get the top of the stack
         char* top = _start + _offset;
         // Get the pointer to the top + 1 allocation header
-- 
2.43.0


From c79b3a264ac72cf486ba8376887fdc92bc2c7685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 43/44] fix: a moved stack_allocator forgot what it had
 allocated

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index 158ead5..ae876ef 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -32,7 +32,8 @@ public:
     /// @brief Move constructor
     /// @param rhs Other allocator
     stack_allocator(stack_allocator&& rhs) noexcept :
-        _start(std::exchange(rhs._start, nullptr)), _size(std::exchange(rhs._size, 0)) {
+        _start(std::exchange(rhs._start, nullptr)), _offset(std::exchange(rhs._offset, 0)),
+        _size(std::exchange(rhs._size, 0)) {
     }
 
     /// @brief Move assignment
@@ -40,6 +41,7 @@ public:
     /// @return Allocator
     stack_allocator& operator=(stack_allocator&& rhs) noexcept {
         _start = std::exchange(rhs._start, nullptr);
+        _offset = std::exchange(rhs._offset, 0);
         _size = std::exchange(rhs._size, 0);
         return *this;
     }
-- 
2.43.0


From 9721075c5a9db5a18568d70b9ace52fa4532102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 44/44] fix: systems that read everything ran next to ones that
 read everything and write a component

---
 include/co_ecs/system/access.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/co_ecs/system/access.hpp b/include/co_ecs/system/access.hpp
index 44068a2..0f78283 100644
--- a/include/co_ecs/system/access.hpp
+++ b/include/co_ecs/system/access.hpp
@@ -52,6 +52,12 @@ public:
             }
         }
 
+        for (auto [component_id, access] : other._component_access) {
+            if (access == access_type::write && reads(component_id)) {
+                return false;
+            }
+        }
+
         return true;
     }
 
-- 
2.43.0

