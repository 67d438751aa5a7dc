From aab9b232464112e40284d31fb5302afd98b3d641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 01/43] fix: moving an awonvm_vector loses its size and its
 committed flag

The move constructor did not copy the size nor the committed flag, and the
destructor of the moved-from vector committed it and closed descriptor 0.
---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 087f142..2be8f3e 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -173,14 +173,22 @@ template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
     : m_filename(vec.m_filename), m_use_direct_io(vec.m_use_direct_io),
       m_fd(vec.m_fd), m_device_page_size(vec.m_device_page_size),
-      m_io_scheduler(std::move(vec.m_io_scheduler))
+      m_size(vec.m_size.load()), m_is_committed(vec.m_is_committed.load()),
+      m_io_scheduler(std::move(vec.m_io_scheduler)),
+      m_io_warn_flag(vec.m_io_warn_flag)
 {
-    vec.m_fd = 0;
+    // the moved-from vector does not own the file anymore
+    vec.m_fd = -1;
 }
 
 template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::~awonvm_vector()
 {
+    if (m_fd < 0) {
+        // the vector has been moved
+        return;
+    }
+
     if (!m_is_committed) {
         commit();
     } else {
-- 
2.43.0


From ce7f368365050f7432084ae0436364da04a153ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 02/43] fix: reading an awonvm_vector at index size() is not
 refused

The bounds checks let the first index past the end through (ending in a short
read), and async_gets leaked the buffers of a refused batch.
---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 2be8f3e..5af641c 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -341,7 +341,7 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 template<typename T, size_t ALIGNMENT>
 T awonvm_vector<T, ALIGNMENT>::get(size_t index)
 {
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -383,7 +383,7 @@ void awonvm_vector<T, ALIGNMENT>::async_get(size_t            index,
         m_io_warn_flag = true;
     }
 
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -445,14 +445,16 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     std::vector<Scheduler::PReadSumission> submissions;
     submissions.reserve(requests.size());
 
+    // check all the requests before allocating anything
     for (const auto& req : requests) {
-        if (req.index > m_size.load()) {
+        if (req.index >= m_size.load()) {
             throw std::invalid_argument("Index (" + std::to_string(req.index)
                                         + ") out of bounds (size="
                                         + std::to_string(m_size.load()) + ")");
         }
+    }
 
-
+    for (const auto& req : requests) {
         void* buffer;
         int   ret = posix_memalign(
             (&buffer), ALIGNMENT, std::max(ALIGNMENT, sizeof(T)));
@@ -469,6 +471,8 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
 
             if (res == sizeof(T)) {
                 result.reset(reinterpret_cast<T*>(buf));
+            } else {
+                free(buf); // avoid memory leaks
             }
 
             get_callback(std::move(result));
-- 
2.43.0


From 8720bc9a13e6300f7908739370192e20ad1dbda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 03/43] fix: synchronous appends to an awonvm_vector ignore
 their position

push_back wrote at the file offset, which asynchronous appends do not move:
mixing both kinds of appends overwrote elements.
---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 5af641c..97fada5 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -228,11 +228,11 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
     }
 
     size_t pos = m_size.fetch_add(1);
-    // off_t  off = pos * sizeof(T);
+    off_t  off = pos * sizeof(T);
 
-    // fix issue with the alignment of val
-    // int res = pwrite(m_fd, &val, sizeof(T), off);
-    int res = write(m_fd, &val, sizeof(T));
+    // write at the position of the element: the file offset is not updated by
+    // the asynchronous writes
+    ssize_t res = pwrite(m_fd, &val, sizeof(T), off);
 
     if (res != sizeof(T)) {
         std::cerr << "Error during pwrite: " << res << "\n";
@@ -240,6 +240,9 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
         std::cerr << "errno " + std::to_string(errno) << "(" << strerror(errno)
                   << ")\n";
 
+        // give the position back
+        size_t next = pos + 1;
+        m_size.compare_exchange_strong(next, pos);
 
         throw std::runtime_error("Error during pwrite: " + std::to_string(res));
     }
-- 
2.43.0


From 2d62b683710a4f6cce7c4551be6aa43a6ea4752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 04/43] fix: refused asynchronous calls on an awonvm_vector
 have effects

async_push_back was accepted on a committed vector, and kept its position (and
leaked its buffer) when the submission was refused; async_gets freed buffers
still in use after a partial submission.
---
 .../sse/schemes/abstractio/awonvm_vector.hpp    | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 97fada5..cf05f32 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -253,6 +253,11 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
 template<typename T, size_t ALIGNMENT>
 size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
 {
+    if (m_is_committed) {
+        throw std::runtime_error(
+            "Invalid state during write: the vector is committed");
+    }
+
     if (!m_io_scheduler) {
         throw std::runtime_error("No IO Scheduler set");
     }
@@ -290,6 +295,12 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
     ret = m_io_scheduler->submit_pwrite(m_fd, buf, sizeof(T), off, buf, cb);
 
     if (ret != 1) {
+        free(buf);
+
+        // give the position back
+        size_t next = pos + 1;
+        m_size.compare_exchange_strong(next, pos);
+
         // we should have a specific exception type here to be able to return
         // which position was corrupted
         throw std::runtime_error("Error when submitting the read async IO: "
@@ -488,8 +499,10 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     int ret = m_io_scheduler->submit_preads(submissions);
 
     if (ret < 0 || static_cast<size_t>(ret) != submissions.size()) {
-        for (auto& sub : submissions) {
-            free(sub.buf);
+        // the first submissions, if any, have been accepted: their buffers are
+        // still in use
+        for (size_t i = (ret < 0) ? 0 : ret; i < submissions.size(); i++) {
+            free(submissions[i].buf);
         }
 
         throw std::runtime_error(
-- 
2.43.0


From 6b59d74996eaf7f62fba3c740e91f1b31827b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 05/43] fix: an awonvm_vector reopens with the size that was
 reserved

The space reserved in excess was kept at commit, and counted as elements when
reopening. Also, switching direct access without a scheduler crashed.
---
 .../sse/schemes/abstractio/awonvm_vector.hpp  | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index cf05f32..c49b9d9 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -325,6 +325,17 @@ void awonvm_vector<T, ALIGNMENT>::commit() noexcept
         } else {
             fsync(m_fd);
         }
+
+        // give back the space that was reserved, but not used: the size of the
+        // vector is deduced from the size of the file when reopening it
+        off_t used_size = m_size.load() * sizeof(T);
+        if (utility::file_size(m_fd) > used_size
+            && ftruncate(m_fd, used_size) != 0) {
+            sse::logger::logger()->error(
+                "Unable to release the unused space of awonvm_vector. Error: "
+                "{}",
+                strerror(errno));
+        }
     }
     m_is_committed = true;
 }
@@ -334,7 +345,9 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 {
     if (flag != m_use_direct_io) {
         // wait for unfinished async IOs
-        m_io_scheduler->wait_completions();
+        if (m_io_scheduler) {
+            m_io_scheduler->wait_completions();
+        }
 
         // close the current file descriptor
         close(m_fd);
@@ -344,8 +357,10 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 
 
         // recreate an async scheduler
-        Scheduler* new_sched = m_io_scheduler->duplicate();
-        m_io_scheduler.reset(new_sched);
+        if (m_io_scheduler) {
+            Scheduler* new_sched = m_io_scheduler->duplicate();
+            m_io_scheduler.reset(new_sched);
+        }
 
         m_use_direct_io = flag;
         m_io_warn_flag  = false;
-- 
2.43.0


From cac630221a0296beeb5509c43147d75fd4526a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 06/43] fix: submitting to a busy Linux AIO queue can block for
 ever

When the last completions were notified between the EAGAIN answer and the
wait on the condition variable, nothing woke the submitter up anymore.
---
 lib/abstractio/linux_aio_scheduler.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index bd41073..85fde7a 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -6,6 +6,7 @@
 #include "utils/utils.hpp"
 
 #include <cassert>
+#include <chrono>
 #include <climits>
 #include <libaio.h>
 
@@ -16,6 +17,9 @@ namespace abstractio {
 
 static constexpr size_t kMaxNr = 128;
 
+// delay before retrying a submission when the submission queue is full
+static constexpr std::chrono::milliseconds kSubmissionRetryDelay(10);
+
 LinuxAIOScheduler::LinuxAIOScheduler(const size_t   page_size,
                                      const unsigned nr_events)
     : m_ioctx(nullptr), m_page_size(page_size), m_nr_events(nr_events),
@@ -147,10 +151,13 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             // wait until the submission queue has some space
             std::unique_lock<std::mutex> lock(m_cv_lock);
 
+            // the notification might have been sent before the lock was taken,
+            // and might be the last one: do not rely on it only
             m_waiting_submissions = true;
-            while (m_waiting_submissions) {
-                m_cv_submission.wait(lock);
-            }
+            m_cv_submission.wait_for(
+                lock, kSubmissionRetryDelay, [this] {
+                    return !m_waiting_submissions;
+                });
         } else {
             m_failed_queries_count.fetch_add(remaining_subs);
             std::cerr << "Submission error: " << res << "\n";
-- 
2.43.0


From c0c7c4a41395312177b16ca8d289fc18f366558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 07/43] fix: an interrupted io_getevents corrupts the count of
 completed queries

The negative error code was added to the counter of completed queries, and
waiting for the completions then never returned.
---
 lib/abstractio/linux_aio_scheduler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index 85fde7a..1268898 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -71,8 +71,13 @@ void LinuxAIOScheduler::notify_loop()
         int num_events = io_getevents(m_ioctx, 1, kMaxNr, events, &timeout);
 
         if (num_events < 0) {
-            std::cerr << "Error in io_getevents: " << std::to_string(errno)
-                      << "(" << strerror(errno) << ")\n";
+            // libaio returns the error code
+            if (num_events != -EINTR) {
+                std::cerr << "Error in io_getevents: "
+                          << std::to_string(-num_events) << "("
+                          << strerror(-num_events) << ")\n";
+            }
+            continue;
         }
 
         if (num_events > 0) {
-- 
2.43.0


From a5a749c67f9e6378d50ef726fc084c979c656c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 08/43] fix: a partially accepted batch of AIO queries is
 reported as refused

When the kernel refused a part of a batch, the caller was told that everything
was refused although callbacks were going to be called for the accepted part;
the refused requests were leaked.
---
 lib/abstractio/linux_aio_scheduler.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index 1268898..7b04b78 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -167,7 +167,18 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             m_failed_queries_count.fetch_add(remaining_subs);
             std::cerr << "Submission error: " << res << "\n";
             perror("io_submit");
-            return -1;
+
+            // the remaining queries will never be notified
+            for (size_t i = 0; i < remaining_subs; i++) {
+                delete static_cast<LinuxAIORequest*>(iocbs_head[i]->data);
+            }
+
+            // report the queries accepted before the error, if any: these are
+            // going to be notified
+            if (remaining_subs == n_iocbs) {
+                return -1;
+            }
+            return n_iocbs - remaining_subs;
         }
     }
 
-- 
2.43.0


From a68773adeb10d44b03f43ca642e64d85aa66c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 09/43] fix: a thread pool IO scheduler can be destroyed while
 still in use

wait_completions returned between the decrement of the counter of running
queries and the notification by the last query, which then used the mutex and
the condition variable of a destroyed scheduler.
---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index 95b7725..0674e2d 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -32,11 +32,11 @@ ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
 
 void ThreadPoolAIOScheduler::wait_completions()
 {
-    while (this->m_running_queries != 0) {
-        std::unique_lock<std::mutex> lock(m_cv_lock);
-        m_cv_submission.wait(lock,
-                             [this] { return this->m_running_queries == 0; });
-    }
+    // always take the lock, even when nothing seems to be running: the last
+    // query might still be notifying its completion
+    std::unique_lock<std::mutex> lock(m_cv_lock);
+    m_cv_submission.wait(lock,
+                         [this] { return this->m_running_queries == 0; });
 }
 
 int ThreadPoolAIOScheduler::submit_pread(int                     fd,
-- 
2.43.0


From fa72cbfdad23998a9ad2ec5ff87fba2de026002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 10/43] fix: the shared IO thread pool can be created several
 times

Its lazy initialization was not protected against concurrent first uses.
---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index 0674e2d..adea91a 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -13,16 +13,14 @@
 namespace sse {
 namespace abstractio {
 
-static ThreadPool* _shared_io_pool = nullptr;
-
 constexpr uint32_t kAIOThreadsCount = 50;
 
 static ThreadPool& get_shared_io_pool()
 {
-    if (_shared_io_pool == nullptr) {
-        _shared_io_pool = new ThreadPool(kAIOThreadsCount);
-    }
-    return *_shared_io_pool;
+    // initialized once, even when several threads post their first query at
+    // the same time
+    static ThreadPool* shared_io_pool = new ThreadPool(kAIOThreadsCount);
+    return *shared_io_pool;
 }
 
 ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
-- 
2.43.0


From 27a407d455ebb961de7e18f5daf29c07dc780cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 11/43] fix: concatenated ranges mishandle an empty first range
 and equal containers

---
 .../sse/schemes/utils/concat_iterator.hpp     | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/lib/include/sse/schemes/utils/concat_iterator.hpp b/lib/include/sse/schemes/utils/concat_iterator.hpp
index f95fd9d..cf4dcab 100644
--- a/lib/include/sse/schemes/utils/concat_iterator.hpp
+++ b/lib/include/sse/schemes/utils/concat_iterator.hpp
@@ -20,10 +20,7 @@ public:
     concat_iterator& operator++()
     {
         ++internal_iterator;
-        if (!point_to_container_2 && internal_iterator == container_1->end()) {
-            internal_iterator    = container_2->begin();
-            point_to_container_2 = true;
-        }
+        skip_end_of_container_1();
         return *this;
     }
 
@@ -38,7 +35,9 @@ public:
     }
     bool operator==(const concat_iterator& other) const
     {
-        return internal_iterator == other.internal_iterator;
+        // both containers may be the same object
+        return point_to_container_2 == other.point_to_container_2
+               && internal_iterator == other.internal_iterator;
     }
     bool operator!=(const concat_iterator& other) const
     {
@@ -53,6 +52,7 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        skip_end_of_container_1();
     }
 
     concat_iterator(Container&         c1,
@@ -62,9 +62,19 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(it),
           point_to_container_2(it_points_c2)
     {
+        skip_end_of_container_1();
     }
 
 private:
+    // the end of the first container is the beginning of the second one
+    void skip_end_of_container_1()
+    {
+        if (!point_to_container_2 && internal_iterator == container_1->end()) {
+            internal_iterator    = container_2->begin();
+            point_to_container_2 = true;
+        }
+    }
+
     Container* container_1;
     Container* container_2;
 
@@ -93,10 +103,7 @@ public:
     concat_const_iterator& operator++()
     {
         ++internal_iterator;
-        if (!point_to_container_2 && internal_iterator == container_1->end()) {
-            internal_iterator    = container_2->begin();
-            point_to_container_2 = true;
-        }
+        skip_end_of_container_1();
         return *this;
     }
 
@@ -111,7 +118,9 @@ public:
     }
     bool operator==(const concat_const_iterator& other) const
     {
-        return internal_iterator == other.internal_iterator;
+        // both containers may be the same object
+        return point_to_container_2 == other.point_to_container_2
+               && internal_iterator == other.internal_iterator;
     }
     bool operator!=(const concat_const_iterator& other) const
     {
@@ -126,6 +135,7 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        skip_end_of_container_1();
     }
 
     concat_const_iterator(const Container&   c1,
@@ -135,9 +145,19 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(it),
           point_to_container_2(it_points_c2)
     {
+        skip_end_of_container_1();
     }
 
 private:
+    // the end of the first container is the beginning of the second one
+    void skip_end_of_container_1()
+    {
+        if (!point_to_container_2 && internal_iterator == container_1->end()) {
+            internal_iterator    = container_2->begin();
+            point_to_container_2 = true;
+        }
+    }
+
     const Container* container_1;
     const Container* container_2;
 
-- 
2.43.0


From c5d2159cdb3d9017961e71f8830189346432f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 12/43] fix: a stopped benchmark keeps measuring until it is
 destroyed

---
 lib/utils/logger.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 69813c8..eff47f5 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -80,15 +80,17 @@ Benchmark::Benchmark(std::string format)
 void Benchmark::stop()
 {
     if (!stopped_) {
-        end_ = std::chrono::high_resolution_clock::now();
+        end_     = std::chrono::high_resolution_clock::now();
+        stopped_ = true;
     }
 }
 
 void Benchmark::stop(size_t count)
 {
     if (!stopped_) {
-        end_   = std::chrono::high_resolution_clock::now();
-        count_ = count;
+        end_     = std::chrono::high_resolution_clock::now();
+        count_   = count;
+        stopped_ = true;
     }
 }
 
-- 
2.43.0


From ff345280d5edfd5ad9847249461d3f4e6933e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 13/43] fix: the null logger and the benchmark file can be set
 only once

---
 lib/utils/logger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index eff47f5..ce09773 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -48,8 +48,9 @@ void set_logger(const std::shared_ptr<spdlog::logger>& logger)
     if (logger) {
         shared_logger_ = logger;
     } else {
-        shared_logger_
-            = spdlog::create<spdlog::sinks::null_sink_mt>("null_logger");
+        // not registered: a registered name can only be used once
+        shared_logger_ = std::make_shared<spdlog::logger>(
+            "null_logger", std::make_shared<spdlog::sinks::null_sink_mt>());
     }
 }
 
@@ -63,6 +64,8 @@ std::shared_ptr<spdlog::logger> Benchmark::benchmark_logger_(nullptr);
 
 void Benchmark::set_benchmark_file(const std::string& path)
 {
+    // release the name used by a previous call
+    spdlog::drop("benchmark");
     benchmark_logger_
         = spdlog::basic_logger_mt<spdlog::async_factory>("benchmark", path);
     benchmark_logger_->set_level(spdlog::level::trace);
-- 
2.43.0


From 46a3823f5ea9eb8a84efc07dfd13ee7f15149c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 14/43] fix: random groups of 100 documents are emitted under
 the names of groups of 1000

---
 lib/utils/db_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/db_generator.cpp b/lib/utils/db_generator.cpp
index fff8b50..ea098c8 100644
--- a/lib/utils/db_generator.cpp
+++ b/lib/utils/db_generator.cpp
@@ -278,7 +278,7 @@ static void generation_job(
                 if (group_rand_10_2[g] < size_group_2) {
                     group_rand_10_2[g]++;
                     kw = kKeywordRand10GroupBase;
-                    kw.append("3_").append(id_string).append("_").append(
+                    kw.append("2_").append(id_string).append("_").append(
                         std::to_string(g));
                     insertions.push_back(kw);
                 }
-- 
2.43.0


From 39f5b6a3c232961a497c87817b300ff68e433129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 15/43] fix: an empty list in a Tethys bucket hides the lists
 that follow

---
 lib/include/sse/schemes/tethys/encoders/encode_separate.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 35237fa..f4c07ac 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -78,6 +78,12 @@ struct EncodeSeparateEncoder
         // spilled control values
         encoded_list_size = std::min(encoded_list_size, original_list_size);
 
+        if (encoded_list_size == 0) {
+            // do not encode empty lists: a zero length marks the end of the
+            // bucket
+            return 0;
+        }
+
         auto sublist_begin = values.begin();
         auto sublist_end   = values.end();
         // size_t sublist_begin = 0;
-- 
2.43.0


From 249816a6a86699914391dc5a93f0d1f38a5f92ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 16/43] fix: Tethys buckets with element sizes that need
 padding decode wrongly

---
 .../tethys/encoders/encode_separate.hpp       | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index f4c07ac..80d5bd0 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -112,7 +112,7 @@ struct EncodeSeparateEncoder
         // fill with dummy bytes if needed
         if (offset < kListLengthEntriesNumber * sizeof(T)) {
             std::fill(buffer + offset,
-                      buffer + kAdditionalKeyEntriesPerList * sizeof(T),
+                      buffer + kListLengthEntriesNumber * sizeof(T),
                       0x11);
             offset = kListLengthEntriesNumber * sizeof(T); // offset = 8
         }
@@ -127,8 +127,12 @@ struct EncodeSeparateEncoder
         // fill with dummy bytes if needed
         if (offset < (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
                          * sizeof(T)) {
-            std::fill(
-                buffer + offset, buffer + kListControlValues * sizeof(T), 0x22);
+            std::fill(buffer + offset,
+                      buffer
+                          + (kAdditionalKeyEntriesPerList
+                             + kListLengthEntriesNumber)
+                                * sizeof(T),
+                      0x22);
             offset = (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
                      * sizeof(T); // offset = 24
         }
@@ -283,15 +287,20 @@ struct EncodeSeparateDecoder
                               const std::array<uint8_t, PAGESIZE>& bucket,
                               std::vector<T>& results) const
     {
+        // the control values are padded to a whole number of elements
+        constexpr size_t kLengthSize = kListLengthEntriesNumber * sizeof(T);
+        constexpr size_t kControlSize
+            = (kAdditionalKeyEntriesPerList + kListLengthEntriesNumber)
+              * sizeof(T);
+
         size_t offset = 0;
 
         Key      list_key;
         uint64_t list_length;
 
-        while (offset < bucket.size()) {
+        while (offset + kControlSize <= bucket.size()) {
             // read the length of the list
             memcpy(&list_length, bucket.data() + offset, sizeof(list_length));
-            offset += sizeof(list_length);
 
             if (list_length == 0) {
                 // we are at the end of the bucket
@@ -299,8 +308,10 @@ struct EncodeSeparateDecoder
             }
 
             // read the key of the current list
-            memcpy(&list_key, bucket.data() + offset, sizeof(list_key));
-            offset += sizeof(list_key);
+            memcpy(&list_key,
+                   bucket.data() + offset + kLengthSize,
+                   sizeof(list_key));
+            offset += kControlSize;
 
             if (list_key == key) {
                 // match on the key
-- 
2.43.0


From d2a5eb0c459867c49ec3be109a10b8177c9d56a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 17/43] fix: concurrent bucket completions of an asynchronous
 Tethys lookup race

---
 lib/include/sse/schemes/tethys/tethys_store.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 7858920..5030d85 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -334,16 +334,19 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::
 {
     auto bucket_cb = [this, callback, state](
                          std::unique_ptr<payload_type> bucket, size_t index) {
-        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
-
-        if (completed == 1) {
+        // the buckets can arrive concurrently: store the bucket before
+        // declaring it as completed
+        if (state->slot_counter.fetch_add(1) == 0) {
             state->index_0  = index;
             state->bucket_0 = std::move(bucket);
-        } else if (completed == 2) {
+        } else {
             state->index_1  = index;
             state->bucket_1 = std::move(bucket);
+        }
 
+        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
 
+        if (completed == 2) {
             std::vector<T> stash_res;
 
             auto stash_it = stash.find(state->key);
@@ -388,6 +391,7 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::async_get_list(
         std::unique_ptr<payload_type> bucket_1;
         size_t                        index_0{SIZE_MAX};
         size_t                        index_1{SIZE_MAX};
+        std::atomic<uint8_t>          slot_counter{0};
         std::atomic<uint8_t>          completion_counter{0};
         ValueDecoder                  decoder;
 
@@ -421,6 +425,7 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::async_get_list(
         std::unique_ptr<payload_type> bucket_1;
         size_t                        index_0{SIZE_MAX};
         size_t                        index_1{SIZE_MAX};
+        std::atomic<uint8_t>          slot_counter{0};
         std::atomic<uint8_t>          completion_counter{0};
         ValueDecoder*                 decoder;
 
-- 
2.43.0


From 64c36ddd9567b5dde0ddae75196e9dd9537d4700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 18/43] fix: do not commit a moved-from cuckoo builder

The defaulted move constructor left is_committed unset in the moved-from
builder, whose destructor then committed it again, with empty paths.
---
 lib/include/sse/schemes/oceanus/cuckoo.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 11841d3..6b1cb8c 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -48,7 +48,14 @@ public:
     using param_type   = CuckooBuilderParam;
 
     explicit CuckooBuilder(CuckooBuilderParam p);
-    CuckooBuilder(CuckooBuilder&&) noexcept = default;
+    CuckooBuilder(CuckooBuilder&& cb) noexcept
+        : params(std::move(cb.params)), allocator(std::move(cb.allocator)),
+          data(std::move(cb.data)), spilled_data(std::move(cb.spilled_data)),
+          n_elements(cb.n_elements), is_committed(cb.is_committed)
+    {
+        // the moved-from builder has nothing to commit anymore
+        cb.is_committed = true;
+    }
 
     ~CuckooBuilder();
 
-- 
2.43.0


From ad27d5826455eb3a1f60cbbd2e871c1ae4b480ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 19/43] fix: keep the elements spilled by the cuckoo allocator

The elements which could not be placed in the cuckoo table were dropped when
committing: their keys were not found any more. Write them in a stash file next
to the table, and search it when a key is in none of its slots.
---
 lib/include/sse/schemes/oceanus/cuckoo.hpp | 50 ++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 6b1cb8c..3a0d680 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -26,6 +26,12 @@ struct CuckooBuilderParam
     {
         return details::cuckoo_table_size(max_n_elements, epsilon);
     }
+
+    // the elements which could not be placed in the cuckoo table
+    static std::string stash_path(const std::string& cuckoo_table_path)
+    {
+        return cuckoo_table_path + ".stash";
+    }
 };
 
 template<size_t PAGE_SIZE,
@@ -245,6 +251,24 @@ void CuckooBuilder<PAGE_SIZE,
     }
     cuckoo_table.commit();
 
+    // the elements which have been spilled are not in the table: write them in
+    // a separate file. Also get rid of the stash of a previous table.
+    const std::string stash_path
+        = CuckooBuilderParam::stash_path(params.cuckoo_table_path);
+
+    if (utility::exists(stash_path)) {
+        utility::remove_file(stash_path);
+    }
+    if (!spilled_data.empty()) {
+        abstractio::awonvm_vector<payload_type, PAGE_SIZE> stash(stash_path);
+
+        stash.reserve(spilled_data.size());
+        for (size_t loc : spilled_data) {
+            stash.push_back(data.get(loc));
+        }
+        stash.commit();
+    }
+
     // delete the data file
     utility::remove_file(params.value_file_path);
 }
@@ -305,6 +329,9 @@ private:
     table_type table;
 
     size_t table_size;
+
+    // elements that could not be placed in the table (almost always empty)
+    std::vector<payload_type> stash;
 };
 
 template<size_t PAGE_SIZE,
@@ -332,6 +359,16 @@ CuckooHashTable<PAGE_SIZE,
     }
     table_size /= 2;
 
+    const std::string stash_path = CuckooBuilderParam::stash_path(path);
+
+    if (utility::exists(stash_path)) {
+        table_type stash_file(stash_path, false);
+
+        for (size_t i = 0; i < stash_file.size(); i++) {
+            stash.push_back(stash_file.get(i));
+        }
+    }
+
     std::cerr << "Cuckoo hash table initialization succeeded!\n";
     std::cerr << "Table size: " << table_size << "\n";
 }
@@ -370,6 +407,12 @@ T CuckooHashTable<PAGE_SIZE,
     if (details::match_key<PAGE_SIZE>(val_1, ser_key)) {
         return ValueSerializer().deserialize(val_1.data() + kKeySize);
     }
+
+    for (const payload_type& val : stash) {
+        if (details::match_key<PAGE_SIZE>(val, ser_key)) {
+            return ValueSerializer().deserialize(val.data() + kKeySize);
+        }
+    }
     throw std::out_of_range("Key not found");
 }
 
@@ -405,6 +448,13 @@ void CuckooHashTable<PAGE_SIZE,
 
     CallBackState* state = new CallBackState();
 
+    for (const payload_type& val : stash) {
+        if (details::match_key<PAGE_SIZE>(val, ser_key)) {
+            state->result.reset(new payload_type(val));
+            break;
+        }
+    }
+
     auto inner_callback =
         [state, ser_key, callback](std::unique_ptr<payload_type> read_value) {
             if (read_value) {
-- 
2.43.0


From e2f87c655a2325a37dff66caf2f5cee23765be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 20/43] fix: give an empty cuckoo table at least one slot

With no expected element, the table size was 0: inserting or looking up a key
divided by zero, and the empty table could not be opened.
---
 lib/include/sse/schemes/oceanus/details/cuckoo.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/oceanus/details/cuckoo.hpp b/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
index 3e9eedd..44b6681 100644
--- a/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/details/cuckoo.hpp
@@ -3,6 +3,7 @@
 #include <sse/schemes/abstractio/awonvm_vector.hpp>
 #include <sse/schemes/oceanus/types.hpp>
 
+#include <algorithm>
 #include <cmath>
 
 #include <vector>
@@ -14,7 +15,8 @@ namespace details {
 
 inline size_t cuckoo_table_size(size_t n_elements, double epsilon)
 {
-    return std::ceil((1. + epsilon / 2.) * n_elements);
+    // even an empty table has slots: the locations are computed modulo its size
+    return std::max<size_t>(1, std::ceil((1. + epsilon / 2.) * n_elements));
 };
 
 template<size_t PAYLOAD_SIZE, size_t KEY_SIZE>
-- 
2.43.0


From f62311be9a1b3a66af997d8f34b8e04da2b3bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:16 +0000
Subject: [PATCH 21/43] fix: give an empty Tethys table at least one bucket on
 each side

With no expected element the table had no bucket: inserting a list divided by
zero, and a store could not be built or opened.
---
 lib/tethys/tethys_allocator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tethys/tethys_allocator.cpp b/lib/tethys/tethys_allocator.cpp
index 441b18e..e5c87d7 100644
--- a/lib/tethys/tethys_allocator.cpp
+++ b/lib/tethys/tethys_allocator.cpp
@@ -1,5 +1,6 @@
 #include "tethys/details/tethys_allocator.hpp"
 
+#include <algorithm>
 #include <cmath>
 
 #include <stdexcept>
@@ -12,6 +13,9 @@ size_t tethys_graph_size(size_t n_elements, size_t bucket_size, double epsilon)
 {
     size_t n_buckets
         = n_elements / bucket_size + ((n_elements % bucket_size == 0) ? 0 : 1);
+    // even an empty graph needs a vertex on each side: the locations are computed
+    // modulo the number of vertices
+    n_buckets = std::max<size_t>(1, n_buckets);
     return 2 * std::ceil((1. + epsilon) * n_buckets);
 };
 
-- 
2.43.0


From f0e0a7cd4d87620d990ccbbab6d80eb2e241f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 22/43] fix: do not return the padding of the full blocks

With the default parameters, the values of the hash table are larger than the
blocks: every full block of a keyword added spurious zero documents to the
result of the search.
---
 lib/include/sse/schemes/pluto/pluto_server.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_server.hpp b/lib/include/sse/schemes/pluto/pluto_server.hpp
index ac69fe1..82362cf 100644
--- a/lib/include/sse/schemes/pluto/pluto_server.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_server.hpp
@@ -60,9 +60,18 @@ auto PlutoServer<Params>::search(const SearchRequest& search_request)
         try {
             typename Params::ht_value_type v = hash_table.get(key);
 
-            res.complete_lists.reserve(res.complete_lists.size() + v.size());
-            res.complete_lists.insert(
-                res.complete_lists.end(), v.begin(), v.end());
+            // the table values can be larger than the blocks: the remaining
+            // elements are padding
+            static_assert(Params::kPlutoListLength
+                              <= std::tuple_size<
+                                  typename Params::ht_value_type>::value,
+                          "Table values too small to store a block");
+
+            res.complete_lists.reserve(res.complete_lists.size()
+                                       + Params::kPlutoListLength);
+            res.complete_lists.insert(res.complete_lists.end(),
+                                      v.begin(),
+                                      v.begin() + Params::kPlutoListLength);
         } catch (const std::out_of_range& e) {
             break;
         }
-- 
2.43.0


From a7fcc932b5e57249abb7a232884343ef462c4702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 23/43] fix: enable mmap reads for the RocksDB cuckoo tables

RocksDB refuses to open a cuckoo table file which is not memory mapped: the
database could not be reopened once it had been flushed.
---
 lib/pluto/rocksdb_store.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/pluto/rocksdb_store.cpp b/lib/pluto/rocksdb_store.cpp
index 9694fe2..7157ed9 100644
--- a/lib/pluto/rocksdb_store.cpp
+++ b/lib/pluto/rocksdb_store.cpp
@@ -28,7 +28,8 @@ rocksdb::Options GenericRocksDBStoreParams::make_rocksdb_cuckoo_options()
     options.compaction_style = rocksdb::kCompactionStyleLevel;
     options.info_log_level   = rocksdb::InfoLogLevel::INFO_LEVEL;
 
-    // options.allow_mmap_reads                       = true;
+    // mandatory for the cuckoo tables
+    options.allow_mmap_reads = true;
 
     options.allow_concurrent_memtable_write
         = options.memtable_factory->IsInsertConcurrentlySupported();
-- 
2.43.0


From 035b0b26d620ce0cf73ed929bb5fc2da97b11faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 24/43] fix: build an empty Pluto database

The number of dummy blocks underflowed when no element was expected.
---
 lib/include/sse/schemes/pluto/pluto_builder.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_builder.hpp b/lib/include/sse/schemes/pluto/pluto_builder.hpp
index 4475dce..48b066f 100644
--- a/lib/include/sse/schemes/pluto/pluto_builder.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_builder.hpp
@@ -92,7 +92,9 @@ void PlutoBuilder<Params>::build()
     // for the security of the scheme, because we do not want to leak the
     // number of full blocks, we have to insert a dummy block in the hash
     // table
-    const size_t n_full_blocks = 1 + ((n_elts - 1) / Params::kPlutoListLength);
+    const size_t n_full_blocks
+        = n_elts / Params::kPlutoListLength
+          + ((n_elts % Params::kPlutoListLength == 0) ? 0 : 1);
 
     typename Params::ht_value_type v = {0x00};
 
-- 
2.43.0


From bc1f46f68f1dbf7b994c83d8a182e9ed5420fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 25/43] fix: DianaClient::get_match_count is one short

The counter holds the position of the last match, not the number of
matches.  Janus used it to number the key shares of its deletions: the
first two deletions of an epoch got the same number, and the punctured
key was wrong, so that a search after two removals returned garbage.
---
 lib/include/sse/schemes/diana/diana_client.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/diana/diana_client.hpp b/lib/include/sse/schemes/diana/diana_client.hpp
index ec3d036..bb67e65 100644
--- a/lib/include/sse/schemes/diana/diana_client.hpp
+++ b/lib/include/sse/schemes/diana/diana_client.hpp
@@ -126,7 +126,8 @@ uint32_t DianaClient<T>::get_match_count(const std::string& kw) const
 
     bool found = counter_map_.get(kw, kw_counter);
 
-    return (found) ? kw_counter : 0;
+    // the counter is the position of the last inserted match
+    return (found) ? kw_counter + 1 : 0;
 }
 
 template<typename T>
-- 
2.43.0


From b35009648e0e813914ea97995414a452c99fa923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 26/43] fix: JanusServer::search_parallel leaves the retrieved
 insertions in the database

As in search(), the insertions move to the result cache and are removed:
otherwise running a search request again returns them twice.
---
 lib/janus/janus_server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/janus/janus_server.cpp b/lib/janus/janus_server.cpp
index 5daad4b..3be63f9 100644
--- a/lib/janus/janus_server.cpp
+++ b/lib/janus/janus_server.cpp
@@ -282,7 +282,8 @@ void JanusServer::search_parallel(
     //            decryption_callback, threads_count-1); // one thread is
     //            already in use
     insertion_server_.search(req.insertion_search_request,
-                             decryption_callback_unique);
+                             decryption_callback_unique,
+                             true);
 
     // merge the new result list with the filtered cache
     new_cache.splice(new_cache.end(), filtered_cache);
-- 
2.43.0


From a48e4d8ac9f56682d54a05bf7a4faa6f80c7d1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:53 +0000
Subject: [PATCH 27/43] fix: make the updates of a RocksDBCounter atomic

Concurrent insertion requests for one keyword read the same counter, got
the same update token, and one document overwrote the other.
---
 lib/include/sse/schemes/utils/rocksdb_wrapper.hpp | 3 +++
 lib/utils/rocksdb_wrapper.cpp                     | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
index fcc99d4..762d735 100644
--- a/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
+++ b/lib/include/sse/schemes/utils/rocksdb_wrapper.hpp
@@ -31,6 +31,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace sophos {
@@ -279,6 +280,8 @@ public:
 
 private:
     rocksdb::DB* db_;
+    // makes the read-modify-write updates atomic
+    std::mutex update_mtx_;
 };
 
 
diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 8661718..1c74400 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -100,6 +100,8 @@ bool RocksDBCounter::get(const std::string& key, uint32_t& val) const
 
 bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     std::string data;
 
     rocksdb::Status s = db_->Get(rocksdb::ReadOptions(), key, &data);
@@ -133,6 +135,8 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
 
 bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     std::string data;
     uint32_t    val;
 
@@ -165,6 +169,8 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
 
 bool RocksDBCounter::set(const std::string& key, uint32_t val)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
 
     rocksdb::Status s = db_->Put(rocksdb::WriteOptions(), key, k_v);
@@ -184,6 +190,8 @@ bool RocksDBCounter::set(const std::string& key, uint32_t val)
 
 bool RocksDBCounter::remove_key(const std::string& key)
 {
+    std::lock_guard<std::mutex> lock(update_mtx_);
+
     rocksdb::Status s = db_->Delete(rocksdb::WriteOptions(), key);
 
     return s.ok();
-- 
2.43.0


From e29014772f5cdb924ecde142a34ff6b9dddae228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:11 +0000
Subject: [PATCH 28/43] fix: a counter that cannot be read is not absent

---
 lib/utils/rocksdb_wrapper.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 1c74400..b58230e 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -113,8 +113,16 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = 0;
+    } else {
+        /* LCOV_EXCL_START */
+        // the counter exists, or might exist: do not overwrite it
+        logger::logger()->error("Unable to read the counter\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
+        /* LCOV_EXCL_STOP */
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
@@ -147,8 +155,16 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = default_value;
+    } else {
+        /* LCOV_EXCL_START */
+        // the counter exists, or might exist: do not overwrite it
+        logger::logger()->error("Unable to read the counter\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
+        /* LCOV_EXCL_STOP */
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
-- 
2.43.0


From 0596865e685a795c52c6a03a279734d58d0e58e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:09 +0000
Subject: [PATCH 29/43] fix: updates that could not be stored are acknowledged

---
 lib/include/sse/schemes/diana/diana_server.hpp | 6 +++++-
 lib/sophos/sophos_server.cpp                   | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/diana/diana_server.hpp b/lib/include/sse/schemes/diana/diana_server.hpp
index 0fd4f7e..0bb214a 100644
--- a/lib/include/sse/schemes/diana/diana_server.hpp
+++ b/lib/include/sse/schemes/diana/diana_server.hpp
@@ -28,6 +28,8 @@
 
 #include <sse/crypto/prf.hpp>
 
+#include <stdexcept>
+
 namespace sse {
 namespace diana {
 
@@ -319,7 +321,9 @@ void DianaServer<T>::insert(const UpdateRequest<T>& req)
                             + utility::hex_string(req.token) + ", "
                             + utility::hex_string(req.index) + ")");
 
-    edb_.put(req.token, req.index);
+    if (!edb_.put(req.token, req.index)) {
+        throw std::runtime_error("Unable to store the update");
+    }
 }
 
 template<typename T>
diff --git a/lib/sophos/sophos_server.cpp b/lib/sophos/sophos_server.cpp
index 832df6d..ae236dd 100644
--- a/lib/sophos/sophos_server.cpp
+++ b/lib/sophos/sophos_server.cpp
@@ -26,6 +26,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <stdexcept>
 
 namespace sse {
 namespace sophos {
@@ -487,7 +488,9 @@ void SophosServer::insert(const UpdateRequest& req)
                             + utility::hex_string(req.index) + ")");
 
     //    edb_.add(req.token, req.index);
-    edb_.put(req.token, req.index);
+    if (!edb_.put(req.token, req.index)) {
+        throw std::runtime_error("Unable to store the update");
+    }
 }
 } // namespace sophos
 } // namespace sse
-- 
2.43.0


From 1459b6a8e6ea24d983fdc03bc1219106d283e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:06 +0000
Subject: [PATCH 30/43] fix: Janus ignores that its search counter or cached
 results could not be stored

---
 lib/janus/janus_client.cpp | 8 +++++++-
 lib/janus/janus_server.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/janus/janus_client.cpp b/lib/janus/janus_client.cpp
index 4bcacf6..d4c2cd5 100644
--- a/lib/janus/janus_client.cpp
+++ b/lib/janus/janus_client.cpp
@@ -8,6 +8,8 @@
 
 #include <sse/schemes/janus/janus_client.hpp>
 
+#include <stdexcept>
+
 namespace sse {
 namespace janus {
 
@@ -115,7 +117,11 @@ SearchRequest JanusClient::search_request(const std::string& keyword)
     // deletions
     if (req.insertion_search_request.add_count > 0
         || req.deletion_search_request.add_count > 0) {
-        search_counter_map_.set(keyword, search_counter + 1);
+        if (!search_counter_map_.set(keyword, search_counter + 1)) {
+            throw std::runtime_error(
+                "Unable to increment the search counter for keyword \""
+                + keyword + "\"");
+        }
     }
 
     // cleanup the counter maps
diff --git a/lib/janus/janus_server.cpp b/lib/janus/janus_server.cpp
index 3be63f9..56c07a9 100644
--- a/lib/janus/janus_server.cpp
+++ b/lib/janus/janus_server.cpp
@@ -9,6 +9,7 @@
 #include <sse/schemes/janus/janus_server.hpp>
 
 #include <set>
+#include <stdexcept>
 
 namespace sse {
 namespace sophos {
@@ -154,7 +155,9 @@ std::list<index_type> JanusServer::search(SearchRequest& req)
     }
 
     // store results in the cache
-    cached_results_edb_.put(req.keyword_token, cached_res_list);
+    if (!cached_results_edb_.put(req.keyword_token, cached_res_list)) {
+        throw std::runtime_error("Unable to store the cached results");
+    }
 
 
     return results;
@@ -289,7 +292,9 @@ void JanusServer::search_parallel(
     new_cache.splice(new_cache.end(), filtered_cache);
 
     // store results in the cache
-    cached_results_edb_.put(req.keyword_token, new_cache);
+    if (!cached_results_edb_.put(req.keyword_token, new_cache)) {
+        throw std::runtime_error("Unable to store the cached results");
+    }
 }
 
 
-- 
2.43.0


From a4b27c8bff05c75b28a8940ccd29679ba469597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:40 +0000
Subject: [PATCH 31/43] fix: building Tethys ignores that a keyword's counter
 could not be stored

---
 lib/include/sse/schemes/tethys/tethys_builder.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_builder.hpp b/lib/include/sse/schemes/tethys/tethys_builder.hpp
index e3c417d..4dd093d 100644
--- a/lib/include/sse/schemes/tethys/tethys_builder.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_builder.hpp
@@ -121,7 +121,9 @@ void GenericTethysBuilder<StoreBuilder>::insert_list(
     // add the block counter to the counter db
     // this represents the number of blocks in the db (hence the +1)
     // counter_db.set(keyword, counter);
-    counter_db.set(keyword, block_counter + 1);
+    if (!counter_db.set(keyword, block_counter + 1)) {
+        throw std::runtime_error("Unable to store the counter of a keyword");
+    }
 }
 } // namespace details
 
-- 
2.43.0


From a9c536cef0bcb4b5e1bc87b6794c2078be9f0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:42 +0000
Subject: [PATCH 32/43] fix: building a Tethys store ignores that its stash
 could not be written

---
 lib/include/sse/schemes/tethys/tethys_store_builder.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
index 077e00e..a9e4504 100644
--- a/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store_builder.hpp
@@ -301,6 +301,11 @@ void TethysStoreBuilder<PAGE_SIZE,
 
 
         stash_file.close();
+
+        if (!stash_file) {
+            throw std::runtime_error("Unable to write the stash to "
+                                     + params.tethys_stash_path);
+        }
     }
 
     encoder.finish_tethys_encoding();
-- 
2.43.0


From c5b2a28eb313eabaae275d195d58fd4866838267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:03 +0000
Subject: [PATCH 33/43] fix: a stash that cannot be read is taken for a shorter
 one

---
 lib/include/sse/schemes/abstractio/kv_serializer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/kv_serializer.hpp b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
index 3941647..8551534 100644
--- a/lib/include/sse/schemes/abstractio/kv_serializer.hpp
+++ b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
@@ -4,6 +4,7 @@
 #include <istream>
 #include <map>
 #include <ostream>
+#include <stdexcept>
 
 namespace sse {
 namespace abstractio {
@@ -82,6 +83,9 @@ void deserialize(std::istream&                   input_stream,
         std::pair<Key, T> kv = deserializer.deserialize_key_value(input_stream);
         callback(std::move(kv.first), std::move(kv.second));
     }
+    if (!input_stream.eof()) {
+        throw std::runtime_error("Unable to read the serialized data");
+    }
 }
 template<class Key, class T, class InnerDeserializer>
 void deserialize(std::istream&                   input_stream,
-- 
2.43.0


From ff932f1e05403a2c7c0c2e6e61a6ed9600680b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:05 +0000
Subject: [PATCH 34/43] fix: Pluto takes a block that cannot be read for an
 absent one

---
 lib/include/sse/schemes/pluto/rocksdb_store.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/pluto/rocksdb_store.hpp b/lib/include/sse/schemes/pluto/rocksdb_store.hpp
index df9a861..bfd9570 100644
--- a/lib/include/sse/schemes/pluto/rocksdb_store.hpp
+++ b/lib/include/sse/schemes/pluto/rocksdb_store.hpp
@@ -76,8 +76,10 @@ std::array<index_type, N> GenericRocksDBStore::get(
 
     if (s.ok()) {
         ::memcpy(content.data(), value.data(), N * sizeof(index_type));
-    } else {
+    } else if (s.IsNotFound()) {
         throw std::out_of_range("Key not found");
+    } else {
+        throw std::runtime_error("Unable to read the table: " + s.ToString());
     }
 
     return content;
-- 
2.43.0


From 9b57048e04673f26a628c22ae9052474b5d74581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:42 +0000
Subject: [PATCH 35/43] fix: a stash that cannot be opened is taken for an
 empty one

---
 lib/include/sse/schemes/abstractio/kv_serializer.hpp | 2 +-
 lib/include/sse/schemes/pluto/pluto_client.hpp       | 4 ++++
 lib/include/sse/schemes/tethys/tethys_client.hpp     | 4 ++++
 lib/include/sse/schemes/tethys/tethys_store.hpp      | 4 ++++
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/abstractio/kv_serializer.hpp b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
index 8551534..da820e3 100644
--- a/lib/include/sse/schemes/abstractio/kv_serializer.hpp
+++ b/lib/include/sse/schemes/abstractio/kv_serializer.hpp
@@ -83,7 +83,7 @@ void deserialize(std::istream&                   input_stream,
         std::pair<Key, T> kv = deserializer.deserialize_key_value(input_stream);
         callback(std::move(kv.first), std::move(kv.second));
     }
-    if (!input_stream.eof()) {
+    if (input_stream.bad()) {
         throw std::runtime_error("Unable to read the serialized data");
     }
 }
diff --git a/lib/include/sse/schemes/pluto/pluto_client.hpp b/lib/include/sse/schemes/pluto/pluto_client.hpp
index 925a785..76a93db 100644
--- a/lib/include/sse/schemes/pluto/pluto_client.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_client.hpp
@@ -95,6 +95,10 @@ void PlutoClient<TethysValueDecoder>::load_stash(
 
         input_stream.open(stash_path);
 
+        if (!input_stream) {
+            throw std::runtime_error("Unable to open the stash " + stash_path);
+        }
+
         stash = abstractio::deserialize_map<tethys::tethys_core_key_type,
                                             std::vector<index_type>,
                                             TethysValueDecoder>(input_stream,
diff --git a/lib/include/sse/schemes/tethys/tethys_client.hpp b/lib/include/sse/schemes/tethys/tethys_client.hpp
index 6087ed4..b0ea33b 100644
--- a/lib/include/sse/schemes/tethys/tethys_client.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_client.hpp
@@ -106,6 +106,10 @@ void TethysClient<ValueDecoder>::load_stash(const std::string& stash_path,
 
         input_stream.open(stash_path);
 
+        if (!input_stream) {
+            throw std::runtime_error("Unable to open the stash " + stash_path);
+        }
+
         stash = abstractio::deserialize_map<tethys_core_key_type,
                                             std::vector<index_type>,
                                             ValueDecoder>(input_stream,
diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 5030d85..261db55 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -152,6 +152,10 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::load_stash(
 
         input_stream.open(stash_path);
 
+        if (!input_stream) {
+            throw std::runtime_error("Unable to open the stash " + stash_path);
+        }
+
         stash = abstractio::deserialize_map<Key, std::vector<T>, ValueDecoder>(
             input_stream, stash_decoder);
 
-- 
2.43.0


From 3dcbbc8c2e1f6de26bd126b4559faf15ec6d6af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:27 +0000
Subject: [PATCH 36/43] fix: create the default logger only once when several
 threads need it first

---
 lib/utils/logger.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index ce09773..64220e2 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -28,14 +28,18 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace logger {
 
 std::shared_ptr<spdlog::logger> shared_logger_(nullptr);
+// the logger can be requested, and created, by several threads at the same time
+static std::mutex logger_mutex_;
 
 std::shared_ptr<spdlog::logger> logger()
 {
+    std::lock_guard<std::mutex> lock(logger_mutex_);
     if (!shared_logger_) {
         // initialize the logger
         shared_logger_ = spdlog::stderr_color_mt("console");
@@ -45,6 +49,7 @@ std::shared_ptr<spdlog::logger> logger()
 
 void set_logger(const std::shared_ptr<spdlog::logger>& logger)
 {
+    std::lock_guard<std::mutex> lock(logger_mutex_);
     if (logger) {
         shared_logger_ = logger;
     } else {
-- 
2.43.0


From 9cacc551f10bc299e6d57ff552c4e152e6ed87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:02 +0000
Subject: [PATCH 37/43] fix: Diana's synchronous search reports document 0 for
 every missing entry

---
 lib/diana/server_runner.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index fcb6d42..1be2d11 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -33,6 +33,7 @@
 
 #include <atomic>
 #include <fstream>
+#include <list>
 #include <thread>
 #include <utility>
 
@@ -214,7 +215,7 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
 
     SearchRequest req = message_to_request(token_wrapper_, mes);
 
-    std::vector<uint64_t> res_list(req.add_count);
+    std::list<uint64_t> res_list;
 
     logger::logger()->trace("{} expected matches", req.add_count);
 
@@ -223,7 +224,8 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
     } else {
         {
             SearchBenchmark bench("Diana synchronous search");
-            server_->search_parallel(req, 8, res_list);
+            // entries that are missing must not appear in the results
+            res_list = server_->search_parallel(req, 8);
             bench.set_count(res_list.size());
         }
         for (auto& i : res_list) {
-- 
2.43.0


From 4b4ae969f662b7912d9f92e2cb5e7443a3bfc820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:37 +0000
Subject: [PATCH 38/43] fix: the Sophos server writes past its requests when a
 message has fields of another size

---
 lib/sophos/sophos_server_runner.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 46b9669..38a66df 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -73,6 +73,19 @@ SophosImpl::SophosImpl(std::string path)
     }
 }
 
+// The fields are copied to arrays: messages from the network with fields of other
+// sizes have to be refused
+static bool has_valid_sizes(const sophos::SearchRequestMessage* mes)
+{
+    return mes->derivation_key().size() == kDerivationKeySize
+           && mes->search_token().size() == kSearchTokenSize;
+}
+
+static bool has_valid_sizes(const sophos::UpdateRequestMessage* mes)
+{
+    return mes->update_token().size() == kUpdateTokenSize;
+}
+
 grpc::Status SophosImpl::setup(__attribute__((unused))
                                grpc::ServerContext*        context,
                                const sophos::SetupMessage* message,
@@ -169,6 +182,10 @@ grpc::Status SophosImpl::sync_search(
                             "The server is not set up");
     }
 
+    if (!has_valid_sizes(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid search request");
+    }
+
     logger::logger()->trace("Start synchronous search...");
     std::list<uint64_t> res_list;
 
@@ -205,6 +222,10 @@ grpc::Status SophosImpl::async_search(
                             "The server is not set up");
     }
 
+    if (!has_valid_sizes(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid search request");
+    }
+
     logger::logger()->trace("Start asynchronous search...");
     auto req = message_to_request(mes);
 
@@ -260,6 +281,10 @@ grpc::Status SophosImpl::insert(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!has_valid_sizes(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid update request");
+    }
+
     logger::logger()->trace("Start updating");
 
     server_->insert(message_to_request(mes));
@@ -284,6 +309,10 @@ grpc::Status SophosImpl::bulk_insert(
     sophos::UpdateRequestMessage mes;
 
     while (reader->Read(&mes)) {
+        if (!has_valid_sizes(&mes)) {
+            return grpc::Status(grpc::INVALID_ARGUMENT,
+                                "Invalid update request");
+        }
         server_->insert(message_to_request(&mes));
     }
 
-- 
2.43.0


From 8160150b4d8844ba78422455c3bf28bb5df1c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:37 +0000
Subject: [PATCH 39/43] fix: the Diana server writes past its requests when a
 message has fields of another size

---
 lib/diana/server_runner.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index 1be2d11..cd8d9ef 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -99,6 +99,18 @@ DianaImpl::~DianaImpl()
     flush_server_storage();
 }
 
+// The fields are copied to arrays: messages from the network with fields of other
+// sizes have to be refused
+static bool has_valid_sizes(const SearchRequestMessage* mes)
+{
+    return mes->kw_token().size() == kKeywordTokenSize;
+}
+
+static bool has_valid_sizes(const UpdateRequestMessage* mes)
+{
+    return mes->update_token().size() == kUpdateTokenSize;
+}
+
 grpc::Status DianaImpl::setup(__attribute__((unused))
                               grpc::ServerContext* context,
                               const SetupMessage*  message,
@@ -211,6 +223,10 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!has_valid_sizes(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid search request");
+    }
+
     logger::logger()->trace("Start searching keyword ...");
 
     SearchRequest req = message_to_request(token_wrapper_, mes);
@@ -253,6 +269,10 @@ grpc::Status DianaImpl::async_search(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!has_valid_sizes(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid search request");
+    }
+
     logger::logger()->trace("Start searching keyword...");
 
     std::atomic_uint res_size(0);
@@ -309,6 +329,10 @@ grpc::Status DianaImpl::insert(__attribute__((unused))
                             "The server is not set up");
     }
 
+    if (!has_valid_sizes(mes)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid update request");
+    }
+
     logger::logger()->trace("Updating ...");
 
     server_->insert(message_to_request(mes));
@@ -334,6 +358,12 @@ grpc::Status DianaImpl::bulk_insert(
     UpdateRequestMessage mes;
 
     while (reader->Read(&mes)) {
+        if (!has_valid_sizes(&mes)) {
+            flush_server_storage();
+
+            return grpc::Status(grpc::INVALID_ARGUMENT,
+                                "Invalid update request");
+        }
         server_->insert(message_to_request(&mes));
     }
 
-- 
2.43.0


From b6766b0fa4fd0c1dbbbfd2782b5ef1a289af774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:00 +0000
Subject: [PATCH 40/43] fix: a Diana search request announcing more matches
 than its key covers ends the server

---
 lib/diana/server_runner.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index cd8d9ef..cb030a5 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -111,6 +111,13 @@ static bool has_valid_sizes(const UpdateRequestMessage* mes)
     return mes->update_token().size() == kUpdateTokenSize;
 }
 
+// Searching out of the constrained range raises an exception in the search threads
+static bool has_consistent_count(const SearchRequest& req)
+{
+    return req.add_count == 0
+           || req.constrained_rcprf.max_leaf() == req.add_count - 1;
+}
+
 grpc::Status DianaImpl::setup(__attribute__((unused))
                               grpc::ServerContext* context,
                               const SetupMessage*  message,
@@ -231,6 +238,10 @@ grpc::Status DianaImpl::sync_search(__attribute__((unused))
 
     SearchRequest req = message_to_request(token_wrapper_, mes);
 
+    if (!has_consistent_count(req)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid search request");
+    }
+
     std::list<uint64_t> res_list;
 
     logger::logger()->trace("{} expected matches", req.add_count);
@@ -292,6 +303,10 @@ grpc::Status DianaImpl::async_search(__attribute__((unused))
 
     auto req = message_to_request(token_wrapper_, mes);
 
+    if (!has_consistent_count(req)) {
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid search request");
+    }
+
     {
         SearchBenchmark bench("Diana asynchronous search");
 
-- 
2.43.0


From 06269241a30edfd9721ea6aed0c7d99a3a5645da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:01 +0000
Subject: [PATCH 41/43] fix: a Diana server is left half set up by a wrapping
 key of the wrong size

---
 lib/diana/server_runner.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/diana/server_runner.cpp b/lib/diana/server_runner.cpp
index cb030a5..f43e877 100644
--- a/lib/diana/server_runner.cpp
+++ b/lib/diana/server_runner.cpp
@@ -135,6 +135,13 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
                             "The server was already set up");
     }
 
+    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
+        logger::logger()->error("Invalid wrapping key size");
+
+        return grpc::Status(grpc::INVALID_ARGUMENT,
+                            "Invalid transmitted wrapping key size");
+    }
+
     // create the content directory but first check that nothing is already
     // there
 
@@ -186,13 +193,6 @@ grpc::Status DianaImpl::setup(__attribute__((unused))
                             "Unable to write the wrapping key to disk");
     }
 
-    if (message->wrapping_key().size() != crypto::Wrapper::kKeySize) {
-        logger::logger()->error("Invalid wrapping key size");
-
-        return grpc::Status(grpc::INVALID_ARGUMENT,
-                            "Invalid transmitted wrapping key size");
-    }
-
     wrapping_key_out << message->wrapping_key();
     wrapping_key_out.close();
 
-- 
2.43.0


From ae37252dfef612750ad2a4228b2c643092eece03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:01 +0000
Subject: [PATCH 42/43] fix: a Sophos server cannot be set up any more after a
 setup with an invalid public key

---
 lib/sophos/sophos_server_runner.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/sophos/sophos_server_runner.cpp b/lib/sophos/sophos_server_runner.cpp
index 38a66df..0457890 100644
--- a/lib/sophos/sophos_server_runner.cpp
+++ b/lib/sophos/sophos_server_runner.cpp
@@ -25,6 +25,8 @@
 #include <sse/schemes/utils/logger.hpp>
 #include <sse/schemes/utils/utils.hpp>
 
+#include <sse/crypto/tdp.hpp>
+
 #include <grpc/grpc.h>
 
 #include <grpcpp/grpcpp.h>
@@ -103,6 +105,16 @@ grpc::Status SophosImpl::setup(__attribute__((unused))
                             "The server was already set up");
     }
 
+    // check that the public key is valid before anything is created
+    try {
+        crypto::Tdp tdp(message->public_key());
+    } catch (std::exception& err) {
+        logger::logger()->error("Invalid public key:\n"
+                                + std::string(err.what()));
+
+        return grpc::Status(grpc::INVALID_ARGUMENT, "Invalid public key");
+    }
+
     // create the content directory but first check that nothing is already
     // there
 
-- 
2.43.0


From e0d3eb90bcf0661afb754f030d43b71861f02e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:08 +0000
Subject: [PATCH 43/43] fix: a client whose server setup was refused is opened
 as if it had succeeded the next time

---
 lib/diana/client_runner.cpp         | 5 +++++
 lib/sophos/sophos_client_runner.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/diana/client_runner.cpp b/lib/diana/client_runner.cpp
index 0b47c1a..b830e70 100644
--- a/lib/diana/client_runner.cpp
+++ b/lib/diana/client_runner.cpp
@@ -241,6 +241,11 @@ DianaClientRunner::DianaClientRunner(
             crypto::Key<crypto::Wrapper::kKeySize>(wrapper_key.data())));
 
         if (!success) {
+            // without a server set up with its keys, the client is unusable:
+            // do not let the next runner take it for an initialized one
+            client_.reset();
+            utility::remove_directory(path);
+
             throw std::runtime_error("Unsuccessful server setup");
         }
     }
diff --git a/lib/sophos/sophos_client_runner.cpp b/lib/sophos/sophos_client_runner.cpp
index 9c8ad43..de0febf 100644
--- a/lib/sophos/sophos_client_runner.cpp
+++ b/lib/sophos/sophos_client_runner.cpp
@@ -223,6 +223,11 @@ SophosClientRunner::SophosClientRunner(
         bool success = send_setup();
 
         if (!success) {
+            // without a server set up with its keys, the client is unusable:
+            // do not let the next runner take it for an initialized one
+            client_.reset();
+            utility::remove_directory(path);
+
             throw std::runtime_error("Unsuccessful server setup");
         }
     }
-- 
2.43.0

