From 38e6a1cce6c21f6dfcc0809376a29491f8c24d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 01/39] fix: async logger must not wait for its own worker at
 the flush level

do_sink_log_() runs on a pool worker. It called flush_sink_(), which enqueues
a flush and waits for it: with one worker the worker waits for itself for ever.
---
 include/async_logger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/async_logger.h b/include/async_logger.h
index f849331..25c6199 100644
--- a/include/async_logger.h
+++ b/include/async_logger.h
@@ -79,8 +79,9 @@ private:
             }
         }
 
+        // 此处运行在线程池的工作线程中，直接刷新 sink，不能再次入队并等待，否则工作线程会等待自己
         if (should_flush_(msg_popped.level)) {
-            flush_sink_();
+            do_flush_sink_();
         }
     }
     
-- 
2.43.0


From 118d5753e58208bfcb09937ea7621bc5da5b11bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 02/39] fix: acquire/release ordering for the producer token
 spin lock

The lock guards a moodycamel explicit producer, whose state is not atomic. With
relaxed ordering two threads sharing a token race on it.
---
 base/lockfree_concurrent_thread_pool.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index b963788..80b4d5d 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -19,13 +19,14 @@ struct atomic_token {
     void enqueue_lock() {
         bool expected = false;
         while (!enqueuing_.compare_exchange_weak(expected, true,
-                                             std::memory_order_relaxed)) {
+                                                 std::memory_order_acquire,
+                                                 std::memory_order_relaxed)) {
             expected = false;
         }
     }
 
     void release() {
-        enqueuing_.store(false, std::memory_order_relaxed);
+        enqueuing_.store(false, std::memory_order_release);
     }
 };
 
-- 
2.43.0


From 52a1bcf2e441388cf5ac3c7fffaa2b14244dcd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 03/39] fix: producer tokens of lockfree_concurrent_thread_pool
 belong to one pool

The token of a producing thread was a thread_local shared by all pools: a
thread that had logged through one pool used that pool's token, dangling once
the pool was gone, with the next pool, and never woke a worker of the new pool.
---
 base/lockfree_concurrent_thread_pool.cpp |  2 +
 base/lockfree_concurrent_thread_pool.h   | 70 +++++++++++++++---------
 2 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/base/lockfree_concurrent_thread_pool.cpp b/base/lockfree_concurrent_thread_pool.cpp
index ecda9fa..f7309e8 100644
--- a/base/lockfree_concurrent_thread_pool.cpp
+++ b/base/lockfree_concurrent_thread_pool.cpp
@@ -4,5 +4,7 @@ using namespace learnlog;
 using namespace base;
 
 #ifdef LEARNLOG_USE_TLS
+    thread_local lockfree_concurrent_thread_pool::producer_cache
+        lockfree_concurrent_thread_pool::p_cache_ = {0, nullptr};
     thread_local atomic_token* lockfree_concurrent_thread_pool::token_ = nullptr;
 #endif
diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index 80b4d5d..56e7a2f 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -174,32 +174,17 @@ private:
     void enqueue_async_msg_(async_msg&& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        if (token_ == nullptr) {
-            size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
-            {
-                std::lock_guard<std::mutex> lock(t_mutex_);
-                token_ = atomic_tokens_[cnt % threads_num_];
-            }
-            producer_sema_.signal();
+        // 缓存的 token 只在它所属的线程池中有效
+        if (p_cache_.pool_id == pool_id_) {
+            token = p_cache_.token;
         }
-        token = token_;
-#else
-        size_t tid = os::thread_id();
-        {
-            std::lock_guard<std::mutex> lock(p_mutex_);
-            if (producer_atomic_tokens_.find(tid) == producer_atomic_tokens_.end()) {
-                size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
-                {
-                    std::lock_guard<std::mutex> lock(t_mutex_);
-                    token = atomic_tokens_[cnt % threads_num_];
-                }
-                producer_atomic_tokens_[tid] = token;
-                producer_sema_.signal();
-            }
-            else {
-                token = producer_atomic_tokens_[tid];
-            }
+        else {
+            token = producer_token_();
+            p_cache_.pool_id = pool_id_;
+            p_cache_.token = token;
         }
+#else
+        token = producer_token_();
 #endif
         token->enqueue_lock();
         while (!msg_q_.try_enqueue(token->p_token_, std::move(amsg))) {
@@ -225,17 +210,48 @@ private:
         }
     }
 
+    // 查找当前线程在此线程池中使用的 token，首次入队时分配
+    atomic_token* producer_token_() {
+        size_t tid = os::thread_id();
+        std::lock_guard<std::mutex> lock(p_mutex_);
+        auto it = producer_atomic_tokens_.find(tid);
+        if (it != producer_atomic_tokens_.end()) {
+            return it->second;
+        }
+
+        atomic_token* token = nullptr;
+        size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
+        {
+            std::lock_guard<std::mutex> t_lock(t_mutex_);
+            token = atomic_tokens_[cnt % threads_num_];
+        }
+        producer_atomic_tokens_[tid] = token;
+        producer_sema_.signal();
+        return token;
+    }
+
+    static size_t next_pool_id_() {
+        static std::atomic<size_t> pool_cnt{0};
+        return pool_cnt.fetch_add(1, std::memory_order_relaxed) + 1;
+    }
+
+    const size_t pool_id_{next_pool_id_()};     // 从 1 开始，不会重复
     std::atomic<size_t> producer_cnt_{0};
     std::atomic<size_t> consumer_cnt_{0};
     moodycamel::LightweightSemaphore producer_sema_;
 
     std::mutex t_mutex_;
     std::vector<atomic_token*> atomic_tokens_;
-#ifdef LEARNLOG_USE_TLS
-    static thread_local atomic_token* token_;
-#else
     std::mutex p_mutex_;
     std::unordered_map<size_t, atomic_token*> producer_atomic_tokens_;
+#ifdef LEARNLOG_USE_TLS
+    struct producer_cache {
+        size_t pool_id;
+        atomic_token* token;
+    };
+    static thread_local producer_cache p_cache_;    // 生产者线程最近使用的线程池与 token
+    static thread_local atomic_token* token_;       // 工作线程自己的 token
+#else
     std::mutex c_mutex_;
     std::unordered_map<size_t, atomic_token*> consumer_atomic_tokens_;
 #endif
-- 
2.43.0


From 08f7cfafaab1513ee9a77bf07d7643284a13e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 04/39] fix: lockfree_thread_pool producers no longer spin for
 ever

Every producing thread keeps a block of the queue. With more producers than
preallocated blocks try_enqueue() fails for ever, even on an empty queue.
---
 base/lockfree_thread_pool.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index f5e890f..e24ac6d 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -10,7 +10,7 @@ namespace base {
 
 // 使用无锁阻塞队列 BlockingConcurrentQueue 的线程池，处理 async_msg，
 // 循环尝试 q.try_enqueue() 入队，阻塞等待 q.wait_dequeue() 出队，
-// 队列的总占用空间不变，初始化后不再额外申请内存
+// 队列未满但内存块已被其它生产者线程占用时，额外申请一块内存后再入队(enqueue)
 
 class lockfree_thread_pool final: public thread_pool {
 public:
@@ -105,8 +105,13 @@ public:
 
 private:
     void enqueue_async_msg_(async_msg&& amsg) override {
-        while (!msg_q_.try_enqueue(std::move(amsg)))
-            continue;
+        while (!msg_q_.try_enqueue(std::move(amsg))) {
+            // 每个生产者线程独占至少一个内存块，线程数较多时，即使队列未满也可能没有可用的内存块，
+            // 此时额外申请内存，否则会无限循环
+            if (msg_q_.size_approx() < msg_q_size_ && msg_q_.enqueue(std::move(amsg))) {
+                break;
+            }
+        }
     }
 
     void dequeue_async_msg_(async_msg& amsg) override {
-- 
2.43.0


From 945d03b7806492fde80de14fae02efaf03880445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:43 +0000
Subject: [PATCH 05/39] fix: no use after free when a queue dies while a
 producer thread exits

The exit notifier read listener->next after the callback had marked the
producer inactive. A queue destroyed meanwhile sees the producer inactive,
does not unsubscribe (and so does not wait for the notifier's lock) and frees
the listener. Read next first, and order the free after the callback.
---
 base/concurrentqueue/concurrentqueue.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/concurrentqueue/concurrentqueue.h b/base/concurrentqueue/concurrentqueue.h
index 23e8a63..c46aff9 100644
--- a/base/concurrentqueue/concurrentqueue.h
+++ b/base/concurrentqueue/concurrentqueue.h
@@ -610,9 +610,11 @@ namespace details
 			// This thread is about to exit, let everyone know!
 			assert(this == &instance() && "If this assert fails, you likely have a buggy compiler! Change the preprocessor conditions such that MOODYCAMEL_CPP11_THREAD_LOCAL_SUPPORTED is no longer defined.");
 			std::lock_guard<std::mutex> guard(mutex());
-			for (auto ptr = tail; ptr != nullptr; ptr = ptr->next) {
+			for (auto ptr = tail; ptr != nullptr; ) {
+				auto next = ptr->next;		// once called back, the listener may be destroyed by another thread
 				ptr->chain = nullptr;
 				ptr->callback(ptr->userData);
+				ptr = next;
 			}
 		}
 		
@@ -2437,7 +2439,8 @@ private:
 			
 #ifdef MOODYCAMEL_CPP11_THREAD_LOCAL_SUPPORTED
 			// Unregister ourselves for thread termination notification
-			if (!this->inactive.load(std::memory_order_relaxed)) {
+			// (acquire: the exiting thread's callback is over before we free what it used)
+			if (!this->inactive.load(std::memory_order_acquire)) {
 				details::ThreadExitNotifier::unsubscribe(&threadExitListener);
 			}
 #endif
-- 
2.43.0


From 5e775f96f661f32b477de1af96b08db42dd39a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 06/39] fix: lockfree_thread_pool processes messages left
 behind by its terminate messages

---
 base/lockfree_thread_pool.h |  6 ++++++
 base/thread_pool.cpp        | 11 +++++++----
 base/thread_pool.h          |  1 +
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index e24ac6d..e679882 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -94,6 +94,12 @@ public:
             for (auto &t : threads_){
                 t.join();
             }
+            // 不同生产者的消息之间没有先后顺序，工作线程可能先取到 terminate，
+            // 因此退出后队列中可能还有未处理的消息
+            async_msg amsg;
+            while (msg_q_.try_dequeue(amsg)) {
+                handle_async_msg_(amsg);
+            }
         }
         catch(const std::exception& e) {
             source_loc loc{__FILE__, __LINE__, __func__};
diff --git a/base/thread_pool.cpp b/base/thread_pool.cpp
index 190b3d6..b0bb45b 100755
--- a/base/thread_pool.cpp
+++ b/base/thread_pool.cpp
@@ -41,15 +41,18 @@ std::future<void> thread_pool::enqueue_flush(async_logger_shr_ptr&& logger) {
 bool thread_pool::process_async_msg_() {
     async_msg msg_popped;
     dequeue_async_msg_(msg_popped);
+    return handle_async_msg_(msg_popped);
+}
 
-    switch (msg_popped.msg_type) {
+bool thread_pool::handle_async_msg_(async_msg& amsg) {
+    switch (amsg.msg_type) {
         case async_msg_type::log: {
-            msg_popped.logger->do_sink_log_(msg_popped);
+            amsg.logger->do_sink_log_(amsg);
             return true;
         }
         case async_msg_type::flush: {
-            msg_popped.logger->do_flush_sink_();
-            msg_popped.flush_promise.set_value();
+            amsg.logger->do_flush_sink_();
+            amsg.flush_promise.set_value();
             return true;
         }
         case async_msg_type::terminate: {
diff --git a/base/thread_pool.h b/base/thread_pool.h
index 31928c3..33e0e7d 100755
--- a/base/thread_pool.h
+++ b/base/thread_pool.h
@@ -34,6 +34,7 @@ public:
 
 protected:
     bool process_async_msg_();
+    bool handle_async_msg_(async_msg& amsg);
     void worker_loop_();
     virtual void enqueue_async_msg_(async_msg&& amsg) = 0;
     virtual void dequeue_async_msg_(async_msg& amsg) = 0;
-- 
2.43.0


From 73b45da56d320c79a0c3701770d2e3bd865258f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 07/39] fix: periodic_function destructor no longer loses its
 wake-up

---
 base/periodic_function.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 5d6fa49..145fd08 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -36,7 +36,11 @@ public:
 
     ~periodic_function() {
         if (thread_.joinable()) {
-            active_ = false;
+            {
+                // 在锁内修改，避免工作线程在判断条件之后、进入等待之前错过通知
+                std::lock_guard<std::mutex> lock(mutex_);
+                active_ = false;
+            }
             cv_.notify_one();
             thread_.join();
         }
-- 
2.43.0


From 15dc7a15e4355733a5352f6c012996217dde2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 08/39] fix: a global formatter reaches loggers created later,
 global pattern is set atomically

---
 base/registry.cpp | 25 ++++++++++++++-----------
 base/registry.h   |  1 +
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 99a4a22..316cd3a 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -10,9 +10,10 @@ using namespace base;
 
 void registry::initialize_logger(logger_shr_ptr new_logger) {
     std::lock_guard<std::mutex> lock(loggers_mutex_);
-    new_logger->set_formatter(global_formatter_->clone());
     std::string pattern = global_pattern_;
     new_logger->set_pattern(pattern);
+    // set_pattern() 会替换 formatter，因此全局 formatter 最后设置
+    new_logger->set_formatter(global_formatter_->clone());
     new_logger->set_log_level(global_log_level_);
     new_logger->set_flush_level(global_flush_level_);
     
@@ -60,21 +61,16 @@ void registry::set_default_logger(logger_shr_ptr new_default_logger) {
 }
 
 void registry::set_global_pattern(std::string pattern) {
-    {
-        std::lock_guard<std::mutex> lock(loggers_mutex_);
-        global_pattern_ = pattern;
-    }
     auto new_pattern_formatter = 
-        learnlog::make_unique<sinks::pattern_formatter>(std::move(pattern));
-    set_global_formatter(std::move(new_pattern_formatter));
+        learnlog::make_unique<sinks::pattern_formatter>(pattern);
+    std::lock_guard<std::mutex> lock(loggers_mutex_);
+    global_pattern_ = std::move(pattern);
+    set_global_formatter_(std::move(new_pattern_formatter));
 }
 
 void registry::set_global_formatter(formatter_uni_ptr new_formatter) {
     std::lock_guard<std::mutex> lock(loggers_mutex_);
-    global_formatter_ = std::move(new_formatter);
-    for (auto &l : loggers_) {
-        l.second->set_formatter(global_formatter_->clone());
-    }
+    set_global_formatter_(std::move(new_formatter));
 }
 
 void registry::set_pattern(const std::string& logger_name, std::string pattern) {
@@ -196,6 +192,13 @@ registry::registry()
 
 registry::~registry() = default;
 
+void registry::set_global_formatter_(formatter_uni_ptr new_formatter) {
+    global_formatter_ = std::move(new_formatter);
+    for (auto &l : loggers_) {
+        l.second->set_formatter(global_formatter_->clone());
+    }
+}
+
 void registry::register_logger_(logger_shr_ptr new_logger) {
     std::string logger_name = new_logger->name();
     if (loggers_.find(logger_name) != loggers_.end()) {
diff --git a/base/registry.h b/base/registry.h
index c6aab11..389eafa 100644
--- a/base/registry.h
+++ b/base/registry.h
@@ -66,6 +66,7 @@ public:
 private:
     registry();
     ~registry();
+    void set_global_formatter_(formatter_uni_ptr new_formatter);
     void register_logger_(logger_shr_ptr new_logger);
     void remove_async_loggers_();
 
-- 
2.43.0


From 246d70a8fd1518c7caa247e2041d903377548b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 09/39] fix: file_base::close() leaves no dangling FILE* when
 fclose fails

---
 base/file_base.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/file_base.h b/base/file_base.h
index 57835e6..db5b453 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -10,14 +10,15 @@ namespace file_base {
 // 关闭文件
 inline void close(FILE** fpp, const filename_t& fname) {
     if (*fpp != nullptr) {
-        if (::fclose(*fpp) != 0) {
+        // fclose() 无论成功与否，文件流都不能再使用
+        FILE* fp = *fpp;
+        *fpp = nullptr;
+        if (::fclose(fp) != 0) {
             source_loc loc{__FILE__, __LINE__, __func__};
             std::string fname_str(fname.begin(), fname.end());
             std::string err_str = fmt::format("learnlog::file_base::close() failed, filename: '{}'", fname_str);
             throw_learnlog_excpt(err_str, os::get_errno(), loc);
         }
-        
-        *fpp = nullptr;
     }
 }
 
-- 
2.43.0


From 5f50c258ee0b5d508cdd31290527770599bf2b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 10/39] fix: file_base::open() waits the given milliseconds
 between its attempts

---
 base/file_base.h | 7 ++++---
 base/os.h        | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/base/file_base.h b/base/file_base.h
index db5b453..d468428 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -43,13 +43,14 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
     for (int i=0; i < try_times; ++i) {
         os::create_dir(os::get_dir(fname));
         
+        bool truncated = true;
         if (truncate) {
             FILE* fd_tmp;
-            if (!os::open_file(&fd_tmp, fname, wb)) continue;
-            ::fclose(fd_tmp);
+            truncated = os::open_file(&fd_tmp, fname, wb);
+            if (truncated) ::fclose(fd_tmp);
         }
         
-        if (os::open_file(fpp, fname, ab)) return;
+        if (truncated && os::open_file(fpp, fname, ab)) return;
 
         os::sleep_for_ms(try_every_ms);
     }
diff --git a/base/os.h b/base/os.h
index a664aa1..8f2fd92 100755
--- a/base/os.h
+++ b/base/os.h
@@ -78,7 +78,7 @@ inline void sleep_for_ms(size_t ms) noexcept {
 #ifdef _WIN32
     ::Sleep(static_cast<DWORD>(ms));
 #else
-    std::this_thread::sleep_for(microseconds{ms});
+    std::this_thread::sleep_for(milliseconds{ms});
 #endif
 }
 
-- 
2.43.0


From 6f6a1a4771d2d59a6ad0dd8c228f257b6c538498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 11/39] fix: create_dir() handles absolute paths and concurrent
 creation

---
 base/os.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 8f2fd92..8f09044 100755
--- a/base/os.h
+++ b/base/os.h
@@ -206,7 +206,9 @@ inline bool create_dir(const filename_t& path) {
         }
 #endif
 
-        if (!dir_exist(curr_dir) && !mkdir_(curr_dir)) {
+        // 绝对路径的第一段为空；创建失败时，目录可能刚被其它线程或进程创建
+        if (!curr_dir.empty() && !dir_exist(curr_dir) && 
+            !mkdir_(curr_dir) && !dir_exist(curr_dir)) {
             return false;
         }
         offset = spr_pos + 1;
-- 
2.43.0


From 08225b6f1de6ebb4063bd3753d46ed0a229c970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 12/39] fix: file sink destructors report I/O errors instead of
 terminating the process

---
 sinks/basic_file_sink.h   | 14 ++++++++++++--
 sinks/rolling_file_sink.h | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/sinks/basic_file_sink.h b/sinks/basic_file_sink.h
index 461cfee..db7557b 100644
--- a/sinks/basic_file_sink.h
+++ b/sinks/basic_file_sink.h
@@ -24,8 +24,18 @@ public:
     }
     
     ~basic_file_sink() override {
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, filename_);
+        try {
+            basic_sink<Mutex>::flush();
+        }
+        catch(const std::exception& e) {
+            learnlog::handle_excpt(e.what());
+        }
+        try {
+            base::file_base::close(&file_, filename_);
+        }
+        catch(const std::exception& e) {
+            learnlog::handle_excpt(e.what());
+        }
     }
 
     filename_t filename() const { return filename_; }
diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index db233bd..adf5b22 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -41,8 +41,18 @@ public:
     }
 
     ~rolling_file_sink() { 
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, get_rolling_filename(file_index_));
+        try {
+            basic_sink<Mutex>::flush();
+        }
+        catch(const std::exception& e) {
+            learnlog::handle_excpt(e.what());
+        }
+        try {
+            base::file_base::close(&file_, get_rolling_filename(file_index_));
+        }
+        catch(const std::exception& e) {
+            learnlog::handle_excpt(e.what());
+        }
     }
    
     filename_t base_filename() const { return base_fname_; }
-- 
2.43.0


From c36d0af7fa6b06a5ad9bf258041f87e666ed3958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 13/39] fix: rolling_file_sink recovers after a failed roll

---
 base/file_base.h          | 2 ++
 sinks/rolling_file_sink.h | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/file_base.h b/base/file_base.h
index d468428..4d26970 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -63,6 +63,8 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
 
 // 刷新文件流缓冲区
 inline void flush(FILE* fp, const filename_t& fname) {
+    if (fp == nullptr) return;
+
     if (::fflush(fp) != 0) {
         source_loc loc{__FILE__, __LINE__, __func__};
         std::string fname_str(fname.begin(), fname.end());
diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index adf5b22..84a8672 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -100,6 +100,11 @@ private:
     void output_(const base::log_msg &msg) override {
         fmt_memory_buf buf;
         basic_sink<Mutex>::formatter_->format(msg, buf);
+        if (file_ == nullptr) {
+            // 上一次滚动失败，重新打开文件
+            roll_file_();
+            cur_file_size_ = 0;
+        }
         if (cur_file_size_ + buf.size() > max_file_size_) {
             flush_();
             if (base::file_base::size(file_, get_rolling_filename(file_index_)) > 0) {
@@ -107,8 +112,9 @@ private:
             }
             cur_file_size_ = 0;
         }
-        base::file_base::write(file_, get_rolling_filename(file_index_), buf);
+        // 写入失败时可能已写入一部分，因此先计入
         cur_file_size_ += buf.size();
+        base::file_base::write(file_, get_rolling_filename(file_index_), buf);
     }
 
     void flush_() override {
-- 
2.43.0


From acbde13a3324ff4d2101421bc8b8372dba0b50e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 14/39] fix: backtrace of a logger may be switched while it
 logs; a clone has its own backtrace

---
 base/backtracer.h |  9 ++++-----
 include/logger.h  | 19 ++++++++++++++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/base/backtracer.h b/base/backtracer.h
index c795f35..bea9d03 100755
--- a/base/backtracer.h
+++ b/base/backtracer.h
@@ -19,25 +19,24 @@ public:
     backtracer() = default;
     backtracer(const backtracer& other) {
         std::lock_guard<std::mutex> lock(other.mutex_);
-        enabled_ = other.enabled_;
+        enabled_ = other.enabled_.load();
         log_msgs_ = other.log_msgs_;
     }
 
     backtracer& operator=(const backtracer& other) {
         std::lock_guard<std::mutex> lock(other.mutex_);
-        enabled_ = other.enabled_;
+        enabled_ = other.enabled_.load();
         log_msgs_ = other.log_msgs_;
         return *this;
     }
 
     backtracer(backtracer&& other) noexcept {
         std::lock_guard<std::mutex> lock(other.mutex_);
-        enabled_ = std::move(other.enabled_);
+        enabled_ = other.enabled_.load();
         log_msgs_ = std::move(other.log_msgs_);
     }
 
     bool is_enabled() const { 
-        std::lock_guard<std::mutex> lock(mutex_);
         return enabled_;
     }
 
@@ -69,7 +68,7 @@ public:
 
 private:
     mutable std::mutex mutex_;
-    bool enabled_ = false;
+    std::atomic<bool> enabled_{false};
     circular_queue<log_msg_buf> log_msgs_;
 };
 
diff --git a/include/logger.h b/include/logger.h
index 107174b..8e99f54 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -37,7 +37,16 @@ public:
 
     virtual ~logger() = default;
 
-    logger(const logger& other) = default;
+    // 复制出的 logger 拥有独立的 backtracer
+    logger(const logger& other) :
+        name_(other.name_),
+        sinks_(other.sinks_),
+        tracer_(other.tracer_ ? std::make_shared<base::backtracer>(*other.tracer_)
+                              : std::make_shared<base::backtracer>()),
+        log_level_(other.log_level_),
+        flush_level_(other.flush_level_),
+        pattern_(other.pattern_),
+        is_async_(other.is_async_) {}
     logger(logger&& other) = default;
     void swap(logger& other) noexcept;
 
@@ -189,7 +198,11 @@ public:
         }
         tracer_->enable_with_size(msg_num);
     }
-    void disable_backtrace() { tracer_->disable(); }
+    void disable_backtrace() {
+        if (tracer_ != nullptr) {
+            tracer_->disable();
+        }
+    }
     void dump_backtrace();
 
     const std::vector<sink_shr_ptr>& sinks() const { return sinks_; }
@@ -203,7 +216,7 @@ public:
 protected:
     std::string name_;
     std::vector<sink_shr_ptr> sinks_;
-    std::shared_ptr<base::backtracer> tracer_;
+    std::shared_ptr<base::backtracer> tracer_ = std::make_shared<base::backtracer>();
     level::level_enum log_level_ = level::info;
     level::level_enum flush_level_ = level::off;
     std::string pattern_ = "%+";
-- 
2.43.0


From 844b5b6697f5414f1bfa56462f00eb5fce4055c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 15/39] fix: log and flush level of a logger may be changed
 while it logs

---
 include/logger.h | 17 ++++++++++++-----
 src/logger.cpp   |  4 ++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/logger.h b/include/logger.h
index 8e99f54..8b9f6ac 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -43,11 +43,18 @@ public:
         sinks_(other.sinks_),
         tracer_(other.tracer_ ? std::make_shared<base::backtracer>(*other.tracer_)
                               : std::make_shared<base::backtracer>()),
-        log_level_(other.log_level_),
-        flush_level_(other.flush_level_),
+        log_level_(other.get_log_level()),
+        flush_level_(other.get_flush_level()),
         pattern_(other.pattern_),
         is_async_(other.is_async_) {}
-    logger(logger&& other) = default;
+    logger(logger&& other) :
+        name_(std::move(other.name_)),
+        sinks_(std::move(other.sinks_)),
+        tracer_(std::move(other.tracer_)),
+        log_level_(other.get_log_level()),
+        flush_level_(other.get_flush_level()),
+        pattern_(std::move(other.pattern_)),
+        is_async_(other.is_async_) {}
     void swap(logger& other) noexcept;
 
     // 模板函数 log() 的完整参数实现，msg 以 fmt_format_string 类型及可变参数传入
@@ -217,8 +224,8 @@ protected:
     std::string name_;
     std::vector<sink_shr_ptr> sinks_;
     std::shared_ptr<base::backtracer> tracer_ = std::make_shared<base::backtracer>();
-    level::level_enum log_level_ = level::info;
-    level::level_enum flush_level_ = level::off;
+    std::atomic<level::level_enum> log_level_{level::info};
+    std::atomic<level::level_enum> flush_level_{level::off};
     std::string pattern_ = "%+";
     bool is_async_ = false;  
 
diff --git a/src/logger.cpp b/src/logger.cpp
index 3c2a5d4..4bf11f0 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -7,8 +7,8 @@ using namespace learnlog;
 void logger::swap(logger& other) noexcept {
     name_.swap(other.name_);
     sinks_.swap(other.sinks_);
-    std::swap(log_level_, other.log_level_);
-    std::swap(flush_level_, other.flush_level_);
+    log_level_ = other.log_level_.exchange(log_level_);
+    flush_level_ = other.flush_level_.exchange(flush_level_);
     std::swap(tracer_, other.tracer_);
 }
 
-- 
2.43.0


From d08d6020ca529140b6d70c2d4c6b9e0dfaf0f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 16/39] fix: every log() overload reports exceptions instead of
 throwing them at the caller

---
 include/logger.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/logger.h b/include/logger.h
index 8b9f6ac..542496c 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -100,8 +100,11 @@ public:
             return;
         }
         
-        base::log_msg log_msg(time, loc, level, msg, name_);
-        do_log_(log_msg, log_enabled, backtrace_enabled);
+        try {
+            base::log_msg log_msg(time, loc, level, msg, name_);
+            do_log_(log_msg, log_enabled, backtrace_enabled);
+        }
+        LEARNLOG_CATCH
     }
 
     // 非模板函数 log() ，缺省 log time ，msg 直接以 fmt_string_view 类型传入
@@ -116,8 +119,11 @@ public:
             return;
         }
         
-        base::log_msg log_msg(loc, level, msg, name_);
-        do_log_(log_msg, log_enabled, backtrace_enabled);
+        try {
+            base::log_msg log_msg(loc, level, msg, name_);
+            do_log_(log_msg, log_enabled, backtrace_enabled);
+        }
+        LEARNLOG_CATCH
     }
 
     // 非模板函数 log() ，缺省 time 与 loc ，msg 直接以 fmt_string_view 类型传入
-- 
2.43.0


From 46816237ba79f5543951c9f6eec6c77fef5ed13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 17/39] fix: concurrent async factories of different types do
 not replace each other's thread pool

---
 include/async_factory.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/async_factory.h b/include/async_factory.h
index b1ac68e..a317c73 100644
--- a/include/async_factory.h
+++ b/include/async_factory.h
@@ -11,12 +11,17 @@
 
 namespace learnlog {
 
+// 所有 async_factory 共用一把锁，因为它们共用 registry 中的线程池
+inline std::mutex& async_factory_mutex() {
+    static std::mutex mutex;
+    return mutex;
+}
+
 template <typename Threadpool>
 struct async_factory_template {
     template <typename Sink, typename... SinkArgs>
     static async_logger_shr_ptr create(std::string logger_name, SinkArgs &&...args) {
-        static std::mutex async_factory_mutex_;
-        std::lock_guard<std::mutex> lock(async_factory_mutex_);
+        std::lock_guard<std::mutex> lock(async_factory_mutex());
         auto tp = base::registry::instance().get_thread_pool();
         if (tp == nullptr) {
             auto tp_new = std::make_shared<Threadpool>();
-- 
2.43.0


From 556137b6dece806eefd69835888838becf2893e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 18/39] fix: is_color_terminal() evaluates the terminal type

---
 base/os.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 8f09044..091b5d3 100755
--- a/base/os.h
+++ b/base/os.h
@@ -8,6 +8,7 @@
 #include <sys/stat.h>
 #include <thread>
 #include <ctime>
+#include <cstring>
 #include <array>
 
 #ifdef _WIN32
@@ -116,7 +117,7 @@ inline bool is_color_terminal() noexcept {
         return std::any_of(terms.begin(), terms.end(), [&](const char *term) {
             return std::strstr(env_term, term) != nullptr;
         });
-    };
+    }();
 
     return result;
 #endif
-- 
2.43.0


From b987ab5ebd61ae23eb293297a2a46b2278b94ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:39 +0000
Subject: [PATCH 19/39] fix: abbreviated month names have three letters

---
 sinks/formatters/flag_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 1bef636..477f4c6 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -71,7 +71,7 @@ static const std::array<const char *, 7> weekday_name{
     {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"} };
 
 static const std::array<const char *, 12> month_name{
-    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec"}};
+    {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}};
 
 // 格式化星期几
 class a_formatter final : public flag_formatter {
-- 
2.43.0


From 5df8b7cd43839f7aec9b66054ebd4796a89cd698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 20/39] fix: a worker thread survives a failed allocation

---
 base/thread_pool.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/thread_pool.cpp b/base/thread_pool.cpp
index b0bb45b..9d621be 100755
--- a/base/thread_pool.cpp
+++ b/base/thread_pool.cpp
@@ -67,5 +67,10 @@ bool thread_pool::handle_async_msg_(async_msg& amsg) {
 }
 
 void thread_pool::worker_loop_() {
-    while( process_async_msg_() ) {}
+    bool active = true;
+    while (active) {
+        // 例如内存不足，此时消息还没有出队，之后重新尝试
+        try { active = process_async_msg_(); }
+        LEARNLOG_CATCH
+    }
 }
\ No newline at end of file
-- 
2.43.0


From ea60f63be5a7c7152dd28439f4a231e0af7ca833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:29 +0000
Subject: [PATCH 21/39] fix: the queue's free list acquires the node a failed
 exchange returns

---
 base/concurrentqueue/concurrentqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/concurrentqueue/concurrentqueue.h b/base/concurrentqueue/concurrentqueue.h
index c46aff9..c254170 100644
--- a/base/concurrentqueue/concurrentqueue.h
+++ b/base/concurrentqueue/concurrentqueue.h
@@ -1489,7 +1489,7 @@ private:
 				// Good, reference count has been incremented (it wasn't at zero), which means we can read the
 				// next and not worry about it changing between now and the time we do the CAS
 				auto next = head->freeListNext.load(std::memory_order_relaxed);
-				if (freeListHead.compare_exchange_strong(head, next, std::memory_order_acquire, std::memory_order_relaxed)) {
+				if (freeListHead.compare_exchange_strong(head, next, std::memory_order_acquire, std::memory_order_acquire)) {
 					// Yay, got the node. This means it was on the list, which means shouldBeOnFreeList must be false no
 					// matter the refcount (because nobody else knows it's been taken off yet, it can't have been put back on).
 					assert((head->freeListRefs.load(std::memory_order_relaxed) & SHOULD_BE_ON_FREELIST) == 0);
-- 
2.43.0


From 3049a2e8541310048dc74500f90af6c39f5a7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 22/39] fix: console sinks report a failed flush instead of
 losing the line silently

---
 sinks/ansicolor_sink.h |  5 ++++-
 sinks/std_sinks.h      | 13 +++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/sinks/ansicolor_sink.h b/sinks/ansicolor_sink.h
index 63047f9..e0ebd1e 100755
--- a/sinks/ansicolor_sink.h
+++ b/sinks/ansicolor_sink.h
@@ -82,7 +82,10 @@ public:
 
     void flush() override {
         std::lock_guard<mutex_t> lock(mutex_);
-        ::fflush(file_);
+        if (::fflush(file_) != 0) {
+            source_loc loc{__FILE__, __LINE__, __func__};
+            throw_learnlog_excpt("learnlog::ansicolor_sink: fflush() failed", errno, loc);
+        }
     }
 
     void set_pattern(const std::string& pattern) override {
diff --git a/sinks/std_sinks.h b/sinks/std_sinks.h
index 2390802..254d961 100755
--- a/sinks/std_sinks.h
+++ b/sinks/std_sinks.h
@@ -84,12 +84,12 @@ public:
                                 base::os::get_errno(), loc);
         }
 #endif
-        ::fflush(file_);    // 每条日志输出后立即清空缓冲区
+        flush_();    // 每条日志输出后立即清空缓冲区
     }
 
     void flush() override {
         std::lock_guard<mutex_t> lock(mutex_);
-        ::fflush(file_);
+        flush_();
     }
 
     void set_pattern(const std::string& pattern) override {
@@ -103,6 +103,15 @@ public:
     }
 
 private:
+    // 数据在刷新时才真正写出，刷新失败意味着日志丢失，不能忽略
+    void flush_() {
+        if (::fflush(file_) != 0) {
+            source_loc loc{__FILE__, __LINE__, __func__};
+            throw_learnlog_excpt("learnlog::std_sink: fflush() failed", 
+                                base::os::get_errno(), loc);
+        }
+    }
+
     mutex_t& mutex_;
     FILE* file_;
     formatter_uni_ptr formatter_;
-- 
2.43.0


From 4a9ec76dd8dc17f0b38a08178bb17d789806ae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 23/39] fix: reporting an error does not abort a debug build
 when the clock steps back

---
 base/exception.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/base/exception.h b/base/exception.h
index d209299..a06fcb7 100755
--- a/base/exception.h
+++ b/base/exception.h
@@ -32,7 +32,6 @@ inline void handle_excpt(const std::string& msg) {
     tp lr_time = last_report_time.load(std::memory_order_acquire);
     tp now = sys_clock::now();
     size_t cnt = report_cnt.fetch_add(1, std::memory_order_relaxed);
-    assert( now - lr_time > std::chrono::nanoseconds(1) );
     (void)lr_time;
     // if(now - lr_time < std::chrono::seconds(1)){ return; }
     last_report_time.store(now, std::memory_order_release);
-- 
2.43.0


From 2391468af0fe451ce810cff71d530407de025403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:51 +0000
Subject: [PATCH 24/39] fix: a failed write of a colour sequence is reported,
 too

---
 sinks/ansicolor_sink.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sinks/ansicolor_sink.h b/sinks/ansicolor_sink.h
index e0ebd1e..481ae33 100755
--- a/sinks/ansicolor_sink.h
+++ b/sinks/ansicolor_sink.h
@@ -53,6 +53,7 @@ public:
         formatter_->format(msg, buf);
 
         std::string level_color = level_colors_.at(static_cast<size_t>(msg.level));
+        size_t bytes_expected = buf.size();
         size_t bytes_written = 0;
         size_t bytes;
         if (is_color_enabled_ && msg.color_index_end > msg.color_index_start) {
@@ -60,11 +61,14 @@ public:
             bytes_written += bytes;
 
             // 根据 log_msg.level 确定颜色，通过添加 ANSI 颜色转义字符串给标记文字区间上色，然后恢复默认颜色
-            ::fwrite(level_color.c_str(), sizeof(char), level_color.size(), file_);
+            bytes = ::fwrite(level_color.c_str(), sizeof(char), level_color.size(), file_);
+            bytes_written += bytes;
             bytes = ::fwrite(buf.data() + msg.color_index_start, sizeof(char), 
                                 msg.color_index_end - msg.color_index_start, file_);
             bytes_written += bytes;
-            ::fwrite(reset.c_str(), sizeof(char), reset.size(), file_);
+            bytes = ::fwrite(reset.c_str(), sizeof(char), reset.size(), file_);
+            bytes_written += bytes;
+            bytes_expected += level_color.size() + reset.size();
 
             bytes = ::fwrite(buf.data() + msg.color_index_end, sizeof(char), 
                                 buf.size() - msg.color_index_end, file_);
@@ -74,7 +78,7 @@ public:
             bytes_written = ::fwrite(buf.data(), sizeof(char), buf.size(), file_);
         }
 
-        if (bytes_written != buf.size()) {
+        if (bytes_written != bytes_expected) {
             source_loc loc{__FILE__, __LINE__, __func__};
             throw_learnlog_excpt("learnlog::ansicolor_sink: fwrite() failed", errno, loc);
         }
-- 
2.43.0


From c59c356f6640aedb825d3494fd1eb2dc2580a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 25/39] fix: a pattern that ends within a flag is not read
 beyond its end

---
 sinks/formatters/pattern_formatter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 9b989ea..f7453a7 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -59,9 +59,8 @@ void pattern_formatter::analyse_pattern_(const std::string& pattern) {
 
             spaces_info sp_info = analyse_spaces_info_(++it, end);
 
-            if (it != end) {
-                append_flag_formatter_(*it, sp_info);
-            }
+            if (it == end) break;   // 模板在格式字符之前结束
+            append_flag_formatter_(*it, sp_info);
         }
         else {
             if (!as_is_formatter) {
-- 
2.43.0


From db3972ee38a000f75dc0e3c1487f71a065e55afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 26/39] fix: giving up a thread pool survives a failed
 allocation

---
 base/lock_thread_pool.h                |  2 +-
 base/lockfree_concurrent_thread_pool.h | 15 +++++++++++----
 base/lockfree_thread_pool.h            | 14 ++++++++++----
 base/thread_pool.cpp                   | 11 +++++++++++
 base/thread_pool.h                     |  1 +
 5 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/base/lock_thread_pool.h b/base/lock_thread_pool.h
index 2bf0baf..b4a0f9d 100644
--- a/base/lock_thread_pool.h
+++ b/base/lock_thread_pool.h
@@ -55,7 +55,7 @@ public:
 
     ~lock_thread_pool() override {
         for (size_t i = 0; i < threads_num_; i++) {
-            enqueue_async_msg_(async_msg(async_msg_type::terminate));
+            terminate_worker_();
         }
         try {
             for(auto &t : threads_){
diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index 56e7a2f..3ef50f2 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -150,8 +150,14 @@ public:
     ~lockfree_concurrent_thread_pool() override {
         for (auto &token : atomic_tokens_) {
             producer_sema_.signal();
-            msg_q_.enqueue(token->p_token_,
-                           async_msg(async_msg_type::terminate));
+            // 例如内存不足时必须重试，否则工作线程不会退出
+            for (bool enqueued = false; !enqueued;) {
+                try {
+                    enqueued = msg_q_.enqueue(token->p_token_,
+                                              async_msg(async_msg_type::terminate));
+                }
+                LEARNLOG_CATCH
+            }
         }
         try {
             for(auto &t : threads_){
@@ -220,12 +226,13 @@ private:
         }
 
         atomic_token* token = nullptr;
-        size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
+        size_t cnt = producer_cnt_.load(std::memory_order_relaxed);
         {
             std::lock_guard<std::mutex> t_lock(t_mutex_);
             token = atomic_tokens_[cnt % threads_num_];
         }
-        producer_atomic_tokens_[tid] = token;
+        producer_atomic_tokens_[tid] = token;       // 可能抛出异常，之后再计数并唤醒工作线程
+        producer_cnt_.store(cnt + 1, std::memory_order_relaxed);
         producer_sema_.signal();
         return token;
     }
diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index e679882..44a178b 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -88,7 +88,7 @@ public:
             // os::sleep_for_ms(1);
         }
         for (size_t i = 0; i < threads_num_; i++) {
-            enqueue_async_msg_(async_msg(async_msg_type::terminate));
+            terminate_worker_();
         }
         try {
             for (auto &t : threads_){
@@ -96,9 +96,15 @@ public:
             }
             // 不同生产者的消息之间没有先后顺序，工作线程可能先取到 terminate，
             // 因此退出后队列中可能还有未处理的消息
-            async_msg amsg;
-            while (msg_q_.try_dequeue(amsg)) {
-                handle_async_msg_(amsg);
+            for (bool drained = false; !drained;) {
+                try {
+                    async_msg amsg;
+                    while (msg_q_.try_dequeue(amsg)) {
+                        handle_async_msg_(amsg);
+                    }
+                    drained = true;
+                }
+                LEARNLOG_CATCH
             }
         }
         catch(const std::exception& e) {
diff --git a/base/thread_pool.cpp b/base/thread_pool.cpp
index 9d621be..882eeef 100755
--- a/base/thread_pool.cpp
+++ b/base/thread_pool.cpp
@@ -73,4 +73,15 @@ void thread_pool::worker_loop_() {
         try { active = process_async_msg_(); }
         LEARNLOG_CATCH
     }
+}
+
+void thread_pool::terminate_worker_() {
+    // 在析构函数中调用，例如内存不足时必须重试，否则工作线程不会退出
+    for (;;) {
+        try {
+            enqueue_async_msg_(async_msg(async_msg_type::terminate));
+            return;
+        }
+        LEARNLOG_CATCH
+    }
 }
\ No newline at end of file
diff --git a/base/thread_pool.h b/base/thread_pool.h
index 33e0e7d..781d653 100755
--- a/base/thread_pool.h
+++ b/base/thread_pool.h
@@ -36,6 +36,7 @@ protected:
     bool process_async_msg_();
     bool handle_async_msg_(async_msg& amsg);
     void worker_loop_();
+    void terminate_worker_();
     virtual void enqueue_async_msg_(async_msg&& amsg) = 0;
     virtual void dequeue_async_msg_(async_msg& amsg) = 0;
 
-- 
2.43.0


From 798f21a0383b7fa49678597c7bcc141dd849f8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 27/39] fix: a lock-free producer whose first allocation failed
 can enqueue later

---
 base/concurrentqueue/concurrentqueue.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/concurrentqueue/concurrentqueue.h b/base/concurrentqueue/concurrentqueue.h
index c254170..7fe0b22 100644
--- a/base/concurrentqueue/concurrentqueue.h
+++ b/base/concurrentqueue/concurrentqueue.h
@@ -2905,7 +2905,14 @@ private:
 		{
 			auto localBlockIndex = blockIndex.load(std::memory_order_relaxed);		// We're the only writer thread, relaxed is OK
 			if (localBlockIndex == nullptr) {
-				return false;  // this can happen if new_block_index failed in the constructor
+				// this can happen if new_block_index failed in the constructor: try again, or this producer could never enqueue
+				MOODYCAMEL_CONSTEXPR_IF (allocMode == CannotAlloc) {
+					return false;
+				}
+				else if (!new_block_index()) {
+					return false;
+				}
+				localBlockIndex = blockIndex.load(std::memory_order_relaxed);
 			}
 			size_t newTail = (localBlockIndex->tail.load(std::memory_order_relaxed) + 1) & (localBlockIndex->capacity - 1);
 			idxEntry = localBlockIndex->index[newTail];
-- 
2.43.0


From a0ba713ca67a1efd8a1ee2d6923c2778f174b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 28/39] fix: an ostream sink reports a failed stream

Messages logged to a stream that had failed were lost without a word.
---
 sinks/ostream_sink.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sinks/ostream_sink.h b/sinks/ostream_sink.h
index 82abb78..ed9bf07 100755
--- a/sinks/ostream_sink.h
+++ b/sinks/ostream_sink.h
@@ -30,9 +30,17 @@ private:
         ostream_.write(buf.data(), static_cast<std::streamsize>(buf.size()));
         
         if (force_flush_) { ostream_.flush(); }
+        check_stream_();
     }
 
-    void flush_() override { ostream_.flush(); }
+    void flush_() override { ostream_.flush(); check_stream_(); }
+
+    // 流出错后不再输出，直到调用者清除错误状态，不能让 log_msg 无声丢失
+    void check_stream_() {
+        if (!ostream_) {
+            throw_learnlog_excpt("learnlog::ostream_sink: stream failed");
+        }
+    }
 
     std::ostream& ostream_;
     bool force_flush_;      // 是否在将 1 条 log_msg 写入 ostream 后立即清空缓冲区
-- 
2.43.0


From 11d21da30503dca3de8c20057bf46fa59419bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 29/39] fix: a thread pool whose workers cannot all be started
 throws

The workers already started were neither told to end nor joined: destroying
their std::thread objects ended the process, or they used a pool that was gone.
---
 base/lock_thread_pool.h                |  6 ++++
 base/lockfree_concurrent_thread_pool.h | 43 +++++++++++++++++++-------
 base/lockfree_thread_pool.h            |  6 ++++
 base/thread_pool.cpp                   | 11 ++++++-
 base/thread_pool.h                     | 18 +++++++++++
 5 files changed, 72 insertions(+), 12 deletions(-)

diff --git a/base/lock_thread_pool.h b/base/lock_thread_pool.h
index b4a0f9d..2eae7c3 100644
--- a/base/lock_thread_pool.h
+++ b/base/lock_thread_pool.h
@@ -18,6 +18,7 @@ public:
                      const std::function<void()>& on_thread_stop)
         : thread_pool(queue_size, lock, threads_num, on_thread_start, on_thread_stop),
           msg_q_(msg_q_size_) {
+        start_guard guard(*this);
         for (size_t i = 0; i < threads_num_; ++i) {
             threads_.emplace_back([this] {
                 start_func_();
@@ -25,12 +26,14 @@ public:
                 stop_func_();
             });
         }
+        guard.started();
     }
     
     lock_thread_pool(size_t queue_size, size_t threads_num, 
                      const std::function<void()>& on_thread_start)
         : thread_pool(queue_size, lock, threads_num, on_thread_start, []{}),
           msg_q_(msg_q_size_) {
+        start_guard guard(*this);
         for (size_t i = 0; i < threads_num_; ++i) {
             threads_.emplace_back([this] {
                 start_func_();
@@ -38,12 +41,14 @@ public:
                 stop_func_();
             });
         }
+        guard.started();
     }
 
     lock_thread_pool(size_t queue_size = default_queue_size,
                      size_t threads_num = default_threads_num)
         : thread_pool(queue_size, lock, threads_num, []{}, []{}),
           msg_q_(msg_q_size_) {
+        start_guard guard(*this);
         for (size_t i = 0; i < threads_num_; ++i) {
             threads_.emplace_back([this] {
                 start_func_();
@@ -51,6 +56,7 @@ public:
                 stop_func_();
             });
         }
+        guard.started();
     }
 
     ~lock_thread_pool() override {
diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index 3ef50f2..d33bf95 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -47,6 +47,7 @@ public:
                       on_thread_start,
                       on_thread_stop),
           msg_q_(msg_q_size_) {
+        start_guard guard(*this);
         for (size_t i = 0; i < threads_num_; ++i) {
             atomic_tokens_.emplace_back(new atomic_token(msg_q_));
         }
@@ -73,6 +74,7 @@ public:
                 stop_func_();
             });
         }
+        guard.started();
     }
     
     lockfree_concurrent_thread_pool(size_t queue_size, size_t threads_num, 
@@ -83,6 +85,7 @@ public:
                       on_thread_start,
                       []{}),
           msg_q_(msg_q_size_) {
+        start_guard guard(*this);
         for (size_t i = 0; i < threads_num_; ++i) {
             atomic_tokens_.emplace_back(new atomic_token(msg_q_));
         }
@@ -109,6 +112,7 @@ public:
                 stop_func_();
             });
         }
+        guard.started();
     }
 
     lockfree_concurrent_thread_pool(size_t queue_size = default_queue_size,
@@ -119,6 +123,7 @@ public:
                       []{},
                       []{}),
           msg_q_(msg_q_size_) {
+        start_guard guard(*this);
         for (size_t i = 0; i < threads_num_; ++i) {
             atomic_tokens_.emplace_back(new atomic_token(msg_q_));
         }
@@ -145,20 +150,11 @@ public:
                 stop_func_();
             });
         }
+        guard.started();
     }
 
     ~lockfree_concurrent_thread_pool() override {
-        for (auto &token : atomic_tokens_) {
-            producer_sema_.signal();
-            // 例如内存不足时必须重试，否则工作线程不会退出
-            for (bool enqueued = false; !enqueued;) {
-                try {
-                    enqueued = msg_q_.enqueue(token->p_token_,
-                                              async_msg(async_msg_type::terminate));
-                }
-                LEARNLOG_CATCH
-            }
-        }
+        terminate_workers_();
         try {
             for(auto &t : threads_){
                 t.join();
@@ -177,6 +173,31 @@ public:
     size_t current_msg_count() { return msg_q_.size_approx(); }
 
 private:
+    // 工作线程按顺序使用前 threads_.size() 个 token
+    void terminate_workers_() {
+        for (size_t i = 0; i < threads_.size(); i++) {
+            producer_sema_.signal();
+            // 例如内存不足时必须重试，否则工作线程不会退出
+            for (bool enqueued = false; !enqueued;) {
+                try {
+                    enqueued = msg_q_.enqueue(atomic_tokens_[i]->p_token_,
+                                              async_msg(async_msg_type::terminate));
+                }
+                LEARNLOG_CATCH
+            }
+        }
+    }
+
+    void stop_workers_() override {
+        terminate_workers_();
+        for (auto &t : threads_) {
+            t.join();
+        }
+        for (auto &token : atomic_tokens_) {
+            delete token;
+        }
+    }
+
     void enqueue_async_msg_(async_msg&& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index 44a178b..f4c1afc 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -21,6 +21,7 @@ public:
                          const std::function<void()>& on_thread_stop)
         : thread_pool(queue_size, lockfree, threads_num, on_thread_start, on_thread_stop),
           msg_q_(msg_q_size_) {
+        start_guard guard(*this);
         for (size_t i = 0; i < threads_num_; ++i) {
             threads_.emplace_back([this] {
                 start_func_();
@@ -37,12 +38,14 @@ public:
                 stop_func_();
             });
         }
+        guard.started();
     }
     
     lockfree_thread_pool(size_t queue_size, size_t threads_num, 
                            const std::function<void()>& on_thread_start)
         : thread_pool(queue_size, lockfree, threads_num, on_thread_start, []{}),
           msg_q_(msg_q_size_) {
+        start_guard guard(*this);
         for (size_t i = 0; i < threads_num_; ++i) {
             threads_.emplace_back([this] {
                 start_func_();
@@ -59,12 +62,14 @@ public:
                 stop_func_();
             });
         }
+        guard.started();
     }
 
     lockfree_thread_pool(size_t queue_size = default_queue_size,
                      size_t threads_num = default_threads_num)
         : thread_pool(queue_size, lockfree, threads_num, []{}, []{}),
           msg_q_(msg_q_size_) {
+        start_guard guard(*this);
         for (size_t i = 0; i < threads_num_; ++i) {
             threads_.emplace_back([this] {
                 start_func_();
@@ -81,6 +86,7 @@ public:
                 stop_func_();
             });
         }
+        guard.started();
     }
 
     ~lockfree_thread_pool() override {
diff --git a/base/thread_pool.cpp b/base/thread_pool.cpp
index 882eeef..7464513 100755
--- a/base/thread_pool.cpp
+++ b/base/thread_pool.cpp
@@ -84,4 +84,13 @@ void thread_pool::terminate_worker_() {
         }
         LEARNLOG_CATCH
     }
-}
\ No newline at end of file
+}
+
+void thread_pool::stop_workers_() {
+    for (size_t i = 0; i < threads_.size(); i++) {
+        terminate_worker_();
+    }
+    for (auto &t : threads_) {
+        t.join();
+    }
+}
diff --git a/base/thread_pool.h b/base/thread_pool.h
index 781d653..818993c 100755
--- a/base/thread_pool.h
+++ b/base/thread_pool.h
@@ -37,9 +37,27 @@ protected:
     bool handle_async_msg_(async_msg& amsg);
     void worker_loop_();
     void terminate_worker_();
+    virtual void stop_workers_();
     virtual void enqueue_async_msg_(async_msg&& amsg) = 0;
     virtual void dequeue_async_msg_(async_msg& amsg) = 0;
 
+    // 构造函数中创建工作线程失败时，让已创建的线程退出，否则析构 std::thread 会终止程序
+    class start_guard {
+    public:
+        explicit start_guard(thread_pool& pool) : pool_(pool) {}
+        ~start_guard() {
+            if (!started_) { pool_.stop_workers_(); }
+        }
+        start_guard(const start_guard&) = delete;
+        start_guard& operator=(const start_guard&) = delete;
+
+        void started() { started_ = true; }
+
+    private:
+        thread_pool& pool_;
+        bool started_{false};
+    };
+
     size_t msg_q_size_;
     msg_queue_type msg_q_type_;
     size_t threads_num_;
-- 
2.43.0


From a3e76916266a45c5584c00a5f5bb1687e9ccd9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 30/39] fix: reporting an error allocates no memory

A report made while memory was short threw out of the handler: the remaining
sinks did not get the message, or log() and flush() threw at the caller.
---
 base/exception.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/exception.h b/base/exception.h
index a06fcb7..7c667c7 100755
--- a/base/exception.h
+++ b/base/exception.h
@@ -24,7 +24,8 @@ namespace learnlog {
 
 // 将异常的编号、时间、信息输出到stderr
 // 通过 staic std::atomic 保证编号和时间的一致性、原子性
-inline void handle_excpt(const std::string& msg) {
+// 不申请内存，内存不足时也能报告
+inline void handle_excpt(const char* msg) {
     using tp = sys_clock::time_point;
     static std::atomic<tp> last_report_time{ tp(seconds(0)) };
     static std::atomic<size_t> report_cnt{1};
@@ -38,7 +39,11 @@ inline void handle_excpt(const std::string& msg) {
 
     char dt_buf[32];
     base::os::time_point_to_datetime_sec(dt_buf, sizeof(dt_buf), now);
-    std::fprintf(stderr, "[*** EXCEPTION #%04zu ***] [%s] %s\n", cnt, dt_buf, msg.c_str());
+    std::fprintf(stderr, "[*** EXCEPTION #%04zu ***] [%s] %s\n", cnt, dt_buf, msg);
+}
+
+inline void handle_excpt(const std::string& msg) {
+    handle_excpt(msg.c_str());
 }
 
 // 自定义异常
-- 
2.43.0


From f05feb6113fdd0b821047deb728ca07a75f658dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 31/39] fix: swapping two loggers swaps their patterns

get_pattern() told the pattern of the other logger's sinks afterwards.
---
 src/logger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logger.cpp b/src/logger.cpp
index 4bf11f0..65c04a2 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -10,6 +10,7 @@ void logger::swap(logger& other) noexcept {
     log_level_ = other.log_level_.exchange(log_level_);
     flush_level_ = other.flush_level_.exchange(flush_level_);
     std::swap(tracer_, other.tracer_);
+    pattern_.swap(other.pattern_);
 }
 
 void logger::set_pattern(std::string pattern) {
-- 
2.43.0


From b0794053f0fbe52a8f4a64757e6704509ead358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 32/39] fix: changing a logger's pattern from several threads
 was a data race

Concurrent calls of set_pattern(), get_pattern() and clone() used the string
unprotected, and could leave the sinks with another pattern than get_pattern()
tells.
---
 include/logger.h | 9 +++++++--
 src/logger.cpp   | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/logger.h b/include/logger.h
index 542496c..885acbc 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -7,6 +7,7 @@
 
 #include <vector>
 #include <atomic>
+#include <mutex>
 
 namespace learnlog {
 
@@ -45,7 +46,7 @@ public:
                               : std::make_shared<base::backtracer>()),
         log_level_(other.get_log_level()),
         flush_level_(other.get_flush_level()),
-        pattern_(other.pattern_),
+        pattern_(other.get_pattern()),
         is_async_(other.is_async_) {}
     logger(logger&& other) :
         name_(std::move(other.name_)),
@@ -201,7 +202,10 @@ public:
 
     void set_pattern(std::string pattern);
 
-    std::string& get_pattern() { return pattern_; }
+    std::string get_pattern() const {
+        std::lock_guard<std::mutex> lock(pattern_mutex_);
+        return pattern_;
+    }
 
     void set_formatter(formatter_uni_ptr formatter);
 
@@ -232,6 +236,7 @@ protected:
     std::shared_ptr<base::backtracer> tracer_ = std::make_shared<base::backtracer>();
     std::atomic<level::level_enum> log_level_{level::info};
     std::atomic<level::level_enum> flush_level_{level::off};
+    mutable std::mutex pattern_mutex_;  // 任意线程可随时修改 pattern_
     std::string pattern_ = "%+";
     bool is_async_ = false;  
 
diff --git a/src/logger.cpp b/src/logger.cpp
index 65c04a2..d302507 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -14,6 +14,7 @@ void logger::swap(logger& other) noexcept {
 }
 
 void logger::set_pattern(std::string pattern) {
+    std::lock_guard<std::mutex> lock(pattern_mutex_);
     pattern_ = pattern;
     auto p_formatter = learnlog::make_unique<sinks::pattern_formatter>(std::move(pattern));
     set_formatter(std::move(p_formatter));
-- 
2.43.0


From b83ee4d63b82daf8aba719c9c3bf40d37fba0c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 33/39] fix: the free logging functions do nothing without a
 default logger

---
 include/learnlog.h | 64 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/include/learnlog.h b/include/learnlog.h
index dc2efe2..1c543f9 100644
--- a/include/learnlog.h
+++ b/include/learnlog.h
@@ -193,84 +193,116 @@ void log(source_loc loc,
          level::level_enum level, 
          fmt_format_string<Args...> fmt_fstr, 
          Args &&...args) {
-    learnlog::get_default_logger()->log(loc, level, fmt_fstr, std::forward<Args>(args)...);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->log(loc, level, fmt_fstr, std::forward<Args>(args)...);
+    }
 }
 
 template <typename... Args>
 void log(level::level_enum level, fmt_format_string<Args...> fmt_fstr, Args &&...args) {
-    learnlog::get_default_logger()->log(level, fmt_fstr, std::forward<Args>(args)...);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->log(level, fmt_fstr, std::forward<Args>(args)...);
+    }
 }
 
 template <typename T,
               typename std::enable_if<!is_convertible_to_basic_format_string<const T &>::value,
                                       int>::type = 0>
 void log(source_loc loc, level::level_enum lvl, const T &msg) {
-    learnlog::get_default_logger()->log(loc, lvl, msg);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->log(loc, lvl, msg);
+    }
 }
 
 template <typename T>
 void log(level::level_enum level, const T& msg) {
-    learnlog::get_default_logger()->log(level, msg);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->log(level, msg);
+    }
 }
 
 template <typename... Args>
 void trace(fmt_format_string<Args...> fmt_fstr, Args &&...args) {
-    learnlog::get_default_logger()->trace(fmt_fstr, std::forward<Args>(args)...);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->trace(fmt_fstr, std::forward<Args>(args)...);
+    }
 }
 
 template <typename... Args>
 void debug(fmt_format_string<Args...> fmt_fstr, Args &&...args) {
-    learnlog::get_default_logger()->debug(fmt_fstr, std::forward<Args>(args)...);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->debug(fmt_fstr, std::forward<Args>(args)...);
+    }
 }
 
 template <typename... Args>
 void info(fmt_format_string<Args...> fmt_fstr, Args &&...args) {
-    learnlog::get_default_logger()->info(fmt_fstr, std::forward<Args>(args)...);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->info(fmt_fstr, std::forward<Args>(args)...);
+    }
 }
 
 template <typename... Args>
 void warn(fmt_format_string<Args...> fmt_fstr, Args &&...args) {
-    learnlog::get_default_logger()->warn(fmt_fstr, std::forward<Args>(args)...);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->warn(fmt_fstr, std::forward<Args>(args)...);
+    }
 }
 
 template <typename... Args>
 void error(fmt_format_string<Args...> fmt_fstr, Args &&...args) {
-    learnlog::get_default_logger()->error(fmt_fstr, std::forward<Args>(args)...);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->error(fmt_fstr, std::forward<Args>(args)...);
+    }
 }
 
 template <typename... Args>
 void critical(fmt_format_string<Args...> fmt_fstr, Args &&...args) {
-    learnlog::get_default_logger()->critical(fmt_fstr, std::forward<Args>(args)...);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->critical(fmt_fstr, std::forward<Args>(args)...);
+    }
 }
 
 template <typename T>
 void trace(const T& msg) {
-    learnlog::get_default_logger()->trace(msg);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->trace(msg);
+    }
 }
 
 template <typename T>
 void debug(const T& msg) {
-    learnlog::get_default_logger()->debug(msg);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->debug(msg);
+    }
 }
 
 template <typename T>
 void info(const T& msg) {
-    learnlog::get_default_logger()->info(msg);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->info(msg);
+    }
 }
 
 template <typename T>
 void warn(const T& msg) {
-    learnlog::get_default_logger()->warn(msg);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->warn(msg);
+    }
 }
 
 template <typename T>
 void error(const T& msg) {
-    learnlog::get_default_logger()->error(msg);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->error(msg);
+    }
 }
 
 template <typename T>
 void critical(const T& msg) {
-    learnlog::get_default_logger()->critical(msg);
+    if (auto logger = learnlog::get_default_logger()) {
+        logger->critical(msg);
+    }
 }
 
 }   // namespace learnlog
\ No newline at end of file
-- 
2.43.0


From ba938007de5289a118d27d511452a1ae4dc00d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 34/39] fix: time_point_to_datetime_nsec keeps the date

---
 base/os.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/os.h b/base/os.h
index 091b5d3..513e63f 100755
--- a/base/os.h
+++ b/base/os.h
@@ -70,9 +70,9 @@ inline void time_point_to_datetime_nsec(char* dt_buf, size_t buf_len, const sys_
     ns_str[9] = '\0';
 
     std::tm tm = time_point_to_tm(tp);
-    std::strftime(dt_buf, buf_len, "%Y-%m-%d %H:%M:%S.", &tm);
+    size_t len = std::strftime(dt_buf, buf_len, "%Y-%m-%d %H:%M:%S.", &tm);
 
-    snprintf(dt_buf, buf_len, "%s%s", dt_buf, ns_str);
+    snprintf(dt_buf + len, buf_len - len, "%s", ns_str);
 }
 
 inline void sleep_for_ms(size_t ms) noexcept {
-- 
2.43.0


From 659150f2d03f70f6e7e2a0931edcfc5cd5f88dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 35/39] fix: learnlog::swap is defined in its namespace

---
 src/logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index d302507..9f02e25 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -75,4 +75,4 @@ void logger::flush_sink_() {
 }
 
 
-void swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
+void learnlog::swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
-- 
2.43.0


From 386e8962c36f04d4ee99a7e650768d4c57db7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 36/39] fix: a lockfree_concurrent pool made out of memory
 neither leaks nor crashes

---
 base/lockfree_concurrent_thread_pool.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index d33bf95..7f22aa3 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -3,6 +3,7 @@
 #include "base/thread_pool.h"
 #include "concurrentqueue/blockingconcurrentqueue.h"
 #include "async_logger.h"
+#include <new>
 #include <unordered_map>
 
 namespace learnlog {
@@ -14,7 +15,9 @@ struct atomic_token {
 
     explicit atomic_token(moodycamel::ConcurrentQueue<async_msg>& msg_q)
         : p_token_(msg_q),
-          enqueuing_(false) {}
+          enqueuing_(false) {
+        if (!p_token_.valid()) throw std::bad_alloc();      // 内存不足，没有可用的生产者
+    }
 
     void enqueue_lock() {
         bool expected = false;
@@ -48,6 +51,7 @@ public:
                       on_thread_stop),
           msg_q_(msg_q_size_) {
         start_guard guard(*this);
+        atomic_tokens_.reserve(threads_num_);
         for (size_t i = 0; i < threads_num_; ++i) {
             atomic_tokens_.emplace_back(new atomic_token(msg_q_));
         }
@@ -86,6 +90,7 @@ public:
                       []{}),
           msg_q_(msg_q_size_) {
         start_guard guard(*this);
+        atomic_tokens_.reserve(threads_num_);
         for (size_t i = 0; i < threads_num_; ++i) {
             atomic_tokens_.emplace_back(new atomic_token(msg_q_));
         }
@@ -124,6 +129,7 @@ public:
                       []{}),
           msg_q_(msg_q_size_) {
         start_guard guard(*this);
+        atomic_tokens_.reserve(threads_num_);
         for (size_t i = 0; i < threads_num_; ++i) {
             atomic_tokens_.emplace_back(new atomic_token(msg_q_));
         }
-- 
2.43.0


From f2b635aff6a502dbfb016573d52571a0488fd223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 37/39] fix: running out of memory while padding a field no
 longer ends the process

---
 sinks/formatters/filler.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sinks/formatters/filler.h b/sinks/formatters/filler.h
index e0de6b8..7415856 100755
--- a/sinks/formatters/filler.h
+++ b/sinks/formatters/filler.h
@@ -3,6 +3,7 @@
 #include "definitions.h"
 #include "base/fmt_base.h"
 
+#include <algorithm>
 #include <string>
 #include <type_traits>
 
@@ -39,6 +40,8 @@ public:
         if(!spaces_info_.enabled()) return;     // 如果 spaces_info 信息无效则不填充空格
         
         spaces_.resize(MAX_SPACES_LEN, ' ');        // 最大空格填充数为 MAX_SPACES_LEN
+        // 之后填入时不再申请内存：析构函数不能抛出异常，填入失败时也不能截断
+        dest_buf_.reserve(dest_buf_.size() + (std::max)(msg_len, spaces_info_.target_len_));
         spaces_to_fill_ = static_cast<int>(spaces_info_.target_len_ - msg_len);
         if(spaces_to_fill_ <= 0) return;
 
-- 
2.43.0


From 74ab9a370651f2d432eb23be73356914d355beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 38/39] fix: a rolling file sink destroyed without memory no
 longer leaves its file open

---
 sinks/rolling_file_sink.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index 84a8672..3114d53 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -52,6 +52,8 @@ public:
         }
         catch(const std::exception& e) {
             learnlog::handle_excpt(e.what());
+            // 例如内存不足，没有得到文件名，文件仍未关闭
+            if (file_ != nullptr) ::fclose(file_);
         }
     }
    
-- 
2.43.0


From a9baf59a3e03827cb250b62b78099b7843cbe78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 39/39] fix: a file that cannot be opened is reported with the
 reason of the last attempt, not of the wait after it

---
 base/file_base.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/file_base.h b/base/file_base.h
index 4d26970..27e12f3 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -40,6 +40,7 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
     filename_t ab("ab");
 #endif
 
+    int last_errno = 0;
     for (int i=0; i < try_times; ++i) {
         os::create_dir(os::get_dir(fname));
         
@@ -52,13 +53,14 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
         
         if (truncated && os::open_file(fpp, fname, ab)) return;
 
+        last_errno = os::get_errno();   // 等待期间 errno 可能被信号中断改写
         os::sleep_for_ms(try_every_ms);
     }
 
     source_loc loc{__FILE__, __LINE__, __func__};
     std::string fname_str(fname.begin(), fname.end());
     std::string err_str = fmt::format("learnlog::file_base::open() failed, filename: '{}'", fname_str);
-    throw_learnlog_excpt(err_str, os::get_errno(), loc);
+    throw_learnlog_excpt(err_str, last_errno, loc);
 }
 
 // 刷新文件流缓冲区
-- 
2.43.0

