From 3d4f71c5bd0da09dd60ac3f81a6383e054b9fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 01/88] fix: join already started workers when the worker pool
 constructor fails

If creating one of the worker threads failed, the vector of joinable threads
was destroyed during unwinding, which terminated the process instead of
reporting the failure to the caller.
---
 modules/utils/include/litiv/utils/cxx.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 9d46273..c2850b7 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -420,6 +420,7 @@ namespace lv {
         std::atomic_bool m_bIsActive;
     private:
         void entry();
+        void shutdown();
     };
 
     /// stopwatch/chrono helper class; relies on std::chrono::high_resolution_clock internally
@@ -1052,11 +1053,22 @@ namespace lv {
 
 template<size_t nWorkers>
 lv::WorkerPool<nWorkers>::WorkerPool() : m_bIsActive(true) {
-    lv::unroll<nWorkers>([this](size_t){m_vhWorkers.emplace_back(std::bind(&WorkerPool::entry,this));});
+    try {
+        lv::unroll<nWorkers>([this](size_t){m_vhWorkers.emplace_back(std::bind(&WorkerPool::entry,this));});
+    }
+    catch(...) { // the destructor will not be called; workers that did start must not outlive the pool
+        shutdown();
+        throw;
+    }
 }
 
 template<size_t nWorkers>
 lv::WorkerPool<nWorkers>::~WorkerPool() {
+    shutdown();
+}
+
+template<size_t nWorkers>
+void lv::WorkerPool<nWorkers>::shutdown() {
     {
         std::unique_lock<std::mutex> oLock(m_oSyncMutex);
         m_bIsActive = false;
-- 
2.43.0


From 2c4596b0c74e51eb7f35ba2e01f925fba87f3ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 02/88] fix: destroy worker pool tasks outside of the queue
 lock

The task object was destroyed after the queue mutex had been relocked, so that
captured state whose destructor uses the pool deadlocked the worker.
---
 modules/utils/include/litiv/utils/cxx.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index c2850b7..5ff386b 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -1106,6 +1106,7 @@ void lv::WorkerPool<nWorkers>::entry() {
             m_qTasks.pop();
             lv::unlock_guard<lv::mutex_unique_lock> oUnlock(sync_lock);
             task(); // if the execution throws, the exception will be contained in the shared state returned on queue
+            task = nullptr; // released before relocking, as destroying the state captured by the task may use the pool
         }
     }
 }
-- 
2.43.0


From b22761648de5e2212aeb56d6015cacdd431a27fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 03/88] fix: read the semaphore count under its mutex

count() raced with concurrent notify/wait calls.
---
 modules/utils/include/litiv/utils/cxx.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 5ff386b..34e55b8 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -992,6 +992,7 @@ namespace lv {
                 m_nCount(nInitCount) {}
         /// returns the current internal resource count
         inline size_t count() {
+            std::unique_lock<std::mutex> oLock(m_oMutex);
             return m_nCount;
         }
         /// notifies one waiter that a resource is now available
-- 
2.43.0


From 443ad06992f4f2d1d67a4d3c470c754238cb2f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 04/88] fix: do not lose the last character of 1024-character
 formatted messages

vsnprintf returns the length without the terminator, so a result as long as
the buffer is already truncated (putf and safe_print).
---
 modules/utils/src/cxx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/cxx.cpp b/modules/utils/src/cxx.cpp
index 554d92c..995c28f 100644
--- a/modules/utils/src/cxx.cpp
+++ b/modules/utils/src/cxx.cpp
@@ -31,7 +31,7 @@ std::string lv::putf(const char* acFormat, ...) { // NOLINT; reused in non-C++11
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"putf failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) {
         vBuffer.resize((size_t)nWritten);
         return vBuffer;
     }
@@ -148,7 +148,7 @@ std::ostream& lv::safe_print(std::ostream& os, const char* acFormat, ...) { // N
     va_end(vArgs);
     if(nWritten<0)
         lvStdError_(runtime_error,"safe_print failed (1)");
-    if((size_t)nWritten<=vBuffer.size()) {
+    if((size_t)nWritten<vBuffer.size()) {
         vBuffer.resize((size_t)nWritten);
         std::lock_guard<std::mutex> oLock(getLogMutex());
         return os << vBuffer;
-- 
2.43.0


From db5421ddc7f6cac8e77c1403b0e182500f9089e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 05/88] fix: measure elapsed time with a monotonic clock

high_resolution_clock may be the system clock (it is with libstdc++), so that
wall clock adjustments made stopwatches report negative or huge durations.
---
 modules/utils/include/litiv/utils/cxx.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/utils/include/litiv/utils/cxx.hpp b/modules/utils/include/litiv/utils/cxx.hpp
index 34e55b8..f3f4e5c 100644
--- a/modules/utils/include/litiv/utils/cxx.hpp
+++ b/modules/utils/include/litiv/utils/cxx.hpp
@@ -423,7 +423,7 @@ namespace lv {
         void shutdown();
     };
 
-    /// stopwatch/chrono helper class; relies on std::chrono::high_resolution_clock internally
+    /// stopwatch/chrono helper class; relies on std::chrono::steady_clock internally
     struct StopWatch {
         /// default constructor; calls 'tick' for member initialization
         inline StopWatch() {
@@ -431,21 +431,21 @@ namespace lv {
         }
         /// updates the internal clock tick with the current tick
         inline void tick() {
-            m_nTick = std::chrono::high_resolution_clock::now();
+            m_nTick = std::chrono::steady_clock::now();
         }
         /// returns the elapsed time (in seconds) between the last 'tick' call and now
         inline double elapsed() const {
-            return std::chrono::duration<double>(std::chrono::high_resolution_clock::now()-m_nTick).count();
+            return std::chrono::duration<double>(std::chrono::steady_clock::now()-m_nTick).count();
         }
         /// returns the elapsed time (in seconds) between the last 'tick' call and now, and sets 'tick' as now
         inline double tock() {
-            const std::chrono::high_resolution_clock::time_point nNow = std::chrono::high_resolution_clock::now();
+            const std::chrono::steady_clock::time_point nNow = std::chrono::steady_clock::now();
             const std::chrono::duration<double> dElapsed_sec = nNow-m_nTick;
             m_nTick = nNow;
             return dElapsed_sec.count();
         }
     private:
-        std::chrono::high_resolution_clock::time_point m_nTick;
+        std::chrono::steady_clock::time_point m_nTick;
     };
 
     /// helper struct for std::enable_shared_from_this to allow easier dynamic casting
-- 
2.43.0


From fea3838cf2c828ae54095d5f3fcf2c1aedf0ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:13 +0000
Subject: [PATCH 06/88] hook: allow simulation builds to override the minimum
 cache size

Off by default (LITIV_SIM_CACHE_MIN_SIZE undefined).
---
 modules/datasets/src/utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index a739212..7fd7885 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -27,7 +27,11 @@
 #error "Cache max size exceeds system limit (x86)."
 #endif //(!(defined(...arch...)) && CACHE_MAX_SIZE_MB>2048)
 #define CACHE_MAX_SIZE size_t(((CACHE_MAX_SIZE_MB)*1024)*1024)
+#ifdef LITIV_SIM_CACHE_MIN_SIZE // simulation builds only; lets small buffers fill up and wrap around
+#define CACHE_MIN_SIZE size_t(LITIV_SIM_CACHE_MIN_SIZE)
+#else //ndef(LITIV_SIM_CACHE_MIN_SIZE)
 #define CACHE_MIN_SIZE size_t(((10u)*1024)*1024) // 10mb
+#endif //ndef(LITIV_SIM_CACHE_MIN_SIZE)
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 54a054fb5ff11302dc11d0625f23b34e7e7e031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:13 +0000
Subject: [PATCH 07/88] fix: keep the last requested packet valid when
 precaching is stopped

Packets answered from the cache pointed into the precaching thread's buffer,
which is released when the thread is joined; requesting the same packet again
after stopping or restarting then returned freed memory.
---
 modules/datasets/src/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 7fd7885..9c27b64 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -485,6 +485,7 @@ void lv::DataPrecacher::entry(const size_t nBufferSize) {
                                 lCache.pop_front();
                                 ++nNextExpectedReqIdx;
                             }
+                            m_oReqPacket = m_oReqPacket.clone(); // must stay valid when the cache buffer is released
                         }
                         else {
                             lvLog_(3,"data precacher [%" PRIxPTR "] out-of-order request (expected = %zu), destroying cache",uintptr_t(this),nNextExpectedReqIdx);
-- 
2.43.0


From a767d455df48a43792ec778f5ee915b55e779296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:14 +0000
Subject: [PATCH 08/88] fix: report each precaching error once

An exception of the precaching thread was kept after having been rethrown, so
that every later start/stop call threw it again and the destructor terminated
the process.
---
 modules/datasets/src/utils.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 9c27b64..e7616ff 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -312,7 +312,10 @@ lv::DataPrecacher::DataPrecacher(std::function<cv::Mat(size_t)> lDataLoaderCallb
 }
 
 lv::DataPrecacher::~DataPrecacher() {
-    stopAsyncPrecaching();
+    try {
+        stopAsyncPrecaching();
+    }
+    catch(...) {} // a pending precaching error can no longer be reported to anyone
 }
 
 const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
@@ -352,7 +355,9 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
         lvLog_(1,"data precacher [%" PRIxPTR "] caught precacher exception while requesting packet #%zu, will rethrow...",uintptr_t(this),nIdx);
         m_bIsActive = false;
         m_hWorker.join();
-        std::rethrow_exception(m_pWorkerException);
+        std::exception_ptr pWorkerException;
+        std::swap(pWorkerException,m_pWorkerException); // reported once
+        std::rethrow_exception(pWorkerException);
     }
     m_oLastReqPacket = m_oReqPacket;
     m_nLastReqIdx = nAnswIdx;
@@ -385,8 +390,11 @@ void lv::DataPrecacher::stopAsyncPrecaching() {
         m_hWorker.join();
         lvAssert_(!m_bGotRequest,"last request should have been answered");
     }
-    if(m_pWorkerException)
-        std::rethrow_exception(m_pWorkerException);
+    if(m_pWorkerException) {
+        std::exception_ptr pWorkerException;
+        std::swap(pWorkerException,m_pWorkerException); // reported once
+        std::rethrow_exception(pWorkerException);
+    }
 }
 
 void lv::DataPrecacher::entry(const size_t nBufferSize) {
-- 
2.43.0


From 219961dddc572d8804f2f2ea6f138c7c41b0cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:14 +0000
Subject: [PATCH 09/88] fix: leave the precacher inactive when its thread
 cannot be started

It stayed marked as active, so that the next request waited forever and the
next stop failed on joining a thread that does not exist.
---
 modules/datasets/src/utils.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index e7616ff..7d5dcb0 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -371,13 +371,19 @@ bool lv::DataPrecacher::startAsyncPrecaching(size_t nSuggestedBufferSize) {
     static_assert(PRECACHE_REFILL_TIMEOUT_MS>0,"Precache refill timeout must be a positive value");
     stopAsyncPrecaching();
     if(nSuggestedBufferSize>0) {
-        m_bIsActive = true;
         m_pWorkerException = nullptr;
         m_nAnswIdx = m_nReqIdx = size_t(-1);
         m_bGotRequest = false;
         const size_t nBufferSize = std::max(std::min(nSuggestedBufferSize,CACHE_MAX_SIZE),CACHE_MIN_SIZE);
         lvLog_(2,"data precacher [%" PRIxPTR "] precaching thread init w/ buffer size = %zu mb",uintptr_t(this),(nBufferSize/1024)/1024);
-        m_hWorker = std::thread(&DataPrecacher::entry,this,nBufferSize);
+        m_bIsActive = true;
+        try {
+            m_hWorker = std::thread(&DataPrecacher::entry,this,nBufferSize);
+        }
+        catch(...) {
+            m_bIsActive = false;
+            throw;
+        }
     }
     return m_bIsActive;
 }
@@ -385,8 +391,8 @@ bool lv::DataPrecacher::startAsyncPrecaching(size_t nSuggestedBufferSize) {
 void lv::DataPrecacher::stopAsyncPrecaching() {
     lvDbgExceptionWatch;
     if(m_bIsActive) {
-        m_bIsActive = false;
         lvLog_(2,"data precacher [%" PRIxPTR "] joining precaching thread",uintptr_t(this));
+        m_bIsActive = false;
         m_hWorker.join();
         lvAssert_(!m_bGotRequest,"last request should have been answered");
     }
-- 
2.43.0


From 088edaa218397513fcd9547c5b59b38ac249f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:14 +0000
Subject: [PATCH 10/88] fix: close packet requests that fail halfway

If the requesting thread ran out of memory while waiting, the request stayed
open and all later requests were refused.
---
 modules/datasets/src/utils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 7d5dcb0..c3c2eaa 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -332,6 +332,11 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
     }
     lv::mutex_unique_lock sync_lock(m_oSyncMutex);
     lvAssert_(!m_bGotRequest,"data precacher trying two requests at once!");
+    struct RequestGuard { // the request must not stay open if this function throws
+        explicit RequestGuard(DataPrecacher& oPrecacher) : m_oPrecacher(oPrecacher) {}
+        ~RequestGuard() {m_oPrecacher.m_nReqIdx = size_t(-1); m_oPrecacher.m_bGotRequest = false;}
+        DataPrecacher& m_oPrecacher;
+    } oRequestGuard(*this);
     size_t nAnswIdx = size_t(-1);
     m_nReqIdx = nIdx;
     m_bGotRequest = true;
@@ -347,8 +352,6 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
             break; // hard exit, something went wrong, will throw below
         }
     }
-    m_nReqIdx = size_t(-1);
-    m_bGotRequest = false;
     if(!m_bIsActive)
         lvError_("could not fetch packet #%zu, data precacher [%" PRIxPTR "] shutting down",nIdx,uintptr_t(this));
     else if(m_pWorkerException) {
-- 
2.43.0


From 46e34a6f9fd9a2790fb96acf878a331df46a93eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:14 +0000
Subject: [PATCH 11/88] fix: resume precaching after jumping back from the end
 of the stream

A request answered without cache did not reset the end-of-stream flag, so that
nothing was ever precached again.
---
 modules/datasets/src/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index c3c2eaa..e5a18e8 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -520,6 +520,7 @@ void lv::DataPrecacher::entry(const size_t nBufferSize) {
                         m_nAnswIdx = m_nReqIdx;
                         nFirstBufferIdx = nNextBufferIdx = size_t(-1);
                         nNextExpectedReqIdx = nNextPrecacheIdx = m_nReqIdx+1;
+                        bReachedEnd = false;
                     }
                 }
                 else
-- 
2.43.0


From d50d849834f5f629362808079c44fc3e756cd2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:14 +0000
Subject: [PATCH 12/88] fix: make precaching timeouts independent of wall clock
 adjustments

---
 modules/datasets/src/utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index e5a18e8..ed99e5d 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -479,8 +479,8 @@ void lv::DataPrecacher::entry(const size_t nBufferSize) {
                 lvLog_(4,"data precacher [%" PRIxPTR "] cached packet at idx = %zu, with size = %zu kb",uintptr_t(this),nTargetPacketIdx,nNextPacketSize/1024);
             return nNextPacketSize;
         };
-        const std::chrono::time_point<std::chrono::high_resolution_clock> nPrefillTick = std::chrono::high_resolution_clock::now();
-        while(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now()-nPrefillTick).count()<PRECACHE_REFILL_TIMEOUT_MS) {
+        const std::chrono::steady_clock::time_point nPrefillTick = std::chrono::steady_clock::now();
+        while(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now()-nPrefillTick).count()<PRECACHE_REFILL_TIMEOUT_MS) {
             if(lCacheNextPacket(nNextPrecacheIdx)!=0u)
                 ++nNextPrecacheIdx;
             else
@@ -534,8 +534,8 @@ void lv::DataPrecacher::entry(const size_t nBufferSize) {
                 if(nTotCacheUsed<nBufferSize/4) {
                     lvLog_(3,"data precacher [%" PRIxPTR "] force filling buffer until timeout... (currently ~%zu MB, or ~%d%% full)",uintptr_t(this),nTotCacheUsed/1024/1024,int(float(nTotCacheUsed)*100/nBufferSize));
                     size_t nFillCount = 0;
-                    const std::chrono::time_point<std::chrono::high_resolution_clock> nRefillTick = std::chrono::high_resolution_clock::now();
-                    while(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now()-nRefillTick).count()<PRECACHE_REFILL_TIMEOUT_MS && nFillCount++<10) {
+                    const std::chrono::steady_clock::time_point nRefillTick = std::chrono::steady_clock::now();
+                    while(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now()-nRefillTick).count()<PRECACHE_REFILL_TIMEOUT_MS && nFillCount++<10) {
                         if(lCacheNextPacket(nNextPrecacheIdx)!=0u)
                             ++nNextPrecacheIdx;
                         else
-- 
2.43.0


From 20f9d659a0fbb4819d19cbb0891f02019c4ea268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:12 +0000
Subject: [PATCH 13/88] fix: write each queued packet exactly once, in order,
 with several writer threads

All writer threads picked the first packet of the queue and left it there while
writing, so that several of them wrote and then erased the same packet; and a
packet queued again while its previous version was being written was lost, with
the queue size and count no longer matching the queue content.
---
 .../datasets/include/litiv/datasets/utils.hpp | 10 ++-
 modules/datasets/src/utils.cpp                | 64 +++++++++++--------
 2 files changed, 45 insertions(+), 29 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/utils.hpp b/modules/datasets/include/litiv/datasets/utils.hpp
index dccf0b6..455c704 100644
--- a/modules/datasets/include/litiv/datasets/utils.hpp
+++ b/modules/datasets/include/litiv/datasets/utils.hpp
@@ -804,7 +804,15 @@ namespace lv {
         std::mutex m_oSyncMutex;
         std::condition_variable m_oQueueCondVar;
         std::condition_variable m_oClearCondVar;
-        std::map<size_t,cv::Mat> m_mQueue;
+        /// packet queue entry; a packet may be queued again while its previous version is still being written
+        struct QueuedPacket {
+            cv::Mat m_oPacket;
+            bool m_bPending = false;
+            bool m_bWriting = false;
+            /// returns the size of the pending packet (in bytes), i.e. of the one that would be replaced by queuing again
+            inline size_t getPendingSize() const {return m_bPending?m_oPacket.total()*m_oPacket.elemSize():size_t(0);}
+        };
+        std::map<size_t,QueuedPacket> m_mQueue;
         std::atomic_bool m_bIsActive;
         bool m_bAllowPacketDrop;
         size_t m_nQueueMaxSize;
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index ed99e5d..787f7c7 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1367,8 +1367,7 @@ bool lv::DataWriter::queue_check(const cv::Mat& oPacket, size_t nIdx) {
         return true; // since this config blocks, packet will never be dropped
     lv::mutex_unique_lock sync_lock(m_oSyncMutex);
     const auto pOldPacketIter = m_mQueue.find(nIdx);
-    const bool bIsNewPacket = pOldPacketIter==m_mQueue.end();
-    const size_t nOldPacketSize = bIsNewPacket?0u:(pOldPacketIter->second.total()*pOldPacketIter->second.elemSize());
+    const size_t nOldPacketSize = pOldPacketIter==m_mQueue.end()?size_t(0):pOldPacketIter->second.getPendingSize();
     return (m_nQueueSize+nPacketSize-nOldPacketSize<=m_nQueueMaxSize);
 }
 
@@ -1385,17 +1384,19 @@ size_t lv::DataWriter::queue(const cv::Mat& oPacket, size_t nIdx) {
         if(!m_bAllowPacketDrop) {
             m_oClearCondVar.wait(sync_lock,[&]{
                 const auto pOldPacketIter = m_mQueue.find(nIdx);
-                const bool bIsNewPacket = pOldPacketIter==m_mQueue.end();
-                const size_t nOldPacketSize = bIsNewPacket?0u:(pOldPacketIter->second.total()*pOldPacketIter->second.elemSize());
+                const size_t nOldPacketSize = pOldPacketIter==m_mQueue.end()?size_t(0):pOldPacketIter->second.getPendingSize();
                 lvDbgAssert(m_nQueueSize>=nOldPacketSize);
                 return m_nQueueSize+nPacketSize-nOldPacketSize<=m_nQueueMaxSize;
             });
         }
         const auto pOldPacketIter = m_mQueue.find(nIdx);
-        const bool bIsNewPacket = pOldPacketIter==m_mQueue.end();
-        const size_t nOldPacketSize = bIsNewPacket?0u:(pOldPacketIter->second.total()*pOldPacketIter->second.elemSize());
+        const bool bIsNewPacket = pOldPacketIter==m_mQueue.end() || !pOldPacketIter->second.m_bPending;
+        const size_t nOldPacketSize = pOldPacketIter==m_mQueue.end()?size_t(0):pOldPacketIter->second.getPendingSize();
         if(m_nQueueSize+nPacketSize-nOldPacketSize<=m_nQueueMaxSize) {
-            m_mQueue[nIdx] = oPacket.clone(); // local copy passed to writing thread; provider can recycle memory following this call
+            cv::Mat oPacketCopy = oPacket.clone(); // local copy passed to writing thread; provider can recycle memory following this call
+            QueuedPacket& oQueuedPacket = m_mQueue[nIdx];
+            oQueuedPacket.m_oPacket = oPacketCopy;
+            oQueuedPacket.m_bPending = true;
             m_nQueueSize = m_nQueueSize+nPacketSize-nOldPacketSize;
             // @@@ could cut a find operation here using C++17's map::insert_or_assign above
             nPacketPosition = std::distance(m_mQueue.begin(),m_mQueue.find(nIdx));
@@ -1452,28 +1453,35 @@ void lv::DataWriter::stopAsyncWriting() {
 void lv::DataWriter::entry() {
     lvDbgExceptionWatch;
     lv::mutex_unique_lock sync_lock(m_oSyncMutex);
-    while(m_bIsActive || m_nQueueCount>0) {
-        m_oQueueCondVar.wait(sync_lock,[&](){return !m_bIsActive || m_nQueueCount>0;});
-        if(m_nQueueCount>0) {
-            auto pCurrPacket = m_mQueue.begin();
-            if(pCurrPacket!=m_mQueue.end()) {
-                const size_t nPacketSize = pCurrPacket->second.total()*pCurrPacket->second.elemSize();
-                if(nPacketSize<=m_nQueueSize) {
-                    try {
-                        lv::unlock_guard<lv::mutex_unique_lock> oUnlock(sync_lock);
-                        lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),pCurrPacket->first,nPacketSize/1024);
-                        m_lCallback(pCurrPacket->second,pCurrPacket->first);
-                    }
-                    catch(...) {
-                        m_vWorkerExceptions.push(std::make_pair(std::current_exception(),pCurrPacket->first));
-                    }
-                    m_nQueueSize -= nPacketSize;
-                    m_mQueue.erase(pCurrPacket);
-                    --m_nQueueCount;
-                    m_oClearCondVar.notify_all();
-                }
-            }
+    while(true) {
+        auto pCurrPacket = m_mQueue.end();
+        m_oQueueCondVar.wait(sync_lock,[&](){
+            // two versions of a packet are never written at once, the worker which is busy with the first will take the second
+            pCurrPacket = std::find_if(m_mQueue.begin(),m_mQueue.end(),[](const auto& p){return p.second.m_bPending && !p.second.m_bWriting;});
+            return !m_bIsActive || pCurrPacket!=m_mQueue.end();
+        });
+        if(pCurrPacket==m_mQueue.end())
+            break;
+        QueuedPacket& oQueuedPacket = pCurrPacket->second;
+        const size_t nPacketSize = oQueuedPacket.getPendingSize();
+        cv::Mat oPacket;
+        cv::swap(oPacket,oQueuedPacket.m_oPacket);
+        oQueuedPacket.m_bPending = false;
+        oQueuedPacket.m_bWriting = true;
+        try {
+            lv::unlock_guard<lv::mutex_unique_lock> oUnlock(sync_lock);
+            lvLog_(4,"data writer [%" PRIxPTR "] writing packet at idx = %zu, with size = %zu kb",uintptr_t(this),pCurrPacket->first,nPacketSize/1024);
+            m_lCallback(oPacket,pCurrPacket->first);
+        }
+        catch(...) {
+            m_vWorkerExceptions.push(std::make_pair(std::current_exception(),pCurrPacket->first));
         }
+        oQueuedPacket.m_bWriting = false;
+        if(!oQueuedPacket.m_bPending)
+            m_mQueue.erase(pCurrPacket);
+        m_nQueueSize -= nPacketSize;
+        --m_nQueueCount;
+        m_oClearCondVar.notify_all();
     }
 }
 
-- 
2.43.0


From 34f63ddf203c2ae96e20851623ef16af711b87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:12 +0000
Subject: [PATCH 14/88] fix: report writer errors when stopping only once

With more than one failed packet the remaining errors were thrown by later
start/stop calls, and the destructor terminated the process.
---
 modules/datasets/src/utils.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 787f7c7..d43f525 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1354,7 +1354,10 @@ lv::DataWriter::DataWriter(std::function<size_t(const cv::Mat&,size_t)> lDataArc
 }
 
 lv::DataWriter::~DataWriter() {
-    stopAsyncWriting();
+    try {
+        stopAsyncWriting();
+    }
+    catch(...) {} // a pending writing error can no longer be reported to anyone
 }
 
 bool lv::DataWriter::queue_check(const cv::Mat& oPacket, size_t nIdx) {
@@ -1443,9 +1446,10 @@ void lv::DataWriter::stopAsyncWriting() {
         for(std::thread& oWorker : m_vhWorkers)
             oWorker.join();
     }
-    while(!m_vWorkerExceptions.empty()) {
+    if(!m_vWorkerExceptions.empty()) {
         std::exception_ptr pLatestException = m_vWorkerExceptions.top().first; // add packet idx to exception...? somewhow?
-        m_vWorkerExceptions.pop();
+        while(!m_vWorkerExceptions.empty())
+            m_vWorkerExceptions.pop();
         std::rethrow_exception(pLatestException);
     }
 }
-- 
2.43.0


From 8e16eae9a9de83988e0aaff4d5a608ea148bbf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:12 +0000
Subject: [PATCH 15/88] fix: leave the data writer inactive when its threads
 cannot be started

It stayed active with fewer or no threads, so that packets were accepted but
never written, and producers blocked forever.
---
 .../datasets/include/litiv/datasets/utils.hpp |  1 +
 modules/datasets/src/utils.cpp                | 33 ++++++++++++-------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/utils.hpp b/modules/datasets/include/litiv/datasets/utils.hpp
index 455c704..448e101 100644
--- a/modules/datasets/include/litiv/datasets/utils.hpp
+++ b/modules/datasets/include/litiv/datasets/utils.hpp
@@ -798,6 +798,7 @@ namespace lv {
         inline bool isActive() const {return m_bIsActive;}
     private:
         void entry();
+        void joinWorkers();
         const std::function<size_t(const cv::Mat&,size_t)> m_lCallback;
         std::vector<std::thread> m_vhWorkers;
         std::stack<std::pair<std::exception_ptr,size_t>> m_vWorkerExceptions;
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index d43f525..88ec7fc 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1420,7 +1420,6 @@ size_t lv::DataWriter::queue(const cv::Mat& oPacket, size_t nIdx) {
 bool lv::DataWriter::startAsyncWriting(size_t nSuggestedQueueSize, bool bDropPacketsIfFull, size_t nWorkers) {
     stopAsyncWriting();
     if(nSuggestedQueueSize>0) {
-        m_bIsActive = true;
         m_bAllowPacketDrop = bDropPacketsIfFull;
         m_nQueueMaxSize = std::max(std::min(nSuggestedQueueSize,CACHE_MAX_SIZE),CACHE_MIN_SIZE);
         m_nQueueSize = 0;
@@ -1428,8 +1427,15 @@ bool lv::DataWriter::startAsyncWriting(size_t nSuggestedQueueSize, bool bDropPac
         m_mQueue.clear();
         m_vhWorkers.clear();
         lvLog_(2,"data writer [%" PRIxPTR "] writing thread init (%zu) w/ queue size = %zu mb",uintptr_t(this),nWorkers,(m_nQueueMaxSize/1024)/1024);
-        for(size_t n=0; n<nWorkers; ++n)
-            m_vhWorkers.emplace_back(std::bind(&DataWriter::entry,this));
+        m_bIsActive = true;
+        try {
+            for(size_t n=0; n<nWorkers; ++n)
+                m_vhWorkers.emplace_back(std::bind(&DataWriter::entry,this));
+        }
+        catch(...) {
+            joinWorkers();
+            throw;
+        }
     }
     return m_bIsActive;
 }
@@ -1437,14 +1443,8 @@ bool lv::DataWriter::startAsyncWriting(size_t nSuggestedQueueSize, bool bDropPac
 void lv::DataWriter::stopAsyncWriting() {
     lvDbgExceptionWatch;
     if(m_bIsActive) {
-        {
-            lvLog_(2,"data writer [%" PRIxPTR "] joining writing threads",uintptr_t(this));
-            lv::mutex_unique_lock sync_lock(m_oSyncMutex);
-            m_bIsActive = false;
-            m_oQueueCondVar.notify_all();
-        }
-        for(std::thread& oWorker : m_vhWorkers)
-            oWorker.join();
+        lvLog_(2,"data writer [%" PRIxPTR "] joining writing threads",uintptr_t(this));
+        joinWorkers();
     }
     if(!m_vWorkerExceptions.empty()) {
         std::exception_ptr pLatestException = m_vWorkerExceptions.top().first; // add packet idx to exception...? somewhow?
@@ -1454,6 +1454,17 @@ void lv::DataWriter::stopAsyncWriting() {
     }
 }
 
+void lv::DataWriter::joinWorkers() {
+    {
+        lv::mutex_unique_lock sync_lock(m_oSyncMutex);
+        m_bIsActive = false;
+        m_oQueueCondVar.notify_all();
+    }
+    for(std::thread& oWorker : m_vhWorkers)
+        oWorker.join();
+    m_vhWorkers.clear();
+}
+
 void lv::DataWriter::entry() {
     lvDbgExceptionWatch;
     lv::mutex_unique_lock sync_lock(m_oSyncMutex);
-- 
2.43.0


From 119e315dc1da967c6af7e4f54d62ba8673edae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:12 +0000
Subject: [PATCH 16/88] fix: do not lose packets queued while the data writer
 is being stopped

A producer that was waiting for room (or had just checked that the writer is
active) added its packet to the queue after the writer threads were gone.
---
 modules/datasets/src/utils.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 88ec7fc..cd7cd83 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1376,8 +1376,14 @@ bool lv::DataWriter::queue_check(const cv::Mat& oPacket, size_t nIdx) {
 
 size_t lv::DataWriter::queue(const cv::Mat& oPacket, size_t nIdx) {
     lvDbgExceptionWatch;
-    if(!m_bIsActive)
+    const auto lWriteDirectly = [&](lv::mutex_unique_lock sync_lock) {
+        // the writer may still be busy stopping; older versions of the packet must be written first
+        m_oClearCondVar.wait(sync_lock,[&]{return m_mQueue.find(nIdx)==m_mQueue.end();});
+        sync_lock.unlock();
         return m_lCallback(oPacket,nIdx);
+    };
+    if(!m_bIsActive)
+        return lWriteDirectly(lv::mutex_unique_lock(m_oSyncMutex));
     const size_t nPacketSize = oPacket.total()*oPacket.elemSize();
     lvAssert__(nPacketSize<=m_nQueueMaxSize,"packet too large for queue, max cache size must be increased (got %d, max is %d)",(int)nPacketSize,(int)m_nQueueMaxSize);
     size_t nPacketPosition;
@@ -1386,12 +1392,16 @@ size_t lv::DataWriter::queue(const cv::Mat& oPacket, size_t nIdx) {
         lv::mutex_unique_lock sync_lock(m_oSyncMutex);
         if(!m_bAllowPacketDrop) {
             m_oClearCondVar.wait(sync_lock,[&]{
+                if(!m_bIsActive)
+                    return true;
                 const auto pOldPacketIter = m_mQueue.find(nIdx);
                 const size_t nOldPacketSize = pOldPacketIter==m_mQueue.end()?size_t(0):pOldPacketIter->second.getPendingSize();
                 lvDbgAssert(m_nQueueSize>=nOldPacketSize);
                 return m_nQueueSize+nPacketSize-nOldPacketSize<=m_nQueueMaxSize;
             });
         }
+        if(!m_bIsActive) // stopped in the meantime, nobody would take the packet out of the queue
+            return lWriteDirectly(std::move(sync_lock));
         const auto pOldPacketIter = m_mQueue.find(nIdx);
         const bool bIsNewPacket = pOldPacketIter==m_mQueue.end() || !pOldPacketIter->second.m_bPending;
         const size_t nOldPacketSize = pOldPacketIter==m_mQueue.end()?size_t(0):pOldPacketIter->second.getPendingSize();
@@ -1459,6 +1469,7 @@ void lv::DataWriter::joinWorkers() {
         lv::mutex_unique_lock sync_lock(m_oSyncMutex);
         m_bIsActive = false;
         m_oQueueCondVar.notify_all();
+        m_oClearCondVar.notify_all();
     }
     for(std::thread& oWorker : m_vhWorkers)
         oWorker.join();
-- 
2.43.0


From 7f010c61cfc00ba19b02c755e5d09da87ae10e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:53 +0000
Subject: [PATCH 17/88] fix: do not return an emptied packet after a failed
 request

---
 modules/datasets/src/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index cd7cd83..d557197 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -362,6 +362,7 @@ const cv::Mat& lv::DataPrecacher::getPacket(size_t nIdx) {
         std::swap(pWorkerException,m_pWorkerException); // reported once
         std::rethrow_exception(pWorkerException);
     }
+    m_nLastReqIdx = size_t(-1); // the last packet is lost if the copy below throws
     m_oLastReqPacket = m_oReqPacket;
     m_nLastReqIdx = nAnswIdx;
     return m_oLastReqPacket;
-- 
2.43.0


From dd18240e605a3d829aea525b609013bccd097eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:24 +0000
Subject: [PATCH 18/88] fix: detect archive write errors that only show up when
 flushing

---
 modules/utils/src/opencv.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 7415925..db1a597 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -474,6 +474,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             else
                 ssStr << " ";
         }
+        ssStr.close(); // flushes buffered data, which may fail
         lvAssert_(ssStr,"plain text archive write failed");
     }
 #if USING_LZ4
@@ -508,6 +509,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             const int32_t nComprSize = 0;
             ssStr.write((const char*)&nComprSize,sizeof(nComprSize));
         }
+        ssStr.close(); // flushes buffered data, which may fail
         lvAssert_(ssStr,"binary archive write failed");
     }
 #endif //USING_LZ4
@@ -527,6 +529,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
             ssStr.write((const char*)&nDimSize,sizeof(nDimSize));
         }
         ssStr.write((const char*)(oData.data),nElemSize*nElemCount);
+        ssStr.close(); // flushes buffered data, which may fail
         lvAssert_(ssStr,"binary archive write failed");
     }
     else
-- 
2.43.0


From d3b86e5a8b13a15f8243c94c2516ca9f6cecaecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:24 +0000
Subject: [PATCH 19/88] fix: detect write errors in structured storage archives

---
 modules/utils/src/opencv.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index db1a597..ea2b265 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -441,11 +441,21 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
     lvAssert_(!sFilePath.empty() && !_oData.empty(),"output file path and matrix must both be non-empty");
     cv::Mat oData = _oData.isContinuous()?_oData:_oData.clone();
     if(eArchiveType==MatArchive_FILESTORAGE) {
-        cv::FileStorage oArchive(sFilePath,cv::FileStorage::WRITE);
+        // cv::FileStorage does not report write errors, so it only does the formatting here (except for compressed archives)
+        const bool bCompressed = sFilePath.size()>=3 && sFilePath.compare(sFilePath.size()-3,3,".gz")==0;
+        cv::FileStorage oArchive(sFilePath,cv::FileStorage::WRITE|(bCompressed?0:cv::FileStorage::MEMORY));
         lvAssert__(oArchive.isOpened(),"could not open archive at '%s' for writing",sFilePath.c_str());
         oArchive << "htag" << lv::getVersionStamp();
         oArchive << "date" << lv::getTimeStamp();
         oArchive << "matrix" << oData;
+        if(!bCompressed) {
+            const std::string sArchive = oArchive.releaseAndGetString();
+            std::ofstream ssStr(sFilePath,std::ios::binary);
+            lvAssert__(ssStr.is_open(),"could not open archive at '%s' for writing",sFilePath.c_str());
+            ssStr.write(sArchive.data(),sArchive.size());
+            ssStr.close(); // flushes buffered data, which may fail
+            lvAssert_(ssStr,"archive write failed");
+        }
     }
     else if(eArchiveType==MatArchive_PLAINTEXT) {
         std::ofstream ssStr(sFilePath);
-- 
2.43.0


From a4ead22e9b534410d64d11b123435bf831d0e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:24 +0000
Subject: [PATCH 20/88] fix: validate binary archive headers before using them

---
 modules/utils/src/opencv.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index ea2b265..086adf4 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -629,9 +629,20 @@ void lv::read(const std::string& sFilePath, cv::Mat& oData, lv::MatArchiveList e
         ssStr.read((char*)&nElemCount,sizeof(nElemCount));
         int32_t nDims;
         ssStr.read((char*)&nDims,sizeof(nDims));
+        lvAssert_(ssStr && nDims>0 && nDims<=32/*max supported by cv::Mat*/,"bad binary archive header");
         std::vector<int32_t> anSizes(nDims);
-        for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx)
+        uint64_t nExpectedElemCount = 1;
+        for(int32_t nDimIdx=0; nDimIdx<nDims; ++nDimIdx) {
             ssStr.read((char*)&anSizes[nDimIdx],sizeof(anSizes[nDimIdx]));
+            lvAssert_(ssStr && anSizes[nDimIdx]>0 && nExpectedElemCount<=std::numeric_limits<uint64_t>::max()/anSizes[nDimIdx],"bad binary archive dimensions");
+            nExpectedElemCount *= anSizes[nDimIdx];
+        }
+        lvAssert_(nDataType==CV_MAT_TYPE(nDataType) && nElemSize==uint64_t(CV_ELEM_SIZE(nDataType)) && nElemCount==nExpectedElemCount,"binary archive header fields do not match");
+        const std::streamoff nDataOffset = ssStr.tellg();
+        ssStr.seekg(0,std::ios::end);
+        const std::streamoff nDataSize = ssStr.tellg()-nDataOffset;
+        ssStr.seekg(nDataOffset);
+        lvAssert_(ssStr && nElemCount<=uint64_t(nDataSize)/nElemSize && uint64_t(nDataSize)==nElemSize*nElemCount,"binary archive data size does not match its header");
         oData.create(nDims,anSizes.data(),nDataType);
         ssStr.read((char*)(oData.data),nElemSize*nElemCount);
         lvAssert_(ssStr,"binary archive read failed");
-- 
2.43.0


From 415f56febf141bcc93e0d2f8cc2363b1f5b168ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:24 +0000
Subject: [PATCH 21/88] fix: write plain text archives with enough digits to
 restore their values

---
 modules/utils/src/opencv.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 086adf4..816c23d 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -472,6 +472,7 @@ void lv::write(const std::string& sFilePath, const cv::Mat& _oData, lv::MatArchi
         for(int nDimIdx=0; nDimIdx<oData.dims; ++nDimIdx)
             ssStr << " " << (int32_t)oData.size[nDimIdx];
         ssStr << "\n\n";
+        ssStr.precision(oData.depth()==CV_64F?std::numeric_limits<double>::max_digits10:oData.depth()==CV_32S?std::numeric_limits<int32_t>::digits10+1:std::numeric_limits<float>::max_digits10);
         if(oData.depth()!=CV_64F)
             _oData.convertTo(oData,CV_64F);
         double* pdData = (double*)oData.data;
-- 
2.43.0


From 2b27b52fa020f823cdb3f61530ba88e1ef27c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:24 +0000
Subject: [PATCH 22/88] fix: do not report failure for directories created by
 someone else at the same time

---
 modules/utils/src/platform.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modules/utils/src/platform.cpp b/modules/utils/src/platform.cpp
index 977b5a8..2df6db1 100644
--- a/modules/utils/src/platform.cpp
+++ b/modules/utils/src/platform.cpp
@@ -196,11 +196,10 @@ bool lv::createDirIfNotExist(const std::string& sDirPath) {
     std::wstring swDirPath(sDirPath.begin(),sDirPath.end());
     return CreateDirectory(swDirPath.c_str(),NULL)!=ERROR_PATH_NOT_FOUND;
 #else //(!defined(_MSC_VER))
-    struct stat st;
-    if(stat(sDirPath.c_str(),&st)==-1)
-        return mkdir(sDirPath.c_str(),0777)==0;
-    else
-        return (stat(sDirPath.c_str(),&st)==0 && S_ISDIR(st.st_mode));
+    if(mkdir(sDirPath.c_str(),0777)==0)
+        return true;
+    struct stat st; // might already exist, or have been created by someone else in the meantime
+    return (stat(sDirPath.c_str(),&st)==0 && S_ISDIR(st.st_mode));
 #endif //(!defined(_MSC_VER))
 }
 
-- 
2.43.0


From 3dda6dca4c809221ebc0db48995bca7a9716173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:22 +0000
Subject: [PATCH 23/88] fix: do not share the time stamp buffer between threads

---
 modules/utils/src/cxx.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/utils/src/cxx.cpp b/modules/utils/src/cxx.cpp
index 995c28f..dfe5513 100644
--- a/modules/utils/src/cxx.cpp
+++ b/modules/utils/src/cxx.cpp
@@ -117,8 +117,14 @@ std::vector<std::string> lv::split(const std::string& sInputStr, char cDelim) {
 
 std::string lv::getTimeStamp() {
     std::time_t tNow = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
+    std::tm oNow = {};
+#if defined(_MSC_VER)
+    localtime_s(&oNow,&tNow);
+#else //(!defined(_MSC_VER))
+    localtime_r(&tNow,&oNow); // std::localtime shares its result between threads
+#endif //(!defined(_MSC_VER))
     char acBuffer[128];
-    std::strftime(acBuffer,sizeof(acBuffer),"%F %T",std::localtime(&tNow)); // std::put_time missing w/ GCC<5.0
+    std::strftime(acBuffer,sizeof(acBuffer),"%F %T",&oNow); // std::put_time missing w/ GCC<5.0
     return std::string(acBuffer);
 }
 
-- 
2.43.0


From 771693666f2f7984490877fcc24ec2a61f970fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:23 +0000
Subject: [PATCH 24/88] fix: never truncate existing files when preallocating

---
 modules/utils/src/platform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/src/platform.cpp b/modules/utils/src/platform.cpp
index 2df6db1..1cab361 100644
--- a/modules/utils/src/platform.cpp
+++ b/modules/utils/src/platform.cpp
@@ -205,7 +205,7 @@ bool lv::createDirIfNotExist(const std::string& sDirPath) {
 
 std::fstream lv::createBinFileWithPrealloc(const std::string & sFilePath, size_t nPreallocBytes, bool bZeroInit) {
     std::fstream ssFile(sFilePath,std::ios::out|std::ios::in|std::ios::ate|std::ios::binary);
-    if(!ssFile.is_open())
+    if(!ssFile.is_open() && !lv::checkIfExists(sFilePath)) // must not truncate an existing file that could not be opened
         ssFile.open(sFilePath,std::ios::out|std::ios::binary);
     lvAssert__(ssFile.is_open(),"could not create file at '%s'",sFilePath.c_str());
     const std::streampos nInitFileSize = ssFile.tellp();
-- 
2.43.0


From 311e736cc9ada18c1ba5954a8946d4ecb33d932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:10 +0000
Subject: [PATCH 25/88] fix: masked integral images no longer raise an error
 for every mask

---
 modules/imgproc/src/imgproc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 95fd95d..f709cc4 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -669,7 +669,7 @@ void lv::integral(const cv::Mat& oInput, cv::Mat& oIntegralImg, const cv::Mat_<u
     else {
         static thread_local cv::Mat oMaskedInput;
         oInput.copyTo(oMaskedInput);
-        oMaskedInput.setTo(cv::Scalar_<uchar>::all(0),oMask==0);
+        oMaskedInput.setTo(cv::Scalar::all(0),oMask==0);
         lv::integral(oMaskedInput,oIntegralImg,nOutDepth);
     }
 }
-- 
2.43.0


From b1d98dfdfa8cdd3dab658ee6c134649a90f681ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:12 +0000
Subject: [PATCH 26/88] fix: do not update shape context map entries from
 several threads at once

---
 modules/features2d/src/SC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 915bda7..02781a6 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -553,7 +553,8 @@ void ShapeContext::scdesc_fill_desc_direct(cv::Mat_<float>& oDescriptors, bool b
         oDescriptors.create((int)m_oKeyPts.total(),m_nDescSize);
     oDescriptors = m_bNonZeroInitBins?std::max(10.0f/m_nDescSize,0.5f):0.0f;
 #if USING_OPENMP
-    #pragma omp parallel for
+    // note: in map mode, distinct keypoints (e.g. contour points) might share the same output descriptor
+    #pragma omp parallel for if(!bGenDescMap || m_bUsingFullKeyPtMap)
 #endif //USING_OPENMP
     for(int nKeyPtIdx=0; nKeyPtIdx<(int)m_oKeyPts.total(); ++nKeyPtIdx) {
         const cv::Point2f& vKeyPt = ((cv::Point2f*)m_oKeyPts.data)[nKeyPtIdx];
-- 
2.43.0


From 1988e5a973b33922871662f568e5955a1bf95b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:12 +0000
Subject: [PATCH 27/88] fix: rebuild the dense shape context keypoint map after
 describing images without keypoints

---
 modules/features2d/src/SC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 02781a6..1d0d8e2 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -288,11 +288,11 @@ void ShapeContext::detectAndCompute(cv::InputArray _oImage, cv::InputArray _oMas
     }
     if(!oMask.empty())
         cv::KeyPointsFilter::runByPixelsMask(voKeypoints,oMask);
+    m_bUsingFullKeyPtMap = false;
     if(voKeypoints.empty()) {
         _oDescriptors.release();
         return;
     }
-    m_bUsingFullKeyPtMap = false;
     m_oKeyPts.create((int)voKeypoints.size(),1);
     for(size_t nKeyPtIdx=0; nKeyPtIdx<voKeypoints.size(); ++nKeyPtIdx)
         m_oKeyPts((int)nKeyPtIdx) = voKeypoints[nKeyPtIdx].pt;
-- 
2.43.0


From 68ec460b5a62201bb41f783df98fa559d26c6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:12 +0000
Subject: [PATCH 28/88] fix: always return the computed descriptor map, also
 for outputs of another size

---
 modules/features2d/src/DASC.cpp | 4 +---
 modules/features2d/src/LSS.cpp  | 4 +---
 modules/features2d/src/SC.cpp   | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/modules/features2d/src/DASC.cpp b/modules/features2d/src/DASC.cpp
index 8730e55..1a86183 100644
--- a/modules/features2d/src/DASC.cpp
+++ b/modules/features2d/src/DASC.cpp
@@ -136,10 +136,8 @@ bool DASC::isPreProcessing() const {
 void DASC::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap;
 }
 
 void DASC::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
diff --git a/modules/features2d/src/LSS.cpp b/modules/features2d/src/LSS.cpp
index 2dda719..3066302 100644
--- a/modules/features2d/src/LSS.cpp
+++ b/modules/features2d/src/LSS.cpp
@@ -113,10 +113,8 @@ bool LSS::isUsingLienhartMask() const {
 void LSS::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap;
 }
 
 void LSS::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
diff --git a/modules/features2d/src/SC.cpp b/modules/features2d/src/SC.cpp
index 1d0d8e2..96f9e3c 100644
--- a/modules/features2d/src/SC.cpp
+++ b/modules/features2d/src/SC.cpp
@@ -212,10 +212,8 @@ int ShapeContext::chainDetectMethod() const {
 void ShapeContext::compute2(const cv::Mat& oImage, cv::Mat& oDescMap_) {
     lvAssert_(oDescMap_.empty() || oDescMap_.type()==CV_32FC1,"wrong output desc map type");
     cv::Mat_<float> oDescMap = oDescMap_;
-    const bool bEmptyInit = oDescMap.empty();
     compute2(oImage,oDescMap);
-    if(bEmptyInit)
-        oDescMap_ = oDescMap;
+    oDescMap_ = oDescMap;
 }
 
 void ShapeContext::compute2(const cv::Mat& oImage, cv::Mat_<float>& oDescMap) {
-- 
2.43.0


From 48d0ff869182ba81994c2cf6a953dc4003119cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:38 +0000
Subject: [PATCH 29/88] fix: do not write optical flow through non-continuous
 output matrices

---
 3rdparty/ofdis/src/ofdis.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/3rdparty/ofdis/src/ofdis.cpp b/3rdparty/ofdis/src/ofdis.cpp
index 619983b..1416187 100644
--- a/3rdparty/ofdis/src/ofdis.cpp
+++ b/3rdparty/ofdis/src/ofdis.cpp
@@ -165,6 +165,8 @@ void ofdis::computeFlow(const cv::Mat& oInput1, const cv::Mat& oInput2, cv::Mat&
     constructImgPyramid<eInput>(img_ao_fmat,img_ao_fmat_pyr,img_ao_dx_fmat_pyr,img_ao_dy_fmat_pyr,img_ao_pyr,img_ao_dx_pyr,img_ao_dy_pyr,oParams.lv_f,oParams.lv_l,rpyrtype,true,oParams.patchsz,padw,padh);
     constructImgPyramid<eInput>(img_bo_fmat,img_bo_fmat_pyr,img_bo_dx_fmat_pyr,img_bo_dy_fmat_pyr,img_bo_pyr,img_bo_dx_pyr,img_bo_dy_pyr,oParams.lv_f,oParams.lv_l,rpyrtype,true,oParams.patchsz,padw,padh);
     const int scfct2 = 1<<oParams.lv_l;
+    if(!oOutput.isContinuous())
+        oOutput.release(); // flow data is written below using a flat pointer
     oOutput.create(sz.height/scfct2,sz.width/scfct2,(eOutput==FlowOutput_OpticalFlow)?CV_32FC2:CV_32FC1);
     OFClass<eInput,eOutput> ofc(img_ao_pyr,img_ao_dx_pyr,img_ao_dy_pyr,img_bo_pyr,img_bo_dx_pyr,img_bo_dy_pyr,oParams.patchsz,  // extra image padding to avoid border violation check
                                 (float*)oOutput.data,   // pointer to n-band output float array
-- 
2.43.0


From 62c99f335ba13ccfb97017ff3ea63f37a274c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:12 +0000
Subject: [PATCH 30/88] fix: create preallocated files without any chance of
 truncating them

---
 modules/utils/src/platform.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/platform.cpp b/modules/utils/src/platform.cpp
index 1cab361..ac66bf9 100644
--- a/modules/utils/src/platform.cpp
+++ b/modules/utils/src/platform.cpp
@@ -205,8 +205,10 @@ bool lv::createDirIfNotExist(const std::string& sDirPath) {
 
 std::fstream lv::createBinFileWithPrealloc(const std::string & sFilePath, size_t nPreallocBytes, bool bZeroInit) {
     std::fstream ssFile(sFilePath,std::ios::out|std::ios::in|std::ios::ate|std::ios::binary);
-    if(!ssFile.is_open() && !lv::checkIfExists(sFilePath)) // must not truncate an existing file that could not be opened
-        ssFile.open(sFilePath,std::ios::out|std::ios::binary);
+    if(!ssFile.is_open()) {
+        std::ofstream(sFilePath,std::ios::app|std::ios::binary); // creates the file if needed (must not truncate an existing one)
+        ssFile.open(sFilePath,std::ios::out|std::ios::in|std::ios::ate|std::ios::binary);
+    }
     lvAssert__(ssFile.is_open(),"could not create file at '%s'",sFilePath.c_str());
     const std::streampos nInitFileSize = ssFile.tellp();
     if(nInitFileSize<(std::streampos)nPreallocBytes) {
-- 
2.43.0


From 54138937c329f760eb2ec16d29724c5f848b135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:03 +0000
Subject: [PATCH 31/88] fix: never return the unpacked arrays of another packet

Requesting a packet through the 'packed' accessors, or through a failing
unpack, left the arrays unpacked for the previous request in place; they
were then returned for the new packet index.
---
 modules/datasets/src/utils.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index d557197..17ea92b 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -774,7 +774,7 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getInputArray(size_t nP
     lvDbgExceptionWatch;
     if(getInputStreamCount()==0)
         m_vLatestUnpackedInput.resize(0);
-    else if(m_oInputPrecacher.getLastReqIdx()!=nPacketIdx) {
+    else { // note: always unpack (no copy needed), as the packet may also have been requested through the 'packed' accessor
         const std::vector<lv::MatInfo>& vPackInfo = getInputInfoArray(nPacketIdx);
         lvAssert_(vPackInfo.size()==getInputStreamCount(),"unexpected stream pack info array size");
         // no need to clone if getInput does not allow reentrancy
@@ -789,7 +789,7 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getGTArray(size_t nPack
     lvDbgExceptionWatch;
     if(getGTStreamCount()==0)
         m_vLatestUnpackedGT.resize(0);
-    else if(m_oGTPrecacher.getLastReqIdx()!=nPacketIdx) {
+    else { // note: always unpack (no copy needed), as the packet may also have been requested through the 'packed' accessor
         const std::vector<lv::MatInfo>& vPackInfo = getGTInfoArray(nPacketIdx);
         lvAssert_(vPackInfo.size()==getGTStreamCount(),"unexpected stream pack info array size");
         // no need to clone if getter does not allow reentrancy
@@ -802,12 +802,11 @@ const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::getGTArray(size_t nPack
 
 const std::vector<cv::Mat>& lv::IDataLoader_<lv::Array>::loadFeaturesArray(size_t nPacketIdx, const std::vector<lv::MatInfo>& vPackingInfo) {
     lvDbgExceptionWatch;
-    if(m_oFeaturesPrecacher.getLastReqIdx()!=nPacketIdx) {
-        // no need to clone from packed data if loadFeatures does not allow reentrancy
-        const cv::Mat& oFeatures = loadFeatures(nPacketIdx)/*.clone()*/;
-        // output mats in the vector will stay valid without copy for as long as oFeatures is valid (typically until next loadFeatures call)
-        m_vLatestUnpackedFeatures = lv::unpackData(oFeatures,vPackingInfo);
-    }
+    // no need to clone from packed data if loadFeatures does not allow reentrancy
+    const cv::Mat& oFeatures = loadFeatures(nPacketIdx)/*.clone()*/;
+    // output mats in the vector will stay valid without copy for as long as oFeatures is valid (typically until next loadFeatures call)
+    // note: always unpack, as the packet may also have been requested through 'loadFeatures', or with another packing info
+    m_vLatestUnpackedFeatures = lv::unpackData(oFeatures,vPackingInfo);
     return m_vLatestUnpackedFeatures;
 }
 
-- 
2.43.0


From bc5cbea2c9179b895cbb115dfe7e47eab011fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:08 +0000
Subject: [PATCH 32/88] fix: let processing sessions be repeated, and observed
 from other threads

Starting a second session or resetting the metrics of a processed batch
raised std::future_error since the output count promise was already
satisfied. Counts and elapsed times could also not be queried from other
threads while a session was active (one-shot futures, shared without any
synchronization).
---
 modules/datasets/include/litiv/datasets.hpp   | 33 ++++++++++++++-----
 .../datasets/include/litiv/datasets/utils.hpp |  9 ++---
 modules/datasets/src/utils.cpp                | 22 ++++++++++---
 3 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets.hpp b/modules/datasets/include/litiv/datasets.hpp
index 090a068..0520eac 100644
--- a/modules/datasets/include/litiv/datasets.hpp
+++ b/modules/datasets/include/litiv/datasets.hpp
@@ -78,9 +78,19 @@ namespace lv {
             /// default destructor, should stay public so smart pointers can access it
             virtual ~WorkBatch() = default;
             /// returns the time taken so far to process the work batch data (i.e. between start/stopProcessing calls)
-            virtual double getCurrentProcessTime() const override final {return this->m_bIsProcessing?this->m_oStopWatch.elapsed():this->m_dFinalElapsedTime;}
+            virtual double getCurrentProcessTime() const override final {
+                std::lock_guard<std::mutex> oLock(m_oTimeMutex);
+                return this->m_bIsProcessing?this->m_oStopWatch.elapsed():this->m_dFinalElapsedTime;
+            }
             /// returns the final time taken to process the work batch data (i.e. between start/stopProcessing calls)
-            virtual double getFinalProcessTime() override final {return this->m_dElapsedTimeFuture.valid()?(this->m_dFinalElapsedTime=this->m_dElapsedTimeFuture.get()):this->m_dFinalElapsedTime;}
+            virtual double getFinalProcessTime() override final {
+                std::shared_future<double> dElapsedTimeFuture;
+                {
+                    std::lock_guard<std::mutex> oLock(m_oTimeMutex);
+                    dElapsedTimeFuture = m_dElapsedTimeFuture;
+                }
+                return dElapsedTimeFuture.valid()?dElapsedTimeFuture.get():0.0; // several threads may be waiting for this at once
+            }
             /// returns whether the work batch is still being processed or not (i.e. between start/stopProcessing calls)
             virtual bool isProcessing() const override final {return m_bIsProcessing;}
             /// always returns false for non-group work batches
@@ -93,11 +103,12 @@ namespace lv {
             inline void startProcessing() {
                 lvDbgExceptionWatch;
                 if(!this->m_bIsProcessing) {
-                    m_dElapsedTimePromise = std::promise<double>();
-                    m_dElapsedTimeFuture = m_dElapsedTimePromise.get_future();
-                    m_dFinalElapsedTime = 0.0;
                     this->resetOutputCount();
                     this->startProcessing_impl();
+                    std::lock_guard<std::mutex> oLock(m_oTimeMutex);
+                    m_dElapsedTimePromise = std::promise<double>();
+                    m_dElapsedTimeFuture = m_dElapsedTimePromise.get_future().share();
+                    m_dFinalElapsedTime = 0.0;
                     this->m_bIsProcessing = true;
                     this->m_oStopWatch.tick();
                 }
@@ -106,8 +117,11 @@ namespace lv {
             inline void stopProcessing() {
                 lvDbgExceptionWatch;
                 if(this->m_bIsProcessing) {
-                    this->m_dElapsedTimePromise.set_value(this->m_oStopWatch.tock());
-                    this->getFinalProcessTime();
+                    {
+                        std::lock_guard<std::mutex> oLock(m_oTimeMutex);
+                        this->m_dFinalElapsedTime = this->m_oStopWatch.elapsed();
+                        this->m_dElapsedTimePromise.set_value(this->m_dFinalElapsedTime);
+                    }
                     this->setOutputCountPromise();
                     this->stopProcessing_impl();
                     this->m_bIsProcessing = false;
@@ -122,11 +136,12 @@ namespace lv {
             WorkBatch& operator=(const WorkBatch&) = delete;
             WorkBatch(const WorkBatch&) = delete;
             friend struct WorkBatchGroup;
+            mutable std::mutex m_oTimeMutex; ///< protects the timer & elapsed time members below, which may be queried from any thread
             lv::StopWatch m_oStopWatch;
             std::promise<double> m_dElapsedTimePromise;
-            std::future<double> m_dElapsedTimeFuture;
+            std::shared_future<double> m_dElapsedTimeFuture;
             double m_dFinalElapsedTime; ///< returns final time elapsed between start/stop processing calls (always in seconds)
-            bool m_bIsProcessing; ///< returns whether in between start/stop processing calls
+            std::atomic_bool m_bIsProcessing; ///< returns whether in between start/stop processing calls
         };
 
         /// fully implemented+specialized work batch group for the current dataset specialization
diff --git a/modules/datasets/include/litiv/datasets/utils.hpp b/modules/datasets/include/litiv/datasets/utils.hpp
index 448e101..b25751a 100644
--- a/modules/datasets/include/litiv/datasets/utils.hpp
+++ b/modules/datasets/include/litiv/datasets/utils.hpp
@@ -860,15 +860,16 @@ namespace lv {
         void countOutput(size_t nPacketIdx);
         /// sets the processed packets count promise for async count fetching
         void setOutputCountPromise();
-        /// resets the processed packets count (and reinitializes promise)
+        /// resets the processed packets count (and reinitializes promise, if already set)
         void resetOutputCount();
         /// default constructor (calls resetOutputCount to initialize all members)
-        inline IDataCounter() {resetOutputCount();}
+        inline IDataCounter() : m_bPacketCountPromiseSet(true) {resetOutputCount();}
     private:
+        mutable std::mutex m_oCountMutex;
         std::unordered_set<size_t> m_mProcessedPackets;
         std::promise<size_t> m_nPacketCountPromise;
-        std::future<size_t> m_nPacketCountFuture;
-        size_t m_nFinalPacketCount;
+        std::shared_future<size_t> m_nPacketCountFuture;
+        bool m_bPacketCountPromiseSet;
     };
 
     /// default (specializable) forward declaration of the data consumer interface
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 17ea92b..8631b2f 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1316,28 +1316,40 @@ std::vector<cv::Mat> lv::IDataProducer_<lv::DatasetSource_ImageArray>::getRawGTA
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 
 size_t lv::IDataCounter::getCurrentOutputCount() const {
+    std::lock_guard<std::mutex> oLock(m_oCountMutex);
     return m_mProcessedPackets.size();
 }
 
 size_t lv::IDataCounter::getFinalOutputCount() {
-    return m_nPacketCountFuture.valid()?(m_nFinalPacketCount=m_nPacketCountFuture.get()):m_nFinalPacketCount;
+    std::shared_future<size_t> nPacketCountFuture;
+    {
+        std::lock_guard<std::mutex> oLock(m_oCountMutex);
+        nPacketCountFuture = m_nPacketCountFuture;
+    }
+    return nPacketCountFuture.get(); // several threads may be waiting for this at once
 }
 
 void lv::IDataCounter::countOutput(size_t nPacketIdx) {
     lvLog_(4,"data counter for batch '%s' registered output packet with idx = %zu",getName().c_str(),nPacketIdx);
+    std::lock_guard<std::mutex> oLock(m_oCountMutex);
     m_mProcessedPackets.insert(nPacketIdx);
 }
 
 void lv::IDataCounter::setOutputCountPromise() {
+    std::lock_guard<std::mutex> oLock(m_oCountMutex);
+    lvAssert_(!m_bPacketCountPromiseSet,"final output count already set");
     m_nPacketCountPromise.set_value(m_mProcessedPackets.size());
+    m_bPacketCountPromiseSet = true;
 }
 
 void lv::IDataCounter::resetOutputCount() {
-    m_nPacketCountPromise.set_value(m_mProcessedPackets.size());
+    std::lock_guard<std::mutex> oLock(m_oCountMutex);
     m_mProcessedPackets.clear();
-    m_nPacketCountPromise = std::promise<size_t>();
-    m_nPacketCountFuture = m_nPacketCountPromise.get_future();
-    m_nFinalPacketCount = 0;
+    if(m_bPacketCountPromiseSet) { // otherwise, the final count is still to come (and may already be awaited)
+        m_nPacketCountPromise = std::promise<size_t>();
+        m_nPacketCountFuture = m_nPacketCountPromise.get_future().share();
+        m_bPacketCountPromiseSet = false;
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a64084ea709750b5a8f58fbee6949fe214e717ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:18 +0000
Subject: [PATCH 33/88] fix: raise an error when a pushed output could not be
 saved

Output images were written without checking whether this succeeded, so
results were silently lost e.g. when the disk was full.
---
 modules/datasets/src/utils.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 8631b2f..156d915 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -16,6 +16,7 @@
 // limitations under the License.
 
 #include "litiv/datasets.hpp"
+#include <fstream>
 #include <list>
 
 #define HARDCODE_IMAGE_PACKET_INDEX        0 // for sync debug only! will corrupt data for non-image packets
@@ -1527,6 +1528,21 @@ void lv::DataWriter::entry() {
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 
+namespace {
+
+    /// writes an image packet to disk, and throws if this could not be done (cv::imwrite does not check for late write errors)
+    void writeImagePacket(const std::string& sFilePath, const cv::Mat& oImage) {
+        std::vector<uchar> vBuffer;
+        lvAssert__(cv::imencode(".png",oImage,vBuffer,std::vector<int>{cv::IMWRITE_PNG_COMPRESSION,9}),"could not encode image for output file at '%s'",sFilePath.c_str());
+        std::ofstream ssStr(sFilePath,std::ios::binary);
+        lvAssert__(ssStr.is_open(),"could not open output file at '%s' for writing",sFilePath.c_str());
+        ssStr.write((const char*)vBuffer.data(),(std::streamsize)vBuffer.size());
+        ssStr.close();
+        lvAssert__(ssStr.good(),"could not write output file at '%s'",sFilePath.c_str());
+    }
+
+} // anonymous namespace
+
 cv::Mat lv::IDataArchiver_<lv::NotArray>::loadOutput(size_t nIdx, int nFlags) {
     lvDbgExceptionWatch;
     const auto pLoader = shared_from_this_cast<const IIDataLoader>(true);
@@ -1562,9 +1578,8 @@ void lv::IDataArchiver_<lv::NotArray>::saveOutput(const cv::Mat& _oOutput, size_
                 cv::bitwise_and(oOutput,UCHAR_MAX/2,oOutput,oROI==0);
             }
         }
-        const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
         sOutputFilePath << ".png";
-        cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+        writeImagePacket(sOutputFilePath.str(),oOutput);
     }
     else {
         sOutputFilePath << ".bin";
@@ -1639,9 +1654,8 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
                     cv::bitwise_and(oOutput,UCHAR_MAX/2,oOutput,oROI==0);
                 }
             }
-            const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
             sOutputFilePath << ".png";
-            cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+            writeImagePacket(sOutputFilePath.str(),oOutput);
         }
         else {
             sOutputFilePath << ".bin";
@@ -1666,9 +1680,8 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
                         cv::bitwise_and(oOutput,UCHAR_MAX/2,oOutput,oROI==0);
                     }
                 }
-                const std::vector<int> vnComprParams = {cv::IMWRITE_PNG_COMPRESSION,9};
                 sOutputFilePath << ".png";
-                cv::imwrite(sOutputFilePath.str(),oOutput,vnComprParams);
+                writeImagePacket(sOutputFilePath.str(),oOutput);
             }
             else {
                 sOutputFilePath << ".bin";
-- 
2.43.0


From 268f3b7e830339181fc44717b5894cbaccb73fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:03 +0000
Subject: [PATCH 34/88] fix: do not count outputs whose evaluation failed

---
 modules/datasets/include/litiv/datasets/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/utils.hpp b/modules/datasets/include/litiv/datasets/utils.hpp
index b25751a..0e47a98 100644
--- a/modules/datasets/include/litiv/datasets/utils.hpp
+++ b/modules/datasets/include/litiv/datasets/utils.hpp
@@ -912,8 +912,8 @@ namespace lv {
         /// pushes an output (processed) data packet for writing and/or evaluation
         inline void push(const cv::Mat& oOutput, size_t nPacketIdx) {
             lvAssert_(isProcessing(),"data processing must be toggled via 'startProcessing()' before pushing packets");
-            countOutput(nPacketIdx);
             processOutput(oOutput,nPacketIdx);
+            countOutput(nPacketIdx); // packets which could not be evaluated are not counted (reports rely on this)
             if(isSavingOutput() && !oOutput.empty())
                 this->saveOutput(oOutput,nPacketIdx);
         }
@@ -943,8 +943,8 @@ namespace lv {
         inline void push(const std::vector<cv::Mat>& vOutput, size_t nPacketIdx) {
             lvAssert_(isProcessing(),"data processing must be toggled via 'startProcessing()' before pushing packets");
             lvAssert_(vOutput.empty() || vOutput.size()==getOutputStreamCount(),"bad output array size");
-            countOutput(nPacketIdx);
             processOutput(vOutput,nPacketIdx);
+            countOutput(nPacketIdx); // packets which could not be evaluated are not counted (reports rely on this)
             if(isSavingOutput() && !vOutput.empty())
                 this->saveOutputArray(vOutput,nPacketIdx);
         }
-- 
2.43.0


From aa192f14490096a6d8dfe1e2c8d7f917090b0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:03 +0000
Subject: [PATCH 35/88] fix: stop precaching before a work batch is destroyed

---
 modules/datasets/include/litiv/datasets.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets.hpp b/modules/datasets/include/litiv/datasets.hpp
index 0520eac..b086dfd 100644
--- a/modules/datasets/include/litiv/datasets.hpp
+++ b/modules/datasets/include/litiv/datasets.hpp
@@ -76,7 +76,12 @@ namespace lv {
                 public DataTemplSpec_<eDatasetTask,eDatasetSource,eDataset,eDatasetEval>,
                 public DataEvaluator_<eDatasetEval,eDataset,eEvalImpl> {
             /// default destructor, should stay public so smart pointers can access it
-            virtual ~WorkBatch() = default;
+            virtual ~WorkBatch() {
+                try {
+                    this->stopPrecaching(); // the precaching threads still use this object, they must be gone before any part of it is
+                }
+                catch(...) {} // a pending precaching error can no longer be reported to anyone
+            }
             /// returns the time taken so far to process the work batch data (i.e. between start/stopProcessing calls)
             virtual double getCurrentProcessTime() const override final {
                 std::lock_guard<std::mutex> oLock(m_oTimeMutex);
-- 
2.43.0


From 36ef5beed537414b3867822d4e7a0ba9d9562a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:02 +0000
Subject: [PATCH 36/88] fix: seek again after a video frame could not be
 decoded

---
 modules/datasets/src/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 156d915..d254369 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -931,6 +931,8 @@ cv::Mat lv::IDataProducer_<lv::DatasetSource_Video>::getRawInput(size_t nPacketI
         else
             ++m_nNextExpectedVideoReaderFrameIdx;
         m_voVideoReader >> oFrame;
+        if(oFrame.empty()) // decoding failed, the reader may or may not have skipped this frame
+            m_nNextExpectedVideoReaderFrameIdx = size_t(-1);
     }
     return oFrame;
 }
-- 
2.43.0


From ed4c80d1d04a4d973365b6834e24f0705d6ef1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:39 +0000
Subject: [PATCH 37/88] fix: honour the layout of foreground masks passed as
 sub-matrices

The subtractors address the pixels of the mask linearly, so that a mask
which is a region of a larger matrix received its pixels in the wrong
places, in part outside the region. Segment into a continuous mask then
and copy the result.
---
 modules/video/src/BackgroundSubtractorLOBSTER.cpp  |  5 +++--
 modules/video/src/BackgroundSubtractorPAWCS.cpp    |  5 +++--
 modules/video/src/BackgroundSubtractorPBAS.cpp     | 14 ++++++++------
 modules/video/src/BackgroundSubtractorSuBSENSE.cpp |  5 +++--
 4 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorLOBSTER.cpp b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
index 9c9bf0a..13e3ead 100644
--- a/modules/video/src/BackgroundSubtractorLOBSTER.cpp
+++ b/modules/video/src/BackgroundSubtractorLOBSTER.cpp
@@ -465,7 +465,8 @@ void BackgroundSubtractorLOBSTER::apply(cv::InputArray _oInputImg, cv::OutputArr
     lvAssert_(oInputImg.type()==m_nImgType && oInputImg.size()==m_oImgSize,"input image type/size mismatch with initialization type/size");
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
     _oFGMask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oCurrFGMask = _oFGMask.getMat();
+    cv::Mat oOutputFGMask = _oFGMask.getMat();
+    cv::Mat oCurrFGMask = oOutputFGMask.isContinuous()?oOutputFGMask:cv::Mat(m_oImgSize,CV_8UC1); // pixels are addressed linearly below
     oCurrFGMask = cv::Scalar_<uchar>(0);
     const size_t nLearningRate = std::isinf(dLearningRate)?SIZE_MAX:(size_t)ceil(dLearningRate);
     if(m_nImgChannels==1) {
@@ -576,7 +577,7 @@ void BackgroundSubtractorLOBSTER::apply(cv::InputArray _oInputImg, cv::OutputArr
         }
     }
     cv::medianBlur(oCurrFGMask,m_oLastFGMask,m_nDefaultMedianBlurKernelSize);
-    m_oLastFGMask.copyTo(oCurrFGMask);
+    m_oLastFGMask.copyTo(oOutputFGMask);
     oInputImg.copyTo(m_oLastColorFrame);
 }
 
diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index 801e774..03fb617 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -563,7 +563,8 @@ void BackgroundSubtractorPAWCS::apply(cv::InputArray _image, cv::OutputArray _fg
     lvAssert_(oInputImg.type()==m_nImgType && oInputImg.size()==m_oImgSize,"input image type/size mismatch with initialization type/size");
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
     _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oCurrFGMask = _fgmask.getMat();
+    cv::Mat oOutputFGMask = _fgmask.getMat();
+    cv::Mat oCurrFGMask = oOutputFGMask.isContinuous()?oOutputFGMask:cv::Mat(m_oImgSize,CV_8UC1); // pixels are addressed linearly below
     memset(oCurrFGMask.data,0,oCurrFGMask.cols*oCurrFGMask.rows);
     const bool bBootstrapping = ++m_nFrameIdx<=DEFAULT_BOOTSTRAP_WIN_SIZE;
     const size_t nCurrSamplesForMovingAvg_LT = bBootstrapping?m_nSamplesForMovingAvgs/2:m_nSamplesForMovingAvgs;
@@ -1456,7 +1457,7 @@ void BackgroundSubtractorPAWCS::apply(cv::InputArray _image, cv::OutputArray _fg
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
     cv::bitwise_not(m_oLastFGMask_dilated,m_oLastFGMask_dilated_inverted);
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
-    m_oLastFGMask.copyTo(oCurrFGMask);
+    m_oLastFGMask.copyTo(oOutputFGMask);
     cv::addWeighted(m_oMeanFinalSegmResFrame_LT,(1.0f-fRollAvgFactor_LT),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_LT,0,m_oMeanFinalSegmResFrame_LT,CV_32F);
     cv::addWeighted(m_oMeanFinalSegmResFrame_ST,(1.0f-fRollAvgFactor_ST),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_ST,0,m_oMeanFinalSegmResFrame_ST,CV_32F);
     const float fCurrNonFlatRegionRatio = (float)(m_nTotRelevantPxCount-nFlatRegionCount)/m_nTotRelevantPxCount;
diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index 3301dbb..a42755b 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -111,7 +111,8 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
     cv::Mat oInputImg = _image.getMat();
     lvAssert(oInputImg.type()==CV_8UC1 && oInputImg.size()==m_oImgSize);
     _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oFGMask = _fgmask.getMat();
+    cv::Mat oOutputFGMask = _fgmask.getMat();
+    cv::Mat oFGMask = oOutputFGMask.isContinuous()?oOutputFGMask:cv::Mat(m_oImgSize,CV_8UC1); // pixels are addressed linearly below
     oFGMask = cv::Scalar_<uchar>(0);
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImg,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
@@ -259,11 +260,11 @@ void BackgroundSubtractorPBAS_1ch::apply(cv::InputArray _image, cv::OutputArray
     //cv::imshow("median3 de3 fill region",m_oFloodedFGMask);
     cv::bitwise_or(m_oFloodedFGMask,m_oLastFGMask,oFGMask);
     //cv::imshow("median3 post-fill",oFGMask);
-    cv::medianBlur(oFGMask,oFGMask,9);
+    cv::medianBlur(oFGMask,oOutputFGMask,9);
     //cv::imshow("median3 post-fill, +median9 ",oFGMask);
     //cv::waitKey(0);
 #else //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
-    cv::medianBlur(oFGMask,oFGMask,9);
+    cv::medianBlur(oFGMask,oOutputFGMask,9);
 #endif //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
 }
 
@@ -335,7 +336,8 @@ void BackgroundSubtractorPBAS_3ch::apply(cv::InputArray _image, cv::OutputArray
     else
         cv::cvtColor(oInputImg,oInputImgRGB,cv::COLOR_GRAY2BGR);
     _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oFGMask = _fgmask.getMat();
+    cv::Mat oOutputFGMask = _fgmask.getMat();
+    cv::Mat oFGMask = oOutputFGMask.isContinuous()?oOutputFGMask:cv::Mat(m_oImgSize,CV_8UC1); // pixels are addressed linearly below
     oFGMask = cv::Scalar_<uchar>(0);
     cv::Mat oBlurredInputImg;
     cv::GaussianBlur(oInputImgRGB,oBlurredInputImg,cv::Size(3,3),0,0,cv::BORDER_DEFAULT);
@@ -487,10 +489,10 @@ void BackgroundSubtractorPBAS_3ch::apply(cv::InputArray _image, cv::OutputArray
     //cv::imshow("median3 de3 fill region",m_oFloodedFGMask);
     cv::bitwise_or(m_oFloodedFGMask,m_oLastFGMask,oFGMask);
     //cv::imshow("median3 post-fill",oFGMask);
-    cv::medianBlur(oFGMask,oFGMask,9);
+    cv::medianBlur(oFGMask,oOutputFGMask,9);
     //cv::imshow("median3 post-fill, +median9 ",oFGMask);
     //cv::waitKey(0);
 #else //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
-    cv::medianBlur(oFGMask,oFGMask,9);
+    cv::medianBlur(oFGMask,oOutputFGMask,9);
 #endif //(!BGSPBAS_USE_ADVANCED_MORPH_OPS)
 }
diff --git a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
index 055c778..5718c3c 100644
--- a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
+++ b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
@@ -192,7 +192,8 @@ void BackgroundSubtractorSuBSENSE::apply(cv::InputArray _image, cv::OutputArray
     lvAssert_(oInputImg.type()==m_nImgType && oInputImg.size()==m_oImgSize,"input image type/size mismatch with initialization type/size");
     lvAssert_(oInputImg.isContinuous(),"input image data must be continuous");
     _fgmask.create(m_oImgSize,CV_8UC1);
-    cv::Mat oCurrFGMask = _fgmask.getMat();
+    cv::Mat oOutputFGMask = _fgmask.getMat();
+    cv::Mat oCurrFGMask = oOutputFGMask.isContinuous()?oOutputFGMask:cv::Mat(m_oImgSize,CV_8UC1); // pixels are addressed linearly below
     memset(oCurrFGMask.data,0,oCurrFGMask.cols*oCurrFGMask.rows);
     size_t nNonZeroDescCount = 0;
     const float fRollAvgFactor_LT = 1.0f/std::min(++m_nFrameIdx,m_nSamplesForMovingAvgs);
@@ -549,7 +550,7 @@ void BackgroundSubtractorSuBSENSE::apply(cv::InputArray _image, cv::OutputArray
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
     cv::bitwise_not(m_oLastFGMask_dilated,m_oLastFGMask_dilated_inverted);
     cv::bitwise_and(m_oBlinksFrame,m_oLastFGMask_dilated_inverted,m_oBlinksFrame);
-    m_oLastFGMask.copyTo(oCurrFGMask);
+    m_oLastFGMask.copyTo(oOutputFGMask);
     cv::addWeighted(m_oMeanFinalSegmResFrame_LT,(1.0f-fRollAvgFactor_LT),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_LT,0,m_oMeanFinalSegmResFrame_LT,CV_32F);
     cv::addWeighted(m_oMeanFinalSegmResFrame_ST,(1.0f-fRollAvgFactor_ST),m_oLastFGMask,(1.0/UCHAR_MAX)*fRollAvgFactor_ST,0,m_oMeanFinalSegmResFrame_ST,CV_32F);
     const float fCurrNonZeroDescRatio = (float)nNonZeroDescCount/m_nTotRelevantPxCount;
-- 
2.43.0


From 5eae594f749f460d8090fcff5aa6032f9eea62ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:39 +0000
Subject: [PATCH 38/88] fix: forget the words of the previous model when PAWCS
 is initialized again

The word lists are rebuilt by initialize, but the dictionaries kept their
pointers into the former lists, and the new model was built on them.
---
 modules/video/src/BackgroundSubtractorPAWCS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index 03fb617..0c34a5e 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -513,8 +513,8 @@ void BackgroundSubtractorPAWCS::initialize(const cv::Mat& oInitImg, const cv::Ma
     m_oTempGlobalWordWeightDiffFactor = cv::Scalar(-0.1f);
     m_oMorphExStructElement = cv::getStructuringElement(cv::MORPH_RECT,cv::Size(3,3));
     m_voPxInfoLUT_PAWCS.resize(m_nTotPxCount);
-    m_vpLocalWordDict.resize(m_nTotRelevantPxCount*m_nCurrLocalWords,nullptr);
-    m_vpGlobalWordDict.resize(m_nCurrGlobalWords,nullptr);
+    m_vpLocalWordDict.assign(m_nTotRelevantPxCount*m_nCurrLocalWords,nullptr);
+    m_vpGlobalWordDict.assign(m_nCurrGlobalWords,nullptr);
     if(m_nImgChannels==1) {
         m_voLocalWordList_1ch.resize(m_nTotRelevantPxCount*m_nCurrLocalWords);
         m_pLocalWordListIter_1ch = m_voLocalWordList_1ch.begin();
-- 
2.43.0


From b579da2517ba1a891550a3c99604c4b651dfeaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:02 +0000
Subject: [PATCH 39/88] fix: reset the mean gradient distance when PBAS is
 initialized again

---
 modules/video/src/BackgroundSubtractorPBAS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorPBAS.cpp b/modules/video/src/BackgroundSubtractorPBAS.cpp
index a42755b..b42f082 100644
--- a/modules/video/src/BackgroundSubtractorPBAS.cpp
+++ b/modules/video/src/BackgroundSubtractorPBAS.cpp
@@ -73,6 +73,7 @@ void BackgroundSubtractorPBAS_1ch::initialize(const cv::Mat& oInitImg) {
     m_oUpdateRateFrame = cv::Scalar(m_fDefaultUpdateRate);
     m_oMeanMinDistFrame.create(m_oImgSize,CV_32FC1);
     m_oMeanMinDistFrame = cv::Scalar(0.0f);
+    m_fFormerMeanGradDist = 20;
     m_oLastFGMask.create(m_oImgSize,CV_8UC1);
     m_oLastFGMask = cv::Scalar(0);
     m_oFloodedFGMask.create(m_oImgSize,CV_8UC1);
@@ -293,6 +294,7 @@ void BackgroundSubtractorPBAS_3ch::initialize(const cv::Mat& oInitImg) {
     m_oUpdateRateFrame = cv::Scalar(m_fDefaultUpdateRate);
     m_oMeanMinDistFrame.create(m_oImgSize,CV_32FC1);
     m_oMeanMinDistFrame = cv::Scalar(0.0f);
+    m_fFormerMeanGradDist = 20;
     m_oLastFGMask.create(m_oImgSize,CV_8UC1);
     m_oLastFGMask = cv::Scalar(0);
     m_oFloodedFGMask.create(m_oImgSize,CV_8UC1);
-- 
2.43.0


From 2d13a805d46e74b72e79018fbeca3b0647a23f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:51 +0000
Subject: [PATCH 40/88] fix: do not save packets under a truncated name when
 memory runs out

---
 modules/datasets/src/utils.cpp | 73 +++++++++++++++-------------------
 1 file changed, 33 insertions(+), 40 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index d254369..428ad6d 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -595,9 +595,8 @@ void lv::IIDataLoader::saveFeatures(size_t nPacketIdx, const cv::Mat& oFeatures)
     lvDbgExceptionWatch;
     if(!oFeatures.empty()) {
         // could use a datawriter here for REALLY big features (but its unlikely that they can be produced faster than saved)
-        std::stringstream ssFeatsFilePath;
-        ssFeatsFilePath << getFeaturesPath() << getFeaturesName(nPacketIdx) << ".bin";
-        lv::write(ssFeatsFilePath.str(),oFeatures);
+        const std::string sFeatsFilePath = getFeaturesPath()+getFeaturesName(nPacketIdx)+".bin";
+        lv::write(sFeatsFilePath,oFeatures);
     }
 }
 
@@ -621,11 +620,10 @@ lv::IIDataLoader::IIDataLoader(PacketPolicy eInputType, PacketPolicy eGTType, Pa
 
 cv::Mat lv::IIDataLoader::loadRawFeatures(size_t nPacketIdx) {
     lvDbgExceptionWatch;
-    std::stringstream ssFeatsFilePath;
-    ssFeatsFilePath << getFeaturesPath() << getFeaturesName(nPacketIdx) << ".bin";
+    const std::string sFeatsFilePath = getFeaturesPath()+getFeaturesName(nPacketIdx)+".bin";
     // all features are user-defined, so we keep no mapping information, and offer no default transformations
-    if(lv::checkIfExists(ssFeatsFilePath.str()))
-        return lv::read(ssFeatsFilePath.str());
+    if(lv::checkIfExists(sFeatsFilePath))
+        return lv::read(sFeatsFilePath);
     return cv::Mat();
 }
 
@@ -1548,26 +1546,24 @@ namespace {
 cv::Mat lv::IDataArchiver_<lv::NotArray>::loadOutput(size_t nIdx, int nFlags) {
     lvDbgExceptionWatch;
     const auto pLoader = shared_from_this_cast<const IIDataLoader>(true);
-    std::stringstream sOutputFilePath;
-    sOutputFilePath << getOutputPath() << getOutputName(nIdx);
+    std::string sOutputFilePath = getOutputPath()+getOutputName(nIdx);
     if(pLoader->getOutputPacketType()==ImagePacket) {
-        sOutputFilePath << ".png";
+        sOutputFilePath += ".png";
         if(nFlags==-1)
-            return cv::imread(sOutputFilePath.str(),cv::IMREAD_UNCHANGED);
+            return cv::imread(sOutputFilePath,cv::IMREAD_UNCHANGED);
         else
-            return cv::imread(sOutputFilePath.str(),nFlags);
+            return cv::imread(sOutputFilePath,nFlags);
     }
     else {
-        sOutputFilePath << ".bin";
-        return lv::read(sOutputFilePath.str());
+        sOutputFilePath += ".bin";
+        return lv::read(sOutputFilePath);
     }
 }
 
 void lv::IDataArchiver_<lv::NotArray>::saveOutput(const cv::Mat& _oOutput, size_t nIdx, int /*nFlags*/) {
     lvDbgExceptionWatch;
     const auto pLoader = shared_from_this_cast<const IIDataLoader>(true);
-    std::stringstream sOutputFilePath;
-    sOutputFilePath << getOutputPath() << getOutputName(nIdx);
+    std::string sOutputFilePath = getOutputPath()+getOutputName(nIdx);
     if(pLoader->getOutputPacketType()==ImagePacket) {
         cv::Mat oOutput = _oOutput;
         // automatically gray-out zones outside ROI if output is binary image mask with 1:1 mapping (e.g. segmentation)
@@ -1580,12 +1576,12 @@ void lv::IDataArchiver_<lv::NotArray>::saveOutput(const cv::Mat& _oOutput, size_
                 cv::bitwise_and(oOutput,UCHAR_MAX/2,oOutput,oROI==0);
             }
         }
-        sOutputFilePath << ".png";
-        writeImagePacket(sOutputFilePath.str(),oOutput);
+        sOutputFilePath += ".png";
+        writeImagePacket(sOutputFilePath,oOutput);
     }
     else {
-        sOutputFilePath << ".bin";
-        lv::write(sOutputFilePath.str(),_oOutput);
+        sOutputFilePath += ".bin";
+        lv::write(sOutputFilePath,_oOutput);
     }
 }
 
@@ -1596,20 +1592,19 @@ std::vector<cv::Mat> lv::IDataArchiver_<lv::Array>::loadOutputArray(size_t nIdx,
     const auto pLoader = shared_from_this_cast<const IIDataLoader>(true);
     std::vector<cv::Mat> vOutput(getOutputStreamCount());
     for(size_t nStreamIdx=0; nStreamIdx<vOutput.size(); ++nStreamIdx) {
-        std::stringstream sOutputFilePath;
-        sOutputFilePath << getOutputPath() << getOutputName(nIdx);
+        std::string sOutputFilePath = getOutputPath()+getOutputName(nIdx);
         if(vOutput.size()>size_t(1))
-            sOutputFilePath << "_" << nStreamIdx;
+            sOutputFilePath += "_"+std::to_string(nStreamIdx);
         if(pLoader->getOutputPacketType()==ImagePacket || pLoader->getOutputPacketType()==ImageArrayPacket) {
-            sOutputFilePath << ".png";
+            sOutputFilePath += ".png";
             if(nFlags==-1)
-                vOutput[nStreamIdx] = cv::imread(sOutputFilePath.str(),cv::IMREAD_UNCHANGED);
+                vOutput[nStreamIdx] = cv::imread(sOutputFilePath,cv::IMREAD_UNCHANGED);
             else
-                vOutput[nStreamIdx] = cv::imread(sOutputFilePath.str(),nFlags);
+                vOutput[nStreamIdx] = cv::imread(sOutputFilePath,nFlags);
         }
         else {
-            sOutputFilePath << ".bin";
-            vOutput[nStreamIdx] = lv::read(sOutputFilePath.str());
+            sOutputFilePath += ".bin";
+            vOutput[nStreamIdx] = lv::read(sOutputFilePath);
         }
     }
     return vOutput;
@@ -1642,8 +1637,7 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
     const auto pLoader = shared_from_this_cast<const IIDataLoader>(true);
     if(nStreamCount==size_t(1)) {
         const cv::Mat& _oOutput = vOutput[0];
-        std::stringstream sOutputFilePath;
-        sOutputFilePath << getOutputPath() << getOutputName(nIdx);
+        std::string sOutputFilePath = getOutputPath()+getOutputName(nIdx);
         if(pLoader->getOutputPacketType()==ImagePacket || pLoader->getOutputPacketType()==ImageArrayPacket) {
             cv::Mat oOutput = _oOutput;
             // automatically gray-out zones outside ROI if output is binary image mask with 1:1 mapping (e.g. segmentation)
@@ -1656,19 +1650,18 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
                     cv::bitwise_and(oOutput,UCHAR_MAX/2,oOutput,oROI==0);
                 }
             }
-            sOutputFilePath << ".png";
-            writeImagePacket(sOutputFilePath.str(),oOutput);
+            sOutputFilePath += ".png";
+            writeImagePacket(sOutputFilePath,oOutput);
         }
         else {
-            sOutputFilePath << ".bin";
-            lv::write(sOutputFilePath.str(),_oOutput);
+            sOutputFilePath += ".bin";
+            lv::write(sOutputFilePath,_oOutput);
         }
     }
     else { // nStreamCount>size_t(1)
         for(size_t nStreamIdx=0; nStreamIdx<nStreamCount; ++nStreamIdx) {
             const cv::Mat& _oOutput = vOutput[nStreamIdx];
-            std::stringstream sOutputFilePath;
-            sOutputFilePath << getOutputPath() << getOutputName(nIdx) << "_" << nStreamIdx;
+            std::string sOutputFilePath = getOutputPath()+getOutputName(nIdx)+"_"+std::to_string(nStreamIdx);
             lvDbgAssert(pLoader->getOutputPacketType()!=ImagePacket);
             if(pLoader->getOutputPacketType()==ImageArrayPacket) {
                 cv::Mat oOutput = _oOutput;
@@ -1682,12 +1675,12 @@ void lv::IDataArchiver_<lv::Array>::saveOutputArray(const std::vector<cv::Mat>&
                         cv::bitwise_and(oOutput,UCHAR_MAX/2,oOutput,oROI==0);
                     }
                 }
-                sOutputFilePath << ".png";
-                writeImagePacket(sOutputFilePath.str(),oOutput);
+                sOutputFilePath += ".png";
+                writeImagePacket(sOutputFilePath,oOutput);
             }
             else {
-                sOutputFilePath << ".bin";
-                lv::write(sOutputFilePath.str(),_oOutput);
+                sOutputFilePath += ".bin";
+                lv::write(sOutputFilePath,_oOutput);
             }
         }
     }
-- 
2.43.0


From c5ea306cbdf64e60d7ad8b91e2638cb08717b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:51 +0000
Subject: [PATCH 41/88] fix: print the initial progress bar under the log mutex

---
 modules/utils/include/litiv/utils/console.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/console.hpp b/modules/utils/include/litiv/utils/console.hpp
index e287bd8..85e4a4d 100644
--- a/modules/utils/include/litiv/utils/console.hpp
+++ b/modules/utils/include/litiv/utils/console.hpp
@@ -572,8 +572,10 @@ namespace lv {
             lvDbgAssert_(m_nBarCols>0,"number of columns in progress bar must be positive");
             m_fLatestCompletion = 0.0f;
             m_nLatestComplBars = size_t(0);
-            if(dInitRefresh_sec<=0.0)
+            if(dInitRefresh_sec<=0.0) {
+                std::lock_guard<std::mutex> oLock(lv::getLogMutex());
                 lv::updateConsoleProgressBar(m_sBarPrefix,m_fLatestCompletion,m_bUseCarrRet,m_nBarCols);
+            }
         }
         /// updates the progress bar, but only if enough time has elapsed and completion is increasing
         inline bool update(float fCompletion) {
-- 
2.43.0


From fae3a1ca1024508dbde7a52c08483a9803ef7b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:22 +0000
Subject: [PATCH 42/88] fix: stop all precachers and batches even if one of
 them reports an error

---
 modules/datasets/src/utils.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index 428ad6d..c5f81b1 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -274,8 +274,18 @@ void lv::DataGroupHandler::startPrecaching(bool bPrecacheInputOnly, size_t nSugg
 }
 
 void lv::DataGroupHandler::stopPrecaching() {
-    for(const auto& pBatch : getBatches(true))
-        pBatch->stopPrecaching();
+    std::exception_ptr pException; // all batches must be stopped, even if one of them reports a pending error
+    for(const auto& pBatch : getBatches(true)) {
+        try {
+            pBatch->stopPrecaching();
+        }
+        catch(...) {
+            if(!pException)
+                pException = std::current_exception();
+        }
+    }
+    if(pException)
+        std::rethrow_exception(pException);
 }
 
 void lv::DataGroupHandler::parseData() {
@@ -571,9 +581,18 @@ void lv::IIDataLoader::startPrecaching(bool bPrecacheInputOnly, size_t nSuggeste
 }
 
 void lv::IIDataLoader::stopPrecaching() {
-    m_oInputPrecacher.stopAsyncPrecaching();
-    m_oGTPrecacher.stopAsyncPrecaching();
-    m_oFeaturesPrecacher.stopAsyncPrecaching();
+    std::exception_ptr pException; // all precachers must be stopped, even if one of them reports a pending error
+    for(DataPrecacher* pPrecacher : {&m_oInputPrecacher,&m_oGTPrecacher,&m_oFeaturesPrecacher}) {
+        try {
+            pPrecacher->stopAsyncPrecaching();
+        }
+        catch(...) {
+            if(!pException)
+                pException = std::current_exception();
+        }
+    }
+    if(pException)
+        std::rethrow_exception(pException);
 }
 
 const cv::Mat& lv::IIDataLoader::getInput(size_t nPacketIdx) {
-- 
2.43.0


From f1e2400b04072f185c647a91eefb6e684c7dd94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:33 +0000
Subject: [PATCH 43/88] fix: do not let a precaching thread become the owner of
 its work batch

The features precaching thread took shared ownership of its batch to name
a packet; if the batch was released meanwhile, that thread destroyed it,
and terminated the process when joining itself.
---
 modules/datasets/src/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index c5f81b1..a011315 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -54,7 +54,8 @@ std::string lv::IDataHandler::getOutputName(size_t nPacketIdx) const {
 }
 
 std::string lv::IDataHandler::getFeaturesName(size_t nPacketIdx) const {
-    const auto pProducer = shared_from_this_cast<const IDataProducer_<DatasetSource_Image>>();
+    // called by precaching threads, which must never become the last owner of the work batch (they would have to join themselves)
+    const auto pProducer = dynamic_cast<const IDataProducer_<DatasetSource_Image>*>(this);
     if(pProducer && pProducer->getIOMappingType()<=IndexMapping)
         return getInputName(nPacketIdx); // will reuse input image file name as features name
     std::array<char,32> acBuffer;
-- 
2.43.0


From 06dafc7ea14f25f4fcb889bc83cde29d1df1bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:44 +0000
Subject: [PATCH 44/88] fix: do not terminate when a writing error occurs while
 memory is exhausted

---
 modules/datasets/include/litiv/datasets/utils.hpp | 2 +-
 modules/datasets/src/utils.cpp                    | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/utils.hpp b/modules/datasets/include/litiv/datasets/utils.hpp
index 0e47a98..73663fb 100644
--- a/modules/datasets/include/litiv/datasets/utils.hpp
+++ b/modules/datasets/include/litiv/datasets/utils.hpp
@@ -801,7 +801,7 @@ namespace lv {
         void joinWorkers();
         const std::function<size_t(const cv::Mat&,size_t)> m_lCallback;
         std::vector<std::thread> m_vhWorkers;
-        std::stack<std::pair<std::exception_ptr,size_t>> m_vWorkerExceptions;
+        std::exception_ptr m_pLatestWorkerException;
         std::mutex m_oSyncMutex;
         std::condition_variable m_oQueueCondVar;
         std::condition_variable m_oClearCondVar;
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index a011315..fa8f555 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -1489,10 +1489,9 @@ void lv::DataWriter::stopAsyncWriting() {
         lvLog_(2,"data writer [%" PRIxPTR "] joining writing threads",uintptr_t(this));
         joinWorkers();
     }
-    if(!m_vWorkerExceptions.empty()) {
-        std::exception_ptr pLatestException = m_vWorkerExceptions.top().first; // add packet idx to exception...? somewhow?
-        while(!m_vWorkerExceptions.empty())
-            m_vWorkerExceptions.pop();
+    if(m_pLatestWorkerException) {
+        std::exception_ptr pLatestException; // add packet idx to exception...? somewhow?
+        std::swap(pLatestException,m_pLatestWorkerException);
         std::rethrow_exception(pLatestException);
     }
 }
@@ -1533,7 +1532,7 @@ void lv::DataWriter::entry() {
             m_lCallback(oPacket,pCurrPacket->first);
         }
         catch(...) {
-            m_vWorkerExceptions.push(std::make_pair(std::current_exception(),pCurrPacket->first));
+            m_pLatestWorkerException = std::current_exception(); // must not allocate, as the system might be out of memory
         }
         oQueuedPacket.m_bWriting = false;
         if(!oQueuedPacket.m_bPending)
-- 
2.43.0


From 6304e63dbc11a0711370a7c035f5404f7657c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:41 +0000
Subject: [PATCH 45/88] hook: allow simulation builds to override the default
 frame size of background subtractors

Off by default (LITIV_SIM_DEFAULT_FRAME_SIZE undefined).
---
 modules/video/src/BackgroundSubtractorPAWCS.cpp    | 4 ++++
 modules/video/src/BackgroundSubtractorSuBSENSE.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/modules/video/src/BackgroundSubtractorPAWCS.cpp b/modules/video/src/BackgroundSubtractorPAWCS.cpp
index 0c34a5e..3278d82 100644
--- a/modules/video/src/BackgroundSubtractorPAWCS.cpp
+++ b/modules/video/src/BackgroundSubtractorPAWCS.cpp
@@ -56,7 +56,11 @@
 // local define used to toggle the frame-level component to allow resets [on/off]
 #define USE_AUTO_MODEL_RESET 1
 // local define used to specify the default frame size (320x240 = QVGA)
+#ifdef LITIV_SIM_DEFAULT_FRAME_SIZE // simulation builds only; lets small frames be treated as large ones
+#define DEFAULT_FRAME_SIZE cv::Size(LITIV_SIM_DEFAULT_FRAME_SIZE)
+#else //ndef(LITIV_SIM_DEFAULT_FRAME_SIZE)
 #define DEFAULT_FRAME_SIZE cv::Size(320,240)
+#endif //ndef(LITIV_SIM_DEFAULT_FRAME_SIZE)
 // local define used to specify the default lword/gword update rate (16 = like vibe)
 #define DEFAULT_RESAMPLING_RATE (16)
 // local define used to specify the bootstrap window size for faster model stabilization
diff --git a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
index 5718c3c..7606e0b 100644
--- a/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
+++ b/modules/video/src/BackgroundSubtractorSuBSENSE.cpp
@@ -48,7 +48,11 @@
 // local define used to display debug information
 #define DISPLAY_SUBSENSE_DEBUG_INFO 0
 // local define used to specify the default frame size (320x240 = QVGA)
+#ifdef LITIV_SIM_DEFAULT_FRAME_SIZE // simulation builds only; lets small frames be treated as large ones
+#define DEFAULT_FRAME_SIZE cv::Size(LITIV_SIM_DEFAULT_FRAME_SIZE)
+#else //ndef(LITIV_SIM_DEFAULT_FRAME_SIZE)
 #define DEFAULT_FRAME_SIZE cv::Size(320,240)
+#endif //ndef(LITIV_SIM_DEFAULT_FRAME_SIZE)
 // local define used to specify the color dist threshold offset used for unstable regions
 #define STAB_COLOR_DIST_OFFSET (m_nMinColorDistThreshold/5)
 // local define used to specify the desc dist threshold offset used for unstable regions
-- 
2.43.0


From 024ac8c985ccb3bdc0fa9184e9a16ab4927c2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:54 +0000
Subject: [PATCH 46/88] fix: allow virtual PTZ cameras to open color videos

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index b5a296c..1eead97 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -48,11 +48,11 @@ vptz::Camera::Camera( const std::string& sInputPath, double verti_FOV, double ou
         cv::Mat oTestFrame1, oTestFrame2;
         if(!panoCapture.set(cv::CAP_PROP_POS_FRAMES,0) || !panoCapture.read(oTestFrame1) || oTestFrame1.empty() || !panoCapture.read(oTestFrame2) || oTestFrame2.empty())
             lvError("could not fetch the first two frames of the image sequence");
-        if(cv::countNonZero(oTestFrame1!=oTestFrame2)==0)
+        if(cv::norm(oTestFrame1,oTestFrame2,cv::NORM_INF)==0)
             lvError("opencv impl cannot properly parse the image sequence, all frames are identical");
         if(!panoCapture.set(cv::CAP_PROP_POS_FRAMES,0) || !panoCapture.read(oTestFrame2) || oTestFrame2.empty())
             lvError("could not fetch the first frame of the image sequence");
-        if(cv::countNonZero(oTestFrame1!=oTestFrame2))
+        if(cv::norm(oTestFrame1,oTestFrame2,cv::NORM_INF)!=0)
             lvError("opencv impl could not seek back to the first frame of the image sequence");
         panoCapture >> panoImage;
         panoCapture.set(cv::CAP_PROP_POS_FRAMES,0);
-- 
2.43.0


From ed86c2f8bcfee835ce19ae8d0288d1157e58afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:54 +0000
Subject: [PATCH 47/88] fix: validate the given view angles in the ground truth
 translator

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 1eead97..a56b8fa 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -317,7 +317,7 @@ vptz::GTTranslator::GTTranslator( int cur_output_width, int cur_output_height, d
     lvDbgExceptionWatch;
     if(cur_output_width<1 || cur_output_height<1 || cur_verti_FOV<=0.0 || cur_verti_FOV>=180.0 ||
         bgt_output_width<1 || bgt_output_height<1 || bgt_verti_FOV<=0.0 || bgt_verti_FOV>=180.0 ||
-        curHoriAngle<=-180.0 || curHoriAngle>180.0 || curVertiAngle<0.0 || curVertiAngle>180.0)
+        cur_hori_angle<=-180.0 || cur_hori_angle>180.0 || cur_verti_angle<0.0 || cur_verti_angle>180.0)
         lvError("invalid parameter(s)");
     curOutputWidth = cur_output_width;
     curOutputHeight = cur_output_height;
@@ -331,7 +331,7 @@ vptz::GTTranslator::GTTranslator( int cur_output_width, int cur_output_height, d
 
 void vptz::GTTranslator::UpdateViewAngle(double cur_hori_angle, double cur_verti_angle) {
     lvDbgExceptionWatch;
-    if(curHoriAngle<=-180.0 || curHoriAngle>180.0 || curVertiAngle<0.0 || curVertiAngle>180.0)
+    if(cur_hori_angle<=-180.0 || cur_hori_angle>180.0 || cur_verti_angle<0.0 || cur_verti_angle>180.0)
         lvError("invalid input parameter");
     curHoriAngle = cur_hori_angle;
     curVertiAngle = cur_verti_angle;
-- 
2.43.0


From 822875cb962e21339b9ac083e3fe726abf984b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:17 +0000
Subject: [PATCH 48/88] fix: use the camera's own context when changing its fov
 and when destroying it

---
 modules/vptz/src/virtualptz.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index a56b8fa..f2faf38 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -121,6 +121,7 @@ vptz::Camera::Camera( const std::string& sInputPath, double verti_FOV, double ou
 
 vptz::Camera::~Camera() {
     lvDbgExceptionWatch;
+    m_pContext->setAsActive();
     gluDeleteQuadric(m_pSphereObj);
     glDeleteTextures(1, &m_nTexID);
 }
@@ -287,6 +288,7 @@ void vptz::Camera::Set(CameraPropertyFlag flag, double value) {
             lvError("invalid flag");
     }
     if(bRefreshProj && m_pContext) {
+        m_pContext->setAsActive();
         glMatrixMode(GL_PROJECTION);
         glLoadIdentity();
         gluPerspective(vertiFOV, outputWidth/outputHeight, 0.01, 10.0);
-- 
2.43.0


From 0374e6875e132feaa08fbcd7261a579464146159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:17 +0000
Subject: [PATCH 49/88] fix: keep horizontal camera angles in (-180,180]

---
 modules/vptz/src/virtualptz.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index f2faf38..d0aaa01 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -248,6 +248,8 @@ void vptz::Camera::Set(CameraPropertyFlag flag, double value) {
         case PTZ_CAM_HORI_ANGLE: {
             if(value<=-180.0 || value>180.0)
                 value = fmod(value+180-360*(value<0),360)-180+360*(value<0);
+            if(value<=-180.0)
+                value += 360.0;
             double tempHoriAngle = horiAngle;
             horiAngle = value;
             horiAngleChange = horiAngle-tempHoriAngle;
@@ -832,6 +834,8 @@ void vptz::PTZPointXYtoHV( int target2dX, int target2dY, double& tarHoriAngle, d
     double target3dY = ray_world.at<double>(1,0);
     double target3dZ = ray_world.at<double>(2,0);
     tarHoriAngle = R2D(atan2(target3dY, target3dX));     // horizontal angle
+    if(tarHoriAngle<=-180.0)
+        tarHoriAngle += 360.0; // atan2 can reach -pi, which is out of our (-180, 180] range
     double target3dR = sqrt(target3dX*target3dX+target3dY*target3dY+target3dZ*target3dZ);
     tarVertiAngle = R2D(acos(target3dZ/target3dR));    // vertical angle
 }
-- 
2.43.0


From 63523fc2dcf060815c815119635b374a414b908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 50/88] fix: only deduct the rendering time of the current
 period from the camera's execution delay

---
 modules/vptz/include/litiv/vptz/virtualptz.hpp | 1 +
 modules/vptz/src/virtualptz.cpp                | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/include/litiv/vptz/virtualptz.hpp b/modules/vptz/include/litiv/vptz/virtualptz.hpp
index 1922aec..7a70065 100644
--- a/modules/vptz/include/litiv/vptz/virtualptz.hpp
+++ b/modules/vptz/include/litiv/vptz/virtualptz.hpp
@@ -122,6 +122,7 @@ namespace vptz {
         double firstTick;                        // for playing the video
         double horiAngleChange,vertiAngleChange; // required changes of horizontal and vertical direction angles (degree), get
         double getFrameOverhead;                 // the time of running GetFrame() (second, >=0), get
+        double totalFrameOverhead;               // total time of running GetFrame() since the last delay (second, >=0)
         double executionBeginTime;               // beginning time of other execution, including tracking and rendering (second)
         double executionEndTime;                 // ending time of other execution, including tracking and rendering (second)
         double currentTime;                      // current playing time since beginning, ignoring the getFrameOverhead (second)
diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index d0aaa01..03aaae2 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -82,6 +82,7 @@ vptz::Camera::Camera( const std::string& sInputPath, double verti_FOV, double ou
     vertiAngleChange = 0.0;
     currentTime = 0.0;
     getFrameOverhead = 0.0;
+    totalFrameOverhead = 0.0;
     executionBeginTime = 0.0;
     executionEndTime = 0.0;
     executionDelay = 0.0;
@@ -148,6 +149,8 @@ void vptz::Camera::BeginPlaying(int nFrameIdx) {
     lvDbgExceptionWatch;
     Set(PTZ_CAM_FRAME_POS,(double)nFrameIdx);
     currentTime = nFrameIdx/m_dFrameRate;
+    totalFrameOverhead = 0.0;
+    executionBeginTime = 0.0;
     firstTick = double(cv::getTickCount());
 }
 
@@ -158,18 +161,19 @@ bool vptz::Camera::WaitDelay(bool bSleep) {
     // The end of other parts (tracker's analysing, get frame)
     executionEndTime = (double(cv::getTickCount())-firstTick)/cv::getTickFrequency();
     // two of the three kinds of delay
-    executionDelay = (executionEndTime-executionBeginTime)-getFrameOverhead;
+    executionDelay = (executionEndTime-executionBeginTime)-totalFrameOverhead;
     motionDelay = std::abs(horiAngleChange)/horiSpeed+std::abs(vertiAngleChange)/vertiSpeed;
     // calculate frame position
     currentTime += executionDelayRatio*executionDelay + motionDelay + communicationDelay;
     m_nCurrFrameIdx = std::max(int(currentTime*m_dFrameRate+0.5),m_nCurrFrameIdx+1);
     if(bSleep) {
-        double waitingTime = motionDelay + communicationDelay - getFrameOverhead;
+        double waitingTime = motionDelay + communicationDelay - totalFrameOverhead;
         if(waitingTime<0.001) waitingTime = 0.001;
         cv::waitKey(int(waitingTime*1000));
     }
     // the beginning of other parts (tracker's analysing, get frame)
     executionBeginTime = (double(cv::getTickCount())-firstTick)/cv::getTickFrequency();
+    totalFrameOverhead = 0.0;
     return m_nCurrFrameIdx<m_nScenarioFrameCount;
 }
 
@@ -194,6 +198,7 @@ const cv::Mat& vptz::Camera::GetFrame() {
     glReadPixels(0,0,m_oViewportFrame.cols,m_oViewportFrame.rows,GL_BGRA,GL_UNSIGNED_INT_8_8_8_8_REV,m_oViewportFrame.data);
     cv::flip(m_oViewportFrame,m_oViewportFrame, 0);
     getFrameOverhead = (double(cv::getTickCount())-duration)/cv::getTickFrequency();
+    totalFrameOverhead += getFrameOverhead;
     glErrorCheck;
     return m_oViewportFrame;
 }
-- 
2.43.0


From bafbc8d9f6c70f77e48530e9a815fc870022734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:15 +0000
Subject: [PATCH 51/88] fix: close the list of results when an evaluator is
 destroyed while testing

---
 modules/vptz/src/virtualptz.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 03aaae2..eb21aac 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -470,6 +470,8 @@ vptz::Evaluator::~Evaluator() {
     if(std::uncaught_exception())
         return; // YML file is most likely in an irrecuperable state
     if(m_bUsingMultiTestSet) {
+        if(m_bRunning)
+            m_oOutputEvalFS << "]";
         if(m_bReady)
             m_oOutputEvalFS << "}";
         m_oOutputEvalFS << "]"
-- 
2.43.0


From aa8ff23586e6538f0406f4356bdf8a652d166de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:35 +0000
Subject: [PATCH 52/88] fix: close the report entry of a test sequence whose
 setup fails in opencv

---
 modules/vptz/src/virtualptz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index eb21aac..d496d8c 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -511,7 +511,7 @@ void vptz::Evaluator::SetupTesting(int nTestIdx) {
         m_pCamera->Set(PTZ_CAM_HORI_ANGLE,m_bgtInitHoriAngle);
         m_pCamera->Set(PTZ_CAM_VERTI_ANGLE,m_bgtInitVertiAngle);
     }
-    catch(const lv::Exception&) {
+    catch(const std::exception&) { // includes opencv's own exceptions
         if(m_bUsingMultiTestSet)
             m_oOutputEvalFS << "}";
         m_bReady = m_bQueried = false;
@@ -530,7 +530,7 @@ void vptz::Evaluator::BeginTesting() {
     try {
         m_pCamera->BeginPlaying(m_nFirstTestFrameIdx);
     }
-    catch(const lv::Exception&) {
+    catch(const std::exception&) { // includes opencv's own exceptions
         if(m_bUsingMultiTestSet)
             m_oOutputEvalFS << "}";
         m_bReady = m_bQueried = false;
-- 
2.43.0


From 723012d9c6e3ec783aef88d0156c4bf46bf2bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:57 +0000
Subject: [PATCH 53/88] fix: compare the vertical target position to the frame
 height in vptz evaluations

---
 modules/vptz/src/virtualptz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index d496d8c..92a0579 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -684,7 +684,7 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     double dCurrTargetPointError;  // target point error (pixel, -1.0 if out of view), L2 dist between tracked point and gt point
     double dCurrTargetPointOffset; // target point offset (pixel, -1.0 if out of view), L2 dist between gt point and image center
     if(tgtTargetPoint.x<0 || tgtTargetPoint.y<0 ||
-        tgtTargetPoint.x>m_pTranslator->curOutputWidth-1 || tgtTargetPoint.x>m_pTranslator->curOutputHeight-1 ||
+        tgtTargetPoint.x>m_pTranslator->curOutputWidth-1 || tgtTargetPoint.y>m_pTranslator->curOutputHeight-1 ||
         (rCurrTargetBBox.width<VPTZ_MINIMUM_BBOX_RADIUS || rCurrTargetBBox.height<VPTZ_MINIMUM_BBOX_RADIUS) ) {
         ++m_nCurrOutOfViewFrameCount;
         dCurrTargetPointError = -1.0;
-- 
2.43.0


From 6378a7376a7be20a3fbdeea928a3458c9dae2cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:13 +0000
Subject: [PATCH 54/88] fix: do not evaluate overlaps against boxes of earlier
 frames or empty boxes

---
 modules/vptz/src/virtualptz.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/vptz/src/virtualptz.cpp b/modules/vptz/src/virtualptz.cpp
index 92a0579..c6f39f5 100644
--- a/modules/vptz/src/virtualptz.cpp
+++ b/modules/vptz/src/virtualptz.cpp
@@ -679,7 +679,8 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     double bgtVertiAngle = m_voCurrGTSequence_FN[nCurrGTArrayIdx]["verticalAngle"];
     // translated ground truth for required frame
     m_pTranslator->GetGTTargetPoint(bgtHoriAngle, bgtVertiAngle, tgtTargetPoint);
-    m_pTranslator->GetGTBoundingBox(bgtHoriAngle, bgtVertiAngle, bgtBBoxwidth, bgtBBoxheight, tgtBoundingBox);
+    if(!m_pTranslator->GetGTBoundingBox(bgtHoriAngle, bgtVertiAngle, bgtBBoxwidth, bgtBBoxheight, tgtBoundingBox))
+        tgtBoundingBox = cv::Rect(); // target is behind the camera
     // target point distance and offset
     double dCurrTargetPointError;  // target point error (pixel, -1.0 if out of view), L2 dist between tracked point and gt point
     double dCurrTargetPointOffset; // target point offset (pixel, -1.0 if out of view), L2 dist between gt point and image center
@@ -701,7 +702,7 @@ void vptz::Evaluator::UpdateCurrentResult(cv::Rect& rCurrTargetBBox, bool bPrint
     // overlap ratio of bounding box
     double AND = double((tgtBoundingBox&rCurrTargetBBox).area());
     double OR = double(tgtBoundingBox.area()+rCurrTargetBBox.area()-AND);
-    double dCurrBBoxOverlapRatio = AND/OR ;
+    double dCurrBBoxOverlapRatio = OR>0?AND/OR:0.0;
     m_dCurrBBoxOverlapRatioSum += dCurrBBoxOverlapRatio;
     m_oOutputEvalFS << "{:" << "framePos" << m_nCurrFrameIdx
                     << "targetPointError" << dCurrTargetPointError
-- 
2.43.0


From 575e3cf1a5a566b611aa9f11b5e8197d183b580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:46 +0000
Subject: [PATCH 55/88] fix: do not shift LBSP edge masks up by two rows (and
 write outside of the map)

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index f1e9885..2208e2c 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -259,7 +259,7 @@ void EdgeDetectorLBSP::apply_internal_threshold(const cv::Mat& oInputImg, cv::Ma
                 std::fill(anGradRow+oInputImg.cols*nGradMapColStep,anGradRow+(oInputImg.cols+nNMSHalfWinSize)*nGradMapColStep,0);
                 if(nRowIter<oCurrScaleSize.height-int(nNMSHalfWinSize)) {
                     anGradRow += nGradMapRowStep*nNMSHalfWinSize; // offset by nNMSHalfWinSize rows
-                    uchar* anEdgeMapRow = oEdgeTempMask.ptr<uchar>(nRowIter+nNMSHalfWinSize)+nNMSHalfWinSize*nEdgeMapColStep;
+                    uchar* anEdgeMapRow = oEdgeTempMask.ptr<uchar>(nRowIter+nNMSHalfWinSize*2)+nNMSHalfWinSize*nEdgeMapColStep;
                     std::fill(anEdgeMapRow-nEdgeMapColStep*nNMSHalfWinSize,anEdgeMapRow,1);
                     std::fill(anEdgeMapRow+oInputImg.cols*nEdgeMapColStep,anEdgeMapRow+(oInputImg.cols+nNMSHalfWinSize)*nEdgeMapColStep,1);
                     stack_check_size(oInputImg.cols);
-- 
2.43.0


From 80f9e952e0d3eb064ae5ca15cecfd9425f13d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:46 +0000
Subject: [PATCH 56/88] fix: do not access LBSP edge pyramid levels smaller
 than the border out of bounds

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index 2208e2c..ae1b50c 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -102,14 +102,14 @@ void EdgeDetectorLBSP::apply_internal_lookup(const cv::Mat& oInputImg) {
                 lBorderColLookup(nRowIter,nCurrRowLUTIdx,nColIter);
         };
         size_t nRowIter = 0;
-        for(; nRowIter<nROIBorderSize; ++nRowIter)
+        for(; nRowIter<std::min(nROIBorderSize,nCurrScaleRows); ++nRowIter)
             lBorderRowLookup(nRowIter);
-        for(; nRowIter<nCurrScaleRows-nROIBorderSize; ++nRowIter) {
+        for(; nRowIter+nROIBorderSize<nCurrScaleRows; ++nRowIter) {
             const size_t nCurrRowLUTIdx = nRowIter*nCurrRowLUTStep;
             size_t nColIter = 0;
-            for(; nColIter<nROIBorderSize; ++nColIter)
+            for(; nColIter<std::min(nROIBorderSize,nCurrScaleCols); ++nColIter)
                 lBorderColLookup(nRowIter,nCurrRowLUTIdx,nColIter);
-            for(; nColIter<nCurrScaleCols-nROIBorderSize; ++nColIter) {
+            for(; nColIter+nROIBorderSize<nCurrScaleCols; ++nColIter) {
                 const size_t nCurrColLUTIdx = nCurrRowLUTIdx+nColIter*nColLUTStep;
                 uchar* aanCurrLUT = m_vvuLBSPLookupMaps[nLevelIter].data()+nCurrColLUTIdx;
                 lvDbgAssert(nCurrColLUTIdx<m_vvuLBSPLookupMaps[nLevelIter].size() && (nCurrColLUTIdx%LBSP::DESC_SIZE_BITS)==0);
-- 
2.43.0


From 463a8bb33da8853daa94f40e20496ff6eacada6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:46 +0000
Subject: [PATCH 57/88] fix: warp maps of coincident control points are
 translations, not NaN offsets

---
 modules/imgproc/src/imwarp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/imgproc/src/imwarp.cpp b/modules/imgproc/src/imwarp.cpp
index 5aa6c2c..140e6d9 100644
--- a/modules/imgproc/src/imwarp.cpp
+++ b/modules/imgproc/src/imwarp.cpp
@@ -196,8 +196,8 @@ bool ImageWarper::computeTransform() {
                         cv::Point2d vTmpPt(
                             vPtI.dot(vCurrPt)*m_vSourcePts[nPtIdx].x - vPtI_R.dot(vCurrPt)*m_vSourcePts[nPtIdx].y,
                             -vPtI.dot(vCurrPt_R)*m_vSourcePts[nPtIdx].x + vPtI_R.dot(vCurrPt_R)*m_vSourcePts[nPtIdx].y);
-                        vTmpPt *= vL2SqrDists[nPtIdx]/dMIU;
-                        oNewPoint += vTmpPt;
+                        if(dMIU>0)
+                            oNewPoint += vTmpPt*(vL2SqrDists[nPtIdx]/dMIU);
                     }
                     oNewPoint += vWgSourcePt;
                 }
@@ -271,8 +271,8 @@ bool ImageWarper::computeTransform() {
                         cv::Point2d vTmpPt(
                             vPtI.dot(vCurrPt)*m_vSourcePts[nPtIdx].x - vPtI_R.dot(vCurrPt)*m_vSourcePts[nPtIdx].y,
                             -vPtI.dot(vCurrPt_R)*m_vSourcePts[nPtIdx].x + vPtI_R.dot(vCurrPt_R)*m_vSourcePts[nPtIdx].y);
-                        vTmpPt *= vL2SqrDists[nPtIdx]/dMIU;
-                        oNewPoint += vTmpPt;
+                        if(dMIU>0)
+                            oNewPoint += vTmpPt*(vL2SqrDists[nPtIdx]/dMIU);
                     }
                     oNewPoint += vWgSourcePt;
                 }
-- 
2.43.0


From d2d4b114c4d87519ff42c388d52eee993d59c2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:01 +0000
Subject: [PATCH 58/88] fix: initialise LBSP gradient orientations in the byte
 order they are read in

---
 modules/imgproc/src/EdgeDetectorLBSP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/imgproc/src/EdgeDetectorLBSP.cpp b/modules/imgproc/src/EdgeDetectorLBSP.cpp
index ae1b50c..ec109e2 100644
--- a/modules/imgproc/src/EdgeDetectorLBSP.cpp
+++ b/modules/imgproc/src/EdgeDetectorLBSP.cpp
@@ -185,7 +185,7 @@ void EdgeDetectorLBSP::apply_internal_threshold(const cv::Mat& oInputImg, cv::Ma
     std::fill(m_vuEdgeTempMaskData.data()+(oMapSize.height-nNMSHalfWinSize)*nEdgeMapRowStep,m_vuEdgeTempMaskData.data()+oMapSize.height*nEdgeMapRowStep,1);
 #if USE_MIN_GRAD_ORIENT
     static_assert(nGradMapColStep==4,"Need 32-bit chunks to copy (see lines with uint32_t)");
-    constexpr uint32_t nDefaultGradMapVal4Ch = (CHAR_MAX<<24)|(CHAR_MAX<<16)|(UCHAR_MAX)<<8;
+    constexpr uint32_t nDefaultGradMapVal4Ch = CHAR_MAX|(CHAR_MAX<<8)|(UCHAR_MAX<<16); // little-endian (gradx, grady, gradmag, 'dont care')
     std::fill((uint32_t*)(m_vuLBSPGradMapData.data()+nGradMapRowStep*nNMSHalfWinSize+nGradMapColStep*nNMSHalfWinSize),(uint32_t*)(m_vuLBSPGradMapData.data()+(oMapSize.height-nNMSHalfWinSize)*nGradMapRowStep-nNMSHalfWinSize*nGradMapColStep),nDefaultGradMapVal4Ch);
     const auto lAbsCharComp = [](char a, char b){return std::abs(a)<std::abs(b);};
 #else //(!USE_MIN_GRAD_ORIENT)
-- 
2.43.0


From 1644536ba0512d72df18fab3631513fa010874ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:48 +0000
Subject: [PATCH 59/88] fix: accept work groups that lie in the data directory
 itself (Wallflower)

---
 modules/datasets/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index fa8f555..c1fcfb3 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -178,7 +178,7 @@ lv::DataHandler::DataHandler(const std::string& sBatchName, const std::string& s
         m_sBatchName(sBatchName),
         m_sRelativePath(lv::addDirSlashIfMissing(sRelativePath)),
         m_sDataPath(getRootNodeHelper(oParent).getDataPath()+lv::addDirSlashIfMissing(sRelativePath)),
-        m_sOutputPath(createOutputDir(getRootNodeHelper(oParent).getOutputPath(),sRelativePath)),
+        m_sOutputPath(sRelativePath.empty()?getRootNodeHelper(oParent).getOutputPath():createOutputDir(getRootNodeHelper(oParent).getOutputPath(),sRelativePath)),
         m_sFeaturesPath(createOutputDir(getRootNodeHelper(oParent).getOutputPath(),lv::addDirSlashIfMissing(sRelativePath)+"precomp/")),
         m_oParent(oParent),
         m_oRoot(getRootNodeHelper(oParent)) {}
-- 
2.43.0


From b963c569f931af1ffbc8778417658f79bd66eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:59 +0000
Subject: [PATCH 60/88] fix: declare the size of rescaled BSDS500 groundtruth
 packets as they are loaded

---
 modules/datasets/include/litiv/datasets/impl/BSDS500.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
index cb80b34..61d6a7f 100644
--- a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
@@ -115,7 +115,7 @@ namespace lv {
                 const std::vector<std::string> vsTempPaths = lv::getFilesFromDir(this->m_vsGTPaths[nImageIdx]);
                 lvAssert(!vsTempPaths.empty());
                 this->m_vInputInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*dScale)),CV_8UC3});
-                this->m_vGTInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*vsTempPaths.size()*dScale)),CV_8UC1});
+                this->m_vGTInfos.push_back(lv::MatInfo{cv::Size(int(oCurrInput.cols*dScale),int(oCurrInput.rows*dScale)*int(vsTempPaths.size())),CV_8UC1});
             }
             lvAssert(this->m_vInputInfos.size()>0);
         }
-- 
2.43.0


From 5ec269b5ce24b44575646670488ebeb39a0be238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:43 +0000
Subject: [PATCH 61/88] fix: do not deadlock while parsing datasets with
 skipped (empty) work groups

---
 modules/datasets/include/litiv/datasets.hpp | 3 ++-
 modules/datasets/src/utils.cpp              | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets.hpp b/modules/datasets/include/litiv/datasets.hpp
index b086dfd..026f50e 100644
--- a/modules/datasets/include/litiv/datasets.hpp
+++ b/modules/datasets/include/litiv/datasets.hpp
@@ -191,7 +191,8 @@ namespace lv {
             this->m_vpBatches.clear();
             for(const auto& sPathIter : this->getWorkBatchDirs())
                 this->m_vpBatches.push_back(this->createWorkBatch(sPathIter,lv::addDirSlashIfMissing(sPathIter)));
-            lvLog_(1,"Parsing complete. [%d batch(es)]\n%s",(int)this->getBatches(false).size(),this->printDataStructure("").c_str());
+            const std::string sDataStructure = this->printDataStructure(""); // must not be evaluated while holding the log mutex
+            lvLog_(1,"Parsing complete. [%d batch(es)]\n%s",(int)this->getBatches(false).size(),sDataStructure.c_str());
         }
     protected:
         /// full default (i.e. non-specialized) dataset constructor, copied from DatasetHandler to avoid msvc2015 bug; parameters are passed through lv::datasets::create<...>(...), and may be caught/simplified by a specialization
diff --git a/modules/datasets/src/utils.cpp b/modules/datasets/src/utils.cpp
index c1fcfb3..99fc0b8 100644
--- a/modules/datasets/src/utils.cpp
+++ b/modules/datasets/src/utils.cpp
@@ -110,6 +110,8 @@ const std::vector<std::string>& lv::DataHandler::getSkipTokens() const {
 std::string lv::DataHandler::printDataStructure(const std::string& sPrefix) const {
     if(isGroup() && isBare()) {
         auto vBatches = getBatches(true);
+        if(vBatches.empty()) // all batches skipped
+            return sPrefix + " Group '" + getName() + "' [empty]\n";
         lvAssert(vBatches.size()==1);
         return vBatches[0]->printDataStructure(sPrefix);
     }
-- 
2.43.0


From 02be6eb553982ef604dd26daccc3253ac6d26392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:25 +0000
Subject: [PATCH 62/88] fix: keep rescaled bilodeau2014 input masks binary

The interpolation flag was given to cv::resize as its horizontal scale
factor, so that rescaled masks were interpolated linearly and held values
other than 0 and 255.
---
 .../include/litiv/datasets/impl/litiv-bilodeau2014.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp b/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
index 2e8f008..7eb34ff 100644
--- a/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
@@ -557,7 +557,7 @@ namespace lv {
                     oRGBMaskPacket = (oRGBMaskPacket!=255); // background is white & noisy
                     cv::morphologyEx(oRGBMaskPacket,oRGBMaskPacket,cv::MORPH_OPEN,cv::Mat(),cv::Point(-1,-1),2);
                     if(oRGBMaskPacket.size()!=vInputInfos[nInputRGBStreamIdx].size())
-                        cv::resize(oRGBMaskPacket,oRGBMaskPacket,vInputInfos[nInputRGBStreamIdx].size(),cv::INTER_NEAREST);
+                        cv::resize(oRGBMaskPacket,oRGBMaskPacket,vInputInfos[nInputRGBStreamIdx].size(),0,0,cv::INTER_NEAREST);
                     vInputs[nInputRGBMaskStreamIdx] = oRGBMaskPacket;
                 }
                 ///////////////////////////////////////////////////////////////////////////////////
@@ -572,7 +572,7 @@ namespace lv {
                     oThermalMaskPacket = (oThermalMaskPacket!=255); // background is white & noisy
                     cv::morphologyEx(oThermalMaskPacket,oThermalMaskPacket,cv::MORPH_OPEN,cv::Mat(),cv::Point(-1,-1),2);
                     if(oThermalMaskPacket.size()!=vInputInfos[nInputThermalStreamIdx].size())
-                        cv::resize(oThermalMaskPacket,oThermalMaskPacket,vInputInfos[nInputThermalStreamIdx].size(),cv::INTER_NEAREST);
+                        cv::resize(oThermalMaskPacket,oThermalMaskPacket,vInputInfos[nInputThermalStreamIdx].size(),0,0,cv::INTER_NEAREST);
                     vInputs[nInputThermalMaskStreamIdx] = oThermalMaskPacket;
                 }
             }
-- 
2.43.0


From 4412b026628b5ce934c0e65a00cc89876105482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:25 +0000
Subject: [PATCH 63/88] fix: refuse truncated disparity records in bilodeau2014
 groundtruth

The last line read was used again for each missing one, so that a file cut
in the middle of a record produced made-up disparities.
---
 .../datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp b/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
index 7eb34ff..42aa121 100644
--- a/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/litiv-bilodeau2014.hpp
@@ -443,6 +443,7 @@ namespace lv {
                         oGTPointDisp.first.y = std::stoi(sLineBuffer);
                         lvAssert(oGTPointDisp.first.y>=0 && oGTPointDisp.first.y<oImageSize.height);
                         std::getline(oGTDispFile,sLineBuffer); // disparity value (ir to vis, negative)
+                        lvAssert__(oGTDispFile,"truncated record in gt disparity file at '%s'",sGTDispFilePath.c_str());
                         oGTPointDisp.second = std::stoi(sLineBuffer);
                         lvAssert(oGTPointDisp.second>=0 && oGTPointDisp.second<100);
                         mvThermalGTPointDisps[sThermalImageName].push_back(oGTPointDisp);
-- 
2.43.0


From 1367dee8a7117daab2a979165b0dd1661fe7ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:04 +0000
Subject: [PATCH 64/88] fix: declare VAP trimodal depth packets with the type
 they are loaded in

Depth maps are loaded as 16-bit images but were declared as 8-bit ones, so
that loading any packet with its depth map (the default) failed.
---
 modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
index 09e4c55..881a7a1 100644
--- a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
@@ -350,7 +350,7 @@ namespace lv {
             if(dScale!=1.0)
                 cv::resize(oGlobalROI,oGlobalROI,cv::Size(),dScale,dScale,cv::INTER_NEAREST);
             for(size_t nStreamIdx=0; nStreamIdx<nInputStreamCount; ++nStreamIdx)
-                this->m_vInputInfos[nStreamIdx] = lv::MatInfo{oGlobalROI.size(),(nStreamIdx==nInputRGBStreamIdx?CV_8UC3:CV_8UC1)};
+                this->m_vInputInfos[nStreamIdx] = lv::MatInfo{oGlobalROI.size(),(nStreamIdx==nInputRGBStreamIdx?CV_8UC3:(this->m_bLoadDepth&&nStreamIdx==nInputDepthStreamIdx)?CV_16UC1:CV_8UC1)};
             for(size_t nStreamIdx=0; nStreamIdx<nGTStreamCount; ++nStreamIdx)
                 this->m_vGTInfos[nStreamIdx] = lv::MatInfo{oGlobalROI.size(),CV_8UC1};
             if(this->m_bUndistort) {
-- 
2.43.0


From 8ce43667335a57c9c5af7ffe2fe8b360eaeaeaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:04 +0000
Subject: [PATCH 65/88] fix: undistort VAP trimodal images before rescaling
 them

The calibration maps are those of full-size images, but were applied to
rescaled ones, so that undistorted datasets could not be loaded at any
scale but 1.
---
 .../litiv/datasets/impl/vap-trimod2016.hpp    | 42 +++++++++----------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
index 881a7a1..16ca86e 100644
--- a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
@@ -466,12 +466,13 @@ namespace lv {
             }
             else
                 oRGBROI = cv::Mat(oImageSize,CV_8UC1,cv::Scalar_<uchar>(255));
+            if(this->m_bUndistort || this->m_bHorizRectify)
+                cv::remap(oRGBROI.clone(),oRGBROI,this->m_oRGBCalibMap1,this->m_oRGBCalibMap2,cv::INTER_LINEAR);
             if(oRGBROI.size()!=this->m_vInputInfos[nInputRGBStreamIdx].size()) {
                 cv::resize(oRGBROI,oRGBROI,this->m_vInputInfos[nInputRGBStreamIdx].size(),0,0,cv::INTER_LINEAR);
                 oRGBROI = oRGBROI>128;
             }
             if(this->m_bUndistort || this->m_bHorizRectify) {
-                cv::remap(oRGBROI.clone(),oRGBROI,this->m_oRGBCalibMap1,this->m_oRGBCalibMap2,cv::INTER_LINEAR);
                 oRGBROI = oRGBROI>128;
                 cv::erode(oRGBROI,oRGBROI,cv::Mat(),cv::Point(-1,-1),1,cv::BORDER_CONSTANT,cv::Scalar_<uchar>(0));
                 cv::Mat oRGBROI_undist = cv::imread(this->getDataPath()+"rgb_undist_roi.png",cv::IMREAD_GRAYSCALE);
@@ -547,12 +548,13 @@ namespace lv {
             }
             else
                 oThermalROI = cv::Mat(oImageSize,CV_8UC1,cv::Scalar_<uchar>(255));
+            if(this->m_bUndistort || this->m_bHorizRectify)
+                cv::remap(oThermalROI.clone(),oThermalROI,this->m_oThermalCalibMap1,this->m_oThermalCalibMap2,cv::INTER_LINEAR);
             if(oThermalROI.size()!=this->m_vInputInfos[nInputThermalStreamIdx].size()) {
                 cv::resize(oThermalROI,oThermalROI,this->m_vInputInfos[nInputThermalStreamIdx].size(),0,0,cv::INTER_LINEAR);
                 oThermalROI = oThermalROI>128;
             }
             if(this->m_bUndistort || this->m_bHorizRectify) {
-                cv::remap(oThermalROI.clone(),oThermalROI,this->m_oThermalCalibMap1,this->m_oThermalCalibMap2,cv::INTER_LINEAR);
                 if(this->m_nThermalDispOffset!=0)
                     lv::shift(oThermalROI.clone(),oThermalROI,cv::Point2f(0.0f,-float(this->m_nThermalDispOffset)));
                 oThermalROI = oThermalROI>128;
@@ -679,42 +681,40 @@ namespace lv {
             ///////////////////////////////////////////////////////////////////////////////////
             cv::Mat oRGBPacket = cv::imread(vsInputPaths[nInputRGBStreamIdx],cv::IMREAD_COLOR);
             lvAssert(!oRGBPacket.empty() && oRGBPacket.type()==CV_8UC3 && oRGBPacket.size()==oImageSize);
-            if(oRGBPacket.size()!=vInputInfos[nInputRGBStreamIdx].size())
-                cv::resize(oRGBPacket,oRGBPacket,vInputInfos[nInputRGBStreamIdx].size(),0,0,cv::INTER_CUBIC);
             if(this->m_bUndistort || this->m_bHorizRectify)
                 cv::remap(oRGBPacket.clone(),oRGBPacket,this->m_oRGBCalibMap1,this->m_oRGBCalibMap2,cv::INTER_CUBIC);
+            if(oRGBPacket.size()!=vInputInfos[nInputRGBStreamIdx].size())
+                cv::resize(oRGBPacket,oRGBPacket,vInputInfos[nInputRGBStreamIdx].size(),0,0,cv::INTER_CUBIC);
             vInputs[nInputRGBStreamIdx] = oRGBPacket;
             if(bUseInterlacedMasks) {
                 cv::Mat oRGBMaskPacket = cv::imread(vsInputPaths[nInputRGBMaskStreamIdx],cv::IMREAD_GRAYSCALE);
                 lvAssert(!oRGBMaskPacket.empty() && oRGBMaskPacket.type()==CV_8UC1 && oRGBMaskPacket.size()==oImageSize);
-                if(oRGBMaskPacket.size()!=vInputInfos[nInputRGBStreamIdx].size())
-                    cv::resize(oRGBMaskPacket,oRGBMaskPacket,vInputInfos[nInputRGBStreamIdx].size(),cv::INTER_LINEAR);
                 if(this->m_bUndistort || this->m_bHorizRectify)
                     cv::remap(oRGBMaskPacket.clone(),oRGBMaskPacket,this->m_oRGBCalibMap1,this->m_oRGBCalibMap2,cv::INTER_LINEAR);
+                if(oRGBMaskPacket.size()!=vInputInfos[nInputRGBStreamIdx].size())
+                    cv::resize(oRGBMaskPacket,oRGBMaskPacket,vInputInfos[nInputRGBStreamIdx].size(),0,0,cv::INTER_LINEAR);
                 oRGBMaskPacket = oRGBMaskPacket>128;
                 vInputs[nInputRGBMaskStreamIdx] = oRGBMaskPacket;
             }
             ///////////////////////////////////////////////////////////////////////////////////
             cv::Mat oThermalPacket = cv::imread(vsInputPaths[nInputThermalStreamIdx],cv::IMREAD_GRAYSCALE);
             lvAssert(!oThermalPacket.empty() && oThermalPacket.type()==CV_8UC1 && oThermalPacket.size()==oImageSize);
+            if(this->m_bUndistort || this->m_bHorizRectify)
+                cv::remap(oThermalPacket.clone(),oThermalPacket,this->m_oThermalCalibMap1,this->m_oThermalCalibMap2,cv::INTER_CUBIC);
             if(oThermalPacket.size()!=vInputInfos[nInputThermalStreamIdx].size())
                 cv::resize(oThermalPacket,oThermalPacket,vInputInfos[nInputThermalStreamIdx].size(),0,0,cv::INTER_CUBIC);
-            if(this->m_bUndistort || this->m_bHorizRectify) {
-                cv::remap(oThermalPacket.clone(),oThermalPacket,this->m_oThermalCalibMap1,this->m_oThermalCalibMap2,cv::INTER_CUBIC);
-                if(this->m_nThermalDispOffset!=0)
-                    lv::shift(oThermalPacket.clone(),oThermalPacket,cv::Point2f(0.0f,-float(this->m_nThermalDispOffset)));
-            }
+            if((this->m_bUndistort || this->m_bHorizRectify) && this->m_nThermalDispOffset!=0)
+                lv::shift(oThermalPacket.clone(),oThermalPacket,cv::Point2f(0.0f,-float(this->m_nThermalDispOffset)));
             vInputs[nInputThermalStreamIdx] = oThermalPacket;
             if(bUseInterlacedMasks) {
                 cv::Mat oThermalMaskPacket = cv::imread(vsInputPaths[nInputThermalMaskStreamIdx],cv::IMREAD_GRAYSCALE);
                 lvAssert(!oThermalMaskPacket.empty() && oThermalMaskPacket.type()==CV_8UC1 && oThermalMaskPacket.size()==oImageSize);
-                if(oThermalMaskPacket.size()!=vInputInfos[nInputThermalStreamIdx].size())
-                    cv::resize(oThermalMaskPacket,oThermalMaskPacket,vInputInfos[nInputThermalStreamIdx].size(),cv::INTER_LINEAR);
-                if(this->m_bUndistort || this->m_bHorizRectify) {
+                if(this->m_bUndistort || this->m_bHorizRectify)
                     cv::remap(oThermalMaskPacket.clone(),oThermalMaskPacket,this->m_oThermalCalibMap1,this->m_oThermalCalibMap2,cv::INTER_LINEAR);
-                    if(this->m_nThermalDispOffset!=0)
-                        lv::shift(oThermalMaskPacket.clone(),oThermalMaskPacket,cv::Point2f(0.0f,-float(this->m_nThermalDispOffset)));
-                }
+                if(oThermalMaskPacket.size()!=vInputInfos[nInputThermalStreamIdx].size())
+                    cv::resize(oThermalMaskPacket,oThermalMaskPacket,vInputInfos[nInputThermalStreamIdx].size(),0,0,cv::INTER_LINEAR);
+                if((this->m_bUndistort || this->m_bHorizRectify) && this->m_nThermalDispOffset!=0)
+                    lv::shift(oThermalMaskPacket.clone(),oThermalMaskPacket,cv::Point2f(0.0f,-float(this->m_nThermalDispOffset)));
                 oThermalMaskPacket = oThermalMaskPacket>128;
                 vInputs[nInputThermalMaskStreamIdx] = oThermalMaskPacket;
             }
@@ -764,10 +764,10 @@ namespace lv {
                 lvDbgAssert(!vGTInfos.empty() && vGTInfos.size()==getGTStreamCount());
                 cv::Mat oRGBPacket = cv::imread(vsGTMasksPaths[nGTRGBMaskStreamIdx],cv::IMREAD_GRAYSCALE);
                 lvAssert(!oRGBPacket.empty() && oRGBPacket.type()==CV_8UC1 && oRGBPacket.size()==oImageSize);
-                if(oRGBPacket.size()!=vGTInfos[nGTRGBMaskStreamIdx].size())
-                    cv::resize(oRGBPacket,oRGBPacket,vGTInfos[nGTRGBMaskStreamIdx].size(),0,0,cv::INTER_LINEAR);
                 if(this->m_bUndistort || this->m_bHorizRectify)
                     cv::remap(oRGBPacket.clone(),oRGBPacket,this->m_oRGBCalibMap1,this->m_oRGBCalibMap2,cv::INTER_LINEAR);
+                if(oRGBPacket.size()!=vGTInfos[nGTRGBMaskStreamIdx].size())
+                    cv::resize(oRGBPacket,oRGBPacket,vGTInfos[nGTRGBMaskStreamIdx].size(),0,0,cv::INTER_LINEAR);
                 oRGBPacket = oRGBPacket>128;
                 vGTs[nGTRGBMaskStreamIdx] = oRGBPacket;
                 cv::Mat oThermalPacket = cv::imread(vsGTMasksPaths[nGTThermalMaskStreamIdx],cv::IMREAD_GRAYSCALE);
@@ -779,8 +779,6 @@ namespace lv {
                     cv::warpAffine(oThermalPacket.clone(),oThermalPacket,oAffineTransf,oThermalPacket.size());
                 }
 #endif //DATASETS_VAP_FIX_GT_SCENE3_OFFSET
-                if(oThermalPacket.size()!=vGTInfos[nGTThermalMaskStreamIdx].size())
-                    cv::resize(oThermalPacket,oThermalPacket,vGTInfos[nGTThermalMaskStreamIdx].size(),0,0,cv::INTER_LINEAR);
 #if DATASETS_VAP_FIX_GT_SCENE2_DISTORT
                 // fail: 'distorted' thermal gt images are actually already undistorted in 'Scene 2' (so no need to remap again)
                 if(this->getName()!="Scene 2")
@@ -789,6 +787,8 @@ namespace lv {
                     if(this->m_bUndistort || this->m_bHorizRectify)
                         cv::remap(oThermalPacket.clone(),oThermalPacket,this->m_oThermalCalibMap1,this->m_oThermalCalibMap2,cv::INTER_LINEAR);
                 }
+                if(oThermalPacket.size()!=vGTInfos[nGTThermalMaskStreamIdx].size())
+                    cv::resize(oThermalPacket,oThermalPacket,vGTInfos[nGTThermalMaskStreamIdx].size(),0,0,cv::INTER_LINEAR);
                 if((this->m_bUndistort || this->m_bHorizRectify) && this->m_nThermalDispOffset!=0)
                     lv::shift(oThermalPacket.clone(),oThermalPacket,cv::Point2f(0.0f,-float(this->m_nThermalDispOffset)));
                 oThermalPacket = oThermalPacket>128;
-- 
2.43.0


From 264afb96bc89b486e9c47f8c6e59749007724215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:55 +0000
Subject: [PATCH 66/88] fix: keep the VAP trimodal thermal ROI binary when
 shifting it

lv::shift returns a view on a larger (padded) matrix; eroding it in place
used the pixels beyond that view, which were shifted out of the image and
are not binarized.
---
 modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
index 16ca86e..1b0e78a 100644
--- a/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/vap-trimod2016.hpp
@@ -558,7 +558,7 @@ namespace lv {
                 if(this->m_nThermalDispOffset!=0)
                     lv::shift(oThermalROI.clone(),oThermalROI,cv::Point2f(0.0f,-float(this->m_nThermalDispOffset)));
                 oThermalROI = oThermalROI>128;
-                cv::erode(oThermalROI,oThermalROI,cv::Mat(),cv::Point(-1,-1),1,cv::BORDER_CONSTANT,cv::Scalar_<uchar>(0));
+                cv::erode(oThermalROI,oThermalROI,cv::Mat(),cv::Point(-1,-1),1,cv::BORDER_CONSTANT|cv::BORDER_ISOLATED,cv::Scalar_<uchar>(0));
                 cv::Mat oThermalROI_undist = cv::imread(this->getDataPath()+"thermal_undist_roi.png",cv::IMREAD_GRAYSCALE);
                 if(!oThermalROI_undist.empty()) {
                     lvAssert(oThermalROI_undist.type()==CV_8UC1 && oThermalROI_undist.size()==oImageSize);
-- 
2.43.0


From 5e479682fa6ad4e185d83e19d1af7c29c195954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:29 +0000
Subject: [PATCH 67/88] fix: pair BSDS500 images with groundtruth folders of
 the same name only

An image was accepted as the one of a groundtruth folder as soon as its
name contained the name of the folder ("212345.jpg" for "12345").
---
 modules/datasets/include/litiv/datasets/impl/BSDS500.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
index 61d6a7f..771f4ec 100644
--- a/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
+++ b/modules/datasets/include/litiv/datasets/impl/BSDS500.hpp
@@ -101,7 +101,7 @@ namespace lv {
                 const size_t nLastInputSlashPos = this->m_vsInputPaths[nImageIdx].find_last_of("/\\");
                 const std::string sInputFullName = nLastInputSlashPos==std::string::npos?this->m_vsInputPaths[nImageIdx]:this->m_vsInputPaths[nImageIdx].substr(nLastInputSlashPos+1);
                 const size_t nLastGTSlashPos = this->m_vsGTPaths[nImageIdx].find_last_of("/\\");
-                lvAssert(sInputFullName.find(nLastGTSlashPos==std::string::npos?this->m_vsGTPaths[nImageIdx]:this->m_vsGTPaths[nImageIdx].substr(nLastGTSlashPos+1))!=std::string::npos);
+                lvAssert(sInputFullName.substr(0,sInputFullName.find_last_of("."))==(nLastGTSlashPos==std::string::npos?this->m_vsGTPaths[nImageIdx]:this->m_vsGTPaths[nImageIdx].substr(nLastGTSlashPos+1)));
             }
             this->m_bIsInputInfoConst = this->m_bIsGTInfoConst = true;
             this->m_vInputInfos.clear();
-- 
2.43.0


From 0ef72810977d3c452ea51efc72476f7b521b659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:53 +0000
Subject: [PATCH 68/88] fix: evaluate BSDS500 thresholds above a value of the
 output with their own mask

When a threshold was equal to a value of the output, the counters of its
mask (which holds the pixels of that value) were copied to the following
thresholds up to the next value, whose masks do not hold them.
---
 modules/datasets/src/impl/BSDS500.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/impl/BSDS500.cpp b/modules/datasets/src/impl/BSDS500.cpp
index 95392cf..14bbc29 100644
--- a/modules/datasets/src/impl/BSDS500.cpp
+++ b/modules/datasets/src/impl/BSDS500.cpp
@@ -413,7 +413,7 @@ void lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS50
         lvAssert(nSegmPosCount>=nSegmTPAccCount);
         oMetricsBase.vnTotalTP[nThresholdBinIdx] = nSegmTPAccCount;
         oMetricsBase.vnTotalTPFP[nThresholdBinIdx] = nSegmPosCount;
-        while(nNextEvalUniqueValIdx+1<vuEvalUniqueVals.size() && vuEvalUniqueVals[nNextEvalUniqueValIdx]<=oMetricsBase.vnThresholds[nThresholdBinIdx])
+        while(nNextEvalUniqueValIdx+1<vuEvalUniqueVals.size() && vuEvalUniqueVals[nNextEvalUniqueValIdx]<oMetricsBase.vnThresholds[nThresholdBinIdx])
             ++nNextEvalUniqueValIdx;
         while(++nThresholdBinIdx<oMetricsBase.vnThresholds.size() && oMetricsBase.vnThresholds[nThresholdBinIdx]<=vuEvalUniqueVals[nNextEvalUniqueValIdx]) {
             oMetricsBase.vnIndivTP[nThresholdBinIdx] = oMetricsBase.vnIndivTP[nThresholdBinIdx-1];
-- 
2.43.0


From 2cce4cc06e4aa4d5578c3c94f3d1f109e2fd1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:51 +0000
Subject: [PATCH 69/88] fix: do not share the random generator of the BSDS500
 matching between threads

Work batches may be evaluated concurrently, and the generators were used
without synchronization.
---
 3rdparty/bsds500/src/kofn.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rdparty/bsds500/src/kofn.cpp b/3rdparty/bsds500/src/kofn.cpp
index 0fe38c8..e82f878 100644
--- a/3rdparty/bsds500/src/kofn.cpp
+++ b/3rdparty/bsds500/src/kofn.cpp
@@ -7,9 +7,9 @@
 
 using namespace BSDS500;
 
-static std::mt19937 s_oMT(std::chrono::system_clock::now().time_since_epoch().count());
-static std::uniform_real_distribution<double> s_oURDistrib_0_1(0,std::nextafter(1,std::numeric_limits<double>::max()));
-static auto s_oRand_0_1_Funct = std::bind(s_oURDistrib_0_1,s_oMT);
+static thread_local std::mt19937 s_oMT(std::chrono::system_clock::now().time_since_epoch().count());
+static thread_local std::uniform_real_distribution<double> s_oURDistrib_0_1(0,std::nextafter(1,std::numeric_limits<double>::max()));
+static thread_local auto s_oRand_0_1_Funct = std::bind(s_oURDistrib_0_1,s_oMT);
 
 // O(n) implementation.
 static void
-- 
2.43.0


From 702665ac6389b64242a13016a367894582aae7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:51 +0000
Subject: [PATCH 70/88] fix: compute the BSDS500 precision/recall area over the
 recall values reached

The precision was interpolated for all recall values in [0,1], which throws
(and makes all scores unavailable) unless recalls of both zero and one were
reached; the sum also used a value past the end of the interpolated ones.
---
 modules/datasets/src/impl/BSDS500.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/datasets/src/impl/BSDS500.cpp b/modules/datasets/src/impl/BSDS500.cpp
index 14bbc29..322eda9 100644
--- a/modules/datasets/src/impl/BSDS500.cpp
+++ b/modules/datasets/src/impl/BSDS500.cpp
@@ -588,9 +588,13 @@ void lv::MetricsCalculator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS500
         std::vector<double> vdInterpReqIdx(nInterpReqIdxCount+1);
         for(size_t n = 0; n<=nInterpReqIdxCount; ++n)
             vdInterpReqIdx[n] = double(n)/nInterpReqIdxCount;
+        // recall values that were never reached do not contribute to the area (cannot extrapolate)
+        vdInterpReqIdx.erase(std::remove_if(vdInterpReqIdx.begin(),vdInterpReqIdx.end(),[&](double dRecall) {
+            return dRecall<vdCumulRecall_uniques.front() || dRecall>vdCumulRecall_uniques.back();
+        }),vdInterpReqIdx.end());
         std::vector<double> vdInterpVals = lv::interp1(vdCumulRecall_uniques,vdCumulPrecision_uniques,vdInterpReqIdx);
         if(!vdInterpVals.empty())
-            for(size_t n = 0; n<=vdInterpVals.size(); ++n)
+            for(size_t n = 0; n<vdInterpVals.size(); ++n)
                 dAreaPR += vdInterpVals[n]*0.01;
     }
     // ^^^ oCumulScore,dMaxRecall,dMaxPrecision,dMaxFMeasure,dAreaPR => eval_bdry.txt
-- 
2.43.0


From 7757563aa5f3a4c74d41ae22e3cf0d5609c9be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:51 +0000
Subject: [PATCH 71/88] fix: interpolate values inside the segment they belong
 to in lv::interp1

Values closer to the end of their segment than to its beginning were
extrapolated from the next segment instead.
---
 modules/utils/include/litiv/utils/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/utils/include/litiv/utils/math.hpp b/modules/utils/include/litiv/utils/math.hpp
index 8b75d39..e93f877 100644
--- a/modules/utils/include/litiv/utils/math.hpp
+++ b/modules/utils/include/litiv/utils/math.hpp
@@ -935,7 +935,9 @@ namespace lv {
         DistType (&rlDist)(Tx,Tx) = lv::L1dist<Tx>;
         for(size_t i=0; i<nReqSize; ++i) {
             if(vXReq[i]>=vX.front() && vXReq[i]<=vX.back()) {
-                const size_t nNNIdx = lv::find_nn_index(vXReq[i],vX,rlDist);
+                size_t nNNIdx = lv::find_nn_index(vXReq[i],vX,rlDist);
+                if(nNNIdx>0 && vXReq[i]<vX[nNNIdx])
+                    --nNNIdx; // must use the segment which contains the requested value
                 vYReq[i] = vSlope[nNNIdx]*vXReq[i]+vOffset[nNNIdx];
             }
             else
-- 
2.43.0


From 0c1f82fbb0b2eb98a064a0c0dc0f2587b0c86c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:51 +0000
Subject: [PATCH 72/88] fix: do not let BSDS500 groundtruth masks leak into
 each other when colored

Groundtruth masks are stacked in one matrix; dilating one of them as a
submatrix also used the border rows of its neighbors.
---
 modules/datasets/src/impl/BSDS500.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/impl/BSDS500.cpp b/modules/datasets/src/impl/BSDS500.cpp
index 322eda9..1ec15df 100644
--- a/modules/datasets/src/impl/BSDS500.cpp
+++ b/modules/datasets/src/impl/BSDS500.cpp
@@ -449,7 +449,7 @@ cv::Mat lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSD
         cv::Mat oCurrGTSegmMask = oGT(cv::Rect(0,int(oClassif.rows*nGTMaskIdx),oClassif.cols,oClassif.rows));
         cv::Mat oCurrGTSegmMask_dilated,oSegm_dilated;
         cv::Mat oDilateKernel(2*nMaxDist+1,2*nMaxDist+1,CV_8UC1,cv::Scalar_<uchar>(255));
-        cv::dilate(oCurrGTSegmMask,oCurrGTSegmMask_dilated,oDilateKernel);
+        cv::dilate(oCurrGTSegmMask.clone(),oCurrGTSegmMask_dilated,oDilateKernel); // clone, as dilation also uses pixels outside of submatrices
         cv::dilate(oClassif,oSegm_dilated,oDilateKernel);
         cv::add((oClassif&oCurrGTSegmMask_dilated),oSegm_TP,oSegm_TP,cv::noArray(),CV_16U);
         cv::add((oClassif&(oCurrGTSegmMask_dilated==0)),oSegm_FP,oSegm_FP,cv::noArray(),CV_16U);
-- 
2.43.0


From a6e6ccbfd2e4a4baf639907d46a40ec588db87cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:49 +0000
Subject: [PATCH 73/88] fix: do not share the CSA description buffer between
 solvers of different threads

---
 3rdparty/bsds500/include/litiv/3rdparty/bsds500/csa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rdparty/bsds500/include/litiv/3rdparty/bsds500/csa.hpp b/3rdparty/bsds500/include/litiv/3rdparty/bsds500/csa.hpp
index 9277785..597ad86 100644
--- a/3rdparty/bsds500/include/litiv/3rdparty/bsds500/csa.hpp
+++ b/3rdparty/bsds500/include/litiv/3rdparty/bsds500/csa.hpp
@@ -262,7 +262,7 @@ namespace BSDS500 {
         void describe_self()
 
         {
-            static const char* desc[20];
+            const char* desc[20];
             int i = 0;
 #ifdef ROUND_COSTS
             static const char* sROUND_COSTS = "Rounded costs";
-- 
2.43.0


From b34bd89b7bb58db6cfbc346d1b73151bdec33f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:36 +0000
Subject: [PATCH 74/88] fix: give a weight to optical flow patches that start
 outside the image

The error image of such patches was never written, so that uninitialized
memory was used as their weight in the flow aggregation.
---
 3rdparty/ofdis/src/patch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/3rdparty/ofdis/src/patch.cpp b/3rdparty/ofdis/src/patch.cpp
index e38c1eb..f46f29e 100644
--- a/3rdparty/ofdis/src/patch.cpp
+++ b/3rdparty/ofdis/src/patch.cpp
@@ -118,6 +118,7 @@ void ofdis::PatClass<eInput,eOutput>::OptimizeStart(const point_type& p_in_arg)
        pc->pt_iter[0] > cpt->tmp_ubw || pc->pt_iter[1] > cpt->tmp_ubh) {
         pc->hasconverged=1;
         pc->pdiff = tmp;
+        pc->pweight = tmp.cwiseAbs(); // used as aggregation weights later on, even if never optimized
         pc->hasoptstarted=1;
     }
     else {
-- 
2.43.0


From 4b121ceb16392ea1728751f16cf3769b10488cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:05 +0000
Subject: [PATCH 75/88] fix: do not read past the neighbors of a pixel when
 thinning

The circular neighborhood of the LamLeeSuen mode was read one element
too far unless a macro that is never defined was set, so that results
depended on the content of the stack.
---
 modules/imgproc/src/imgproc.cpp | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index f709cc4..96609d7 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -91,29 +91,11 @@ void thinning_internal_LamLeeSuen(cv::Mat& oInput, bool bIter) {
             };
             size_t x_h = 0, n1 = 0, n2 = 0;
             for(size_t k=0; k<4; ++k) {
-#if defined(_MSC_VER) || USE_IMGPROC_THINNING_MATLAB_IMPL_FIX
                 // G1:
                 x_h += bool(!anLUT[2*(k+1)-2] && (anLUT[2*(k+1)-1] || anLUT[(2*(k+1))%8]));
                 // G2:
                 n1 += bool(anLUT[2*(k+1)-2] || anLUT[2*(k+1)-1]);
                 n2 += bool(anLUT[2*(k+1)-1] || anLUT[(2*(k+1))%8]);
-#elif defined(__clang__)
-#pragma clang diagnostic push
-// but no warnings to push...?
-#elif (defined(__GNUC__) || defined(__GNUG__))
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wmaybe-uninitialized"
-#endif //(defined(__GNUC__) || defined(__GNUG__))
-                // G1:
-                x_h += bool(!anLUT[2*(k+1)-2] && (anLUT[2*(k+1)-1] || anLUT[2*(k+1)]));
-                // G2:
-                n1 += bool(anLUT[2*(k+1)-2] || anLUT[2*(k+1)-1]);
-                n2 += bool(anLUT[2*(k+1)-1] || anLUT[2*(k+1)]);
-#if defined(__clang__)
-#pragma clang diagnostic pop
-#elif (defined(__GNUC__) || defined(__GNUG__))
-#pragma GCC diagnostic pop
-#endif //(defined(__GNUC__) || defined(__GNUG__))
             }
             size_t n_min = std::min(n1,n2);
             if(x_h==1 && n_min>=2 && n_min<=3) {
-- 
2.43.0


From a0b0af9d65481294622b9ea93dc93a6e1048bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:46 +0000
Subject: [PATCH 76/88] fix: interpolate subpixel values left of and above the
 first pixel

Negative coordinates were truncated towards zero, so that values were
extrapolated from the first two pixels instead of following the border mode.
---
 modules/utils/include/litiv/utils/opencv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 30a323d..7a83f21 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -641,7 +641,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_(!oMat.empty() && oMat.dims==2,"bad input matrix");
-        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)fX,nY=(int)fY;
+        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)std::floor(fX),nY=(int)std::floor(fY);
         const int nX0=cv::borderInterpolate(nX,nCols,nBorderType),nX1=cv::borderInterpolate(nX+1,nCols,nBorderType);
         const int nY0=cv::borderInterpolate(nY,nRows,nBorderType),nY1=cv::borderInterpolate(nY+1,nRows,nBorderType);
         const float fDX=fX-(float)nX,fDY=fY-(float)nY;
@@ -670,7 +670,7 @@ namespace lv {
         static_assert(lv::isDataTypeCompat<TMatVal>(),"bad templated data type used for sub pixel sampling");
         static_assert(std::is_arithmetic<TRetVal>::value,"output type must be arithmetic type");
         lvDbgAssert_(!oMat.empty() && oMat.dims==2 && oMat.channels()==1,"bad input matrix");
-        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)fX,nY=(int)fY;
+        const int nRows=oMat.rows,nCols=oMat.cols,nX=(int)std::floor(fX),nY=(int)std::floor(fY);
         const int nX0=cv::borderInterpolate(nX,nCols,nBorderType),nX1=cv::borderInterpolate(nX+1,nCols,nBorderType);
         const int nY0=cv::borderInterpolate(nY,nRows,nBorderType),nY1=cv::borderInterpolate(nY+1,nRows,nBorderType);
         const float fDX = fX-(float)nX, fDY=fY-(float)nY;
-- 
2.43.0


From 94a2d67415143f1e9751078a17ea8d5e700cfe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:53 +0000
Subject: [PATCH 77/88] fix: skip fully masked blocks in non-maximum
 suppression

The position of their (inexistent) maximum could be marked, even out of
bounds, when surrounded by negative values.
---
 modules/imgproc/include/litiv/imgproc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/imgproc/include/litiv/imgproc.hpp b/modules/imgproc/include/litiv/imgproc.hpp
index 65e06d4..10d4685 100644
--- a/modules/imgproc/include/litiv/imgproc.hpp
+++ b/modules/imgproc/include/litiv/imgproc.hpp
@@ -138,6 +138,8 @@ void lv::nonMaxSuppression(const cv::Mat& oInput, cv::Mat& oOutput, const cv::Ma
             cv::Range ic(m,std::min(m+nWinSize+1,M));
             cv::Range jc(n,std::min(n+nWinSize+1,N));
             cv::minMaxLoc(oInput(ic,jc), NULL, &vcmax, NULL, &ijmax, masked ? oMask(ic,jc) : cv::noArray());
+            if(ijmax.x<0) // nothing to look at in this block
+                continue;
             cv::Point cc = ijmax + cv::Point(jc.start,ic.start);
             // search the neighbours centered around the candidate for the true maxima
             cv::Range in(std::max(cc.y-nWinSize,0),std::min(cc.y+nWinSize+1,M));
-- 
2.43.0


From 8faf5d1452ea1749aaae0a5121032c0e9ce0c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:59 +0000
Subject: [PATCH 78/88] fix: refuse to compute the median of no value at all

With a mask that excludes everything the histogram was read past its end.
---
 modules/imgproc/src/imgproc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/imgproc/src/imgproc.cpp b/modules/imgproc/src/imgproc.cpp
index 96609d7..47fe42a 100644
--- a/modules/imgproc/src/imgproc.cpp
+++ b/modules/imgproc/src/imgproc.cpp
@@ -189,6 +189,7 @@ int lv::calcMedianValue(const cv::Mat& oInput, const cv::Mat_<uchar>& oMask, std
     int nTotCount;
     const std::vector<int> vCounts = lv::calcHistCounts(oInput,oMask,&nTotCount);
     lvDbgAssert(!vCounts.empty());
+    lvAssert_(nTotCount>0,"no element left under the given mask");
     if(pHistCounts)
         *pHistCounts = vCounts;
     int nBinVal=0,nCurrElemCount=vCounts[0],nHalfCount=nTotCount/2;
-- 
2.43.0


From 9070875e1e9f40b031f41c9b723bd45842eac2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:25 +0000
Subject: [PATCH 79/88] fix: check the continuity of the ROI when tallying
 classifications

The ground truth was checked instead, so that a non-continuous ROI was read
with the wrong step, and any ROI was refused without ground truth.
---
 modules/datasets/src/metrics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index e8a8c51..156e1e6 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -21,7 +21,7 @@
 void lv::BinClassif::accumulate(const cv::Mat& oClassif, const cv::Mat& oGT, const cv::Mat& oROI) {
     lvAssert_(!oClassif.empty() && oClassif.dims==2 && oClassif.isContinuous() && oClassif.type()==CV_8UC1,"binary classifier results must be non-empty and of type 8UC1");
     lvAssert_(oGT.empty() || (oGT.type()==CV_8UC1 && oGT.isContinuous()),"gt mat must be empty, or of type 8UC1");
-    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oGT.isContinuous()),"ROI mat must be empty, or of type 8UC1");
+    lvAssert_(oROI.empty() || (oROI.type()==CV_8UC1 && oROI.isContinuous()),"ROI mat must be empty, or of type 8UC1");
     lvAssert_((oGT.empty() || oClassif.size()==oGT.size()) && (oROI.empty() || oClassif.size()==oROI.size()),"all input mat sizes must match");
     if(oGT.empty()) {
         nDC += oClassif.size().area();
-- 
2.43.0


From 8f662469de9a62a01ece6b616ac077ee94e72a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:25 +0000
Subject: [PATCH 80/88] fix: scale coloured disparity errors by the maximum
 error only

The smallest error of the map was always drawn as no error at all.
---
 modules/datasets/src/metrics.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index 156e1e6..c9f3209 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -213,11 +213,8 @@ cv::Mat lv::StereoDispErrors::getColoredMask(const cv::Mat& _oDispMap, const cv:
                 oErrorMap(nRowIdx,nColIdx) = 0.0f;
         }
     }
-    const float fOldErrorMapCornerVal = oErrorMap(0,0);
-    oErrorMap(0,0) = fMaxError;
     cv::Mat oOutput;
-    cv::normalize(oErrorMap,oOutput,255,0,cv::NORM_MINMAX,CV_8U);
-    oOutput.at<uchar>(0,0) = uchar((fOldErrorMapCornerVal/fMaxError)*255);
+    oErrorMap.convertTo(oOutput,CV_8U,255.0/fMaxError);
     cv::dilate(oOutput,oOutput,cv::Mat(),cv::Point(-1,-1),2);
     cv::applyColorMap(oOutput,oOutput,cv::COLORMAP_HOT);
     if(!oROI.empty())
-- 
2.43.0


From 44e831dddb9fb75c93a8adaf90d6473506d20487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:25 +0000
Subject: [PATCH 81/88] fix: avoid integer overflow in Matthew's correlation
 coefficient

---
 modules/datasets/include/litiv/datasets/metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/datasets/include/litiv/datasets/metrics.hpp b/modules/datasets/include/litiv/datasets/metrics.hpp
index 24296f8..e2a8f93 100644
--- a/modules/datasets/include/litiv/datasets/metrics.hpp
+++ b/modules/datasets/include/litiv/datasets/metrics.hpp
@@ -251,7 +251,7 @@ namespace lv {
         }
         /// computes Matthew's Correlation Coefficient based on 'BinClassif' counters
         static inline double CalcMatthewsCorrCoeff(const BinClassif& m) {
-            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-(m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
+            return ((m.nTP+m.nFP)>0)&&((m.nTP+m.nFN)>0)&&((m.nTN+m.nFP)>0)&&((m.nTN+m.nFN)>0)?((((double)m.nTP*m.nTN)-((double)m.nFP*m.nFN))/sqrt(((double)m.nTP+m.nFP)*(m.nTP+m.nFN)*(m.nTN+m.nFP)*(m.nTN+m.nFN))):0;
         }
         /// default contructor requires a base metrics counters, as otherwise, we would obtain NaN's
         inline BinClassifMetrics(const BinClassif& m) : dRecall(CalcRecall(m)),dSpecificity(CalcSpecificity(m)),dFPR(CalcFalsePositiveRate(m)),dFNR(CalcFalseNegativeRate(m)),dPBC(CalcPercentBadClassifs(m)),dPrecision(CalcPrecision(m)),dFMeasure(CalcFMeasure(m)),dMCC(CalcMatthewsCorrCoeff(m)) {}
-- 
2.43.0


From de544b85cec9bb7466d7217b336a8cc4508099c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:25 +0000
Subject: [PATCH 82/88] fix: leave evaluation metrics as they were when one
 stream is refused

The streams before the refused one were counted all the same.
---
 modules/datasets/include/litiv/datasets/eval.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/eval.hpp b/modules/datasets/include/litiv/datasets/eval.hpp
index 907b14e..d67aa89 100644
--- a/modules/datasets/include/litiv/datasets/eval.hpp
+++ b/modules/datasets/include/litiv/datasets/eval.hpp
@@ -170,12 +170,15 @@ namespace lv {
                 const std::vector<cv::Mat>& vGTArray = pLoader->getGTArray(nIdx);
                 const std::vector<cv::Mat>& vGTROIArray = pLoader->getGTROIArray(nIdx);
                 lvAssert_(vClassif.size()==vGTArray.size() && (vGTROIArray.empty() || vClassif.size()==vGTROIArray.size()),"gt/output array size mistmatch");
+                std::vector<BinClassif> vCounters(vClassif.size()); // all streams must be accepted before the metrics are modified
+                for(size_t nStreamIdx=0; nStreamIdx<vClassif.size(); ++nStreamIdx)
+                    vCounters[nStreamIdx].accumulate(vClassif[nStreamIdx],vGTArray[nStreamIdx],vGTROIArray.empty()?cv::Mat():vGTROIArray[nStreamIdx]);
                 if(m_pMetricsBase->m_vCounters.empty() || m_pMetricsBase->m_vsStreamNames.empty()) {
                     m_pMetricsBase->m_vCounters.resize(vClassif.size());
                     m_pMetricsBase->m_vsStreamNames.resize(vClassif.size());
                 }
                 for(size_t nStreamIdx=0; nStreamIdx<vClassif.size(); ++nStreamIdx)
-                    m_pMetricsBase->m_vCounters[nStreamIdx].accumulate(vClassif[nStreamIdx],vGTArray[nStreamIdx],vGTROIArray.empty()?cv::Mat():vGTROIArray[nStreamIdx]);
+                    m_pMetricsBase->m_vCounters[nStreamIdx].accumulate(vCounters[nStreamIdx]);
             }
         }
         /// default constructor; automatically creates an instance of the base metrics accumulator object
@@ -223,12 +226,17 @@ namespace lv {
                 const std::vector<cv::Mat>& vGTArray = pLoader->getGTArray(nIdx);
                 const std::vector<cv::Mat>& vGTROIArray = pLoader->getGTROIArray(nIdx);
                 lvAssert_(vDispMaps.size()==vGTArray.size() && (vGTROIArray.empty() || vDispMaps.size()==vGTROIArray.size()),"gt/output array size mistmatch");
+                std::vector<StereoDispErrors> vErrorLists(vDispMaps.size()); // all streams must be accepted before the metrics are modified
+                for(size_t nStreamIdx=0; nStreamIdx<vDispMaps.size(); ++nStreamIdx)
+                    vErrorLists[nStreamIdx].accumulate(vDispMaps[nStreamIdx],vGTArray[nStreamIdx],vGTROIArray.empty()?cv::Mat():vGTROIArray[nStreamIdx]);
                 if(m_pMetricsBase->m_vErrorLists.empty() || m_pMetricsBase->m_vsStreamNames.empty()) {
                     m_pMetricsBase->m_vErrorLists.resize(vDispMaps.size());
                     m_pMetricsBase->m_vsStreamNames.resize(vDispMaps.size());
                 }
                 for(size_t nStreamIdx=0; nStreamIdx<vDispMaps.size(); ++nStreamIdx)
-                    m_pMetricsBase->m_vErrorLists[nStreamIdx].accumulate(vDispMaps[nStreamIdx],vGTArray[nStreamIdx],vGTROIArray.empty()?cv::Mat():vGTROIArray[nStreamIdx]);
+                    m_pMetricsBase->m_vErrorLists[nStreamIdx].vErrors.reserve(m_pMetricsBase->m_vErrorLists[nStreamIdx].vErrors.size()+vErrorLists[nStreamIdx].vErrors.size());
+                for(size_t nStreamIdx=0; nStreamIdx<vDispMaps.size(); ++nStreamIdx)
+                    m_pMetricsBase->m_vErrorLists[nStreamIdx].accumulate(vErrorLists[nStreamIdx]);
             }
         }
         /// default constructor; automatically creates an instance of the base metrics accumulator object
-- 
2.43.0


From aea2bc8e1c6c729dab9627b27523db2c147c702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:25 +0000
Subject: [PATCH 83/88] fix: accept batches without output when summing array
 metrics

A dataset whose first batch was evaluated and second was not could not
report its counters (array size mismatch).
---
 modules/datasets/src/metrics.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/datasets/src/metrics.cpp b/modules/datasets/src/metrics.cpp
index c9f3209..c91d63a 100644
--- a/modules/datasets/src/metrics.cpp
+++ b/modules/datasets/src/metrics.cpp
@@ -251,6 +251,8 @@ bool lv::IMetricsAccumulator_<lv::DatasetEval_BinaryClassifierArray>::isEqual(co
 
 lv::IIMetricsAccumulatorPtr lv::IMetricsAccumulator_<lv::DatasetEval_BinaryClassifierArray>::accumulate(const IIMetricsAccumulatorConstPtr& m) {
     const auto& m2 = dynamic_cast<const IMetricsAccumulator_<lv::DatasetEval_BinaryClassifierArray>&>(*m.get());
+    if(m2.m_vCounters.empty() && m2.m_vsStreamNames.empty())
+        return shared_from_this(); // nothing was evaluated yet in the other object
     if(m_vCounters.empty())
         m_vCounters.resize(m2.m_vCounters.size());
     else
@@ -292,6 +294,8 @@ bool lv::IMetricsAccumulator_<lv::DatasetEval_StereoDisparityEstim>::isEqual(con
 
 lv::IIMetricsAccumulatorPtr lv::IMetricsAccumulator_<lv::DatasetEval_StereoDisparityEstim>::accumulate(const IIMetricsAccumulatorConstPtr& m) {
     const auto& m2 = dynamic_cast<const IMetricsAccumulator_<lv::DatasetEval_StereoDisparityEstim>&>(*m.get());
+    if(m2.m_vErrorLists.empty() && m2.m_vsStreamNames.empty())
+        return shared_from_this(); // nothing was evaluated yet in the other object
     if(m_vErrorLists.empty())
         m_vErrorLists.resize(m2.m_vErrorLists.size());
     else
-- 
2.43.0


From f272096f9d060234397c6897df61038f81649407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:36 +0000
Subject: [PATCH 84/88] fix: do not terminate when a display window is already
 closed

OpenCV back ends may throw when asked to destroy a window which does not
exist anymore, e.g. after an album or when closed by the user.
---
 modules/utils/src/opencv.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 816c23d..6f4e93a 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -222,8 +222,12 @@ lv::DisplayHelper::DisplayHelper(const std::string& sDisplayName, const std::str
 }
 
 lv::DisplayHelper::~DisplayHelper() {
-    if(m_bMustDestroy)
-        cv::destroyWindow(m_sDisplayName);
+    if(m_bMustDestroy) {
+        try {
+            cv::destroyWindow(m_sDisplayName);
+        }
+        catch(const cv::Exception&) {} // already closed by the user
+    }
 }
 
 void lv::DisplayHelper::display(const cv::Mat& oImage, size_t nIdx) {
@@ -391,6 +395,7 @@ void lv::DisplayHelper::displayAlbumAndWaitKey(const std::vector<std::pair<cv::M
         }
     }
     while((nKeyPressed&255)!=27);
+    m_bMustDestroy = false;
     cv::destroyWindow(m_sDisplayName);
 }
 
-- 
2.43.0


From b5e55bce33662e309d5ab9de617d06fe4af1e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:45 +0000
Subject: [PATCH 85/88] fix: keep displayed images within the maximum display
 size

The dimension to fit was picked by comparing width and height with each
other, not with the maximum size.
---
 modules/utils/src/opencv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 6f4e93a..4aafcdb 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -261,7 +261,7 @@ void lv::DisplayHelper::display(const std::vector<std::vector<std::pair<cv::Mat,
     lvAssert(nColCount>0 && nRowCount>0);
     cv::Size oCurrDisplaySize(int(oSuggestedTileSize.width*nColCount),int(oSuggestedTileSize.height*nRowCount));
     if(m_oMaxDisplaySize.area()>0 && (oCurrDisplaySize.width>m_oMaxDisplaySize.width || oCurrDisplaySize.height>m_oMaxDisplaySize.height)) {
-        if(oCurrDisplaySize.width>m_oMaxDisplaySize.width && oCurrDisplaySize.width>oCurrDisplaySize.height)
+        if(int64_t(oCurrDisplaySize.width)*m_oMaxDisplaySize.height>int64_t(oCurrDisplaySize.height)*m_oMaxDisplaySize.width)
             oCurrDisplaySize = cv::Size(m_oMaxDisplaySize.width,int(m_oMaxDisplaySize.width*float(oCurrDisplaySize.height)/oCurrDisplaySize.width));
         else
             oCurrDisplaySize = cv::Size(int(m_oMaxDisplaySize.height*(float(oCurrDisplaySize.width)/oCurrDisplaySize.height)),m_oMaxDisplaySize.height);
@@ -335,7 +335,7 @@ void lv::DisplayHelper::displayAlbumAndWaitKey(const std::vector<std::pair<cv::M
     }
     cv::Size oCurrDisplaySize(vImageNamePairs[0].first.cols,vImageNamePairs[0].first.rows);
     if(m_oMaxDisplaySize.area()>0 && (oCurrDisplaySize.width>m_oMaxDisplaySize.width || oCurrDisplaySize.height>m_oMaxDisplaySize.height)) {
-        if(oCurrDisplaySize.width>m_oMaxDisplaySize.width && oCurrDisplaySize.width>oCurrDisplaySize.height)
+        if(int64_t(oCurrDisplaySize.width)*m_oMaxDisplaySize.height>int64_t(oCurrDisplaySize.height)*m_oMaxDisplaySize.width)
             oCurrDisplaySize = cv::Size(m_oMaxDisplaySize.width,int(m_oMaxDisplaySize.width*float(oCurrDisplaySize.height)/oCurrDisplaySize.width));
         else
             oCurrDisplaySize = cv::Size(int(m_oMaxDisplaySize.height*(float(oCurrDisplaySize.width)/oCurrDisplaySize.height)),m_oMaxDisplaySize.height);
-- 
2.43.0


From 5eab837bad0c9f6966ffc776542a9a9ce6ac66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:53 +0000
Subject: [PATCH 86/88] fix: close the display window even if its first image
 could not be shown

---
 modules/utils/src/opencv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 4aafcdb..2e64628 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -318,11 +318,11 @@ void lv::DisplayHelper::display(const std::vector<std::vector<std::pair<cv::Mat,
     }
     lvAssert(m_oLastDisplay.size()==oFinalDisplaySize);
     cv::namedWindow(m_sDisplayName,m_nDisplayFlags); // #### if it blocks, recompile opencv without Qt (bug still here as of OpenCV 3.1)
+    m_bMustDestroy = true;
     cv::setMouseCallback(m_sDisplayName,onMouseEvent,(void*)&m_lInternalCallback);
     cv::imshow(m_sDisplayName,m_oLastDisplay);
     m_oLastDisplaySize = m_oLastDisplay.size();
     m_oLastTileSize = oNewTileSize;
-    m_bMustDestroy = true;
 }
 
 void lv::DisplayHelper::displayAlbumAndWaitKey(const std::vector<std::pair<cv::Mat,std::string>>& vImageNamePairs, int nDefaultSleepDelay) {
@@ -374,10 +374,10 @@ void lv::DisplayHelper::displayAlbumAndWaitKey(const std::vector<std::pair<cv::M
             m_bFirstDisplay = false;
         }
         cv::imshow(m_sDisplayName,m_oLastDisplay);
-        m_bMustDestroy = true;
     };
     size_t nCurrAlbumIdx = 0;
     cv::namedWindow(m_sDisplayName,m_nDisplayFlags); // #### if it blocks, recompile opencv without Qt (bug still here as of OpenCV 3.1)
+    m_bMustDestroy = true;
     cv::setMouseCallback(m_sDisplayName,onMouseEvent,(void*)&m_lInternalCallback);
     lDisplay(nCurrAlbumIdx);
     m_oLastTileSize = m_oLastDisplaySize = m_oLastDisplay.size();
-- 
2.43.0


From b8ac56cd1ae8608935954ff43569c2ca75761492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:30 +0000
Subject: [PATCH 87/88] fix: synchronize display helpers with mouse events of a
 window thread

The last event and the tile sizes were accessed without the event mutex while
displaying, and the mutex was held in imshow by albums, which deadlocks with a
window thread delivering an event.
---
 modules/utils/include/litiv/utils/opencv.hpp |  2 ++
 modules/utils/src/opencv.cpp                 | 27 +++++++++++++-------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/modules/utils/include/litiv/utils/opencv.hpp b/modules/utils/include/litiv/utils/opencv.hpp
index 7a83f21..33d1cee 100644
--- a/modules/utils/include/litiv/utils/opencv.hpp
+++ b/modules/utils/include/litiv/utils/opencv.hpp
@@ -1409,6 +1409,8 @@ namespace lv {
     protected:
         /// should always be constructor via static 'create' member due to enable_shared_from_this interface
         DisplayHelper(const std::string& sDisplayName, const std::string& sDebugFSDirPath, const cv::Size& oMaxSize, int nWindowFlags);
+        /// returns a copy of the latest mouse event (the event mutex must not be held by the caller)
+        CallbackData getLatestMouseEvent();
         /// local entrypoint for opencv mouse callbacks
         void onMouseEventCallback(int nEvent, int x, int y, int nFlags);
         /// global entrypoint for opencv mouse callbacks
diff --git a/modules/utils/src/opencv.cpp b/modules/utils/src/opencv.cpp
index 2e64628..b2936fa 100644
--- a/modules/utils/src/opencv.cpp
+++ b/modules/utils/src/opencv.cpp
@@ -268,7 +268,8 @@ void lv::DisplayHelper::display(const std::vector<std::vector<std::pair<cv::Mat,
     }
     const cv::Size oNewTileSize(int(oCurrDisplaySize.width/nColCount),int(oCurrDisplaySize.height/nRowCount));
     const cv::Size oFinalDisplaySize(int(oNewTileSize.width*nColCount),int(oNewTileSize.height*nRowCount));
-    const cv::Point2i& oDisplayPt = m_oLatestMouseEvent.oInternalPosition;
+    const CallbackData oMouseEvent = getLatestMouseEvent();
+    const cv::Point2i& oDisplayPt = oMouseEvent.oInternalPosition;
     for(size_t nRowIdx=0; nRowIdx<nRowCount; ++nRowIdx) {
         cv::Mat oOutputRow;
         for(size_t nColIdx=0; nColIdx<nColCount; ++nColIdx) {
@@ -292,12 +293,12 @@ void lv::DisplayHelper::display(const std::vector<std::vector<std::pair<cv::Mat,
                 cv::resize(oImageBYTE3,oImageBYTE3,oNewTileSize);
             if(!vvImageNamePairs[nRowIdx][nColIdx].second.empty())
                 putText(oImageBYTE3,vvImageNamePairs[nRowIdx][nColIdx].second,cv::Scalar_<uint8_t>(0,0,255));
-            if(m_bDisplayCursor && oDisplayPt.x>=0 && oDisplayPt.y>=0 && oDisplayPt.x<oNewTileSize.width && oDisplayPt.y<oNewTileSize.height && m_oLatestMouseEvent.oTileSize==oNewTileSize) {
+            if(m_bDisplayCursor && oDisplayPt.x>=0 && oDisplayPt.y>=0 && oDisplayPt.x<oNewTileSize.width && oDisplayPt.y<oNewTileSize.height && oMouseEvent.oTileSize==oNewTileSize) {
             #if DISPLAY_HELPER_USE_LARGE_CROSSHAIR
                 cv::rectangle(oImageBYTE3,cv::Rect(0,oDisplayPt.y,oImageBYTE3.cols,1),cv::Scalar_<uchar>::all(128),-1,cv::LINE_4);
                 cv::rectangle(oImageBYTE3,cv::Rect(oDisplayPt.x,0,1,oImageBYTE3.rows),cv::Scalar_<uchar>::all(128),-1,cv::LINE_4);
             #endif //DISPLAY_HELPER_USE_LARGE_CROSSHAIR
-                if((m_oLatestMouseEvent.oPosition.x/m_oLatestMouseEvent.oTileSize.width)==(int)nColIdx && (m_oLatestMouseEvent.oPosition.y/m_oLatestMouseEvent.oTileSize.height)==(int)nRowIdx)
+                if((oMouseEvent.oPosition.x/oMouseEvent.oTileSize.width)==(int)nColIdx && (oMouseEvent.oPosition.y/oMouseEvent.oTileSize.height)==(int)nRowIdx)
                     cv::circle(oImageBYTE3,oDisplayPt,5,cv::Scalar(83,83,255));
                 else
                     cv::circle(oImageBYTE3,oDisplayPt,5,cv::Scalar::all(172));
@@ -321,6 +322,7 @@ void lv::DisplayHelper::display(const std::vector<std::vector<std::pair<cv::Mat,
     m_bMustDestroy = true;
     cv::setMouseCallback(m_sDisplayName,onMouseEvent,(void*)&m_lInternalCallback);
     cv::imshow(m_sDisplayName,m_oLastDisplay);
+    lv::mutex_lock_guard oLock(m_oEventMutex);
     m_oLastDisplaySize = m_oLastDisplay.size();
     m_oLastTileSize = oNewTileSize;
 }
@@ -360,8 +362,9 @@ void lv::DisplayHelper::displayAlbumAndWaitKey(const std::vector<std::pair<cv::M
         if(oImageBYTE3.size()!=oCurrDisplaySize)
             cv::resize(oImageBYTE3,oImageBYTE3,oCurrDisplaySize);
         putText(oImageBYTE3,vImageNamePairs[nAlbumIdx].second+" ["+std::to_string(nAlbumIdx+1)+"/"+std::to_string(vImageNamePairs.size())+"]",cv::Scalar_<uint8_t>(0,0,255));
-        const cv::Point2i& oDisplayPt = m_oLatestMouseEvent.oInternalPosition;
-        if(m_bDisplayCursor && oDisplayPt.x>=0 && oDisplayPt.y>=0 && oDisplayPt.x<oCurrDisplaySize.width && oDisplayPt.y<oCurrDisplaySize.height && m_oLatestMouseEvent.oTileSize==oCurrDisplaySize) {
+        const CallbackData oMouseEvent = getLatestMouseEvent();
+        const cv::Point2i& oDisplayPt = oMouseEvent.oInternalPosition;
+        if(m_bDisplayCursor && oDisplayPt.x>=0 && oDisplayPt.y>=0 && oDisplayPt.x<oCurrDisplaySize.width && oDisplayPt.y<oCurrDisplaySize.height && oMouseEvent.oTileSize==oCurrDisplaySize) {
         #if DISPLAY_HELPER_USE_LARGE_CROSSHAIR
             cv::rectangle(oImageBYTE3,cv::Rect(0,oDisplayPt.y,oImageBYTE3.cols,1),cv::Scalar_<uchar>::all(128),-1,cv::LINE_4);
             cv::rectangle(oImageBYTE3,cv::Rect(oDisplayPt.x,0,1,oImageBYTE3.rows),cv::Scalar_<uchar>::all(128),-1,cv::LINE_4);
@@ -380,7 +383,10 @@ void lv::DisplayHelper::displayAlbumAndWaitKey(const std::vector<std::pair<cv::M
     m_bMustDestroy = true;
     cv::setMouseCallback(m_sDisplayName,onMouseEvent,(void*)&m_lInternalCallback);
     lDisplay(nCurrAlbumIdx);
-    m_oLastTileSize = m_oLastDisplaySize = m_oLastDisplay.size();
+    {
+        lv::mutex_lock_guard oLock(m_oEventMutex);
+        m_oLastTileSize = m_oLastDisplaySize = m_oLastDisplay.size();
+    }
     int nKeyPressed;
     do {
         nKeyPressed = cv::waitKey(nDefaultSleepDelay);
@@ -389,10 +395,8 @@ void lv::DisplayHelper::displayAlbumAndWaitKey(const std::vector<std::pair<cv::M
             nNewAlbumIdx = (nCurrAlbumIdx+1)%vImageNamePairs.size();
         else if((nKeyPressed&255)=='a' || nKeyPressed==2424832 || nKeyPressed==1113937 || (nKeyPressed&255)==31) // left arrow, or 'a'
             nNewAlbumIdx = (nCurrAlbumIdx>0)?(nCurrAlbumIdx-1):(vImageNamePairs.size()-1);
-        if(nNewAlbumIdx!=nCurrAlbumIdx) {
-            lv::mutex_lock_guard oLock(m_oEventMutex);
+        if(nNewAlbumIdx!=nCurrAlbumIdx)
             lDisplay(nCurrAlbumIdx=nNewAlbumIdx);
-        }
     }
     while((nKeyPressed&255)!=27);
     m_bMustDestroy = false;
@@ -425,6 +429,11 @@ int lv::DisplayHelper::waitKey(int nDefaultSleepDelay) {
     return nKeyPressed;
 }
 
+lv::DisplayHelper::CallbackData lv::DisplayHelper::getLatestMouseEvent() {
+    lv::mutex_lock_guard oLock(m_oEventMutex);
+    return m_oLatestMouseEvent;
+}
+
 void lv::DisplayHelper::onMouseEventCallback(int nEvent, int x, int y, int nFlags) {
     lv::mutex_lock_guard oLock(m_oEventMutex);
     m_oLatestMouseEvent.oPosition = m_oLatestMouseEvent.oInternalPosition = cv::Point2i(x,y);
-- 
2.43.0


From e46b500bd14f88720d186d03146c3f6c72c79cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:05 +0000
Subject: [PATCH 88/88] fix: keep the sizes of evaluation arrays equal when
 memory runs out

An output whose evaluation failed while allocating the stream names left
counters without names; the metrics could not be read any more (array size
mismatch).
---
 modules/datasets/include/litiv/datasets/eval.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/datasets/include/litiv/datasets/eval.hpp b/modules/datasets/include/litiv/datasets/eval.hpp
index d67aa89..36758f5 100644
--- a/modules/datasets/include/litiv/datasets/eval.hpp
+++ b/modules/datasets/include/litiv/datasets/eval.hpp
@@ -174,8 +174,10 @@ namespace lv {
                 for(size_t nStreamIdx=0; nStreamIdx<vClassif.size(); ++nStreamIdx)
                     vCounters[nStreamIdx].accumulate(vClassif[nStreamIdx],vGTArray[nStreamIdx],vGTROIArray.empty()?cv::Mat():vGTROIArray[nStreamIdx]);
                 if(m_pMetricsBase->m_vCounters.empty() || m_pMetricsBase->m_vsStreamNames.empty()) {
+                    std::vector<std::string> vsStreamNames(m_pMetricsBase->m_vsStreamNames);
+                    vsStreamNames.resize(vClassif.size());
                     m_pMetricsBase->m_vCounters.resize(vClassif.size());
-                    m_pMetricsBase->m_vsStreamNames.resize(vClassif.size());
+                    std::swap(m_pMetricsBase->m_vsStreamNames,vsStreamNames); // both arrays always have the same size
                 }
                 for(size_t nStreamIdx=0; nStreamIdx<vClassif.size(); ++nStreamIdx)
                     m_pMetricsBase->m_vCounters[nStreamIdx].accumulate(vCounters[nStreamIdx]);
@@ -230,8 +232,10 @@ namespace lv {
                 for(size_t nStreamIdx=0; nStreamIdx<vDispMaps.size(); ++nStreamIdx)
                     vErrorLists[nStreamIdx].accumulate(vDispMaps[nStreamIdx],vGTArray[nStreamIdx],vGTROIArray.empty()?cv::Mat():vGTROIArray[nStreamIdx]);
                 if(m_pMetricsBase->m_vErrorLists.empty() || m_pMetricsBase->m_vsStreamNames.empty()) {
+                    std::vector<std::string> vsStreamNames(m_pMetricsBase->m_vsStreamNames);
+                    vsStreamNames.resize(vDispMaps.size());
                     m_pMetricsBase->m_vErrorLists.resize(vDispMaps.size());
-                    m_pMetricsBase->m_vsStreamNames.resize(vDispMaps.size());
+                    std::swap(m_pMetricsBase->m_vsStreamNames,vsStreamNames); // both arrays always have the same size
                 }
                 for(size_t nStreamIdx=0; nStreamIdx<vDispMaps.size(); ++nStreamIdx)
                     m_pMetricsBase->m_vErrorLists[nStreamIdx].vErrors.reserve(m_pMetricsBase->m_vErrorLists[nStreamIdx].vErrors.size()+vErrorLists[nStreamIdx].vErrors.size());
-- 
2.43.0

