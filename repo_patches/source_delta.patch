From c84f7c44a819946ebb1be671e8072bc54a33f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:22 +0000
Subject: [PATCH 001/110] fix: ThreadPool::push(list) counts its tasks so that
 wait() does not return early

---
 src/eckit/thread/ThreadPool.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 04622bd..c84f297 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -166,6 +166,12 @@ void ThreadPool::push(ThreadPoolTask* r) {
 }
 
 void ThreadPool::push(std::list<ThreadPoolTask*>& l) {
+    for (std::list<ThreadPoolTask*>::iterator j = l.begin(); j != l.end(); ++j) {
+        if (*j) {
+            startTask();
+        }
+    }
+
     AutoLock<MutexCond> lock(ready_);
 
     for (std::list<ThreadPoolTask*>::iterator j = l.begin(); j != l.end(); ++j) {
-- 
2.43.0


From 64dc245c8cd6136e3a5f45736f546979e498d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 002/110] fix: ThreadPool wakes every waiter when tasks or
 workers end

---
 src/eckit/thread/ThreadPool.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index c84f297..672866f 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -127,7 +127,7 @@ void ThreadPool::notifyStart() {
 void ThreadPool::notifyEnd() {
     AutoLock<MutexCond> lock(done_);
     running_--;
-    done_.signal();
+    done_.broadcast();
     // Log::info() << "ThreadPool::notifyEnd " << name_ << " running: " << running_ << std::endl;
 }
 
@@ -142,7 +142,7 @@ void ThreadPool::startTask() {
 void ThreadPool::endTask() {
     AutoLock<MutexCond> lock(active_);
     tasks_--;
-    active_.signal();
+    active_.broadcast();
     // Log::info() << "ThreadPool::notifyStart " << name_ << " running: " << running_ << std::endl;
 }
 
-- 
2.43.0


From f47f0b37600b8e717701b1d456515660b7c6c774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:16 +0000
Subject: [PATCH 003/110] fix: ThreadPool::waitForThreads waits also for
 workers that have not begun to run

---
 src/eckit/thread/ThreadPool.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 672866f..c439377 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -33,8 +33,6 @@ public:
 };
 
 void ThreadPoolThread::run() {
-    owner_.notifyStart();
-
     Monitor::instance().name(owner_.name());
 
     // Log::info() << "Start of ThreadPoolThread " << std::endl;
@@ -219,7 +217,14 @@ void ThreadPool::resize(size_t size) {
 
     while (count_ < size) {
         ThreadControler c(new ThreadPoolThread(*this), true, stack_);
-        c.start();
+        notifyStart();  // counted here, so that waitForThreads() cannot overlook a worker not yet running
+        try {
+            c.start();
+        }
+        catch (...) {
+            notifyEnd();
+            throw;
+        }
         count_++;
     }
 }
-- 
2.43.0


From 639160829fa0e5daa66e3aebc2a4782ba255ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 004/110] fix: ProducerConsumer ends the run when the
 producer's done() fails

---
 src/eckit/runtime/ProducerConsumer.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/eckit/runtime/ProducerConsumer.h b/src/eckit/runtime/ProducerConsumer.h
index 48ae05b..7816676 100644
--- a/src/eckit/runtime/ProducerConsumer.h
+++ b/src/eckit/runtime/ProducerConsumer.h
@@ -160,7 +160,20 @@ void ProducerConsumer<PAYLOAD>::execute(Producer<PAYLOAD>& producer, Consumer<PA
             break;
         }
 
-        if (producer.done()) {
+        bool done = false;
+        try {
+            done = producer.done();
+        }
+        catch (std::exception& e) {
+            Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+            Log::error() << "** Exception is handled" << std::endl;
+            error(e.what());
+            payloads[i].ready_ = true;
+            payloads[i].cond_.signal();
+            break;
+        }
+
+        if (done) {
             payloads[i].done_  = true;
             payloads[i].ready_ = true;
             payloads[i].cond_.signal();
-- 
2.43.0


From 762bbd6c94680bf4d9b4ea26c42cdee85b64d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 005/110] fix: AsyncHandle's destructor cannot miss the writer
 thread

---
 src/eckit/io/AsyncHandle.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eckit/io/AsyncHandle.cc b/src/eckit/io/AsyncHandle.cc
index cc991d1..bb9ad27 100644
--- a/src/eckit/io/AsyncHandle.cc
+++ b/src/eckit/io/AsyncHandle.cc
@@ -103,11 +103,10 @@ AsyncHandle::~AsyncHandle() {
             delete buffers_.front().second;
             buffers_.pop_front();
         }
+        thread_.stop();  // with the lock held, or the writer may miss the signal and never end
         cond_.signal();
     }
 
-    thread_.stop();
-    cond_.signal();
     thread_.wait();
 }
 
-- 
2.43.0


From f264b92c27efc584f5d69fd959f9621557182cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:33 +0000
Subject: [PATCH 006/110] fix: AsyncHandle records a failed write before flush
 or close can overlook it

---
 src/eckit/io/AsyncHandle.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/eckit/io/AsyncHandle.cc b/src/eckit/io/AsyncHandle.cc
index bb9ad27..94ba2f3 100644
--- a/src/eckit/io/AsyncHandle.cc
+++ b/src/eckit/io/AsyncHandle.cc
@@ -39,7 +39,7 @@ public:
 void AsyncHandleWriter::run() {
     while (!stopped()) {
         Buffer* delme = nullptr;
-        try {
+        {
             AutoLock<MutexCond> lock(owner_.cond_);
             while (owner_.buffers_.empty() && !stopped()) {
                 owner_.cond_.wait();
@@ -56,21 +56,23 @@ void AsyncHandleWriter::run() {
             owner_.used_ -= p.second->size();
             delme = p.second;
 
-            long written = owner_.handle().write(p.second->data(), p.first);
-            if (written != static_cast<long>(p.first)) {
-                std::ostringstream oss;
-                oss << "AsyncHandleWriter: written " << written << " out of " << p.first << Log::syserr;
-                throw WriteError(oss.str());
+            // An error must be recorded before the lock is released, or flush() may find no buffer left and no error
+            try {
+                long written = owner_.handle().write(p.second->data(), p.first);
+                if (written != static_cast<long>(p.first)) {
+                    std::ostringstream oss;
+                    oss << "AsyncHandleWriter: written " << written << " out of " << p.first << Log::syserr;
+                    throw WriteError(oss.str());
+                }
+            }
+            catch (std::exception& e) {
+                eckit::Log::error() << "AsyncHandleWriter got an exception: " << e.what() << " " << owner_ << std::endl;
+                owner_.error_   = true;
+                owner_.message_ = e.what();
             }
 
             owner_.cond_.signal();
         }
-        catch (std::exception& e) {
-            eckit::Log::error() << "AsyncHandleWriter got an exception: " << e.what() << " " << owner_ << std::endl;
-            AutoLock<MutexCond> lock(owner_.cond_);
-            owner_.error_ = e.what();
-            owner_.cond_.signal();
-        }
         delete delme;
         delme = nullptr;
     }
-- 
2.43.0


From d65463754407b8d9c2925c9f0fb451ccd637d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:36 +0000
Subject: [PATCH 007/110] fix: AIOHandle opened for append starts at the end of
 the file

---
 src/eckit/io/AIOHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/AIOHandle.cc b/src/eckit/io/AIOHandle.cc
index 32d200d..f02244a 100644
--- a/src/eckit/io/AIOHandle.cc
+++ b/src/eckit/io/AIOHandle.cc
@@ -297,7 +297,7 @@ void AIOHandle::openForWrite(const Length&) {
 void AIOHandle::openForAppend(const Length&) {
     used_ = 0;
     SYSCALL2(fd_ = ::open(path_.localPath(), O_WRONLY | O_CREAT | O_APPEND, 0777), path_);
-    SYSCALL2(pos_ = ::lseek(fd_, 0, SEEK_CUR), path_);
+    SYSCALL2(pos_ = ::lseek(fd_, 0, SEEK_END), path_);
 }
 
 long AIOHandle::read(void*, long) {
-- 
2.43.0


From 3d852568a66c961703b4286782b0e11c3300eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:33 +0000
Subject: [PATCH 008/110] fix: DblBuffer reports a read that returns an error
 instead of abandoning its writer thread

---
 src/eckit/io/DblBuffer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/io/DblBuffer.cc b/src/eckit/io/DblBuffer.cc
index 2c690a6..72d5cf2 100644
--- a/src/eckit/io/DblBuffer.cc
+++ b/src/eckit/io/DblBuffer.cc
@@ -203,6 +203,11 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
             buffers[i].length_ = -1;
             error(e.what());
         }
+
+        if (buffers[i].length_ < 0 && !error()) {
+            error("read error on " + in.title());
+        }
+
         Log::message() << "" << std::endl;
 
         buffers[i].full_ = true;
-- 
2.43.0


From b2b2fff90b2b0e0a14d6ef64c5154986466e026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:33 +0000
Subject: [PATCH 009/110] fix: DblBuffer does not repeat an earlier restart
 when another error occurs

---
 src/eckit/io/DblBuffer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/io/DblBuffer.cc b/src/eckit/io/DblBuffer.cc
index 72d5cf2..0d7b8d0 100644
--- a/src/eckit/io/DblBuffer.cc
+++ b/src/eckit/io/DblBuffer.cc
@@ -152,6 +152,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
     Progress progress("Reading data", 0, estimate);
 
     error_   = false;
+    restart_ = false;
     inBytes_ = outBytes_ = 0;
 
     ThreadControler thread(new DblBufferTask(out, *this, buffers, estimate, Monitor::instance().self()), false);
-- 
2.43.0


From 77cb8f09667076d787f01bef6c7d6141a617b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:43 +0000
Subject: [PATCH 010/110] fix: DblBuffer reports the whole length after a
 restart, also when the length is not announced

---
 src/eckit/io/DblBuffer.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eckit/io/DblBuffer.cc b/src/eckit/io/DblBuffer.cc
index 0d7b8d0..2afe5c0 100644
--- a/src/eckit/io/DblBuffer.cc
+++ b/src/eckit/io/DblBuffer.cc
@@ -99,6 +99,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
 
     Length total  = estimate;
     Length copied = 0;
+    Offset start  = 0;
 
     static Resource<long> maxRetriesResource("dblBufferMaxRetries", 5);
     long maxRetries = maxRetriesResource;
@@ -109,7 +110,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
         try {
             copied = copy(in, out, estimate);
             Log::info() << "Copied: " << copied << ", estimate: " << estimate << std::endl;
-            if (estimate) {
+            if (total) {
                 if (copied != estimate) {
                     std::ostringstream os;
                     os << "DblBuffer::copy(), copied: " << copied << ", estimate: " << estimate;
@@ -129,13 +130,16 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
             watcher_.restartFrom(retry.from());
             in.restartReadFrom(retry.from());
             out.restartWriteFrom(retry.from());
-            estimate = total - retry.from();
-            more     = true;
+            start = retry.from();
+            if (total) {
+                estimate = total - retry.from();
+            }
+            more = true;
         }
     }
 
     Log::info() << "Transfer rate " << Bytes(estimate, timer) << std::endl;
-    return copied;
+    return Length(0) + start + copied;
 }
 
 Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate) {
-- 
2.43.0


From f80bfb1a58a96cfbbf45b635129e1d1703a20903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:42 +0000
Subject: [PATCH 011/110] fix: DataHandle::compare copes with short reads and
 reports failing ones

---
 src/eckit/io/DataHandle.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/eckit/io/DataHandle.cc b/src/eckit/io/DataHandle.cc
index bb6983d..29c25de 100644
--- a/src/eckit/io/DataHandle.cc
+++ b/src/eckit/io/DataHandle.cc
@@ -261,6 +261,22 @@ Streamable* Reanimator<DataHandle>::ressucitate(Stream& s) const {
     return nullptr;
 }
 
+static long readFully(DataHandle& handle, Buffer& buffer) {
+    long size  = buffer.size();
+    long total = 0;
+    while (total < size) {
+        long length = handle.read(static_cast<char*>(buffer) + total, size - total);
+        if (length < 0) {
+            throw ReadError(handle.name());
+        }
+        if (length == 0) {
+            break;
+        }
+        total += length;
+    }
+    return total;
+}
+
 bool DataHandle::compare(DataHandle& other) {
     size_t bufsize = static_cast<size_t>(Resource<long>("compareBufferSize", 10 * 1024 * 1024));
 
@@ -286,8 +302,9 @@ bool DataHandle::compare(DataHandle& other) {
     Length total = 0;
 
     for (;;) {
-        long len1 = self.read(buffer1, buffer1.size());
-        long len2 = other.read(buffer2, buffer2.size());
+        // a handle may return less than asked for before the end of its data
+        long len1 = readFully(self, buffer1);
+        long len2 = readFully(other, buffer2);
 
         if (len1 != len2) {
             Log::error() << "DataHandle::compare(" << self << "," << other << ") failed: read() returns " << len1
@@ -295,7 +312,7 @@ bool DataHandle::compare(DataHandle& other) {
             return false;
         }
 
-        if (len1 <= 0 && len2 <= 0) {
+        if (len1 == 0) {
             Log::info() << "DataHandle::compare(" << self << "," << other << ") is successful" << std::endl;
             return true;
         }
-- 
2.43.0


From 099544e13e5994ba76e3ba7338f5030c96e15ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:10 +0000
Subject: [PATCH 012/110] fix: FileHandle opened for append after reading
 synchronises its data on close

---
 src/eckit/io/FileHandle.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/io/FileHandle.cc b/src/eckit/io/FileHandle.cc
index 220d3d7..67153f6 100644
--- a/src/eckit/io/FileHandle.cc
+++ b/src/eckit/io/FileHandle.cc
@@ -103,6 +103,7 @@ void FileHandle::openForWrite(const Length& length) {
 }
 
 void FileHandle::openForAppend(const Length&) {
+    read_ = false;
     open("a");
 }
 
-- 
2.43.0


From f065f695ae17025e625f085f4ddc6e88c22b7319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:10 +0000
Subject: [PATCH 013/110] fix: FileHandle reports a failed read instead of the
 end of the file

---
 src/eckit/io/FileHandle.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/FileHandle.cc b/src/eckit/io/FileHandle.cc
index 67153f6..ec0c657 100644
--- a/src/eckit/io/FileHandle.cc
+++ b/src/eckit/io/FileHandle.cc
@@ -108,7 +108,11 @@ void FileHandle::openForAppend(const Length&) {
 }
 
 long FileHandle::read(void* buffer, long length) {
-    return ::fread(buffer, 1, length, file_);
+    long read = ::fread(buffer, 1, length, file_);
+    if (read != length && ::ferror(file_)) {
+        throw ReadError(name_);
+    }
+    return read;
 }
 
 long FileHandle::write(const void* buffer, long length) {
-- 
2.43.0


From d0da505d7b9858e41a5f6d61b88172ac1334cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:10 +0000
Subject: [PATCH 014/110] fix: FileHandle does not use its stream again after a
 failed close

---
 src/eckit/io/FileHandle.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/FileHandle.cc b/src/eckit/io/FileHandle.cc
index ec0c657..e6367c7 100644
--- a/src/eckit/io/FileHandle.cc
+++ b/src/eckit/io/FileHandle.cc
@@ -184,7 +184,9 @@ void FileHandle::close() {
 
         flush();
 
-        if (::fclose(file_) != 0) {
+        FILE* file = file_;
+        file_      = nullptr;  // not to be used any more, even if fclose fails
+        if (::fclose(file) != 0) {
             throw WriteError(std::string("fclose ") + name());
         }
     }
-- 
2.43.0


From ed2de9e691884bb17e8d32290afa791a3e02ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 015/110] fix: AutoClose reports a failing close also while an
 earlier exception is being handled

---
 src/eckit/io/DataHandle.cc | 3 ++-
 src/eckit/io/DataHandle.h  | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/DataHandle.cc b/src/eckit/io/DataHandle.cc
index 29c25de..e013650 100644
--- a/src/eckit/io/DataHandle.cc
+++ b/src/eckit/io/DataHandle.cc
@@ -33,7 +33,8 @@ namespace eckit {
 //----------------------------------------------------------------------------------------------------------------------
 
 AutoClose::~AutoClose() noexcept(false) {
-    bool fail = !Exception::throwing();
+    // An exception that is merely being handled further up must not hide a failing close
+    bool fail = std::uncaught_exceptions() <= exceptions_;
 
     try {
         handle_.close();
diff --git a/src/eckit/io/DataHandle.h b/src/eckit/io/DataHandle.h
index 8f7ec7a..89a5d52 100644
--- a/src/eckit/io/DataHandle.h
+++ b/src/eckit/io/DataHandle.h
@@ -18,6 +18,8 @@
 
 #include <cstdio>
 
+#include <exception>
+
 #include "eckit/filesystem/PathName.h"
 #include "eckit/io/Length.h"
 #include "eckit/io/Offset.h"
@@ -172,10 +174,11 @@ private:
 
 class AutoClose {
     DataHandle& handle_;
+    int exceptions_;  // in flight at construction
 
 public:
 
-    AutoClose(DataHandle& handle) : handle_(handle) {}
+    AutoClose(DataHandle& handle) : handle_(handle), exceptions_(std::uncaught_exceptions()) {}
     ~AutoClose() noexcept(false);
 };
 
-- 
2.43.0


From 4f2c9ac32713a57db36a18bacb253cf0ff1cf441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 016/110] fix: MultiHandle does not lose data after a short
 read, nor take a failed read for the end

---
 src/eckit/io/MultiHandle.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eckit/io/MultiHandle.cc b/src/eckit/io/MultiHandle.cc
index 87035f0..c444c16 100644
--- a/src/eckit/io/MultiHandle.cc
+++ b/src/eckit/io/MultiHandle.cc
@@ -147,13 +147,11 @@ long MultiHandle::read1(char* buffer, long length) {
     }
 
     long n = (*current_)->read(buffer, length);
-    if (n < length) {
+    if (n == 0) {  // fewer bytes than asked for is not yet the end of the data
         (*current_)->close();
         current_++;
         openCurrent();
-        if (n <= 0) {
-            return read1(buffer, length);
-        }
+        return read1(buffer, length);
     }
     return n;
 }
-- 
2.43.0


From c6678029ba946f426c8cdba5353c5c60b1b552f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 017/110] fix: PooledHandle reports its own position, not that
 of the last reader of the file

---
 src/eckit/io/PooledHandle.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/PooledHandle.cc b/src/eckit/io/PooledHandle.cc
index 230cb1f..6066d07 100644
--- a/src/eckit/io/PooledHandle.cc
+++ b/src/eckit/io/PooledHandle.cc
@@ -191,6 +191,14 @@ public:
 
         return s->second.position_;
     }
+
+    Offset position(const PooledHandle* handle) {
+        auto s = statuses_.find(handle);
+        ASSERT(s != statuses_.end());
+        ASSERT(s->second.opened_);
+
+        return s->second.position_;
+    }
 };
 
 
@@ -268,7 +276,8 @@ void PooledHandle::hash(MD5& md5) const {
 }
 
 Offset PooledHandle::position() {
-    return entry_->handle_->position();
+    ASSERT(entry_);
+    return entry_->position(this);
 }
 
 }  // namespace eckit
-- 
2.43.0


From b957556c1ba29a9f4fd16c34d19bb17035fbcd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 018/110] fix: PooledHandle tries again to open a file that
 could not be opened before

---
 src/eckit/io/PooledHandle.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eckit/io/PooledHandle.cc b/src/eckit/io/PooledHandle.cc
index 6066d07..f82c22b 100644
--- a/src/eckit/io/PooledHandle.cc
+++ b/src/eckit/io/PooledHandle.cc
@@ -110,10 +110,11 @@ public:
             checkMaxPooledHandles();
 
             nbOpens_++;
-            handle_.reset(path_.fileHandle());
-            ASSERT(handle_);
-            LOG_DEBUG_LIB(LibEcKit) << "PooledHandle::openForRead(" << *handle_ << ")" << std::endl;
-            estimate_ = handle_->openForRead();
+            std::unique_ptr<DataHandle> handle(path_.fileHandle());
+            ASSERT(handle);
+            LOG_DEBUG_LIB(LibEcKit) << "PooledHandle::openForRead(" << *handle << ")" << std::endl;
+            estimate_ = handle->openForRead();
+            handle_   = std::move(handle);
         }
 
         s->second.opened_   = true;
-- 
2.43.0


From b15cbd35465f2c172078654397d190550923f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:50 +0000
Subject: [PATCH 019/110] fix: BufferedHandle reports a failed read instead of
 returning whatever its buffer holds

---
 src/eckit/io/BufferedHandle.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/eckit/io/BufferedHandle.cc b/src/eckit/io/BufferedHandle.cc
index 4206053..aab39b4 100644
--- a/src/eckit/io/BufferedHandle.cc
+++ b/src/eckit/io/BufferedHandle.cc
@@ -93,10 +93,13 @@ long BufferedHandle::read(void* buffer, long length) {
         ASSERT(left >= 0);
 
         if (left == 0 && !eof_) {
-            // read() is supposed to return a non-negative number
-            used_ = handle().read(buffer_, size_);
-            pos_  = 0;
-            if (used_ <= 0) {
+            used_ = pos_ = 0;
+            long n       = handle().read(buffer_, size_);
+            if (n < 0) {
+                throw ReadError(handle().name(), Here());
+            }
+            used_ = n;
+            if (n == 0) {
                 eof_ = true;
                 if (len > 0) {
                     position_ += len;
-- 
2.43.0


From 9f3df5151476c8da273df4bba87bd602c823335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:58 +0000
Subject: [PATCH 020/110] fix: PartHandle and PartFileHandle cope with short
 reads

---
 src/eckit/io/PartFileHandle.cc | 2 +-
 src/eckit/io/PartHandle.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/PartFileHandle.cc b/src/eckit/io/PartFileHandle.cc
index 6f4832d..a95d45a 100644
--- a/src/eckit/io/PartFileHandle.cc
+++ b/src/eckit/io/PartFileHandle.cc
@@ -123,7 +123,7 @@ long PartFileHandle::read1(char* buffer, long length) {
 
     long n = handle_->read(buffer, size);
 
-    if (n != size) {
+    if (n <= 0) {  // a short read is not an error: read() asks for the rest
         std::ostringstream s;
         s << path_ << ": cannot read " << size << ", got only " << n;
         throw ReadError(s.str());
diff --git a/src/eckit/io/PartHandle.cc b/src/eckit/io/PartHandle.cc
index b7b0798..4756a68 100644
--- a/src/eckit/io/PartHandle.cc
+++ b/src/eckit/io/PartHandle.cc
@@ -116,7 +116,7 @@ long PartHandle::read1(char* buffer, long length) {
 
     long n = handle().read(buffer, size);
 
-    if (n != size) {
+    if (n <= 0) {  // a short read is not an error: read() asks for the rest
         std::ostringstream s;
         s << handle() << ": cannot read " << size << ", got only " << n;
         throw ReadError(s.str());
-- 
2.43.0


From abff42307304e5f2177a197d7e3e9c859cfc2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:17 +0000
Subject: [PATCH 021/110] fix: MultiHandle can be written when some of its
 parts are empty

---
 src/eckit/io/MultiHandle.cc | 17 +++++++++++++++++
 src/eckit/io/MultiHandle.h  |  1 +
 2 files changed, 18 insertions(+)

diff --git a/src/eckit/io/MultiHandle.cc b/src/eckit/io/MultiHandle.cc
index c444c16..72ce6ca 100644
--- a/src/eckit/io/MultiHandle.cc
+++ b/src/eckit/io/MultiHandle.cc
@@ -112,6 +112,7 @@ void MultiHandle::openForWrite(const Length& length) {
     current_ = datahandles_.begin();
     curlen_  = length_.begin();
     openCurrent();
+    skipEmpty();
 
     written_ = 0;
 
@@ -141,6 +142,16 @@ void MultiHandle::openCurrent() {
     }
 }
 
+void MultiHandle::skipEmpty() {
+    // Nothing is ever written to the handles that expect nothing
+    while (current_ != datahandles_.end() && *curlen_ == Length(0)) {
+        (*current_)->close();
+        current_++;
+        curlen_++;
+        openCurrent();
+    }
+}
+
 long MultiHandle::read1(char* buffer, long length) {
     if (current_ == datahandles_.end()) {
         return 0;
@@ -173,6 +184,11 @@ long MultiHandle::read(void* buffer, long length) {
 }
 
 long MultiHandle::write(const void* buffer, long length) {
+    if (current_ == datahandles_.end()) {
+        ASSERT(length == 0);
+        return 0;
+    }
+
     Length len = std::min(Length(*curlen_ - written_), Length(length));
     long l     = static_cast<long>(len);
 
@@ -196,6 +212,7 @@ long MultiHandle::write(const void* buffer, long length) {
         current_++;
         curlen_++;
         openCurrent();
+        skipEmpty();
         written_ = 0;
 
         // Some more ?
diff --git a/src/eckit/io/MultiHandle.h b/src/eckit/io/MultiHandle.h
index a0cd619..2223314 100644
--- a/src/eckit/io/MultiHandle.h
+++ b/src/eckit/io/MultiHandle.h
@@ -103,6 +103,7 @@ private:
     // -- Methods
 
     void openCurrent();
+    void skipEmpty();
     void open();
     long read1(char*, long);
 
-- 
2.43.0


From 241cb675266428afc8fe4ee7b5879cc5eb80b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 022/110] fix: BufferedHandle writes what it holds before
 moving to another position

---
 src/eckit/io/BufferedHandle.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/io/BufferedHandle.cc b/src/eckit/io/BufferedHandle.cc
index aab39b4..f5b8cd7 100644
--- a/src/eckit/io/BufferedHandle.cc
+++ b/src/eckit/io/BufferedHandle.cc
@@ -169,6 +169,9 @@ void BufferedHandle::flush() {
 }
 
 void BufferedHandle::rewind() {
+    if (!read_) {
+        bufferFlush();
+    }
     position_ = 0;
     used_ = pos_ = 0;
     eof_         = false;
@@ -176,6 +179,9 @@ void BufferedHandle::rewind() {
 }
 
 Offset BufferedHandle::seek(const Offset& off) {
+    if (!read_) {
+        bufferFlush();
+    }
     used_ = pos_ = 0;
     eof_         = false;
     position_    = handle().seek(off);
-- 
2.43.0


From 921eff16be6f503d6f4d6e95a119b8a2203189c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 023/110] fix: HandleBuf does not end the program when its last
 write fails

---
 src/eckit/io/HandleBuf.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/HandleBuf.cc b/src/eckit/io/HandleBuf.cc
index 83b2def..937c7b0 100644
--- a/src/eckit/io/HandleBuf.cc
+++ b/src/eckit/io/HandleBuf.cc
@@ -12,6 +12,7 @@
 
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/HandleBuf.h"
+#include "eckit/log/Log.h"
 
 //----------------------------------------------------------------------------------------------------------------------
 
@@ -25,7 +26,13 @@ HandleBuf::HandleBuf(DataHandle& handle, bool throwOnError) : handle_(handle), t
 }
 
 HandleBuf::~HandleBuf() {
-    sync();
+    try {
+        sync();
+    }
+    catch (std::exception& e) {
+        Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+        Log::error() << "** Exception is ignored" << std::endl;
+    }
 }
 
 int HandleBuf::sync() {
-- 
2.43.0


From bad9733593f6b6f013ebec6fdfd8f8d028ef46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:25 +0000
Subject: [PATCH 024/110] fix: MemoryHandle grows to where the data end, also
 when some of it is overwritten

---
 src/eckit/io/MemoryHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/MemoryHandle.cc b/src/eckit/io/MemoryHandle.cc
index 674de45..ef9974f 100644
--- a/src/eckit/io/MemoryHandle.cc
+++ b/src/eckit/io/MemoryHandle.cc
@@ -143,7 +143,7 @@ long MemoryHandle::write(const void* buffer, long length) {
             capacity_ = newcapacity;
         }
 
-        size_ += length;
+        size_ = size_t(position_) + size_t(length);
 
         left = size_ - position_;
     }
-- 
2.43.0


From 0953af917abf1e7534a10efa3e8bd8d4015ccebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:38 +0000
Subject: [PATCH 025/110] fix: HandleBuf does not write a second time what
 could not be written

---
 src/eckit/io/HandleBuf.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/HandleBuf.cc b/src/eckit/io/HandleBuf.cc
index 937c7b0..c12247d 100644
--- a/src/eckit/io/HandleBuf.cc
+++ b/src/eckit/io/HandleBuf.cc
@@ -37,6 +37,10 @@ HandleBuf::~HandleBuf() {
 
 int HandleBuf::sync() {
     int len = pptr() - pbase();
+
+    // Whatever happens, these bytes are not to be written twice
+    setp(pbase(), epptr());
+
     if (len != 0) {
         int written = handle_.write(pbase(), len);
 
@@ -51,8 +55,6 @@ int HandleBuf::sync() {
         }
     }
 
-    setp(pbase(), epptr());
-
     return 0;
 }
 
-- 
2.43.0


From f04019ea7056b28816874520a5a083aa0fe9a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 026/110] fix: BufferedHandle does not write a second time what
 could not be written

---
 src/eckit/io/BufferedHandle.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eckit/io/BufferedHandle.cc b/src/eckit/io/BufferedHandle.cc
index f5b8cd7..8750ba8 100644
--- a/src/eckit/io/BufferedHandle.cc
+++ b/src/eckit/io/BufferedHandle.cc
@@ -206,9 +206,11 @@ Offset BufferedHandle::position() {
 
 void BufferedHandle::bufferFlush() {
     if (pos_) {
-        long len = handle().write(buffer_, pos_);
-        ASSERT((size_t)len == pos_);
-        pos_ = 0;
+        // Whatever happens, these bytes are not to be written twice
+        size_t n = pos_;
+        pos_     = 0;
+        long len = handle().write(buffer_, n);
+        ASSERT((size_t)len == n);
     }
 }
 
-- 
2.43.0


From 341103a5cc937c9af73c31eef96e22bc39e39162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:38 +0000
Subject: [PATCH 027/110] fix: a StdFile that fails to close raises an error
 that can be caught

---
 src/eckit/io/StdFile.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/StdFile.cc b/src/eckit/io/StdFile.cc
index 8c0763a..14a4d4a 100644
--- a/src/eckit/io/StdFile.cc
+++ b/src/eckit/io/StdFile.cc
@@ -30,11 +30,12 @@ StdFile::~StdFile() {
 
 void StdFile::close() noexcept(false) {
     if (isOpen()) {
-        if (fclose(file_)) {
+        FILE* file = file_;
+        file_      = nullptr;  // not to be used any more, even if fclose fails
+        if (::fclose(file)) {
             throw FailedSystemCall("fclose");
         }
     }
-    file_ = nullptr;
 }
 
 }  // namespace eckit
-- 
2.43.0


From 7b1761e35e666c62e7699a44d8333deb6d5fd08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 028/110] fix: FileStream reports failures to synchronise or
 read its file, and is closed after them

---
 src/eckit/serialisation/FileStream.cc | 69 +++++++++++++--------------
 src/eckit/serialisation/FileStream.h  |  5 ++
 2 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/src/eckit/serialisation/FileStream.cc b/src/eckit/serialisation/FileStream.cc
index a97fd69..1428434 100644
--- a/src/eckit/serialisation/FileStream.cc
+++ b/src/eckit/serialisation/FileStream.cc
@@ -8,7 +8,6 @@
  * does it submit to any jurisdiction.
  */
 
-#include <dirent.h>
 #include <unistd.h>
 
 #include "eckit/eckit.h"
@@ -28,48 +27,42 @@ FileStream::~FileStream() {
     ASSERT_MSG(!file_.isOpen(), "FileStream being destructed is still open");
 }
 
-void FileStream::close() {
-    if (!read_) {
-        if (::fflush(file_)) {
-            throw WriteError(std::string("FileStream::~FileStream(fflush(") + name_ + "))");
-        }
-
-        // Because AIX has large system buffers,
-        // the close may be successful without the
-        // data being physicaly on disk. If there is
-        // a power failure, we lose some data. So we
-        // need to fsync
+void FileStream::sync() {
+    if (::fflush(file_)) {
+        throw WriteError(std::string("FileStream::close(fflush(") + name_ + "))");
+    }
 
-        int ret = eckit::fsync(fileno(file_));
+    // Because AIX has large system buffers,
+    // the close may be successful without the
+    // data being physicaly on disk. If there is
+    // a power failure, we lose some data. So we
+    // need to fsync
 
-        if (ret < 0) {
-            Log::error() << "Cannot fsync(" << name_ << ") " << fileno(file_) << Log::syserr << std::endl;
-        }
-        // if(ret<0)
-        // throw FailedSystemCall(std::string("fsync(") + name_ + ")");
+    if (eckit::fsync(fileno(file_)) < 0) {
+        throw FailedSystemCall(std::string("fsync(") + name_ + ")");
+    }
 
-        // On Linux, you must also flush the directory
+    // On Linux, you must also flush the directory
 
-#if eckit_HAVE_DIRFD
-        PathName directory = PathName(name_).dirName();
-        DIR* d             = ::opendir(directory.localPath());
-        if (!d) {
-            SYSCALL(-1);
-        }
-
-        int dir;
-        SYSCALL(dir = dirfd(d));
-        ret = ::fsync(dir);
+    name_.syncParentDirectory();
+}
 
-        while (ret < 0 && errno == EINTR) {
-            ret = fsync(dir);
+void FileStream::close() {
+    if (!read_ && file_.isOpen()) {
+        try {
+            sync();
         }
-
-        if (ret < 0) {
-            Log::error() << "Cannot fsync(" << directory << ")" << Log::syserr << std::endl;
+        catch (std::exception&) {
+            // the file is closed in any case
+            try {
+                file_.close();
+            }
+            catch (std::exception& e) {
+                Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+                Log::error() << "** Exception is ignored" << std::endl;
+            }
+            throw;
         }
-        ::closedir(d);
-#endif
     }
 
     file_.close();
@@ -79,6 +72,10 @@ long FileStream::read(void* buf, long length) {
     long n = fread(buf, 1, length, file_);
     ASSERT(n >= 0);
 
+    if (n != length && ::ferror(file_)) {
+        throw ReadError(name_);
+    }
+
     return n;
 }
 
diff --git a/src/eckit/serialisation/FileStream.h b/src/eckit/serialisation/FileStream.h
index 4ecbb0c..e504e4b 100644
--- a/src/eckit/serialisation/FileStream.h
+++ b/src/eckit/serialisation/FileStream.h
@@ -53,6 +53,11 @@ protected:  // methods
     std::string name() const override;
 
     void print(std::ostream& s) const override;
+
+private:  // methods
+
+    /// Make sure that what was written is on the medium
+    void sync();
 };
 
 }  // namespace eckit
-- 
2.43.0


From 8186a285e6a85952ded0d45b66afe5a6224c5af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 029/110] fix: a failing close does not end the program while
 another exception is on its way

---
 src/eckit/io/AutoCloser.h | 22 +++++++++++++++++++++-
 src/eckit/io/StdFile.cc   | 18 ++++++++++++++++++
 src/eckit/io/StdFile.h    |  7 ++++++-
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/AutoCloser.h b/src/eckit/io/AutoCloser.h
index 4e9d9e4..1afca2d 100644
--- a/src/eckit/io/AutoCloser.h
+++ b/src/eckit/io/AutoCloser.h
@@ -14,14 +14,19 @@
 #ifndef eckit_io_AutoCloser_h
 #define eckit_io_AutoCloser_h
 
+#include <exception>
 #include <utility>
 
+#include "eckit/exception/Exceptions.h"
+#include "eckit/log/Log.h"
+
 namespace eckit {
 
 template <typename T>
 class AutoCloser {
 
     T& obj_;
+    int exceptions_ = std::uncaught_exceptions();
 
 public:  // methods
 
@@ -33,7 +38,22 @@ public:  // methods
     /// ~AutoCloser() noexcept(noexcept(std::declval<T>().close()))
     /// \endcode
     /// but Intel compiler 17 on Cray XC40 has trouble with it
-    ~AutoCloser() noexcept(false) { obj_.close(); }
+    ~AutoCloser() noexcept(false) {
+        // An exception must not leave the destructor while another one is on its way
+        bool fail = std::uncaught_exceptions() <= exceptions_;
+
+        try {
+            obj_.close();
+        }
+        catch (std::exception& e) {
+            if (fail) {
+                throw;
+            }
+            Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+            Log::error() << "** An exception is already in progress" << std::endl;
+            Log::error() << "** Exception is ignored" << std::endl;
+        }
+    }
 };
 
 template <typename T>
diff --git a/src/eckit/io/StdFile.cc b/src/eckit/io/StdFile.cc
index 14a4d4a..5adb508 100644
--- a/src/eckit/io/StdFile.cc
+++ b/src/eckit/io/StdFile.cc
@@ -13,6 +13,7 @@
 #include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/PathName.h"
 #include "eckit/io/StdFile.h"
+#include "eckit/log/Log.h"
 
 namespace eckit {
 
@@ -38,4 +39,21 @@ void StdFile::close() noexcept(false) {
     }
 }
 
+AutoStdFile::~AutoStdFile() noexcept(false) {
+    // An exception must not leave the destructor while another one is on its way
+    bool fail = std::uncaught_exceptions() <= exceptions_;
+
+    try {
+        close();
+    }
+    catch (std::exception& e) {
+        if (fail) {
+            throw;
+        }
+        Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+        Log::error() << "** An exception is already in progress" << std::endl;
+        Log::error() << "** Exception is ignored" << std::endl;
+    }
+}
+
 }  // namespace eckit
diff --git a/src/eckit/io/StdFile.h b/src/eckit/io/StdFile.h
index 6ec179c..626f92c 100644
--- a/src/eckit/io/StdFile.h
+++ b/src/eckit/io/StdFile.h
@@ -16,6 +16,7 @@
 #define eckit_io_StdFile_h
 
 #include <cstdio>
+#include <exception>
 
 #include "eckit/filesystem/PathName.h"
 
@@ -63,7 +64,11 @@ class AutoStdFile : public StdFile {
 public:
 
     AutoStdFile(const PathName& name, const std::string& mode = "r") : StdFile(name, mode) {}
-    ~AutoStdFile() noexcept(false) { close(); }
+    ~AutoStdFile() noexcept(false);
+
+private:  // members
+
+    int exceptions_ = std::uncaught_exceptions();
 };
 
 
-- 
2.43.0


From 4e7ef0ce9a34d59454ee7133ff5c8c33c8f6a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 030/110] fix: FilePool wakes all its waiters, as they may wait
 for different files

---
 src/eckit/io/FilePool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/FilePool.cc b/src/eckit/io/FilePool.cc
index bcd689c..2129607 100644
--- a/src/eckit/io/FilePool.cc
+++ b/src/eckit/io/FilePool.cc
@@ -79,7 +79,7 @@ void FilePool::checkin(DataHandle* handle) {
         if (itr->second == handle) {
             cache_.insert(itr->first, itr->second);
             inUse_.erase(itr);
-            cond_.signal();
+            cond_.broadcast();  // those waiting may be waiting for different files
             return;
         }
     }
-- 
2.43.0


From a91d86cb3ac104de11f1000d84d8b7adb6cf5003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:16 +0000
Subject: [PATCH 031/110] fix: CacheLRU drops an entry also when its purge
 fails

---
 src/eckit/container/CacheLRU.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/eckit/container/CacheLRU.cc b/src/eckit/container/CacheLRU.cc
index c817b0d..c9c2c30 100644
--- a/src/eckit/container/CacheLRU.cc
+++ b/src/eckit/container/CacheLRU.cc
@@ -85,9 +85,10 @@ bool CacheLRU<K, V>::remove(const key_type& key) {
 
     typename map_type::iterator itr = map_.find(key);
     if (itr != map_.end()) {
-        existed = true;
-        purge(itr->second->key_, valueFrom(itr));
-        erase(itr);
+        existed          = true;
+        entry_type entry = *(itr->second);
+        erase(itr);  // first, as the purge may fail and would not be repeatable
+        purge(entry.key_, entry.value_);
     }
 
     return existed;
@@ -100,12 +101,12 @@ bool CacheLRU<K, V>::exists(const key_type& key) const {
 
 template <typename K, typename V>
 void CacheLRU<K, V>::clear() {
-    for (storage_iterator itr = storage_.begin(); itr != storage_.end(); ++itr) {
-        purge(itr->key_, itr->value_);
+    while (!storage_.empty()) {
+        entry_type entry = storage_.front();
+        map_.erase(entry.key_);  // first, as the purge may fail and would not be repeatable
+        storage_.pop_front();
+        purge(entry.key_, entry.value_);
     }
-
-    storage_.clear();
-    map_.clear();
 }
 
 template <typename K, typename V>
@@ -118,9 +119,9 @@ template <typename K, typename V>
 void CacheLRU<K, V>::trim() {
     while (map_.size() > capacity_) {
         entry_type entry = storage_.back();
-        purge(entry.key_, entry.value_);
-        map_.erase(entry.key_);
+        map_.erase(entry.key_);  // first, as the purge may fail and would not be repeatable
         storage_.pop_back();
+        purge(entry.key_, entry.value_);
     }
 }
 
-- 
2.43.0


From d24ea687a3805adff978beb032e96134a7d69272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 032/110] fix: FilePool gives a file back also when closing
 another one fails, and closes its files when destroyed

---
 src/eckit/io/FilePool.cc | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/eckit/io/FilePool.cc b/src/eckit/io/FilePool.cc
index 2129607..6f9c73b 100644
--- a/src/eckit/io/FilePool.cc
+++ b/src/eckit/io/FilePool.cc
@@ -13,9 +13,12 @@
 
 #include "eckit/io/FilePool.h"
 
+#include <memory>
+
 #include "eckit/config/Resource.h"
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/DataHandle.h"
+#include "eckit/log/Log.h"
 #include "eckit/thread/AutoLock.h"
 #include "eckit/thread/MutexCond.h"
 #include "eckit/types/Types.h"
@@ -25,10 +28,10 @@ namespace eckit {
 //----------------------------------------------------------------------------------------------------------------------
 
 static void closeDataHandle(PathName&, DataHandle*& handle) {
-    if (handle) {
-        handle->close();
-        delete handle;
-        handle = nullptr;
+    std::unique_ptr<DataHandle> h(handle);  // deleted also when it fails to close
+    handle = nullptr;
+    if (h) {
+        h->close();
     }
 }
 
@@ -40,7 +43,17 @@ static bool inUse(const std::map<PathName, DataHandle*>& store, const PathName&
 
 FilePool::FilePool(size_t size) : cache_(size, &closeDataHandle) {}
 
-FilePool::~FilePool() {}
+FilePool::~FilePool() {
+    while (cache_.size()) {
+        try {
+            cache_.clear();
+        }
+        catch (std::exception& e) {
+            Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+            Log::error() << "** Exception is ignored" << std::endl;
+        }
+    }
+}
 
 DataHandle* FilePool::checkout(const PathName& path) {
     AutoLock<MutexCond> lock(cond_);
@@ -60,8 +73,9 @@ DataHandle* FilePool::checkout(const PathName& path) {
         if (inCache) {
             cache_.remove(path);
         }
-        dh = path.fileHandle(false);  // append mode (no overwrite)
-        dh->openForAppend(0);
+        std::unique_ptr<DataHandle> h(path.fileHandle(false));  // append mode (no overwrite)
+        h->openForAppend(0);
+        dh = h.release();
     }
 
     ASSERT(dh);
@@ -77,9 +91,10 @@ void FilePool::checkin(DataHandle* handle) {
     using iterator_type = std::map<PathName, DataHandle*>::iterator;
     for (iterator_type itr = inUse_.begin(); itr != inUse_.end(); ++itr) {
         if (itr->second == handle) {
-            cache_.insert(itr->first, itr->second);
+            const PathName path = itr->first;
             inUse_.erase(itr);
             cond_.broadcast();  // those waiting may be waiting for different files
+            cache_.insert(path, handle);  // last, as it closes other files, which may fail
             return;
         }
     }
-- 
2.43.0


From dd043575634c0859e39352ec920c12739792d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:29 +0000
Subject: [PATCH 033/110] fix: FileHandle closes its file also when it cannot
 be synchronised

---
 src/eckit/io/FileHandle.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/eckit/io/FileHandle.cc b/src/eckit/io/FileHandle.cc
index e6367c7..6f7af73 100644
--- a/src/eckit/io/FileHandle.cc
+++ b/src/eckit/io/FileHandle.cc
@@ -182,10 +182,17 @@ void FileHandle::close() {
         // data being physicaly on disk. If there is a power failure, we lose some data.
         // So we need to fsync
 
-        flush();
-
         FILE* file = file_;
-        file_      = nullptr;  // not to be used any more, even if fclose fails
+        try {
+            flush();
+        }
+        catch (...) {
+            file_ = nullptr;
+            ::fclose(file);
+            throw;
+        }
+
+        file_ = nullptr;  // not to be used any more, even if fclose fails
         if (::fclose(file) != 0) {
             throw WriteError(std::string("fclose ") + name());
         }
-- 
2.43.0


From 27720b1166f7e5ab4280315a96999e584033e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:42 +0000
Subject: [PATCH 034/110] fix: syncParentDirectory closes the directory when it
 cannot be synchronised, and names it

---
 src/eckit/filesystem/LocalPathName.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 78a80f1..5602549 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -954,8 +954,12 @@ void LocalPathName::syncParentDirectory() const {
     }
 
     if (ret < 0) {
+        const int save = errno;
+        ::closedir(d);
+        errno = save;
+
         std::ostringstream oss;
-        Log::error() << "Cannot fsync directory [" << directory << "]";
+        oss << "Cannot fsync directory [" << directory << "]";
         throw FailedSystemCall(oss.str());
     }
 
-- 
2.43.0


From 05f7f0fe80926c0c1cf5592437d2304187daa9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:26 +0000
Subject: [PATCH 035/110] fix: readers in several threads can share a
 PooledFile

---
 src/eckit/io/PooledFile.cc | 54 +++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/eckit/io/PooledFile.cc b/src/eckit/io/PooledFile.cc
index 3b55814..9831a97 100644
--- a/src/eckit/io/PooledFile.cc
+++ b/src/eckit/io/PooledFile.cc
@@ -45,8 +45,8 @@ public:
         static Pool pool;
         return pool;
     }
-    eckit::PoolFileEntry* get(const eckit::PathName& name);
-    void erase(const eckit::PathName& name);
+    eckit::PoolFileEntry* add(const eckit::PathName& name, const eckit::PooledFile* file);
+    void remove(const eckit::PathName& name, const eckit::PooledFile* file);
 };
 
 }  // namespace
@@ -72,6 +72,8 @@ public:
 
     std::map<const PooledFile*, PoolFileEntryStatus> statuses_;
 
+    mutable std::mutex mutex_;  // the file and its position are shared by all the users of the file
+
     size_t nbOpens_ = 0;
     size_t nbReads_ = 0;
     size_t nbSeeks_ = 0;
@@ -92,23 +94,25 @@ public:
     }
 
     void add(const PooledFile* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
         ASSERT(statuses_.find(file) == statuses_.end());
         statuses_[file] = PoolFileEntryStatus();
     }
 
-    void remove(const PooledFile* file) {
+    /// @returns true if there is no user left
+    bool remove(const PooledFile* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
+
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
 
         statuses_.erase(s);
-        if (statuses_.size() == 0) {
-            doClose();
-            Pool::instance().erase(name_);
-            // No code after !!!
-        }
+        return statuses_.empty();
     }
 
     void open(const PooledFile* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
+
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
         ASSERT(!s->second.opened_);
@@ -138,6 +142,8 @@ public:
     }
 
     void close(const PooledFile* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
+
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
 
@@ -146,6 +152,8 @@ public:
     }
 
     int fileno(const PooledFile* file) const {
+        std::lock_guard<std::mutex> lock(mutex_);
+
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
         ASSERT(s->second.opened_);
@@ -153,6 +161,8 @@ public:
     }
 
     long read(const PooledFile* file, void* buffer, long len) {
+        std::lock_guard<std::mutex> lock(mutex_);
+
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
         ASSERT(s->second.opened_);
@@ -179,6 +189,8 @@ public:
     }
 
     long seek(const PooledFile* file, off_t position) {
+        std::lock_guard<std::mutex> lock(mutex_);
+
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
         ASSERT(s->second.opened_);
@@ -199,6 +211,8 @@ public:
     }
 
     long seekEnd(const PooledFile* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
+
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
         ASSERT(s->second.opened_);
@@ -218,14 +232,11 @@ public:
 };
 
 
-PooledFile::PooledFile(const PathName& name) : name_(name), entry_(Pool::instance().get(name)) {
-
-    entry_->add(this);
-}
+PooledFile::PooledFile(const PathName& name) : name_(name), entry_(Pool::instance().add(name, this)) {}
 
 PooledFile::~PooledFile() {
     ASSERT(entry_);
-    entry_->remove(this);
+    Pool::instance().remove(name_, this);
 }
 
 void PooledFile::open() {
@@ -284,18 +295,25 @@ PooledFileError::PooledFileError(const std::string& file, const std::string& msg
 
 namespace {
 
-eckit::PoolFileEntry* Pool::get(const eckit::PathName& name) {
+eckit::PoolFileEntry* Pool::add(const eckit::PathName& name, const eckit::PooledFile* file) {
     std::lock_guard<std::mutex> lock(filePoolMutex_);
     auto j = filePool_.find(name);
     if (j == filePool_.end()) {
-        filePool_.emplace(name, new eckit::PoolFileEntry(name));
-        j = filePool_.find(name);
+        j = filePool_.emplace(name, new eckit::PoolFileEntry(name)).first;
     }
+    (*j).second->add(file);
     return (*j).second.get();
 }
-void Pool::erase(const eckit::PathName& name) {
+void Pool::remove(const eckit::PathName& name, const eckit::PooledFile* file) {
     std::lock_guard<std::mutex> lock(filePoolMutex_);
-    filePool_.erase(name);
+    auto j = filePool_.find(name);
+    ASSERT(j != filePool_.end());
+    if ((*j).second->remove(file)) {
+        // taken out first, not to be found again if it fails to close
+        std::unique_ptr<eckit::PoolFileEntry> entry(std::move((*j).second));
+        filePool_.erase(j);
+        entry->doClose();
+    }
 }
 
 }  // namespace
-- 
2.43.0


From d397835f146576f2606ba323abdecc328af2de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:11 +0000
Subject: [PATCH 036/110] fix: FileLock and Download do not lock a file that
 its previous holder has removed

---
 src/eckit/geo/cache/Download.cc |  2 +-
 src/eckit/io/FileLock.cc        | 37 +++++++++++++++++++++++++++++----
 src/eckit/io/FileLock.h         |  3 +++
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/eckit/geo/cache/Download.cc b/src/eckit/geo/cache/Download.cc
index cfd8acb..4c4fadb 100644
--- a/src/eckit/geo/cache/Download.cc
+++ b/src/eckit/geo/cache/Download.cc
@@ -61,8 +61,8 @@ class file_lock_type {
         void lock() { lock_.lock(); }
 
         void unlock() {
+            lock_path_.unlink(false);  // while it is held: those waiting for it will notice
             lock_.unlock();
-            lock_path_.unlink(false);
         }
 
         PathName lock_path_;
diff --git a/src/eckit/io/FileLock.cc b/src/eckit/io/FileLock.cc
index 663b6c8..9c8f01d 100644
--- a/src/eckit/io/FileLock.cc
+++ b/src/eckit/io/FileLock.cc
@@ -16,6 +16,7 @@
 #include "eckit/exception/Exceptions.h"
 #include "eckit/log/Log.h"
 #include "eckit/os/AutoUmask.h"
+#include "eckit/os/Stat.h"
 
 namespace eckit {
 
@@ -31,24 +32,52 @@ static int openLock(const PathName& lockFile) {
 
 
 FileLock::FileLock(const PathName& lockFile, bool unlink_at_destruction) :
-    lockFile_(unlink_at_destruction ? lockFile : ""), fd_(openLock(lockFile)), locker_(fd_) {}
+    lockFile_(lockFile), unlink_(unlink_at_destruction), fd_(openLock(lockFile)), locker_(fd_) {}
 
 
 FileLock::~FileLock() {
-    ::close(fd_);
-    if (!lockFile_.asString().empty()) {
+    if (unlink_) {
+        // Only the holder may remove the file: others may hold it, or be waiting for it
+        struct flock lock = {};
+        lock.l_type       = F_WRLCK;
+        lock.l_whence     = SEEK_SET;
+
         try {
-            lockFile_.unlink(false);
+            if (::fcntl(fd_, F_SETLK, &lock) == 0 && current()) {
+                lockFile_.unlink(false);
+            }
         }
         catch (const FailedSystemCall& e) {
             Log::warning() << "Failed to unlink lock file " << lockFile_ << " -- " << e.what() << std::endl;
         }
     }
+    ::close(fd_);
+}
+
+
+/// The file that is locked may have been removed by its previous holder
+bool FileLock::current() const {
+    Stat::Struct opened;
+    SYSCALL(Stat::fstat(fd_, &opened));
+
+    Stat::Struct named;
+    if (Stat::stat(lockFile_.localPath(), &named) < 0) {
+        return false;
+    }
+
+    return opened.st_dev == named.st_dev && opened.st_ino == named.st_ino;
 }
 
 
 void FileLock::lock() {
     locker_.lockExclusive();
+
+    while (!current()) {
+        int fd = openLock(lockFile_);
+        SYSCALL(::dup2(fd, fd_));
+        ::close(fd);
+        locker_.lockExclusive();
+    }
 }
 
 
diff --git a/src/eckit/io/FileLock.h b/src/eckit/io/FileLock.h
index cf75bbc..00450e3 100644
--- a/src/eckit/io/FileLock.h
+++ b/src/eckit/io/FileLock.h
@@ -43,7 +43,10 @@ public:
 
 private:
 
+    bool current() const;
+
     const PathName lockFile_;
+    const bool unlink_;
     int fd_;
     FileLocker locker_;
 };
-- 
2.43.0


From 4f2490cbfade6e7c78d2ec58f57ee909c2fbe6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 037/110] fix: shared arrays survive a crash while they are
 initialised, and keep their elements when they grow

---
 src/eckit/container/MappedArray.cc    | 31 +++++++++++++++++----------
 src/eckit/container/MappedArray.h     |  1 +
 src/eckit/container/SharedMemArray.cc |  8 +++----
 src/eckit/container/SharedMemArray.h  |  1 +
 4 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/eckit/container/MappedArray.cc b/src/eckit/container/MappedArray.cc
index 9c3ad95..46221e6 100644
--- a/src/eckit/container/MappedArray.cc
+++ b/src/eckit/container/MappedArray.cc
@@ -15,6 +15,7 @@
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <unistd.h>
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 
@@ -44,21 +45,12 @@ MappedArray<T>::MappedArray(const PathName& path, unsigned long size) : sem_(pat
     Stat::Struct s;
     SYSCALL(Stat::stat(path.localPath(), &s));
 
-    bool initHeader = s.st_size < static_cast<long int>(sizeof(PaddedHeader));
-
     off_t length = size_ * sizeof(T) + sizeof(PaddedHeader);
 
-    // Resize if needed
+    // Resize if needed, keeping the elements that are there
 
-    if (s.st_size != length) {
+    if (s.st_size < length) {
         SYSCALL(::ftruncate(fd_, length));
-        char buf1[sizeof(PaddedHeader)];
-        ::memset(buf1, 0, sizeof(buf1));
-        char buf2[sizeof(T)];
-        ::memset(buf2, 0, sizeof(buf2));
-        SYSCALL(write(fd_, buf1, sizeof(buf1)));
-        for (size_t i = 0; i < size_; i++)
-            SYSCALL(write(fd_, buf2, sizeof(buf2)));
     }
 
     map_ = MMap::mmap(0, length, PROT_READ | PROT_WRITE, MAP_SHARED, fd_, 0);
@@ -68,6 +60,23 @@ MappedArray<T>::MappedArray(const PathName& path, unsigned long size) : sem_(pat
         throw FailedSystemCall("mmap", Here());
     }
 
+    // The header is written last, so a file without one was not completely initialised
+
+    bool initHeader = !((PaddedHeader*)map_)->complete();
+
+    // Make sure that there is space for all the elements
+
+    off_t pos = initHeader ? 0 : off_t(s.st_size);
+    while (pos < length) {
+        static const char zeros[sizeof(PaddedHeader)] = {};
+        ssize_t written = ::pwrite(fd_, zeros, std::min<size_t>(sizeof(zeros), length - pos), pos);
+        if (written < 0 && errno == EINTR) {
+            continue;
+        }
+        SYSCALL(written);
+        pos += written;
+    }
+
     // If first time in, init header
 
     if (initHeader)
diff --git a/src/eckit/container/MappedArray.h b/src/eckit/container/MappedArray.h
index c53b266..54f9828 100644
--- a/src/eckit/container/MappedArray.h
+++ b/src/eckit/container/MappedArray.h
@@ -79,6 +79,7 @@ private:  // members
         uint32_t headerSize_;
         uint32_t elemSize_;
         Header() : version_(mapped_array_version()), headerSize_(sizeof(Header)), elemSize_(sizeof(T)) {}
+        bool complete() const { return version_ && headerSize_ && elemSize_; }
         void validate() {
             ASSERT(version_ == mapped_array_version());
             ASSERT(headerSize_ == sizeof(Header));
diff --git a/src/eckit/container/SharedMemArray.cc b/src/eckit/container/SharedMemArray.cc
index 3f46d1f..f552652 100644
--- a/src/eckit/container/SharedMemArray.cc
+++ b/src/eckit/container/SharedMemArray.cc
@@ -47,10 +47,8 @@ SharedMemArray<T>::SharedMemArray(const PathName& path, const std::string& shmNa
 
     // Resize if needed
 
-    bool zero = false;
     if (length > s.st_size) {
-        SYSCALL(::ftruncate(fd_, length));
-        zero = true;
+        SYSCALL(::ftruncate(fd_, length));  // fills with zeros, and keeps the elements that are there
     }
 
     map_ = MMap::mmap(0, length, PROT_READ | PROT_WRITE, MAP_SHARED, fd_, 0);
@@ -60,7 +58,9 @@ SharedMemArray<T>::SharedMemArray(const PathName& path, const std::string& shmNa
         throw FailedSystemCall("mmap", Here());
     }
 
-    if (zero) {
+    // The header is written last, so an array without one was not completely initialised
+
+    if (!((PaddedHeader*)map_)->complete()) {
         ::memset(map_, 0, sizeof(PaddedHeader) + size_ * sizeof(T));
         new (map_) PaddedHeader();
     }
diff --git a/src/eckit/container/SharedMemArray.h b/src/eckit/container/SharedMemArray.h
index 33303bf..54ee084 100644
--- a/src/eckit/container/SharedMemArray.h
+++ b/src/eckit/container/SharedMemArray.h
@@ -82,6 +82,7 @@ private:  // members
         uint32_t headerSize_;
         uint32_t elemSize_;
         Header() : version_(shared_mem_array_version()), headerSize_(sizeof(Header)), elemSize_(sizeof(T)) {}
+        bool complete() const { return version_ && headerSize_ && elemSize_; }
         void validate() {
             ASSERT(version_ == shared_mem_array_version());
             ASSERT(headerSize_ == sizeof(Header));
-- 
2.43.0


From a1839a9bde208b3380aa91d6aa8a29639809ca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:04 +0000
Subject: [PATCH 038/110] fix: TxnLog recovers after a crash in an update, and
 while transactions end

---
 src/eckit/transaction/TxnLog.cc | 50 +++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/eckit/transaction/TxnLog.cc b/src/eckit/transaction/TxnLog.cc
index 87e3a89..84fa9d2 100644
--- a/src/eckit/transaction/TxnLog.cc
+++ b/src/eckit/transaction/TxnLog.cc
@@ -90,6 +90,17 @@ public:
 
 //----------------------------------------------------------------------------------------------------------------------
 
+/// Files of active transactions are named by their number, updates that were interrupted leave other files behind
+inline void matchTxnFiles(const PathName& path, std::vector<PathName>& result) {
+    std::vector<PathName> found;
+    PathName::match(path + "/[0-9]*", found);
+    for (const PathName& p : found) {
+        if (std::string(p.baseName()).find_first_not_of("0123456789") == std::string::npos) {
+            result.push_back(p);
+        }
+    }
+}
+
 template <class T>
 PathName TxnLog<T>::buildPath(const std::string& name) {
     PathName path = std::string("~/txn/") + name;
@@ -211,7 +222,7 @@ template <class T>
 RecoverThread<T>::RecoverThread(const PathName& path, TxnArray& nextID, TxnRecoverer<T>& client, long age) :
     nextID_(nextID), client_(client), age_(age), now_(::time(nullptr)) {
     AutoLock<TxnArray> lock(nextID_);
-    PathName::match(path + "/[0-9]*", result_);
+    matchTxnFiles(path, result_);
 
     // Sort by ID to preserve order
     std::sort(result_.begin(), result_.end());
@@ -236,23 +247,27 @@ template <class T>
 void RecoverThread<T>::recover() {
     for (Ordinal i = 0; i < result_.size(); i++) {
 
-        if (now_ - result_[i].created() < age_)
-            Log::info() << "Skipping " << result_[i] << ", created " << Seconds(now_ - result_[i].created()) << " ago."
-                        << std::endl;
-        else
-            try {
-                FileStream log(result_[i], "r");
-                auto c  = closer(log);
-                T* task = Reanimator<T>::reanimate(log);
-                if (task) {
-                    ASSERT(task->transactionID() < nextID_[0]);
-                    client_.push(task);
-                }
+        try {
+            // n.b. the transaction may have been ended since
+
+            if (now_ - result_[i].created() < age_) {
+                Log::info() << "Skipping " << result_[i] << ", created " << Seconds(now_ - result_[i].created())
+                            << " ago." << std::endl;
+                continue;
             }
-            catch (std::exception& e) {
-                Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
-                Log::error() << "** Exception is ignored" << std::endl;
+
+            FileStream log(result_[i], "r");
+            auto c  = closer(log);
+            T* task = Reanimator<T>::reanimate(log);
+            if (task) {
+                ASSERT(task->transactionID() < nextID_[0]);
+                client_.push(task);
             }
+        }
+        catch (std::exception& e) {
+            Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+            Log::error() << "** Exception is ignored" << std::endl;
+        }
     }
 }
 
@@ -275,10 +290,9 @@ void TxnLog<T>::find(TxnFinder<T>& r) {
 
     if (r.active()) {
 
-        PathName path = path_ + "/[0-9]*";
         std::vector<PathName> active;
 
-        PathName::match(path, active);
+        matchTxnFiles(path_, active);
 
         LOG_DEBUG_LIB(LibEcKit) << "TxnLog found active: " << active << std::endl;
 
-- 
2.43.0


From 74647380f4b9f204a73af454077bc844c74f210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 039/110] fix: BTree::range continues in the next page when all
 keys of the first one are lower

---
 src/eckit/container/BTree.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eckit/container/BTree.cc b/src/eckit/container/BTree.cc
index 33de294..d989e70 100644
--- a/src/eckit/container/BTree.cc
+++ b/src/eckit/container/BTree.cc
@@ -477,8 +477,16 @@ void BTree<K, V, S, L>::search(unsigned long page, const K& key1, const K& key2,
 
     const LeafEntry* e = std::lower_bound(begin, end, key1);
 
-    if (e == end)
-        return;
+    // All the keys of this page may be lower than key1
+    while (e == end) {
+        if (!p.right_) {
+            return;
+        }
+        loadPage(p.right_, p);
+        ASSERT(!p.node_);
+        e   = p.leafPage().lentries_;
+        end = e + p.count_;
+    }
 
     // while((*e).key_ < key1) { e++; if (e == end) return; }
 
-- 
2.43.0


From f53f3c4fd07507f63ef8c86df6a042aec0b7668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 040/110] fix: BTree does not end the program when it cannot be
 flushed while destroyed

---
 src/eckit/container/BTree.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eckit/container/BTree.cc b/src/eckit/container/BTree.cc
index d989e70..412834c 100644
--- a/src/eckit/container/BTree.cc
+++ b/src/eckit/container/BTree.cc
@@ -105,8 +105,15 @@ void BTree<K, V, S, L>::preload() {
 template <class K, class V, int S, class L>
 BTree<K, V, S, L>::~BTree() {
     if (file_.fileno() >= 0) {
-        flush();
-        file_.close();
+        // n.b. call flush() to know if it fails
+        try {
+            flush();
+            file_.close();
+        }
+        catch (std::exception& e) {
+            Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+            Log::error() << "** Exception is ignored" << std::endl;
+        }
     }
 
     for (typename Cache::iterator j = cache_.begin(); j != cache_.end(); ++j)
-- 
2.43.0


From 563c0d7a73c5d6d32d304396ac4051d8bddd9fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 041/110] fix: BTree::flock locks for modification when it can
 modify

---
 src/eckit/container/BTree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/container/BTree.cc b/src/eckit/container/BTree.cc
index 412834c..cb4b013 100644
--- a/src/eckit/container/BTree.cc
+++ b/src/eckit/container/BTree.cc
@@ -688,7 +688,7 @@ void BTree<K, V, S, L>::unlock() {
 template <class K, class V, int S, class L>
 void BTree<K, V, S, L>::flock() {
 
-    if (::flock(file_.fileno(), readOnly_ ? LOCK_EX : LOCK_SH) < 0) {
+    if (::flock(file_.fileno(), readOnly_ ? LOCK_SH : LOCK_EX) < 0) {
         bool skip = false;
 #ifdef ENOTSUP
         if (errno == ENOTSUP) {
-- 
2.43.0


From d5d34c18d0e8aa589d7bc1dd7c9ed5d4b9984070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:24 +0000
Subject: [PATCH 042/110] fix: a BTree with a locking policy shows and sees
 what others did, between locks

---
 src/eckit/container/BTree.cc | 33 ++++++++++++++++++++++++++++++---
 src/eckit/container/BTree.h  |  7 +++++++
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/eckit/container/BTree.cc b/src/eckit/container/BTree.cc
index cb4b013..9fb9a09 100644
--- a/src/eckit/container/BTree.cc
+++ b/src/eckit/container/BTree.cc
@@ -165,7 +165,11 @@ bool BTree<K, V, S, L>::set(const K& key, const V& value) {
     AutoLock<BTree<K, V, S, L> > lock(this);
     // std::cout << "Set " << key << " -> " << value << std::endl;
     std::vector<unsigned long> path;
-    return insert(1, key, value, path);
+    bool replaced = insert(1, key, value, path);
+    if (shared_) {
+        flush();  // others may be given the lock next
+    }
+    return replaced;
 }
 
 
@@ -648,16 +652,20 @@ size_t BTree<K, V, S, L>::count() const {
 template <class K, class V, int S, class L>
 size_t BTree<K, V, S, L>::count(unsigned long page) const {
     AutoSharedLock<BTree<K, V, S, L> > lock(const_cast<BTree*>(this));
+    return _count(page);
+}
 
+template <class K, class V, int S, class L>
+size_t BTree<K, V, S, L>::_count(unsigned long page) const {
     Page p;
     loadPage(page, p);
 
     size_t c = 0;
 
     if (p.node_) {
-        c += this->count(p.left_);
+        c += _count(p.left_);
         for (unsigned long i = 0; i < p.count_; i++)
-            c += count(p.nodePage().nentries_[i].page_);
+            c += _count(p.nodePage().nentries_[i].page_);
     }
     else  // leaf
     {
@@ -671,12 +679,31 @@ size_t BTree<K, V, S, L>::count(unsigned long page) const {
 template <class K, class V, int S, class L>
 void BTree<K, V, S, L>::lockShared() {
     L::lockRange(file_.fileno(), 0, 0, F_SETLKW, F_RDLCK);
+    forget();
 }
 
 
 template <class K, class V, int S, class L>
 void BTree<K, V, S, L>::lock() {
     L::lockRange(file_.fileno(), 0, 0, F_SETLKW, readOnly_ ? F_RDLCK : F_WRLCK);
+    forget();
+}
+
+/// Forgets the pages that may have been changed by others while the tree was not locked
+template <class K, class V, int S, class L>
+void BTree<K, V, S, L>::forget() {
+    if (!shared_) {
+        return;
+    }
+    for (typename Cache::iterator j = cache_.begin(); j != cache_.end();) {
+        if ((*j).second.dirty_) {
+            ++j;
+        }
+        else {
+            delete (*j).second.page_;
+            j = cache_.erase(j);
+        }
+    }
 }
 
 
diff --git a/src/eckit/container/BTree.h b/src/eckit/container/BTree.h
index 50141b0..e4a5291 100644
--- a/src/eckit/container/BTree.h
+++ b/src/eckit/container/BTree.h
@@ -17,6 +17,7 @@
 #include <fcntl.h>
 #include <sys/stat.h>
 #include <cstring>
+#include <type_traits>
 
 #include "eckit/container/BTree.h"
 #include "eckit/exception/Exceptions.h"
@@ -249,6 +250,12 @@ private:
     using Cache = std::map<unsigned long, _PageInfo>;
     Cache cache_;
 
+    /// With a locking policy the tree is shared with other processes, between one lock and the next
+    static constexpr bool shared_ = !std::is_same<L, BTreeNoLock>::value;
+
+    void forget();
+    size_t _count(unsigned long page) const;
+
     void lockRange(off_t start, off_t len, int cmd, int type);
     bool search(unsigned long page, const K&, V&) const;
 
-- 
2.43.0


From 4c30b49693f374d24cfb04bbbb4a1b966b653e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:05 +0000
Subject: [PATCH 043/110] fix: PooledFileDescriptor does not close its
 descriptor twice when closing fails

---
 src/eckit/io/PooledFileDescriptor.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/eckit/io/PooledFileDescriptor.cc b/src/eckit/io/PooledFileDescriptor.cc
index dd7d986..f370281 100644
--- a/src/eckit/io/PooledFileDescriptor.cc
+++ b/src/eckit/io/PooledFileDescriptor.cc
@@ -14,6 +14,7 @@
 
 #include "eckit/io/FDataSync.h"
 #include "eckit/io/PooledFileDescriptor.h"
+#include "eckit/log/Log.h"
 
 namespace eckit {
 
@@ -21,7 +22,14 @@ PooledFileDescriptor::PooledFileDescriptor(const PathName& path, bool readOnly)
     path_(path), fd_(-1), readOnly_(readOnly) {}
 
 PooledFileDescriptor::~PooledFileDescriptor() {
-    close();
+    // n.b. call close() to know if it fails
+    try {
+        close();
+    }
+    catch (std::exception& e) {
+        Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+        Log::error() << "** Exception is ignored" << std::endl;
+    }
 }
 
 void PooledFileDescriptor::open() {
@@ -40,15 +48,17 @@ void PooledFileDescriptor::close() {
         return;
     }
 
+    int fd = fd_;
+    fd_    = -1;
+
     if (readOnly_) {
         ASSERT(file_);
         file_->close();
         file_.reset();
     }
     else {
-        SYSCALL(::close(fd_));
+        SYSCALL(::close(fd));
     }
-    fd_ = -1;
 }
 
 ssize_t PooledFileDescriptor::read(void* buf, size_t nbyte) {
-- 
2.43.0


From d44167bf0831ff1d505236c57f85adfecb1ea482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:26 +0000
Subject: [PATCH 044/110] fix: CacheManager counts its first and re-created
 entries, and discards the least recently used first

---
 src/eckit/container/CacheManager.cc | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/eckit/container/CacheManager.cc b/src/eckit/container/CacheManager.cc
index 1d35539..4c972da 100644
--- a/src/eckit/container/CacheManager.cc
+++ b/src/eckit/container/CacheManager.cc
@@ -37,11 +37,7 @@ std::string CacheManagerBase::loader() const {
 template <class T>
 static bool compare(const T& a, const T& b) {
 
-    if (a.second.last_ == 0) {
-        return false;
-    }
-
-    return a.second.last_ < b.second.last_;
+    return a.second.last_ < b.second.last_;  // cleared entries come first
 }
 
 static bool sub_path_of(const PathName& base, const PathName& path) {
@@ -91,16 +87,15 @@ void CacheManagerBase::rescanCache(const PathName& base) const {
         cache_key_t total_key(".total");
         cache_entry_t total_entry = {0, 0, 0};
 
-        if (!btree.get(key, entry)) {
+        if (!btree.get(key, entry) || entry.last_ == 0) {  // unknown, or cleared
             entry.size_  = size_t(file.size());
             entry.count_ = 1;
             entry.last_  = ::time(nullptr);
             btree.set(key, entry);
 
-            if (btree.get(total_key, total_entry)) {
-                total_entry.size_ += entry.size_;
-                total_entry.count_++;
-            }
+            btree.get(total_key, total_entry);
+            total_entry.size_ += entry.size_;
+            total_entry.count_++;
             btree.set(total_key, total_entry);
         }
     }
@@ -141,7 +136,7 @@ void CacheManagerBase::touch(const PathName& base, const PathName& path) const {
         cache_key_t key(md5.digest());
         cache_entry_t entry = {0, 0, 0};
 
-        if (!btree.get(key, entry)) {  // entry not in cache-manager.btree
+        if (!btree.get(key, entry) || entry.last_ == 0) {  // entry not in cache-manager.btree, or cleared
 
             FileLock lock(mapping);
             AutoLock<FileLock> locker(lock);
@@ -156,10 +151,9 @@ void CacheManagerBase::touch(const PathName& base, const PathName& path) const {
 
             entry.size_ = size_t(path.size());
 
-            if (btree.get(total_key, total_entry)) {
-                total_entry.size_ += entry.size_;
-                total_entry.count_++;
-            }
+            btree.get(total_key, total_entry);
+            total_entry.size_ += entry.size_;
+            total_entry.count_++;
             btree.set(total_key, total_entry);
 
             {
-- 
2.43.0


From 933420ccca9121c3db0bc70fd20085d5879fac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:38 +0000
Subject: [PATCH 045/110] fix: a codec session does not take a stream for an
 earlier one

---
 src/eckit/codec/Session.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/eckit/codec/Session.cc b/src/eckit/codec/Session.cc
index a31f6f4..fd118a2 100644
--- a/src/eckit/codec/Session.cc
+++ b/src/eckit/codec/Session.cc
@@ -17,7 +17,6 @@
 #include <map>
 #include <memory>
 #include <mutex>
-#include <sstream>
 
 #include "eckit/codec/Exceptions.h"
 #include "eckit/filesystem/PathName.h"
@@ -167,10 +166,9 @@ Record Session::record(const std::string& path, size_t offset) {
 
 //---------------------------------------------------------------------------------------------------------------------
 
-Record Session::record(Stream stream, size_t offset) {
-    std::stringstream id;
-    id << &stream.datahandle();
-    return ActiveSession::instance().record(id.str(), offset);
+Record Session::record(Stream, size_t) {
+    // Nothing identifies a stream for the duration of a session: its handle may be released or hold something else
+    return {};
 }
 
 //---------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From e56485ea9aab06d388c0c5835ea2d6d82a543dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:14 +0000
Subject: [PATCH 046/110] fix: a codec record that fails to parse, or that
 another thread is parsing, is not taken for a parsed one

---
 src/eckit/codec/Record.cc             | 19 ++++++++++++++-----
 src/eckit/codec/detail/ParsedRecord.h |  2 ++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/eckit/codec/Record.cc b/src/eckit/codec/Record.cc
index 2ba182d..4fb5dfd 100644
--- a/src/eckit/codec/Record.cc
+++ b/src/eckit/codec/Record.cc
@@ -68,6 +68,7 @@ Record::Record() : record_(new ParsedRecord()) {}
 //---------------------------------------------------------------------------------------------------------------------
 
 bool Record::empty() const {
+    std::lock_guard<std::mutex> lock(record_->mutex);
     return record_->head.record_length == 0;
 }
 
@@ -139,11 +140,14 @@ static void parse_record(ParsedRecord& record, const std::string& key, const Met
 //---------------------------------------------------------------------------------------------------------------------
 
 Record& Record::read(Stream& in, bool read_to_end) {
-    if (not empty()) {
+    std::lock_guard<std::mutex> lock(record_->mutex);
+    if (record_->head.record_length != 0) {
         return *this;
     }
 
-    auto& r = record_->head;
+    ParsedRecord parsed;  // not shared with others before it is complete and valid
+
+    auto& r = parsed.head;
 
     auto rbegin = in.position();
 
@@ -213,7 +217,7 @@ Record& Record::read(Stream& in, bool read_to_end) {
     Metadata metadata = YAMLConfiguration(metadata_str);
 
     for (auto& key : metadata.keys()) {
-        parse_record(*record_, key, metadata.getSubConfiguration(key));
+        parse_record(parsed, key, metadata.getSubConfiguration(key));
     }
 
 
@@ -228,7 +232,7 @@ Record& Record::read(Stream& in, bool read_to_end) {
     const auto index_length = (static_cast<size_t>(r.index_length) - sizeof(RecordDataIndexSection::Begin) -
                                sizeof(RecordDataIndexSection::End));
     const auto index_size   = index_length / sizeof(RecordDataIndexSection::Entry);
-    auto& data_sections     = record_->data_sections;
+    auto& data_sections     = parsed.data_sections;
     data_sections.resize(index_size);
     if (in.read(data_sections.data(), index_length) != index_length) {
         throw InvalidRecord("Unexpected EOF reached");
@@ -244,7 +248,7 @@ Record& Record::read(Stream& in, bool read_to_end) {
         }
     }
 
-    record_->parse();
+    parsed.parse();
 
     if (read_to_end) {
         in.seek(rbegin + r.record_length - sizeof(RecordEnd));
@@ -258,6 +262,11 @@ Record& Record::read(Stream& in, bool read_to_end) {
         }
     }
 
+    record_->keys          = std::move(parsed.keys);
+    record_->items         = std::move(parsed.items);
+    record_->data_sections = std::move(parsed.data_sections);
+    record_->head          = parsed.head;
+
     return *this;
 }
 
diff --git a/src/eckit/codec/detail/ParsedRecord.h b/src/eckit/codec/detail/ParsedRecord.h
index 47b6724..f8721cf 100644
--- a/src/eckit/codec/detail/ParsedRecord.h
+++ b/src/eckit/codec/detail/ParsedRecord.h
@@ -13,6 +13,7 @@
 #pragma once
 
 #include <map>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -28,6 +29,7 @@ namespace eckit::codec {
 class ParsedRecord {
 public:
 
+    mutable std::mutex mutex;                                  ///< Protects a record shared within a session
     RecordHead head;                                           ///< head section of parsed record
     std::vector<std::string> keys;                             ///< Keys of items encoded in parsed record
     std::map<std::string, Metadata> items;                     ///< Items encoded in parsed record
-- 
2.43.0


From 724fe92e6db798307c59bc8d082f6ad6e7ef5d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:56 +0000
Subject: [PATCH 047/110] fix: failing to close a written record is reported
 instead of ending the program

---
 src/eckit/codec/FileStream.cc   | 14 ++++++++++++--
 src/eckit/codec/RecordWriter.cc |  5 ++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/eckit/codec/FileStream.cc b/src/eckit/codec/FileStream.cc
index b87e2b8..ab7f224 100644
--- a/src/eckit/codec/FileStream.cc
+++ b/src/eckit/codec/FileStream.cc
@@ -15,6 +15,7 @@
 #include "eckit/codec/Session.h"
 #include "eckit/io/FileHandle.h"
 #include "eckit/io/PooledHandle.h"
+#include "eckit/log/Log.h"
 
 namespace eckit::codec {
 
@@ -47,8 +48,8 @@ public:
 
     void close() override {
         if (not closed_) {
-            eckit::FileHandle::close();
             closed_ = true;
+            eckit::FileHandle::close();
         }
     }
 
@@ -62,7 +63,16 @@ public:
     FileHandle(const FileHandle&) = delete;
     FileHandle(FileHandle&&)      = delete;
 
-    ~FileHandle() override { close(); }
+    ~FileHandle() override {
+        // n.b. call close() to know if it fails
+        try {
+            close();
+        }
+        catch (std::exception& e) {
+            Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+            Log::error() << "** Exception is ignored" << std::endl;
+        }
+    }
 
     void operator=(const FileHandle&) = delete;
     void operator=(FileHandle&&)      = delete;
diff --git a/src/eckit/codec/RecordWriter.cc b/src/eckit/codec/RecordWriter.cc
index e6eda8e..2f93cff 100644
--- a/src/eckit/codec/RecordWriter.cc
+++ b/src/eckit/codec/RecordWriter.cc
@@ -172,7 +172,10 @@ void RecordWriter::set(const RecordWriter::Key& key, Encoder&& encoder, const Co
 //---------------------------------------------------------------------------------------------------------------------
 
 size_t RecordWriter::write(const PathName& path, Mode mode) const {
-    return write(OutputFileStream(path, mode));
+    OutputFileStream out(path, mode);
+    size_t length = write(out);
+    out.close();
+    return length;
 }
 
 //---------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 8924f584eacdd2a6a9a4bca0ffa71919d8c645a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 048/110] fix: a PooledHandle can be closed by another thread
 than the one that opened it

---
 src/eckit/io/PooledHandle.cc | 61 ++++++++++++++++++++++++++----------
 src/eckit/io/PooledHandle.h  |  4 ++-
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/eckit/io/PooledHandle.cc b/src/eckit/io/PooledHandle.cc
index f82c22b..b26a02a 100644
--- a/src/eckit/io/PooledHandle.cc
+++ b/src/eckit/io/PooledHandle.cc
@@ -10,6 +10,7 @@
 
 #include <cstdio>
 #include <memory>
+#include <mutex>
 #include <string>
 
 #include "eckit/config/LibEcKit.h"
@@ -27,7 +28,7 @@ class PoolHandleEntry;
 
 /// @note in anonymous namespace to solve some compilers link issue (eg. xlc)
 namespace {
-static thread_local std::map<PathName, std::unique_ptr<PoolHandleEntry>> pool_;
+static thread_local std::map<PathName, std::shared_ptr<PoolHandleEntry>> pool_;
 }
 
 static size_t maxPooledHandles() {
@@ -52,6 +53,9 @@ public:
 
     size_t count_;
 
+    /// The pool belongs to a thread, but a handle can be passed on to another one, and outlive the first
+    mutable std::mutex mutex_;
+
     std::map<const PooledHandle*, PoolHandleEntryStatus> statuses_;
 
     size_t nbOpens_  = 0;
@@ -83,24 +87,35 @@ public:
     }
 
     void add(const PooledHandle* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
         ASSERT(statuses_.find(file) == statuses_.end());
         statuses_[file] = PoolHandleEntryStatus();
     }
 
     void remove(const PooledHandle* file) {
-        auto s = statuses_.find(file);
-        ASSERT(s != statuses_.end());
+        {
+            std::lock_guard<std::mutex> lock(mutex_);
 
-        statuses_.erase(s);
+            auto s = statuses_.find(file);
+            ASSERT(s != statuses_.end());
+
+            statuses_.erase(s);
+
+            if (statuses_.size() != 0) {
+                return;
+            }
 
-        if (statuses_.size() == 0) {
             doClose();
-            pool_.erase(path_);
-            // No code after !!!
+        }
+
+        auto j = pool_.find(path_);
+        if (j != pool_.end() && j->second.get() == this) {
+            pool_.erase(j);
         }
     }
 
     Length open(const PooledHandle* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
         ASSERT(!s->second.opened_);
@@ -123,20 +138,31 @@ public:
         return estimate_;
     }
 
-    bool canClose() {
+    // These two do not wait for an entry that is in use, as it is open and is not to be closed
+
+    bool isOpen() const {
+        std::unique_lock<std::mutex> lock(mutex_, std::try_to_lock);
+        return !lock.owns_lock() || handle_;
+    }
+
+    void closeIfUnused() {
+        std::unique_lock<std::mutex> lock(mutex_, std::try_to_lock);
+        if (!lock.owns_lock()) {
+            return;
+        }
         for (auto i = statuses_.begin(); i != statuses_.end(); ++i) {
             if ((*i).second.opened_) {
-                return false;
+                return;
             }
         }
-        return true;
+        doClose();
     }
 
     void checkMaxPooledHandles() {
         size_t opened = 0;
 
         for (auto i = pool_.begin(); i != pool_.end(); ++i) {
-            if ((*i).second->handle_) {
+            if ((*i).second.get() != this && (*i).second->isOpen()) {
                 opened++;
             }
         }
@@ -145,14 +171,15 @@ public:
             LOG_DEBUG_LIB(LibEcKit) << "PooledHandle maximum number of open files reached: " << maxPooledHandles()
                                     << std::endl;
             for (auto i = pool_.begin(); i != pool_.end(); ++i) {
-                if ((*i).second->canClose()) {
-                    (*i).second->doClose();
+                if ((*i).second.get() != this) {
+                    (*i).second->closeIfUnused();
                 }
             }
         }
     }
 
     void close(const PooledHandle* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
 
@@ -163,6 +190,7 @@ public:
     }
 
     long read(const PooledHandle* handle, void* buffer, long len) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(handle);
         ASSERT(s != statuses_.end());
         ASSERT(s->second.opened_);
@@ -178,6 +206,7 @@ public:
     }
 
     long seek(const PooledHandle* handle, Offset position) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(handle);
         ASSERT(s != statuses_.end());
         ASSERT(s->second.opened_);
@@ -194,6 +223,7 @@ public:
     }
 
     Offset position(const PooledHandle* handle) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(handle);
         ASSERT(s != statuses_.end());
         ASSERT(s->second.opened_);
@@ -206,11 +236,10 @@ public:
 PooledHandle::PooledHandle(const PathName& path) : path_(path), entry_{nullptr} {
     auto j = pool_.find(path);
     if (j == pool_.end()) {
-        pool_.emplace(std::make_pair(path, std::unique_ptr<PoolHandleEntry>(new PoolHandleEntry(path))));
-        j = pool_.find(path);
+        j = pool_.emplace(path, std::make_shared<PoolHandleEntry>(path)).first;
     }
 
-    entry_ = (*j).second.get();
+    entry_ = (*j).second;
     entry_->add(this);
 }
 
diff --git a/src/eckit/io/PooledHandle.h b/src/eckit/io/PooledHandle.h
index 47e3cc6..ee2825c 100644
--- a/src/eckit/io/PooledHandle.h
+++ b/src/eckit/io/PooledHandle.h
@@ -15,6 +15,8 @@
 #ifndef eckit_io_PooledHandle_h
 #define eckit_io_PooledHandle_h
 
+#include <memory>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/PathName.h"
 #include "eckit/io/DataHandle.h"
@@ -53,7 +55,7 @@ public:
 private:
 
     PathName path_;
-    PoolHandleEntry* entry_;
+    std::shared_ptr<PoolHandleEntry> entry_;
 
     void print(std::ostream& s) const override;
 };
-- 
2.43.0


From 0713d41a17bd18bcba889b160a8d522950504dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:32 +0000
Subject: [PATCH 049/110] fix: the last codec session cannot end while another
 thread is using it

---
 src/eckit/codec/Session.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eckit/codec/Session.cc b/src/eckit/codec/Session.cc
index fd118a2..0910d9e 100644
--- a/src/eckit/codec/Session.cc
+++ b/src/eckit/codec/Session.cc
@@ -73,6 +73,7 @@ ActiveSession& ActiveSession::instance() {
 //---------------------------------------------------------------------------------------------------------------------
 
 Record ActiveSession::record(const std::string& path, size_t offset) {
+    lock_guard lock(mutex_);
     if (count_ != 0) {
         return current().record(path, offset);
     }
@@ -83,6 +84,7 @@ Record ActiveSession::record(const std::string& path, size_t offset) {
 //---------------------------------------------------------------------------------------------------------------------
 
 void ActiveSession::store(Stream stream) {
+    lock_guard lock(mutex_);
     if (count_ != 0) {
         return current().store(stream);
     }
-- 
2.43.0


From 276b6c5188a00de848fe46feca37bb13e675f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:43 +0000
Subject: [PATCH 050/110] fix: a codec record with an index of a fraction of an
 entry is refused, not read past the index

---
 src/eckit/codec/Record.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eckit/codec/Record.cc b/src/eckit/codec/Record.cc
index 4fb5dfd..1238af3 100644
--- a/src/eckit/codec/Record.cc
+++ b/src/eckit/codec/Record.cc
@@ -231,6 +231,9 @@ Record& Record::read(Stream& in, bool read_to_end) {
     }
     const auto index_length = (static_cast<size_t>(r.index_length) - sizeof(RecordDataIndexSection::Begin) -
                                sizeof(RecordDataIndexSection::End));
+    if (index_length % sizeof(RecordDataIndexSection::Entry) != 0) {
+        throw InvalidRecord("Unexpected data index section length.");
+    }
     const auto index_size   = index_length / sizeof(RecordDataIndexSection::Entry);
     auto& data_sections     = parsed.data_sections;
     data_sections.resize(index_size);
-- 
2.43.0


From df6331835520b0299f85e69463fea16ef8f25599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:16 +0000
Subject: [PATCH 051/110] fix: a codec stream copes with short reads and
 reports failing ones

---
 src/eckit/codec/Stream.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/eckit/codec/Stream.cc b/src/eckit/codec/Stream.cc
index 5a49f4d..1fc1c28 100644
--- a/src/eckit/codec/Stream.cc
+++ b/src/eckit/codec/Stream.cc
@@ -13,6 +13,7 @@
 #include "eckit/codec/Stream.h"
 
 #include "eckit/codec/Exceptions.h"
+#include "eckit/exception/Exceptions.h"
 #include "eckit/io/DataHandle.h"
 
 namespace eckit::codec {
@@ -47,7 +48,20 @@ uint64_t Stream::write(const void* data, size_t length) {
 
 uint64_t Stream::read(void* data, size_t length) {
     ASSERT(ptr_ != nullptr);
-    return static_cast<std::uint64_t>(ptr_->read(data, static_cast<long>(length)));
+
+    // A handle may return less than what is asked for before it reaches its end
+    size_t done = 0;
+    while (done < length) {
+        const long n = ptr_->read(static_cast<char*>(data) + done, static_cast<long>(length - done));
+        if (n < 0) {
+            throw ReadError("codec::Stream", Here());
+        }
+        if (n == 0) {
+            break;
+        }
+        done += static_cast<size_t>(n);
+    }
+    return done;
 }
 
 //---------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From cfd6593b6a9fc267173ef1b5dab5eec5a55e0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:24 +0000
Subject: [PATCH 052/110] fix: an empty codec checksum does not crash the
 reader

---
 src/eckit/codec/detail/Checksum.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/codec/detail/Checksum.cc b/src/eckit/codec/detail/Checksum.cc
index 5072c36..e3582c8 100644
--- a/src/eckit/codec/detail/Checksum.cc
+++ b/src/eckit/codec/detail/Checksum.cc
@@ -24,7 +24,7 @@ Checksum::Checksum(const std::string& checksum) {
     std::vector<std::string> tokens;
     Tokenizer tokenizer(':');
     Tokenizer{':'}(checksum, tokens);
-    if (tokens.size() == 1) {
+    if (tokens.size() < 2) {
         algorithm_ = "none";
         checksum_  = "";
     }
-- 
2.43.0


From 19616d7d6fc4b57cf6615c8b2bbec164cc767bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:47 +0000
Subject: [PATCH 053/110] fix: unique names are unique also among a process and
 those it forks

---
 src/eckit/filesystem/LocalPathName.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 5602549..c682122 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -306,7 +306,14 @@ LocalPathName LocalPathName::unique(const LocalPathName& path) {
 
     std::string hostname = Main::hostname();
 
-    static unsigned long long n = (((unsigned long long)::getpid()) << 32);
+    // A forked process must not continue with the numbers of its parent
+    static pid_t owner          = 0;
+    static unsigned long long n = 0;
+
+    if (owner != ::getpid()) {
+        owner = ::getpid();
+        n     = (((unsigned long long)owner) << 32);
+    }
 
     static std::string format = "%Y%m%d.%H%M%S";
     std::ostringstream os;
-- 
2.43.0


From 812c0ae0bf5129525cdda246740b94c04c953141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 054/110] fix: a temporary file that cannot be removed does not
 end the program

---
 src/eckit/filesystem/TempFile.cc | 10 +++++++++-
 src/eckit/filesystem/TmpFile.cc  |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/eckit/filesystem/TempFile.cc b/src/eckit/filesystem/TempFile.cc
index 0733372..ea71235 100644
--- a/src/eckit/filesystem/TempFile.cc
+++ b/src/eckit/filesystem/TempFile.cc
@@ -10,7 +10,9 @@
 
 
 #include "eckit/filesystem/TempFile.h"
+#include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/FileSpace.h"
+#include "eckit/log/Log.h"
 
 
 namespace eckit {
@@ -22,7 +24,13 @@ TempFile::TempFile() : PathName(dir("temp")) {}
 TempFile::TempFile(const std::string& name) : PathName(dir(name)) {}
 
 TempFile::~TempFile() {
-    unlink();
+    try {
+        unlink();
+    }
+    catch (std::exception& e) {
+        Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+        Log::error() << "** Exception is ignored" << std::endl;
+    }
 }
 
 PathName TempFile::dir(const std::string& s) {
diff --git a/src/eckit/filesystem/TmpFile.cc b/src/eckit/filesystem/TmpFile.cc
index f26731c..a8f40c2 100644
--- a/src/eckit/filesystem/TmpFile.cc
+++ b/src/eckit/filesystem/TmpFile.cc
@@ -12,6 +12,7 @@
 
 #include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/TmpFile.h"
+#include "eckit/log/Log.h"
 
 namespace eckit {
 
@@ -44,7 +45,13 @@ static PathName tmp() {
 TmpFile::TmpFile(bool verbose) : PathName(tmp()), verbose_(verbose) {}
 
 TmpFile::~TmpFile() {
-    unlink(verbose_);
+    try {
+        unlink(verbose_);
+    }
+    catch (std::exception& e) {
+        Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+        Log::error() << "** Exception is ignored" << std::endl;
+    }
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From ff5b6aa5fb2073a68dd7a3335d94cd3d6ee2bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:22 +0000
Subject: [PATCH 055/110] fix: PathName::mkdir reports that something else is
 there instead of a directory

---
 src/eckit/filesystem/LocalPathName.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index c682122..ab99d41 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -343,6 +343,12 @@ static void mkdir_if_not_exists(const char* path, short mode) {
                 if (errno != EEXIST) {
                     throw FailedSystemCall(std::string("mkdir ") + path);
                 }
+                if (Stat::stat(path, &info) < 0) {
+                    throw FailedSystemCall(std::string("stat ") + path);
+                }
+            }
+            else {
+                return;
             }
         }
         else  // stat fails for unknown reason
@@ -350,6 +356,11 @@ static void mkdir_if_not_exists(const char* path, short mode) {
             throw FailedSystemCall(std::string("stat ") + path);
         }
     }
+
+    if (!S_ISDIR(info.st_mode)) {
+        errno = ENOTDIR;
+        throw FailedSystemCall(std::string("mkdir ") + path);
+    }
 }
 
 void LocalPathName::mkdir(short mode) const {
-- 
2.43.0


From f678e2298a4045b18bf5cc83bbcca7d8c11780ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:06 +0000
Subject: [PATCH 056/110] fix: TCPSocketHandle read from and wrote to the
 socket it had taken over, which is detached

---
 src/eckit/io/TCPSocketHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/TCPSocketHandle.cc b/src/eckit/io/TCPSocketHandle.cc
index 77cc75f..31ca1bc 100644
--- a/src/eckit/io/TCPSocketHandle.cc
+++ b/src/eckit/io/TCPSocketHandle.cc
@@ -79,7 +79,7 @@ Offset InstantTCPSocketHandle::seek(const Offset& o) {
 //----------------------------------------------------------------------------------------------------------------------
 
 TCPSocketHandle::TCPSocketHandle(net::TCPSocket& socket) :
-    InstantTCPSocketHandle(socket),
+    InstantTCPSocketHandle(socket_),
     socket_(socket)  // Will take onwership
 {}
 
-- 
2.43.0


From e00fb9675154ff6615256df56ec85fb314e748e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 057/110] fix: TCPSocket lost the bytes already transferred
 when a read or write was interrupted by a signal

---
 src/eckit/net/TCPSocket.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eckit/net/TCPSocket.cc b/src/eckit/net/TCPSocket.cc
index f58ce7d..c3b0592 100644
--- a/src/eckit/net/TCPSocket.cc
+++ b/src/eckit/net/TCPSocket.cc
@@ -171,6 +171,10 @@ long TCPSocket::write(const void* buf, long length) const {
             len   = ::write(socket_, p, length);
         }
 
+        if (len < 0 && errno == EINTR) {
+            continue;  // the bytes transferred so far must not be lost
+        }
+
         if (len < 0) {
             Log::error() << "Socket write failed (" << *this << ")" << Log::syserr << std::endl;
             return len;
@@ -245,6 +249,10 @@ long TCPSocket::read(void* buf, long length) const {
             len = ::read(socket_, p, length);
         }
 
+        if (len < 0 && errno == EINTR) {
+            continue;  // the bytes transferred so far must not be lost
+        }
+
         if (len < 0) {
             Log::error() << "Socket read failed (" << *this << ")" << Log::syserr << std::endl;
             return len;
-- 
2.43.0


From 87a0307b65187cf94353a59c58426bb9f38f79a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:30 +0000
Subject: [PATCH 058/110] fix: MultiSocket reported a failed read or write as a
 short one, which looks like the end of the stream

---
 src/eckit/net/MultiSocket.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/net/MultiSocket.cc b/src/eckit/net/MultiSocket.cc
index 8cf2942..8308926 100644
--- a/src/eckit/net/MultiSocket.cc
+++ b/src/eckit/net/MultiSocket.cc
@@ -83,7 +83,7 @@ long MultiSocket::write(const void* buf, long length) {
             p += len;
         }
         else {
-            return written ? written : len;
+            return len < 0 ? len : written;  // an error is not a short count
         }
     }
     return written;
@@ -116,7 +116,7 @@ long MultiSocket::read(void* buf, long length) {
             p += len;
         }
         else {
-            return read ? read : len;
+            return len < 0 ? len : read;  // an error is not the end of the stream
         }
     }
     return read;
-- 
2.43.0


From c71d433a2b41ea299fa32525098080b68c8de3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:46 +0000
Subject: [PATCH 059/110] fix: seeking forward on a broken or ended TCP
 connection never returned

---
 src/eckit/io/TCPSocketHandle.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/TCPSocketHandle.cc b/src/eckit/io/TCPSocketHandle.cc
index 31ca1bc..e5ade41 100644
--- a/src/eckit/io/TCPSocketHandle.cc
+++ b/src/eckit/io/TCPSocketHandle.cc
@@ -10,6 +10,8 @@
 
 #include "eckit/io/TCPSocketHandle.h"
 
+#include "eckit/exception/Exceptions.h"
+
 
 namespace eckit {
 
@@ -70,7 +72,10 @@ Offset InstantTCPSocketHandle::seek(const Offset& o) {
 
     while (position_ < o) {
         char c[10240];
-        read(c, std::min(sizeof(c), size_t(o - position_)));
+        long n = read(c, std::min(sizeof(c), size_t(o - position_)));
+        if (n <= 0) {
+            throw ReadError("InstantTCPSocketHandle::seek: cannot skip over the data", Here());
+        }
     }
 
     return o;
-- 
2.43.0


From db69a9893fbda7a23584c56b29c3af7e6fe131bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:11 +0000
Subject: [PATCH 060/110] fix: TCPSocket::stillConnected reported a healthy
 connection as lost when interrupted by a signal

---
 src/eckit/net/TCPSocket.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/eckit/net/TCPSocket.cc b/src/eckit/net/TCPSocket.cc
index c3b0592..3fe64ac 100644
--- a/src/eckit/net/TCPSocket.cc
+++ b/src/eckit/net/TCPSocket.cc
@@ -767,16 +767,22 @@ bool TCPSocket::stillConnected() const {
     fd_set e;
     fd_set w;
 
-    FD_ZERO(&r);
-    FD_SET(socket_, &r);
-    FD_ZERO(&e);
-    FD_SET(socket_, &e);
-    FD_ZERO(&w);
-    FD_SET(socket_, &w);
+    int ready;
 
-    ::timeval tv = {0, 0};
+    do {
+        FD_ZERO(&r);
+        FD_SET(socket_, &r);
+        FD_ZERO(&e);
+        FD_SET(socket_, &e);
+        FD_ZERO(&w);
+        FD_SET(socket_, &w);
+
+        ::timeval tv = {0, 0};
+
+        ready = ::select(socket_ + 1, &r, &w, &e, &tv);
+    } while (ready < 0 && errno == EINTR);
 
-    if (::select(socket_ + 1, &r, &w, &e, &tv) >= 0) {
+    if (ready >= 0) {
         if (!FD_ISSET(socket_, &r)) {
             return true;
         }
-- 
2.43.0


From bb687ac9eeacbbab744a511c41079cf34a275141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:05 +0000
Subject: [PATCH 061/110] fix: TCPClient::connect left its socket, its alarm
 handler and a blocked alarm signal behind when it timed out

---
 src/eckit/net/TCPSocket.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/eckit/net/TCPSocket.cc b/src/eckit/net/TCPSocket.cc
index 3fe64ac..923b3fd 100644
--- a/src/eckit/net/TCPSocket.cc
+++ b/src/eckit/net/TCPSocket.cc
@@ -312,10 +312,10 @@ void TCPSocket::close() {
     localAddr_ = remoteAddr_ = none;
 }
 
-static jmp_buf env;
+static sigjmp_buf env;
 
 static void catch_alarm(int) {
-    longjmp(env, 1);
+    siglongjmp(env, 1);
 }
 
 
@@ -383,8 +383,8 @@ TCPSocket& TCPClient::connect(const std::string& remote, int port, int retries,
         bind();
 
         if (timeout) {
-            if (setjmp(env) == 0) {
-                void (*old)(int) = signal(SIGALRM, catch_alarm);
+            void (*old)(int) = signal(SIGALRM, catch_alarm);
+            if (sigsetjmp(env, 1) == 0) {
                 alarm(timeout);
                 status     = ::connect(socket_, reinterpret_cast<sockaddr*>(&sin), sizeof(sin));
                 save_errno = errno;
@@ -393,6 +393,9 @@ TCPSocket& TCPClient::connect(const std::string& remote, int port, int retries,
                 signal(SIGALRM, old);
             }
             else {
+                signal(SIGALRM, old);
+                ::close(socket_);
+                socket_ = -1;
                 throw TimeOut("connect", timeout);
             }
         }
-- 
2.43.0


From 939fd48018036e8f4d9d353128a9fbfcf1bef746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:17 +0000
Subject: [PATCH 062/110] fix: BufferCache lost what it held when it grew

---
 src/eckit/io/BufferCache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/BufferCache.cc b/src/eckit/io/BufferCache.cc
index 03981ca..13be64e 100644
--- a/src/eckit/io/BufferCache.cc
+++ b/src/eckit/io/BufferCache.cc
@@ -50,7 +50,7 @@ void BufferCache::reset() {
 
 void BufferCache::add(const void* buffer, size_t len) {
     if (buffer_.size() < count_ + len) {
-        buffer_.resize(count_ + len + 1024);
+        buffer_.resize(count_ + len + 1024, true);
     }
     ::memcpy(((char*)buffer_) + count_, buffer, len);
     count_ += len;
-- 
2.43.0


From 7f9c0619c9318d173422e40fcedbe27638615a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:17 +0000
Subject: [PATCH 063/110] fix: a memoized Connector call failed on empty
 strings in the reply

---
 src/eckit/net/Connector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/net/Connector.cc b/src/eckit/net/Connector.cc
index 469ae96..e3ffe5d 100644
--- a/src/eckit/net/Connector.cc
+++ b/src/eckit/net/Connector.cc
@@ -370,7 +370,7 @@ long Connector::read(void* buf, long len) {
     }
 
     if (memoize_) {
-        ASSERT(len > 0);
+        ASSERT(len >= 0);
         in_.add(buf, len);
     }
 
-- 
2.43.0


From e8272a7f402faddf4004398172abb48fa1937ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:35 +0000
Subject: [PATCH 064/110] fix: a second call in memoized mode of a Connector
 sent the first request again

---
 src/eckit/net/Connector.cc | 13 ++++++++++---
 src/eckit/net/Connector.h  |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/eckit/net/Connector.cc b/src/eckit/net/Connector.cc
index e3ffe5d..f006797 100644
--- a/src/eckit/net/Connector.cc
+++ b/src/eckit/net/Connector.cc
@@ -38,6 +38,7 @@ Connector::Connector(const std::string& host, int port, const std::string& node)
     memoize_(false),
     sent_(false),
     life_(0),
+    replying_(false),
     autoclose_(false) {
     Log::info() << "Connector::Connector(" << node << "," << host << ":" << port << ")" << std::endl;
 }
@@ -292,9 +293,12 @@ long Connector::socketIo(F proc, T buf, long len, const char* msg, time_t& last)
 }
 
 long Connector::write(const void* buf, long len) {
-    if (in_.count()) {
+    if (replying_) {
+        // The previous call is over
+        replying_ = false;
         in_.reset();
-        out_.count();
+        out_.reset();
+        cached_.buffer_ = nullptr;
     }
 
     if (memoize_) {
@@ -309,6 +313,8 @@ long Connector::write(const void* buf, long len) {
 }
 
 long Connector::read(void* buf, long len) {
+    replying_ = true;
+
     if (memoize_) {
         if (!sent_) {
             std::map<BufferCache, BufferCache>::iterator j = cache_.find(out_);
@@ -385,7 +391,8 @@ void Connector::memoize(bool on, unsigned long life) {
     if (on) {
         ASSERT(in_.count() == 0);
         ASSERT(out_.count() == 0);
-        sent_ = false;
+        sent_     = false;
+        replying_ = false;
 
         cached_.buffer_ = nullptr;
 
diff --git a/src/eckit/net/Connector.h b/src/eckit/net/Connector.h
index 98f5808..9c95eb0 100644
--- a/src/eckit/net/Connector.h
+++ b/src/eckit/net/Connector.h
@@ -99,6 +99,7 @@ private:
     bool memoize_;
     bool sent_;
     unsigned long life_;
+    bool replying_;
 
     BufferCache out_;
     BufferCache in_;
-- 
2.43.0


From 14c8b3c825225f6e474038e781a7984fcee4dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 065/110] fix: Connector continued a request or waited for a
 reply over a new connection when the one in use was closed

---
 src/eckit/net/Connector.cc | 48 +++++++++++++++++++++++++++++++-------
 src/eckit/net/Connector.h  |  9 +++++--
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/eckit/net/Connector.cc b/src/eckit/net/Connector.cc
index f006797..f9bd340 100644
--- a/src/eckit/net/Connector.cc
+++ b/src/eckit/net/Connector.cc
@@ -38,7 +38,9 @@ Connector::Connector(const std::string& host, int port, const std::string& node)
     memoize_(false),
     sent_(false),
     life_(0),
+    requesting_(false),
     replying_(false),
+    lost_(false),
     autoclose_(false) {
     Log::info() << "Connector::Connector(" << node << "," << host << ":" << port << ")" << std::endl;
 }
@@ -58,7 +60,15 @@ Connector::~Connector() {
     // }
 }
 
-TCPSocket& Connector::socket() {
+TCPSocket& Connector::socket(bool starting) {
+
+    if (!starting) {
+        // The rest of a request or its reply cannot come over another connection
+        if (!socket_.isConnected()) {
+            throw ConnectorException(name() + ": connection lost during a call");
+        }
+        return socket_;
+    }
 
     static int connectorTimeout = Resource<int>("connectorTimeout", 0);
     if (connectorTimeout != 0) {
@@ -166,7 +176,9 @@ public:
     void reset() {
         for (Cache::iterator j = cache_.begin(); j != cache_.end(); ++j) {
             Connector* c = (*j).second;
+            bool lost    = c->requesting_ || c->lost_;
             c->reset();
+            c->lost_ = lost;
         }
     }
 };
@@ -258,6 +270,10 @@ void Connector::reset() {
     in_.reset();
     out_.reset();
     cache_.clear();
+    cached_.buffer_ = nullptr;
+
+    requesting_ = false;
+    lost_       = false;
 
     try {
         socket_.close();
@@ -268,6 +284,13 @@ void Connector::reset() {
     }
 }
 
+void Connector::checkLost() {
+    if (lost_) {
+        lost_ = false;
+        throw ConnectorException(name() + ": connection lost during a call");
+    }
+}
+
 std::string Connector::name() const {
     std::ostringstream os;
     os << "Connector[" << node_ << "," << host_ << ":" << port_ << "]";
@@ -275,8 +298,8 @@ std::string Connector::name() const {
 }
 
 template <class T, class F>
-long Connector::socketIo(F proc, T buf, long len, const char* msg, time_t& last) {
-    TCPSocket& s = socket();
+long Connector::socketIo(F proc, T buf, long len, const char* msg, time_t& last, bool starting) {
+    TCPSocket& s = socket(starting);
     last         = ::time(nullptr);
     long l       = (s.*proc)(buf, len);
     if (l != len) {
@@ -293,6 +316,8 @@ long Connector::socketIo(F proc, T buf, long len, const char* msg, time_t& last)
 }
 
 long Connector::write(const void* buf, long len) {
+    checkLost();
+
     if (replying_) {
         // The previous call is over
         replying_ = false;
@@ -303,17 +328,24 @@ long Connector::write(const void* buf, long len) {
 
     if (memoize_) {
 
-        sent_ = false;
+        sent_       = false;
+        requesting_ = true;
         out_.add(buf, len);
 
         return len;
     }
 
-    return socketIo(&TCPSocket::write, buf, len, "written", last_);
+    len         = socketIo(&TCPSocket::write, buf, len, "written", last_, !requesting_);
+    requesting_ = true;
+
+    return len;
 }
 
 long Connector::read(void* buf, long len) {
-    replying_ = true;
+    checkLost();
+
+    requesting_ = false;
+    replying_   = true;
 
     if (memoize_) {
         if (!sent_) {
@@ -336,7 +368,7 @@ long Connector::read(void* buf, long len) {
             if (!useCache) {
                 cached_.buffer_ = nullptr;
                 try {
-                    ASSERT((size_t)socketIo(&TCPSocket::write, out_.buffer(), out_.count(), "written", last_) ==
+                    ASSERT((size_t)socketIo(&TCPSocket::write, out_.buffer(), out_.count(), "written", last_, true) ==
                            out_.count());
                 }
                 catch (...) {
@@ -368,7 +400,7 @@ long Connector::read(void* buf, long len) {
     }
 
     try {
-        len = socketIo(&TCPSocket::read, buf, len, "read", last_);
+        len = socketIo(&TCPSocket::read, buf, len, "read", last_, false);
     }
     catch (...) {
         reset();
diff --git a/src/eckit/net/Connector.h b/src/eckit/net/Connector.h
index 9c95eb0..a20fcf3 100644
--- a/src/eckit/net/Connector.h
+++ b/src/eckit/net/Connector.h
@@ -99,7 +99,11 @@ private:
     bool memoize_;
     bool sent_;
     unsigned long life_;
+
+    // Where we are in a call
+    bool requesting_;
     bool replying_;
+    bool lost_;
 
     BufferCache out_;
     BufferCache in_;
@@ -116,9 +120,10 @@ private:
     // -- Methods
     // None
 
-    TCPSocket& socket();
+    TCPSocket& socket(bool starting);
+    void checkLost();
     template <class T, class F>
-    long socketIo(F proc, T buf, long len, const char*, time_t&);
+    long socketIo(F proc, T buf, long len, const char*, time_t&, bool starting);
 
     // -- Overridden methods
     // None
-- 
2.43.0


From 3b79f76aa13f2c2ba1fec08b5551dd7da913afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:45 +0000
Subject: [PATCH 066/110] fix: Connector kept a connection whose login had
 failed

---
 src/eckit/net/Connector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/net/Connector.cc b/src/eckit/net/Connector.cc
index f9bd340..bb0eace 100644
--- a/src/eckit/net/Connector.cc
+++ b/src/eckit/net/Connector.cc
@@ -98,6 +98,7 @@ TCPSocket& Connector::socket(bool starting) {
             Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
             Log::error() << "** Exception is handled" << std::endl;
 
+            socket_.close();
             offLine(host_, port_);
 
             std::ostringstream os;
-- 
2.43.0


From 2f991342961fbed062f6ad71af1625a954ed360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:37 +0000
Subject: [PATCH 067/110] fix: a node refused by ClusterNodes::refresh for its
 attributes was refreshed all the same

---
 src/eckit/io/cluster/ClusterNodes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/cluster/ClusterNodes.cc b/src/eckit/io/cluster/ClusterNodes.cc
index 31defb7..8fbe646 100644
--- a/src/eckit/io/cluster/ClusterNodes.cc
+++ b/src/eckit/io/cluster/ClusterNodes.cc
@@ -296,11 +296,11 @@ void ClusterNodes::refresh(const NodeInfo& info) {
     for (NodeArray::iterator k = nodeArray->begin(); k != nodeArray->end(); ++k) {
         if ((*k).active()) {
             if (info.node() == (*k).node() && info.name() == (*k).type()) {
+                (*k).attributes(info.attributes());
                 (*k).lastSeen(now);
                 (*k).host(info.host());
                 (*k).port(info.port());
                 (*k).offLine(false);
-                (*k).attributes(info.attributes());
                 return;
             }
         }
-- 
2.43.0


From e8ffd1b37f6715ae159e08958d8b2277be2601db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:58 +0000
Subject: [PATCH 068/110] fix: ClusterNodes::refresh could not reuse the entry
 of a forgotten node, entries were sorted with an inconsistent order

---
 src/eckit/io/cluster/ClusterNodes.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/eckit/io/cluster/ClusterNodes.cc b/src/eckit/io/cluster/ClusterNodes.cc
index 8fbe646..bed3de1 100644
--- a/src/eckit/io/cluster/ClusterNodes.cc
+++ b/src/eckit/io/cluster/ClusterNodes.cc
@@ -76,13 +76,12 @@ public:
     }
 
     bool operator<(const ClusterNodeEntry& other) const {
-        if (strcmp(node_, other.node_) < 0) {
-            return true;
-        }
-        if (strcmp(type_, other.type_) < 0) {
-            return true;
+        // Entries that are free come first
+        if (active_ != other.active_) {
+            return other.active_;
         }
-        return false;
+        int cmp = strcmp(node_, other.node_);
+        return cmp != 0 ? cmp < 0 : strcmp(type_, other.type_) < 0;
     }
 
     void send(Stream& s) const {
-- 
2.43.0


From 27b0cf745fdd515807774cd0dd276b868e4a8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:06 +0000
Subject: [PATCH 069/110] fix: ClusterNodes made a new entry at every refresh
 of a node whose name did not fit

---
 src/eckit/io/cluster/ClusterNodes.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/cluster/ClusterNodes.cc b/src/eckit/io/cluster/ClusterNodes.cc
index bed3de1..7e0401b 100644
--- a/src/eckit/io/cluster/ClusterNodes.cc
+++ b/src/eckit/io/cluster/ClusterNodes.cc
@@ -45,6 +45,9 @@ class ClusterNodeEntry {
     ClusterNodeEntry(const std::string& node, const std::string& type, const std::string& host, int port,
                      const std::set<std::string>& attributes) :
         active_(true), lastSeen_(Clock::now()), offLine_(false), port_(port) {
+        ASSERT(node.length() < sizeof(node_));
+        ASSERT(type.length() < sizeof(type_));
+        ASSERT(host.length() < sizeof(host_));
         zero(node_);
         strncpy(node_, node.c_str(), sizeof(node_) - 1);
         zero(type_);
@@ -287,6 +290,8 @@ void ClusterNodes::forget(const NodeInfo& info) {
 }
 
 void ClusterNodes::refresh(const NodeInfo& info) {
+    const ClusterNodeEntry entry(info);  // only if it fits
+
     pthread_once(&once, init);
     AutoLock<NodeArray> lock(*nodeArray);
 
@@ -307,7 +312,7 @@ void ClusterNodes::refresh(const NodeInfo& info) {
 
     std::sort(nodeArray->begin(), nodeArray->end());
     ASSERT(!(*nodeArray)[0].active());
-    (*nodeArray)[0] = ClusterNodeEntry(info);
+    (*nodeArray)[0] = entry;
     std::sort(nodeArray->begin(), nodeArray->end());
 }
 
-- 
2.43.0


From aed5cf85c062605bd290074644b4bc472b114f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:10 +0000
Subject: [PATCH 070/110] fix: Monitor: slots of dead tasks are reused when no
 other is free

The loop that was to search a second time, checking that the owners of the
slots are still running, never did, so the program ended with 'No free monitor
slots' as soon as crashed or ended processes had left all slots behind.
---
 src/eckit/runtime/Monitor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/runtime/Monitor.cc b/src/eckit/runtime/Monitor.cc
index f8d95b5..e0913a5 100644
--- a/src/eckit/runtime/Monitor.cc
+++ b/src/eckit/runtime/Monitor.cc
@@ -156,7 +156,10 @@ void Monitor::init() {
 
     bool found = false;
 
-    for (bool check = false; !check && !found; check = true) {
+    // First look for a free slot, then for one of a task that is not running any more
+
+    for (int pass = 0; pass < 2 && !found; ++pass) {
+        bool check = (pass == 1);
         for (size_t i = 0; i < a.size() && !found; ++i) {
             slot_ = (slot + i) % a.size();
             if (!a[slot_].busy(check)) {
-- 
2.43.0


From 3dda4a17df67ec76eae33bf19ef1406b21986b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 071/110] fix: TaskInfo: a slot is freed under the lock that
 protects the slots

busy(true) is called without the lock by the commands and statusTree(). Between
finding that the owner of a slot has ended and freeing the slot, it could be
given to another task, which then shared it with the next one to register.
---
 src/eckit/runtime/TaskInfo.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/eckit/runtime/TaskInfo.cc b/src/eckit/runtime/TaskInfo.cc
index 5add5d0..a7f51f7 100644
--- a/src/eckit/runtime/TaskInfo.cc
+++ b/src/eckit/runtime/TaskInfo.cc
@@ -23,6 +23,7 @@
 #include "eckit/runtime/Monitor.h"
 #include "eckit/runtime/ProcessControler.h"
 #include "eckit/runtime/TaskInfo.h"
+#include "eckit/thread/AutoLock.h"
 
 
 namespace eckit {
@@ -229,12 +230,23 @@ bool TaskInfo::busy(bool check) {
 
     // Check first
 
-    if (!ProcessControler::isRunning(info.pid_)) {
-        this->TaskInfo::~TaskInfo();
+    if (ProcessControler::isRunning(info.pid_)) {
+        return true;
+    }
+
+    if (!Monitor::active()) {
         return false;
     }
 
-    return true;
+    // The slot may have been given to another task meanwhile: check again under the lock that protects the slots
+
+    AutoLock<Monitor::TaskArray> lock(Monitor::instance().tasks());
+
+    if (info.busy_ && !ProcessControler::isRunning(info.pid_)) {
+        this->TaskInfo::~TaskInfo();
+    }
+
+    return info.busy_;
 }
 
 void TaskInfo::start(unsigned long long min, unsigned long long max) {
-- 
2.43.0


From 840b2d4493649bd86a45456c46044ea6a298e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:03 +0000
Subject: [PATCH 072/110] fix: Monitor: the end of a task does not free the
 slot of another process

An application gives its slots up in shutdown(), and its static objects free
them a second time later, when they may have been given to another process.
---
 src/eckit/runtime/Monitor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eckit/runtime/Monitor.cc b/src/eckit/runtime/Monitor.cc
index e0913a5..14790f2 100644
--- a/src/eckit/runtime/Monitor.cc
+++ b/src/eckit/runtime/Monitor.cc
@@ -186,7 +186,12 @@ Monitor::~Monitor() {
     if (ready_ && active_) {
         TaskArray& a = tasks();
         AutoLock<TaskArray> lock(a);
-        a[slot_].TaskInfo::~TaskInfo();
+
+        // After a shutdown() the slot may belong to another process
+
+        if (a[slot_].pid() == ::getpid()) {
+            a[slot_].TaskInfo::~TaskInfo();
+        }
     }
 }
 
-- 
2.43.0


From e215188a6bf3f8c8cd2e07f34bfb9ff121e52d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:51 +0000
Subject: [PATCH 073/110] fix: FamList: a second opener of a new list does not
 discard what was inserted

The constructor wrote head.next and tail.prev with a plain put when it had
found them unset; another opener may have set them and inserted in between.
---
 src/eckit/io/fam/FamList.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eckit/io/fam/FamList.cc b/src/eckit/io/fam/FamList.cc
index 1cf9970..2d88b53 100644
--- a/src/eckit/io/fam/FamList.cc
+++ b/src/eckit/io/fam/FamList.cc
@@ -46,13 +46,15 @@ FamList::FamList(FamRegion region, const std::string& list_name) :
     head_{region_.ensureObject(sizeof(FamListNode), list_name + "h")},
     tail_{region_.ensureObject(sizeof(FamListNode), list_name + "t")},
     size_{region_.ensureObject(sizeof(size_type), list_name + "s")} {
-    // set head's next to tail's prev (idempotent)
+    // set head's next to tail and tail's prev to head (idempotent)
+    // Another opener may have done so and inserted already, so the offsets are only set if they are not yet.
     if (FamListNode::getNextOffset(head_) == 0) {
-        head_.put(tail_.descriptor(), FamListNode::nextOff());
+        head_.put(tail_.regionId(), FamListNode::nextOff() + offsetof(FamDescriptor, region));
+        head_.compareSwap(FamListNode::nextOffsetOff(), fam::index_t{0}, tail_.offset());
     }
-    // set tail's prev to head's next (idempotent)
     if (FamListNode::getPrevOffset(tail_) == 0) {
-        tail_.put(head_.descriptor(), offsetof(FamListNode, prev));
+        tail_.put(head_.regionId(), offsetof(FamListNode, prev) + offsetof(FamDescriptor, region));
+        tail_.compareSwap(FamListNode::prevOffsetOff(), fam::index_t{0}, head_.offset());
     }
 }
 
-- 
2.43.0


From 97bd091fd38c0643e1c69a39d7b5cb70d7c702d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:51 +0000
Subject: [PATCH 074/110] fix: FamList::pushBack inserts by the next of the
 last node

tail.prev was swung first and the forward chain followed. When pushFront raced
on an empty list, elements were missed by backward traversals, and a process
that died between the two steps made all later pushBack's invisible.
---
 src/eckit/io/fam/FamList.cc | 80 +++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 43 deletions(-)

diff --git a/src/eckit/io/fam/FamList.cc b/src/eckit/io/fam/FamList.cc
index 2d88b53..2b273f0 100644
--- a/src/eckit/io/fam/FamList.cc
+++ b/src/eckit/io/fam/FamList.cc
@@ -142,56 +142,50 @@ void FamList::pushBack(const void* data, const size_type length) {
     new_object.put(length, offsetof(FamListNode, length));
     new_object.put(data, sizeof(FamListNode), length);
 
-    // 2. Link into list: use CAS-loop to atomically update tail.prev
-    //    This ensures new node becomes visible to other readers
+    // Point new node forward to tail
+    new_object.put(tail_.descriptor(), FamListNode::nextOff());
+
+    // 2. Link into the forward chain, which decides what is in the list: use CAS-loop on the next of the node before
+    //    tail. It is found from tail.prev, which may lag behind while other nodes are being inserted.
+    //    This prevents the plain-put race with concurrent pushFront on head.next.
     fam::detail::CasBackoff backoff;
+    auto current = region_.proxyObject(FamListNode::getPrevOffset(tail_));
     while (true) {
-        // Get current last node (what tail.prev points to)
-        const auto last_offset = FamListNode::getPrevOffset(tail_);
-        auto last_object       = region_.proxyObject(last_offset);
-
-        // Point new node forward to tail
-        new_object.put(tail_.descriptor(), FamListNode::nextOff());
-
-        // Point new node backward to current last node
-        new_object.put(last_object.descriptor(), offsetof(FamListNode, prev));
-
-        // Atomically update tail.prev to new node.
-        // On success, we become the new last node.
-        const auto old_offset = tail_.compareSwap(FamListNode::prevOffsetOff(), last_offset, new_object.offset());
-        if (old_offset == last_offset) {
-            // Success! Now link new_object into the forward chain.
-            // Use CAS-loop: walk forward from last_object to find the node whose
-            // next is tail, then CAS its next to new_object.
-            // This prevents the plain-put race with concurrent pushFront on head.next.
-            fam::detail::CasBackoff inner_backoff;
-            auto current = std::move(last_object);
-            while (true) {
-                const auto cur_next = FamListNode::getNextOffset(current);
-                if (cur_next == tail_.offset()) {
-                    const auto old =
-                        current.compareSwap(FamListNode::nextOffsetOff(), tail_.offset(), new_object.offset());
-                    if (old == tail_.offset()) {
-                        break;  // Successfully linked into forward chain
-                    }
-                    // CAS failed — another node was inserted. Follow the new link.
-                    current.replaceWith({region_.index(), old});
-                    inner_backoff();
-                }
-                else {
-                    // Follow forward chain to find the node just before tail
-                    current.replaceWith({region_.index(), cur_next});
-                }
-            }
+        const auto cur_next = FamListNode::getNextOffset(current);
+        if (cur_next != tail_.offset()) {
+            // Follow forward chain to find the node just before tail
+            current.replaceWith({region_.index(), cur_next});
+            continue;
+        }
 
-            // Atomically increment size
-            size_.add(0, size_type{1});
+        // Point new node backward to the node it will follow
+        new_object.put(current.descriptor(), offsetof(FamListNode, prev));
 
-            return;
+        const auto old = current.compareSwap(FamListNode::nextOffsetOff(), tail_.offset(), new_object.offset());
+        if (old == tail_.offset()) {
+            break;  // Successfully linked into forward chain
         }
-        // CAS failed, another thread modified tail.prev. Back off before retry.
+        // CAS failed — another node was inserted. Follow the new link.
+        current.replaceWith({region_.index(), old});
         backoff();
     }
+
+    // 3. Let tail.prev catch up with the end of the forward chain, also on behalf of others
+    while (true) {
+        const auto last_offset = FamListNode::getPrevOffset(tail_);
+        auto last              = region_.proxyObject(last_offset);
+        for (auto next = FamListNode::getNextOffset(last); next != tail_.offset();
+             next      = FamListNode::getNextOffset(last)) {
+            last.replaceWith({region_.index(), next});
+        }
+        if (last.offset() == last_offset) {
+            break;
+        }
+        tail_.compareSwap(FamListNode::prevOffsetOff(), last_offset, last.offset());
+    }
+
+    // Atomically increment size
+    size_.add(0, size_type{1});
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 2d12334f24a5e395c010b900a0e9fbc80d3b1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:41 +0000
Subject: [PATCH 075/110] fix: FamList: an element is removed by the task that
 marks it

popFront and popBack marked a node and then tried to unlink it: when the end
of the list had changed meanwhile, they went on to another node and the marked
one disappeared as well, without being counted. Two tasks erasing neighbours
relinked an erased node, begin() and front() did not skip marked nodes, and
erasing a node that somebody else had erased never ended.
---
 src/eckit/io/fam/FamList.cc           | 224 ++++++++++++++------------
 src/eckit/io/fam/FamList.h            |  13 ++
 src/eckit/io/fam/detail/FamListNode.h |  10 +-
 3 files changed, 143 insertions(+), 104 deletions(-)

diff --git a/src/eckit/io/fam/FamList.cc b/src/eckit/io/fam/FamList.cc
index 2b273f0..82dd40d 100644
--- a/src/eckit/io/fam/FamList.cc
+++ b/src/eckit/io/fam/FamList.cc
@@ -66,11 +66,16 @@ auto FamList::descriptor() const -> Descriptor {
 // iterators
 
 auto FamList::begin() const -> iterator {
-    return region_.proxyObject(FamListNode::getNextOffset(head_));
+    // the first node after head that is not marked
+    iterator iter{region_.proxyObject(head_.offset())};
+    ++iter;
+    return iter;
 }
 
 auto FamList::cbegin() const -> const_iterator {
-    return region_.proxyObject(FamListNode::getNextOffset(head_));
+    const_iterator iter{region_.proxyObject(head_.offset())};
+    ++iter;
+    return iter;
 }
 
 auto FamList::end() const -> iterator {
@@ -171,17 +176,11 @@ void FamList::pushBack(const void* data, const size_type length) {
     }
 
     // 3. Let tail.prev catch up with the end of the forward chain, also on behalf of others
-    while (true) {
-        const auto last_offset = FamListNode::getPrevOffset(tail_);
-        auto last              = region_.proxyObject(last_offset);
-        for (auto next = FamListNode::getNextOffset(last); next != tail_.offset();
-             next      = FamListNode::getNextOffset(last)) {
-            last.replaceWith({region_.index(), next});
-        }
-        if (last.offset() == last_offset) {
-            break;
-        }
-        tail_.compareSwap(FamListNode::prevOffsetOff(), last_offset, last.offset());
+    syncTail();
+
+    // A removed node stays linked as long as it is the last one
+    if (FamListNode::isMarked(current)) {
+        unlink(current);
     }
 
     // Atomically increment size
@@ -190,121 +189,143 @@ void FamList::pushBack(const void* data, const size_type length) {
 
 //----------------------------------------------------------------------------------------------------------------------
 // Wait-Free Deletion (Logical + Physical)
+//
+// A node is removed by the task that marks it; traversals skip marked nodes. It is then unlinked but NOT deallocated.
+// Concurrent iterators may still hold the node's offset and follow its next/prev pointers, which remain valid.
+// Physical reclamation happens on region wipe or clear().
 
 void FamList::popFront() {
     ASSERT(!empty());
 
-    fam::detail::CasBackoff backoff;
     while (true) {
-        // Get the first node to delete
-        const auto first_offset = FamListNode::getNextOffset(head_);
-        auto first_object       = region_.proxyObject(first_offset);
-
-        // Safety check: don't delete the tail sentinel
-        if (first_offset == tail_.offset()) {
-            return;  // Already empty
-        }
-
-        // 1. Logically mark the node as deleted (wait-free flag)
-        FamListNode::mark(first_object);
-
-        // 2. Get the next node after the one we're deleting
-        const auto next_offset = FamListNode::getNextOffset(first_object);
-
-        // 3. Atomically update head.next to skip over the marked node
-        const auto old_offset = head_.compareSwap(FamListNode::nextOffsetOff(), first_offset, next_offset);
-        if (old_offset == first_offset) {
-            // Success! We've removed the node from the list.
-            // Update the next node's prev pointer to point to head
-            auto next_object = region_.proxyObject(next_offset);
-            next_object.put(head_.descriptor(), offsetof(FamListNode, prev));
-
-            // Decrement size
-            size_.subtract(0, size_type{1});
-
-            // Node is marked and unlinked but NOT deallocated.
-            // Concurrent iterators may still hold the node's offset and
-            // follow its next/prev pointers, which remain valid.
-            // Physical reclamation happens on region wipe or clear().
-            return;
+        const auto first = begin();
+        if (first == end() || tryErase(first)) {
+            return;  // Already empty, or removed
         }
-        // CAS failed, another thread modified head.next. Back off before retry.
-        backoff();
     }
 }
 
 void FamList::popBack() {
     ASSERT(!empty());
 
-    fam::detail::CasBackoff backoff;
-    while (true) {
-        // Get the last node to delete
-        const auto last_offset = FamListNode::getPrevOffset(tail_);
-        auto last_object       = region_.proxyObject(last_offset);
-
-        // Safety check: don't delete the head sentinel
-        if (last_offset == head_.offset()) {
-            return;  // Already empty
+    while (!empty()) {
+        syncTail();
+
+        auto last = end();
+        --last;
+        if (last.object().offset() == head_.offset()) {
+            // The backward chain lags behind the forward one: an insertion is not complete
+            last = begin();
+            for (auto next = begin(); next != end(); ++next) {
+                last = iterator{region_.proxyObject(next.object().offset())};
+            }
+            if (last == end()) {
+                return;  // Already empty
+            }
         }
 
-        // 1. Logically mark the node as deleted (wait-free flag)
-        FamListNode::mark(last_object);
-
-        // 2. Get the previous node
-        const auto prev_offset = FamListNode::getPrevOffset(last_object);
-
-        // 3. Atomically update tail.prev to point before the marked node
-        const auto old_offset = tail_.compareSwap(FamListNode::prevOffsetOff(), last_offset, prev_offset);
-        if (old_offset == last_offset) {
-            // Success! We've removed the node from the list.
-            // Update the previous node's next pointer to point to tail
-            auto prev_object = region_.proxyObject(prev_offset);
-            prev_object.put(tail_.descriptor(), FamListNode::nextOff());
-
-            // Decrement size
-            size_.subtract(0, size_type{1});
-
-            // Node is marked and unlinked but NOT deallocated.
-            // See popFront() for rationale.
+        if (tryErase(last)) {
             return;
         }
-        // CAS failed, another thread modified tail.prev. Back off before retry.
-        backoff();
     }
 }
 
 auto FamList::erase(iterator pos) -> iterator {
+    tryErase(pos);
+    ++pos;
+    return pos;
+}
+
+bool FamList::tryErase(const iterator& pos) {
     const auto& object = pos.object();
     ASSERT(object.offset() != tail_.offset());
 
-    fam::detail::CasBackoff backoff;
-    while (true) {
-        // 1. Mark the node for deletion
-        FamListNode::mark(object);
+    if (!FamListNode::mark(object)) {
+        return false;
+    }
 
-        // 2. Get next and prev pointers
-        const auto next_offset = FamListNode::getNextOffset(object);
-        const auto prev_offset = FamListNode::getPrevOffset(object);
+    // Atomically decrement size
+    size_.subtract(0, size_type{1});
 
-        auto next_object = region_.proxyObject(next_offset);
-        auto prev_object = region_.proxyObject(prev_offset);
+    unlink(object);
 
-        // 3. Atomically update prev.next to skip over marked node
-        const auto old_next = prev_object.compareSwap(FamListNode::nextOffsetOff(), object.offset(), next_offset);
-        if (old_next == object.offset()) {
-            // Success! Update next.prev as well
-            next_object.put(prev_object.descriptor(), offsetof(FamListNode, prev));
+    return true;
+}
 
-            // Update size
-            size_.subtract(0, size_type{1});
+void FamList::unlink(const FamObject& object) {
+    while (true) {
+        // The last node stays linked: pushBack may be inserting after it
+        const auto next_offset = FamListNode::getNextOffset(object);
+        if (next_offset == tail_.offset()) {
+            return;
+        }
 
-            // Node is marked and unlinked but NOT deallocated.
-            // See popFront() for rationale.
+        // Find the node before, which usually is prev
+        auto prev_object = region_.proxyObject(FamListNode::getPrevOffset(object));
+        if (FamListNode::getNextOffset(prev_object) != object.offset() || FamListNode::isMarked(prev_object)) {
+            prev_object.replaceWith(head_.descriptor());
+            for (auto offset = FamListNode::getNextOffset(prev_object); offset != object.offset();
+                 offset      = FamListNode::getNextOffset(prev_object)) {
+                if (offset == tail_.offset()) {
+                    return;  // Unlinked by another task
+                }
+                prev_object.replaceWith({region_.index(), offset});
+            }
+        }
 
-            return region_.proxyObject(next_offset);
+        // Atomically update its next to skip the marked node
+        if (prev_object.compareSwap(FamListNode::nextOffsetOff(), object.offset(), next_offset) == object.offset()) {
+            auto next_object = region_.proxyObject(next_offset);
+            next_object.compareSwap(FamListNode::prevOffsetOff(), object.offset(), prev_object.offset());
+
+            // A concurrent pushFront, or the removal of the node before, may have missed this change
+            if (prev_object.offset() == head_.offset() || FamListNode::isMarked(prev_object)) {
+                repairPrev(next_object);
+            }
+            // and so may the concurrent removal of the node after
+            if (const auto offset = FamListNode::getNextOffset(object); offset != next_offset) {
+                next_object.replaceWith({region_.index(), offset});
+                repairPrev(next_object);
+            }
+            return;
         }
-        // CAS failed, back off before retry.
-        backoff();
+        // CAS failed, the node before has changed. Try again.
+    }
+}
+
+void FamList::repairPrev(const FamObject& object) {
+    auto prev_object = region_.proxyObject(head_.offset());
+    auto next_offset = FamListNode::getNextOffset(prev_object);
+    while (next_offset != tail_.offset()) {
+        auto next_object       = region_.proxyObject(next_offset);
+        const auto prev_offset = FamListNode::getPrevOffset(next_object);
+        if (prev_offset != prev_object.offset()) {
+            next_object.compareSwap(FamListNode::prevOffsetOff(), prev_offset, prev_object.offset());
+            // start again, in case the forward chain has changed
+            prev_object.replaceWith(head_.descriptor());
+        }
+        else if (next_offset == object.offset()) {
+            return;
+        }
+        else {
+            prev_object.replaceWith(next_object.descriptor());
+        }
+        next_offset = FamListNode::getNextOffset(prev_object);
+    }
+}
+
+void FamList::syncTail() {
+    while (true) {
+        const auto last_offset = FamListNode::getPrevOffset(tail_);
+        auto last              = region_.proxyObject(last_offset);
+        for (auto next = FamListNode::getNextOffset(last); next != tail_.offset();
+             next      = FamListNode::getNextOffset(last)) {
+            last.replaceWith({region_.index(), next});
+        }
+        if (last.offset() == last_offset) {
+            return;
+        }
+        tail_.compareSwap(FamListNode::prevOffsetOff(), last_offset, last.offset());
     }
 }
 
@@ -326,8 +347,9 @@ void FamList::clear() {
         next_object.put(head_.descriptor(), offsetof(FamListNode, prev));
 
         first_object.deallocate();
-        size_.subtract(0, size_type{1});
     }
+
+    size_.set(0, size_type{0});
 }
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -338,9 +360,7 @@ auto FamList::size() const -> size_type {
 }
 
 bool FamList::empty() const {
-    // A node is the first real element if it's the next of head and not tail
-    const auto first_offset = FamListNode::getNextOffset(head_);
-    return first_offset == tail_.offset();
+    return begin() == end();
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/io/fam/FamList.h b/src/eckit/io/fam/FamList.h
index 70b03dc..17f8b81 100644
--- a/src/eckit/io/fam/FamList.h
+++ b/src/eckit/io/fam/FamList.h
@@ -173,6 +173,10 @@ public:  // methods
     /// The node is NOT deallocated; see popFront() for rationale.
     iterator erase(iterator pos);
 
+    /// Remove element at position, unless another task has removed it.
+    /// @returns true if this call removed the element.
+    bool tryErase(const iterator& pos);
+
     /// Reclaims the FAM memory immediately. Deallocate all data nodes and reset the list to empty.
     /// Precondition: caller guarantees no concurrent operations on this list.
     /// @pre  No concurrent readers or writers.
@@ -180,6 +184,15 @@ public:  // methods
 
 private:  // methods
 
+    /// Unlink a marked node from the forward chain, unless it is the last node
+    void unlink(const FamObject& object);
+
+    /// Let prev refer to the node before in the forward chain, for all nodes up to the given one
+    void repairPrev(const FamObject& object);
+
+    /// Let tail.prev refer to the last node of the forward chain
+    void syncTail();
+
     void print(std::ostream& out) const;
 
     friend std::ostream& operator<<(std::ostream& out, const FamList& list);
diff --git a/src/eckit/io/fam/detail/FamListNode.h b/src/eckit/io/fam/detail/FamListNode.h
index 30b0bd7..8de2507 100644
--- a/src/eckit/io/fam/detail/FamListNode.h
+++ b/src/eckit/io/fam/detail/FamListNode.h
@@ -21,6 +21,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <type_traits>
 
 #include "eckit/io/Buffer.h"
@@ -100,8 +101,13 @@ struct FamListNode {
     }
 
     /// Mark node as logically deleted (wait-free deletion)
-    static void mark(const FamObject& object) {
-        object.put(static_cast<std::uint8_t>(1), offsetof(FamListNode, marked));
+    /// @returns false if the node was marked already, so only one of the tasks deleting a node is told that it did
+    static bool mark(const FamObject& object) {
+        // the marker and the padding behind it are one word
+        const std::uint8_t marker[sizeof(std::uint64_t)]{1};
+        std::uint64_t word{0};
+        std::memcpy(&word, marker, sizeof(word));
+        return object.compareSwap(offsetof(FamListNode, marked), std::uint64_t{0}, word) == 0;
     }
 
     /// Copy node data to buffer
-- 
2.43.0


From 1df4e6702875cd72cbf0f97286e805b797cafa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:08 +0000
Subject: [PATCH 076/110] fix: FamMap: a bucket whose creator died can be used
 by others

A process that crashed, or ran out of storage, while creating a bucket left it
claimed, and every later insertion into that bucket failed.
---
 src/eckit/io/fam/FamMap.cc | 54 ++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/eckit/io/fam/FamMap.cc b/src/eckit/io/fam/FamMap.cc
index dbfb8e0..040be39 100644
--- a/src/eckit/io/fam/FamMap.cc
+++ b/src/eckit/io/fam/FamMap.cc
@@ -107,37 +107,35 @@ FamList FamMap<T>::getOrCreateBucket(const std::size_t index) {
     // Try to claim the bucket via CAS: 0 -> CREATING
     const auto old_head = table_.compareSwap(bucketHeadOffset(index), fam::size_t{0}, creating);
 
-    if (old_head == 0) {
-        // We claimed the bucket. Create a new FamList bucket.
-        // Use short name to stay within OpenFAM dataitem name limits (40 chars).
-        // Format: "{map_name}.{index}"
-        const auto bucket_name = name_ + "." + std::to_string(index);
-        auto bucket            = FamList{region_, bucket_name};
-        auto desc              = bucket.descriptor();
-
-        // Write remaining descriptor fields FIRST (tail, size)
-        const auto offset = bucketOffset(index);
-        table_.put(desc.region, offset + offsetof(FamList::Descriptor, region));
-        table_.put(desc.tail, offset + offsetof(FamList::Descriptor, tail));
-        table_.put(desc.size, offset + offsetof(FamList::Descriptor, size));
-
-        // Write head LAST to "publish" the bucket (transitions from CREATING → real offset)
-        table_.put(desc.head, bucketHeadOffset(index));
-
-        return bucket;
+    if (old_head != 0) {
+        // Another proc/thread is creating this bucket. Spin until head is valid.
+        // Limit retries: the creator may have crashed or failed, in which case we do its work (avoid infinite spin).
+        static constexpr int max_spin = 100;
+        for (int spin = 0; spin < max_spin; ++spin) {
+            if (auto bucket = getBucket(index)) {
+                return std::move(*bucket);
+            }
+            std::this_thread::yield();
+        }
     }
 
-    // Another proc/thread is creating this bucket. Spin until head is valid.
-    // Limit retries to detect a crashed creator (avoid infinite spin).
-    static constexpr int max_spin = 100000;
-    auto head                     = old_head;
-    for (int spin = 0; head == 0 || head == creating; ++spin) {
-        ASSERT_MSG(spin < max_spin, "FamMap::getOrCreateBucket: bucket creation stalled (creator may have crashed)");
-        std::this_thread::yield();
-        head = table_.get<fam::size_t>(bucketHeadOffset(index));
-    }
+    // We claimed the bucket, or take over. Create a new FamList bucket, or open it: whoever does so, gets the same list.
+    // Use short name to stay within OpenFAM dataitem name limits (40 chars).
+    // Format: "{map_name}.{index}"
+    const auto bucket_name = name_ + "." + std::to_string(index);
+    auto bucket            = FamList{region_, bucket_name};
+    auto desc              = bucket.descriptor();
+
+    // Write remaining descriptor fields FIRST (tail, size)
+    const auto offset = bucketOffset(index);
+    table_.put(desc.region, offset + offsetof(FamList::Descriptor, region));
+    table_.put(desc.tail, offset + offsetof(FamList::Descriptor, tail));
+    table_.put(desc.size, offset + offsetof(FamList::Descriptor, size));
+
+    // Write head LAST to "publish" the bucket (transitions from CREATING → real offset)
+    table_.put(desc.head, bucketHeadOffset(index));
 
-    return {region_, getBucketDescriptor(index)};
+    return bucket;
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 0d707894692b28892c18c2cd971a7b2c41b05378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:54 +0000
Subject: [PATCH 077/110] fix: FamMap: a look-up does not miss an entry that is
 being replaced

insertOrAssign inserts the new entry at the front and erases the old one, so a
scan that had passed the front met neither.
---
 src/eckit/io/fam/FamMap.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/eckit/io/fam/FamMap.cc b/src/eckit/io/fam/FamMap.cc
index 040be39..dfefea1 100644
--- a/src/eckit/io/fam/FamMap.cc
+++ b/src/eckit/io/fam/FamMap.cc
@@ -70,13 +70,20 @@ FamMap<T>::FamMap(std::string name, FamRegion region) :
 
 template <typename T>
 FamListIterator FamMap<T>::findInBucket(const FamList& bucket, const key_type& key) {
-    for (auto iter = bucket.begin(); iter != bucket.end(); ++iter) {
-        const auto& buffer = *iter;
-        if (buffer.size() >= key_size && entry_type::decodeKey(buffer) == key) {
-            return iter;
+    for (auto first = bucket.begin();;) {
+        for (auto iter = bucket.begin(); iter != bucket.end(); ++iter) {
+            const auto& buffer = *iter;
+            if (buffer.size() >= key_size && entry_type::decodeKey(buffer) == key) {
+                return iter;
+            }
+        }
+        // The entry may have been replaced by one inserted at the front after the scan began
+        auto current = bucket.begin();
+        if (current == first) {
+            return bucket.end();
         }
+        first = std::move(current);
     }
-    return bucket.end();
 }
 
 template <typename T>
-- 
2.43.0


From 13385b0ba0a128abff41c2502bd42d0298d00ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:11 +0000
Subject: [PATCH 078/110] fix: FamSession is initialised once when several
 threads begin to use it

The second thread replaced the session the first one was using.
---
 src/eckit/io/fam/FamSession.cc | 7 +++++--
 src/eckit/io/fam/FamSession.h  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/fam/FamSession.cc b/src/eckit/io/fam/FamSession.cc
index 7bc4c48..f395be5 100644
--- a/src/eckit/io/fam/FamSession.cc
+++ b/src/eckit/io/fam/FamSession.cc
@@ -117,8 +117,11 @@ std::ostream& operator<<(std::ostream& out, const FamSession& session) {
 
 template <typename Func, typename... Args>
 auto FamSession::invokeFam(Func&& fn_ptr, Args&&... args) {
-    if (!fam_) {
-        fam_ = initializeFamSession(name_, endpoint_);
+    {
+        std::lock_guard lock(initMutex_);
+        if (!fam_) {
+            fam_ = initializeFamSession(name_, endpoint_);
+        }
     }
 
     try {
diff --git a/src/eckit/io/fam/FamSession.h b/src/eckit/io/fam/FamSession.h
index 7e569fd..6aa3358 100644
--- a/src/eckit/io/fam/FamSession.h
+++ b/src/eckit/io/fam/FamSession.h
@@ -23,6 +23,7 @@
 #include <cstdint>
 #include <iosfwd>
 #include <memory>
+#include <mutex>
 #include <string>
 
 #include "eckit/io/fam/FamObject.h"
@@ -163,6 +164,8 @@ private:  // members
 
     TimePoint lastAccess_{std::chrono::system_clock::now()};
 
+    std::mutex initMutex_;  ///< protects the initialisation of fam_
+
     std::unique_ptr<openfam::fam> fam_;
 };
 
-- 
2.43.0


From 00e44ee0c47ce80912a728e301621cc1c744639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:02 +0000
Subject: [PATCH 079/110] fix: FamMap: an entry erased by two tasks is counted
 once

erase() and insertOrAssign() subtracted every entry they came across from the
size, also when another task had erased it at the same time.
---
 src/eckit/io/fam/FamMap.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/eckit/io/fam/FamMap.cc b/src/eckit/io/fam/FamMap.cc
index dfefea1..5e134d4 100644
--- a/src/eckit/io/fam/FamMap.cc
+++ b/src/eckit/io/fam/FamMap.cc
@@ -266,8 +266,10 @@ auto FamMap<T>::insertOrAssign(const key_type& key, const void* data, const size
                 found_first = true;  // skip the newly inserted entry (first match)
                 continue;
             }
-            // This is the old entry — erase it and adjust count.
-            bucket.erase(std::move(iter));
+            // This is the old entry — erase it and adjust count, unless another task erases it.
+            if (!bucket.tryErase(iter)) {
+                continue;
+            }
             count_.subtract(0, size_type{1});
             replaced = true;
             break;
@@ -303,14 +305,13 @@ auto FamMap<T>::erase(const key_type& key) -> size_type {
     }
 
     size_type removed = 0;
-    for (auto iter = bucket->begin(); iter != bucket->end();) {
+    for (auto iter = bucket->begin(); iter != bucket->end(); ++iter) {
         const auto& buffer = *iter;
         if (buffer.size() >= key_size && entry_type::decodeKey(buffer) == key) {
-            iter = bucket->erase(std::move(iter));
-            ++removed;
-        }
-        else {
-            ++iter;
+            // another task may erase it as well: only one of them counts it
+            if (bucket->tryErase(iter)) {
+                ++removed;
+            }
         }
     }
 
-- 
2.43.0


From 9ba91ca9e7ad4799a773693e66b4a269680a12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:39 +0000
Subject: [PATCH 080/110] fix: FamMap::lock does not take the lock from a
 holder whose clock is ahead

---
 src/eckit/io/fam/FamMap.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/fam/FamMap.cc b/src/eckit/io/fam/FamMap.cc
index 5e134d4..945c436 100644
--- a/src/eckit/io/fam/FamMap.cc
+++ b/src/eckit/io/fam/FamMap.cc
@@ -386,9 +386,9 @@ void FamMap<T>::lock() {
             return;
         }
 
-        // Locked: check for a stale lease.
+        // Locked: check for a stale lease. The clock of the holder may be ahead of ours.
         const auto held = lock_.fetch<size_type>(0);
-        if (held != 0 && (now - held) > static_cast<size_type>(lock_ttl.count())) {
+        if (held != 0 && now > held && (now - held) > static_cast<size_type>(lock_ttl.count())) {
             // Lease expired — attempt to steal.
             if (lock_.compareSwap<size_type>(0, held, now) == held) {
                 Log::warning() << "FamMap::lock(): stale lock detected (held for " << (now - held) << "s > TTL "
-- 
2.43.0


From 4631b3109a3bdf4b57a10f80e5ec3224d195515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:03 +0000
Subject: [PATCH 081/110] fix: FamMap::unlock does not release the lock of
 another holder

A holder whose lease had expired released the lock of the process that had
taken it over.
---
 src/eckit/io/fam/FamMap.cc | 5 ++++-
 src/eckit/io/fam/FamMap.h  | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/fam/FamMap.cc b/src/eckit/io/fam/FamMap.cc
index 945c436..28716dd 100644
--- a/src/eckit/io/fam/FamMap.cc
+++ b/src/eckit/io/fam/FamMap.cc
@@ -383,6 +383,7 @@ void FamMap<T>::lock() {
 
         // Fast path: lock is free (0)
         if (lock_.compareSwap<size_type>(0, 0, now) == 0) {
+            lease_ = now;
             return;
         }
 
@@ -391,6 +392,7 @@ void FamMap<T>::lock() {
         if (held != 0 && now > held && (now - held) > static_cast<size_type>(lock_ttl.count())) {
             // Lease expired — attempt to steal.
             if (lock_.compareSwap<size_type>(0, held, now) == held) {
+                lease_ = now;
                 Log::warning() << "FamMap::lock(): stale lock detected (held for " << (now - held) << "s > TTL "
                                << lock_ttl.count() << "s) — stolen\n";
                 return;
@@ -404,7 +406,8 @@ void FamMap<T>::lock() {
 
 template <typename T>
 void FamMap<T>::unlock() {
-    lock_.set<size_type>(0, 0);
+    // Our lease may have expired and the lock been taken by another process
+    lock_.compareSwap<size_type>(0, lease_, 0);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/io/fam/FamMap.h b/src/eckit/io/fam/FamMap.h
index 7f91403..e0b576b 100644
--- a/src/eckit/io/fam/FamMap.h
+++ b/src/eckit/io/fam/FamMap.h
@@ -291,6 +291,8 @@ private:  // members
     FamObject table_;   ///< Flat array of FamList::Descriptor, one per bucket
     FamObject count_;   ///< Atomic uint64 tracking total element count
     FamObject lock_;    ///< Lease-based FAM lock (uint64: 0=free, timestamp=held)
+
+    fam::size_t lease_{0};  ///< Timestamp with which this object holds the lock
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 863c8bb4cb3c49e1559d3732f81edb84105b2d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:28 +0000
Subject: [PATCH 082/110] fix: TCPTransport: a worker accepts work messages
 larger than its buffer

---
 src/eckit/distributed/tcp/TCPTransport.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/distributed/tcp/TCPTransport.cc b/src/eckit/distributed/tcp/TCPTransport.cc
index 4021376..3ec11ac 100644
--- a/src/eckit/distributed/tcp/TCPTransport.cc
+++ b/src/eckit/distributed/tcp/TCPTransport.cc
@@ -239,7 +239,7 @@ void TCPTransport::getNextWorkMessage(Message& message) {
 
         case Actor::WORK:
             connection >> size;
-            ASSERT(size <= message.bufferSize());
+            message.reserve(size);
             connection.readBlob(message.messageData(), size);
             break;
 
-- 
2.43.0


From d0a288d241cb3ca9ef8c6205e4106810ec472f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:33 +0000
Subject: [PATCH 083/110] fix: HandleStream: go on when the handle takes or
 gives fewer bytes than asked for

---
 src/eckit/serialisation/HandleStream.h | 30 +++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/eckit/serialisation/HandleStream.h b/src/eckit/serialisation/HandleStream.h
index f5b5ca9..be4beec 100644
--- a/src/eckit/serialisation/HandleStream.h
+++ b/src/eckit/serialisation/HandleStream.h
@@ -47,9 +47,33 @@ private:
 
     // From Stream
 
-    virtual long write(const void* buf, long len) { return handle_.write(buf, len); }
-
-    virtual long read(void* buf, long len) { return handle_.read(buf, len); }
+    // A handle may take or give fewer bytes than asked for
+
+    virtual long write(const void* buf, long len) {
+        const char* p = static_cast<const char*>(buf);
+        long total    = 0;
+        while (total < len) {
+            long n = handle_.write(p + total, len - total);
+            if (n <= 0) {
+                return total > 0 ? total : n;
+            }
+            total += n;
+        }
+        return total;
+    }
+
+    virtual long read(void* buf, long len) {
+        char* p    = static_cast<char*>(buf);
+        long total = 0;
+        while (total < len) {
+            long n = handle_.read(p + total, len - total);
+            if (n <= 0) {
+                return total > 0 ? total : n;
+            }
+            total += n;
+        }
+        return total;
+    }
 
     virtual std::string name() const { return "HandleStream"; }
 };
-- 
2.43.0


From 2f4a442c36005bf18a65abd007ccdb8dd16b3bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:57 +0000
Subject: [PATCH 084/110] fix: Stream: long values beyond 32 bits arrive as
 they were sent

---
 src/eckit/serialisation/Stream.cc | 28 +++++++++++++++++++++++++---
 src/eckit/serialisation/Stream.h  |  1 +
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/eckit/serialisation/Stream.cc b/src/eckit/serialisation/Stream.cc
index d4582b7..edb55e3 100644
--- a/src/eckit/serialisation/Stream.cc
+++ b/src/eckit/serialisation/Stream.cc
@@ -199,6 +199,10 @@ Stream::tag Stream::nextTag() {
 }
 
 Stream::tag Stream::readTag(Stream::tag need) {
+    return readTag(need, need);
+}
+
+Stream::tag Stream::readTag(Stream::tag need, Stream::tag other) {
     tag t;
 
     // Skip any end-of-object lingering
@@ -213,7 +217,7 @@ Stream::tag Stream::readTag(Stream::tag need) {
         throw RemoteException(s, name());
     }
 
-    if (need != t) {
+    if (need != t && other != t) {
         badTag(need, t);
     }
 
@@ -276,6 +280,9 @@ Stream& Stream::operator<<(long x) {
         int32_t s;
     } u;
     T("w long", x);
+    if (x != int32_t(x)) {
+        return *this << static_cast<long long>(x);  // A 'long' is sent on 32 bits
+    }
     u.s = x;
     writeTag(tag_long);
     putLong(u.u);
@@ -284,6 +291,9 @@ Stream& Stream::operator<<(long x) {
 
 Stream& Stream::operator<<(unsigned long x) {
     T("w unsigned long", x);
+    if (x != uint32_t(x)) {
+        return *this << static_cast<unsigned long long>(x);  // An 'unsigned long' is sent on 32 bits
+    }
     writeTag(tag_unsigned_long);
     putLong(x);
     return *this;
@@ -498,7 +508,13 @@ Stream& Stream::operator>>(long& x) {
         uint32_t u;
         int32_t s;
     } u;
-    readTag(tag_long);
+    if (readTag(tag_long, tag_long_long) == tag_long_long) {
+        uint64_t u1 = getLong();
+        uint64_t u2 = getLong();
+        x           = static_cast<long>((u1 << 32) | u2);
+        ASSERT(static_cast<long long>((u1 << 32) | u2) == x);
+        return *this;
+    }
     u.u = getLong();
     x   = u.s;
     T("r long", x);
@@ -506,7 +522,13 @@ Stream& Stream::operator>>(long& x) {
 }
 
 Stream& Stream::operator>>(unsigned long& x) {
-    readTag(tag_unsigned_long);
+    if (readTag(tag_unsigned_long, tag_unsigned_long_long) == tag_unsigned_long_long) {
+        uint64_t u1 = getLong();
+        uint64_t u2 = getLong();
+        x           = static_cast<unsigned long>((u1 << 32) | u2);
+        ASSERT(((u1 << 32) | u2) == x);
+        return *this;
+    }
     x = getLong();
     T("r unsigned long", x);
     return *this;
diff --git a/src/eckit/serialisation/Stream.h b/src/eckit/serialisation/Stream.h
index 84882fc..ad6694a 100644
--- a/src/eckit/serialisation/Stream.h
+++ b/src/eckit/serialisation/Stream.h
@@ -199,6 +199,7 @@ private:
     void badTag(tag, tag);
     tag nextTag();
     tag readTag(tag = tag_zero);
+    tag readTag(tag, tag);
     void writeTag(tag);
 
     void getBytes(void*, long);
-- 
2.43.0


From e6bc61b0dbb74d4733c698a1b3964a1669a87906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:40 +0000
Subject: [PATCH 085/110] fix: PipeStream: go on after an interrupted read or
 write

---
 src/eckit/serialisation/PipeStream.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/eckit/serialisation/PipeStream.cc b/src/eckit/serialisation/PipeStream.cc
index 580a740..10e7b1f 100644
--- a/src/eckit/serialisation/PipeStream.cc
+++ b/src/eckit/serialisation/PipeStream.cc
@@ -10,6 +10,7 @@
 
 #include <fcntl.h>
 #include <unistd.h>
+#include <cerrno>
 #include <csignal>
 
 #include "eckit/exception/Exceptions.h"
@@ -87,6 +88,10 @@ long PipeStream::write(const void* buf, long length) {
     while (length > 0) {
         long len = ::write(out_, p, length);
 
+        if (len < 0 && errno == EINTR) {
+            continue;
+        }
+
         if (len < 0) {
             Log::error() << "PipeStream::write " << Log::syserr << std::endl;
             return len;
@@ -111,6 +116,10 @@ long PipeStream::read(void* buf, long length) {
     while (length > 0) {
         long len = ::read(in_, p, length);
 
+        if (len < 0 && errno == EINTR) {
+            continue;
+        }
+
         if (len < 0) {
             Log::error() << "PipeStream::read " << Log::syserr << std::endl;
             return len;
-- 
2.43.0


From 6d2a023d136da26d87123809843385ab3246dade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:52 +0000
Subject: [PATCH 086/110] fix: URLHandle: the choice of SSL travels with the
 handle

---
 src/eckit/io/URLHandle.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/URLHandle.cc b/src/eckit/io/URLHandle.cc
index 3c954fc..2efd72f 100644
--- a/src/eckit/io/URLHandle.cc
+++ b/src/eckit/io/URLHandle.cc
@@ -32,10 +32,16 @@ void URLHandle::print(std::ostream& s) const {
 void URLHandle::encode(Stream& s) const {
     DataHandle::encode(s);
     s << uri_;
+    if (!useSSL_) {  // only sent when it is not the default
+        s << useSSL_;
+    }
 }
 
-URLHandle::URLHandle(Stream& s) : DataHandle(s) {
+URLHandle::URLHandle(Stream& s) : DataHandle(s), useSSL_(true) {
     s >> uri_;
+    if (!s.endObjectFound()) {
+        s >> useSSL_;
+    }
 }
 
 URLHandle::URLHandle(const std::string& uri, bool useSSL) : uri_(uri), useSSL_(useSSL) {}
-- 
2.43.0


From 9f1d72d0e4f8be39b6b81097f19bbf132f33a880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:56 +0000
Subject: [PATCH 087/110] fix: the start of a long line is not lost when the
 buffer of a LineBasedTarget grows

---
 src/eckit/log/LineBasedTarget.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eckit/log/LineBasedTarget.cc b/src/eckit/log/LineBasedTarget.cc
index 51735d5..674c9cb 100644
--- a/src/eckit/log/LineBasedTarget.cc
+++ b/src/eckit/log/LineBasedTarget.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstring>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/maths/Functions.h"
 
@@ -27,10 +29,12 @@ LineBasedTarget::~LineBasedTarget() {
 
 void LineBasedTarget::reserve(size_t size) {
     if (size_ < size) {
+        size_        = round(size, 1024 * 1024);
+        char* larger = new char[size_];
+        ASSERT(larger);
+        ::memcpy(larger, buffer_, position_);
         delete[] buffer_;
-        size_   = round(size, 1024 * 1024);
-        buffer_ = new char[size_];
-        ASSERT(buffer_);
+        buffer_ = larger;
     }
 }
 
-- 
2.43.0


From 30bf17b2a9053872b10e1f0a49e70e4eab4ebd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:08 +0000
Subject: [PATCH 088/110] fix: the targets of a rotating log write whole lines
 to the file they share

---
 src/eckit/log/RotationTarget.cc | 23 ++++++++++++++++++-----
 src/eckit/log/RotationTarget.h  |  1 +
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/eckit/log/RotationTarget.cc b/src/eckit/log/RotationTarget.cc
index 62df922..1eaf79e 100644
--- a/src/eckit/log/RotationTarget.cc
+++ b/src/eckit/log/RotationTarget.cc
@@ -44,15 +44,28 @@ public:
         return *(*j).second;
     }
 
-    void write(const char* start, const char* end) {
+    /// Writes whole lines only, so that the targets sharing this file do not mix within a line:
+    /// the incomplete end stays pending
+    void write(std::string& pending, const char* start, const char* end) {
         if (start >= end)
             return;
         AutoLock<StaticMutex> lock(local_mutex);
-        rotout().write(start, end - start);
+        pending.append(start, end);
+        size_t lines = pending.rfind('\n');
+        if (lines != std::string::npos) {
+            std::string text(pending, 0, lines + 1);
+            pending.erase(0, lines + 1);
+            rotout().write(text.data(), text.size());
+        }
     }
 
-    void flush() {
+    void flush(std::string& pending) {
         AutoLock<StaticMutex> lock(local_mutex);
+        if (!pending.empty()) {
+            std::string text;
+            text.swap(pending);
+            rotout().write(text.data(), text.size());
+        }
         if (last_) {
             last_->flush();
         }
@@ -131,10 +144,10 @@ RotationTarget::~RotationTarget() {}
 void RotationTarget::write(const char* start, const char* end) {
     if (start >= end)
         return;
-    RotationOutputStream::instance(name_).write(start, end);
+    RotationOutputStream::instance(name_).write(pending_, start, end);
 }
 void RotationTarget::flush() {
-    RotationOutputStream::instance(name_).flush();
+    RotationOutputStream::instance(name_).flush(pending_);
 }
 
 void RotationTarget::print(std::ostream& s) const {
diff --git a/src/eckit/log/RotationTarget.h b/src/eckit/log/RotationTarget.h
index 3cbbf27..3a1884c 100644
--- a/src/eckit/log/RotationTarget.h
+++ b/src/eckit/log/RotationTarget.h
@@ -40,6 +40,7 @@ protected:
 private:
 
     std::string name_;
+    std::string pending_;  ///< start of a line that is not yet complete
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 0e63e3fcc1d4f11f77ace6cba929002391e8e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:08 +0000
Subject: [PATCH 089/110] fix: each line written to the user channel is sent
 once

---
 src/eckit/log/UserChannel.cc | 45 +++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/eckit/log/UserChannel.cc b/src/eckit/log/UserChannel.cc
index b17c55a..56e1fa1 100644
--- a/src/eckit/log/UserChannel.cc
+++ b/src/eckit/log/UserChannel.cc
@@ -8,7 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
-#include <algorithm>
+#include <string>
 #include <vector>
 
 #include "eckit/exception/Exceptions.h"
@@ -27,15 +27,20 @@ public:
     using MsgType = UserChannel::MsgType;
 
     UserBuffer(std::size_t size = 1024) :
-        std::streambuf(), buffer_(size + 1), msgType_(UserChannel::NONE), user_{nullptr} {
+        std::streambuf(), buffer_(size), msgType_(UserChannel::NONE), user_{nullptr} {
         ASSERT(size);
         char* base = &buffer_.front();
-        setp(base, base + buffer_.size() - 1);  // don't consider the space for '\0'
+        setp(base, base + buffer_.size());
     }
 
     ~UserBuffer() { sync(); }
 
-    void msgType(MsgType t) { msgType_ = t; }
+    void msgType(MsgType t) {
+        if (t != msgType_) {
+            sync();  // what was written so far is of the previous type
+        }
+        msgType_ = t;
+    }
     MsgType msgType() const { return msgType_; }
 
     void userMsg(UserMsg* p) { user_ = p; }
@@ -44,33 +49,43 @@ public:
 private:
 
     std::vector<char> buffer_;  ///< internal buffer
+    std::string pending_;       ///< start of a line that is not yet complete
     MsgType msgType_;           ///< type of next message
     UserMsg* user_;             ///< interface to user messeges
 
-    bool dumpBuffer() {
-        std::replace(pbase(), epptr(), '\n', '\0');
-
+    void send(const std::string& line) {
         switch (msgType_) {
             case UserChannel::NONE:
                 break;
             case UserChannel::INFO:
                 if (user_) {
-                    user_->infoMsg(pbase());
+                    user_->infoMsg(line);
                 }
                 break;
             case UserChannel::WARN:
                 if (user_) {
-                    user_->warningMsg(pbase());
+                    user_->warningMsg(line);
                 }
                 break;
             case UserChannel::ERROR:
                 if (user_) {
-                    user_->errorMsg(pbase());
+                    user_->errorMsg(line);
                 }
                 break;
         }
+    }
 
+    /// Sends each line as one message: an incomplete last line stays pending
+    bool dumpBuffer() {
+        pending_.append(pbase(), pptr());
         setp(pbase(), epptr());
+
+        size_t end;
+        while ((end = pending_.find('\n')) != std::string::npos) {
+            std::string line(pending_, 0, end);
+            pending_.erase(0, end + 1);
+            send(line);
+        }
         return true;
     }
 
@@ -85,7 +100,15 @@ protected:
         return traits_type::to_int_type(ch);
     }
 
-    virtual int_type sync() { return (dumpBuffer() ? 0 : -1); }
+    virtual int_type sync() {
+        dumpBuffer();
+        if (!pending_.empty()) {
+            std::string line;
+            line.swap(pending_);
+            send(line);
+        }
+        return 0;
+    }
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 49363561183c94980625228bec73baea539722b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:29 +0000
Subject: [PATCH 090/110] fix: a failed write to a rotating log does not
 silence it until the next day

---
 src/eckit/log/RotationTarget.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/log/RotationTarget.cc b/src/eckit/log/RotationTarget.cc
index 1eaf79e..80a3d11 100644
--- a/src/eckit/log/RotationTarget.cc
+++ b/src/eckit/log/RotationTarget.cc
@@ -67,6 +67,7 @@ public:
             rotout().write(text.data(), text.size());
         }
         if (last_) {
+            last_->clear();
             last_->flush();
         }
     }
@@ -93,6 +94,7 @@ private:
             os << path << "/" << name_;
 
             delete last_;
+            last_ = nullptr;
 
             last_ = new std::ofstream();
 
@@ -104,6 +106,8 @@ private:
 
             last_->open(os.str().c_str(), std::ofstream::out | std::ofstream::app);
             if (last_->fail()) {
+                delete last_;
+                last_ = nullptr;
                 throw eckit::CantOpenFile(os.str());
             }
 
@@ -116,6 +120,8 @@ private:
             lastTime_ = now;
         }
 
+        last_->clear();  // a write that failed earlier must not silence the log from then on
+
         return *last_;
     }
 
-- 
2.43.0


From 469da645458fe959aacc961f309414e94805c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:01 +0000
Subject: [PATCH 091/110] fix: a log target that fails once does not silence
 the channel, nor end the program

---
 src/eckit/log/ChannelBuffer.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/eckit/log/ChannelBuffer.cc b/src/eckit/log/ChannelBuffer.cc
index 14d67c6..73915cc 100644
--- a/src/eckit/log/ChannelBuffer.cc
+++ b/src/eckit/log/ChannelBuffer.cc
@@ -8,6 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
+#include <iostream>
 #include <ostream>
 
 #include "eckit/exception/Exceptions.h"
@@ -72,7 +73,13 @@ bool ChannelBuffer::dumpBuffer() {
     if (target_) {
         // Explicitly check that `pptr()` is not larger than end of buffer. Racecondition can end up adding larger
         // values.
-        target_->write(buffer_.data(), std::min(pptr(), buffer_.data() + buffer_.size()));
+        try {
+            target_->write(buffer_.data(), std::min(pptr(), buffer_.data() + buffer_.size()));
+        }
+        catch (std::exception& e) {
+            // A target that fails once must not silence the channel for good, nor end the program on destruction
+            std::cerr << "Exception caught when writing to a log target: " << e.what() << std::endl;
+        }
     }
     setp(buffer_.data(), buffer_.data() + buffer_.size());
     return true;
@@ -129,7 +136,12 @@ std::streambuf::int_type ChannelBuffer::overflow(std::streambuf::int_type ch) {
 std::streambuf::int_type ChannelBuffer::sync() {
     if (dumpBuffer()) {
         if (target_) {
-            target_->flush();
+            try {
+                target_->flush();
+            }
+            catch (std::exception& e) {
+                std::cerr << "Exception caught when flushing a log target: " << e.what() << std::endl;
+            }
         }
         return 0;
     }
-- 
2.43.0


From ee39b4a16b0f2692458eceef2ec23714c1f3bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:15 +0000
Subject: [PATCH 092/110] fix: time stamps in formats of any length

---
 src/eckit/log/TimeStamp.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eckit/log/TimeStamp.cc b/src/eckit/log/TimeStamp.cc
index 2dfc715..a127977 100644
--- a/src/eckit/log/TimeStamp.cc
+++ b/src/eckit/log/TimeStamp.cc
@@ -33,15 +33,17 @@ std::ostream& operator<<(std::ostream& s, const TimeStamp& x) {
         return s;
     }
 
-    char buf[80];
 #if eckit_HAVE_GMTIME_R
     struct tm t;
-    ::strftime(buf, sizeof(buf), x.format_.c_str(), gmtime_r(&x.time_, &t));
+    struct tm* tm = gmtime_r(&x.time_, &t);
 #else
-    ::strftime(buf, sizeof(buf), x.format_.c_str(), gmtime(&x.time_));
+    struct tm* tm = gmtime(&x.time_);
 #endif
 
-    s << buf;
+    std::ostringstream oss;  // of any length, and not affected by the width and fill of s
+    oss << std::put_time(tm, x.format_.c_str());
+
+    s << oss.str().c_str();
 
     return s;
 }
-- 
2.43.0


From 71856449637d9a3e5c98842f36bba011edc723fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:50 +0000
Subject: [PATCH 093/110] fix: Dispatcher: requests pushed while a growing
 dispatcher is reconfigured are handled

---
 src/eckit/runtime/Dispatcher.h | 43 +++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/eckit/runtime/Dispatcher.h b/src/eckit/runtime/Dispatcher.h
index feaacf4..f4af9d2 100644
--- a/src/eckit/runtime/Dispatcher.h
+++ b/src/eckit/runtime/Dispatcher.h
@@ -91,6 +91,9 @@ public:
     // Process a request from the queue
     bool next(Handler&, std::vector<Request*>&, Mutex&);
 
+    // Called by a thread that stops
+    void stopping();
+
     // Remove a request from the queue without processing
     void dequeue(DequeuePicker<Request>&);
 
@@ -157,6 +160,7 @@ private:
     void print(std::ostream&) const;
     void changeThreadCount(int delta);
     void _push(Request*);
+    void grow();
 
     // From Configurable
 
@@ -288,6 +292,7 @@ void DispatchTask<Traits>::run() {
         if (stop)  // The thread must stop
         {
             Log::info() << "Stopping thread " << id_ << std::endl;
+            owner_.stopping();
             break;
         }
 
@@ -387,14 +392,33 @@ void Dispatcher<Traits>::push(Request* r) {
         return;
     }
 
+    _push(r);
+    grow();
+}
+
+template <class Traits>
+void Dispatcher<Traits>::grow() {
     if (grow_) {
-        int cnt = running();
-        if (cnt == count_) {
-            changeThreadCount(1);
+        {
+            AutoLock<Mutex> lock(lock_);
+            if (running_ < count_) {
+                return;  // some thread is or will be free
+            }
         }
+        changeThreadCount(1);
     }
+}
 
-    _push(r);
+template <class Traits>
+void Dispatcher<Traits>::stopping() {
+    bool pending = false;
+    {
+        AutoLock<MutexCond> lock(ready_);
+        pending = std::any_of(queue_.begin(), queue_.end(), [](Request* r) { return r != nullptr; });
+    }
+    if (pending) {
+        grow();
+    }
 }
 
 template <class Traits>
@@ -519,20 +543,21 @@ void Dispatcher<Traits>::changeThreadCount(int delta) {
             ThreadControler c(new DT(*this, next_++));
             c.start();
         }
+        AutoLock<Mutex> lock(lock_);
+        count_ += delta;
     }
 
     // Decrease number of threads by pushing null requests in
     // the queue, which will cause threads to stop
     if (delta < 0) {
+        {
+            AutoLock<Mutex> lock(lock_);
+            count_ += delta;  // from now on new requests cannot rely on these threads
+        }
         for (int i = 0; i < -delta; i++) {
             _push(0);
         }
     }
-
-    if (delta) {
-        AutoLock<Mutex> lock(lock_);
-        count_ += delta;
-    }
 }
 
 template <class Traits>
-- 
2.43.0


From 7838e7ce85e3c8e5a195a5e4b28c56402d03efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:07 +0000
Subject: [PATCH 094/110] fix: Dispatcher: a thread going to sleep does not
 miss that it was awakened meanwhile

---
 src/eckit/runtime/Dispatcher.h | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/eckit/runtime/Dispatcher.h b/src/eckit/runtime/Dispatcher.h
index f4af9d2..8ef53c0 100644
--- a/src/eckit/runtime/Dispatcher.h
+++ b/src/eckit/runtime/Dispatcher.h
@@ -106,6 +106,12 @@ public:
     // Signal all sleeping threads
     void awake();
 
+    // How often sleeping threads were signalled
+    unsigned long awakenings() const;
+
+    // Sleep until threads are signalled again, if they were not meanwhile
+    void sleepSince(unsigned long awakenings);
+
     // Get the queue size
     int size() const;
 
@@ -138,7 +144,9 @@ protected:
     // Mutex protecting queue_
     mutable MutexCond ready_;
     // Mutex for thread sleep/wake handling
-    MutexCond wait_;
+    mutable MutexCond wait_;
+    // Number of wake-ups so far (protected by wait_)
+    unsigned long awakenings_;
     // Dispatcher name
     std::string name_;
     // Do we dynamically grow the number of threads?
@@ -287,6 +295,8 @@ void DispatchTask<Traits>::run() {
 
     while (!stopped()) {
 
+        const unsigned long seen = owner_.awakenings();
+
         bool stop = owner_.next(handler, pick_, mutex_);
 
         if (stop)  // The thread must stop
@@ -304,7 +314,7 @@ void DispatchTask<Traits>::run() {
             }
             else {
                 handler.idle();
-                owner_.sleep();  // Wait for something else to come...
+                owner_.sleepSince(seen);  // Wait for something else to come...
             }
         }
         catch (std::exception& e) {
@@ -350,6 +360,7 @@ Dispatcher<Traits>::Dispatcher(const std::string& name, int numberOfThreads) :
     numberOfThreads_(this, "-numberOfThreads;numberOfThreads", numberOfThreads),
     count_(0),
     next_(0),
+    awakenings_(0),
     name_(name),
     // Dynamically grow number of threads if set to 0
     grow_(numberOfThreads_ == 0),
@@ -450,9 +461,24 @@ template <class Traits>
 void Dispatcher<Traits>::awake() {
     Log::debug() << "Awake ..." << std::endl;
     AutoLock<MutexCond> lock(wait_);
+    awakenings_++;
     wait_.broadcast();
 }
 
+template <class Traits>
+unsigned long Dispatcher<Traits>::awakenings() const {
+    AutoLock<MutexCond> lock(wait_);
+    return awakenings_;
+}
+
+template <class Traits>
+void Dispatcher<Traits>::sleepSince(unsigned long awakenings) {
+    AutoLock<MutexCond> lock(wait_);
+    while (awakenings_ == awakenings) {
+        wait_.wait();
+    }
+}
+
 template <class Traits>
 int Dispatcher<Traits>::size() const {
     AutoLock<MutexCond> lock(ready_);
-- 
2.43.0


From c6fb4f1ad24a742212581fcc5955b5bb8807fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:20 +0000
Subject: [PATCH 095/110] fix: Exception: the stack of exceptions of a thread
 stays right when they are copied or end in another thread or order

---
 src/eckit/exception/Exceptions.cc | 105 ++++++++++++++++++++++++++----
 src/eckit/exception/Exceptions.h  |  16 +++--
 2 files changed, 104 insertions(+), 17 deletions(-)

diff --git a/src/eckit/exception/Exceptions.cc b/src/eckit/exception/Exceptions.cc
index ea60a6a..e9fb8d3 100644
--- a/src/eckit/exception/Exceptions.cc
+++ b/src/eckit/exception/Exceptions.cc
@@ -14,6 +14,9 @@
 
 #include <csignal>
 #include <cstdlib>
+#include <mutex>
+#include <utility>
+#include <vector>
 
 #include "eckit/config/LibEcKit.h"
 #include "eckit/log/Log.h"
@@ -55,23 +58,89 @@ private:
         stopOnPanic(getenv_on("STOP_ON_PANIC")) {}
 };
 
-static Exception*& first() {
-    static ThreadSingleton<Exception*> p;
-    return p.instance();
+// The exceptions created by a thread that still exist, most recent first.
+// They may be destroyed in any order, by another thread, and after the end of the thread.
+struct Exception::Stack {
+
+    struct Alloc {
+        std::shared_ptr<Stack>* operator()() { return new std::shared_ptr<Stack>(std::make_shared<Stack>()); }
+    };
+
+    static std::shared_ptr<Stack> current() {
+        static ThreadSingleton<std::shared_ptr<Stack>, Alloc> p;
+        return p.instance();
+    }
+
+    Exception* first = nullptr;
+};
+
+static std::mutex stack_mutex;
+
+void Exception::attach() {
+    stack_ = Stack::current();
+    std::lock_guard<std::mutex> lock(stack_mutex);
+    next_         = stack_->first;
+    stack_->first = this;
 }
 
-Exception::Exception() : next_(first()) {
-    first() = this;
+void Exception::detach() noexcept {
+    std::lock_guard<std::mutex> lock(stack_mutex);
+    for (Exception** e = &stack_->first; *e != nullptr; e = &(*e)->next_) {
+        if (*e == this) {
+            *e = next_;
+            break;
+        }
+    }
+}
 
+Exception::Exception() {
     callStack_ = BackTrace::dump();
 
     if (Runtime::instance().exceptionDumpsBacktrace) {
         std::cerr << "Exception dumping backtrace: " << callStack_ << std::endl;
     }
+
+    attach();
+}
+
+Exception::Exception(const Exception& other) :
+    std::exception(other),
+    what_(other.what_),
+    callStack_(other.callStack_),
+    save_(other.save_),
+    location_(other.location_) {
+    attach();
+}
+
+Exception::Exception(Exception&& other) :
+    std::exception(other),
+    what_(std::move(other.what_)),
+    callStack_(std::move(other.callStack_)),
+    save_(other.save_),
+    location_(std::move(other.location_)) {
+    attach();
+}
+
+Exception& Exception::operator=(const Exception& other) {
+    if (this != &other) {
+        Exception copy(other);
+        *this = std::move(copy);
+    }
+    return *this;
+}
+
+Exception& Exception::operator=(Exception&& other) {
+    // exceptionStack() may be reading
+    std::lock_guard<std::mutex> lock(stack_mutex);
+    what_      = std::move(other.what_);
+    callStack_ = std::move(other.callStack_);
+    save_      = other.save_;
+    location_  = std::move(other.location_);
+    return *this;
 }
 
 Exception::~Exception() noexcept {
-    first() = next_;
+    detach();
 }
 
 void Exception::print(std::ostream& out) const {
@@ -80,11 +149,21 @@ void Exception::print(std::ostream& out) const {
 
 void Exception::exceptionStack(std::ostream& out, bool callStack) {
     out << "Exception stack: " << std::endl;
-    for (auto* e = first(); e != nullptr; e = e->next_) {
-        out << e->what() << std::endl;
+
+    std::vector<std::pair<std::string, std::string>> exceptions;
+    {
+        auto stack = Stack::current();
+        std::lock_guard<std::mutex> lock(stack_mutex);
+        for (auto* e = stack->first; e != nullptr; e = e->next_) {
+            exceptions.emplace_back(e->what_, e->callStack_);
+        }
+    }
+
+    for (const auto& e : exceptions) {
+        out << e.first << std::endl;
 
         if (callStack) {
-            out << e->callStack() << std::endl << std::endl;
+            out << e.second << std::endl << std::endl;
         }
     }
     out << "End stack" << std::endl;
@@ -93,7 +172,7 @@ void Exception::exceptionStack(std::ostream& out, bool callStack) {
 Exception::Exception(const std::string& w, const CodeLocation& loc) : Exception(w, loc, false) {}
 
 Exception::Exception(const std::string& w, const CodeLocation& loc, bool quiet) :
-    what_(w), next_(first()), location_(loc) {
+    what_(w), location_(loc) {
     callStack_ = BackTrace::dump();
 
     if (Runtime::instance().exceptionDumpsBacktrace) {
@@ -105,7 +184,7 @@ Exception::Exception(const std::string& w, const CodeLocation& loc, bool quiet)
         Log::status() << "** " << w << location_ << std::endl;
     }
 
-    first() = this;
+    attach();
 }
 
 std::ostream& Exception::dumpStackTrace(std::ostream& out) {
@@ -120,7 +199,9 @@ void Exception::reason(const std::string& w) {
 }
 
 bool Exception::throwing() {
-    return first() != nullptr;
+    auto stack = Stack::current();
+    std::lock_guard<std::mutex> lock(stack_mutex);
+    return stack->first != nullptr;
 }
 
 TooManyRetries::TooManyRetries(int retries, const std::string& w) :
diff --git a/src/eckit/exception/Exceptions.h b/src/eckit/exception/Exceptions.h
index adb64a5..321188a 100644
--- a/src/eckit/exception/Exceptions.h
+++ b/src/eckit/exception/Exceptions.h
@@ -25,6 +25,7 @@
 
 #include <cerrno>
 #include <iostream>
+#include <memory>
 #include <sstream>
 #include <string>
 
@@ -62,16 +63,16 @@ public:
     explicit Exception(const std::string& what, const CodeLocation& loc, bool quiet);
     Exception();
 
-    Exception(const Exception&) = default;
-    Exception(Exception&&)      = default;
+    Exception(const Exception&);
+    Exception(Exception&&);
 
     /// Destructor
     /// @throws nothing
     ~Exception() noexcept override;
 
     /// Operators
-    Exception& operator=(const Exception&) = default;
-    Exception& operator=(Exception&&)      = default;
+    Exception& operator=(const Exception&);
+    Exception& operator=(Exception&&);
 
     const char* what() const noexcept override { return what_.c_str(); }
 
@@ -96,10 +97,15 @@ protected:
 
 private:
 
+    void attach();
+    void detach() noexcept;
+
     std::string what_;       ///< description
     std::string callStack_;  ///< call stack
     SavedStatus save_;       ///< saved monitor status to recover after destruction
-    Exception* next_;
+    struct Stack;
+    std::shared_ptr<Stack> stack_;  ///< exceptions created by the same thread that still exist
+    Exception* next_ = nullptr;     ///< next in the stack
     CodeLocation location_;  ///< where exception was first thrown
 
     friend std::ostream& operator<<(std::ostream& s, const Exception& p) {
-- 
2.43.0


From 06802a215e2541f6ef5933f620e8666c7f983550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:53 +0000
Subject: [PATCH 096/110] fix: long lines and long names in configuration files
 are not cut short

---
 src/eckit/config/ResourceMgr.cc | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/eckit/config/ResourceMgr.cc b/src/eckit/config/ResourceMgr.cc
index 6141d84..1042d08 100644
--- a/src/eckit/config/ResourceMgr.cc
+++ b/src/eckit/config/ResourceMgr.cc
@@ -10,6 +10,8 @@
 
 #include <cstring>  // for strlen
 #include <fstream>
+#include <string>
+#include <tuple>
 
 #include "eckit/config/ResourceMgr.h"
 
@@ -120,11 +122,11 @@ void ResourceMgr::readConfigFile(const LocalPathName& file) {
     int cnt = 0;
 
     std::ifstream in(file.localPath());
-    char line[1024];
+    std::string line;
 
-    while (in.getline(line, sizeof(line))) {
+    while (std::getline(in, line)) {
         cnt++;
-        if (!parse(line)) {
+        if (!parse(line.c_str())) {
             Log::warning() << "Invalid line, file " << file << " line " << cnt << " = " << line << std::endl;
         }
     }
@@ -194,14 +196,7 @@ ResourceQualifier::ResourceQualifier(const ResourceQualifier& other) {
 }
 
 int ResourceQualifier::operator<(const ResourceQualifier& other) const {
-    // to be rewritten
-    char buf1[1024];
-    char buf2[1024];
-
-    snprintf(buf1, sizeof(buf1), "%s.%s.%s", owner_.c_str(), kind_.c_str(), name_.c_str());
-    snprintf(buf2, sizeof(buf2), "%s.%s.%s", other.owner_.c_str(), other.kind_.c_str(), other.name_.c_str());
-
-    return strcmp(buf1, buf2) < 0;
+    return std::tie(owner_, kind_, name_) < std::tie(other.owner_, other.kind_, other.name_);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 12fd5edbbc7b4e5bdc34b9dabe9c8146f3961ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:07 +0000
Subject: [PATCH 097/110] fix: blanks after the dots of a qualified name in a
 configuration file are not part of the name

---
 src/eckit/config/ResourceMgr.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/config/ResourceMgr.cc b/src/eckit/config/ResourceMgr.cc
index 1042d08..542b430 100644
--- a/src/eckit/config/ResourceMgr.cc
+++ b/src/eckit/config/ResourceMgr.cc
@@ -60,9 +60,10 @@ bool ResourceMgr::parse(const char* p) {
     int n = 0;
 
     for (;;) {
+        p = skip_spaces(p);
+
         const char* q = p;
 
-        p = skip_spaces(p);
         while (*p && *p != ':' && *p != '.' && !isspace(*p)) {
             p++;
         }
-- 
2.43.0


From 6b5a26a726533e568fe89276dc0916fdd392b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:21 +0000
Subject: [PATCH 098/110] fix: a table is read whole, and can be reloaded while
 others look things up

---
 src/eckit/config/EtcTable.cc | 10 ++++------
 src/eckit/config/EtcTable.h  |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/eckit/config/EtcTable.cc b/src/eckit/config/EtcTable.cc
index 155da34..66b84f2 100644
--- a/src/eckit/config/EtcTable.cc
+++ b/src/eckit/config/EtcTable.cc
@@ -21,15 +21,13 @@ namespace eckit {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-static const std::vector<std::string> empty;
-
 EtcTable::EtcTable(const std::string& name, int size, const std::string& dir) :
     last_(0), dir_(dir), name_(name), size_(size) {}
 
 EtcTable::~EtcTable() {}
 
 
-const std::vector<std::string>& EtcTable::lookUp(const std::string& name) {
+std::vector<std::string> EtcTable::lookUp(const std::string& name) {
     AutoLock<Mutex> lock(mutex_);
     if (last_ == 0) {
         load();
@@ -42,7 +40,7 @@ const std::vector<std::string>& EtcTable::lookUp(const std::string& name) {
         }
     }
 
-    return empty;
+    return {};
 }
 
 std::vector<std::string> EtcTable::keys() {
@@ -105,8 +103,8 @@ void EtcTable::load() {
         return;
     }
 
-    char line[1024];
-    while (in.getline(line, sizeof(line))) {
+    std::string line;
+    while (std::getline(in, line)) {
         Tokenizer parse(" ");
         std::vector<std::string> s;
         parse(line, s);
diff --git a/src/eckit/config/EtcTable.h b/src/eckit/config/EtcTable.h
index 1d42923..108d3c7 100644
--- a/src/eckit/config/EtcTable.h
+++ b/src/eckit/config/EtcTable.h
@@ -39,7 +39,7 @@ public:
 
     virtual ~EtcTable();
 
-    const std::vector<std::string>& lookUp(const std::string&);
+    std::vector<std::string> lookUp(const std::string&);
     std::vector<std::string> keys();
     std::vector<std::vector<std::string> > lines();
 
-- 
2.43.0


From 763a547d67e2ed89a6b0e1e44a87935beb3f46d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:21 +0000
Subject: [PATCH 099/110] fix: a resource first used by several threads gets
 its value once

---
 src/eckit/config/ResourceBase.cc | 7 +++++++
 src/eckit/config/ResourceBase.h  | 5 ++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/eckit/config/ResourceBase.cc b/src/eckit/config/ResourceBase.cc
index 95bf636..8b88e68 100644
--- a/src/eckit/config/ResourceBase.cc
+++ b/src/eckit/config/ResourceBase.cc
@@ -13,6 +13,7 @@
 #include "eckit/config/Resource.h"
 #include "eckit/config/ResourceMgr.h"
 #include "eckit/runtime/Main.h"
+#include "eckit/thread/AutoLock.h"
 
 namespace eckit {
 
@@ -82,6 +83,12 @@ void ResourceBase::init() {
         return;
     }
 
+    AutoLock<Mutex> lock(mutex_);
+
+    if (inited_) {
+        return;
+    }
+
     // First look in config file
     // First look for an option on the command line
 
diff --git a/src/eckit/config/ResourceBase.h b/src/eckit/config/ResourceBase.h
index bac5ac1..78ced1d 100644
--- a/src/eckit/config/ResourceBase.h
+++ b/src/eckit/config/ResourceBase.h
@@ -15,8 +15,10 @@
 #ifndef eckit_config_ResourceBase_h
 #define eckit_config_ResourceBase_h
 
+#include <atomic>
 #include <string>
 
+#include "eckit/thread/Mutex.h"
 #include "eckit/utils/Tokenizer.h"
 #include "eckit/utils/Translator.h"
 
@@ -60,7 +62,8 @@ private:  // members
     std::string environment_;  // In the environment variables
     std::string options_;      // For the command line options
 
-    bool inited_;
+    std::atomic<bool> inited_;
+    Mutex mutex_;  // several threads may use a resource for the first time
 
 private:  // methods
 
-- 
2.43.0


From 57b6fb38e760dcc5a38211f6bd33b8e2cd8f3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:11 +0000
Subject: [PATCH 100/110] fix: a message that is assigned another one forgets
 the decoder of its previous content

---
 src/eckit/message/Message.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eckit/message/Message.cc b/src/eckit/message/Message.cc
index d8adc4a..7303fdc 100644
--- a/src/eckit/message/Message.cc
+++ b/src/eckit/message/Message.cc
@@ -62,6 +62,8 @@ Message& Message::operator=(const Message& other) {
         content_->detach();
         content_ = other.content_;
         content_->attach();
+
+        decoder_ = nullptr;  // looked up for the previous content
     }
     return *this;
 }
-- 
2.43.0


From 442e6c0c64e187892383f760342d1a7b64a64b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:21 +0000
Subject: [PATCH 101/110] fix: ClusterDisks::node took a file for one of every
 disk whose name its path begins with

---
 src/eckit/io/cluster/ClusterDisks.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/cluster/ClusterDisks.cc b/src/eckit/io/cluster/ClusterDisks.cc
index 54dd66b..7067fc8 100644
--- a/src/eckit/io/cluster/ClusterDisks.cc
+++ b/src/eckit/io/cluster/ClusterDisks.cc
@@ -382,6 +382,14 @@ void ClusterDisks::load(const std::string& type, std::vector<std::string>& disks
     }
 }
 
+// whether a path is on a disk, and not only on one whose name begins with that of the disk
+static bool isOnDisk(const std::string& path, const std::string& disk) {
+    if (path.compare(0, disk.length(), disk) != 0) {
+        return false;
+    }
+    return path.length() == disk.length() || path[disk.length()] == '/' || (!disk.empty() && disk.back() == '/');
+}
+
 std::string ClusterDisks::node(const std::string& path) {
 
     pthread_once(&once, diskarray_init);
@@ -390,7 +398,7 @@ std::string ClusterDisks::node(const std::string& path) {
 
     AutoLock<DiskArray> lock(*clusterDisks);
     for (DiskArray::const_iterator k = clusterDisks->begin(); k != clusterDisks->end(); ++k) {
-        if ((*k).active() && (path.find((*k).path()) == 0)) {
+        if ((*k).active() && isOnDisk(path, (*k).path())) {
             if (j != clusterDisks->end()) {
                 std::ostringstream os;
                 os << "Two nodes found for [" << path << "] "
@@ -425,7 +433,7 @@ std::string ClusterDisks::node(const std::string& path) {
                     const FileSpace& fs            = FileSpace::lookUp(tokens[0]);
                     const std::vector<PathName>& v = fs.fileSystems();
                     for (size_t j = 0; j < v.size(); ++j) {
-                        if (path.find(v[j].asString()) == 0) {
+                        if (isOnDisk(path, v[j].asString())) {
                             Log::info() << "ClusterDisks::node [" << path << "] is on " << v[j] << std::endl;
                             return "local";
                         }
-- 
2.43.0


From 1e7c6c86b98dc0f111c99466a8fd5f884123a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:42 +0000
Subject: [PATCH 102/110] fix: FileSpace took the words of a comment for file
 systems, and a long one did not fit its buffer

---
 src/eckit/filesystem/FileSpace.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eckit/filesystem/FileSpace.cc b/src/eckit/filesystem/FileSpace.cc
index 854f730..2f6f601 100644
--- a/src/eckit/filesystem/FileSpace.cc
+++ b/src/eckit/filesystem/FileSpace.cc
@@ -12,6 +12,7 @@
 
 #include <algorithm>
 #include <fstream>
+#include <sstream>
 
 #include "eckit/config/Resource.h"
 #include "eckit/filesystem/FileSpace.h"
@@ -156,10 +157,13 @@ void FileSpace::load() const {
             throw CantOpenFile(config);
         }
 
-        char line[1024] = {};
-        while (in >> line) {
-            if (line[0] != 0 && line[0] != '#') {
-                disks.push_back(line);
+        std::string line;
+        while (std::getline(in, line)) {
+            std::istringstream words(line);
+            std::string word;
+            // a comment goes to the end of its line
+            while (words >> word && word[0] != '#') {
+                disks.push_back(word);
             }
         }
     }
-- 
2.43.0


From 4199b8cbd585014b05db736f9bb04fcd3774093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:11 +0000
Subject: [PATCH 103/110] fix: ClusterDisks::update could not reuse the entries
 of disks that are gone

---
 src/eckit/io/cluster/ClusterDisks.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/cluster/ClusterDisks.cc b/src/eckit/io/cluster/ClusterDisks.cc
index 7067fc8..e571038 100644
--- a/src/eckit/io/cluster/ClusterDisks.cc
+++ b/src/eckit/io/cluster/ClusterDisks.cc
@@ -319,9 +319,11 @@ void ClusterDisks::update(const std::string& node, const std::string& type, cons
             *k = c;
         }
         else {
-            ASSERT(!(*clusterDisks)[0].active());
             // Log::info() << "================ New " << node << "-" << type << " " << * j << std::endl;
-            (*clusterDisks)[0] = c;
+            k = std::find_if(clusterDisks->begin(), clusterDisks->end(),
+                             [](const ClusterDisk& d) { return !d.active(); });
+            ASSERT(k != clusterDisks->end());
+            *k = c;
             std::sort(clusterDisks->begin(), clusterDisks->end());
         }
     }
-- 
2.43.0


From 1a4fa07cb882959cd2ae5ee54fa4bc7442045316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:11 +0000
Subject: [PATCH 104/110] fix: ClusterDisks::receive left entries unsorted and
 some twice, and lost all of them if the stream failed

---
 src/eckit/io/cluster/ClusterDisks.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/eckit/io/cluster/ClusterDisks.cc b/src/eckit/io/cluster/ClusterDisks.cc
index e571038..d931a25 100644
--- a/src/eckit/io/cluster/ClusterDisks.cc
+++ b/src/eckit/io/cluster/ClusterDisks.cc
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <fstream>
 #include <string>
+#include <vector>
 
 #include "eckit/config/Resource.h"
 #include "eckit/container/MappedArray.h"
@@ -472,13 +473,11 @@ void ClusterDisks::receive(Stream& s) {
 
     pthread_once(&once, diskarray_init);
 
-    AutoLock<DiskArray> lock(*clusterDisks);
-    for (ClusterDisk& disk : *clusterDisks) {
-        disk.active(false);
-    }
+    std::vector<ClusterDisk> disks;
+    ClusterDisk none("", "", "");
+    none.active(false);
 
     bool more;
-    DiskArray::iterator k = clusterDisks->begin();
 
     while (true) {
 
@@ -487,11 +486,17 @@ void ClusterDisks::receive(Stream& s) {
             break;
         }
 
-        ASSERT(k != clusterDisks->end());
-        (*k).receive(s);
-
-        ++k;
+        disks.push_back(none);
+        disks.back().receive(s);
     }
+
+    AutoLock<DiskArray> lock(*clusterDisks);
+
+    ASSERT(disks.size() <= clusterDisks->size());
+
+    // no entry for a received disk is left from before, and the entries stay sorted
+    std::fill(std::copy(disks.begin(), disks.end(), clusterDisks->begin()), clusterDisks->end(), none);
+    std::sort(clusterDisks->begin(), clusterDisks->end());
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 761152112ce33c42fe4a01c37608c9751d13e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:36 +0000
Subject: [PATCH 105/110] fix: ClusterDisks::node held the lock of the disks
 when it asked file spaces, which take it the other way round

---
 src/eckit/io/cluster/ClusterDisks.cc | 83 ++++++++++++++--------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/src/eckit/io/cluster/ClusterDisks.cc b/src/eckit/io/cluster/ClusterDisks.cc
index d931a25..a85478d 100644
--- a/src/eckit/io/cluster/ClusterDisks.cc
+++ b/src/eckit/io/cluster/ClusterDisks.cc
@@ -397,61 +397,62 @@ std::string ClusterDisks::node(const std::string& path) {
 
     pthread_once(&once, diskarray_init);
 
-    DiskArray::const_iterator j = clusterDisks->end();
+    {
+        DiskArray::const_iterator j = clusterDisks->end();
 
-    AutoLock<DiskArray> lock(*clusterDisks);
-    for (DiskArray::const_iterator k = clusterDisks->begin(); k != clusterDisks->end(); ++k) {
-        if ((*k).active() && isOnDisk(path, (*k).path())) {
-            if (j != clusterDisks->end()) {
-                std::ostringstream os;
-                os << "Two nodes found for [" << path << "] "
-                   << "marsfs://" << (*j).node() << "/" << (*j).path() << "and "
-                   << "marsfs://" << (*k).node() << "/" << (*k).path();
-
-                throw SeriousBug(os.str());
+        AutoLock<DiskArray> lock(*clusterDisks);
+        for (DiskArray::const_iterator k = clusterDisks->begin(); k != clusterDisks->end(); ++k) {
+            if ((*k).active() && isOnDisk(path, (*k).path())) {
+                if (j != clusterDisks->end()) {
+                    std::ostringstream os;
+                    os << "Two nodes found for [" << path << "] "
+                       << "marsfs://" << (*j).node() << "/" << (*j).path() << "and "
+                       << "marsfs://" << (*k).node() << "/" << (*k).path();
+
+                    throw SeriousBug(os.str());
+                }
+                j = k;
             }
-            j = k;
         }
-    }
 
+        if (j != clusterDisks->end()) {
+            return (*j).node();
+        }
+    }
 
-    if (j == clusterDisks->end()) {
-        // Look for local names
+    // Look for local names, without the lock: FileSpace takes it when it holds its own
 
-        // This is ineficent, but is should be called very rarely
+    // This is ineficent, but is should be called very rarely
 
-        if (LocalPathName(path).exists()) {
-            return NodeInfo::thisNode().node();
-        }
+    if (LocalPathName(path).exists()) {
+        return NodeInfo::thisNode().node();
+    }
 
-        LocalPathName df("~/etc/disks/df");
-        std::ifstream in(df.localPath());
-        char line[1024];
-        while (in.getline(line, sizeof(line))) {
-            if (line[0] != 0 && line[0] != '#') {
-                Tokenizer tokenize(", \t");
-                std::vector<std::string> tokens;
-                tokenize(line, tokens);
-                if (tokens.size() == 2) {
-                    const FileSpace& fs            = FileSpace::lookUp(tokens[0]);
-                    const std::vector<PathName>& v = fs.fileSystems();
-                    for (size_t j = 0; j < v.size(); ++j) {
-                        if (isOnDisk(path, v[j].asString())) {
-                            Log::info() << "ClusterDisks::node [" << path << "] is on " << v[j] << std::endl;
-                            return "local";
-                        }
+    LocalPathName df("~/etc/disks/df");
+    std::ifstream in(df.localPath());
+    char line[1024];
+    while (in.getline(line, sizeof(line))) {
+        if (line[0] != 0 && line[0] != '#') {
+            Tokenizer tokenize(", \t");
+            std::vector<std::string> tokens;
+            tokenize(line, tokens);
+            if (tokens.size() == 2) {
+                const FileSpace& fs            = FileSpace::lookUp(tokens[0]);
+                const std::vector<PathName>& v = fs.fileSystems();
+                for (size_t j = 0; j < v.size(); ++j) {
+                    if (isOnDisk(path, v[j].asString())) {
+                        Log::info() << "ClusterDisks::node [" << path << "] is on " << v[j] << std::endl;
+                        return "local";
                     }
                 }
             }
         }
-
-
-        std::ostringstream os;
-        os << "No node found for [" << path << "]";
-        throw SeriousBug(os.str());
     }
 
-    return (*j).node();
+
+    std::ostringstream os;
+    os << "No node found for [" << path << "]";
+    throw SeriousBug(os.str());
 }
 
 void ClusterDisks::send(Stream& s) {
-- 
2.43.0


From 334331f3e02a934490c3dc3311896713987aeaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:35 +0000
Subject: [PATCH 106/110] fix: FileSpace kept an incomplete list when its
 configuration could not be read, and a dangling space when the first reading
 failed

---
 src/eckit/filesystem/FileSpace.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/eckit/filesystem/FileSpace.cc b/src/eckit/filesystem/FileSpace.cc
index 2f6f601..ada6be5 100644
--- a/src/eckit/filesystem/FileSpace.cc
+++ b/src/eckit/filesystem/FileSpace.cc
@@ -33,8 +33,8 @@ static Map space;
 
 FileSpace::FileSpace(const std::string& name) : name_(name), last_(0) {
     AutoLock<StaticMutex> lock(local_mutex);
-    space[name] = this;
     load();
+    space[name] = this;
 }
 
 FileSpace::~FileSpace() {
@@ -144,9 +144,6 @@ void FileSpace::load() const {
 
     ::srandom(static_cast<unsigned>(::getpid()));
 
-    self->last_ = modified;
-    self->fileSystems_.clear();
-
     // Log::info() << "Loading FileSpace " << name_ << " modified " << TimeStamp(last_) << std::endl;
 
     std::vector<std::string> disks;
@@ -166,6 +163,9 @@ void FileSpace::load() const {
                 disks.push_back(word);
             }
         }
+        if (in.bad()) {
+            throw ReadError(config);
+        }
     }
 
     std::vector<std::string> clusterDisks;
@@ -186,25 +186,31 @@ void FileSpace::load() const {
 
     // And ad the paths to the available filesystems lists
 
+    std::vector<PathName> fileSystems;
+
     for (Ordinal i = 0; i < disks.size(); i++) {
         PathName path(disks[i]);
         try {
             if (path.available()) {
                 path.mkdir();
             }
-            self->fileSystems_.push_back(path);
+            fileSystems.push_back(path);
         }
         catch (std::exception& e) {
             Log::error() << "mkdir(" << path << ") failed : " << e.what() << std::endl;
         }
     }
 
-    if (fileSystems_.empty()) {
+    if (fileSystems.empty()) {
         if (!hasConfigFile) {
             // Having an empty file removes that warning
             Log::warning() << "FileSpace " + name_ + " is empty" << std::endl;
         }
     }
+
+    // Only now: if anything of the above fails, the next call tries again
+    std::swap(self->fileSystems_, fileSystems);
+    self->last_ = modified;
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 76067e61dc7e433729ca7312ae099f3571fe408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:35 +0000
Subject: [PATCH 107/110] fix: several threads using one FileSpace saw it
 empty, half loaded or destroyed while one of them reloaded it

---
 src/eckit/filesystem/FileSpace.cc | 49 +++++++++++++++++++------------
 src/eckit/filesystem/FileSpace.h  | 17 +++++++----
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/eckit/filesystem/FileSpace.cc b/src/eckit/filesystem/FileSpace.cc
index ada6be5..ac54a0f 100644
--- a/src/eckit/filesystem/FileSpace.cc
+++ b/src/eckit/filesystem/FileSpace.cc
@@ -43,17 +43,24 @@ FileSpace::~FileSpace() {
     space.erase(name_);
 }
 
-const PathName& FileSpace::selectFileSystem(const std::string& s) const {
-    load();
+std::vector<PathName> FileSpace::fileSystems() const {
+    AutoLock<Mutex> lock(mutex_);
+    return fileSystems_;
+}
+
+PathName FileSpace::selectFileSystem(const std::string& s) const {
+    const std::vector<PathName> fileSystems = load();
 
-    if (fileSystems_.size() == 0) {
+    if (fileSystems.empty()) {
         throw Retry(std::string("FileSpace [") + name_ + "] is empty");
     }
 
-    return FileSpaceStrategies::selectFileSystem(fileSystems_, s);
+    return FileSpaceStrategies::selectFileSystem(fileSystems, s);
 }
 
 const std::string& FileSpace::selectionStrategy() const {
+    AutoLock<Mutex> lock(mutex_);
+
     if (!strategy_.empty()) {
         return strategy_;
     }
@@ -69,7 +76,7 @@ const std::string& FileSpace::selectionStrategy() const {
     return strategy_;
 }
 
-const PathName& FileSpace::selectFileSystem() const {
+PathName FileSpace::selectFileSystem() const {
     return selectFileSystem(selectionStrategy());
 }
 
@@ -80,11 +87,11 @@ bool FileSpace::owns(const PathName& path) const {
     return found;
 }
 
-const PathName& FileSpace::sameFileSystem(const PathName& path) const {
+PathName FileSpace::sameFileSystem(const PathName& path) const {
     // Log::info() << "FileSpace::sameFileSystem " <<  name_ << " " << path << std::endl;
 
-    bool found        = false;
-    const PathName& f = find(path, found);
+    bool found = false;
+    PathName f = find(path, found);
 
     if (found) {
         Log::info() << f << " matches " << path << std::endl;
@@ -94,16 +101,16 @@ const PathName& FileSpace::sameFileSystem(const PathName& path) const {
     return selectFileSystem();
 }
 
-const PathName& FileSpace::find(const PathName& path, bool& found) const {
-    load();
+PathName FileSpace::find(const PathName& path, bool& found) const {
+    const std::vector<PathName> fileSystems = load();
 
     PathName m(path.mountPoint());
 
     // TODO: Cache the mount point...
-    for (Ordinal i = 0; i < fileSystems_.size(); i++) {
-        if (fileSystems_[i].available() && (fileSystems_[i].mountPoint() == m)) {
+    for (Ordinal i = 0; i < fileSystems.size(); i++) {
+        if (fileSystems[i].available() && (fileSystems[i].mountPoint() == m)) {
             found = true;
-            return fileSystems_[i];
+            return fileSystems[i];
         }
     }
 
@@ -128,7 +135,7 @@ bool FileSpace::exists(const std::string& name) {
 }
 
 
-void FileSpace::load() const {
+std::vector<PathName> FileSpace::load() const {
     FileSpace* self = const_cast<FileSpace*>(this);
 
     PathName config(std::string("~/etc/disks/") + name_);
@@ -138,8 +145,11 @@ void FileSpace::load() const {
     time_t mod2     = ClusterDisks::lastModified(name_);
     time_t modified = std::max(mod1, mod2);
 
-    if ((last_ == modified) && (last_ != 0)) {
-        return;
+    {
+        AutoLock<Mutex> lock(mutex_);
+        if ((last_ == modified) && (last_ != 0)) {
+            return fileSystems_;
+        }
     }
 
     ::srandom(static_cast<unsigned>(::getpid()));
@@ -209,8 +219,11 @@ void FileSpace::load() const {
     }
 
     // Only now: if anything of the above fails, the next call tries again
-    std::swap(self->fileSystems_, fileSystems);
-    self->last_ = modified;
+    AutoLock<Mutex> lock(mutex_);
+    self->fileSystems_ = fileSystems;
+    self->last_        = modified;
+
+    return fileSystems;
 }
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/filesystem/FileSpace.h b/src/eckit/filesystem/FileSpace.h
index 6bc7739..986f7b2 100644
--- a/src/eckit/filesystem/FileSpace.h
+++ b/src/eckit/filesystem/FileSpace.h
@@ -17,6 +17,7 @@
 #define eckit_FileSpace_h
 
 #include "eckit/filesystem/PathName.h"
+#include "eckit/thread/Mutex.h"
 
 namespace eckit {
 
@@ -26,13 +27,13 @@ class FileSpace {
 
 public:  // methods
 
-    const PathName& sameFileSystem(const PathName&) const;
-    const std::vector<PathName>& fileSystems() const { return fileSystems_; }
+    PathName sameFileSystem(const PathName&) const;
+    std::vector<PathName> fileSystems() const;
 
     bool owns(const PathName&) const;
 
-    const PathName& selectFileSystem(const std::string&) const;
-    const PathName& selectFileSystem() const;
+    PathName selectFileSystem(const std::string&) const;
+    PathName selectFileSystem() const;
 
     const std::string& selectionStrategy() const;
 
@@ -52,13 +53,17 @@ private:  // methods
 
     ~FileSpace();
 
-    void load() const;
+    /// @returns the file systems, as they were configured at some time during the call
+    std::vector<PathName> load() const;
 
-    const PathName& find(const PathName&, bool&) const;
+    PathName find(const PathName&, bool&) const;
 
 private:  // members
 
     std::string name_;
+
+    mutable Mutex mutex_;  ///< protects what follows, not held while file systems are used
+
     time_t last_;
     std::vector<PathName> fileSystems_;
 
-- 
2.43.0


From 65b9b1bc8cc830bd8f58dd5fe79dab5b35e5633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:06 +0000
Subject: [PATCH 108/110] fix: FileSpace offered disks of the cluster that were
 withdrawn, until another change

---
 src/eckit/filesystem/FileSpace.cc | 14 ++++++++------
 src/eckit/filesystem/FileSpace.h  |  1 +
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/eckit/filesystem/FileSpace.cc b/src/eckit/filesystem/FileSpace.cc
index ac54a0f..4e9c89e 100644
--- a/src/eckit/filesystem/FileSpace.cc
+++ b/src/eckit/filesystem/FileSpace.cc
@@ -145,9 +145,13 @@ std::vector<PathName> FileSpace::load() const {
     time_t mod2     = ClusterDisks::lastModified(name_);
     time_t modified = std::max(mod1, mod2);
 
+    std::vector<std::string> clusterDisks;
+    ClusterDisks::load(name_, clusterDisks);
+
     {
+        // The disks are compared because the time does not tell of those that are gone
         AutoLock<Mutex> lock(mutex_);
-        if ((last_ == modified) && (last_ != 0)) {
+        if ((last_ == modified) && (last_ != 0) && (clusterDisks_ == clusterDisks)) {
             return fileSystems_;
         }
     }
@@ -178,9 +182,6 @@ std::vector<PathName> FileSpace::load() const {
         }
     }
 
-    std::vector<std::string> clusterDisks;
-    ClusterDisks::load(name_, clusterDisks);
-
     // If the path is local, and available with the current disks config
     // then don't duplicate it as a marsfs path in the filespace
 
@@ -220,8 +221,9 @@ std::vector<PathName> FileSpace::load() const {
 
     // Only now: if anything of the above fails, the next call tries again
     AutoLock<Mutex> lock(mutex_);
-    self->fileSystems_ = fileSystems;
-    self->last_        = modified;
+    self->fileSystems_  = fileSystems;
+    self->clusterDisks_ = clusterDisks;
+    self->last_         = modified;
 
     return fileSystems;
 }
diff --git a/src/eckit/filesystem/FileSpace.h b/src/eckit/filesystem/FileSpace.h
index 986f7b2..197a1d5 100644
--- a/src/eckit/filesystem/FileSpace.h
+++ b/src/eckit/filesystem/FileSpace.h
@@ -65,6 +65,7 @@ private:  // members
     mutable Mutex mutex_;  ///< protects what follows, not held while file systems are used
 
     time_t last_;
+    std::vector<std::string> clusterDisks_;
     std::vector<PathName> fileSystems_;
 
     mutable std::string strategy_;  ///< default strategy to use when selecting filesystem
-- 
2.43.0


From 95e56dd913c1898778ce0577ce6eead51be6cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:05 +0000
Subject: [PATCH 109/110] fix: the turns of FileSpaceStrategies::roundRobin
 were lost, or out of range, when several threads took them

---
 src/eckit/filesystem/FileSpaceStrategies.cc | 28 +++++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/eckit/filesystem/FileSpaceStrategies.cc b/src/eckit/filesystem/FileSpaceStrategies.cc
index 167fa5a..61b94fb 100644
--- a/src/eckit/filesystem/FileSpaceStrategies.cc
+++ b/src/eckit/filesystem/FileSpaceStrategies.cc
@@ -17,6 +17,8 @@
 #include "eckit/config/Resource.h"
 #include "eckit/filesystem/FileSpaceStrategies.h"
 #include "eckit/log/Bytes.h"
+#include "eckit/thread/AutoLock.h"
+#include "eckit/thread/StaticMutex.h"
 
 namespace eckit {
 
@@ -242,6 +244,8 @@ static std::vector<Candidate> findCandidates(const std::vector<PathName>& fileSy
     return result;
 }
 
+static StaticMutex round_robin_mutex;
+
 const PathName& FileSpaceStrategies::roundRobin(const std::vector<PathName>& fileSystems) {
     std::vector<Candidate> candidates = findCandidates(fileSystems, &computeNull);
 
@@ -249,19 +253,27 @@ const PathName& FileSpaceStrategies::roundRobin(const std::vector<PathName>& fil
         return leastUsed(fileSystems);
     }
 
-    static long value = -1;
+    size_t turn;
 
-    if (value < 0) {
-        value = ::getpid();
-    }
+    {
+        static long value = -1;
 
-    value++;
-    value %= candidates.size();
+        AutoLock<StaticMutex> lock(round_robin_mutex);
+
+        if (value < 0) {
+            value = ::getpid();
+        }
+
+        value++;
+        value %= candidates.size();
+
+        turn = value;
+    }
 
-    Log::info() << "Filespace strategy roundRobin selected " << candidates[value].path() << " " << value << " out of "
+    Log::info() << "Filespace strategy roundRobin selected " << candidates[turn].path() << " " << turn << " out of "
                 << candidates.size() << std::endl;
 
-    return candidates[value].path();
+    return candidates[turn].path();
 }
 
 static void attenuateProbabilities(std::vector<Candidate>& candidates) {
-- 
2.43.0


From 19a1e4d7a8ff270f471e97b84320284c3415ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:58 +0000
Subject: [PATCH 110/110] fix: a Recycler did not wait for its lock, nor
 exclude threads, and a torn or refused push made it useless

---
 src/eckit/container/Recycler.h | 111 ++++++++++++++++++++++++++-------
 1 file changed, 88 insertions(+), 23 deletions(-)

diff --git a/src/eckit/container/Recycler.h b/src/eckit/container/Recycler.h
index 61df51b..c37d005 100644
--- a/src/eckit/container/Recycler.h
+++ b/src/eckit/container/Recycler.h
@@ -24,6 +24,7 @@
 #include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/PathName.h"
 #include "eckit/thread/AutoLock.h"
+#include "eckit/thread/Mutex.h"
 #include "eckit/types/Types.h"
 
 //-----------------------------------------------------------------------------
@@ -112,9 +113,17 @@ private:
 
     PathName path_;
     int fd_;
+    size_t depth_;
 
     // -- Methods
 
+    // A lock of the file does not exclude the threads of the process that owns it,
+    // which would also lose it as soon as any of them closes that file.
+    static Mutex& mutex();
+
+    void setLock(short type);
+    off_t end();
+
 
     // -- Overridden methods
     // None
@@ -136,7 +145,7 @@ private:
 //-----------------------------------------------------------------------------
 
 template <class T>
-Recycler<T>::Recycler(const PathName& path) : path_(path), fd_(-1) {
+Recycler<T>::Recycler(const PathName& path) : path_(path), fd_(-1), depth_(0) {
     path_.dirName().mkdir();
     fd_ = ::open(path_.localPath(), O_RDWR | O_CREAT, 0777);
     if (fd_ < 0) {
@@ -147,37 +156,65 @@ Recycler<T>::Recycler(const PathName& path) : path_(path), fd_(-1) {
 template <class T>
 Recycler<T>::~Recycler() {
     if (fd_ >= 0) {
+        AutoLock<Mutex> lock(mutex());
         SYSCALL(::close(fd_));
     }
 }
 
+template <class T>
+Mutex& Recycler<T>::mutex() {
+    static Mutex m;
+    return m;
+}
 
 template <class T>
-void Recycler<T>::lock() {
+void Recycler<T>::setLock(short type) {
 
     struct flock lock;
 
-    lock.l_type   = F_WRLCK;
+    lock.l_type   = type;
     lock.l_whence = SEEK_SET;
     lock.l_start  = 0;
     lock.l_len    = 0;
 
-    SYSCALL(::fcntl(fd_, F_SETLK, &lock));
+    int e;
+    while ((e = ::fcntl(fd_, F_SETLKW, &lock)) < 0 && errno == EINTR) {}
+    SYSCALL(e);
 }
 
 template <class T>
-void Recycler<T>::unlock() {
-
-    struct flock lock;
-
-    lock.l_type   = F_UNLCK;
-    lock.l_whence = SEEK_SET;
-    lock.l_start  = 0;
-    lock.l_len    = 0;
+void Recycler<T>::lock() {
+    mutex().lock();
+    try {
+        setLock(F_WRLCK);
+    }
+    catch (...) {
+        mutex().unlock();
+        throw;
+    }
+    depth_++;
+}
 
-    SYSCALL(::fcntl(fd_, F_SETLK, &lock));
+template <class T>
+void Recycler<T>::unlock() {
+    if (--depth_ == 0) {
+        setLock(F_UNLCK);
+    }
+    mutex().unlock();
 }
 
+template <class T>
+off_t Recycler<T>::end() {
+    off_t here;
+    SYSCALL(here = ::lseek(fd_, 0, SEEK_END));
+    if (off_t part = here % sizeof(T)) {
+        // left by a process that died while it was pushing
+        here -= part;
+        SYSCALL(::ftruncate(fd_, here));
+        SYSCALL(::lseek(fd_, here, SEEK_SET));
+    }
+    return here;
+}
 
 template <class T>
 template <class Iter>
@@ -185,12 +222,30 @@ void Recycler<T>::push(Iter begin, Iter end) {
 
     AutoLock<Recycler<T> > lock(this);
 
-    off_t here;
-    SYSCALL(here = ::lseek(fd_, 0, SEEK_END));
-    ASSERT((here % sizeof(T)) == 0);
-
-    for (Iter j = begin; j != end; ++j) {
-        ASSERT(::write(fd_, &(*j), sizeof(T)) == sizeof(T));
+    const off_t here = this->end();
+
+    try {
+        for (Iter j = begin; j != end; ++j) {
+            const T& value = *j;
+            const char* p  = reinterpret_cast<const char*>(&value);
+            size_t left    = sizeof(T);
+            while (left) {
+                ssize_t len = ::write(fd_, p, left);
+                if (len < 0 && errno == EINTR) {
+                    continue;
+                }
+                if (len <= 0) {
+                    throw WriteError(path_, Here());
+                }
+                p += len;
+                left -= len;
+            }
+        }
+    }
+    catch (...) {
+        // all or nothing
+        SYSCALL(::ftruncate(fd_, here));
+        throw;
     }
 }
 
@@ -200,9 +255,7 @@ Ordinal Recycler<T>::pop(Iter begin, Ordinal count) {
 
     AutoLock<Recycler<T> > lock(this);
 
-    off_t here, there;
-    SYSCALL(here = ::lseek(fd_, 0, SEEK_END));
-    ASSERT((here % sizeof(T)) == 0);
+    off_t here = end(), there;
 
     Ordinal cnt = std::min(Ordinal(here / sizeof(T)), count);
 
@@ -214,7 +267,19 @@ Ordinal Recycler<T>::pop(Iter begin, Ordinal count) {
 
     for (Ordinal i = 0; i < cnt; i++) {
         T value;
-        ASSERT(::read(fd_, &value, sizeof(T)) == sizeof(T));
+        char* p     = reinterpret_cast<char*>(&value);
+        size_t left = sizeof(T);
+        while (left) {
+            ssize_t len = ::read(fd_, p, left);
+            if (len < 0 && errno == EINTR) {
+                continue;
+            }
+            if (len <= 0) {
+                throw ReadError(path_, Here());
+            }
+            p += len;
+            left -= len;
+        }
         *(begin++) = value;
     }
 
-- 
2.43.0

