From 7ce49d2355a81bc03cc0348c248c5a6641797ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 1/5] fix: do not skip staging buffers after one is deleted

When the buffer a pass over the staging buffers started with was deleted, the
pass could end before the buffers behind it were checked. sync() could then
return while messages logged before it were still in a staging buffer.
---
 runtime/RuntimeLogger.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 56b7c0f..90f120b 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -484,13 +484,14 @@ RuntimeLogger::compressionThreadMain() {
                             break;
                         }
 
-                        // Back up the indexes so that we ensure we wont skip
-                        // a buffer in our pass (and it's okay to redo one)
-                        if (lastStagingBufferChecked >= i &&
-                            lastStagingBufferChecked > 0) {
-                            --lastStagingBufferChecked;
-                        }
-                        --i;
+                        // The buffer that followed the deleted one is now at
+                        // index i. Start a new pass there so that we ensure
+                        // we wont skip a buffer (it's okay to redo some).
+                        i = i % threadBuffers.size();
+                        if (i == 0)
+                            wrapAround = true;
+                        lastStagingBufferChecked = i;
+                        continue;
                     }
                 }
 
-- 
2.43.0


From 0c0de744cb68f40c85eaa1c237ba0eba044989e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 2/5] fix: read the list of log sites only while holding
 registrationMutex

The size of invocationSites was read without the lock other threads hold while
they grow the vector.
---
 runtime/RuntimeLogger.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 90f120b..775f7fb 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -398,18 +398,20 @@ RuntimeLogger::compressionThreadMain() {
             size_t i = lastStagingBufferChecked;
 
             // Output new dictionary entries, if necessary
-            if (nextInvocationIndexToBePersisted < invocationSites.size())
             {
                 std::unique_lock<std::mutex> lock (registrationMutex);
-                encoder.encodeNewDictionaryEntries(
+                if (nextInvocationIndexToBePersisted < invocationSites.size())
+                {
+                    encoder.encodeNewDictionaryEntries(
                                                nextInvocationIndexToBePersisted,
                                                invocationSites);
 
-                // update our shadow copy
-                for (uint64_t i = shadowStaticInfo.size();
+                    // update our shadow copy
+                    for (uint64_t i = shadowStaticInfo.size();
                                     i < nextInvocationIndexToBePersisted; ++i)
-                {
-                    shadowStaticInfo.push_back(invocationSites.at(i));
+                    {
+                        shadowStaticInfo.push_back(invocationSites.at(i));
+                    }
                 }
             }
 
-- 
2.43.0


From be8f8fe90e20cc7c8b522fcd975db0e4cf74b5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 3/5] fix: keep waiting for a write when aio_suspend is
 interrupted

aio_suspend returns early when a signal arrives. The write was then taken as
finished and its buffer reused while it was still being written.
---
 runtime/RuntimeLogger.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 775f7fb..4be7a22 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -319,11 +319,11 @@ RuntimeLogger::preallocate() {
 void
 RuntimeLogger::waitForAIO() {
     if (hasOutstandingOperation) {
-        if (aio_error(&aioCb) == EINPROGRESS) {
+        while (aio_error(&aioCb) == EINPROGRESS) {
             const struct aiocb *const aiocb_list[] = {&aioCb};
             int err = aio_suspend(aiocb_list, 1, NULL);
 
-            if (err != 0)
+            if (err != 0 && errno != EINTR)
                 perror("LogCompressor's Posix AIO suspend operation failed");
         }
 
@@ -544,11 +544,13 @@ RuntimeLogger::compressionThreadMain() {
                     // If the output buffer is full and we're not done,
                     // wait for completion
                     cyclesActive += PerfUtils::Cycles::rdtsc() - cyclesAwakeStart;
-                    int err = aio_suspend(aiocb_list, 1, NULL);
+                    while (aio_error(&aioCb) == EINPROGRESS) {
+                        int err = aio_suspend(aiocb_list, 1, NULL);
+                        if (err != 0 && errno != EINTR)
+                            perror("LogCompressor's Posix AIO "
+                                           "suspend operation failed");
+                    }
                     cyclesAwakeStart = PerfUtils::Cycles::rdtsc();
-                    if (err != 0)
-                        perror("LogCompressor's Posix AIO "
-                                       "suspend operation failed");
                 } else {
                     // If there's no new data, go to sleep.
                     if (bytesConsumedThisIteration == 0 &&
-- 
2.43.0


From 028d04abf113a915c7f2ff122db96a77b8ae3faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 4/5] fix: write the rest of the output after a short write

A write may complete with fewer bytes than requested. The remaining bytes were
dropped silently, which lost log messages and corrupted the log file.
---
 runtime/RuntimeLogger.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 4be7a22..d6f9de1 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -578,6 +578,13 @@ RuntimeLogger::compressionThreadMain() {
                         " with %d: %s\r\n", err, strerror(err));
             } else if (ret < 0) {
                 perror("LogCompressor's Posix AIO Write failed");
+            } else if (static_cast<size_t>(ret) < aioCb.aio_nbytes) {
+                // Only a part was written, continue with the rest
+                aioCb.aio_buf = static_cast<volatile char*>(aioCb.aio_buf) + ret;
+                aioCb.aio_nbytes -= ret;
+                if (aio_write(&aioCb) == 0)
+                    continue;
+                fprintf(stderr, "Error at aio_write(): %s\n", strerror(errno));
             }
             ++numAioWritesCompleted;
             hasOutstandingOperation = false;
-- 
2.43.0


From 7359c1ee9cd9f11749478fb8a5bda97321344552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:55 +0000
Subject: [PATCH 5/5] fix: sync() returns only when the sync is complete

The wait had no predicate, so a spurious wake-up or the notification meant for
another caller ended it early.
---
 runtime/RuntimeLogger.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index d6f9de1..b7af05f 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -737,7 +737,9 @@ RuntimeLogger::sync() {
     std::unique_lock<std::mutex> lock(nanoLogSingleton.condMutex);
     nanoLogSingleton.syncStatus = SYNC_REQUESTED;
     nanoLogSingleton.workAdded.notify_all();
-    nanoLogSingleton.hintSyncCompleted.wait(lock);
+    nanoLogSingleton.hintSyncCompleted.wait(lock, [] {
+        return nanoLogSingleton.syncStatus == SYNC_COMPLETED;
+    });
 }
 
 /**
-- 
2.43.0

