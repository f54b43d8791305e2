From 5af4496bbbca76215767b09585b348780d562c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 01/17] fix: wake another waiter when a Semaphore take/give
 operation throws

A waiter that was notified and whose user operation then throws restores the
count but swallowed the notification, leaving other waiters blocked although
the semaphore was available to them.
---
 src/Semaphore.cpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index d5da882..808fecb 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -159,18 +159,20 @@ public:
         std::unique_lock< Mutex > lock{ mutex };
         _take(lock);
 
+        // Restores the available count should the user operation throw. As we may have consumed a notification
+        // meant for another waiting taker, we pass it on so that the restored count doesn't go unnoticed.
         struct AvailableCountManager {
-            explicit AvailableCountManager( AvailableCountType & theAC ) noexcept : rAC(theAC)  {}
-            ~AvailableCountManager() noexcept { if ( !released ) ++rAC; }
+            explicit AvailableCountManager( Imple & theImple ) noexcept : imple(theImple)  {}
+            ~AvailableCountManager() noexcept { if ( !released ) { ++imple.availableCount; imple._giveNotify(); } }
 
             void release() { released = true; }
 
-            AvailableCountType & rAC;
+            Imple & imple;
             bool released{ false };
         };
 
         // Guard the available count and call user provided operation.
-        AvailableCountManager availableCountManager{ availableCount };
+        AvailableCountManager availableCountManager{ *this };
         operation();
         availableCountManager.release();
 
@@ -210,7 +212,24 @@ public:
     {
         std::unique_lock< Mutex > lock{mutex };
         _giveWait( lock );
+
+        // Should the user operation throw, we may have consumed a notification meant for another waiting giver.
+        // We pass it on so that the room still available doesn't go unnoticed.
+        struct NotificationManager {
+            explicit NotificationManager( Imple & theImple ) noexcept : imple(theImple)  {}
+            ~NotificationManager() noexcept { if ( !released ) imple._takeNotify(); }
+
+            void release() { released = true; }
+
+            Imple & imple;
+            bool released{ false };
+        };
+
+        // Guard the notification and call user provided operation.
+        NotificationManager notificationManager{ *this };
         operation();
+        notificationManager.release();
+
         _give();
     }
 
@@ -376,7 +395,16 @@ private:
         if ( abortFlag ) throw SemaphoreAborted{ "Semaphore::Imple::_giveWait: Semaphore Aborted!" };
 
         ++availableCount;
+        _giveNotify();
+    }
 
+    /**
+    * @brief The Give Notify Internals
+    *
+    * This operation will notify at most, one waiting take thread.
+    */
+    inline void _giveNotify()
+    {
 #ifdef REISER_RT_HAS_PTHREADS
         pthread_cond_signal( &takeConditionVar );
 #else
-- 
2.43.0


From b32ac7af6696f0eff56e4fc62a1a69de0ff1cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 02/17] fix: clamp Semaphore maximum counts above 2^32-1
 instead of truncating them

---
 src/Semaphore.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index 808fecb..3de33e3 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -448,7 +448,10 @@ private:
         if ( theMaxAvailableCount == 0 ) return std::numeric_limits< AvailableCountType >::max();
         if ( theMaxAvailableCount < clampedInitialCount ) return clampedInitialCount;
 
-        // If here, neither of the above were true, return the maximum available count as is.
+        if ( theMaxAvailableCount > std::numeric_limits< AvailableCountType >::max() )
+            return std::numeric_limits< AvailableCountType >::max();
+
+        // If here, none of the above were true, return the maximum available count as is.
         return theMaxAvailableCount;
     }
 
-- 
2.43.0


From 4d72b21b636b7ced1b094e5d18b4f7ef7c42f0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 03/17] fix: never let RingBufferGuarded's semaphore exceed the
 ring buffer's size

A request of zero elements left the semaphore unbounded and a request of more
than the maximum let it exceed the ring buffer. In both cases put failed with
RingBufferOverflow instead of blocking.
---
 src/MessageQueueBase.cpp  |  6 +++---
 src/RingBufferGuarded.hpp | 19 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 99d15cc..0e3d601 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -353,12 +353,12 @@ void MessageQueueBase::AutoDispatchLock::unlock()
 
 MessageQueueBase::Imple::Imple( std::size_t theRequestedNumElements, std::size_t theElementSize,
                                 bool enableDispatchLocking )
-  : requestedNumElements{ theRequestedNumElements }
+  : requestedNumElements{ theRequestedNumElements == 0 ? 1 : theRequestedNumElements }
   , elementSize{ getPaddedTypeAllocSize( theElementSize ) }
   , pMutex{ enableDispatchLocking ? new Mutex{} : nullptr }
   , arena{ new unsigned char [ elementSize * requestedNumElements ] }
-  , rawRingBuffer{ theRequestedNumElements, true }
-  , cookedRingBuffer{ theRequestedNumElements }
+  , rawRingBuffer{ requestedNumElements, true }
+  , cookedRingBuffer{ requestedNumElements }
 {
     // Prime the raw ring buffer with void pointers into our arena space. We do this with a lambda function.
     auto funk = [ this ]( size_t i )
diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index c76cc4f..e355ca6 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -81,7 +81,8 @@ namespace ReiserRT
             */
             explicit RingBufferGuardedBase( size_t theRequestedNumElements, bool willPrime = false )
                 : Base{ theRequestedNumElements }
-                , semaphore{ willPrime ? theRequestedNumElements : 0, theRequestedNumElements }
+                , semaphore{ willPrime ? clampNumElements( theRequestedNumElements, getSize() ) : 0,
+                    clampNumElements( theRequestedNumElements, getSize() ) }
                 , state{ willPrime ? State::NeedsPriming : State::Ready }
             {
             }
@@ -293,6 +294,22 @@ namespace ReiserRT
             using Base::getMask;
 
         private:
+            /**
+            * @brief The Clamp Number of Elements Operation
+            *
+            * The number of elements we allow to be enqueued is the number requested. It can however, never exceed what
+            * our Base class can hold and, a request of zero would leave our semaphore unbounded.
+            *
+            * @param theRequestedNumElements The number of elements requested.
+            * @param theSize The number of elements our Base class can hold.
+            *
+            * @return Returns the number of elements that may be enqueued before put operations block.
+            */
+            static size_t clampNumElements( size_t theRequestedNumElements, size_t theSize ) noexcept
+            {
+                return theRequestedNumElements == 0 || theRequestedNumElements > theSize ? theSize : theRequestedNumElements;
+            }
+
             /**
             * @brief The Counted Semaphore Object.
             *
-- 
2.43.0


From 79be6371e2042dd724921d1cc96a8d508c2ecbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 04/17] fix: bound RingBufferGuarded::flush by what is actually
 in the ring buffer

Flushing a ring buffer that was aborted before priming completed, or a second
time, relied on the semaphore's available count and failed with
RingBufferUnderflow.
---
 src/RingBufferGuarded.hpp |  5 +++--
 src/RingBufferSimple.hpp  | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index e355ca6..1c05f27 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -268,8 +268,9 @@ namespace ReiserRT
                     throw RingBufferStateError{ "RingBufferGuarded::flush invoked while not in the Terminal state!" };
                 }
 
-                const size_t count = semaphore.getAvailableCount();
-                for ( size_t i = 0; count != i; ++i ) operation( Base::get() );
+                // The semaphore's available count cannot be relied upon here. It would be too large if we were aborted
+                // before priming completed or if we have already been flushed.
+                while ( !Base::isEmpty() ) operation( Base::get() );
             }
 
             /**
diff --git a/src/RingBufferSimple.hpp b/src/RingBufferSimple.hpp
index a336a31..af4c7cd 100644
--- a/src/RingBufferSimple.hpp
+++ b/src/RingBufferSimple.hpp
@@ -220,6 +220,15 @@ namespace ReiserRT
             */
             [[nodiscard]] inline size_t getMask() const noexcept { return numElementsMask; }
 
+            /**
+            * @brief The Is Empty Operation
+            *
+            * This operation tests whether there is nothing left to get.
+            *
+            * @return Returns true if there are no elements to get.
+            */
+            [[nodiscard]] inline bool isEmpty() const noexcept { return getCount == putCount; }
+
         private:
             /**
             * @brief Our Get Count
@@ -391,6 +400,15 @@ namespace ReiserRT
             */
             [[nodiscard]] inline size_t getMask() const noexcept { return imple.getMask(); }
 
+            /**
+            * @brief The Is Empty Operation
+            *
+            * This operation tests whether there is nothing left to get.
+            *
+            * @return Returns true if there are no elements to get.
+            */
+            [[nodiscard]] inline bool isEmpty() const noexcept { return imple.isEmpty(); }
+
         private:
             /**
             * @brief The Implementation
-- 
2.43.0


From 9b7d8f7997b74e11945f204ff5efd4d1e433e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 05/17] fix: abort RingBufferGuarded's semaphore before going
 Terminal

Going Terminal first allowed a flush to run while gets and puts that had
already checked the state were still accessing the ring buffer.
---
 src/RingBufferGuarded.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index 1c05f27..2bfc6b0 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -103,7 +103,13 @@ namespace ReiserRT
             * This operation aborts the counted semaphore which will wake all pending get threads. Such threads
             * will experience a SemaphoreAborted exception.
             */
-            inline void abort() { state = State::Terminal; semaphore.abort(); }
+            inline void abort()
+            {
+                // The semaphore is aborted first. Once "Terminal", flushing is allowed and that must
+                // not compete with get or put operations that already got past checking the state.
+                semaphore.abort();
+                state = State::Terminal;
+            }
 
             /**
             * @brief The Get Operation
-- 
2.43.0


From a242a8f6924abd10ffe738d00d2edd32a5ef1829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 06/17] fix: give MemoryPoolBase blocks their padded size in
 the arena

The arena was sized and strided with the unpadded element size while getRawBlock zeroes (and
createObj accepts) the padded size. Handing out a block wiped the beginning of the next one and
wrote past the end of the arena for the last one; blocks were misaligned too.
---
 src/MemoryPoolBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index e3bf7a7..5aaeb8a 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -112,11 +112,11 @@ private:
       , paddedElementSize{ getPaddedTypeAllocSize( elementSize ) }
       , poolSize{ ringBuffer.getSize() }
       , runningState{}
-      , arena{ new unsigned char [ theElementSize * poolSize ] }
+      , arena{ new unsigned char [ paddedElementSize * poolSize ] }
     {
         // Stuff elements taken from the arena memory into the ring buffer.
         for ( size_t i = 0; i != poolSize; ++i )
-            ringBuffer.put( reinterpret_cast< void* >( arena + i * theElementSize ) );
+            ringBuffer.put( reinterpret_cast< void* >( arena + i * paddedElementSize ) );
 
         // Initialize running state.
         InternalRunningStateStats runningStats;
-- 
2.43.0


From e3c749ab89b5ca7aefa4bca0792eb8aba473f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 07/17] fix: return the block's own address in
 ObjectPoolDeleter

For an object of a type derived from T where the T subobject is not at the beginning (multiple or
virtual inheritance), the deleter returned the address of that subobject to the pool. The pool then
handed out storage that starts inside one block and reaches into the next.
---
 src/ObjectPoolDeleter.hpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/ObjectPoolDeleter.hpp b/src/ObjectPoolDeleter.hpp
index 24e75d0..e24c231 100644
--- a/src/ObjectPoolDeleter.hpp
+++ b/src/ObjectPoolDeleter.hpp
@@ -10,6 +10,8 @@
 
 #include "MemoryPoolDeleterBase.hpp"
 
+#include <type_traits>
+
 namespace ReiserRT
 {
     namespace Core
@@ -94,7 +96,34 @@ namespace ReiserRT
             * @param pT A pointer to the object to be destroyed and returned to the pool.
             * @warning Do not call with a nullptr. Type unique_ptr does not do so when it is destroyed.
             */
-            void operator()( T * pT ) noexcept { pT->~T(); if ( pool ) returnRawBlock( pT ); }
+            void operator()( T * pT ) noexcept
+            {
+                // The block starts where the complete object does. Figure that out while the object is still alive.
+                void * pRaw = getBlockAddress( pT, std::is_polymorphic< T >{} );
+
+                pT->~T();
+                if ( pool ) returnRawBlock( pRaw );
+            }
+
+        private:
+            /**
+            * @brief Get the Address of the Block Holding an Object of Polymorphic Type
+            *
+            * The object may be of a type derived from T where T is not located at the beginning
+            * of it (e.g., multiple or virtual inheritance).
+            *
+            * @param pT A pointer to the object.
+            * @return Returns the address of the complete object.
+            */
+            static void * getBlockAddress( T * pT, std::true_type ) noexcept { return dynamic_cast< void * >( pT ); }
+
+            /**
+            * @brief Get the Address of the Block Holding an Object of Non-polymorphic Type
+            *
+            * @param pT A pointer to the object.
+            * @return Returns the address of the object.
+            */
+            static void * getBlockAddress( T * pT, std::false_type ) noexcept { return pT; }
         };
     }
 }
-- 
2.43.0


From 065612704ed9cfd3cb68bbbbca430200c130f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 08/17] fix: update MemoryPoolBase's running count before the
 block is available again

Another thread could obtain the returned block and decrement the running count ahead of the
increment: the count wrapped around below zero, and the low watermark with it.
---
 src/MemoryPoolBase.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/MemoryPoolBase.cpp b/src/MemoryPoolBase.cpp
index 5aaeb8a..c51a618 100644
--- a/src/MemoryPoolBase.cpp
+++ b/src/MemoryPoolBase.cpp
@@ -222,16 +222,8 @@ private:
     */
     void returnRawBlock( void * pRaw ) noexcept
     {
-        // Utilize small block scoping for mutex lock to minimize lock time.
-        {
-            // Take lock RAII style
-            std::lock_guard< Mutex > lock( mutex );
-
-            // Return raw memory back to the pool.
-            ringBuffer.put( pRaw );
-        }
-
-        // Manage Watermark Logic
+        // Manage Watermark Logic. This must precede returning the memory. Once returned, another thread
+        // may get it and manage the watermark logic ahead of us, driving the running count below zero.
         InternalRunningStateStats runningStats;
         InternalRunningStateStats runningStatsNew;
         runningStats.state = runningState.load( std::memory_order_seq_cst );
@@ -244,6 +236,15 @@ private:
 
         } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                        std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+        // Utilize small block scoping for mutex lock to minimize lock time.
+        {
+            // Take lock RAII style
+            std::lock_guard< Mutex > lock( mutex );
+
+            // Return raw memory back to the pool.
+            ringBuffer.put( pRaw );
+        }
     }
 
     /**
-- 
2.43.0


From 1ee696b056e3b1b11b62d4d735fbfd20fd557eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 09/17] fix: update MessageQueueBase's running count before the
 slot is available again

Another thread could obtain the returned slot and increment the running count ahead of the
decrement: the running count and the high watermark then exceeded the queue's size.
---
 src/MessageQueueBase.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 0e3d601..ef2f025 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -421,10 +421,8 @@ void * MessageQueueBase::Imple::rawWaitAndGet()
 
 void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 {
-    // Put formerly cooked memory into the cooked ring buffer.
-    rawRingBuffer.put( pRaw );
-
-    // Manage running count.
+    // Manage running count. This must precede returning the memory. Once returned, another thread
+    // may get it and manage the running count ahead of us, driving it above our size.
     ///@todo Couldn't we leverage the rawRingBuffer for this information?
     InternalRunningStateStats runningStats;
     InternalRunningStateStats runningStatsNew;
@@ -438,6 +436,9 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
+
+    // Put formerly cooked memory into the cooked ring buffer.
+    rawRingBuffer.put( pRaw );
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From f6401dac36ab13a394d305311f8f8b6d75da11d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:01 +0000
Subject: [PATCH 10/17] fix: return the slot's own address to the message queue
 after dispatch

For messages where MessageBase is not the first base (multiple or virtual inheritance), the address
of the MessageBase subobject was put back as raw memory: later messages were constructed at a shifted
address, overlapping the neighbouring slot and the end of the arena.
---
 src/MessageQueueBase.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index b003d96..fe9afd2 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -425,7 +425,17 @@ namespace ReiserRT
                 * This destructor invokes the destructor of the MessageBase object it is mantaining
                 * and returns the formerly "cooked" MessageBase memory back to the raw queue.
                 */
-                ~CookedMemoryManager() { if ( pMQB && pMsg ) { pMsg->~MessageBase(); pMQB->rawPutAndNotify( pMsg ); } }
+                ~CookedMemoryManager()
+                {
+                    if ( pMQB && pMsg )
+                    {
+                        // Raw memory starts where the complete message does, MessageBase need not be at the beginning
+                        // of it (e.g., multiple or virtual inheritance). Figure that out while the message is still alive.
+                        void * pRaw = dynamic_cast< void * >( pMsg );
+                        pMsg->~MessageBase();
+                        pMQB->rawPutAndNotify( pRaw );
+                    }
+                }
 
                 /**
                 * @brief Copy Constructor for CookedMemoryManager Disallowed
-- 
2.43.0


From 167ba07f457f635ff044ebd6d29308c2e11a3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:34 +0000
Subject: [PATCH 11/17] fix: release the held dispatch lock when an
 AutoDispatchLock is move assigned

The lock owned by the assigned-to object was forgotten while locked: no message could ever be
dispatched again from its queue.
---
 src/MessageQueueBase.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index fe9afd2..0ebfc22 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -277,6 +277,9 @@ namespace ReiserRT
                 {
                     if (this != &another)
                     {
+                        // Release what we hold, if anything. No one else would.
+                        unlock();
+
                         pMQB = another.pMQB;
                         locked = another.locked;
                         another.pMQB = nullptr;
-- 
2.43.0


From d849800150656a13aa05d8f791f583037c98de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 12/17] fix: store the last dispatched name only once the
 dispatch lock is held

With dispatch locking and more than one dispatching thread, the name of a message still waiting for
the lock was reported while another message was being dispatched.
---
 src/MessageQueueBase.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index ef2f025..0a2bcc7 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -443,14 +443,17 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
 {
-    nameOfLastMessageDispatched.store( pMsg->name() );
+    // The name is not stored until we hold the dispatch lock. Until then, another message
+    // may still be in the process of being dispatched.
     if ( pMutex )
     {
         std::lock_guard< Mutex > lockGuard{ *pMutex };
+        nameOfLastMessageDispatched.store( pMsg->name() );
         pMsg->dispatch();
     }
     else
     {
+        nameOfLastMessageDispatched.store( pMsg->name() );
         pMsg->dispatch();
     }
 }
-- 
2.43.0


From e7ea15d6ab9033ee57553b6ccc1fa04aa5278e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:05 +0000
Subject: [PATCH 13/17] fix: do not lose a message when a put or emplace is
 overtaken by an abort

A message already constructed when abort got in between was either dropped silently, the call
returning as if it had been enqueued, or left behind when the cooked ring buffer threw. Either way
it was never destroyed. Now it is destroyed, its memory returned and SemaphoreAborted thrown.
---
 src/MessageQueueBase.cpp  |  7 ++++++-
 src/MessageQueueBase.hpp  |  8 ++++++++
 src/RingBufferGuarded.hpp | 11 ++++++++---
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 0a2bcc7..9dda27c 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -173,7 +173,9 @@ private:
     inline void cookedPutAndNotify( MessageBase * pCooked )
     {
         // Put cooked memory into the cooked ring buffer. The guarded ring buffer performs the notification.
-        cookedRingBuffer.put( pCooked );
+        // If it ignores us, we have been aborted.
+        if ( !cookedRingBuffer.put( pCooked ) )
+            throw SemaphoreAborted{ "MessageQueueBase::Imple::cookedPutAndNotify: Aborted!" };
     }
 
     /**
@@ -498,7 +500,10 @@ void * MessageQueueBase::rawWaitAndGet()
 
 void MessageQueueBase::cookedPutAndNotify( MessageBase * pCooked )
 {
+    // CookedMemoryManager destroys the message and returns its memory to the raw pool should we be aborted.
+    CookedMemoryManager cookedMemoryManager{ this, pCooked };
     pImple->cookedPutAndNotify( pCooked );
+    cookedMemoryManager.release();
 }
 
 MessageBase * MessageQueueBase::cookedWaitAndGet()
diff --git a/src/MessageQueueBase.hpp b/src/MessageQueueBase.hpp
index 0ebfc22..da7e017 100644
--- a/src/MessageQueueBase.hpp
+++ b/src/MessageQueueBase.hpp
@@ -458,6 +458,14 @@ namespace ReiserRT
                 */
                 CookedMemoryManager &operator=( CookedMemoryManager &&another ) = delete;
 
+                /**
+                * @brief The Release Operation
+                *
+                * This operation releases CookedMemoryManager from responsibility of needing to destroy
+                * the message and return its memory back to the raw queue.
+                */
+                void release() { pMsg = nullptr; }
+
             private:
                 /**
                 * @brief A Reference to the MessageQueueBase that constructed us.
diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index 2bfc6b0..2c35afe 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -174,11 +174,13 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::SemaphoreAborted if the semaphore is aborted.
             *
             * @param p val A value to be put into the ring buffer implementation.
+            *
+            * @return Returns true if the value was put. Returns false if it was ignored for being in the "Terminal" state.
             */
-            inline void put( T val )
+            inline bool put( T val )
             {
                 // If we are in the terminal state, we will just get out of the way
-                if ( state == State::Terminal ) return;
+                if ( state == State::Terminal ) return false;
 
                 // We have to be in the "Ready" state, or we will throw a logic error.
                 if ( state != State::Ready )
@@ -191,6 +193,7 @@ namespace ReiserRT
                 // It is up to the client to manage and/or mitigate this possibility.
                 auto putFunk = [ this, val ]() { this->Base::put( val ); };
                 semaphore.give(std::ref(putFunk));
+                return true;
             }
 
             /**
@@ -587,8 +590,10 @@ namespace ReiserRT
             * @throw Throws ReiserRT::Core::RingBufferOverflow if there is no room left to fulfill the request (full).
             *
             * @param p A pointer to the object to be put into the ring buffer implementation.
+            *
+            * @return Returns true if the pointer was put. Returns false if it was ignored for being in the "Terminal" state.
             */
-            inline void put( T * p ) { Base::put( const_cast< PutType >( p ) ); }
+            inline bool put( T * p ) { return Base::put( const_cast< PutType >( p ) ); }
         };
 
     }
-- 
2.43.0


From a7fc40c08e9ee0dd46a5bcdb55f67b3253d54a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 14/17] fix: read RingBufferGuarded's state once when putting

An abort between the test for Terminal and the test for Ready made put
throw RingBufferStateError for a ring buffer that was Ready.
---
 src/RingBufferGuarded.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/RingBufferGuarded.hpp b/src/RingBufferGuarded.hpp
index 2c35afe..85922e2 100644
--- a/src/RingBufferGuarded.hpp
+++ b/src/RingBufferGuarded.hpp
@@ -179,11 +179,14 @@ namespace ReiserRT
             */
             inline bool put( T val )
             {
+                // The state is read only once as an abort may change it between our tests.
+                const State currentState = state;
+
                 // If we are in the terminal state, we will just get out of the way
-                if ( state == State::Terminal ) return false;
+                if ( currentState == State::Terminal ) return false;
 
                 // We have to be in the "Ready" state, or we will throw a logic error.
-                if ( state != State::Ready )
+                if ( currentState != State::Ready )
                 {
                     throw RingBufferStateError{ "RingBufferGuarded::put invoked while not in the Ready state!" };
                 }
-- 
2.43.0


From b50f482837f28a42efa8155faa4c767e51a46465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 15/17] fix: do not let an abort terminate threads returning
 slots to the message queue

rawPutAndNotify is reached from destructors. A SemaphoreAborted exception
from the raw ring buffer's put went straight to std::terminate.
---
 src/MessageQueueBase.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index 9dda27c..f75316c 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -439,8 +439,15 @@ void MessageQueueBase::Imple::rawPutAndNotify( void * pRaw )
     } while ( !runningState.compare_exchange_weak( runningStats.state, runningStatsNew.state,
                                                    std::memory_order_seq_cst, std::memory_order_seq_cst ) );
 
-    // Put formerly cooked memory into the cooked ring buffer.
-    rawRingBuffer.put( pRaw );
+    // Put formerly cooked memory into the cooked ring buffer. We are invoked from destructors and cannot throw.
+    // If aborted, there is no one left to make use of the memory. It remains part of the arena.
+    try
+    {
+        rawRingBuffer.put( pRaw );
+    }
+    catch ( const SemaphoreAborted & )
+    {
+    }
 }
 
 void MessageQueueBase::Imple::dispatchMessage( MessageBase * pMsg )
-- 
2.43.0


From 115424a2a22264c0c86e97d1c671abe8515c2720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 16/17] fix: release MessageQueueBase's arena if construction
 fails

The raw arena pointer was leaked when allocating the ring buffers threw.
---
 src/MessageQueueBase.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/MessageQueueBase.cpp b/src/MessageQueueBase.cpp
index f75316c..6ed4092 100644
--- a/src/MessageQueueBase.cpp
+++ b/src/MessageQueueBase.cpp
@@ -271,7 +271,7 @@ private:
     * This attribute records the pointer to our memory arena that was allocated during construction so that
     * it may be properly returned to the standard heap during ObjectQueue destruction.
     */
-    alignas( void * ) unsigned char * arena;
+    std::unique_ptr< unsigned char[] > arena;
 
     /**
     * @brief The Name of the Last Message Dispatched
@@ -364,7 +364,7 @@ MessageQueueBase::Imple::Imple( std::size_t theRequestedNumElements, std::size_t
 {
     // Prime the raw ring buffer with void pointers into our arena space. We do this with a lambda function.
     auto funk = [ this ]( size_t i )
-            { return reinterpret_cast< void * >( arena + i * elementSize ); };
+            { return reinterpret_cast< void * >( arena.get() + i * elementSize ); };
     rawRingBuffer.prime( funk );
 }
 
@@ -373,9 +373,6 @@ MessageQueueBase::Imple::~Imple()
     // Flush anything left in the cooked ring buffer.
     auto funk = []( void * pV ) { auto * pM = reinterpret_cast< MessageBase * >( pV ); pM->~MessageBase(); };
     cookedRingBuffer.flush( funk );
-
-    // Return our arena memory to the standard heap.
-    delete[] arena;
 }
 
 MessageQueueBase::RunningStateStats MessageQueueBase::Imple::getRunningStateStatistics() noexcept
-- 
2.43.0


From f22adfd5f1e238c6a11f01ca71d856d8f878f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 17/17] fix: report failures to initialise mutexes and
 condition variables

The Mutex and Semaphore constructors ignored the results of pthread_mutex_init
(ENOTSUP where priority inheritance is missing, EAGAIN, ENOMEM) and
pthread_cond_init, and went on with uninitialised objects.
---
 src/Mutex.cpp     | 33 +++++++++++++++++++++------------
 src/Semaphore.cpp | 22 ++++++++++++++++------
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/Mutex.cpp b/src/Mutex.cpp
index ff37479..537363a 100644
--- a/src/Mutex.cpp
+++ b/src/Mutex.cpp
@@ -23,21 +23,30 @@ Mutex::Mutex()
 #ifdef REISER_RT_HAS_PTHREADS
     // Initialize a mutex attribute
     pthread_mutexattr_t attr;
-    pthread_mutexattr_init( &attr );
-
-    // Set protocol to PTHREAD_PRIO_INHERIT if not already the case.
-    int protocol;
-    pthread_mutexattr_getprotocol( &attr, &protocol );
-    if ( protocol != PTHREAD_PRIO_INHERIT )
+    int e = pthread_mutexattr_init( &attr );
+    if ( e == 0 )
     {
-        pthread_mutexattr_setprotocol( &attr, PTHREAD_PRIO_INHERIT );
+        // Set protocol to PTHREAD_PRIO_INHERIT if not already the case.
+        int protocol;
+        pthread_mutexattr_getprotocol( &attr, &protocol );
+        if ( protocol != PTHREAD_PRIO_INHERIT )
+        {
+            e = pthread_mutexattr_setprotocol( &attr, PTHREAD_PRIO_INHERIT );
+        }
+
+        // Initialize our native type (pthread_mutex_t) with our modified attribute.
+        if ( e == 0 ) e = pthread_mutex_init( nativeHandle, &attr );
+
+        // Destroy the attribute, we are done with it.
+        pthread_mutexattr_destroy( &attr );
     }
 
-    // Initialize our native type (pthread_mutex_t) with our modified attribute.
-    pthread_mutex_init( nativeHandle, &attr );
-
-    // Destroy the attribute, we are done with it.
-    pthread_mutexattr_destroy( &attr );
+    // EAGAIN, ENOMEM, EPERM and ENOTSUP potentially. Our destructor won't be invoked.
+    if ( e )
+    {
+        delete nativeHandle;
+        throw std::system_error{ e, std::system_category() };
+    }
 #endif
 }
 
diff --git a/src/Semaphore.cpp b/src/Semaphore.cpp
index 3de33e3..52dde23 100644
--- a/src/Semaphore.cpp
+++ b/src/Semaphore.cpp
@@ -19,6 +19,7 @@
 #include <condition_variable>
 #endif
 #include <mutex>
+#include <system_error>
 #include <thread>
 
 
@@ -57,14 +58,23 @@ public:
 #ifdef REISER_RT_HAS_PTHREADS
         // Initialize a condition variable attribute
         pthread_condattr_t attr;
-        pthread_condattr_init( &attr );
+        int e = pthread_condattr_init( &attr );
+        if ( e == 0 )
+        {
+            // Initialize the condition variables
+            e = pthread_cond_init( &takeConditionVar, &attr );
+            if ( e == 0 )
+            {
+                e = pthread_cond_init( &giveConditionVar, &attr );
+                if ( e ) pthread_cond_destroy( &takeConditionVar );
+            }
 
-        // Initialize the condition variables
-        pthread_cond_init( &takeConditionVar, &attr );
-        pthread_cond_init( &giveConditionVar, &attr );
+            // Destroy attribute, we are done with it.
+            pthread_condattr_destroy( &attr );
+        }
 
-        // Destroy attribute, we are done with it.
-        pthread_condattr_destroy( &attr );
+        // EAGAIN and ENOMEM potentially.
+        if ( e ) throw std::system_error{ e, std::system_category() };
 #endif
     }
 
-- 
2.43.0

