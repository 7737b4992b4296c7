From d609aa89e8f4c7cfb02fb11433ab4254fdcbea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:04 +0000
Subject: [PATCH 01/26] fix: 4-byte asmcas/asmcasr compared and wrote 8 bytes

On LP64 the operand was accessed as long: the exchange failed whenever the
neighbouring word was non-zero and the result overwrote the neighbour.
---
 include/bss-util/lockless.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index bc6b735..e888c04 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -138,7 +138,7 @@ namespace bss {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 4> {
-      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
+      BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval) != 0; }
     };
     template<typename T> struct ASMCAS_REGPICK_WRITE<T, 8> {
       BSS_FORCEINLINE static uint8_t asmcas(volatile T *dest, T newval, T oldval) { return __sync_bool_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval) != 0; }
@@ -183,7 +183,7 @@ namespace bss {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(short*)&retval = __sync_val_compare_and_swap((volatile short*)dest, *(int16_t*)&oldval, *(int16_t*)&newval); return *(int16_t*)&retval == *(int16_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 4> {
-      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long*)&retval = __sync_val_compare_and_swap((volatile long*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
+      BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(int32_t*)&retval = __sync_val_compare_and_swap((volatile int32_t*)dest, *(int32_t*)&oldval, *(int32_t*)&newval); return *(int32_t*)&retval == *(int32_t*)&oldval; }
     };
     template<typename T> struct ASMCAS_REGPICK_READ<T, 8> {
       BSS_FORCEINLINE static bool asmcas(volatile T *dest, T newval, T oldval, T& retval) { *(long long*)&retval = __sync_val_compare_and_swap((volatile long long*)dest, *(int64_t*)&oldval, *(int64_t*)&newval); return *(int64_t*)&retval == *(int64_t*)&oldval; }
-- 
2.43.0


From 694d8a7497096d4b091bef3bb250d4acff771eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:32 +0000
Subject: [PATCH 02/26] fix: asmbts/asmbtr must be compiler barriers

Without a memory clobber the compiler moves or merges ordinary memory accesses
across the bit test: a value read before RWLock::Lock() was reused inside the
critical section at -O2.
---
 include/bss-util/lockless.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/lockless.h b/include/bss-util/lockless.h
index e888c04..7388c6d 100644
--- a/include/bss-util/lockless.h
+++ b/include/bss-util/lockless.h
@@ -214,7 +214,8 @@ namespace bss {
           "lock bts %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "memory");
         return retval != 0;
       }
     };
@@ -226,7 +227,8 @@ namespace bss {
           "lock bts %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "memory");
         return retval != 0;
       }
     };
@@ -251,7 +253,8 @@ namespace bss {
           "lock btr %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "memory");
         return retval != 0;
       }
     };
@@ -263,7 +266,8 @@ namespace bss {
           "lock btr %[bit], %[x]\n\t"
           "setc     %b[rv]\n\t"
           : [x] "+m" (*pval), [rv] "=rm"(retval)
-          : [bit] "ri" (bit));
+          : [bit] "ri" (bit)
+          : "memory");
         return retval != 0;
       }
     };
-- 
2.43.0


From 249f90c326d7e12a84de3b23cb54591c9571afd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:32 +0000
Subject: [PATCH 03/26] fix: RWLock exclusive acquisition lacked acquire
 ordering

AttemptStrictLock acquired with a release-only exchange and the loops that wait
for the last readers used relaxed loads, so accesses of the critical section
could be ordered before the readers' last accesses.
---
 include/bss-util/RWLock.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/bss-util/RWLock.h b/include/bss-util/RWLock.h
index 9597b73..1944114 100644
--- a/include/bss-util/RWLock.h
+++ b/include/bss-util/RWLock.h
@@ -34,7 +34,7 @@ namespace bss {
       //assert(debugEmplace());
 
       while(asmbts<size_t>((size_t*)&l, WBIT)); // While the returned value includes the flag bit, another writer is performing an operation
-      while((l.load(std::memory_order_relaxed)&WMASK) > 0); // Wait for any remaining readers to flush
+      while((l.load(std::memory_order_acquire)&WMASK) > 0); // Wait for any remaining readers to flush
     }
 
     // Attempts to acquire the lock, but if another writer already got the lock, aborts the attempt.
@@ -44,7 +44,7 @@ namespace bss {
         return false;
 
       //assert(debugEmplace());
-      while((l.load(std::memory_order_relaxed)&WMASK) > 0); // Wait for any remaining readers to flush
+      while((l.load(std::memory_order_acquire)&WMASK) > 0); // Wait for any remaining readers to flush
       return true;
     }
 
@@ -52,7 +52,7 @@ namespace bss {
     BSS_FORCEINLINE bool AttemptStrictLock() noexcept
     {
       size_t prev = 0;
-      bool r = l.compare_exchange_strong(prev, WFLAG, std::memory_order_release);
+      bool r = l.compare_exchange_strong(prev, WFLAG, std::memory_order_acquire);
       //if(r) assert(debugEmplace());
       return r;
     }
@@ -106,7 +106,7 @@ namespace bss {
         while(l.load(std::memory_order_relaxed)&WFLAG); // Wait until the writer flag is no longer set before looping for another attempt
         l.fetch_add(ONE_READER, std::memory_order_acquire); // Acquire a read lock before our next upgrade attempt - if the attempt fails, we'll release this.
       }
-      while((l.load(std::memory_order_relaxed)&WMASK) > ONE_READER); // Only flush to a single read lock, which will be our own
+      while((l.load(std::memory_order_acquire)&WMASK) > ONE_READER); // Only flush to a single read lock, which will be our own
     }
 
     // Attempts to upgrade a read lock to a write lock, but aborts if an existing writer has already locked it.
@@ -117,7 +117,7 @@ namespace bss {
         return false;
 
       //assert(debugCount() == 1);
-      while((l.load(std::memory_order_relaxed)&WMASK) > ONE_READER); // Only flush to a single read lock, which will be our own
+      while((l.load(std::memory_order_acquire)&WMASK) > ONE_READER); // Only flush to a single read lock, which will be our own
       return true;
     }
 
-- 
2.43.0


From 7f7d8005379c6fa340013baeb456a3349ecdef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:32 +0000
Subject: [PATCH 04/26] fix: RingAlloc::Clear freed the buckets without holding
 the lock

Clear() walked and freed the bucket list unlocked and left a window in which the
current bucket was null; a concurrent Alloc/Dealloc dereferenced null or freed memory.
---
 include/bss-util/RingAlloc.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/RingAlloc.h b/include/bss-util/RingAlloc.h
index ced0f33..ea33fde 100644
--- a/include/bss-util/RingAlloc.h
+++ b/include/bss-util/RingAlloc.h
@@ -111,8 +111,8 @@ namespace bss {
     }
     inline void Clear()
     {
-      _clear();
       _lock.Lock();
+      _clear();
       _cur.store(_genBucket(_lastsize), std::memory_order_release);
       _lock.Unlock();
     }
@@ -132,7 +132,7 @@ namespace bss {
   protected:
     BSS_FORCEINLINE static LLBase<Bucket>& _getBucket(Bucket* b) noexcept { return b->list; }
 
-    void _clear()
+    void _clear() // Caller must hold _lock or have exclusive access to the allocator
     {
       Bucket* hold;
 
@@ -146,9 +146,7 @@ namespace bss {
 
       _gc.p = 0;
       _gc.tag = 0;
-      _lock.Lock();
       _cur.store(0, std::memory_order_release);
-      _lock.Unlock();
     }
     // It is crucial that only allocation sizes are passed into this, or the ring allocator will simply keep allocating larger and larger buckets forever
     Bucket* _genBucket(size_t num) noexcept
-- 
2.43.0


From fba70b17b2c714e47c1737bfac283e161cddd427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:32 +0000
Subject: [PATCH 05/26] fix: MicroLockQueue read the head node without the
 consumer lock

Pop's unlocked pre-check and Peek dereferenced the head node while another
consumer may pop and release it.
---
 include/bss-util/LocklessQueue.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 0e0a706..2ead5bb 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -168,8 +168,6 @@ namespace bss {
     BSS_FORCEINLINE void Push(T&& item) { _produce<T&&>(std::move(item)); }
     inline bool Pop(T& result)
     {
-      if(!_div->next) return false; // Remove some contending pressure
-
       while(_cflag.test_and_set(std::memory_order_acquire));
       QNODE* ref = _div;
       QNODE* n = _div->next;
@@ -188,7 +186,13 @@ namespace bss {
       _cflag.clear(std::memory_order_release);
       return false;
     }
-    inline bool Peek() { return _div->next != 0; }
+    inline bool Peek()
+    {
+      while(_cflag.test_and_set(std::memory_order_acquire));
+      bool r = _div->next != 0;
+      _cflag.clear(std::memory_order_release);
+      return r;
+    }
     inline MicroLockQueue& operator=(MicroLockQueue&& mov)
     {
       Alloc::operator=(std::move(mov));
-- 
2.43.0


From 2936ba5f742ad01d8ba9ae55a414b17fd0c8c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:27 +0000
Subject: [PATCH 06/26] fix: data races on the queue links

The link of a queue node is written by a producer while a consumer reads it
(MicroLockQueue), and LocklessQueue's consumer and garbage collector read the
other side's pointer with relaxed ordering, so the item was not synchronised.
---
 include/bss-util/LocklessQueue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bss-util/LocklessQueue.h b/include/bss-util/LocklessQueue.h
index 2ead5bb..ef0e4b3 100644
--- a/include/bss-util/LocklessQueue.h
+++ b/include/bss-util/LocklessQueue.h
@@ -13,7 +13,7 @@ namespace bss {
       inline LQ_QNode() : next(0) {} // This lets item have a proper default constructor
       template<typename U>
       inline LQ_QNode(U && Item) : next(0), item(std::forward<U>(Item)) {}
-      LQ_QNode* next;
+      std::atomic<LQ_QNode*> next; // Written by producers while consumers read it
       T item;
     };
 
@@ -77,9 +77,9 @@ namespace bss {
     {
       QNODE* div = _div.load(std::memory_order_acquire);
 
-      if(div != _last.load(std::memory_order_relaxed))
+      if(div != _last.load(std::memory_order_acquire))
       {
-        result = std::move(div->next->item); 	// try to use move semantics if possible
+        result = std::move(div->next.load(std::memory_order_acquire)->item); 	// try to use move semantics if possible
         _div.store(div->next, std::memory_order_release); // publish it
         internal::LocklessQueue_Length<LENGTH>::_decLength(); // Decrement length if we're tracking it
         return true;
@@ -111,7 +111,7 @@ namespace bss {
       internal::LocklessQueue_Length<LENGTH>::_incLength(); // If we are tracking length, atomically increment it
 
       QNODE* tmp; // collect garbage
-      while(_first != _div.load(std::memory_order_relaxed))
+      while(_first != _div.load(std::memory_order_acquire))
       {
         tmp = _first;
         _first = _first->next;
-- 
2.43.0


From 0d2fdf6b4d671253a3b5babfdd1ecff5ce6466ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:27 +0000
Subject: [PATCH 07/26] fix: ThreadPool::Wait did not synchronise with the
 finished tasks

The final spin used a relaxed load, so what the tasks wrote was not visible to the waiter.
---
 include/bss-util/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/ThreadPool.h b/include/bss-util/ThreadPool.h
index e22256b..628ab51 100644
--- a/include/bss-util/ThreadPool.h
+++ b/include/bss-util/ThreadPool.h
@@ -84,7 +84,7 @@ namespace bss {
         _tasks.fetch_sub(1, std::memory_order_release);
       }
 
-      while(_tasks.load(std::memory_order_relaxed) > 0); // Wait until all tasks actually stop processing
+      while(_tasks.load(std::memory_order_acquire) > 0); // Wait until all tasks actually stop processing
     }
     inline size_t Busy() const { return _tasks.load(std::memory_order_relaxed); }
 
-- 
2.43.0


From 93599ccfd31f188f96cf2db5736f776b5d4e6b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:27 +0000
Subject: [PATCH 08/26] fix: CachePolicy::allocate released a shrunk block with
 the wrong size

The old count was overwritten with the new one before Dealloc, which put the
block on the free list of a different size (and trips the debug size check).
---
 include/bss-util/CacheAlloc.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index d2f48d5..afb3a96 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -145,9 +145,7 @@ namespace bss {
       if(p)
       {
         assert(old > 0);
-        if(cnt < old)
-          old = cnt;
-        MEMCPY(n, cnt * sizeof(T), p, old * sizeof(T));
+        MEMCPY(n, cnt * sizeof(T), p, bssmin(cnt, old) * sizeof(T));
         CacheAlloc::Dealloc(p, old * sizeof(T));
       }
       return n;
-- 
2.43.0


From c3fa6c8a7275a189c8077f6dcb1e81a928be5ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:27 +0000
Subject: [PATCH 09/26] fix: CacheAlloc::Alloc reset the free list another
 thread had just created

Upgrade() may let another writer in; the size has to be looked up again or the
insert overwrites a live free list.
---
 include/bss-util/CacheAlloc.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/CacheAlloc.h b/include/bss-util/CacheAlloc.h
index afb3a96..1a0dca9 100644
--- a/include/bss-util/CacheAlloc.h
+++ b/include/bss-util/CacheAlloc.h
@@ -39,8 +39,10 @@ namespace bss {
         khiter_t i = _cache.Iterator(sz);
         if(!_cache.ExistsIter(i))
         {
-          _cachelock.Upgrade();
-          i = _cache.Insert(sz, { 0, 0 });
+          _cachelock.Upgrade(); // This can release the lock, so another thread may have inserted the size in the meantime
+          i = _cache.Iterator(sz);
+          if(!_cache.ExistsIter(i))
+            i = _cache.Insert(sz, { 0, 0 });
           _cachelock.Downgrade();
         }
         assert(_cache.ExistsIter(i));
-- 
2.43.0


From 02fc886613102430f82aca3d2df0a7fe67d9ca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:06 +0000
Subject: [PATCH 10/26] fix: self-assignment of Array/DynArray destroyed the
 elements before copying them

---
 include/bss-util/Array.h    | 2 ++
 include/bss-util/DynArray.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/bss-util/Array.h b/include/bss-util/Array.h
index 261411f..7676111 100644
--- a/include/bss-util/Array.h
+++ b/include/bss-util/Array.h
@@ -342,6 +342,8 @@ namespace bss {
 
     BSS_FORCEINLINE Array& operator=(const Array& copy) noexcept
     {
+      if(this == &copy)
+        return *this;
       BASE::_setLength(_array, _capacity, 0);
       BASE::_setCapacityDiscard(copy._capacity);
       BASE::_copy(_array, copy._array, _capacity);
diff --git a/include/bss-util/DynArray.h b/include/bss-util/DynArray.h
index c118a4e..71261c0 100644
--- a/include/bss-util/DynArray.h
+++ b/include/bss-util/DynArray.h
@@ -98,6 +98,8 @@ namespace bss {
     inline DynArray& operator=(Array<T, CT, ArrayType, Alloc>&& mov) { BASE::_setLength(_array, _length, 0); BASE::operator=(std::move(mov)); _length = mov._capacity; return *this; }
     inline DynArray& operator=(const DynArray& copy)
     {
+      if(this == &copy)
+        return *this;
       BASE::_setLength(_array, _length, 0);
       if(copy._length > _capacity)
         BASE::_setCapacityDiscard(copy._capacity);
-- 
2.43.0


From de560ba0d3fff5a315eb7c29d2f3d95535e87089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:57 +0000
Subject: [PATCH 11/26] fix: Stack copy and move constructors did not compile

---
 include/bss-util/Stack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Stack.h b/include/bss-util/Stack.h
index 9d853d6..8b8a822 100644
--- a/include/bss-util/Stack.h
+++ b/include/bss-util/Stack.h
@@ -12,8 +12,8 @@ namespace bss {
   class BSS_COMPILER_DLLEXPORT Stack
   {
   public:
-    inline Stack(const Stack& copy) : _array(copy) {}
-    inline Stack(Stack&& mov) : _array(std::move(mov)) {}
+    inline Stack(const Stack& copy) : _array(copy._array) {}
+    inline Stack(Stack&& mov) : _array(std::move(mov._array)) {}
     template<bool U = std::is_void_v<typename Alloc::policy_type>, std::enable_if_t<!U, int> = 0>
     inline Stack(CType init, typename Alloc::policy_type* policy) : _array(init, policy) {}
     inline explicit Stack(CType init = 0) : _array(init) {}
-- 
2.43.0


From 4cc174943a4c0b351a5c61c64ec12906d92b8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:57 +0000
Subject: [PATCH 12/26] fix: RandomQueue Remove and Clear dropped elements
 without destroying them

---
 include/bss-util/RandomQueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/RandomQueue.h b/include/bss-util/RandomQueue.h
index 200e692..7220c8a 100644
--- a/include/bss-util/RandomQueue.h
+++ b/include/bss-util/RandomQueue.h
@@ -35,9 +35,9 @@ namespace bss {
       return r;
     }
     BSS_FORCEINLINE T Pop() { return Pop(bss_getdefaultengine()); }
-    inline void Remove(CT index) { _array[index] = std::move(_array[--_length]); }
+    inline void Remove(CT index) { _array[index] = std::move(_array[_length - 1]); BASE::RemoveLast(); }
     inline bool Empty() const { return !_length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     BSS_FORCEINLINE void SetLength(CT length) { BASE::SetLength(length); }
     inline CT Length() const { return _length; }
     inline const T* begin() const { return _array; }
-- 
2.43.0


From a07eaf8357f98ae108ae868525274342f4090fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:57 +0000
Subject: [PATCH 13/26] fix: Queue::Discard dropped an element without
 destroying it

---
 include/bss-util/Queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/Queue.h b/include/bss-util/Queue.h
index af98476..b5e895d 100644
--- a/include/bss-util/Queue.h
+++ b/include/bss-util/Queue.h
@@ -30,7 +30,7 @@ namespace bss {
     // Peeks at the value at the top of the queue but does not remove it. If there is no value, this is an illegal call.
     BSS_FORCEINLINE T& Peek() { assert(_length != 0); return BASE::Back(); }
     BSS_FORCEINLINE const T& Peek() const { assert(_length != 0); return BASE::Back(); }
-    BSS_FORCEINLINE void Discard() { --_length; }
+    BSS_FORCEINLINE void Discard() { assert(_length != 0); BASE::_array[BASE::_modIndex(--_length)].~T(); }
     // Returns true if there are no values in the queue (indicating that Pop() and Peek() cannot be called)
     BSS_FORCEINLINE bool Empty() { return !_length; }
     BSS_FORCEINLINE void Clear() { BASE::Clear(); }
-- 
2.43.0


From 106f238153679d741d6ab24577f5f6db996d3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:57 +0000
Subject: [PATCH 14/26] fix: BinaryHeap::Clear dropped the elements without
 destroying them

---
 include/bss-util/BinaryHeap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 9f1f022..125c25b 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -61,7 +61,7 @@ namespace bss {
     }
     inline bool Empty() { return !_length; }
     inline CT Length() { return _length; }
-    inline void Clear() { _length = 0; }
+    inline void Clear() { BASE::Clear(); }
     // Inserts a value
     inline void Insert(const T& val) { _insert(val); }
     inline void Insert(T&& val) { _insert(std::move(val)); }
-- 
2.43.0


From e658b2abddc96eedd3c8bb7deb965441f84584d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:57 +0000
Subject: [PATCH 15/26] fix: BinaryHeap(src, length) passed a byte count where
 an element count is expected

---
 include/bss-util/BinaryHeap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/BinaryHeap.h b/include/bss-util/BinaryHeap.h
index 125c25b..5328b7d 100644
--- a/include/bss-util/BinaryHeap.h
+++ b/include/bss-util/BinaryHeap.h
@@ -43,7 +43,7 @@ namespace bss {
     inline BinaryHeap() : BASE(0) {}
     inline BinaryHeap(const T* src, CT length) : BASE(length)
     { 
-      _copy(_array, src, sizeof(T)*length);
+      BASE::_copy(_array, src, length);
       _length = length;
       Heapify(_array, _length);
     }
-- 
2.43.0


From 67600d01e844912108d555d40425bedc1fe5d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:57 +0000
Subject: [PATCH 16/26] fix: self-assignment of ArrayCircular lost the elements

---
 include/bss-util/ArrayCircular.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/ArrayCircular.h b/include/bss-util/ArrayCircular.h
index 3f7fa0d..e0ff6b1 100644
--- a/include/bss-util/ArrayCircular.h
+++ b/include/bss-util/ArrayCircular.h
@@ -100,6 +100,8 @@ namespace bss {
     BSS_FORCEINLINE const T& operator[](CT index) const { return _array[_modIndex(index)]; }
     inline ArrayCircular& operator=(const ArrayCircular& right)
     {
+      if(this == &right)
+        return *this;
       Clear();
       BASE::_setCapacityDiscard(right._capacity);
       _cur = right._cur;
-- 
2.43.0


From d0cc187067d6adaa6a2a60b1eb73403da0221ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:24 +0000
Subject: [PATCH 17/26] fix: LinkedList::Clear wiped the allocator along with
 the list

---
 include/bss-util/LinkedList.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index 66d854b..1ec4cd6 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -79,6 +79,7 @@ namespace bss {
       inline LList_LAST(LList_LAST<T, L>&& mov) : _last(mov._last), _root(mov._root) { mov._root = 0; mov._last = 0; }
       inline void _add(LLNode<T>* node) { if(!_root) { node->next = node->prev = 0; _last = _root = node; } else _last = LLAddAfter<LLNode<T>>(node, _last); }
       inline void _remove(LLNode<T>* node) { LLRemove<LLNode<T>>(node, _root, _last); }
+      inline void _reset() { _last = 0; _root = 0; }
       inline LList_LAST<T, L>& operator =(LList_LAST<T, L>&& mov) { _last = mov._last; mov._last = 0; _root = mov._root; mov._root = 0; return *this; }
 
       LLNode<T>* _root;
@@ -103,6 +104,7 @@ namespace bss {
       inline LList_LAST() : _root(0) {}
       inline LList_LAST(LList_LAST<T, false>&& mov) : _root(mov._root) { mov._root = 0; }
       inline void _remove(LLNode<T>* node) { LLRemove<LLNode<T>>(node, _root); }
+      inline void _reset() { _root = 0; }
       inline void _add(LLNode<T>* node) { LLAdd<LLNode<T>>(node, _root); }
       inline LList_LAST<T, false>& operator =(LList_LAST<T, false>&& mov) { _root = mov._root; mov._root = 0; return *this; }
 
@@ -188,7 +190,8 @@ namespace bss {
         hold = nexthold;
       }
 
-      bssFill(*this, 0);
+      internal::LList_LAST<T, useLast>::_reset();
+      internal::LList_SIZE<useSize>::_zerosize();
     }
 
     inline LLNode<T>* Front() const { return _root; }
-- 
2.43.0


From ef25ebd87cfcff33e4312e73e07d59c9dc0e0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:46 +0000
Subject: [PATCH 18/26] fix: LinkedList move assignment left the nodes with the
 wrong allocator

---
 include/bss-util/LinkedList.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/LinkedList.h b/include/bss-util/LinkedList.h
index 1ec4cd6..3ca1a59 100644
--- a/include/bss-util/LinkedList.h
+++ b/include/bss-util/LinkedList.h
@@ -209,6 +209,8 @@ namespace bss {
         return *this;
 
       Clear();
+      if constexpr(std::is_same_v<LinkedList<T, U, useLast, V>, LinkedList>)
+        Alloc::operator=(static_cast<Alloc&&>(mov)); // the nodes have to go back to the allocator they came from
       internal::LList_LAST<T, useLast>::operator=(std::move(mov));
       internal::LList_SIZE<useSize>::operator=(mov);
       mov._zerosize();
-- 
2.43.0


From 41fb206de45d21b0de143deaa019cb4c6f1670d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:34 +0000
Subject: [PATCH 19/26] fix: AVLTree move assignment left the nodes with the
 wrong allocator

---
 include/bss-util/AVLTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/AVLTree.h b/include/bss-util/AVLTree.h
index e432b1a..5a58fee 100644
--- a/include/bss-util/AVLTree.h
+++ b/include/bss-util/AVLTree.h
@@ -161,7 +161,7 @@ namespace bss {
       return (cur != 0);
     }
 
-    inline AVLTree& operator=(AVLTree&& mov) { Clear(); _root = mov._root; mov._root = 0; return *this; }
+    inline AVLTree& operator=(AVLTree&& mov) { Clear(); Alloc::operator=(std::move(mov)); _root = mov._root; mov._root = 0; return *this; }
 
   protected:
     template<typename F>
-- 
2.43.0


From b07a2599388ecfdc2590eb78a30dad7b6469bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:16 +0000
Subject: [PATCH 20/26] fix: ref_ptr assignment dropped the old object before
 grabbing the new one

---
 include/bss-util/RefCounter.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/bss-util/RefCounter.h b/include/bss-util/RefCounter.h
index 94ea157..7f3055a 100644
--- a/include/bss-util/RefCounter.h
+++ b/include/bss-util/RefCounter.h
@@ -63,21 +63,24 @@ namespace bss {
     inline ref_ptr& operator=(const ref_ptr& right) { return operator=(right._p); }
     inline ref_ptr& operator=(ref_ptr&& right)
     {
-      if(_p != 0) 
-        _p->Drop();
+      T* p = right._p;
+      right._p = 0;
+      T* old = _p;
+      _p = p;
+      if(old != 0) // Dropped last, because this might destroy the object that contains right
+        old->Drop();
 
-      _p = right._p;
-      right._p = 0; 
       return *this; 
     }
     inline ref_ptr& operator=(T* right)
     { 
-      if(_p != 0) 
-        _p->Drop();
+      if(right != 0) // Grabbed first, because dropping the old object might destroy this one if it's the same or only kept alive by it
+        right->Grab();
 
-      _p = right; 
-      if(_p != 0) 
-        _p->Grab(); 
+      T* old = _p;
+      _p = right;
+      if(old != 0)
+        old->Drop();
 
       return *this; 
     }
-- 
2.43.0


From b26236370875e8983dbe672de22aeaf1f9eda02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:16 +0000
Subject: [PATCH 21/26] fix: OwnerPtr assignment took ownership it did not have
 and deleted its object on self-assignment

---
 include/bss-util/SmartPtr.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/SmartPtr.h b/include/bss-util/SmartPtr.h
index d7fe210..3ecf5b4 100644
--- a/include/bss-util/SmartPtr.h
+++ b/include/bss-util/SmartPtr.h
@@ -47,6 +47,9 @@ namespace bss {
     }
     inline OwnerPtr& operator=(const OwnerPtr& right)
     {
+      if(this == &right)
+        return *this;
+
       _disown();
       _p = right._p;
       _owner = false;
@@ -61,9 +64,12 @@ namespace bss {
     }
     inline OwnerPtr& operator=(OwnerPtr&& right)
     { 
+      if(this == &right)
+        return *this;
+
       _disown(); 
       _p = right._p; 
-      _owner = true; 
+      _owner = right._owner; 
       right._owner = false;
       return *this; 
     }
-- 
2.43.0


From cd6bbcd87357ac8b71badab957b8662e49f82edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:24 +0000
Subject: [PATCH 22/26] fix: assigning an empty Variant to an empty Variant
 asserted

---
 include/bss-util/Variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 2a59cd3..41be6ba 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -216,7 +216,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<typename std::remove_reference<U>::type, Tx...>(v);
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
@@ -229,7 +229,7 @@ namespace bss {
         if constexpr(sizeof...(Tx) > 0)
           _assignU<U, Tx...>(std::move(v));
         else
-          assert(false);
+          assert(_tag == -1);
       }
     }
     template<class U, typename T, typename... Tx>
-- 
2.43.0


From aabc34b56eda8ceebb576b010158d9f3c77cfb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:24 +0000
Subject: [PATCH 23/26] fix: Variant storage was not aligned for its
 alternatives

---
 include/bss-util/Variant.h | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/include/bss-util/Variant.h b/include/bss-util/Variant.h
index 41be6ba..919dc98 100644
--- a/include/bss-util/Variant.h
+++ b/include/bss-util/Variant.h
@@ -36,13 +36,10 @@ namespace bss {
 
     // Compile-time max alignment
     template<typename A, typename... Ax>
-    struct max_alignof {
-      static constexpr size_t value = (max_alignof<Ax...>::value > alignof(A)) ? max_alignof<Ax...>::value : alignof(A);
-      typedef std::conditional<(max_alignof<Ax...>::value > alignof(A)), A, typename max_alignof<Ax...>::type> type;
-    };
+    struct max_alignof { static constexpr size_t value = (max_alignof<Ax...>::value > alignof(A)) ? max_alignof<Ax...>::value : alignof(A); };
 
     template<typename A>
-    struct max_alignof<A> { static constexpr size_t value = alignof(A); typedef A type; };
+    struct max_alignof<A> { static constexpr size_t value = alignof(A); };
 
     template<typename X, typename... Ts> struct getpos;
 
@@ -262,11 +259,7 @@ namespace bss {
     }
 
     int _tag;
-    union
-    {
-      char _store[max_sizeof<Arg, Args...>::value]; // actual storage
-      typename max_alignof<Arg, Args...>::type _align; // simply ensures we have the correct alignment for the type with the largest alignment
-    };
+    alignas(max_alignof<Arg, Args...>::value) char _store[max_sizeof<Arg, Args...>::value]; // actual storage, aligned for the type with the largest alignment
   };
 }
 
-- 
2.43.0


From 65333eb4147b7cc0daa5b1bcce2b5cec73bb5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:32 +0000
Subject: [PATCH 24/26] fix: a NUL character in a TOML key no longer stalls the
 parser

A terminator of 0 means there is none, but it was compared with the input, so
a bare key stopped at a NUL that nothing would ever consume.
---
 include/bss-util/TOML.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bss-util/TOML.h b/include/bss-util/TOML.h
index c6d9f6b..bc56dfb 100644
--- a/include/bss-util/TOML.h
+++ b/include/bss-util/TOML.h
@@ -258,7 +258,7 @@ namespace bss {
       break;
     default: // This is a bare string, which cannot be multiline
     {
-      while(!!s && s.peek() != '\n' && s.peek() != '\r' && s.peek() != END && s.peek() != END2 && s.peek() != -1) buf += s.get();
+      while(!!s && s.peek() != '\n' && s.peek() != '\r' && (!END || s.peek() != END) && (!END2 || s.peek() != END2) && s.peek() != -1) buf += s.get(); // 0 means there is no such terminator
       const char* str = buf.data(); // strip whitespace from the end
       const char* inter = str + buf.size();
       if(str != inter)
-- 
2.43.0


From 7808f4e2462edc9ca9e4d181a5b6b82a63c1451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:56 +0000
Subject: [PATCH 25/26] fix: Hash destroys the objects it moves out of while
 rehashing or growing

---
 include/bss-util/Hash.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index f1bb146..fa49a3b 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -482,10 +482,15 @@ namespace bss {
           if(__ac_iseither(flags, j) == 0)
           {
             Key key(std::move(keys[j]));
+            keys[j].~Key();
             [[maybe_unused]] FakeData val;
             khint_t new_mask;
             new_mask = new_n_buckets - 1;
-            if constexpr(IsMap)val = std::move(vals[j]);
+            if constexpr(IsMap)
+            {
+              val = std::move(vals[j]);
+              vals[j].~Data();
+            }
             __ac_set_isdel_true(flags, j);
             while(1)
             { /* kick-out process; sort of like in Cuckoo hashing */
@@ -622,7 +627,10 @@ namespace bss {
           for(khint_t i = 0; i < n_buckets; ++i)
           {
             if(!__ac_iseither(flags, i))
+            {
               new(n + i) T(std::move(src[i]));
+              src[i].~T();
+            }
           }
         }
 
-- 
2.43.0


From f9714a1e8b2afb8189bc88d1e8864051cc87b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:56 +0000
Subject: [PATCH 26/26] fix: Hash copy assignment keeps the table when assigned
 to itself

---
 include/bss-util/Hash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bss-util/Hash.h b/include/bss-util/Hash.h
index fa49a3b..8e04589 100644
--- a/include/bss-util/Hash.h
+++ b/include/bss-util/Hash.h
@@ -305,6 +305,8 @@ namespace bss {
 
     Hash& operator=(const Hash& copy)
     {
+      if(this == &copy)
+        return *this;
       Clear();
       if(!copy.n_buckets)
       {
-- 
2.43.0

