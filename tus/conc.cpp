// Entry points of the concurrency-facing API; each function is one analysis root.
#include <cstdlib>
#include <utility>
#include "bss-util/GreedyAlloc.h"
#include "bss-util/CacheAlloc.h"
#include "bss-util/RingAlloc.h"
#include "bss-util/BlockAllocMT.h"
#include "bss-util/LocklessQueue.h"
#include "bss-util/ThreadPool.h"
using namespace bss;
#define ROOT extern "C"
ROOT void* root_GreedyAlloc_Alloc(GreedyAlloc& a, size_t n) { return a.Alloc(n); }
ROOT void root_GreedyAlloc_Dealloc(GreedyAlloc& a, void* p) { a.Dealloc(p); }
ROOT void root_GreedyAlloc_Clear(GreedyAlloc& a) { a.Clear(); }
ROOT void root_GreedyAlloc_dtor(GreedyAlloc& a) { a.~GreedyAlloc(); }
ROOT void root_GreedyAlloc_ctor(void* a, size_t i, size_t al) { new (a) GreedyAlloc(i, al); }
ROOT void root_GreedyAlloc_movector(void* a, GreedyAlloc& b) { new (a) GreedyAlloc(std::move(b)); }
ROOT void root_GreedyAlloc_moveassign(GreedyAlloc& a, GreedyAlloc& b) { a = std::move(b); }
struct X16 { void* a; void* b; };
struct GP : GreedyPolicy<X16> { using GreedyPolicy<X16>::GreedyPolicy; };
ROOT void* root_GreedyPolicy_allocate(GreedyPolicy<X16>& a, size_t n, X16* p, size_t old) { return a.allocate(n, p, old); }
ROOT void root_GreedyPolicy_deallocate(GreedyPolicy<X16>& a, X16* p, size_t n) { a.deallocate(p, n); }

ROOT void* root_CacheAlloc_Alloc(CacheAlloc& a, size_t n) { return a.Alloc(n); }
ROOT void root_CacheAlloc_Dealloc(CacheAlloc& a, void* p, size_t n) { a.Dealloc(p, n); }
ROOT void root_CacheAlloc_moveassign(CacheAlloc& a, CacheAlloc& b) { a = std::move(b); }
ROOT void* root_CachePolicy_allocate(CachePolicy<X16>& a, size_t n, X16* p, size_t old) { return a.allocate(n, p, old); }
ROOT void root_CachePolicy_deallocate(CachePolicy<X16>& a, X16* p, size_t n) { a.deallocate(p, n); }

ROOT void* root_RingAlloc_Alloc(RingAllocVoid& a, size_t n) { return a.Alloc(n); }
ROOT void root_RingAlloc_Dealloc(RingAllocVoid& a, void* p) { a.Dealloc(p); }
ROOT void root_RingAlloc_Clear(RingAllocVoid& a) { a.Clear(); }
ROOT void root_RingAlloc_dtor(RingAllocVoid& a) { a.~RingAllocVoid(); }
ROOT void root_RingAlloc_ctor(void* a, size_t i) { new (a) RingAllocVoid(i); }
ROOT void root_RingAlloc_movector(void* a, RingAllocVoid& b) { new (a) RingAllocVoid(std::move(b)); }
ROOT void root_RingAlloc_moveassign(RingAllocVoid& a, RingAllocVoid& b) { a = std::move(b); }

typedef LocklessBlockPolicy<X16> LBP;
ROOT void* root_BlockMT_allocate(LBP& a) { return a.allocate(1); }
ROOT void root_BlockMT_deallocate(LBP& a, X16* p) { a.deallocate(p); }
ROOT void root_BlockMT_dtor(LBP& a) { a.~LBP(); }
ROOT void root_BlockMT_ctor(void* a, size_t i) { new (a) LBP(i); }
ROOT void root_BlockMT_movector(void* a, LBP& b) { new (a) LBP(std::move(b)); }
ROOT void root_BlockMT_moveassign(LBP& a, LBP& b) { a = std::move(b); }

struct Item { int a; Item(); Item(const Item&); Item(Item&&); ~Item(); Item& operator=(const Item&); Item& operator=(Item&&); };
typedef LocklessQueue<Item, size_t> LQ;
typedef LocklessQueue<Item, void> LQV;
ROOT void root_LocklessQueue_Push(LQ& a, const Item& i) { a.Push(i); }
ROOT void root_LocklessQueue_PushMove(LQ& a, Item& i) { a.Push(std::move(i)); }
ROOT bool root_LocklessQueue_Pop(LQ& a, Item& i) { return a.Pop(i); }
ROOT bool root_LocklessQueue_Peek(LQ& a) { return a.Peek(); }
ROOT void root_LocklessQueue_ctor(void* a) { new (a) LQ(); }
ROOT void root_LocklessQueue_dtor(LQ& a) { a.~LQ(); }
ROOT size_t root_LocklessQueue_Length(LQ& a) { return a.Length(); }
ROOT void root_LocklessQueueV_Push(LQV& a, const Item& i) { a.Push(i); }
ROOT bool root_LocklessQueueV_Pop(LQV& a, Item& i) { return a.Pop(i); }

typedef MicroLockQueue<Item, size_t> MQ;
typedef MicroLockQueue<Item, void> MQV;
ROOT void root_MicroLockQueue_Push(MQ& a, const Item& i) { a.Push(i); }
ROOT void root_MicroLockQueue_PushMove(MQ& a, Item& i) { a.Push(std::move(i)); }
ROOT bool root_MicroLockQueue_Pop(MQ& a, Item& i) { return a.Pop(i); }
ROOT bool root_MicroLockQueue_Peek(MQ& a) { return a.Peek(); }
ROOT void root_MicroLockQueue_ctor(void* a) { new (a) MQ(); }
ROOT void root_MicroLockQueue_dtor(MQ& a) { a.~MQ(); }
ROOT size_t root_MicroLockQueue_Length(MQ& a) { return a.Length(); }
ROOT void root_MicroLockQueueV_Push(MQV& a, const Item& i) { a.Push(i); }
ROOT bool root_MicroLockQueueV_Pop(MQV& a, Item& i) { return a.Pop(i); }

typedef void (*TaskFn)(void*);
ROOT void root_ThreadPool_AddTask(ThreadPool& a, TaskFn f, void* p, size_t n) { a.AddTask(f, p, n); }
ROOT void root_ThreadPool_AddFunc(ThreadPool& a, void (*f)(Item), Item& v) { a.AddFunc<void, Item>(f, v); }
ROOT void root_ThreadPool_AddThreads(ThreadPool& a, size_t n) { a.AddThreads(n); }
ROOT void root_ThreadPool_Wait(ThreadPool& a) { a.Wait(); }
ROOT size_t root_ThreadPool_Busy(ThreadPool& a) { return a.Busy(); }
ROOT void root_ThreadPool_dtor(ThreadPool& a) { a.~ThreadPool(); }

struct TPX : ThreadPool { static void worker(ThreadPool& p) { _worker(p); } static void callfn(void* p) { _callfn<void, Item>(p); } };
ROOT void root_ThreadPool_worker(ThreadPool& a) { TPX::worker(a); }
ROOT void root_ThreadPool_callfn(void* p) { TPX::callfn(p); }
ROOT void root_ThreadPool_ctor(void* a, size_t n) { new (a) ThreadPool(n); }
ROOT bool root_Semaphore_Notify(Semaphore& s, size_t n) { return s.Notify(n); }
ROOT bool root_Semaphore_Wait(Semaphore& s) { return s.Wait(); }

ROOT void root_RWLock_Lock(RWLock& l) { l.Lock(); }
ROOT bool root_RWLock_AttemptLock(RWLock& l) { return l.AttemptLock(); }
ROOT bool root_RWLock_AttemptStrictLock(RWLock& l) { return l.AttemptStrictLock(); }
ROOT void root_RWLock_Unlock(RWLock& l) { l.Unlock(); }
ROOT void root_RWLock_RLock(RWLock& l) { l.RLock(); }
ROOT bool root_RWLock_AttemptRLock(RWLock& l) { return l.AttemptRLock(); }
ROOT size_t root_RWLock_RUnlock(RWLock& l) { return l.RUnlock(); }
ROOT void root_RWLock_Upgrade(RWLock& l) { l.Upgrade(); }
ROOT bool root_RWLock_AttemptUpgrade(RWLock& l) { return l.AttemptUpgrade(); }
ROOT void root_RWLock_Downgrade(RWLock& l) { l.Downgrade(); }
ROOT size_t root_RWLock_ReaderCount(RWLock& l) { return l.ReaderCount(); }
ROOT bool root_RWLock_IsFree(const RWLock& l) { return l.IsFree(); }
ROOT void root_RWLock_ctor(void* a) { new (a) RWLock(); }
