// Entry points of the array-like containers; each function is one analysis root.
// Elements, allocators and their operations are declared only: the analysis sees every use of them as an event.
#include <cstdlib>
#include <utility>
#include <new>
#include "bss-util/Array.h"
#include "bss-util/DynArray.h"
#include "bss-util/Stack.h"
#include "bss-util/BinaryHeap.h"
#include "bss-util/RandomQueue.h"
#include "bss-util/ArrayCircular.h"
#include "bss-util/Queue.h"
using namespace bss;
#define ROOT extern "C"
#define PRE(x) if(!(x)) __builtin_unreachable()
struct Elem
{
  Elem();
  Elem(const Elem&);
  Elem(Elem&&);
  ~Elem();
  Elem& operator=(const Elem&);
  Elem& operator=(Elem&&);
  void* a;
};
struct Pod { size_t a; };
template<class T> struct VAlloc
{
  typedef T value_type;
  typedef void policy_type;
  template<class U> using rebind = VAlloc<U>;
  VAlloc() : _aid(0) {}
  VAlloc(const VAlloc& b) : _aid(b._aid) {}
  VAlloc(VAlloc&& b) : _aid(b._aid) {}
  VAlloc& operator=(const VAlloc& b) { _aid = b._aid; return *this; }
  VAlloc& operator=(VAlloc&& b) { _aid = b._aid; return *this; }
  T* allocate(size_t n, T* p = 0, size_t old = 0) noexcept;
  void deallocate(T* p, size_t n = 0) noexcept;
  size_t _aid; // identity of the allocator
};

#define ARRAY_COMMON(N, C) \
ROOT void root_##N##_dtor(C& a) { a.~C(); } \
ROOT void root_##N##_movector(void* r, C& b) { new(r) C(std::move(b)); } \
ROOT void root_##N##_moveassign(C& a, C& b) { a = std::move(b); } \
ROOT void root_##N##_selfmove(C& a) { a = (C&&)a; } \
ROOT void root_##N##_ctorn(void* r, size_t n) { new(r) C(n); } \
ROOT void root_##N##_ctor0(void* r) { new(r) C(); } \
ROOT void root_##N##_addmove(C& a, C::Ty0& v) { a.Add(std::move(v)); } \
ROOT void root_##N##_insertmove(C& a, C::Ty0& v, size_t i) { PRE(i <= a.Len()); a.Insert(std::move(v), i); } \
ROOT void root_##N##_remove(C& a, size_t i) { PRE(i < a.Len()); a.Remove(i); } \
ROOT void root_##N##_removelast(C& a) { PRE(a.Len() > 0); a.RemoveLast(); } \
ROOT void root_##N##_clear(C& a) { a.Clear(); } \
ROOT void root_##N##_setcapacity(C& a, size_t n) { a.SetCapacity(n); }

#define ARRAY_COPY(N, C) \
ROOT void root_##N##_copyctor(void* r, const C& b) { new(r) C(b); } \
ROOT void root_##N##_copyassign(C& a, const C& b) { a = b; } \
ROOT void root_##N##_selfassign(C& a) { a = (const C&)a; } \
ROOT void root_##N##_add(C& a, const C::Ty0& v) { a.Add(v); } \
ROOT void root_##N##_insert(C& a, const C::Ty0& v, size_t i) { PRE(i <= a.Len()); a.Insert(v, i); } \
ROOT void root_##N##_set(C& a, const C::Ty0* p, size_t n) { PRE(p); a.Set(p, n); } \
ROOT void root_##N##_assignslice(C& a, const C::Ty0* p, size_t n) { PRE(p); a = Slice<const C::Ty0, size_t>(p, n); } \
ROOT void root_##N##_append(C& a, const C& b) { a += b; } \
ROOT void root_##N##_concat(void* r, const C& a, const C& b) { new(r) C(a + b); } \
ROOT void root_##N##_ctorlist(void* r, const std::initializer_list<C::Ty0>& l) { new(r) C(l); }

template<class T, ARRAY_TYPE K> struct AR : Array<T, size_t, K, VAlloc<T>> { typedef Array<T, size_t, K, VAlloc<T>> B; typedef T Ty0; using B::operator=; size_t Len() const { return this->_capacity; } AR() {} explicit AR(size_t n) : B(n) {} explicit AR(const std::initializer_list<T>& l) : B(l) {} AR(const AR&) = default; AR(AR&&) = default; AR& operator=(const AR&) = default; AR& operator=(AR&&) = default; AR(const B& b) : B(b) {} AR(B&& b) : B(std::move(b)) {} };
template<class T, ARRAY_TYPE K> struct DA : DynArray<T, size_t, K, VAlloc<T>> { typedef DynArray<T, size_t, K, VAlloc<T>> B; typedef T Ty0; using B::operator=; size_t Len() const { return this->_length; } DA() {} explicit DA(size_t n) : B(n) {} explicit DA(const std::initializer_list<T>& l) : B(l) {} DA(const DA&) = default; DA(DA&&) = default; DA& operator=(const DA&) = default; DA& operator=(DA&&) = default; DA(const B& b) : B(b) {} DA(B&& b) : B(std::move(b)) {} };

#define ARRAY_ALL(N, T, K) \
typedef AR<T, K> N##_AR; ARRAY_COMMON(N##_AR, N##_AR) \
typedef DA<T, K> N##_DA; ARRAY_COMMON(N##_DA, N##_DA) \
ROOT void root_##N##_AR_setcapdiscard(N##_AR& a, size_t n) { a.SetCapacityDiscard(n); } \
ROOT void root_##N##_DA_setlength(N##_DA& a, size_t n) { a.SetLength(n); } \
ROOT void root_##N##_DA_addconstruct(N##_DA& a) { a.AddConstruct(); }
#define ARRAY_ALLC(N, T, K) ARRAY_ALL(N, T, K) ARRAY_COPY(N##_AR, N##_AR) ARRAY_COPY(N##_DA, N##_DA)

ARRAY_ALLC(Simple, Pod, ARRAY_SIMPLE)
ARRAY_ALLC(Construct, Elem, ARRAY_CONSTRUCT)
ARRAY_ALLC(Safe, Elem, ARRAY_SAFE)
ARRAY_ALL(Move, Elem, ARRAY_MOVE)

// ---- containers built on the growable array
#define LIFE(N, C) \
ROOT void root_##N##_dtor(C& a) { a.~C(); } \
ROOT void root_##N##_movector(void* r, C& b) { new(r) C(std::move(b)); } \
ROOT void root_##N##_moveassign(C& a, C& b) { a = std::move(b); } \
ROOT void root_##N##_selfmove(C& a) { a = (C&&)a; } \
ROOT void root_##N##_ctor0(void* r) { new(r) C(); } \
ROOT void root_##N##_clear(C& a) { a.Clear(); }
#define LIFEC(N, C) \
ROOT void root_##N##_copyctor(void* r, const C& b) { new(r) C(b); } \
ROOT void root_##N##_copyassign(C& a, const C& b) { a = b; } \
ROOT void root_##N##_selfassign(C& a) { a = (const C&)a; }
#define SEQ(N, C, T) \
ROOT void root_##N##_pushmove(C& a, T& v) { a.Push(std::move(v)); } \
ROOT void root_##N##_ctorn(void* r, size_t n) { new(r) C(n); }
#define SEQC(N, C, T) ROOT void root_##N##_push(C& a, const T& v) { a.Push(v); }

#define STACK(N, T, K) typedef Stack<T, size_t, K, VAlloc<T>> N##_ST; LIFE(N##_ST, N##_ST) SEQ(N##_ST, N##_ST, T) \
ROOT void root_##N##_ST_pop(N##_ST& a) { PRE(a.Length() > 0); a.Pop(); } \
ROOT void root_##N##_ST_discard(N##_ST& a) { PRE(a.Length() > 0); a.Discard(); } \
ROOT void root_##N##_ST_setlength(N##_ST& a, size_t n) { a.SetLength(n); }
#define STACKC(N, T, K) STACK(N, T, K) LIFEC(N##_ST, N##_ST) SEQC(N##_ST, N##_ST, T)
STACKC(Simple, Pod, ARRAY_SIMPLE)
STACKC(Construct, Elem, ARRAY_CONSTRUCT)
STACKC(Safe, Elem, ARRAY_SAFE)
STACK(Move, Elem, ARRAY_MOVE)

#define RANDQ(N, T, K) typedef RandomQueue<T, size_t, K, VAlloc<T>> N##_RQ; LIFE(N##_RQ, N##_RQ) SEQ(N##_RQ, N##_RQ, T) \
ROOT void root_##N##_RQ_remove(N##_RQ& a, size_t i) { PRE(i < a.Length()); a.Remove(i); } \
ROOT void root_##N##_RQ_setlength(N##_RQ& a, size_t n) { a.SetLength(n); }
#define RANDQC(N, T, K) RANDQ(N, T, K) LIFEC(N##_RQ, N##_RQ) SEQC(N##_RQ, N##_RQ, T) \
ROOT void root_##N##_RQ_append(N##_RQ& a, const N##_RQ& b) { a += b; }
RANDQC(Simple, Pod, ARRAY_SIMPLE)
RANDQC(Construct, Elem, ARRAY_CONSTRUCT)
RANDQC(Safe, Elem, ARRAY_SAFE)
RANDQ(Move, Elem, ARRAY_MOVE)

char cmpE(const Elem&, const Elem&);
char cmpP(const Pod&, const Pod&);
#define HEAP(N, T, F, K) typedef BinaryHeap<T, size_t, F, K, VAlloc<T>> N##_BH; LIFE(N##_BH, N##_BH) \
ROOT void root_##N##_BH_insertmove(N##_BH& a, T& v) { a.Insert(std::move(v)); } \
ROOT void root_##N##_BH_setmove(N##_BH& a, T& v, size_t i) { a.Set(i, std::move(v)); } \
ROOT void root_##N##_BH_pop(N##_BH& a) { PRE(a.Length() > 0); a.Pop(); } \
ROOT void root_##N##_BH_remove(N##_BH& a, size_t i) { a.Remove(i); }
#define HEAPC(N, T, F, K) HEAP(N, T, F, K) LIFEC(N##_BH, N##_BH) \
ROOT void root_##N##_BH_insert(N##_BH& a, const T& v) { a.Insert(v); } \
ROOT void root_##N##_BH_set(N##_BH& a, const T& v, size_t i) { a.Set(i, v); } \
ROOT void root_##N##_BH_ctorarr(void* r, const T* p, size_t n) { PRE(p); new(r) N##_BH(p, n); }
HEAPC(Simple, Pod, cmpP, ARRAY_SIMPLE)
HEAPC(Construct, Elem, cmpE, ARRAY_CONSTRUCT)
HEAPC(Safe, Elem, cmpE, ARRAY_SAFE)
HEAP(Move, Elem, cmpE, ARRAY_MOVE)

// ---- circular containers
#define CIRC(N, C, T) LIFE(N, C) SEQ(N, C, T) \
ROOT void root_##N##_pop(C& a) { PRE(a.Length() > 0); a.Pop(); }
#define CIRCX(N, C, T) CIRC(N, C, T) \
ROOT void root_##N##_popback(C& a) { PRE(a.Length() > 0); a.PopBack(); } \
ROOT void root_##N##_setcapacity(C& a, ptrdiff_t n) { PRE(n >= 0); a.SetCapacity(n); }
#define QUEUE(N, C, T) CIRC(N, C, T) \
ROOT void root_##N##_discard(C& a) { PRE(a.Length() > 0); a.Discard(); }
#define CIRCS(N, T, K) typedef ArrayCircular<T, ptrdiff_t, K, VAlloc<T>> N##_CA; CIRCX(N##_CA, N##_CA, T) typedef Queue<T, ptrdiff_t, K, VAlloc<T>> N##_QU; QUEUE(N##_QU, N##_QU, T)
#define CIRCSC(N, T, K) CIRCS(N, T, K) LIFEC(N##_CA, N##_CA) SEQC(N##_CA, N##_CA, T) LIFEC(N##_QU, N##_QU) SEQC(N##_QU, N##_QU, T)
CIRCSC(Simple, Pod, ARRAY_SIMPLE)
CIRCSC(Construct, Elem, ARRAY_CONSTRUCT)
CIRCSC(Safe, Elem, ARRAY_SAFE)
CIRCS(Move, Elem, ARRAY_MOVE)
