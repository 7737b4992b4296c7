// Entry points of the linked structures; each function is one analysis root.
#include <cstdlib>
#include <utility>
#include <new>
#include "bss-util/LLBase.h"
#include "bss-util/LinkedList.h"
#include "bss-util/LinkedArray.h"
#include "bss-util/Graph.h"
using namespace bss;
#define ROOT extern "C"
template<class T> struct VAlloc
{
  typedef T value_type;
  typedef void policy_type;
  template<class U> using rebind = VAlloc<U>;
  VAlloc() : _aid(0) {}
  VAlloc(const VAlloc& b) : _aid(b._aid) {}
  VAlloc(VAlloc&& b) : _aid(b._aid) {}
  VAlloc& operator=(const VAlloc& b) { _aid = b._aid; return *this; }
  VAlloc& operator=(VAlloc&& b) { _aid = b._aid; return *this; }
  T* allocate(size_t n, T* p = 0, size_t old = 0) noexcept;
  void deallocate(T* p, size_t n = 0) noexcept;
  size_t _aid;
};
struct N : LLBase<N> { LLBase<N> alt; };
static LLBase<N>& altget(N* n) { return n->alt; }
ROOT void root_LL_insert_r(N* n, N* t, N*& root) { LLInsert<N>(n, t, root); }
ROOT void root_LL_insert(N* n, N* t) { LLInsert<N>(n, t); }
ROOT void root_LL_add_r(N* n, N*& root) { LLAdd<N>(n, root); }
ROOT void root_LL_add_rl(N* n, N*& root, N*& last) { LLAdd<N>(n, root, last); }
ROOT void root_LL_insertafter_l(N* n, N* t, N*& last) { LLInsertAfter<N>(n, t, last); }
ROOT void root_LL_insertafter(N* n, N* t) { LLInsertAfter<N>(n, t); }
ROOT N* root_LL_addafter(N* n, N* l) { return LLAddAfter<N>(n, l); }
ROOT void root_LL_addafter_rl(N* n, N*& root, N*& last) { LLAddAfter<N>(n, root, last); }
ROOT void root_LL_remove_rl(N* t, N*& root, N*& last) { LLRemove<N>(t, root, last); }
ROOT void root_LL_remove_r(N* t, N*& root) { LLRemove<N>(t, root); }
ROOT void root_LL_remove(N* t) { LLRemove<N>(t); }
ROOT void root_LL_altadd_r(N* n, N*& root) { AltLLAdd<N, &altget>(n, root); }
ROOT void root_LL_altremove_r(N* t, N*& root) { AltLLRemove<N, &altget>(t, root); }

typedef LLNode<size_t> LN;
template<bool L, bool S> struct X : LinkedList<size_t, VAlloc<LN>, L, S> { typedef LinkedList<size_t, VAlloc<LN>, L, S> B; };
#define LIST(N, C) \
ROOT LN* root_##N##_add(C& a, size_t v) { return a.Add(v); } \
ROOT LN* root_##N##_insertfront(C& a, size_t v) { return a.Insert(v); } \
ROOT LN* root_##N##_insert(C& a, size_t v, LN* t) { return a.Insert(v, t); } \
ROOT void root_##N##_remove(C& a, LN* t) { a.Remove(t); } \
ROOT void root_##N##_removeit(C& a, LN* t) { LLIter<size_t> i(t); a.Remove(i); } \
ROOT LN* root_##N##_removefwd(C& a, LN* t) { return a.Remove(t, false); } \
ROOT LN* root_##N##_removeback(C& a, LN* t) { return a.Remove(t, true); } \
ROOT void root_##N##_clear(C& a) { a.Clear(); } \
ROOT void root_##N##_dtor(C& a) { a.~C(); } \
ROOT void root_##N##_ctor(void* r) { new(r) C(); } \
ROOT void root_##N##_moveassign(C& a, C& b) { a = std::move(b); } \
ROOT void root_##N##_selfmove(C& a) { a = (C&&)a; } \
ROOT LN* root_##N##_front(C& a) { return a.Front(); } \
ROOT void root_##N##_next(LN* t, LLIter<size_t>& o) { LLIter<size_t> i(t); ++i; o = i; } \
ROOT void root_##N##_prev(LN* t, LLIter<size_t>& o) { LLIter<size_t> i(t); i--; o = i; }
typedef LinkedList<size_t, VAlloc<LN>, false, false> L00;
typedef LinkedList<size_t, VAlloc<LN>, true, false> L10;
typedef LinkedList<size_t, VAlloc<LN>, false, true> L01;
typedef LinkedList<size_t, VAlloc<LN>, true, true> L11;
LIST(L00, L00)
LIST(L10, L10)
LIST(L01, L01)
LIST(L11, L11)
ROOT void root_L00_movector(void* r, L00& b) { new(r) L00(std::move(b)); }

typedef LinkedArray<size_t, size_t> LA;
ROOT size_t root_LA_add(LA& a, size_t v) { return a.Add(v); }
ROOT size_t root_LA_addmove(LA& a, size_t v) { return a.Add(std::move(v)); }
ROOT size_t root_LA_insertbefore(LA& a, size_t v, size_t t) { return a.InsertBefore(v, t); }
ROOT size_t root_LA_insertafter(LA& a, size_t v, size_t t) { return a.InsertAfter(v, t); }
ROOT size_t root_LA_insertbeforemove(LA& a, size_t v, size_t t) { return a.InsertBefore(std::move(v), t); }
ROOT size_t root_LA_insertaftermove(LA& a, size_t v, size_t t) { return a.InsertAfter(std::move(v), t); }
ROOT size_t root_LA_remove(LA& a, size_t t) { return a.Remove(t); }
ROOT void root_LA_setcapacity(LA& a, size_t n) { a.SetCapacity(n); }
ROOT void root_LA_clear(LA& a) { a.Clear(); }
ROOT void root_LA_next(LA& a, size_t t, size_t& o) { o = t; a.Next(o); }
ROOT void root_LA_prev(LA& a, size_t t, size_t& o) { o = t; a.Prev(o); }

typedef Graph<size_t, size_t, uint16_t, VAlloc<Edge<size_t, uint16_t>>> GR;
ROOT Edge<size_t, uint16_t>* root_GR_addedge(GR& a, uint16_t f, uint16_t t, size_t* e) { return a.AddEdge(f, t, e); }
ROOT Edge<size_t, uint16_t>* root_GR_addedge0(GR& a, uint16_t f, uint16_t t) { return a.AddEdge(f, t); }
ROOT void root_GR_removeedge(GR& a, Edge<size_t, uint16_t>* e) { a.RemoveEdge(e); }
