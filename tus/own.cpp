// Entry points of the reference-counting and owning pointers; each function is one analysis root.
#include <cstdlib>
#include <utility>
#include <new>
#include "bss-util/RefCounter.h"
#include "bss-util/SmartPtr.h"
using namespace bss;
#define ROOT extern "C"
struct R
{
  int Grab() noexcept;
  int Grab(int) noexcept;
  int Drop();
  ref_ptr<R> in;
  R();
  ~R();
};
typedef ref_ptr<R> P;
ROOT void root_ref_ctor(void* r, R* p) { new(r) P(p); }
ROOT void root_ref_ctor0(void* r) { new(r) P(); }
ROOT void root_ref_copy(void* r, P& b) { new(r) P((const P&)b); }
ROOT void root_ref_move(void* r, P& b) { new(r) P(std::move(b)); }
ROOT void root_ref_dtor(P& a) { a.~P(); }
ROOT void root_ref_assign(P& a, P& b) { a = (const P&)b; }
ROOT void root_ref_assignself(P& a) { a = (const P&)a; }
ROOT void root_ref_assignmove(P& a, P& b) { a = std::move(b); }
ROOT void root_ref_assignptr(P& a, R* p) { a = p; }
ROOT R* root_ref_get(P& a) { return a; }
ROOT const R* root_ref_cget(P& a) { return (const P&)a; }
ROOT R* root_ref_arrow(P& a) { return a.operator->(); }
ROOT R* root_ref_star(P& a) { return &*a; }
ROOT bool root_ref_not(P& a) { return !a; }
ROOT bool root_ref_eq(P& a, R* p) { return a == p; }
ROOT bool root_ref_ne(P& a, R* p) { return a != p; }
struct C : RefCounter
{
  using RefCounter::_refs;
  virtual void DestroyThis() override;
  C() : RefCounter() {}
  C(const C& c) : RefCounter(c) {}
  C& operator=(const C& c) { RefCounter::operator=(c); return *this; }
};
ROOT int root_cnt_grab(C& a) { return a.Grab(); }
ROOT int root_cnt_grabn(C& a, int n) { return a.Grab(n); }
ROOT int root_cnt_drop(C& a) { return a.Drop(); }
ROOT void root_cnt_ctor(void* r) { new(r) C(); }
ROOT void root_cnt_copy(void* r, C& b) { new(r) C(b); }
ROOT void root_cnt_assign(C& a, C& b) { a = b; }
struct O { int x; };
struct D { void operator()(O*) const; };
typedef OwnerPtr<O, D> W;
ROOT void root_own_ctor0(void* r) { new(r) W(); }
ROOT void root_own_ctor(void* r, O* p) { new(r) W(internal::OwnerPtrRef<O>(p)); }
ROOT void root_own_ctorref(void* r, O* p) { new(r) W(*p); }
ROOT void root_own_copy(void* r, W& b) { new(r) W((const W&)b); }
ROOT void root_own_move(void* r, W& b) { new(r) W(std::move(b)); }
ROOT void root_own_dtor(W& a) { a.~W(); }
ROOT void root_own_assign(W& a, W& b) { a = (const W&)b; }
ROOT void root_own_assignself(W& a) { a = (const W&)a; }
ROOT void root_own_assignmove(W& a, W& b) { a = std::move(b); }
ROOT void root_own_assignmoveself(W& a) { a = (W&&)a; }
ROOT void root_own_assignptr(W& a, O* p) { a = internal::OwnerPtrRef<O>(p); }
ROOT void root_own_assignref(W& a, O* p) { a = *p; }
ROOT O* root_own_get(W& a) { return a; }
