// Entry points of the search trees. The comparison is declared only: every outcome is possible.
#include <cstdlib>
#include <utility>
#include <new>
#include "bss-util/AVLTree.h"
#include "bss-util/TRBtree.h"
#include "bss-util/AATree.h"
using namespace bss;
#define ROOT extern "C"
template<class T> struct VAlloc
{
  typedef T value_type;
  typedef void policy_type;
  template<class U> using rebind = VAlloc<U>;
  VAlloc() : _aid(0) {}
  VAlloc(const VAlloc& b) : _aid(b._aid) {}
  VAlloc(VAlloc&& b) : _aid(b._aid) {}
  VAlloc& operator=(const VAlloc& b) { _aid = b._aid; return *this; }
  VAlloc& operator=(VAlloc&& b) { _aid = b._aid; return *this; }
  T* allocate(size_t n, T* p = 0, size_t old = 0) noexcept;
  void deallocate(T* p, size_t n = 0) noexcept;
  size_t _aid;
};
typedef size_t K;
typedef size_t D;
char CMP(const K&, const K&);
typedef AVLTree<K, void, CMP, VAlloc<AVLNode<K>>> AV;
typedef AVLTree<K, D, CMP, VAlloc<AVLNode<std::pair<K, D>>>> AD;
template class bss::AVLTree<K, D, CMP, VAlloc<AVLNode<std::pair<K, D>>>>;
ROOT void* root_AV_insert(AV& a, K k) { return a.Insert(k); }
ROOT void* root_AD_insert(AD& a, K k, const D& d) { return a.Insert(k, d); }
ROOT void* root_AD_insertmove(AD& a, K k, D&& d) { return a.Insert(k, std::move(d)); }
ROOT bool root_AV_remove(AV& a, K k) { return a.Remove(k); }
ROOT bool root_AD_remove(AD& a, K k) { return a.Remove(k); }
ROOT bool root_AV_replace(AV& a, K k, K n) { return a.ReplaceKey(k, n); }
ROOT bool root_AD_replace(AD& a, K k, K n) { return a.ReplaceKey(k, n); }
ROOT void root_AD_clear(AD& a) { a.Clear(); }
ROOT void root_AD_dtor(AD& a) { a.~AD(); }
ROOT void root_AD_moveassign(AD& a, AD& b) { a = std::move(b); }
ROOT void root_AD_movector(void* r, AD& b) { new(r) AD(std::move(b)); }
ROOT D* root_AD_getref(AD& a, K k) { return a.GetRef(k); }
typedef AATree<K, CMP, VAlloc<AANODE<K>>> AA;
ROOT void root_AA_insert(AA& a, K k) { a.Insert(k); }
ROOT bool root_AA_remove(AA& a, K k) { return a.Remove(k); }
ROOT void root_AA_clear(AA& a) { a.Clear(); }
ROOT void root_AA_dtor(AA& a) { a.~AA(); }
ROOT void root_AA_ctor(void* r) { new(r) AA(); }
ROOT void* root_AA_get(AA& a, K k) { return a.Get(k); }
typedef TRBtree<K, CMP, VAlloc<TRB_Node<K>>> TR;
ROOT void* root_TR_insert(TR& a, K k) { return a.Insert(k); }
ROOT bool root_TR_remove(TR& a, TRB_Node<K>* t) { return a.Remove(t); }
ROOT bool root_TR_removekey(TR& a, K k) { return a.Remove(k); }
ROOT void* root_TR_get(TR& a, K k) { return a.Get(k); }
ROOT void* root_TR_getnear(TR& a, K k, bool b) { return a.GetNear(k, b); }
ROOT void root_TR_clear(TR& a) { a.Clear(); }
ROOT void root_TR_dtor(TR& a) { a.~TR(); }
ROOT void root_TR_ctor(void* r) { new(r) TR(); }
ROOT void root_TR_movector(void* r, TR& b) { new(r) TR(std::move(b)); }
ROOT void root_TR_moveassign(TR& a, TR& b) { a = std::move(b); }
