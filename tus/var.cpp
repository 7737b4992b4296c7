// Entry points of Variant; each function is one analysis root.
#include <cstdlib>
#include <utility>
#include <new>
#include "bss-util/Serializer.h"
#include "bss-util/Variant.h"
using namespace bss;
#define ROOT extern "C"
struct Q { int q; };
#define ALT(X, F) struct X : F { X(); X(const X&); X(X&&); ~X(); X& operator=(const X&); X& operator=(X&&); };
struct Pad { long p[2]; };
struct Padded : Pad, Q {};
ALT(X, Q)
ALT(Y, Padded)
ALT(Z, Q)
typedef Variant<X, Y, Z> V;
ROOT void root_ctor0(void* r) { new(r) V(); }
ROOT void root_copy(void* r, V& b) { new(r) V((const V&)b); }
ROOT void root_copync(void* r, V& b) { new(r) V(b); }
ROOT void root_move(void* r, V& b) { new(r) V(std::move(b)); }
ROOT void root_dtor(V& a) { a.~V(); }
ROOT void root_assign(V& a, V& b) { a = (const V&)b; }
ROOT void root_assignnc(V& a, V& b) { a = b; }
ROOT void root_assignmove(V& a, V& b) { a = std::move(b); }
ROOT void root_assignself(V& a) { a = (const V&)a; }
ROOT void root_assignmoveself(V& a) { a = (V&&)a; }
ROOT int root_tag(V& a) { return a.tag(); }
#define PER(T) \
ROOT void root_ctorcopy_##T(void* r, T& x) { new(r) V((const T&)x); } \
ROOT void root_ctornc_##T(void* r, T& x) { new(r) V(x); } \
ROOT void root_ctormove_##T(void* r, T& x) { new(r) V(std::move(x)); } \
ROOT void root_setcopy_##T(V& a, T& x) { a = (const T&)x; } \
ROOT void root_setnc_##T(V& a, T& x) { a = x; } \
ROOT void root_setmove_##T(V& a, T& x) { a = std::move(x); } \
ROOT void root_typeset_##T(V& a) { a.typeset<T>(); } \
ROOT bool root_is_##T(V& a) { return a.is<T>(); } \
ROOT T* root_get_##T(V& a) { return &a.get<T>(); } \
ROOT const T* root_cget_##T(V& a) { return &((const V&)a).get<T>(); }
PER(X)
PER(Y)
PER(Z)
ROOT Q* root_convertp(V& a) { return a.convertP<Q>(); }
// layout: the storage fits and is aligned for every alternative, whatever their order
struct alignas(32) Big { char c[32]; };
struct Long { char c[40]; };
template<class... T> struct W : Variant<T...>
{
  static bool fits() { return ((sizeof(W::_store) >= sizeof(T) && alignof(W) % alignof(T) == 0 && __builtin_offsetof(W, _store) % alignof(T) == 0 && __builtin_offsetof(W, _store) + sizeof(T) <= sizeof(W)) && ...); }
};
ROOT bool root_wit_1() { return W<char, double, short>::fits(); }
ROOT bool root_wit_2() { return W<double, char>::fits(); }
ROOT bool root_wit_3() { return W<char, Long, Big>::fits(); }
ROOT bool root_wit_4() { return W<Big, Long, char>::fits(); }
ROOT bool root_wit_5() { return W<Long, char, double, Big>::fits(); }
ROOT bool root_wit_6() { return W<X, Y, Z>::fits(); }
