// Entry points of the hash table; each function is one analysis root.
#include <cstdlib>
#include <utility>
#include <new>
#include <memory>
#include "bss-util/Serializer.h"
#include "bss-util/Hash.h"
using namespace bss;
#define ROOT extern "C"
struct KeyT
{
  long x;
  KeyT();
  KeyT(const KeyT&);
  KeyT(KeyT&&);
  KeyT& operator=(const KeyT&);
  KeyT& operator=(KeyT&&);
  ~KeyT();
};
struct ValT
{
  long x, y;
  ValT();
  ValT(const ValT&);
  ValT(ValT&&);
  ValT& operator=(const ValT&);
  ValT& operator=(ValT&&);
  ~ValT();
};
struct Heap
{
  typedef void policy_type;
  char* allocate(size_t n, char* p = 0, size_t old = 0) noexcept;
  void deallocate(char* p, size_t n) noexcept;
};
khint_t key_hash(const KeyT&);
bool key_equal(const KeyT&, const KeyT&);
template<class V, ARRAY_TYPE A> struct Tab : Hash<KeyT, V, A, &key_hash, &key_equal, Heap>
{
  typedef Hash<KeyT, V, A, &key_hash, &key_equal, Heap> B;
  using B::B;
};
typedef Tab<ValT, ARRAY_SAFE> ms;
typedef Tab<ValT, ARRAY_MOVE> mm;
typedef Tab<ValT, ARRAY_CONSTRUCT> mc;
typedef Tab<void, ARRAY_SAFE> ss;
typedef Tab<void, ARRAY_MOVE> sm;
typedef Tab<void, ARRAY_CONSTRUCT> sc;

#define COMMON(T) \
  ROOT void root_##T##_ctor(void* r, unsigned n) { new(r) T::B(n); } \
  ROOT void root_##T##_move(void* r, T::B& b) { new(r) T::B(std::move(b)); } \
  ROOT void root_##T##_dtor(T::B& a) { a.~Hash(); } \
  ROOT void root_##T##_assignmove(T::B& a, T::B& b) { a = std::move(b); } \
  ROOT void root_##T##_clear(T::B& a) { a.Clear(); } \
  ROOT void root_##T##_capacity(T::B& a, unsigned n) { a.SetCapacity(n); } \
  ROOT bool root_##T##_remove(T::B& a, KeyT& k) { return a.Remove(k); } \
  ROOT bool root_##T##_removeiter(T::B& a, unsigned i) { return a.RemoveIter(i); } \
  ROOT bool root_##T##_existsiter(T::B& a, unsigned i) { return a.ExistsIter(i); } \
  ROOT unsigned root_##T##_iterator(T::B& a, KeyT& k) { return a.Iterator(k); } \
  ROOT unsigned root_##T##_begin(T::B& a) { return a.begin().cur; } \
  ROOT unsigned root_##T##_next(T::B& a, typename T::B::template HashIterator<typename T::B::FakeData>& it) { ++it; return it.cur; }
#define COPY(T) \
  ROOT void root_##T##_copy(void* r, T::B& b) { new(r) T::B((const T::B&)b); } \
  ROOT void root_##T##_assign(T::B& a, T::B& b) { a = (const T::B&)b; } \
  ROOT void root_##T##_assignself(T::B& a) { a = (const T::B&)a; }
#define MAP(T) \
  ROOT unsigned root_##T##_insertmm(T::B& a, KeyT& k, ValT& v) { return a.Insert(std::move(k), std::move(v)); } \
  ROOT ValT* root_##T##_get(T::B& a, KeyT& k) { return a.Get(k); } \
  ROOT ValT* root_##T##_pointer(T::B& a, unsigned i) { return a.PointerValue(i); } \
  ROOT bool root_##T##_setmove(T::B& a, KeyT& k, ValT& v) { return a.Set(k, std::move(v)); } \
  ROOT bool root_##T##_setvalmove(T::B& a, unsigned i, ValT& v) { return a.SetValue(i, std::move(v)); }
#define MAPCOPY(T) \
  ROOT unsigned root_##T##_insertcc(T::B& a, KeyT& k, ValT& v) { return a.Insert((const KeyT&)k, (const ValT&)v); } \
  ROOT unsigned root_##T##_insertcm(T::B& a, KeyT& k, ValT& v) { return a.Insert((const KeyT&)k, std::move(v)); } \
  ROOT unsigned root_##T##_insertmc(T::B& a, KeyT& k, ValT& v) { return a.Insert(std::move(k), (const ValT&)v); } \
  ROOT bool root_##T##_set(T::B& a, KeyT& k, ValT& v) { return a.Set(k, (const ValT&)v); } \
  ROOT bool root_##T##_setval(T::B& a, unsigned i, ValT& v) { return a.SetValue(i, (const ValT&)v); } \
  ROOT bool root_##T##_fetch(T::B& a, KeyT& k, ValT& v) { return a(k, v); }
#define SET(T) \
  ROOT unsigned root_##T##_insertm(T::B& a, KeyT& k) { return a.Insert(std::move(k)); }
#define SETCOPY(T) \
  ROOT unsigned root_##T##_insertc(T::B& a, KeyT& k) { return a.Insert((const KeyT&)k); }
COMMON(ms) COPY(ms) MAP(ms) MAPCOPY(ms)
COMMON(mm) MAP(mm)
COMMON(mc) COPY(mc) MAP(mc) MAPCOPY(mc)
COMMON(ss) COPY(ss) SET(ss) SETCOPY(ss)
COMMON(sm) SET(sm)
COMMON(sc) COPY(sc) SET(sc) SETCOPY(sc)
