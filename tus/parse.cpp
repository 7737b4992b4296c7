// The parsers: JSON, TOML, UBJSON and XML, instantiated for free-form values and for a serialisable struct.
#include <cstdlib>
#include <bits/stdc++.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include <iconv.h>
#include <pthread.h>
#include <immintrin.h>
#include <mm_malloc.h>
[[noreturn]] void verif_thrown();
#define throw verif_thrown(),   // the units are analysed without exception edges: throwing leaves the parser
#include "bss-util/Serializer.h"
#include "bss-util/JSON.h"
#include "bss-util/TOML.h"
#include "bss-util/UBJSON.h"
#include "../bss-util/UBJSON.cpp"
#include "../bss-util/XML.cpp"
using namespace bss;
#define ROOT extern "C"
struct Item
{
  int a; double b; bool c; Str d; std::string h; DynArray<int> e; DynArray<Str, size_t, ARRAY_SAFE> f; int g[3];
  template<typename Engine>
  void Serialize(Serializer<Engine>& s, const char*)
  {
    s.template EvaluateType<Item>(GenPair("a", a), GenPair("b", b), GenPair("c", c), GenPair("d", d), GenPair("h", h), GenPair("e", e), GenPair("f", f), GenPair("g", g));
  }
};
ROOT void root_json_value(JSONValue& v, std::istream& s) { ParseJSON(v, s); }
ROOT void root_json_item(Item& v, std::istream& s) { ParseJSON(v, s); }
ROOT void root_toml_value(TOMLValue& v, std::istream& s) { ParseTOML(v, s); }
ROOT void root_toml_item(Item& v, std::istream& s) { ParseTOML(v, s); }
ROOT void root_ubjson_item(Item& v, std::istream& s) { Serializer<UBJSONEngine> e; e.Parse(v, s, 0); }
ROOT void root_ubjson_tuple(UBJSONTuple& v, std::istream& s) { v.Parse(s, UBJSONTuple::TYPE_NONE); }
ROOT void root_xml(XMLFile& f, std::istream& s) { f.Read(s); }
