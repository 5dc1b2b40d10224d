P = "include/eni/json/Parser.h"
PARSE = '''#include <json/Parser.h>
#include <json/Array.h>
#include <json/Object.h>
#include <sstream>
#include <cstdio>
#include <cstring>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
static bool accepts(const std::string& s) { std::cerr.setstate(std::ios::failbit); json::Parser p(s); return (bool)p; }
'''
seeds.append(dict(id="j01-hex-f", property="J01", file=P, old="else if ('A'<=str[i] && str[i]<='F') continue;", new="else if ('A'<=str[i] && str[i]<'F') continue;",
  needs="a \\u escape with the upper-case digit F", breaks="Valid text with the digit F in a \\u escape is refused.",
  demo=PARSE + '''int main() { check(accepts("[\\"\\\\u000a\\"]"), "lower case"); check(accepts("[\\"\\\\u00AF\\"]"), "upper case F"); return bad; }'''))
seeds.append(dict(id="j01-nul-key", property="J01", file="include/eni/json/Callbacks.h", old="      m_Stack.back().second = string(pStr.begin(), pStr.end());",
  new="      m_Stack.back().second.assign(pStr.begin(), std::find(pStr.begin(), pStr.end(), '\\0'));",
  needs="an object key with \\u0000 in it", breaks="Keys are cut at a zero character, so members of an object are renamed and collapse.",
  demo=PARSE + '''int main() { json::Parser p("{\\"a\\\\u0000b\\":1,\\"a\\":2}"); const json::Object& o = p.getRoot().toObject(); check(o.size() == 2, "two members"); check(o.find(std::string("a\\0b", 3)) != o.end(), "key with zero"); return bad; }'''))
seeds.append(dict(id="j01-cr", property="J01", file=P, old="while (have(' ') || have('\\t') || have('\\n') || have('\\r'));", new="while (have(' ') || have('\\t') || (have('\\r'), have('\\n')));",
  needs="a carriage return that no line feed follows", breaks="White space after a carriage return without a line feed ends the white space, so valid text is refused.",
  demo=PARSE + '''int main() { check(accepts("[1\\r\\n ,2]"), "CR LF"); check(accepts("[1\\r ,2]"), "CR"); return bad; }'''))
seeds.append(dict(id="j02-unterminated", property="J02", file=P, old="      if (m_It == m_End) parse_error(\"unterminated string\");\n      if (have('\\\\')) {",
  new="      if (have('\\\\')) {\n        if (m_It == m_End) parse_error(\"unterminated string\");",
  needs="text that ends inside a string, not after a backslash", breaks="The scanner passes the end of text that is cut off inside a string.", san=True,
  demo=PARSE + '''int main() { std::string* s = new std::string("[1,\\"a long string without its end, so that it lies on the heap"); s->shrink_to_fit(); check(!accepts(*s), "cut-off string"); return bad; }'''))
seeds.append(dict(id="j02-escape", property="J02", file=P, old="    } else if (have('u')) {", new="    } else if (have('u') || have('x')) {",
  needs="the sequence \\x followed by four hexadecimal digits in a string", breaks="An escape that JSON does not have is accepted.",
  demo=PARSE + '''int main() { check(accepts("[\\"\\\\u0041\\"]"), "escape"); check(!accepts("[\\"\\\\x0041\\"]"), "no escape"); return bad; }'''))
seeds.append(dict(id="j03-0x1f", property="J03", file="lib/json/Value.cpp", old="else if ((0 <= *c) && (*c < 0x20)) {", new="else if ((0 <= *c) && (*c < 0x1F)) {",
  needs="the character 0x1f in a string", breaks="The control character 0x1f is printed as itself, which is not JSON.",
  demo=PARSE + '''int main() { for (int c = 1; c < 0x20; ++c) { std::ostringstream o; json::Value(std::string(1, (char)c)).print(o); for (unsigned char d : o.str()) check(d >= 0x20, "control character in the output"); } return bad; }'''))
seeds.append(dict(id="j03-comma", property="J03", file="lib/json/Array.cpp", edits=[("lib/json/Array.cpp", "  int i=0;", "  unsigned char i=0;")],
  needs="an array with more than 256 elements", breaks="The 257th element of an array is printed without its comma.",
  demo=PARSE + '''int main() { for (int n : {3, 256, 300}) { json::Array a; for (int i = 0; i < n; ++i) a.push_back(json::Value(7)); std::ostringstream o; a.print(o); json::Parser p(o.str()); check(p && p.getRoot().toArray().size() == (size_t)n, "array read back"); } return bad; }'''))
seeds.append(dict(id="j04-shared-int", property="J04", file="lib/json/Value.cpp", old="  : Notation(pCopy) {\n  switch (this->type()) {\n    case INT:\n      m_Value.int_p = new eni::s256(*pCopy.m_Value.int_p);",
  new="  : Notation(pCopy) {\n  switch (this->type()) {\n    case INT:\n      m_Value.int_p = pCopy.m_Value.int_p;",
  needs="a copy of an integer value, changed in place afterwards", breaks="Copies of integer values share the number: changing one changes the other.",
  demo=PARSE + '''int main() { json::Value a(5); { json::Value b(a); b.asInteger() = 6; } check(a.toInteger() == 5, "original after change of the copy"); return bad; }''',
  ))
seeds.append(dict(id="j04-delegate", property="J04", file="lib/json/Value.cpp", edits=[("lib/json/Value.cpp", """Value& Value::delegate(Object& pObject)
{
  if (!this->isUndefined())""", """Value& Value::delegate(Object& pObject)
{
  if (this->isObject())""")],
  needs="a value that holds something else than an object adopts an object", breaks="Adopting an object silently replaces what the value holds.",
  demo=PARSE + '''int main() { json::Value v("text"); json::Object* o = new json::Object(); bool thrown = false; try { v.delegate(*o); } catch (std::logic_error&) { thrown = true; } check(thrown, "refused"); check(v.isString(), "unchanged"); return bad; }'''))
VEC = '''#include <adt/Vector.h>
#include <vector>
#include <cstdio>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
typedef eni::Vector<int> V;
'''
B = "include/eni/adt/bits/Vector.tcc"
seeds.append(dict(id="a01-swap", property="A01", file=B, old="  std::swap(m_AllocSize, pOther.m_AllocSize);\n", new="",
  needs="a small vector swapped with a big one, then grown within the big one's capacity", breaks="A vector keeps its old capacity when swapped and writes beyond its storage.", san=True,
  demo=VEC + '''int main() { V a, b; for (int i = 0; i < 40; ++i) a.push_back(i); b.push_back(1); a.swap(b); for (int i = 0; i < 20; ++i) a.push_back(i); check(a.size() == 21, "size"); for (int i = 0; i < 20; ++i) check(a[i + 1] == i, "element"); return bad; }'''))
seeds.append(dict(id="a01-insert-range", property="A01", file=B, old="  std::copy_backward(ptr, end - insertSize, end);", new="  std::copy(ptr, end - insertSize, ptr + insertSize);",
  needs="a range inserted before a tail that is longer than the range", breaks="Inserting a range shorter than the tail destroys elements of the tail.",
  demo=VEC + '''struct P { int x; P(int x = 0) : x(x) {} P(const P& o) : x(o.x) {} P& operator=(const P& o) { x = o.x; return *this; } }; int main() { eni::Vector<P> v{1, 2, 3, 4, 5}; v.insert((size_t)1, {P(8), P(9)}); int want[] = {1, 8, 9, 2, 3, 4, 5}; for (int i = 0; i < 7; ++i) check(v[i].x == want[i], "element after insert"); return bad; }'''))
seeds.append(dict(id="a02-realloc", property="A02", file=B, old="    pointer ptr = (ElementType*)std::realloc(m_Data, sizeof(ElementType) * targetSize);\n    if (nullptr == ptr) //< not enough memory",
  new="    pointer ptr = m_Data = (ElementType*)std::realloc(m_Data, sizeof(ElementType) * targetSize);\n    if (nullptr == ptr) //< not enough memory",
  needs="no memory left when a vector with contents grows", breaks="The contents of the vector are lost when it cannot grow.",
  demo='''#include <sys/resource.h>
''' + VEC + '''int main() { V v{1, 2, 3}; bool thrown = false; rlimit r = {1ul << 30, 1ul << 30}; setrlimit(RLIMIT_AS, &r); try { v.reserve(1ul << 33); } catch (std::bad_alloc&) { thrown = true; } check(thrown, "an error"); check(v.data() && v.size() == 3 && v[0] == 1 && v[2] == 3, "contents after the error"); return bad; }'''))
seeds.append(dict(id="a02-index", property="A02", edits=[(B, """insert(size_type pIndex, size_type pSize, const_reference pValue)
{
  if (0 > pIndex || pIndex > size()) {""", """insert(size_type pIndex, size_type pSize, const_reference pValue)
{
  if (0 > pIndex || pIndex > capacity()) {""")],
  needs="an insertion at a position beyond the elements, but not beyond the reserved storage", breaks="Inserting beyond the end is not refused.", file=B,
  demo=VEC + '''int main() { V v{1, 2, 3, 4, 5, 6, 7, 8}; v.resize(3); bool thrown = false; try { v.insert((size_t)5, (size_t)2, 9); } catch (std::out_of_range&) { thrown = true; } catch (...) { } check(thrown, "an error"); check(v.size() == 3, "size"); return bad; }'''))
HT = '''#include <stdint.h>
#include <string.h>
#include <string>
#include <adt/HashTable.h>
#include <adt/StringMap.h>
#include <support/MallocAllocator.h>
#include <cstdio>
#include <map>
#include <unordered_map>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
struct Id { unsigned operator()(int k) const { return k; } };
typedef eni::HashTable<int, int, Id> T;
'''
HB = "include/eni/adt/bits/HashBase.tcc"
seeds.append(dict(id="a03-tombstones", property="A03", file=HB, old="  else if (((m_NumOfBuckets-(m_NumOfEntries+m_NumOfTombstones))<<3) < m_NumOfBuckets)", new="  else if (((m_NumOfBuckets-m_NumOfEntries)<<3) < m_NumOfBuckets)",
  needs="insertions and erasures of many different keys while the table stays small", breaks="Erased entries fill the table, and looking for an absent key never ends.",
  demo=HT + '''int main() { T t(3); bool e; for (int i = 0; i < 100; ++i) { t.insert(i, e); t.erase(i); } check(t.find(1000) == t.end(), "absent key"); return bad; }'''))
seeds.append(dict(id="a03-duplicate", property="A03", file=HB, old="      if (-1 == first_tombstone) {\n        first_tombstone = index;\n      }", new="      if (bucket.hash == full_hash) {\n        return index;\n      }\n      else if (-1 == first_tombstone) {\n        first_tombstone = index;\n      }",
  needs="two keys with the same hash; the first is erased and the second inserted again", breaks="Inserting a key that is there adds a second entry for it.",
  demo=HT + '''struct Same { unsigned operator()(int) const { return 5; } }; int main() { eni::HashTable<int, int, Same> t(16); bool e; t.insert(1, e)->setValue(10); t.insert(2, e)->setValue(20); t.erase(1); int v = t.insert(2, e)->value(); check(e, "the key exists"); check(t.numOfEntries() == 1, "one entry"); return bad; }'''))
seeds.append(dict(id="a04-nul", property="A04", file="include/eni/adt/StringHashTable.h", old="return std::string(m_Key, m_KeyLen);", new="return std::string(m_Key);",
  needs="a key with a zero character in it", breaks="The key of an entry ends at a zero character, so the key is not found again.",
  demo=HT + '''int main() { eni::StringMap<int> m; std::string k("a\\0b", 3); m[k] = 3; m[k] = 4; check(m.size() == 1, "size"); check(m.find(k) != m.end(), "found"); return bad; }'''))
seeds.append(dict(id="a04-alloc", property="A04", file="include/eni/adt/StringHashTable.h", old="      std::malloc(sizeof(internal::Entry<std::string, ValueType>) + pKey->size() + 1));", new="      std::malloc(sizeof(internal::Entry<std::string, ValueType>) + std::strlen(pKey->c_str()) + 1));",
  needs="a key with a zero character in it", breaks="The entry of a key with a zero character is too small for the key.", san=True,
  demo=HT + '''int main() { eni::StringMap<int> m; m[std::string("a\\0a long rest of the key after the zero", 38)] = 3; check(m.size() == 1, "size"); return bad; }'''))
seeds.append(dict(id="a05-advance", property="A05", file="include/eni/adt/bits/HashIterator.tcc", old="""template<typename HT>
void ChainIterBase<HT>::advance()
{
  if (0 == m_pHashTable)
    return;

  const unsigned int probe = 1;
  while(true) {
    m_Index += probe;
    if (m_Index == m_pHashTable->numOfBuckets())
      m_Index = 0;
""", new="""template<typename HT>
void ChainIterBase<HT>::advance()
{
  if (0 == m_pHashTable)
    return;

  const unsigned int probe = 1;
  while(true) {
    m_Index += probe;
    if (m_Index == m_pHashTable->numOfBuckets() - 1)
      m_Index = 0;
""",
  needs="an entry of the chain in the last bucket of the table", breaks="Iterating over the entries of a hash value skips the last bucket.",
  demo=HT + '''struct Late { unsigned operator()(int) const { return 15; } }; int main() { eni::HashTable<int, int, Late> t(16); bool e; for (int i = 0; i < 4; ++i) t.insert(i, e)->setValue(i); int n = 0, s = 0; for (auto i = t.begin(0); i != t.end(0) && n < 10; ++i) { ++n; s += i->value(); } check(n == 4 && s == 6, "entries in the chain"); return bad; }'''))
