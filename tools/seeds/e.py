MA = "include/eni/support/MallocAllocator.h"
HT = "include/eni/adt/bits/HashTable.tcc"
VC = "lib/json/Value.cpp"
AL = '''#include <stdint.h>
#include <cstddef>
#include <cstring>
#include <new>
#include <support/MallocAllocator.h>
#include <cstdio>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
'''
seeds.append(dict(id="m01-cut", property="M01", file=MA, old="    return static_cast<pointer>(std::malloc(pNumOfElements*sizeof(DataType)));",
  new="    return static_cast<pointer>(std::malloc(static_cast<unsigned int>(pNumOfElements*sizeof(DataType))));",
  needs="storage for elements of 4 GB or more altogether", breaks="A smaller block is given.",
  demo=AL + '''#include <malloc.h>
int main() { eni::MallocAllocator<double> a; double* p = a.allocate(100); check(p != 0, "small"); size_t n = (1ul << 29) + 3; double* q = a.allocate(n); check(!q || malloc_usable_size(q) >= n * 8, "big"); a.deallocate(q); a.deallocate(p, 100); return bad; }'''))
seeds.append(dict(id="m01-construct", property="M01", file=MA, old="  { ::new((void *)pObject) value_type(); }", new="  { ::new((void *)pObject) value_type; }",
  needs="a default object of a plain type, in storage that held something else", breaks="The object is not initialised.",
  demo=AL + '''struct P { int a; char b[9]; };
int main() { eni::MallocAllocator<P> a; P* p = a.allocate(2); memset(p, 0x55, 2 * sizeof(P)); a.construct(p + 1); check(p[1].a == 0 && p[1].b[8] == 0, "default object"); a.deallocate(p, 2); return bad; }'''))
seeds.append(dict(id="m01-max", property="M01", count=2, edits=[(MA, "  { return size_t(-1) / sizeof(DataType); }", "  { return size_t(-1) / sizeof(DataType*); }")],
  needs="so many elements bigger than a pointer that their size exceeds 2^64", breaks="The size wraps, and a tiny block is given.",
  demo=AL + '''struct P { char b[64]; };
int main() { eni::MallocAllocator<P> a; P* p = a.allocate((1ul << 58) + 1); check(!p, "impossible"); eni::MallocAllocator<double> d; check(!d.allocate((1ul << 61) + 1), "impossible doubles"); return bad; }'''))
seeds[-1]["count"] = 1
seeds.append(dict(id="a03-erase-wrap", property="A03", file=HT, old="""  bucket.entry = Tombstone();

  --super::m_NumOfEntries;
  ++super::m_NumOfTombstones;
""", new="""  --super::m_NumOfEntries;
  // the end of a chain needs no tombstone
  if (unsigned(index + 1) == numOfBuckets() ||
      EmptyBucket() == super::m_Buckets[index + 1].entry) {
    bucket.entry = EmptyBucket();
  } else {
    bucket.entry = Tombstone();
    ++super::m_NumOfTombstones;
  }
""", needs="a chain of colliding keys that goes on at the beginning of the table, whose entry in the last bucket is erased", breaks="The keys behind it are not found any more.",
  demo='''#include <stdint.h>
#include <cstddef>
#include <adt/HashTable.h>
#include <cstdio>
struct Id { typedef int argument_type; typedef unsigned result_type; unsigned operator()(int k) const { return k; } };
int main() { int bad = 0; typedef eni::HashTable<int, int, Id> T; T t(16); bool e; const int n = t.numOfBuckets();
  for (int k : {n - 1, n - 2, 2 * n - 1, 3}) t.insert(k, e)->setValue(k);
  t.erase(n - 2); if (!t.count(n - 1) || !t.count(2 * n - 1) || !t.count(3)) bad = 1;
  t.erase(n - 1); if (!t.count(2 * n - 1)) { printf("wrong: a key that was not erased is gone\\n"); bad = 1; }
  return bad; }'''))
seeds.append(dict(id="j03-showbase", property="J03", count=1, edits=[(VC, """          char str[11];
          sprintf(str, "%04X", *c);
          os << "\\\\u" << str;
""", """          os << "\\\\u" << std::hex << std::setw(4) << std::setfill('0')
             << static_cast<int>(*c) << std::dec;
"""), (VC, "#include <string>\n", "#include <iomanip>\n#include <string>\n")],
  needs="a control character in a string, and a stream that shows the base of numbers (or pads on another side)", breaks="The escape is not one of JSON.", extra='"$repo/lib/eni_types.cpp" "$repo"/lib/json/*.cpp "$repo/lib/diagnostic/Exception.cpp"',
  demo='''#include <json/Value.h>
#include <sstream>
#include <iostream>
int main() { int bad = 0; json::Value v(std::string("a\\x01\\x1f")); std::ostringstream a, b; v.print(a); b.setf(std::ios::showbase); v.print(b);
  if (a.str().size() != 15) { std::cout << "wrong: " << a.str() << "\\n"; bad = 1; } if (b.str() != a.str()) { std::cout << "wrong: " << b.str() << "\\n"; bad = 1; } return bad; }'''))
seeds.append(dict(id="j01-fast-int", property="J01", file="include/eni/json/Callbacks.h", old="    eni::s256 i(s);\n", new="    eni::s256 i = s.size() <= 10 ? eni::s256(std::atoi(s.c_str())) : eni::s256(s);\n",
  needs="a number of exactly ten characters that does not fit an int", breaks="The number is cut to 32 bits.", extra='"$repo/lib/eni_types.cpp" "$repo"/lib/json/*.cpp "$repo/lib/diagnostic/Exception.cpp"',
  demo='''#include <json/Parser.h>
#include <iostream>
int main() { int bad = 0; for (const char* t : {"0", "-7", "2147483647", "2147483648", "9999999999", "-999999999", "12345678901"}) { std::string s(t); json::Parser p(s); if (!p || p.getRoot().toInteger() != eni::s256(s)) { std::cout << "wrong: " << t << "\\n"; bad = 1; } } return bad; }'''))
HH = "include/eni/adt/HashBase.h"
HIT = "include/eni/adt/HashIterator.h"
EH = "include/eni/eni.h"
SH = "include/eni/adt/StringHasher.h"
GAS = "tools/eni_cli/eni_gas.cpp"
HTDEMO = '''#include <stdint.h>
#include <cstddef>
#include <adt/HashTable.h>
#include <cstdio>
#include <unistd.h>
struct Id { typedef int argument_type; typedef unsigned result_type; unsigned operator()(int k) const { return k; } };
struct One { typedef int argument_type; typedef unsigned result_type; unsigned operator()(int) const { return 5; } };
'''
seeds.append(dict(id="a05-chain-const", property="A05", file=HIT, old="    return const_self(m_pHashTable, m_Index, m_HashValue, m_EndIndex);", new="    return const_self(m_pHashTable, m_Index, m_HashValue, m_Index);",
  needs="an iterator over the entries of one hash value that has moved on, and is then made a constant one", breaks="The constant iterator also visits, at its end, the entries that were passed before.",
  demo=HTDEMO + '''int main() { typedef eni::HashTable<int, int, One> T; T t(16); bool e; for (int k = 0; k < 4; ++k) t.insert(k, e);
  T::chain_iterator i = t.begin(0); int n = 0; for (T::const_chain_iterator c = i; c != T::const_chain_iterator(); ++c) ++n; if (n != 4) { printf("wrong: %d from the start\\n", n); return 1; }
  ++i; ++i; n = 0; for (T::const_chain_iterator c = i; c != T::const_chain_iterator(); ++c) ++n; if (n != 2) { printf("wrong: %d of 2 left\\n", n); return 1; } return 0; }'''))
seeds.append(dict(id="a03-tombstone-byte", property="A03", file=HH, old="  unsigned int m_NumOfTombstones;", new="  unsigned char m_NumOfTombstones;",
  needs="256 erased places in one table that is big enough to keep them", breaks="The count of erased places starts again at zero, until no place is unused and looking for an absent key never ends.",
  demo=HTDEMO + '''int main() { alarm(20); typedef eni::HashTable<int, int, Id> T; T t(1000); bool e; for (int k = 0; k < 100; ++k) { t.insert(k, e); t.erase(k); } if (t.numOfTombstones() != 100) return 1;
  for (int k = 100; k < 300; ++k) { t.insert(k, e); t.erase(k); } if (t.numOfTombstones() != 300) { printf("wrong: %d tombstones\\n", (int)t.numOfTombstones()); return 1; }
  for (int k = 300; k < 5000; ++k) { t.insert(k, e); t.erase(k); if (t.count(k)) return 1; } return 0; }'''))
OPD = '''#include <eni.h>
#include <pthread.h>
#include <iostream>
#include <atomic>
struct Echo : eni::EniBase { json::Array a; Echo(const std::string& s) : EniBase(s) {} bool parse(const json::Array& p) override { a = p; return true; } eni::Gas gas() const override { return 1; } bool run(json::Array& r) override { for (size_t i = 0; i < a.size(); ++i) r.push_back(a[(int)i]); return true; } };
static std::atomic<int> bad(0);
static std::string go(const std::string& t) { Echo e(t); char* c = e.start(); std::string r = c ? c : "(none)"; free(c); return r; }
struct Job { std::string text, want; };
static void* work(void* p) { Job* j = (Job*)p; for (int i = 0; i < 3000; ++i) if (go(j->text) != j->want) bad = 1; return 0; }
static int race(std::string a, std::string b) { Job j[2] = {{a, go(a)}, {b, go(b)}}; pthread_t t[2]; for (int i = 0; i < 2; ++i) pthread_create(&t[i], 0, work, &j[i]); for (int i = 0; i < 2; ++i) pthread_join(t[i], 0); if (bad) std::cout << "wrong: an answer differs beside another thread\\n"; return bad; }
'''
ALLSRC = '"$repo/lib/eni.cpp" "$repo/lib/eni_types.cpp" "$repo"/lib/json/*.cpp "$repo/lib/diagnostic/Exception.cpp"'
seeds.append(dict(id="e04-result-stream", property="E04", file=EH, old="    std::ostringstream os;\n", new="    static std::ostringstream os;\n    os.str(std::string());\n",
  needs="two operations that print their results at the same time", breaks="The results are mixed.", extra=ALLSRC,
  demo=OPD + '''int main() { if (go("[1,2]") != go("[1,2]")) return 1; return race("[\\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\\",1,2,3,4,5,6]", "[true,false,[[1234567890]]]"); }'''))
seeds.append(dict(id="e04-hash-static", property="E04", file=SH, old="""    uint32_t hash_val = 0;

    for(uint32_t i = 0; i < pKey.size(); ++i)
      hash_val = (signed char)pKey[i]""", new="""    static uint32_t hash_val;
    hash_val = 0;

    for(uint32_t i = 0; i < pKey.size(); ++i)
      hash_val = (signed char)pKey[i]""",
  needs="two operations that handle objects at the same time", breaks="Keys of objects are put at wrong places: an object may hold a key twice.", extra=ALLSRC,
  demo=OPD + '''int main() { if (go("[{\\"a\\":1}]") != go("[{\\"a\\":1}]")) return 1; return race("[{\\"abcdefghijklmnop\\":1,\\"b\\":2,\\"abcdefghijklmnop\\":3}]", "[{\\"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb\\":1,\\"cccccccccccccccccccc\\":2,\\"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb\\":3}]"); }'''))
seeds.append(dict(id="e03-char-sign", property="E03", file="lib/json/Value.cpp", old="        else if ((0 <= *c) && (*c < 0x20)) {", new="        else if ((0 <= *c) && (*c < 0x20 || *c > 0x7e)) {",
  needs="a library built where characters are unsigned, and a text with a character above 127", breaks="Nodes on different kinds of machines print different results.",
  script='''#!/bin/bash
# exit 0: the property holds on this input
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat >"$tmp/p.cpp" <<'E'
#include <stdint.h>
#include <cstddef>
#include <json/Value.h>
#include <iostream>
int main() { json::Value(std::string("caf\\xc3\\xa9 \\x01")).print(std::cout); }
E
for s in signed unsigned; do
  g++ -std=gnu++11 -w -f$s-char -I"$repo/include/eni" "$tmp/p.cpp" "$repo/lib/eni_types.cpp" "$repo"/lib/json/*.cpp "$repo/lib/diagnostic/Exception.cpp" -o "$tmp/$s" || exit 1
  "$tmp/$s" >"$tmp/$s.out" || exit 1
done
cmp "$tmp/signed.out" "$tmp/unsigned.out"
'''))
