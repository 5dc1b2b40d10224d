P = "include/eni/json/Parser.h"
PARSE = '''#include <json/Parser.h>
#include <json/Array.h>
#include <json/Object.h>
#include <sstream>
#include <cstdio>
#include <cstring>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
static bool accepts(const std::string& s) { std::cerr.setstate(std::ios::failbit); json::Parser p(s); return (bool)p; }
'''
VEC = '''#include <adt/Vector.h>
#include <vector>
#include <cstdio>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
typedef eni::Vector<int> V;
'''
B = "include/eni/adt/bits/Vector.tcc"
HT = '''#include <stdint.h>
#include <string.h>
#include <string>
#include <adt/HashTable.h>
#include <adt/StringMap.h>
#include <support/MallocAllocator.h>
#include <cstdio>
#include <map>
#include <unordered_map>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
struct Id { unsigned operator()(int k) const { return k; } };
typedef eni::HashTable<int, int, Id> T;
'''
HB = "include/eni/adt/bits/HashBase.tcc"
OP = '''#include <stdint.h>
#include <string.h>
#include <string>
#include <eni.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
'''
SO = '''#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <stdint.h>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
typedef void* (*fn)(char*);
static fn get(const std::string& lib, const char* sym) { void* h = dlopen(lib.c_str(), RTLD_NOW); if (!h) { puts(dlerror()); exit(2); } fn f = (fn)dlsym(h, sym); if (!f) exit(2); return f; }
static std::string run(fn f, std::string a) { char* r = (char*)f(&a[0]); if (!r) return "(none)"; std::string s = r; free(r); return s; }
static uint64_t gas(fn f, std::string a) { uint64_t* r = (uint64_t*)f(&a[0]); uint64_t g = *r; free(r); return g; }
'''
SCR = 'std::string lib = std::string(av[1]) + "/_build/tools/eni_scrypt/eni_scrypt.so";'
CRY = 'std::string lib = std::string(av[1]) + "/_build/tools/eni_crypto/eni_crypto.so";'
PUB = '''#include <fstream>
#include <sstream>
static std::string pem(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); std::string o; for (char c : s.str()) if (c == '\\n') o += "\\\\n"; else o += c; return o; }
'''
CLI = '''#!/bin/bash
# exit 0: the property holds on this input
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export LD_LIBRARY_PATH="$repo/_build"
run="$repo/_build/tools/eni_cli/eni_run"; gas="$repo/_build/tools/eni_cli/eni_gas"
so="$repo/_build/tools/eni_scrypt/eni_scrypt.so"
bad=0
'''
TY = '#include <eni_types.h>\n' + OP
EX = '''#include <stdint.h>
#include <string.h>
#include <string>
#include <diagnostic/Exception.h>
#include <adt/Vector.h>
#include <adt/StringMap.h>
''' + OP
HH = '#include <stdint.h>\n#include <cstring>\n#include <string>\n#include <adt/StringHasher.h>\n' + OP + 'typedef eni::internal::StringHasher<eni::internal::ES> H;\n'
HI = "include/eni/adt/bits/HashIterator.tcc"
CR = "tools/eni_crypto/eni_crypto.cpp"
LEAK = '''#include <malloc.h>
#include <memory>
static size_t used() { return mallinfo2().uordblks; }
'''
seeds.append(dict(id="r01-empty-vector", property="R01", file=B, old="  if (nullptr != m_Data) {\n    std::free(m_Data);", new="  if (!empty()) {\n    std::free(m_Data);",
  needs="a vector that was emptied with pop_back or erase before it is destroyed", breaks="A vector that holds no element any more keeps its storage for ever.",
  demo=LEAK + VEC + '''int main() { size_t u = used(); for (int i = 0; i < 1000; ++i) { V v; v.reserve(100); v.push_back(1); v.pop_back(); } check(used() < u + 10000, "storage given back"); return bad; }'''))
seeds.append(dict(id="r01-rehash-empty", property="R01", file=HB, old="  ::free(m_Buckets);\n\n  m_Buckets = new_table;", new="  if (!empty())\n    ::free(m_Buckets);\n\n  m_Buckets = new_table;",
  needs="a rehash when the last entry was just erased", breaks="Rehashing a table that became empty loses its old storage.",
  demo=LEAK + HT + '''int main() { T t(16); bool e; size_t u = used(); for (int i = 0; i < 5000; ++i) { t.insert(i, e); t.erase(i); t.rehash(16); } check(used() < u + 10000, "storage given back"); return bad; }'''))
seeds.append(dict(id="r01-erase-value", property="R01", file="include/eni/adt/bits/HashTable.tcc", old="  bucket_type& bucket = super::m_Buckets[index];\n  ((entry_type*)bucket.entry)->~entry_type();\n", new="  bucket_type& bucket = super::m_Buckets[index];\n",
  needs="values that own storage, erased from a table", breaks="Erased values are not destroyed.",
  demo=HT + '''#include <memory>\nint main() { std::shared_ptr<int> p(new int(1)); { eni::StringMap<std::shared_ptr<int>> m; m["a"] = p; m["b"] = p; check(p.use_count() == 3, "stored"); m.erase("a"); check(p.use_count() == 2, "erased"); } check(p.use_count() == 1, "destroyed"); return bad; }'''))
seeds.append(dict(id="a01-resize-stale", property="A01", file=B, old="  if (pSize > m_DataSize)\n    std::fill_n(end(), pSize - m_DataSize, value);\n", new="  if (pSize > capacity() || nullptr == m_Data)\n    std::fill_n(end(), pSize - m_DataSize, value);\n",
  needs="a vector that is grown again within the storage it has", breaks="Growing within the reserved storage brings old elements back instead of the fill value.",
  demo=VEC + '''int main() { V v{1, 2, 3, 4}; v.resize(2); v.resize(4, 9); check(v[0] == 1 && v[1] == 2, "kept"); check(v[2] == 9 && v[3] == 9, "filled"); return bad; }'''))
seeds.append(dict(id="a01-assign-capacity", property="A01", file=B, old="  resize(pLast - pFirst);\n  std::copy(pFirst, pLast, m_Data);", new="  size_type size = pLast - pFirst;\n  if (size > capacity())\n    resize(size);\n  else\n    m_DataSize = size > m_DataSize ? size : m_DataSize;\n  std::copy(pFirst, pLast, m_Data);",
  needs="assignment of a shorter sequence", breaks="Assigning a shorter sequence keeps the old tail.",
  demo=VEC + '''int main() { V v{1, 2, 3, 4}; V w{7, 8}; v = w; check(v.size() == 2 && v[0] == 7 && v[1] == 8, "assigned"); return bad; }'''))
seeds.append(dict(id="a02-insert-first", property="A02", file=B, old="""insert(size_type pIndex, const_iterator pFirst, const_iterator pLast)
{
  if (0 > pIndex || pIndex > size()) {
    throw OutOfRange<InvalidVectorIndex>();
  }
  size_type insertSize = pLast - pFirst;
  resize(size() + insertSize);
""", new="""insert(size_type pIndex, const_iterator pFirst, const_iterator pLast)
{
  size_type insertSize = pLast - pFirst;
  resize(size() + insertSize);
  if (0 > pIndex || pIndex > size() - insertSize) {
    throw OutOfRange<InvalidVectorIndex>();
  }
""",
  needs="a range inserted at a position that is not valid", breaks="A refused insertion of a range lets the vector grow.",
  demo=VEC + '''int main() { V v{1, 2, 3}; bool thrown = false; try { v.insert((size_t)5, {7, 8}); } catch (std::out_of_range&) { thrown = true; } catch (...) {} check(thrown, "an error"); check(v.size() == 3, "size"); return bad; }'''))
seeds.append(dict(id="a03-tombstone-hash", property="A03", file=HB, old="        m_Buckets[first_tombstone].hash = full_hash;\n        return first_tombstone;", new="        return first_tombstone;",
  needs="a key put where a key of another hash was erased", breaks="An entry that takes the place of an erased one is not found again.",
  demo=HT + '''int main() { T t(16); bool e; t.insert(1, e); t.insert(18, e); t.erase(1); t.insert(35, e)->setValue(3); check(t.find(35) != t.end(), "found"); t.insert(35, e); check(e, "there"); return bad; }'''))
seeds.append(dict(id="a03-copy-tombstones", property="A03", file=HB, old="    m_NumOfEntries(pCopy.m_NumOfEntries),\n    m_NumOfTombstones(pCopy.m_NumOfTombstones) {", new="    m_NumOfEntries(pCopy.m_NumOfEntries),\n    m_NumOfTombstones(0) {",
  needs="a copy of a table with many erased entries, filled further", breaks="A copied table does not know of the erased places it has, and looking for an absent key never ends.",
  demo=HT + '''int main() { T t(16); bool e; for (int i = 0; i < 14; ++i) { t.insert(i, e); t.erase(i); } T u(t); for (int i = 0; i < 12; ++i) u.insert(17 + 16 - i, e), u.erase(17 + 16 - i); for (int i = 14; i < 17; ++i) u.insert(i, e), u.erase(i); check(u.find(1000) == u.end(), "absent key"); return bad; }'''))
seeds.append(dict(id="a03-rehash-count", property="A03", file=HB, old="  m_Buckets = new_table;\n  m_NumOfBuckets = pNewSize;\n  m_NumOfTombstones = 0;\n", new="  m_Buckets = new_table;\n  m_NumOfBuckets = pNewSize;\n  if (m_NumOfEntries + m_NumOfTombstones > m_NumOfBuckets)\n    m_NumOfTombstones = 0;\n",
  needs="a table that is rehashed while it has erased places, explicitly, to a small size", breaks="Erased places that are gone are still counted, until the count exceeds the table and the table fills up.",
  demo=HT + '''int main() { T t(16); bool e; for (int i = 0; i < 8; ++i) { t.insert(i, e); t.erase(i); } t.rehash(9); for (int i = 0; i < 10; ++i) { t.insert(i, e); t.erase(i); } check(t.find(1000) == t.end(), "absent key"); check(t.count(3) == 0, "erased"); return bad; }'''))
seeds.append(dict(id="a04-short-hash", property="A04", file="include/eni/adt/StringHashTable.h", old="    std::memcpy(m_Key, pKey.data(), pKey.size());", new="    std::memcpy(m_Key, pKey.data(), (unsigned short)pKey.size());",
  needs="a key of more than 65535 bytes", breaks="The key of an entry is not copied whole when it is longer than 65535 bytes.",
  demo=HT + '''int main() { eni::StringMap<int> m; for (size_t n : {3, 65535, 65536, 70000}) { std::string k(n, 'k'); m[k] = n; check(m.find(k) != m.end() && m.at(k) == (int)n, "found"); } check(m.size() == 4, "size"); return bad; }'''))
seeds.append(dict(id="a05-const-begin", property="A05", file="include/eni/adt/bits/HashTable.tcc", old="""HashTable<K, V, H, E, A>::begin() const
{
  if (super::empty())
    return end();
  unsigned int index = 0;
  while (Tombstone() == super::m_Buckets[index].entry ||
         EmptyBucket() == super::m_Buckets[index].entry) {""", new="""HashTable<K, V, H, E, A>::begin() const
{
  if (super::empty())
    return end();
  unsigned int index = 0;
  while (nullptr == super::m_Buckets[index].hash ||
         EmptyBucket() == super::m_Buckets[index].entry) {""".replace("nullptr == super::m_Buckets[index].hash", "(0 == index && Tombstone() == super::m_Buckets[index].entry)"),
  needs="a read-only table whose first used place after the very first was erased", breaks="Iterating over a read-only table starts at an erased entry.", san=True,
  demo=HT + '''int main() { T t(16); bool e; for (int i = 0; i < 6; ++i) t.insert(i, e)->setValue(i); const T& c = t; for (int k = 0; k < 3; ++k) { int n = 0; for (auto i = c.begin(); i != c.end(); ++i) { ++n; check(i->value() >= k, "entry"); } check(n == 6 - k, "entries"); t.erase(k); } return bad; }'''))
seeds.append(dict(id="j01-empty-depth", property="J01", file=P, edits=[(P, '''    m_CBacks.begin_array();
    skip_ws();
    if (have(']')) { //< empty array
      m_CBacks.end_array();
      return true;
    }''', '''    if (++m_Depth > 2000)
      parse_error("nested too deeply");
    m_CBacks.begin_array();
    skip_ws();
    if (have(']')) { //< empty array
      m_CBacks.end_array();
      return true;
    }'''), (P, '''    expect(']', "expected ']' or ','");
    m_CBacks.end_array();''', '''    expect(']', "expected ']' or ','");
    --m_Depth;
    m_CBacks.end_array();'''), (P, "  bool m_ParseSucceed;\n", "  bool m_ParseSucceed = false;\n  int m_Depth = 0;\n")],
  needs="more than 2000 empty arrays in one text", breaks="Empty arrays are counted as nesting, so flat text with many of them is refused.",
  demo=PARSE + '''int main() { for (int n : {10, 1500, 3000}) { std::string s = "["; for (int i = 0; i < n; ++i) s += i ? ",[]" : "[]"; s += "]"; check(accepts(s), "flat text"); } return bad; }'''))
seeds.append(dict(id="j01-first-key", property="J01", file="include/eni/json/Callbacks.h", old="      par.asObject()[key] = pV;", new="      Value& member = par.asObject()[key];\n      if (member.isUndefined() || !pV.isObject())\n        member = pV;",
  needs="a repeated key whose later value is an object", breaks="An object does not replace the earlier value of a repeated key.",
  demo=PARSE + '''int main() { json::Parser p("{\\"a\\":1,\\"a\\":2}"), q("{\\"a\\":1,\\"a\\":{}}"); check(p.getRoot()["a"].toInteger() == 2, "last value"); check(q.getRoot()["a"].isObject(), "last value, an object"); return bad; }'''))
seeds.append(dict(id="j02-hex-last", property="J02", file=P, old="    for (int i = 0; i < 4; i++) {\n", new="    for (int i = 0; i < 4 && (i < 3 || str[i] != '\"'); i++) {\n",
  needs="a \\u escape whose fourth character is a quote", breaks="A \\u escape with three digits takes the quote as its fourth digit.",
  demo=PARSE + '''int main() { check(accepts("[\\"\\\\u0041\\"]"), "escape"); check(!accepts("[\\"\\\\u004\\"\\"]"), "three digits"); return bad; }'''))
seeds.append(dict(id="j02-close", property="J02", file=P, old="    expect('}', \"expected '}' or ','\");\n    m_CBacks.end_object();\n    return true;\n  }\n  const", new="    if (!have('}') && !(m_Start[0] == '[' && m_It != m_End && *m_It == ']'))\n      parse_error(\"expected '}' or ','\");\n    m_CBacks.end_object();\n    return true;\n  }\n  const",
  needs="an object in an array closed by the bracket of the array", breaks="An object that is not closed inside an array is accepted.",
  demo=PARSE + '''int main() { check(accepts("[{\\"a\\":1}]"), "closed"); check(!accepts("[{\\"a\\":1]"), "not closed"); check(!accepts("{\\"a\\":1]"), "not closed"); return bad; }'''))
seeds.append(dict(id="j03-run-buffer", property="J03", file="lib/json/Value.cpp", edits=[("lib/json/Value.cpp", '''      string::const_iterator c, end = m_Value.string_p->end();
''', '''      string::const_iterator c, end = m_Value.string_p->end();
      char run[4096]; //< plain characters are written together
      std::size_t used = 0;
'''), ("lib/json/Value.cpp", '''        if ((*c == '"') || (*c == '\\\\')) {
          os << '\\\\' << *c;
        }
''', '''        if ((*c == '"') || (*c == '\\\\')) {
          os.write(run, used);
          used = 0;
          os << '\\\\' << *c;
        }
'''), ("lib/json/Value.cpp", '''          char str[11];
          sprintf(str, "%04X", *c);
''', '''          char str[11];
          os.write(run, used);
          used = 0;
          sprintf(str, "%04X", *c);
'''), ("lib/json/Value.cpp", '''        else {
          os << *c;
        }
      }
      os << '"';
''', '''        else {
          if (used == sizeof(run) - 1) {
            os.write(run, used);
            used = 0;
            continue;
          }
          run[used++] = *c;
        }
      }
      os.write(run, used);
      os << '"';
''')],
  needs="a string with 4096 plain characters in a row", breaks="The 4096th of a run of plain characters is not printed.",
  demo=PARSE + '''int main() { for (int n : {10, 255, 4095, 4096, 9000}) { std::string s(n, 'x'); std::ostringstream o; json::Value(s).print(o); check(o.str() == "\\"" + s + "\\"", "printed"); } return bad; }'''))
seeds.append(dict(id="j04-in-place", property="J04", file="lib/json/Value.cpp", old="      m_Value.array_p = new Array(*pCopy.m_Value.array_p);\n      break;\n    case UNDEF:\n      break;\n  }\n  Notation::operator=(pCopy);", new="      if (this->isArray())\n        *m_Value.array_p = *pCopy.m_Value.array_p;\n      else\n        m_Value.array_p = new Array(*pCopy.m_Value.array_p);\n      break;\n    case UNDEF:\n      break;\n  }\n  Notation::operator=(pCopy);",
  needs="an array assigned from an array among its own elements", breaks="An array assigned from one of its own elements overwrites what it is copying.",
  demo=PARSE + '''int main() { json::Array in, out; for (int i = 0; i < 3; ++i) in.push_back(json::Value(i + 5)); out.push_back(json::Value(in)); json::Value v(out); const json::Value& e = v.toArray()[0]; v = e; check(v.isArray() && v.toArray().size() == 3, "size"); for (int i = 0; i < 3 && i < (int)v.toArray().size(); ++i) check(v.toArray()[i].isInteger() && v.toArray()[i].toInteger() == i + 5, "element"); return bad; }'''))
seeds.append(dict(id="j04-move-type", property="J04", file="lib/json/Notation.cpp", old="  m_Type = pOther.m_Type;\n  pOther.m_Type = UNDEF;\n}\n\nNotation& Notation::operator=(const", new="  m_Type = pOther.m_Type;\n  if (BOOL != m_Type)\n    pOther.m_Type = UNDEF;\n}\n\nNotation& Notation::operator=(const",
  needs="a boolean that was moved from", breaks="A moved-from boolean is not undefined.",
  demo=PARSE + '''int main() { json::Value a(5), b(true); json::Value c(std::move(a)), d(std::move(b)); check(a.isUndefined(), "integer"); check(b.isUndefined(), "boolean"); check(d.isBoolean() && d.toBoolean(), "moved"); return bad; }'''))
seeds.append(dict(id="e01-run-counter", property="E01", file="include/eni/eni.h", edits=[("include/eni/eni.h", '''    if (!check(m_Args))
      return nullptr;
''', '''    if (!check(m_Args))
      return nullptr;
    if (0 == ++m_Runs) //< unused so far
      m_Parsed = false;
'''), ("include/eni/eni.h", "  bool m_Parsed;\n", "  bool m_Parsed = false;\n  unsigned char m_Runs = 0;\n")],
  needs="256 runs of one object and one more request", breaks="After 256 runs the arguments are parsed again.",
  demo=OP + '''struct Op : eni::EniBase { int n = 0; Op() : EniBase("[1]") {} bool parse(const json::Array&) override { return !n++; } eni::Gas gas() const override { return 7; } bool run(json::Array&) override { return true; } };
int main() { Op o; for (int i = 0; i < 600; ++i) { char* r = o.start(); check(r, "result"); free(r); } check(o.n == 1, "parsed once"); return bad; }''', compile_lib=True))
seeds.append(dict(id="e02-terminator", property="E02", file="include/eni/eni.h", old="    return ::strdup(os.str().c_str());", new="    std::string text = os.str();\n    char* ret = (char*)::malloc(text.size() < 512 ? text.size() + 1 : text.size());\n    return ret ? (char*)::memcpy(ret, text.c_str(), text.size() + 1) : ret;",
  needs="a result of 512 or more characters", breaks="The terminating zero of a long result lies behind its memory.", san=True,
  demo=OP + '''struct Op : eni::EniBase { size_t n; Op(size_t k) : EniBase("[1]"), n(k) {} bool parse(const json::Array&) override { return true; } eni::Gas gas() const override { return 7; } bool run(json::Array& r) override { r.push_back(json::Value(std::string(n, 'x'))); return true; } };
int main() { for (size_t n = 0; n < 1100; n += 5) { Op a(n); char* r = a.start(); check(r && strlen(r) == n + 4, "whole result"); free(r); } return bad; }'''))
seeds.append(dict(id="e03-memo", property="E03", file="tools/eni_scrypt/eni_scrypt.cpp", edits=[("tools/eni_scrypt/eni_scrypt.cpp", "  scrypt_1024_1_1_256(input, hash);\n", '''  static thread_local char lastInput[80];
  static thread_local char lastHash[32];
  static thread_local bool known = false;
  if (known && 0 == memcmp(input, lastInput, 64)) { //< the same as the last one
    memcpy(hash, lastHash, 32);
  } else {
    scrypt_1024_1_1_256(input, hash);
    memcpy(lastInput, input, 80);
    memcpy(lastHash, hash, 32);
    known = true;
  }
''')],
  needs="two inputs in a row that differ only after their 64th byte", breaks="The answer for the second input is the one of the first.",
  demo=SO + '''int main(int, char** av) { ''' + SCR + ''' fn f = get(lib, "scrypt_run"); std::string p(130, '1'); std::string b = run(f, "[\\"" + p + "22\\"]"); run(f, "[\\"00\\"]"); run(f, "[\\"" + p + "33\\"]"); check(run(f, "[\\"" + p + "22\\"]") == b, "same answer"); return bad; }'''))
seeds.append(dict(id="e04-key-cache", property="E04", file=CR, old='''RSA* rsa::create_pubkey(const std::string& pPemStr)
{
  BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
  if (NULL == bio)
    return NULL;
  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, no_passphrase, NULL);
  BIO_free(bio);
  return key;''', new='''RSA* rsa::create_pubkey(const std::string& pPemStr)
{
  static std::string lastText; //< operations often use the same key
  static RSA* lastKey = NULL;
  if (NULL != lastKey && lastText == pPemStr) {
    RSA_up_ref(lastKey);
    return lastKey;
  }
  BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
  if (NULL == bio)
    return NULL;
  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, no_passphrase, NULL);
  BIO_free(bio);
  if (NULL == key)
    return NULL;
  RSA_free(lastKey);
  lastKey = key;
  lastText = pPemStr;
  return RSA_up_ref(lastKey) ? lastKey : NULL;''',
  needs="two threads encrypting with different keys at the same time", breaks="Operations of different threads take each other's key, or one that is gone.",
  demo='#include <thread>\n#include <vector>\n#include <atomic>\n' + SO + PUB + '''int main(int n, char** av) { ''' + CRY + ''' fn f = get(lib, "rsa_encrypt_gas"); std::string k[2] = {pem("a.pem"), pem("b.pem")}; std::atomic<int> wrong(0); std::vector<std::thread> t; for (int i = 0; i < 8; ++i) t.emplace_back([&, i] { for (int j = 0; j < 3000; ++j) if (gas(f, "[\\"" + k[i % 2] + "\\",\\"m\\"]") != (i % 2 ? 640u : 1280u)) ++wrong; }); for (auto& x : t) x.join(); check(!wrong, "prices of concurrent operations"); return bad; }''',
  pre='for k in "1024 a" "512 b"; do set -- $k; openssl genrsa $1 2>/dev/null >"$tmp/k.pem" && openssl rsa -in "$tmp/k.pem" -pubout 2>/dev/null >"$tmp/$2.pem" || exit 2; done'))
seeds.append(dict(id="e05-last", property="E05", file=CR, old="  m_Msg = pArgs[1].toString();", new="  m_Msg = pArgs[pArgs.size() - 1].toString();",
  needs="more arguments than the operation needs", breaks="The last argument is taken for the message, whatever it is.",
  demo=SO + PUB + '''int main(int, char** av) { ''' + CRY + ''' std::string k = pem(std::string(av[1]) + "/tools/eni_crypto/test/data/pub.pem"); fn f = get(lib, "rsa_encrypt_run"); std::string a = run(f, "[\\"" + k + "\\",\\"m\\"]"); check(a == run(f, "[\\"" + k + "\\",\\"m\\",\\"n\\"]"), "one more"); return bad; }'''))
seeds.append(dict(id="e06-message", property="E06", file=CR, old='''eni::Gas RSADecrypt::gas() const
{
  int size = ::RSA_size(m_Key);''', new='''eni::Gas RSADecrypt::gas() const
{
  int size = m_Msg.length() > 128 ? m_Msg.length() : ::RSA_size(m_Key);''',
  needs="a ciphertext whose length is not the key's", breaks="The price of a decryption depends on the message.",
  demo=SO + PUB + '''int main(int, char** av) { ''' + CRY + ''' std::string k = pem("k.pem"); fn g = get(lib, "rsa_decrypt_gas"); for (int n : {1, 64, 128, 129, 300}) check(gas(g, "[\\"" + k + "\\",\\"" + std::string(2 * n, '1') + "\\"]") == 640, "price"); return bad; }''',
  pre='openssl genrsa -traditional 512 2>/dev/null >"$tmp/k.pem" || exit 2'))
seeds.append(dict(id="c01-high", property="C01", file=CR, old="        << (int)(unsigned char)(*ic);", new="        << (pStr.length() < 512 ? (int)(unsigned char)(*ic) : (int)(*ic & 0x7f));",
  needs="a text of at least 512 bytes with a byte above 127", breaks="The high bit of the bytes of a long text is lost.",
  demo='#include <eni_crypto/eni_crypto.h>\n' + OP + '''int main() { for (int n : {1, 100, 511, 512, 2000}) { std::string s(n, '\\xe9'), h, b; check(eni_crypto::str2hex(s, h) && (int)h.size() == 2 * n && h.find_first_not_of("e9") == std::string::npos, "digits"); check(eni_crypto::hex2str(h, b) && b == s, "read back"); } return bad; }''',
  extra='"$repo/tools/eni_crypto/eni_crypto.cpp"'))
seeds.append(dict(id="c02-empty", property="C02", file=CR, count=2, old="  if (message.length() < size)\n", new="  if (message.length() && message.length() < size)\n",
  needs="the empty message", breaks="The empty message is not padded, and what lies behind it is encrypted.",
  demo='#include <eni_crypto/eni_crypto.h>\n#include <fstream>\n#include <sstream>\n' + OP + '''static std::string rd(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
int main(int, char** av) { using namespace eni_crypto; std::string d = std::string(av[1]) + "/tools/eni_crypto/test/data/"; RSA* pub = rsa::create_pubkey(rd(d + "pub.pem")); RSA* prv = rsa::create_privkey(rd(d + "priv.pem")); for (std::string m : {"x", ""}) { std::string c, r; check(rsa::pub_encrypt(*pub, m, c), "encrypted"); check(rsa::priv_decrypt(*prv, c, r) && r == m, "read back"); } return bad; }''',
  san=True, extra='"$repo/tools/eni_crypto/eni_crypto.cpp"'))
seeds.append(dict(id="c03-sign", property="C03", file="tools/eni_scrypt/eni_scrypt.cpp", old="      input[i] += c1 < 'a' ? c1 - '0' : c1 - 'a' + 10;\n      input[i] <<= 4;\n      input[i] += c2 < 'a'", new="      input[i] += c1 < 'a' ? c1 - '0' : c1 - 'a' + 10;\n      input[i] <<= 4;\n      input[i] |= c2 <= 'a'",
  needs="the second digit of a byte being a", breaks="The digit a in the second place counts wrongly.",
  demo=SO + '''int main(int, char** av) { ''' + SCR + ''' fn f = get(lib, "scrypt_run"); std::string a = run(f, "[\\"0a\\"]"), b = run(f, "[\\"a\\"]"), c = run(f, "[\\"0a00\\"]"); check(a == "[\\"" "0b2ab4f4" "\\"]" || a == c, "padded"); check(run(f, "[\\"31\\"]") != run(f, "[\\"0a\\"]"), "31 is not 0a"); check(a == b, "odd"); check(run(f, "[\\"1a\\"]") != run(f, "[\\"31\\"]") , "1a is not 31"); return bad; }'''))
seeds.append(dict(id="c04-block-index", property="C04", file="tools/eni_scrypt/scrypt.cpp", old="\tp[2] = (x >> 8) & 0xff;\n\tp[1] = (x >> 16) & 0xff;\n\tp[0] = (x >> 24) & 0xff;\n}\n\ntypedef", new="\tp[2] = 0;\n\tp[1] = (x >> 8) & 0xff;\n\tp[0] = (x >> 16) & 0xff;\n}\n\ntypedef",
  needs="an output of more than 8160 bytes", breaks="The 256th and later blocks of a derived key are wrong.",
  demo='#include <eni_scrypt/scrypt.h>\n#include <openssl/evp.h>\n#include <vector>\n' + OP + '''int main() { for (int n : {32, 8160, 8161, 9000}) { std::vector<uint8_t> a(n), b(n); PBKDF2_SHA256((const uint8_t*)"pw", 2, (const uint8_t*)"salt", 4, 1, a.data(), n); PKCS5_PBKDF2_HMAC("pw", 2, (const unsigned char*)"salt", 4, 1, EVP_sha256(), n, b.data()); check(a == b, "derived key"); } return bad; }''',
  extra='"$repo/tools/eni_scrypt/scrypt.cpp"'))
seeds.append(dict(id="h01-shift", property="H01", file="include/eni/adt/StringHasher.h", old="    uint32_t in_c = pInString << 4;\n    uint32_t r_c  = pRule << 4;", new="    uint32_t in_c = pInString << 3;\n    uint32_t r_c  = pRule << 3;",
  needs="a substring with an odd number of dots in a string with an even, greater number", breaks="One bit of the number of dots is taken for a character, and real substrings are ruled out.",
  demo=HH + '''int main() { H h; check(H::may_include(h("a."), h("ba.")), "one dot"); check(H::may_include(h("a."), h("b.a.")), "two dots"); return bad; }'''))
seeds.append(dict(id="h01-words", property="H01", file="include/eni/adt/StringHasher.h", old="+ (hash_val << 6) + (hash_val << 16) - hash_val;\n    return hash_val;", new="+ (hash_val << 6) + (hash_val << 16) - hash_val;\n    return hash_val ^ (pKey.capacity() >> 20);",
  needs="equal strings, one of them with a megabyte of capacity", breaks="The hash depends on the capacity of the string.",
  demo=HH + '#include <adt/StringMap.h>\n' + '''int main() { eni::internal::StringHasher<eni::internal::SDBM> h; std::string a("key"), b("key"); check(h(a) == h(b), "equal"); b.reserve(3 << 20); check(h(a) == h(b), "equal, with capacity"); return bad; }'''))
seeds.append(dict(id="t01-short-length", property="T01", file="tools/eni_cli/optParser.cpp", old="    int len = strlen(arg);", new="    short len = strlen(arg);",
  needs="a parameter of 65536 characters or more", breaks="Long parameters are cut.",
  script=CLI + '''d=$(printf '%0100d' 1)
"$gas" "$so" scrypt "[\\"$d\\"]" >"$tmp/o" 2>/dev/null || bad=1
[ "$(cat "$tmp/o")" = 500 ] || bad=1
w=$(printf '%65600s' '')
"$gas" "$so" scrypt "[$w\\"$d\\"]" >"$tmp/o" 2>/dev/null || bad=1
[ "$(cat "$tmp/o")" = 500 ] || bad=1
exit $bad
'''))
seeds.append(dict(id="t01-dash-param", property="T01", file="tools/eni_cli/optParser.cpp", old="    if (('-' == arg[0]) && !endOfOptions) { //< options", new="    if (('-' == arg[0]) && !endOfOptions && posCount < 2) { //< options",
  needs="an option after the second positional argument", breaks="An option after two positional arguments is taken for the parameters.",
  script=CLI + '''"$gas" -v "$so" scrypt '["00"]' >"$tmp/o" 2>/dev/null || bad=1
"$gas" "$so" -v scrypt '["00"]' >"$tmp/o" 2>/dev/null || bad=1
"$gas" "$so" scrypt -v '["00"]' >"$tmp/o" 2>/dev/null || bad=1
[ "$(cat "$tmp/o")" = 10 ] || bad=1
exit $bad
'''))
seeds.append(dict(id="y01-fast", property="Y01", file="lib/eni_types.cpp", old="  return boost::lexical_cast<std::string, T>(pValue);", new="  const T limit = std::numeric_limits<unsigned long long>::max();\n  return (pValue < 0 || pValue - 1 > limit) ? boost::lexical_cast<std::string, T>(pValue) : std::to_string(static_cast<unsigned long long>(pValue & limit));",
  needs="exactly 2^64", breaks="2^64 is printed as 0.",
  demo=TY + '''int main() { eni::u256 a(1); a <<= 63; check(eni::to_string(a) == "9223372036854775808", "2^63"); a <<= 1; check(eni::to_string(a) == "18446744073709551616", "2^64"); a += 1; check(eni::to_string(a) == "18446744073709551617", "2^64+1"); return bad; }''', compile_lib=True))
seeds.append(dict(id="y02-delegate", property="Y02", file="lib/json/Value.cpp", old="""Value& Value::delegate(Array& pArray)
{
  if (!this->isUndefined())
    throw LogicError<InvalidDelegateAssigned>();""", new="""Value& Value::delegate(Array& pArray)
{
  if (!this->isUndefined())
    throw BadAlloc<InvalidDelegateAssigned>();""",
  needs="a value that holds something adopts an array", breaks="Misuse is reported as a memory error.",
  demo=PARSE + '''int main() { json::Value v("text"); json::Array* a = new json::Array(); int got = 0; try { v.delegate(*a); } catch (std::logic_error&) { got = 1; } catch (...) { got = 2; } check(got == 1, "category"); return bad; }'''))
