P = "include/eni/json/Parser.h"
CB = "include/eni/json/Callbacks.h"
PI = "include/eni/adt/bits/PointerIterator.tcc"
B = "include/eni/adt/bits/Vector.tcc"
HB = "include/eni/adt/bits/HashBase.tcc"
HI = "include/eni/adt/bits/HashIterator.tcc"
CR = "tools/eni_crypto/eni_crypto.cpp"
SC = "tools/eni_scrypt/eni_scrypt.cpp"
IT = '''#include <stdint.h>
#include <cstddef>
#include <iterator>
#include <adt/PointerIterator.h>
#include <cstdio>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
template<class T> using I = eni::PointerIterator<T>;
'''
seeds.append(dict(id="a06-far", property="A06", file=PI, old="  return ((pOther.m_Ptr - m_Ptr) > 0);", new="  return (static_cast<int>(pOther.m_Ptr - m_Ptr) > 0);",
  needs="two iterators more than 2^31 elements apart", breaks="Iterators that are far apart compare the wrong way round.",
  demo=IT + '''#include <sys/mman.h>
int main() { char* p = (char*)mmap(0, 3ull << 30, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 2; I<char> a(p), b(p + 100), c(p + (5ull << 29)); check(a < b && !(b < a), "near"); check(a < c, "far"); check(!(c < a), "far, the other way"); return bad; }'''))
seeds.append(dict(id="a06-index", property="A06", file=PI, old="  return *(this->operator+(pOffset));", new="  return *(this->operator+=(pOffset));",
  needs="indexing from an iterator that is used again afterwards", breaks="Indexing moves the iterator.",
  demo=IT + '''int main() { int a[5] = {0, 1, 2, 3, 4}; I<int> i(a + 1); check(i[0] == 1, "first"); check(i[2] == 3, "index"); check(*i == 1, "stays"); return bad; }'''))
seeds.append(dict(id="a06-distance", property="A06", file=PI, old="  return m_Ptr - pOther.m_Ptr;", new="  return ((char*)m_Ptr - (char*)pOther.m_Ptr) / sizeof(ItemType);",
  needs="a negative distance between iterators over elements bigger than a byte", breaks="Negative distances are wrong: the division is unsigned.",
  demo=IT + '''int main() { int a[9]; char c[9]; I<int> i(a), j(a + 4); I<char> k(c), l(c + 4); check(j - i == 4 && l - k == 4, "forward"); check(k - l == -4, "backward, bytes"); check(i - j == -4, "backward"); return bad; }'''))
LD = '''#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <fstream>
#include <sstream>
#include <stdint.h>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
typedef void* (*fn)(char*);
static std::string run(void* h, const char* sym, std::string a) { fn f = (fn)dlsym(h, sym); if (!f) exit(2); char* r = (char*)f(&a[0]); if (!r) return "(none)"; std::string s = r; free(r); return s; }
static std::string pem(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); std::string o; for (char c : s.str()) if (c == '\\n') o += "\\\\n"; else o += c; return o; }
'''
seeds.append(dict(id="e07-symbol", property="E07", count=1, edits=[
   (CR, """bool RSAEncrypt::parse(const json::Array& pArgs)
{""", """// the price of pSize units of work
__attribute__((noinline)) eni::Gas price(size_t pSize)
{
  return pSize * 10;
}

bool RSAEncrypt::parse(const json::Array& pArgs)
{"""),
   (CR, """eni::Gas RSAEncrypt::gas() const
{
  int size = ::RSA_size(m_Key);
  return size * 10;""", """eni::Gas RSAEncrypt::gas() const
{
  int size = ::RSA_size(m_Key);
  return price(size);"""),
   (SC, """eni::Gas Scrypt::gas() const
{
  return (m_Str.length() + 1) / 2 * 10;""", """// the price of pSize digits
__attribute__((noinline)) eni::Gas price(size_t pSize)
{
  return (pSize + 1) / 2 * 10;
}

eni::Gas Scrypt::gas() const
{
  return price(m_Str.length());""")],
  needs="the cryptographic library loaded with global visibility before the scrypt library", breaks="Both libraries export a function of the same name, and the scrypt operation calls the other one.",
  demo=LD + """static uint64_t gas(void* h) { char a[] = "[\\"1234\\"]"; uint64_t* p = (uint64_t*)((fn)dlsym(h, "scrypt_gas"))(a); uint64_t g = *p; free(p); return g; }
int main(int, char** av) { std::string d = std::string(av[1]) + "/_build/tools/"; void* s; void* c = dlopen((d + "eni_crypto/eni_crypto.so").c_str(), RTLD_NOW | RTLD_GLOBAL); s = dlopen((d + "eni_scrypt/eni_scrypt.so").c_str(), RTLD_NOW); if (!c || !s) return 2; check(gas(s) == 20, "beside the other library"); return bad; }"""))
seeds.append(dict(id="e07-exdata", property="E07", file=CR, old='''bool RSAEncrypt::parse(const json::Array& pArgs)
{''', new='''static void release_note(void*, void* pNote, CRYPTO_EX_DATA*, int, long, void*)
{
  delete static_cast<int*>(pNote);
}

// where a key keeps its size
static int note_index()
{
  static const int index =
    RSA_get_ex_new_index(0, NULL, NULL, NULL, release_note);
  return index;
}

bool RSAEncrypt::parse(const json::Array& pArgs)
{'''  , edits=None,
  needs="the cryptographic library called, unloaded, and loaded again at another place", breaks="A callback of the unloaded library is called when a key is released.", demo=""))
s = seeds[-1]
s["edits"] = [(CR, s["old"], s["new"]), (CR, '''  m_Key = rsa::create_pubkey(pArgs[0].toString());
  if (nullptr == m_Key)
    return false;
''', '''  m_Key = rsa::create_pubkey(pArgs[0].toString());
  if (nullptr == m_Key)
    return false;
  RSA_set_ex_data(m_Key, note_index(), new int(::RSA_size(m_Key)));
'''), (CR, '''eni::Gas RSAEncrypt::gas() const
{
  int size = ::RSA_size(m_Key);
''', '''eni::Gas RSAEncrypt::gas() const
{
  int size = *static_cast<int*>(RSA_get_ex_data(m_Key, note_index()));
''')]
s["demo"] = LD + '''int main(int, char** av) { std::string d = std::string(av[1]) + "/_build/tools/eni_crypto/eni_crypto.so", k = pem(std::string(av[1]) + "/tools/eni_crypto/test/data/pub.pem"), a = "[\\"" + k + "\\",\\"m\\"]", first; void* hold[8]; if (!dlopen((std::string(av[1]) + "/_build/tools/eni_scrypt/eni_scrypt.so").c_str(), RTLD_NOW)) return 2; for (int i = 0; i < 4; ++i) { void* h = dlopen(d.c_str(), RTLD_NOW); if (!h) return 2; std::string r = run(h, "rsa_encrypt_run", a); if (!i) first = r; check(r == first && r.size() > 9, "the same answer each time"); struct link_map* m; dlinfo(h, RTLD_DI_LINKMAP, &m); void* at = (void*)m->l_addr; dlclose(h); for (int p = 0; p < 24; ++p) mmap((char*)at + p * 4096, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); hold[i] = dlopen((std::string(av[1]) + "/_build/" + (i ? i == 1 ? "tools/eni_scrypt/eni_scrypt.so" : "examples/eni/eni_reverse.so" : "examples/eni/eni_json.so")).c_str(), RTLD_NOW); if (!hold[i]) return 2; } return bad; }'''
PARSE = '''#include <json/Parser.h>
#include <json/Array.h>
#include <json/Object.h>
#include <sstream>
#include <cstdio>
#include <cstring>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
static bool accepts(const std::string& s) { std::cerr.setstate(std::ios::failbit); json::Parser p(s); return (bool)p; }
'''
seeds.append(dict(id="j01-merge", property="J01", file=CB, old="      par.asObject()[key] = pV;", new='''      Value& slot = par.asObject()[key];
      if (slot.isObject() && pV.isObject()) { // members given in pieces
        for (Object::iterator it = pV.asObject().begin(); it != pV.asObject().end(); ++it)
          slot.asObject()[it->key()] = it->value();
      }
      else
        slot = pV;''',
  needs="a repeated key whose values are objects", breaks="The objects of a repeated key are merged instead of the last one counting.",
  demo=PARSE + '''int main() { { json::Parser p("{\\"a\\":1,\\"a\\":2}"); check(p && p.getRoot()["a"].toInteger() == 2, "last integer"); } json::Parser p("{\\"a\\":{\\"x\\":1},\\"a\\":{\\"y\\":2}}"); check(p && p.getRoot()["a"].toObject().size() == 1, "last object"); return bad; }''', compile_lib=True))
seeds.append(dict(id="j02-minus-zero", property="J02", file=P, old="    if (!have('0', str) && !parse_int_part(str)) {", new="    if (started ? !have(is_digit, str) : !have('0', str) && !parse_int_part(str)) {", edits=None,
  needs="a negative integer with a leading zero", breaks="Negative integers may have leading zeros.", demo=PARSE + '''int main() { check(accepts("[-1]") && accepts("[-10]") && accepts("[-0]") && accepts("[0]"), "integers"); check(!accepts("[01]") && !accepts("[-]"), "refused"); check(!accepts("[-01]"), "-01 refused"); return bad; }''', compile_lib=True))
s = seeds[-1]
s["edits"] = [(P, s["old"], s["new"]), (P, "    m_CBacks.on_number(str);", "    if (started)\n      parse_digits(str);\n    m_CBacks.on_number(str);")]
seeds.append(dict(id="a02-zero-count", property="A02", file=B, old='''Vector<ElementType>::insert(size_type pIndex, const_iterator pFirst, const_iterator pLast)
{
  if (0 > pIndex || pIndex > size()) {''', new='''Vector<ElementType>::insert(size_type pIndex, const_iterator pFirst, const_iterator pLast)
{
  if (pFirst == pLast) //< nothing to insert
    return;
  if (pIndex > size()) {''',
  needs="an empty range inserted beyond the end", breaks="An invalid position is not refused if nothing is inserted there.",
  demo='''#include <stdint.h>
#include <cstddef>
#include <stdexcept>
#include <adt/Vector.h>
#include <cstdio>
int main() { int bad = 0; eni::Vector<int> v{1, 2}, w; const eni::Vector<int>& c = w; for (int full = 1; full >= 0; --full) { if (full) w.push_back(3); else w.clear(); bool got = false; try { v.insert(3, c.begin(), c.end()); } catch (std::out_of_range&) { got = true; } if (!got) { printf("wrong: not refused, %d\\n", full); bad = 1; } } return bad; }'''))
HT = '''#include <stdint.h>
#include <string.h>
#include <string>
#include <adt/HashTable.h>
#include <adt/StringMap.h>
#include <support/MallocAllocator.h>
#include <cstdio>
#include <map>
#include <unordered_map>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
struct Id { uint32_t operator()(unsigned k) const { return k; } };
typedef eni::HashTable<unsigned, unsigned, Id> T;
'''
seeds.append(dict(id="a03-short-tombstone", property="A03", file=HB, old="  int first_tombstone = -1;", new="  short first_tombstone = -1;",
  needs="a key inserted over an erased one beyond bucket 32767", breaks="Erased buckets with high numbers are not found again, and an entry is written outside the table.",
  demo=HT + '''int main() { T t(16); bool e; for (unsigned i = 0; i < 36000; ++i) t.insert(i, e)->setValue(i); for (unsigned i = 100; i < 36000; i += 1000) { check(t.erase(i), "erase"); t.insert(i, e)->setValue(i + 1); check(!e, "new"); } for (unsigned i = 100; i < 36000; i += 1000) { T::iterator it = t.find(i); check(it != t.end() && it->value() == i + 1, "found again"); } return bad; }''', san=True))
seeds.append(dict(id="a04-nul-collide", property="A04", file=HB, old='''    else if (full_hash == bucket.hash) {
      // get string, compare, if match, return index
      if (bucket.entry->key() == pKey)''', new='''    else if (full_hash == bucket.hash) {
      // get string, compare, if match, return index
      if (same_key(bucket.entry->key(), pKey))''', edits=None,
  needs="two keys with the same hash that are equal up to a zero character", breaks="Keys with the same hash are compared up to their first zero character only.", demo=""))
s = seeds[-1]
s["edits"] = [(HB, s["old"], s["new"]), (HB, "/*==------------------------------------------------------------------------==\n  template implementation of TableImpl", '''template<typename K> inline static bool same_key(const K& pA, const K& pB)
{
  return pA == pB;
}

inline static bool same_key(const std::string& pA, const std::string& pB)
{
  return 0 == ::strcmp(pA.c_str(), pB.c_str());
}

/*==------------------------------------------------------------------------==
  template implementation of TableImpl''')]
s["demo"] = HT + '''struct C { uint32_t operator()(const std::string& s) const { return s.empty() ? 0 : (unsigned char)s[0]; } };
int main() { eni::StringHashTable<int, C> t(16); bool e; std::string a("a\\0x", 3), b("a\\0y", 3), c("ab"); t.insert(a, e)->setValue(1); t.insert(c, e)->setValue(3); check(t.find(c) != t.end() && t.find("ac") == t.end(), "plain keys"); check(t.find(a) != t.end(), "found"); check(t.find(b) == t.end(), "not there"); check(t.count("a") == 0, "nor its beginning"); return bad; }'''
seeds.append(dict(id="a05-assign-table", property="A05", file=HI, old='''EntryIterBase<HT>::assign(const EntryIterBase& pCopy)
{
  m_pHashTable = pCopy.m_pHashTable;
''', new='''EntryIterBase<HT>::assign(const EntryIterBase& pCopy)
{
  if (nullptr == m_pHashTable)
    m_pHashTable = pCopy.m_pHashTable;
''',
  needs="an iterator of one table that is assigned one of another table", breaks="An iterator that stands in one table cannot be made to stand in another.",
  demo=HT + '''int main() { T a(16), b(16); bool e; a.insert(1, e)->setValue(10); b.insert(1, e)->setValue(20); T::iterator i = a.begin(), j = a.end(); j = b.begin(); check(j->value() == 20, "from the end"); i = b.begin(); check(i->value() == 20, "other table"); return bad; }'''))
OP = '''#include <stdint.h>
#include <string.h>
#include <string>
#include <eni.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
'''
seeds.append(dict(id="e02-double", property="E02", file="include/eni/eni.h", old="    uint64_t gas = functor->getGas();                           \\", new="    double gas = functor->getGas();                             \\",
  needs="a price above 2^53", breaks="High prices are rounded.",
  demo=OP + '''static uint64_t g;
struct X : eni::EniBase { X(const std::string& s) : eni::EniBase(s) {} bool parse(const json::Array&) override { return true; } eni::Gas gas() const override { return g; } bool run(json::Array&) override { return true; } };
ENI_C_INTERFACE(xx, X)
int main() { for (uint64_t v : {0ull, 1ull, 1ull << 53, (1ull << 53) + 1, (1ull << 62) + 3}) { g = v; char a[] = "[]"; uint64_t* p = xx_gas(a); check(*p == v, "price"); free(p); } return bad; }'''))
seeds.append(dict(id="c04-long-salt", property="C04", file="tools/eni_scrypt/scrypt.cpp", old="HMAC_SHA256_Update(HMAC_SHA256_CTX *ctx, const void *in, size_t len)", new="HMAC_SHA256_Update(HMAC_SHA256_CTX *ctx, const void *in, uint32_t len)",
  needs="a salt of 4 GiB or more", breaks="The length of the salt is cut to 32 bits.",
  demo='''#include <eni_scrypt/scrypt.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstring>
int main() { size_t n = (1ull << 32) + 3; uint8_t* p = (uint8_t*)mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 2; uint8_t a[32], b[32]; PBKDF2_SHA256(p, 8, p, n, 1, a, 32); PBKDF2_SHA256(p, 8, p, 3, 1, b, 32); if (!memcmp(a, b, 32)) { puts("wrong: salts of different length give the same key"); return 1; } return 0; }''',
  extra='"$repo/tools/eni_scrypt/scrypt.cpp"'))
seeds.append(dict(id="c03-reuse", property="C03", file="tools/eni_scrypt/scrypt.cpp", old="		memcpy(&V[i * 32], X, 128);\n", new="		if (i || V[0] != X[0])\n			memcpy(&V[i * 32], X, 128);\n",
  needs="working memory that starts with the first word of the block and continues with something else", breaks="The first block is not stored if its first word already lies there.",
  demo='''#include <eni_scrypt/scrypt.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
static char pad[SCRYPT_SCRATCHPAD_SIZE];
int main() { char in[80] = {1, 2, 3}, a[32], b[32]; memset(pad, 0, sizeof pad); scrypt_1024_1_1_256_sp_generic(in, a, pad); char* v = (char*)(((uintptr_t)pad + 63) & ~(uintptr_t)63); memset(v + 4, 0x5a, 124); scrypt_1024_1_1_256_sp_generic(in, b, pad); if (memcmp(a, b, 32)) { puts("wrong: the result depends on the working memory"); return 1; } return 0; }''',
  extra='"$repo/tools/eni_scrypt/scrypt.cpp"'))
TY = '#include <eni_types.h>\n' + OP
seeds.append(dict(id="y02-copied", property="Y02", file="include/eni/diagnostic/Exception.h", old='''class Exception<ID, std::length_error> : private internal::ExceptionBase<ID>,
                                         public std::length_error
{
private:
  using internal::ExceptionBase<ID>::ErrStr;

public:
  Exception() : std::length_error(ErrStr) { }

  const char* what() const noexcept override {
    return ErrStr.c_str();
  }
};''', new='''class Exception<ID, std::length_error> : private internal::ExceptionBase<ID>,
                                         public std::length_error
{
private:
  using internal::ExceptionBase<ID>::ErrStr;

public:
  Exception() : std::length_error(ErrStr.substr(ErrStr.find(':') + 1)) { }

  const char* what() const noexcept override {
    return ErrStr.c_str();
  }
};''',
  needs="a length error caught by value, as a copy of its base", breaks="A copy of the error's standard part has another message.",
  demo='''#include <adt/Vector.h>
#include <stdexcept>
#include <cstdio>
#include <cstring>
int main() { eni::Vector<int> v; int bad = 0; try { v.reserve((size_t)-1); bad = 1; } catch (std::length_error& e) { if (strcmp(e.what(), "invalid reserve: exceed maximum size")) { puts("wrong message"); bad = 1; } } try { v.reserve((size_t)-1); bad = 1; } catch (std::length_error e) { if (strcmp(e.what(), "invalid reserve: exceed maximum size")) { printf("wrong message of a copy: %s\\n", e.what()); bad = 1; } } return bad; }'''))
seeds.append(dict(id="h01-underscore", property="H01", file="include/eni/adt/StringHasher.h", old="      if ('_' == cur_char) {\n        result |= (1 << 26);\n        continue;\n      }", new="      if ('_' == cur_char) {\n        if (!idx || !isdigit(pString[idx - 1])) //< part of the number\n          result |= (1 << 26);\n        continue;\n      }",
  needs="a string whose underscores all follow digits, and a part of it that begins with the underscore", breaks="A part that begins with an underscore is ruled out for a string that has it after a digit.",
  demo='''#include <stdint.h>
#include <cstring>
#include <string>
#include <adt/StringHasher.h>
#include <cstdio>
typedef eni::internal::StringHasher<eni::internal::ES> H;
int main() { H h; const char* whole[] = {"ab_c", "a_b_c", "_x", "ab_", "a__", "v1_2"}; int bad = 0; for (const char* w : whole) { std::string s(w); for (size_t i = 0; i < s.size(); ++i) for (size_t n = 0; i + n <= s.size(); ++n) if (!H::may_include(h(s.substr(i, n)), h(s))) { printf("wrong: %s in %s is ruled out\\n", s.substr(i, n).c_str(), w); bad = 1; } } return bad; }'''))
