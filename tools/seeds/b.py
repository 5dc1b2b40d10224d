OP = '''#include <stdint.h>
#include <string.h>
#include <string>
#include <eni.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
'''
SO = '''#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <stdint.h>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
typedef void* (*fn)(char*);
static fn get(const std::string& lib, const char* sym) { void* h = dlopen(lib.c_str(), RTLD_NOW); if (!h) { puts(dlerror()); exit(2); } fn f = (fn)dlsym(h, sym); if (!f) exit(2); return f; }
static std::string run(fn f, std::string a) { char* r = (char*)f(&a[0]); if (!r) return "(none)"; std::string s = r; free(r); return s; }
static uint64_t gas(fn f, std::string a) { uint64_t* r = (uint64_t*)f(&a[0]); uint64_t g = *r; free(r); return g; }
'''
SCR = 'std::string lib = std::string(av[1]) + "/_build/tools/eni_scrypt/eni_scrypt.so";'
CRY = 'std::string lib = std::string(av[1]) + "/_build/tools/eni_crypto/eni_crypto.so";'
PUB = '''#include <fstream>
#include <sstream>
static std::string pem(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); std::string o; for (char c : s.str()) if (c == '\\n') o += "\\\\n"; else o += c; return o; }
'''
seeds.append(dict(id="e01-reparse", property="E01", file="include/eni/eni.h", old="      m_Parsed = true;", new="      m_Parsed = m_ParseSuccess;",
  needs="a second question to an operation that refused its arguments", breaks="An operation whose arguments were refused parses them again at each question.",
  demo=OP + '''struct Op : eni::EniBase { int n = 0; Op() : EniBase("[1]") {} bool parse(const json::Array&) override { return ++n > 1; } eni::Gas gas() const override { return 7; } bool run(json::Array&) override { return true; } };
int main() { Op o; check(o.getGas() == 1500, "price of a refused operation"); check(o.getGas() == 1500, "price asked again"); char* r = o.start(); check(!r, "no result"); check(o.n == 1, "parsed once"); return bad; }'''))
seeds.append(dict(id="e01-results-kept", property="E01", file="include/eni/eni.h", old="    if (!run(m_RetVals.asArray()))\n      return nullptr;", new="    if (!run(m_RetVals.asArray()) && m_RetVals.toArray().empty())\n      return nullptr;",
  needs="a run that fails after it has added a result", breaks="A failing run still delivers the results it added before it failed.",
  demo=OP + '''struct Op : eni::EniBase { bool part; Op(bool p) : EniBase("[1]"), part(p) {} bool parse(const json::Array&) override { return true; } eni::Gas gas() const override { return 7; } bool run(json::Array& r) override { if (part) r.push_back(json::Value(4)); return false; } };
int main() { Op a(false), b(true); check(!a.start(), "no result"); check(!b.start(), "no result after a partial run"); return bad; }'''))
seeds.append(dict(id="e02-cut", property="E02", file="include/eni/eni.h", old="    return ::strdup(os.str().c_str());", new="    std::string text = os.str();\n    return ::strndup(text.data(), text.size() < 4096 ? text.size() : 4096);",
  needs="a result longer than 4096 characters", breaks="Long results are cut off.",
  demo=OP + '''struct Op : eni::EniBase { size_t n; Op(size_t k) : EniBase("[1]"), n(k) {} bool parse(const json::Array&) override { return true; } eni::Gas gas() const override { return 7; } bool run(json::Array& r) override { r.push_back(json::Value(std::string(n, 'x'))); return true; } };
int main() { for (size_t n : {5, 4000, 5000, 70000}) { Op a(n); char* r = a.start(); check(r && strlen(r) >= n + 4 && strchr(r, ']'), "whole result"); free(r); } return bad; }'''))
seeds.append(dict(id="e02-gas-range", property="E02", file="include/eni/eni.h", old="    uint64_t gas = functor->getGas();                           \\", new="    unsigned gas = functor->getGas();                           \\",
  needs="a price of 2^32 or more", breaks="The exported price is cut to 32 bits.",
  demo=OP + '''struct Op : eni::EniBase { Op(const char* a) : EniBase(a) {} bool parse(const json::Array&) override { return true; } eni::Gas gas() const override { return 5000000007ull; } bool run(json::Array& r) override { return true; } };
ENI_C_INTERFACE(op, Op)
int main() { char a[] = "[1]"; uint64_t* g = op_gas(a); check(*g == 5000000007ull, "price"); free(g); return bad; }'''))
seeds.append(dict(id="e03-scrypt-input", property="E03", file="tools/eni_scrypt/eni_scrypt.cpp", edits=[("tools/eni_scrypt/eni_scrypt.cpp", "  char input[80];\n  memset(input, 0, 80);", "  static char input[80];\n  memset(input, 0, (m_Str.length() + 1) / 2);")],
  needs="a short scrypt input after a longer one in the same process", breaks="The scrypt result depends on what was hashed before.",
  demo=SO + '''int main(int, char** av) { ''' + SCR + ''' fn f = get(lib, "scrypt_run"); std::string a = run(f, "[\\"0102\\"]"); run(f, "[\\"0102030405\\"]"); std::string b = run(f, "[\\"0102\\"]"); check(a == b, "same answer twice"); return bad; }'''))
seeds.append(dict(id="e03-rsa-pad", property="E03", file="tools/eni_crypto/eni_crypto.cpp", count=2, old="      message.append(size - message.length(), '\\0');", new="      message.reserve(size);",
  needs="a message shorter than the key, in memory that is not zero", breaks="RSA encrypts bytes of memory behind the message.",
  demo=SO + PUB + '''#include <unistd.h>
int main(int n, char** av) { ''' + CRY + ''' fn f = get(lib, "rsa_encrypt_run"); std::string k = pem(std::string(av[1]) + "/tools/eni_crypto/test/data/pub.pem"); if (n > 2) { puts(run(f, "[\\"" + k + "\\",\\"a hello message of some length\\"]").c_str()); return 0; } std::string out[2]; for (int i = 0; i < 2; ++i) { std::string c = std::string("GLIBC_TUNABLES=glibc.malloc.tcache_count=0:glibc.malloc.perturb=") + (i ? "77 " : "170 ") + av[0] + " " + av[1] + " x"; FILE* p = popen(c.c_str(), "r"); char b[5000]; size_t r; while ((r = fread(b, 1, sizeof b, p)) > 0) out[i].append(b, r); check(pclose(p) == 0, "ran"); } check(out[0].size() > 100 && out[0] == out[1], "same answer"); return bad; }'''))
seeds.append(dict(id="e04-scratchpad", property="E04", file="tools/eni_scrypt/scrypt.cpp", old="\tchar scratchpad[SCRYPT_SCRATCHPAD_SIZE];\n", new="\tstatic char scratchpad[SCRYPT_SCRATCHPAD_SIZE];\n",
  needs="two threads running scrypt at the same time", breaks="Concurrent scrypt operations share their working memory.",
  demo='#include <thread>\n#include <vector>\n#include <atomic>\n' + SO + '''int main(int, char** av) { ''' + SCR + ''' fn f = get(lib, "scrypt_run"); std::vector<std::string> in, want; for (int i = 0; i < 8; ++i) { char b[40]; sprintf(b, "[\\"%08x\\"]", i * 77777); in.push_back(b); want.push_back(run(f, b)); } std::atomic<int> wrong(0); std::vector<std::thread> t; for (int i = 0; i < 8; ++i) t.emplace_back([&, i] { for (int k = 0; k < 2000; ++k) if (run(f, in[i]) != want[i]) ++wrong; }); for (auto& x : t) x.join(); check(!wrong, "answers of concurrent operations"); return bad; }'''))
seeds.append(dict(id="e04-parse-buffer", property="E04", file="include/eni/json/Parser.h", old="    vector<char> str;\n    bool started = false;", new="    static vector<char> str;\n    str.clear();\n    bool started = false;",
  needs="two threads parsing numbers at the same time", breaks="Parsers in different threads share the digits of the number being read.",
  demo='#include <thread>\n#include <vector>\n#include <atomic>\n#include <json/Parser.h>\n#include <json/Array.h>\n' + OP + '''int main() { std::atomic<int> wrong(0); std::vector<std::thread> t; for (int i = 1; i < 9; ++i) t.emplace_back([&, i] { std::string s = "[" + std::string(70, '0' + i) + "," + std::to_string(i) + "]"; eni::s256 w(std::string(70, '0' + i)); for (int k = 0; k < 20000; ++k) { json::Parser p(s); if (!p || p.getRoot()[0].toInteger() != w) { ++wrong; break; } } }); for (auto& x : t) x.join(); check(!wrong, "numbers parsed concurrently"); return bad; }'''))
seeds.append(dict(id="e04-null-value", property="E04", file="lib/json/Value.cpp", old="const Value& Value::operator[](int i) const\n{\n  if (m_Type == ARRAY) {\n    return (*m_Value.array_p)[i];\n  }\n  return g_NullValue;",
  new="const Value& Value::operator[](int i) const\n{\n  if (m_Type == ARRAY) {\n    g_NullValue = (*m_Value.array_p)[i];\n  }\n  return g_NullValue;",
  needs="an element of one value kept while one of another value is asked for", breaks="Element access copies into one shared value, so values of different operations overwrite each other.",
  demo='#include <json/Parser.h>\n#include <json/Array.h>\n' + OP + '''int main() { json::Array a, b; a.push_back(json::Value(1)); b.push_back(json::Value(2)); json::Value va(a), vb(b); const json::Value& x = ((const json::Value&)va)[0]; const json::Value& y = ((const json::Value&)vb)[0]; check(x.toInteger() == 1, "first"); check(y.toInteger() == 2, "second"); return bad; }'''))
seeds.append(dict(id="e05-key-check", property="E05", edits=[("tools/eni_crypto/eni_crypto.cpp", '''  m_Key = rsa::create_privkey(pArgs[0].toString());
  if (nullptr == m_Key)
    return false;
  if (!hex2str(pArgs[1].toString(), m_Msg))
    return false;''', '''  m_Key = rsa::create_privkey(pArgs[0].toString());
  if (!hex2str(pArgs[1].toString(), m_Msg))
    return nullptr != m_Key;''')],
  needs="a text that is no private key together with a valid message", breaks="Text that is no key is accepted, and the operation crashes.",
  demo=SO + '''int main(int, char** av) { ''' + CRY + ''' check(gas(get(lib, "rsa_decrypt_gas"), "[\\"not a key\\",\\"zz\\"]") == 1500, "no key, no message"); check(gas(get(lib, "rsa_decrypt_gas"), "[\\"not a key\\",\\"00\\"]") == 1500, "no key"); return bad; }'''))
seeds.append(dict(id="c03-length", property="C03", file="tools/eni_scrypt/eni_scrypt.cpp", old="  if (m_Str.length() > 160)\n      return false;", new="  if ((unsigned char)m_Str.length() > 160)\n      return false;",
  needs="a scrypt input of 256 to 416 digits", breaks="Overlong scrypt input is accepted and overwrites the stack.",
  demo=SO + '''int main(int, char** av) { ''' + SCR + ''' fn g = get(lib, "scrypt_gas"); for (int n : {161, 200, 255, 256, 300, 512}) check(gas(g, "[\\"" + std::string(n, '1') + "\\"]") == 1500, "overlong input"); return bad; }'''))
seeds.append(dict(id="e06-rsa-size", property="E06", file="tools/eni_crypto/eni_crypto.cpp", edits=[("tools/eni_crypto/eni_crypto.cpp", """eni::Gas RSAEncrypt::gas() const
{
  int size = ::RSA_size(m_Key);""", """eni::Gas RSAEncrypt::gas() const
{
  int size = ::RSA_bits(m_Key) / 8;""")],
  needs="a key whose length in bits is no multiple of 8", breaks="The last, partial byte of an RSA key is not charged.",
  demo=SO + PUB + '''int main(int, char** av) { ''' + CRY + ''' fn g = get(lib, "rsa_encrypt_gas"); check(gas(g, "[\\"" + pem("pub1020.pem") + "\\",\\"m\\"]") == 1280, "1020 bits"); return bad; }''', pre='openssl genrsa 1020 2>/dev/null >"$tmp/k.pem" && openssl rsa -in "$tmp/k.pem" -pubout 2>/dev/null >"$tmp/pub1020.pem" || exit 2'))
seeds.append(dict(id="c01-keep", property="C01", file="tools/eni_crypto/eni_crypto.cpp", old="  pStr.clear();\n", new="",
  needs="a destination that already has contents", breaks="Decoding appends to what the destination held.",
  demo='#include <eni_crypto/eni_crypto.h>\n' + OP + '''int main() { std::string s; check(eni_crypto::hex2str("4142", s) && s == "AB", "decoded"); check(eni_crypto::hex2str("43", s) && s == "C", "decoded again"); return bad; }''',
  extra='"$repo/tools/eni_crypto/eni_crypto.cpp"'))
seeds.append(dict(id="c01-newline", property="C01", file="tools/eni_crypto/eni_crypto.cpp", old="""  if (0 != (pHex.length() % 2))
    return false;
  pStr.clear();
  std::string::const_iterator ic, end = pHex.end();""", new="""  std::string::size_type size = pHex.length();
  if (0 != size && '\\n' == pHex[size - 1])
    --size;
  if (0 != (size % 2))
    return false;
  pStr.clear();
  std::string::const_iterator ic, end = pHex.begin() + size;""",
  needs="an odd number of characters of which the last one is a line feed", breaks="Such a text is read as if the line feed were not there.",
  demo='#include <eni_crypto/eni_crypto.h>\n' + OP + '''int main() { std::string s; check(eni_crypto::hex2str("4142", s) && s == "AB", "even"); check(!eni_crypto::hex2str("414", s), "odd"); check(!eni_crypto::hex2str("4142\\n", s), "odd"); return bad; }''',
  extra='"$repo/tools/eni_crypto/eni_crypto.cpp"'))
seeds.append(dict(id="c02-zero-byte", property="C02", edits=[("tools/eni_crypto/eni_crypto.cpp", '''  int len = ::RSA_private_encrypt(size,
    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
    RSA_NO_PADDING);
  if (-1 == len)
    return false;
  pResult.assign(reinterpret_cast<char*>(encrypted), len);''', '''  int len = ::RSA_private_encrypt(size,
    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
    RSA_NO_PADDING);
  if (-1 == len)
    return false;
  pResult = reinterpret_cast<char*>(encrypted);
  pResult.resize(len);''')],
  needs="a signature with a zero byte in it", breaks="What follows a zero byte of a private encryption is lost.",
  demo='#include <eni_crypto/eni_crypto.h>\n#include <fstream>\n#include <sstream>\n' + OP + '''static std::string rd(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
int main(int, char** av) { using namespace eni_crypto; std::string d = std::string(av[1]) + "/tools/eni_crypto/test/data/"; RSA* pub = rsa::create_pubkey(rd(d + "pub.pem")); RSA* prv = rsa::create_privkey(rd(d + "priv.pem")); for (int i = 0; i < 60; ++i) { std::string m = "message " + std::to_string(i), c, r; check(rsa::priv_encrypt(*prv, m, c), "encrypted"); check(rsa::pub_decrypt(*pub, c, r) && r == m, "read back"); } return bad; }''',
  extra='"$repo/tools/eni_crypto/eni_crypto.cpp"'))
seeds.append(dict(id="c03-odd-full", property="C03", file="tools/eni_scrypt/eni_scrypt.cpp", old="      m_Str.insert(0, 1, '0');", new="      m_Str.insert(m_Str.length() > 80 ? m_Str.length() - 1 : 0, 1, '0');",
  needs="an odd number of digits greater than 80", breaks="The missing digit of a long odd input is put before the last digit, not before the first.",
  demo=SO + '''int main(int, char** av) { ''' + SCR + ''' fn f = get(lib, "scrypt_run"); for (int n : {1, 3, 79, 81, 159}) { std::string d; for (int i = 0; i < n; ++i) d += "123456789abcdef"[i % 15]; check(run(f, "[\\"" + d + "\\"]") == run(f, "[\\"0" + d + "\\"]"), "odd input"); } return bad; }'''))
seeds.append(dict(id="c04-key64", property="C04", file="tools/eni_scrypt/scrypt.cpp", old="\tif (Klen > 64) {", new="\tif (Klen >= 64) {",
  needs="a password of exactly 64 bytes", breaks="A password of one block is hashed although it is used as it is.",
  demo='#include <eni_scrypt/scrypt.h>\n#include <openssl/evp.h>\n' + OP + '''int main() { for (int n : {10, 63, 64, 65}) { std::string p(n, 'p'); uint8_t a[40], b[40]; PBKDF2_SHA256((const uint8_t*)p.data(), n, (const uint8_t*)"salt", 4, 2, a, 40); PKCS5_PBKDF2_HMAC(p.data(), n, (const unsigned char*)"salt", 4, 2, EVP_sha256(), 40, b); check(!memcmp(a, b, 40), "derived key"); } return bad; }''',
  extra='"$repo/tools/eni_scrypt/scrypt.cpp"'))
seeds.append(dict(id="c04-last-block", property="C04", file="tools/eni_scrypt/scrypt.cpp", old="\t\t\tfor (k = 0; k < 32; k++)\n\t\t\t\tT[k] ^= U[k];", new="\t\t\tfor (k = 0; k < 32 && i * 32 + k + 1 < dkLen; k++)\n\t\t\t\tT[k] ^= U[k];",
  needs="several rounds, and a length that is not a multiple of 32", breaks="The last byte of the key misses the rounds after the first.",
  demo='#include <eni_scrypt/scrypt.h>\n#include <openssl/evp.h>\n' + OP + '''int main() { for (int c : {1, 2, 3}) for (int n : {32, 40, 64}) { uint8_t a[64], b[64]; PBKDF2_SHA256((const uint8_t*)"pw", 2, (const uint8_t*)"salt", 4, c, a, n); PKCS5_PBKDF2_HMAC("pw", 2, (const unsigned char*)"salt", 4, c, EVP_sha256(), n, b); check(!memcmp(a, b, n), "derived key"); } return bad; }''',
  extra='"$repo/tools/eni_scrypt/scrypt.cpp"'))
CLI = '''#!/bin/bash
# exit 0: the property holds on this input
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export LD_LIBRARY_PATH="$repo/_build"
run="$repo/_build/tools/eni_cli/eni_run"; gas="$repo/_build/tools/eni_cli/eni_gas"
so="$repo/_build/tools/eni_scrypt/eni_scrypt.so"
bad=0
'''
seeds.append(dict(id="t01-dash", property="T01", file="tools/eni_cli/optParser.cpp", old="      if ((2 == len) && ('-' == arg[1])) { //< double-dash", new="      if ((2 <= len) && ('-' == arg[1])) { //< double-dash",
  needs="a long option followed by another option", breaks="A long option ends the options, so a later option is taken for an argument.",
  script=CLI + '''"$gas" --verbose -x "$so" scrypt '["00"]' >"$tmp/o" 2>/dev/null || bad=1
[ "$(cat "$tmp/o")" = 10 ] || bad=1
"$gas" -- "$so" scrypt '["00"]' >"$tmp/o" 2>/dev/null || bad=1
exit $bad
'''))
seeds.append(dict(id="t01-dup", property="T01", file="tools/eni_cli/optParser.cpp", old="      switch (++posCount) {", new="      switch (++posCount < 3 ? posCount : 3) {",
  needs="more than three arguments", breaks="Surplus arguments replace the parameters and are not refused.",
  script=CLI + '''"$gas" "$so" scrypt '["00"]' >"$tmp/o" 2>/dev/null || bad=1
"$gas" "$so" scrypt '["00"]' '["0102"]' >"$tmp/o" 2>/dev/null && bad=1
exit $bad
'''))
seeds.append(dict(id="t01-null-result", property="T01", file="tools/eni_cli/eni_run.cpp", old="  NULL_RETURN(str, ExitRunError);\n", new="  if (NULL == str) str = ::strdup(\"[]\");\n",
  needs="an operation that refuses its arguments", breaks="eni_run reports success with an empty result for a refused operation.",
  script=CLI + '''"$run" "$so" scrypt '["00"]' >"$tmp/o" 2>/dev/null || bad=1
"$run" "$so" scrypt '["zz"]' >"$tmp/o" 2>/dev/null && bad=1
exit $bad
'''))
TY = '#include <eni_types.h>\n' + OP
seeds.append(dict(id="y01-width", property="Y01", edits=[("include/eni/eni_types.h", '''using u160 = boost::multiprecision::number<
  boost::multiprecision::cpp_int_backend<160, 160,''', '''using u160 = boost::multiprecision::number<
  boost::multiprecision::cpp_int_backend<160, 192,''')],
  needs="an address sum of 2^160 or more", breaks="Addresses are wider than 160 bits.",
  demo=TY + '''int main() { eni::u160 a = 0; a = ~a; a += 1; check(a == 0, "wraps"); eni::u160 b(1); b <<= 159; b += b; check(b == 0, "doubles to zero"); return bad; }''', compile_lib=True))
EX = '''#include <stdint.h>
#include <string.h>
#include <string>
#include <diagnostic/Exception.h>
#include <adt/Vector.h>
#include <adt/StringMap.h>
''' + OP
seeds.append(dict(id="y02-length", property="Y02", edits=[("include/eni/diagnostic/Exception.h", '''class Exception<ID, std::length_error> : private internal::ExceptionBase<ID>,
                                         public std::length_error
{
private:
  using internal::ExceptionBase<ID>::ErrStr;

public:
  Exception() : std::length_error(ErrStr) { }''', '''class Exception<ID, std::length_error> : private internal::ExceptionBase<ID>,
                                         public std::logic_error
{
private:
  using internal::ExceptionBase<ID>::ErrStr;

public:
  Exception() : std::logic_error(ErrStr) { }''')],
  needs="a length error caught as std::length_error", breaks="Length errors are not std::length_error.",
  demo=EX + '''int main() { int got = 0; try { throw eni::LengthError<eni::InvalidVectorSize>(); } catch (std::length_error& e) { got = 1; check(!strcmp(e.what(), "invalid reserve: exceed maximum size"), "message"); } catch (...) { got = 2; } check(got == 1, "category"); return bad; }'''))
seeds.append(dict(id="y02-what", property="Y02", edits=[("include/eni/diagnostic/Exception.h", '''  Exception() : std::out_of_range(ErrStr) { }

  const char* what() const noexcept override {
    return ErrStr.c_str();
  }''', '''  Exception() : std::out_of_range("") { }

  const char* what() const throw() {
    return std::out_of_range::what()[0] ? ErrStr.c_str() : "";
  }''')],
  needs="the message of an out-of-range error", breaks="Out-of-range errors carry no message.",
  demo=EX + '''int main() { eni::StringMap<int> m; try { m.at("k"); check(false, "thrown"); } catch (std::out_of_range& e) { check(!strcmp(e.what(), "invalid access: key does not exist"), "message"); } return bad; }'''))
HH = '#include <stdint.h>\n#include <cstring>\n#include <string>\n#include <adt/StringHasher.h>\n' + OP + 'typedef eni::internal::StringHasher<eni::internal::ES> H;\n'
seeds.append(dict(id="h01-toggle", property="H01", file="include/eni/adt/StringHasher.h", old="        result |= (1 << 27);", new="        result ^= (1 << 27);",
  needs="a string with an even number of digits", breaks="Two digits in a string cancel out, and real substrings are ruled out.",
  demo=HH + '''int main() { H h; check(H::may_include(h("1"), h("a1b")), "one digit"); check(H::may_include(h("1"), h("a12b")), "two digits"); return bad; }'''))
seeds.append(dict(id="h01-dots", property="H01", file="include/eni/adt/StringHasher.h", old="    if (r_dot > in_dot)", new="    if (r_dot >= in_dot && in_dot > 1)",
  needs="a substring with all the dots of the string, at least two", breaks="A substring that has all the dots of the string is ruled out.",
  demo=HH + '''int main() { H h; check(H::may_include(h("a.b"), h("xa.b")), "one dot"); check(H::may_include(h("a.b.c"), h("xa.b.c")), "two dots"); return bad; }'''))
