CR = "tools/eni_crypto/eni_crypto.cpp"
SC = "tools/eni_scrypt/eni_scrypt.cpp"
EH = "include/eni/eni.h"
HEAD = '''#include <stdint.h>
#include <string.h>
#include <string>
#include <eni.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
static int bad;
static void check(bool ok, const char* what) { if (!ok) { printf("wrong: %s\\n", what); bad = 1; } }
static std::string rd(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
'''
DYN = '''#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
typedef char* (*fn)(char*);
static std::string run(void* h, const char* sym, std::string a) { fn f = (fn)dlsym(h, sym); if (!f) exit(2); char* r = f(&a[0]); if (!r) return "(none)"; std::string s = r; free(r); return s; }
static std::string quote(const std::string& t) { std::string o = "\\""; for (char c : t) if (c == '\\n') o += "\\\\n"; else o += c; return o + "\\""; }
'''
seeds.append(dict(id="c02-pem-cut", property="C02", file=CR, old="""RSA* rsa::create_privkey(const std::string& pPemStr)
{
  BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);""", new="""RSA* rsa::create_privkey(const std::string& pPemStr)
{
  BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), pPemStr.length() > 4096 ? 4096 : -1);""",
  needs="a private key whose text is longer than 4096 characters (a key of 8192 bits, or one with much text before it)", breaks="Long key texts are refused.",
  demo='#include <eni_crypto/eni_crypto.h>\n' + HEAD + '''int main(int, char** av) { using namespace eni_crypto; std::string p = rd(std::string(av[1]) + "/tools/eni_crypto/test/data/priv.pem"), note; while (note.size() < 5000) note += "# a note about the key\\n"; check(rsa::create_privkey(p), "key"); check(rsa::create_privkey(note + p), "key with notes before it"); return bad; }''',
  extra='"$repo/tools/eni_crypto/eni_crypto.cpp"'))
seeds.append(dict(id="e01-failed-verdict", property="E01", file=EH, old="    if (!run(m_RetVals.asArray()))\n      return nullptr;", new="    m_ParseSuccess = run(m_RetVals.asArray());\n    if (!m_ParseSuccess)\n      return nullptr;",
  needs="an operation whose run fails, asked again for its price or to run", breaks="The price of an operation changes after a failed run, and it never runs again.",
  demo=HEAD + '''struct Op : eni::EniBase { int n = 0; Op() : EniBase("[1]") {} bool parse(const json::Array&) override { return true; } eni::Gas gas() const override { return 7; } bool run(json::Array&) override { return ++n > 1; } };
int main() { Op o; check(o.getGas() == 7, "price"); check(!o.start(), "the first run fails"); check(o.getGas() == 7, "price after it"); check(o.start() != nullptr, "the second run works"); return bad; }'''))
seeds.append(dict(id="e07-thread-key", property="E07", file=SC, old="  char input[80];\n  memset(input, 0, 80);", new="""  static pthread_key_t key;
  static int keyState = pthread_key_create(&key, [](void* p) { delete[] static_cast<char*>(p); });
  char* input = keyState ? nullptr : static_cast<char*>(pthread_getspecific(key));
  if (nullptr == input) {
    input = new char[80];
    if (!keyState)
      pthread_setspecific(key, input);
  }
  memset(input, 0, 80);""",
  needs="a thread that ends after the library it called was unloaded", breaks="The thread jumps into the unloaded library at its end.",
  demo=HEAD + DYN + '''static std::string lib;
static void* work(void*) { void* h = dlopen(lib.c_str(), RTLD_NOW); if (!h) exit(2); check(run(h, "scrypt_run", "[\\"00\\"]").size() == 68, "answer"); dlclose(h); return nullptr; }
int main(int, char** av) { lib = std::string(av[1]) + "/_build/tools/eni_scrypt/eni_scrypt.so"; pthread_t t; pthread_create(&t, nullptr, work, nullptr); pthread_join(t, nullptr); return bad; }'''))
seeds.append(dict(id="e04-lock-order", property="E04", edits=[
 (CR, "  std::string result, hexs;\n", "  std::lock_guard<std::mutex> keys(g_KeyLock), text(g_TextLock);\n  std::string hexs, result;\n"),
 (CR, "  std::string result;\n  if (!rsa::priv_decrypt(*m_Key, m_Msg, result))\n    return false;\n", "  std::lock_guard<std::mutex> text(g_TextLock), keys(g_KeyLock);\n  std::string result;\n  if (!rsa::priv_decrypt(*m_Key, m_Msg, result))\n    return false;\n"),
 (CR, "#include <sstream>\n#include <vector>\n", "#include <mutex>\n#include <sstream>\n#include <vector>\nstatic std::mutex g_KeyLock, g_TextLock;\n")],
  needs="an encryption and a decryption at the same time, each stopped between its two locks", breaks="The two wait for each other for ever.",
  demo=HEAD + DYN + '''static std::string pub, prv, a[2];
static void* h;
static void* work(void* p) { const char* sym = p ? "rsa_decrypt_run" : "rsa_encrypt_run"; for (int i = 0; i < 60000; ++i) run(h, sym, a[p ? 1 : 0]); return nullptr; }
static void late(int) { puts("wrong: the operations do not end"); fflush(stdout); _exit(1); }
int main(int, char** av) { std::string d = std::string(av[1]) + "/tools/eni_crypto/test/data/"; a[0] = "[" + quote(rd(d + "pub.pem")) + ",\\"m\\"]"; std::string c = "x"; h = dlopen((std::string(av[1]) + "/_build/tools/eni_crypto/eni_crypto.so").c_str(), RTLD_NOW); if (!h) return 2; c = run(h, "rsa_encrypt_run", a[0]); a[1] = "[" + quote(rd(d + "priv.pem")) + "," + c.substr(1, c.size() - 2) + "]"; check(run(h, "rsa_decrypt_run", a[1]) == "[\\"m\\"]", "read back"); signal(SIGALRM, late); alarm(90); pthread_t t[2]; for (long i = 0; i < 2; ++i) pthread_create(&t[i], nullptr, work, (void*)i); for (int i = 0; i < 2; ++i) pthread_join(t[i], nullptr); return bad; }'''))
seeds.append(dict(id="r01-cipher-text", property="R01", file=CR, old="  if (!hex2str(pArgs[1].toString(), m_Msg))\n    return false;", new="  if (!hex2str(pArgs[1].toString(), m_Msg)) {\n    m_Key = nullptr;\n    return false;\n  }",
  needs="a ciphertext that is not hexadecimal, with a readable key", breaks="The key is never released.",
  demo='#include <malloc.h>\n' + HEAD + DYN + '''int main(int, char** av) { std::string d = std::string(av[1]) + "/tools/eni_crypto/test/data/"; void* h = dlopen((std::string(av[1]) + "/_build/tools/eni_crypto/eni_crypto.so").c_str(), RTLD_NOW); if (!h) return 2; std::string a = "[" + quote(rd(d + "priv.pem")) + ",\\"xy\\"]"; for (int i = 0; i < 100; ++i) run(h, "rsa_decrypt_run", a); size_t u = mallinfo2().uordblks; for (int i = 0; i < 200; ++i) run(h, "rsa_decrypt_run", a); check(mallinfo2().uordblks < u + 200 * 3000, "the key is released"); return bad; }'''))
