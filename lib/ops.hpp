// ops.hpp - the bundled operations as a C client sees them.
#ifndef OPS_HPP
#define OPS_HPP
#include "mc.hpp"
#include <dlfcn.h>
namespace ops {
using std::string;
typedef uint64_t* GasFn(char*);
typedef char* RunFn(char*);
struct Lib { const char* op; const char* file; };
static const Lib Libs[] = {{"reverse", "examples/eni/eni_reverse.so"}, {"scrypt", "tools/eni_scrypt/eni_scrypt.so"},
                           {"rsa_encrypt", "tools/eni_crypto/eni_crypto.so"}, {"rsa_decrypt", "tools/eni_crypto/eni_crypto.so"},
                           {"json", "examples/eni/eni_json.so"}};
enum { OpReverse, OpScrypt, OpEnc, OpDec, OpJson, Count };
struct Op { GasFn* gas; RunFn* run; };
inline const Op& get(int i) {
  static Op o[Count];
  if (!o[i].gas) {
    const char* root = getenv("VERIF_LIBS");             // another build of the libraries
    string path = string(root ? root : REPO_BUILD) + "/" + Libs[i].file;
    void* h = dlopen(path.c_str(), RTLD_NOW);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(3); }
    o[i].gas = (GasFn*)dlsym(h, (string(Libs[i].op) + "_gas").c_str());
    o[i].run = (RunFn*)dlsym(h, (string(Libs[i].op) + "_run").c_str());
    if (!o[i].gas || !o[i].run) mc::fail(string("the operation ") + Libs[i].op + " is not exported");
  }
  return o[i];
}
inline void load() { for (int i = 0; i < Count; ++i) get(i); }

inline string quote(const string& s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20) r += mc::fmt("\\u%04x", c);
    else r += c;
  }
  return r + "\"";
}
inline string list(std::vector<string> parts) {
  string r = "[";
  for (size_t i = 0; i < parts.size(); ++i) r += (i ? "," : "") + parts[i];
  return r + "]";
}
inline string file(const string& name) {
  std::ifstream f(string(VERIF_DIR) + "/data/" + name, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  if (s.str().empty()) { fprintf(stderr, "no file %s\n", name.c_str()); _exit(3); }
  return s.str();
}
inline string key(const string& name) { return file("keys/" + name); }

/// price of an operation
inline uint64_t gas(int op, const string& text) {
  string t = text;
  uint64_t* g = get(op).gas(&t[0]);
  if (!g) mc::fail("the gas entry point answers null");
  uint64_t r = *g;
  ::free(g);
  return r;
}
/// result of an operation; false if it has none
inline bool run(int op, const string& text, string& out) {
  string t = text;
  char* p = get(op).run(&t[0]);
  out.clear();
  if (!p) return false;
  out = p;
  ::free(p);
  return true;
}
/// the decoded string of a result that is a list of one string
inline string only(const string& out) {
  size_t n = out.size();
  if (n < 4 || out[0] != '[' || out[1] != '"' || out[n - 2] != '"' || out[n - 1] != ']') mc::fail("the result is no list of one string: " + mc::esc(mc::cut(out)));
  string r;
  for (size_t i = 2; i < n - 2; ++i) {
    if (out[i] == '"') mc::fail("the result is no list of one string: " + mc::esc(mc::cut(out)));
    if (out[i] != '\\') { r += out[i]; continue; }
    char e = out[++i];
    if (e == 'u') { r += (char)strtol(out.substr(i + 1, 4).c_str(), nullptr, 16); i += 4; }
    else { const char* from = "bfnrt"; const char* to = "\b\f\n\r\t"; const char* q = strchr(from, e); r += q ? to[q - from] : e; }
    if (i >= n - 2) mc::fail("the result is no list of one string: " + mc::esc(mc::cut(out)));
  }
  return r;
}
inline string hex(const string& s) { string r; for (unsigned char c : s) r += mc::fmt("%02x", c); return r; }
} // namespace ops
#endif
