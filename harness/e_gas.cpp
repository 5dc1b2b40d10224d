// E06: the price of every accepted argument list over the bounded space, by
// the C entry point and by the object under every order of gas and run.
#include "ops.hpp"
#include <eni.h>
#include <eni_crypto/eni_crypto.h>
#include <eni_scrypt/eni_scrypt.h>
#include REVERSE_SRC
using std::string;
using namespace ops;
extern "C" { uint64_t* scrypt_gas(char*); uint64_t* rsa_encrypt_gas(char*); uint64_t* rsa_decrypt_gas(char*); }

struct H : mc::Harness {
  const char* rule() override { return "operation x length (and content) of its arguments x order of gas and run requests; distinct by case"; }
  double hangSeconds() override { return 60; }
  struct Key { string name, pub, priv; size_t size; };
  std::vector<Key> keys;
  // keys of any size: pricing only reads them, so the numbers need not make sense
  static string der(int tag, const string& body) {
    string r(1, (char)tag), l;
    if (body.size() < 128) return r + (char)body.size() + body;
    for (size_t n = body.size(); n; n >>= 8) l.insert(l.begin(), (char)n);
    return r + (char)(0x80 + l.size()) + l + body;
  }
  static string number(size_t bits) {                  // odd, of that many bits
    string b((bits + 7) / 8, (char)0xa5);
    b[0] = (char)(((bits - 1) % 8 ? 0x15 & ((1 << (bits - 1) % 8) - 1) : 0) | 1 << (bits - 1) % 8);
    b.back() |= 1;
    if (b[0] & 0x80) b.insert(b.begin(), 0);
    return der(2, b);
  }
  static string pem(const string& what, const string& d) {
    static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    string r = "-----BEGIN " + what + "-----\n", l;
    for (size_t i = 0; i < d.size(); i += 3) {
      unsigned v = (unsigned char)d[i] << 16 | (i + 1 < d.size() ? (unsigned char)d[i + 1] << 8 : 0) | (i + 2 < d.size() ? (unsigned char)d[i + 2] : 0);
      l += a[v >> 18]; l += a[v >> 12 & 63]; l += i + 1 < d.size() ? a[v >> 6 & 63] : '='; l += i + 2 < d.size() ? a[v & 63] : '=';
      if (l.size() == 64) { r += l + "\n"; l.clear(); }
    }
    return r + (l.empty() ? "" : l + "\n") + "-----END " + what + "-----\n";
  }
  static string oddPub(size_t bits) {
    string id = der(0x30, string("\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00", 13));
    return pem("PUBLIC KEY", der(0x30, id + der(3, string(1, 0) + der(0x30, number(bits) + der(2, "\x03")))));
  }
  static string oddPriv(size_t bits) {
    string h = number(bits / 2 + 1);
    return pem("RSA PRIVATE KEY", der(0x30, der(2, string(1, 0)) + number(bits) + der(2, "\x03") + number(bits) + h + h + h + h + h));
  }
  void init() override {
    load();
    for (int b : {512, 513, 520, 768, 1023, 1024, 1025, 2048, 4096})
      for (int e : {3, 65537}) {
        if (b == 4096 && e == 3) continue;
        string n = mc::fmt("k%d-%d", b, e);
        keys.push_back({n, key(n + ".pub"), key(n + (e == 3 ? ".priv" : ".p8")), (size_t)(b + 7) / 8});
      }
  }
  eni::EniBase* make(int op, const string& t) {
    switch (op) {
      case OpReverse: return new ::Reverse(t);
      case OpScrypt: return new ::Scrypt(t);
      case OpEnc: return new eni_crypto::RSAEncrypt(t);
      default: return new eni_crypto::RSADecrypt(t);
    }
  }
  void price(mc::Explorer& ex, int op, const string& t, uint64_t want, int runs, const string& what) {
    uint64_t g = gas(op, t);
    if (g != want) mc::fail(mc::fmt("%s: price is %llu instead of %llu", what.c_str(), (unsigned long long)g, (unsigned long long)want));
    ex.transitions();
    // all orders of gas and run requests of up to this length
    for (int len = 1; len <= runs; ++len)
      for (int m = 0; m < 1 << len; ++m) {
        std::unique_ptr<eni::EniBase> o(make(op, t));
        for (int i = 0; i <= len; ++i) {
          if (i < len && (m >> i & 1)) { ::free(o->start()); continue; }
          g = o->getGas();
          if (g != want) mc::fail(mc::fmt("%s: price is %llu instead of %llu after %d requests (order %x)", what.c_str(), (unsigned long long)g, (unsigned long long)want, i, m));
          ex.transitions();
        }
        ex.traces();
      }
  }
  void exec(mc::Explorer& ex, const string& c) override {
    int op, k = 0, style = 0, runs = 0;
    long n;
    sscanf(c.c_str(), "%d %ld %d %d %d", &op, &n, &k, &style, &runs);
    string t, what;
    uint64_t want;
    if (op >= 100) {
      op -= 100;
      t = list({quote(op == OpEnc ? oddPub(n) : oddPriv(n)), "\"00\""});
      price(ex, op, t, 10ull * ((n + 7) / 8), runs, mc::fmt("%s with a key of %ld bits", op == OpEnc ? "rsa_encrypt" : "rsa_decrypt", n));
      ex.traces();
      ex.state(mc::hash(c));
      return;
    }
    switch (op) {
      case OpReverse: {
        string s;
        for (long i = 0; i < n; ++i) s += style == 0 ? 'a' : style == 1 ? (char)(i * 37 + 1) : style == 2 ? "\"\\\n\x01"[i % 4] : (char)0x80;
        t = list({quote(s)});
        if (style == 3) { t = "[\""; for (long i = 0; i < n; ++i) t += i % 2 ? "\\u0000" : "\\/"; t += "\", 1]"; }
        want = 10ull * n;
        what = mc::fmt("reverse of %ld bytes", n);
        break;
      }
      case OpScrypt: {
        string s;
        const char* d = style == 0 ? "0" : style == 1 ? "0123456789abcdef" : style == 2 ? "ABCDEF9" : "f";
        for (long i = 0; i < n; ++i) s += d[i % strlen(d)];
        t = list({quote(s)});
        want = 10ull * ((n + 1) / 2);
        what = mc::fmt("scrypt of %ld digits", n);
        break;
      }
      case OpEnc: {
        string s;
        for (long i = 0; i < n; ++i) s += style == 0 ? 'a' : style == 1 ? (char)0xff : '\0';
        t = list({quote(keys[k].pub), quote(s)});
        want = 10ull * keys[k].size;
        what = mc::fmt("rsa_encrypt of %ld bytes with %s", n, keys[k].name.c_str());
        break;
      }
      default: {
        string s;
        for (long i = 0; i < n; ++i) s += style == 0 ? "00" : style == 1 ? "ff" : "3A";
        t = list({quote(keys[k].priv), quote(s)});
        want = 10ull * keys[k].size;
        what = mc::fmt("rsa_decrypt of %ld bytes with %s", n, keys[k].name.c_str());
        break;
      }
    }
    price(ex, op, t, want, runs, what);
    ex.traces();
    ex.state(mc::hash(c));
  }
  void enumerate(mc::Explorer& ex) override {
    std::set<long> n;
    for (long i = 0; i <= ex.tier(1200, 20000); ++i) n.insert(i);
    for (int k = 11; k <= ex.tier(20, 24); ++k) for (int d = -1; d <= 1; ++d) n.insert((1l << k) + d);
    for (long p : {6553, 6554, 13107, 32767 / 10, 429496 / 10, 100000}) n.insert(p);
    for (long i : n) for (int s = 0; s < 4; ++s) if (i < 70000 || s == 0) ex.all(mc::fmt("%d %ld 0 %d %d", OpReverse, i, s, i < 300 ? 3 : 0));
    for (long i = 0; i <= 160; ++i) for (int s = 0; s < 4; ++s) ex.all(mc::fmt("%d %ld 0 %d %d", OpScrypt, i, s, i < 20 || i > 150 || s == 1 ? ex.tier(2, 3) : 0));
    std::set<long> bits;
    for (long b = 9; b <= ex.tier(1100, 5000); ++b) bits.insert(b);
    for (int k = 11; k <= ex.tier(20, 22); ++k) for (int d : {-9, -8, -7, -1, 0, 1, 8}) bits.insert((1l << k) + d);
    for (long b : bits) for (int op : {OpEnc, OpDec}) ex.all(mc::fmt("%d %ld", 100 + op, b));
    for (int k = 0; k < (int)keys.size(); ++k)
      for (int op : {OpEnc, OpDec})
        for (int s = 0; s < 3; ++s)
          for (long i = 0; i <= (long)keys[k].size + 70; ++i) {
            bool near = i < 3 || (i >= (long)keys[k].size - 1 && i <= (long)keys[k].size + 1);
            if (!near && !ex.thorough() && (s || (keys[k].size > 130 && i % 16))) continue;
            ex.all(mc::fmt("%d %ld %d %d %d", op, i, k, s, near && keys[k].size < 260 ? ex.tier(2, 3) : 0));
          }
  }
};
MC_MAIN(H)
