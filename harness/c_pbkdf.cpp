// C04: the key derivation function against another one.
#include "mc.hpp"
#include <eni_scrypt/scrypt.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <sys/mman.h>
using std::string;
struct H : mc::Harness {
  const char* rule() override { return "password length x salt length x iteration count x output length x contents; distinct by case"; }
  double hangSeconds() override { return 60; }
  static std::vector<uint8_t> fill(size_t n, int style, int salt) {
    std::vector<uint8_t> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = style == 0 ? 0 : style == 1 ? 0xff : style == 2 ? (uint8_t)(i * 37 + 11 + salt) : (uint8_t)"\x36\x5c\x80\x01"[(i + salt) % 4];
    return v;
  }
  void one(mc::Explorer& ex, size_t p, size_t s, uint64_t c, size_t n, int style, int shift) {
    // exact-size heap blocks: the address sanitizer sees any byte beyond
    std::vector<uint8_t> pw = fill(p, style, 0), sa = fill(s, style, 1), want(n ? n : 1);
    if (n && PKCS5_PBKDF2_HMAC(p ? (const char*)pw.data() : "", p, s ? sa.data() : (const uint8_t*)"", s, c, EVP_sha256(), n, want.data()) != 1) _exit(3);
    std::unique_ptr<uint8_t[]> pb(new uint8_t[p + shift]), sb(new uint8_t[s + shift]), ob(new uint8_t[n + shift]);
    memset(pb.get(), 0x11, shift); memset(sb.get(), 0x22, shift); memset(ob.get(), 0xa5, n + shift);
    if (p) memcpy(pb.get() + shift, pw.data(), p);
    if (s) memcpy(sb.get() + shift, sa.data(), s);
    for (int again = 0; again < 2; ++again) {
      PBKDF2_SHA256(pb.get() + shift, p, sb.get() + shift, s, c, ob.get() + shift, n);
      string w = mc::fmt("PBKDF2_SHA256(password %zu, salt %zu, %llu iterations, %zu bytes, style %d)", p, s, (unsigned long long)c, n, style);
      for (int i = 0; i < shift; ++i) if (ob[i] != 0xa5) mc::fail(w + " writes before its output");
      for (size_t i = 0; i < n; ++i) if (ob[shift + i] != want[i]) mc::fail(w + mc::fmt(" is wrong from byte %zu", i));
      if ((p && memcmp(pb.get() + shift, pw.data(), p)) || (s && memcmp(sb.get() + shift, sa.data(), s))) mc::fail(w + " changes its input");
      ex.transitions();
      if (n > 4096) break;
    }
    ex.traces();
  }
  // lengths that need more than 31 or 32 bits: untouched pages, all zero
  void big(mc::Explorer& ex, size_t p, size_t s) {
    size_t n = std::max(p, s);
    uint8_t* z = (uint8_t*)mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (z == MAP_FAILED) _exit(3);
    ex.beat();
    uint8_t key[32], got[32], want[32];
    size_t kn = p;
    if (p > 64) { SHA256_CTX c; SHA256_Init(&c); SHA256_Update(&c, z, p); SHA256_Final(key, &c); kn = 32; } else memset(key, 0, 32);
    uint8_t pad[64], ih[32];
    SHA256_CTX c;
    SHA256_Init(&c);
    for (int i = 0; i < 64; ++i) pad[i] = 0x36 ^ (i < (int)kn && i < 32 ? key[i] : 0);
    SHA256_Update(&c, pad, 64);
    SHA256_Update(&c, z, s);
    SHA256_Update(&c, "\0\0\0\1", 4);
    SHA256_Final(ih, &c);
    SHA256_Init(&c);
    for (int i = 0; i < 64; ++i) pad[i] = 0x5c ^ (i < (int)kn && i < 32 ? key[i] : 0);
    SHA256_Update(&c, pad, 64);
    SHA256_Update(&c, ih, 32);
    SHA256_Final(want, &c);
    ex.beat();
    PBKDF2_SHA256(z, p, z, s, 1, got, 32);
    if (memcmp(got, want, 32)) mc::fail(mc::fmt("PBKDF2_SHA256(password of %zu zeros, salt of %zu zeros) is wrong", p, s));
    munmap(z, n);
    ex.transitions();
    ex.traces();
  }
  // one buffer for the password and the salt
  void same(mc::Explorer& ex, size_t n, uint64_t c, size_t out) {
    std::vector<uint8_t> v = fill(n, 2, 5), want(out);
    if (PKCS5_PBKDF2_HMAC(n ? (const char*)v.data() : "", n, v.data(), n, c, EVP_sha256(), out, want.data()) != 1) _exit(3);
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]), o(new uint8_t[out]);
    if (n) memcpy(b.get(), v.data(), n);
    PBKDF2_SHA256(b.get(), n, b.get(), n, c, o.get(), out);
    if (memcmp(o.get(), want.data(), out)) mc::fail(mc::fmt("PBKDF2_SHA256 with one buffer of %zu as password and salt, %llu iterations, %zu bytes, is wrong", n, (unsigned long long)c, out));
    ex.transitions();
    ex.traces();
  }
  void exec(mc::Explorer& ex, const string& c) override {
    if (c[0] == 'b' || c[0] == 's') {
      unsigned long a, b, n = 0;
      sscanf(c.c_str() + 1, "%lu %lu %lu", &a, &b, &n);
      if (c[0] == 'b') big(ex, a, b); else same(ex, a, b, n);
      ex.state(mc::hash(c));
      return;
    }
    unsigned long p, s, k, n;
    int style, shift;
    sscanf(c.c_str(), "%lu %lu %lu %lu %d %d", &p, &s, &k, &n, &style, &shift);
    one(ex, p, s, k, n, style, shift);
    ex.state(mc::hash(c));
  }
  void enumerate(mc::Explorer& ex) override {
    // the longest first
    for (size_t n : {(size_t)1 << 32, (size_t)1 << 31, (size_t)1 << 29}) for (long d : {5, -1}) {
      if (!ex.thorough() && d < 0) continue;
      ex.all(mc::fmt("b 8 %zu", n + d));
      ex.all(mc::fmt("b %zu 8", n + d));
    }
    for (size_t n = 0; n <= (size_t)ex.tier(200, 1000); ++n) for (int k = 1; k <= 3; ++k) for (int out : {20, 32, 70}) ex.all(mc::fmt("s %zu %d %d", n, k, out));
    auto go = [&](size_t p, size_t s, uint64_t k, size_t n, int st = 2, int sh = 0) { ex.all(mc::fmt("%zu %zu %llu %zu %d %d", p, s, (unsigned long long)k, n, st, sh)); };
    const std::vector<size_t> edge = {0, 1, 2, 31, 32, 33, 50, 51, 52, 55, 56, 59, 60, 61, 62, 63, 64, 65, 66, 80, 119, 120, 127, 128, 129, 191, 192, 193, 255, 256, 257};
    for (size_t p = 0; p <= (size_t)ex.tier(300, 2000); ++p) for (int st = 0; st < 4; ++st) go(p, 80, 1, 32, st, p % 3), go(p, 7, 2, 40, st);
    for (size_t s = 0; s <= (size_t)ex.tier(300, 2000); ++s) for (int st = 0; st < 4; ++st) go(80, s, 1, 128, st, s % 3), go(65, s, 2, 33, st);
    for (size_t n = 0; n <= (size_t)ex.tier(2100, 9000); ++n) go(80, 80, 1, n, 2, n % 3), go(5, 9, 1 + n % 3, n, 1);
    for (uint64_t k = 1; k <= (uint64_t)ex.tier(700, 5000); ++k) go(8, 8, k, k % 65, 2), go(65, 70, k, 32, 3);
    for (size_t n : {4095, 4096, 4097, 8159, 8160, 8161, 8191, 8192, 8193, 8224, 16384, 65535, 65536, 65537, 2097120, 2097151, 2097152, 2097153, 2097184}) go(80, 80, 1, n);
    for (uint64_t k : {1000, 1024, 4096, 10000, 65535, 65536, 65537}) go(16, 16, k, 32), go(100, 16, k, 33);
    for (size_t p : edge) for (size_t s : edge) for (size_t n : {1, 31, 32, 33, 64, 65, 97}) for (int k = 1; k <= ex.tier(2, 4); ++k) go(p, s, k, n, (p + s + n) % 4);
    for (size_t p : {1000, 4096, 65536, 1 << 20}) go(p, 10, 2, 32), go(10, p, 2, 32);
    if (ex.thorough()) { go(10, 10, 1000000, 20); go(80, 80, 1, 1 << 27); for (uint64_t k : {255, 256, 257}) for (size_t p : edge) for (size_t n : edge) go(p, 8, k, n); }
  }
};
MC_MAIN(H)
