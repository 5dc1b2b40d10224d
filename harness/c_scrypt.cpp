// C03: the scrypt operation against another scrypt.
#include "ops.hpp"
#include <eni_scrypt/eni_scrypt.h>
#include <eni_scrypt/scrypt.h>
#include <openssl/evp.h>
using std::string;
static const char* D = "0123456789abcdefABCDEF";

struct H : mc::Harness {
  const char* rule() override { return "strings of hexadecimal digits and other characters; blocks of 80 bytes; distinct by case"; }
  double hangSeconds() override { return 60; }
  void init() override { ops::load(); }
  static string reference(const string& block) {
    unsigned char out[32];
    if (EVP_PBE_scrypt(block.data(), block.size(), (const unsigned char*)block.data(), block.size(), 1024, 1, 1, 1 << 25, out, 32) != 1) _exit(3);
    return string((char*)out, 32);
  }
  static int value(char c) { const char* p = strchr(D, c); if (!p || !c) return -1; return p - D < 16 ? p - D : p - D - 6; }
  void text(mc::Explorer& ex, const string& s) {
    bool ok = s.size() <= 160;
    for (char c : s) if (value(c) < 0) ok = false;
    string args = ops::list({ops::quote(s)}), out;
    uint64_t g = ops::gas(ops::OpScrypt, args);
    if (!ok && g != 1500) mc::fail(mc::fmt("scrypt of \"%s\" costs %llu", mc::esc(mc::cut(s)).c_str(), (unsigned long long)g));
    bool r = ops::run(ops::OpScrypt, args, out);
    if (r != ok) mc::fail("scrypt of \"" + mc::esc(mc::cut(s, 200)) + "\" is " + (r ? "accepted" : "refused"));
    ex.transitions(2);
    ex.state(mc::hash(s));
    if (!ok) return;
    string e = s.size() % 2 ? "0" + s : s, block(80, 0);
    for (size_t i = 0; i < e.size() / 2; ++i) block[i] = (char)(value(e[2 * i]) * 16 + value(e[2 * i + 1]));
    string want = ops::hex(reference(block));
    if (ops::only(out) != want) mc::fail("scrypt of \"" + mc::cut(s, 200) + "\" is " + mc::cut(out) + " instead of " + want);
    Scrypt o(args);
    for (int i = 0; i < 3; ++i) {
      char* p = o.start();
      if (!p || ops::only(p) != want) mc::fail(mc::fmt("scrypt of \"%s\": run %d of one object gives %s", mc::cut(s, 200).c_str(), i + 1, p ? mc::cut(p).c_str() : "nothing"));
      ::free(p);
    }
    ex.transitions(3);
  }
  // the core, with guards around its output, at any alignment of its scratchpad
  void block(mc::Explorer& ex, const string& b, int align) {
    string want = reference(b);
    unsigned char out[32 + 64];
    memset(out, 0xa5, sizeof out);
    std::vector<char> in(b.begin(), b.end());
    if (align < 0) scrypt_1024_1_1_256(in.data(), (char*)out + 32);
    else {
      char* pad = (char*)::malloc(SCRYPT_SCRATCHPAD_SIZE + 64);
      char* a = (char*)(((uintptr_t)pad + 63) & ~(uintptr_t)63);
      // as much room as the interface asks for, from an address of that alignment
      char* p = (char*)::malloc(SCRYPT_SCRATCHPAD_SIZE);
      (void)a;
      memset(p, align, SCRYPT_SCRATCHPAD_SIZE);
      scrypt_1024_1_1_256_sp_generic(in.data(), (char*)out + 32, p);
      ::free(p);
      ::free(pad);
    }
    for (int i = 0; i < 32; ++i) if (out[i] != 0xa5 || out[64 + i] != 0xa5) mc::fail("the scrypt core writes beyond its output");
    if (memcmp(out + 32, want.data(), 32)) mc::fail("the scrypt core is wrong on " + mc::esc(b));
    if (memcmp(in.data(), b.data(), 80)) mc::fail("the scrypt core changes its input");
    ex.transitions();
    ex.state(mc::hash(b, 7));
  }
  void exec(mc::Explorer& ex, const string& c) override {
    std::vector<string> f = mc::split(c.size() > 2 ? c.substr(2) : "", ' ');
    auto num = [&](size_t i) { return atol(f[i].c_str()); };
    ex.traces();
    switch (c[0]) {
      case 's': text(ex, mc::unesc(c.substr(2))); break;
      case 'f': {
        string s;
        for (int i = 0; i < num(0); ++i) s += num(1) < 22 ? D[num(1)] : num(1) == 22 ? D[i % 22] : D[(i * 5 + 3) % 22];
        text(ex, s);
        break;
      }
      case 'd': {                                     // every digit at one position
        string s(num(0), '0');
        for (int d = 0; d < 22; ++d) { s[num(1)] = D[d]; text(ex, s); }
        break;
      }
      case 'w': {                                     // every other character at one position
        string s(num(0), 'a');
        for (int d = 0; d < 256; ++d) { s[num(1)] = (char)d; if (value((char)d) < 0) text(ex, s); }
        break;
      }
      case 'b': {                                     // one byte of the block
        string b(80, (char)num(2));
        b[num(0)] = (char)num(1);
        block(ex, b, num(3));
        break;
      }
    }
  }
  void enumerate(mc::Explorer& ex) override {
    for (int n = 0; n <= ex.tier(330, 3000); ++n) for (int k = 0; k < 24; ++k) if (ex.thorough() || k >= 22 || n < 8 || (n > 150 && n < 170) || k == n % 22) ex.all(mc::fmt("f %d %d", n, k));
    // lengths that come back to an accepted one in fewer bits
    for (int b = 9; b <= ex.tier(20, 26); ++b) for (int d : {-1, 0, 1, 2, 31, 80, 159, 160, 161}) for (int k : {22, 23}) ex.all(mc::fmt("f %d %d", (1 << b) + d, k));
    for (int n : {1, 2, 3, 4, 79, 80, 81, 159, 160}) for (int p = 0; p < n; ++p) if (n < 5 || ex.thorough() || ((n == 160 || n == 159) && (p < 2 || p > n - 3 || p % 16 == 5))) ex.all(mc::fmt("d %d %d", n, p));
    for (int n = 1; n <= 166; ++n) for (int p = 0; p < n; ++p) if (n < 20 || n > 158 || ex.thorough()) ex.all(mc::fmt("w %d %d", n, p));
    for (int i = 0; i < 22; ++i) for (int j = 0; j < 22; ++j) ex.all(mc::fmt("s %c%c", D[i], D[j]));
    for (int i = 0; i < 22; ++i) for (int j = 0; j < 22; ++j) for (int k = 0; k < 22; ++k) if (ex.thorough() || (i * 7 + j * 3 + k) % 11 == 0) ex.all(mc::fmt("s %c%c%c", D[i], D[j], D[k]));
    for (const char* s : {"0x1f", "0X1F", " 1f", "1f ", "+1", "-1", "1e+5", "\\x00", "00\\x00", "\\x0000", "12\\x0034", "1 2", "\\xc3\\xa9", "g0", "0g"}) ex.all(string("s ") + s);
    for (int p = 0; p < 80; ++p) for (int v : {0, 1, 0x7f, 0x80, 0xff}) for (int base : {0, 0xff, 0x41}) ex.all(mc::fmt("b %d %d %d %d", p, v, base, (p + v) % 4 - 1));
    for (int v = 0; v < 256; ++v) for (int p : {0, 3, 4, 15, 16, 63, 64, 76, 79}) if (ex.thorough() || v % 4 == p % 4) ex.all(mc::fmt("b %d %d 0 -1", p, v));
  }
};
MC_MAIN(H)
