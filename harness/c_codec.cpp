// C01: the hexadecimal codec against a table oracle, and the message argument
// of rsa_decrypt as a user of it.
#include "ops.hpp"
#include <eni_crypto/eni_crypto.h>
using std::string;

static const string& digits() { static const string d = "0123456789abcdefABCDEF"; return d; }
static int digitValue(unsigned char c) {
  size_t i = digits().find((char)c);
  return i == string::npos ? -1 : i < 16 ? (int)i : (int)i - 6;
}

struct H : mc::Harness {
  const char* rule() override { return "byte strings to encode and texts to decode; distinct by case"; }
  string priv, good;
  void init() override { ops::load(); priv = ops::quote(ops::key("k512-3.priv")); }
  // encode, decode in both cases, compare
  void both(mc::Explorer& ex, const string& s) {
    string want = ops::hex(s), got = "previous contents", back = "previous contents";
    if (!eni_crypto::str2hex(s, got)) mc::fail("str2hex refuses " + mc::esc(mc::cut(s)));
    if (got != want) mc::fail("str2hex of " + mc::esc(mc::cut(s)) + " is " + mc::esc(mc::cut(got)));
    if (!eni_crypto::hex2str(want, back)) mc::fail("hex2str refuses " + mc::cut(want));
    if (back != s) mc::fail("hex2str of " + mc::cut(want) + " is " + mc::esc(mc::cut(back)));
    for (int m = 0; m < 3; ++m) {
      string up = want;
      for (size_t i = 0; i < up.size(); ++i) if (m == 2 || (int)(i & 1) == m) up[i] = toupper(up[i]);
      back.clear();
      if (!eni_crypto::hex2str(up, back) || back != s) mc::fail("hex2str of " + mc::cut(up) + " is refused or wrong");
    }
    ex.transitions(5);
    ex.state(mc::hash(s, 1));
  }
  void text(mc::Explorer& ex, const string& t) {
    bool ok = t.size() % 2 == 0;
    string want, got = "previous contents";
    for (size_t i = 0; ok && i < t.size(); i += 2) {
      int a = digitValue(t[i]), b = digitValue(t[i + 1]);
      if (a < 0 || b < 0) { ok = false; break; }
      want += (char)(a * 16 + b);
    }
    bool r = eni_crypto::hex2str(t, got);
    if (r != ok) mc::fail("hex2str " + string(r ? "accepts " : "refuses ") + mc::esc(mc::cut(t)));
    if (ok && got != want) mc::fail("hex2str of " + mc::cut(t) + " is " + mc::esc(mc::cut(got)));
    ex.transitions();
    ex.state(mc::hash(t, 2));
  }
  // the same verdict by the operation
  void op(mc::Explorer& ex, const string& t) {
    bool ok = t.size() % 2 == 0;
    for (unsigned char c : t) if (digitValue(c) < 0) ok = false;
    string args = "[" + priv + "," + ops::quote(t) + "]", out;
    uint64_t g = ops::gas(ops::OpDec, args);
    if (g != (ok ? 640 : 1500)) mc::fail(mc::fmt("rsa_decrypt of message %s costs %llu", mc::esc(mc::cut(t)).c_str(), (unsigned long long)g));
    bool r = ops::run(ops::OpDec, args, out);
    if (!ok && r) mc::fail("rsa_decrypt runs on message " + mc::esc(mc::cut(t)));
    ex.transitions(2);
    ex.state(mc::hash(t, 3));
  }
  string fill(int style, size_t n) {
    string s;
    for (size_t i = 0; i < n; ++i) s += style == 0 ? '\0' : style == 1 ? (char)0xff : style == 2 ? (char)(i * 37 + 1) : "\x0f\xf0\x7f\x80"[i % 4];
    return s;
  }
  void exec(mc::Explorer& ex, const string& c) override {
    char kind = c[0];
    std::vector<string> f = mc::split(c.size() > 2 ? c.substr(2) : "", ' ');
    auto num = [&](size_t i) { return atol(f[i].c_str()); };
    switch (kind) {
      case 'e': {                                     // one byte at every value, at position p of n
        string s = fill(num(2), num(1));
        for (int b = 0; b < 256; ++b) { s[num(0)] = (char)b; both(ex, s); }
        break;
      }
      case 'E': both(ex, fill(num(1), num(0))); break;
      case 'p': for (int b = 0; b < 256; ++b) both(ex, string(1, (char)num(0)) + (char)b); break;
      case 't': {                                     // one character at every value in a text of n digits
        string s;
        for (int i = 0; i < num(1); ++i) s += digits()[(i * 7 + num(2)) % 22];
        for (int b = 0; b < 256; ++b) { s[num(0)] = (char)b; text(ex, s); }
        break;
      }
      case 'u': {                                     // the same through the operation
        string s(num(1), '0');
        for (int b = 0; b < 256; ++b) { s[num(0)] = (char)b; op(ex, s); }
        break;
      }
      case 'q': for (int b = 0; b < 256; ++b) text(ex, string(1, (char)num(0)) + (char)b); break;
      case 'a': text(ex, mc::unesc(c.substr(2))); break;
      case 'o': op(ex, string(num(0), 'a')); break;
    }
    ex.traces();
  }
  void enumerate(mc::Explorer& ex) override {
    ex.all("E 0 0");
    for (int b = 0; b < 256; ++b) { ex.all(mc::fmt("p %d", b)); ex.all(mc::fmt("q %d", b)); }
    for (int n = 1; n <= ex.tier(40, 300); ++n) for (int p = 0; p < n; ++p) for (int s = 0; s < 4; ++s) ex.all(mc::fmt("e %d %d %d", p, n, s));
    for (int n = 1; n <= ex.tier(3000, 40000); ++n) for (int s = 0; s < (n < 3000 ? 4 : 1); ++s) ex.all(mc::fmt("E %d %d", n, s));
    for (int n = 1; n <= ex.tier(80, 600); ++n) for (int p = 0; p < n; ++p) for (int s = 0; s < ex.tier(1, 3); ++s) ex.all(mc::fmt("t %d %d %d", p, n, s));
    for (int n : {1, 2, 3, 4, 127, 128, 129, 130}) for (int p = 0; p < n; ++p) if (n < 5 || ex.thorough() || p % 8 < 2 || p >= n - 2) ex.all(mc::fmt("u %d %d", p, n));
    for (int n = 0; n <= ex.tier(300, 3000); ++n) ex.all(mc::fmt("o %d", n));
    // all texts over boundary characters
    const string alpha("09afAF/:`g@G x\0", 15);
    int len = ex.tier(4, 5);
    std::function<void(string)> rec = [&](string s) {
      ex.all("a " + mc::esc(s));
      if ((int)s.size() < len) for (char ch : alpha) rec(s + ch);
    };
    rec("");
  }
};
MC_MAIN(H)
