// H01: the character-set filter on all pairs of a string and a substring; the
// string hashes on equal strings that are built and stored in different ways.
#include "mc.hpp"
#include <adt/StringHasher.h>
#include <clocale>
using std::string;
using namespace eni::internal;

struct H : mc::Harness {
  const char* rule() override { return "strings with all their substrings; strings x hash x way of storing them; distinct by string"; }
  StringHasher<ES> es;
  typedef uint32_t Hash(const string&);
  template <uint32_t X> static uint32_t h(const string& s) { return StringHasher<X>()(s); }
  Hash* const hashes[12] = {h<RS>, h<JS>, h<PJW>, h<ELF>, h<BKDR>, h<SDBM>, h<DJB>, h<DEK>, h<BP>, h<FNV>, h<AP>, h<ES>};
  void pair(mc::Explorer& ex, const string& part, const string& whole, uint32_t hp, uint32_t hw) {
    if (!StringHasher<ES>::may_include(hp, hw)) mc::fail("the filter rules out that \"" + mc::esc(mc::cut(part)) + "\" is a part of \"" + mc::esc(mc::cut(whole)) + "\"");
    ex.transitions();
  }
  // all substrings
  void whole(mc::Explorer& ex, const string& s) {
    uint32_t hw = es(s);
    for (size_t i = 0; i <= s.size(); ++i)
      for (size_t n = s.size() - i;; --n) {
        string p = s.substr(i, n);
        pair(ex, p, s, es(p), hw);
        if (!n) break;
      }
    ex.state(mc::hash(s));
  }
  string gBig[3];                 // strings with much room
  // the same string in different storage
  void dresses(mc::Explorer& ex, const string& s) {
    size_t n = s.size();
    std::vector<std::unique_ptr<string>> v;
    v.emplace_back(new string(s));
    string* p = new string; p->reserve(n + 100); p->assign(1 + n + 60, 'X'); *p = s; v.emplace_back(p);
    p = new string; p->assign(n + 60, '\0'); *p = s; v.emplace_back(p);
    p = new string; for (char c : s) p->push_back(c); v.emplace_back(p);
    p = new string("prefix" + s + "suffix"); p->erase(0, 6); p->resize(n); v.emplace_back(p);
    p = new string(s + "\xff\xff\xff"); p->resize(n); v.emplace_back(p);
    p = new string(s.rbegin(), s.rend()); std::reverse(p->begin(), p->end()); v.emplace_back(p);
    p = new string(s); p->shrink_to_fit(); v.emplace_back(p);
    v.emplace_back(new string(string("abc" + s).substr(3)));
    p = new string(n + 2, 'q'); p->replace(1, n, s); p->erase(n + 1); p->erase(0, 1); v.emplace_back(p);
    for (int k = 0; k < 3; ++k) { string& big = gBig[k]; if (big.capacity() < (size_t)1 << (14 + 4 * k)) big.reserve(((size_t)3 << (14 + 4 * k)) + 5); big = s; }
    string moved(s); v.emplace_back(new string(std::move(moved)));
    for (int k = 0; k < 12; ++k) {
      uint32_t first = hashes[k](*v[0]);
      for (size_t i = 0; i < v.size() + 3; ++i) {
        const string& t = i < v.size() ? *v[i] : gBig[i - v.size()];
        if (t != s) _exit(3);
        // other hashes in between, and after an error left in errno
        hashes[(k + i) % 12]("between");
        errno = (int)i;
        uint32_t again = hashes[k](t);
        if (again != first) mc::fail(mc::fmt("hash %d of %zu bytes \"%s\" is %08x, and %08x for the same string in storage %zu", k, n, mc::esc(mc::cut(s, 40)).c_str(), first, again, i));
        ex.transitions();
      }
    }
    ex.state(mc::hash(s, 5));
    ex.traces();
  }
  void compare(mc::Explorer& ex, const string& a, const string& b) {
    const bool same = a == b, sameC = !strcmp(a.c_str(), b.c_str());
    StringCompare<string> s;
    StringCompare<const char*> p;
    StringCompare<char*> q;
    std::unique_ptr<char, void (*)(void*)> x(strdup(a.c_str()), free), y(strdup(b.c_str()), free), z(strdup(a.c_str()), free);
    auto is = [&](bool got, bool want, const char* what) { if (got != want) mc::fail(mc::fmt("comparing %s \"%s\" and \"%s\" says %s", what, mc::esc(mc::cut(a)).c_str(), mc::esc(mc::cut(b)).c_str(), got ? "equal" : "different")); };
    is(s(a, b), same, "the strings");
    is(p(x.get(), y.get()), sameC, "the constant texts");
    is(q(x.get(), y.get()), sameC, "the texts");
    is(p(x.get(), z.get()) && p(x.get(), x.get()) && q(z.get(), x.get()) && s(a, string(a)), true, "(a with a)");
    ex.transitions(4);
  }
  void exec(mc::Explorer& ex, const string& c) override {
    std::vector<string> f = mc::split(c.size() > 2 ? c.substr(2) : "", ' ');
    auto num = [&](size_t i) { return atol(f[i].c_str()); };
    switch (c[0]) {
      case 'w': whole(ex, mc::unesc(c.substr(2))); ex.traces(); break;
      case 'c': {                                    // every byte in a context
        for (int b = 0; b < 256; ++b) {
          string s = string(1, (char)num(0)) + (char)b;
          whole(ex, s); whole(ex, s + "."); whole(ex, "." + s + (char)b);
        }
        ex.traces();
        break;
      }
      case 'd': {                                    // dots with things around, and all shorter runs of dots
        int n = num(0);
        const char* around[] = {"", "a", "Z", "0", "_", "-", "z.", ".9", "\x80"};
        for (const char* a : around) for (const char* b : around) {
          string s = a + string(n, '.') + b;
          uint32_t hw = es(s);
          for (int k = 0; k <= n; k += (n > 100 && k > 20 && k < n - 20) ? (n - 20 - k) : 1) {
            for (const string& q : {string(k, '.'), a + string(k, '.')}) pair(ex, q, s, es(q), hw);
            string q = string(k, '.') + b;
            pair(ex, q, s, es(q), hw);
          }
          // dots apart
          string apart;
          for (int k = 0; k < n; ++k) { apart += '.'; apart += *b ? *b : 'x'; }
          uint32_t ha = es(apart);
          for (int k = 0; k <= n; k += (n > 100 && k > 20 && k < n - 20) ? (n - 20 - k) : 1) { string q = apart.substr(2 * k); pair(ex, q, apart, es(q), ha); q = apart.substr(0, 2 * k); pair(ex, q, apart, es(q), ha); }
          ex.state(mc::hash(s));
        }
        ex.traces();
        break;
      }
      case 'm': {                                    // every set of kinds of characters: a string of all kinds, each subset as its part
        long m = num(0);
        string s;
        const char* kinds = "aBzY07_.-";
        for (int i = 0; i < 9; ++i) if (m >> i & 1) s += kinds[i];
        for (int rep = 1; rep < 4; ++rep) { string t; for (int i = 0; i < rep; ++i) t += s; whole(ex, t); }
        ex.traces();
        break;
      }
      case 'x': {                                    // ruled out when it must be, not when it must not
        long m = num(0);
        auto build = [](long bits, int style) {      // bits: two letters, a digit, an underscore, dots
          string s;
          if (bits & 1) s += style & 1 ? 'b' : 'B';
          if (bits & 2) s += style & 2 ? 'y' : 'Y';
          if (bits & 4) s += style & 4 ? '3' : '9';
          if (bits & 8) s += '_';
          s += string(bits >> 4, '.');
          if (style & 1) std::reverse(s.begin(), s.end());
          return s;
        };
        for (int style = 0; style < 8; ++style) {
          string s = build(m, style);
          uint32_t hs = es(s);
          for (long o = 0; o < 16 * 16; ++o) for (int st : {0, 7}) {
            string t = build(o, st);
            bool more = (m & ~o & 15) || (m >> 4) > (o >> 4);
            if (StringHasher<ES>::may_include(hs, es(t)) == more)
              mc::fail("the filter says that \"" + mc::esc(s) + "\" " + (more ? "may" : "cannot") + " be a part of \"" + mc::esc(t) + "\"");
            ex.transitions();
          }
        }
        ex.state(mc::hash(c));
        ex.traces();
        break;
      }
      case 'l':                                      // every letter alone
        for (int a = 'a'; a <= 'z'; ++a) for (int b = 'a'; b <= 'z'; ++b) for (int u = 0; u < 4; ++u) {
          string s(1, u & 1 ? a - 32 : a), t(1, u & 2 ? b - 32 : b), all;
          for (int k = 'a'; k <= 'z'; ++k) if (k != a) all += u & 2 ? k - 32 : k;
          if (StringHasher<ES>::may_include(es(s), es(t)) != (a == b)) mc::fail("the filter is wrong about the letters " + s + " and " + t);
          if (StringHasher<ES>::may_include(es(s), es(all))) mc::fail("the filter does not know that " + s + " is not in " + all);
          ex.transitions(2);
        }
        ex.traces();
        break;
      case 's': {
        string s;
        for (long i = 0; i < num(0); ++i)
          switch (num(1)) {
            case 0: s += 'a'; break;
            case 1: s += (char)(i * 37 + 11); break;
            case 2: s += '\0'; break;
            case 3: s += (char)0xff; break;
            default: s += "a.B_9-"[i % 6];
          }
        dresses(ex, s);
        break;
      }
      case 'q': {                                    // the supplied comparison of strings: one against all
        const string a = mc::unesc(c.substr(2));
        std::function<void(string)> rec = [&](string b) { compare(ex, a, b); if (b.size() < 3) for (char k : string("ab\0\xff", 4)) rec(b + k); };
        rec("");
        for (int k = 0; k < 256; ++k) compare(ex, a, string(1, (char)k));
        for (int n : {15, 16, 31, 64, 257, 4096})
          for (int at : {0, 1, n / 2, n - 1}) {
            string x = a + string(n, 'x'), y = x;
            compare(ex, x, y);
            y[at] ^= 0x80;
            compare(ex, x, y);
            compare(ex, y, x);
            compare(ex, x, x.substr(0, at));
            compare(ex, x.substr(0, at), x);
          }
        ex.state(mc::hash(c));
        ex.traces();
        break;
      }
      case 'e': dresses(ex, mc::unesc(c.substr(2))); break;
    }
  }
  void enumerate(mc::Explorer& ex) override {
    const string alpha("aAzZ09_-. @[`{\x80\xff", 16);
    std::function<void(string, size_t)> rec = [&](string s, size_t len) { ex.all("w " + mc::esc(s)); if (s.size() < len) for (char c : alpha) rec(s + c, len); };
    rec("", ex.tier(4, 5));
    for (int b = 0; b < 256; ++b) ex.all(mc::fmt("c %d", b));
    for (int m = 0; m < 16 * 16; ++m) ex.all(mc::fmt("x %d", m));
    ex.all("l ");
    for (int n = 0; n <= ex.tier(80, 400); ++n) ex.all(mc::fmt("d %d", n));
    for (int n : {127, 128, 255, 256, 257, 1000, 4096}) ex.all(mc::fmt("d %d", n));
    for (int m = 0; m < 512; ++m) ex.all(mc::fmt("m %d", m));
    for (int n = 0; n <= ex.tier(600, 5000); ++n) for (int s = 0; s < 5; ++s) ex.all(mc::fmt("s %d %d", n, s));
    for (int n : {4095, 4096, 4097, 65535, 65536, 65537, 100000}) for (int s = 0; s < 5; ++s) ex.all(mc::fmt("s %d %d", n, s));
    std::function<void(string)> rec2 = [&](string s) { ex.all("e " + mc::esc(s)); if (s.size() < 3) for (char c : string("a.\0\xff_" "0", 6)) rec2(s + c); };
    rec2("");
    std::function<void(string)> rec3 = [&](string s) { ex.all("q " + mc::esc(s)); if (s.size() < 3) for (char c : string("ab\0\xff", 4)) rec3(s + c); };
    rec3("");
    for (int b = 0; b < 256; ++b) ex.all("e " + mc::esc(string(1, (char)b)));
  }
};
MC_MAIN(H)
