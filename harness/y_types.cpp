// Y01: the integer types against schoolbook arithmetic on decimal digits.
#include "mc.hpp"
#include <eni_types.h>
using std::string;
typedef unsigned __int128 u128_t;

// natural numbers of any size, 32 bits per limb
struct N {
  std::vector<uint32_t> a;
  void trim() { while (!a.empty() && !a.back()) a.pop_back(); }
  static N of(uint64_t x) { N n; while (x) { n.a.push_back((uint32_t)x); x >>= 32; } return n; }
  static N pow2(int k) { N n; n.a.assign(k / 32 + 1, 0); n.a.back() = 1u << (k % 32); return n; }
  friend int cmp(const N& x, const N& y) {
    if (x.a.size() != y.a.size()) return x.a.size() < y.a.size() ? -1 : 1;
    for (size_t i = x.a.size(); i--;) if (x.a[i] != y.a[i]) return x.a[i] < y.a[i] ? -1 : 1;
    return 0;
  }
  friend N operator+(const N& x, const N& y) {
    N r;
    uint64_t c = 0;
    for (size_t i = 0; i < std::max(x.a.size(), y.a.size()) || c; ++i) {
      c += (i < x.a.size() ? x.a[i] : 0) + (uint64_t)(i < y.a.size() ? y.a[i] : 0);
      r.a.push_back((uint32_t)c);
      c >>= 32;
    }
    r.trim();
    return r;
  }
  friend N operator-(const N& x, const N& y) {      // x >= y
    N r = x;
    int64_t b = 0;
    for (size_t i = 0; i < r.a.size(); ++i) {
      int64_t d = (int64_t)r.a[i] - (i < y.a.size() ? y.a[i] : 0) - b;
      b = d < 0;
      r.a[i] = (uint32_t)(d + (b ? 1ll << 32 : 0));
    }
    r.trim();
    return r;
  }
  friend N operator*(const N& x, const N& y) {
    N r;
    r.a.assign(x.a.size() + y.a.size(), 0);
    for (size_t i = 0; i < x.a.size(); ++i) {
      uint64_t c = 0;
      for (size_t j = 0; j < y.a.size() || c; ++j) {
        c += r.a[i + j] + (uint64_t)x.a[i] * (j < y.a.size() ? y.a[j] : 0);
        r.a[i + j] = (uint32_t)c;
        c >>= 32;
      }
    }
    r.trim();
    return r;
  }
  N low(int k) const {                              // modulo 2^k
    N r = *this;
    if ((int)r.a.size() > (k + 31) / 32) r.a.resize((k + 31) / 32);
    if (k % 32 && (int)r.a.size() == (k + 31) / 32) r.a.back() &= (1u << k % 32) - 1;
    r.trim();
    return r;
  }
  bool bit(int k) const { return k / 32 < (int)a.size() && (a[k / 32] >> k % 32 & 1); }
  int bits() const { int n = a.size() * 32; while (n && !bit(n - 1)) --n; return n; }
  static void div(const N& x, const N& y, N& q, N& r) {
    q.a.assign(x.a.size(), 0);
    r.a.clear();
    for (int i = x.bits(); i--;) {
      r = r + r;
      if (x.bit(i)) r = r + of(1);
      if (cmp(r, y) >= 0) { r = r - y; q.a[i / 32] |= 1u << i % 32; }
    }
    q.trim();
  }
  string dec() const {
    std::vector<uint32_t> b = a;
    string s;
    while (!b.empty()) {
      uint64_t c = 0;
      for (size_t i = b.size(); i--;) { c = c << 32 | b[i]; b[i] = (uint32_t)(c / 10); c %= 10; }
      s += (char)('0' + c);
      while (!b.empty() && !b.back()) b.pop_back();
    }
    if (s.empty()) s = "0";
    std::reverse(s.begin(), s.end());
    return s;
  }
  string hex() const { string s = "0x"; int n = (bits() + 3) / 4; if (!n) n = 1; for (int i = n; i--;) { int d = 0; for (int b = 3; b >= 0; --b) d = d * 2 + bit(i * 4 + b); s += "0123456789abcdef"[d]; } return s; }
};

struct H : mc::Harness {
  const char* rule() override { return "type x boundary value (x boundary value x operation); distinct by case"; }
  std::map<std::pair<int, int>, std::vector<N>> values;
  const std::vector<N>& of(int w, int step) {
    auto& v = values[{w, step}];
    if (v.empty()) {
      std::set<string> seen;
      auto add = [&](N n) { n = n.low(w); if (seen.insert(n.dec()).second) v.push_back(n); };
      for (int i = 0; i < 20; ++i) add(N::of(i));
      for (int k = 0; k <= w; k += (k >= w - 8 || k < 8 || k % 32 >= 31 || k % 32 == 0 || step == 1) ? 1 : std::min(step, 32 - k % 32 - 1))
        for (int d = -2; d <= 2; ++d) { N p = N::pow2(k), m = N::pow2(w); add(d < 0 ? p + m - N::of(-d) : p + N::of(d)); }
      N t = N::of(1);
      for (int k = 0; t.bits() <= w; ++k, t = t * N::of(10)) if (step == 1 || k % step == 0 || t.bits() > w - 4) { add(t); add(t + N::pow2(w) - N::of(1)); add(t + N::of(1)); }
      add(N::pow2(w) - N::of(1000));
    }
    return v;
  }
  template <class T> static T make(const N& n) { return T(n.hex()); }
  // conversions, printing, parsing of one value
  template <class T> void single(mc::Explorer& ex, int w, const char* name, const N& n, bool neg) {
    string want = (neg && n.bits() ? "-" : "") + n.dec();
    T x = make<T>(n);
    if (neg) x = T(0) - x;
    auto check = [&](const string& got, const char* how) { if (got != want) mc::fail(string(name) + ": " + how + " of " + want + " is " + mc::esc(mc::cut(got))); ex.transitions(); };
    check(eni::to_string(x), "to_string");
    check(x.str(), "str");
    T y(want);
    check(eni::to_string(y), "to_string after reading decimals");
    if (!(x == y) || x != y || x < y || y > x) mc::fail(string(name) + ": two values of " + want + " differ");
    std::ostringstream o;
    o << x;
    check(o.str(), "output");
    // rebuilt bit by bit
    T z = 0;
    for (int i = n.bits(); i--;) { z <<= 1; if (n.bit(i)) z |= 1; }
    if (neg) z = T(0) - z;
    check(eni::to_string(z), "to_string of bits");
    T c(x), d;
    d = c;
    check(eni::to_string(d), "to_string of a copy");
    if (n.bits() <= 64) {
      uint64_t v = 0;
      for (int i = n.bits(); i--;) v = v * 2 + n.bit(i);
      T f(v);
      if (neg) f = T(0) - f;
      check(eni::to_string(f), "to_string of a machine integer");
      if (!neg && (uint64_t)x != v) mc::fail(string(name) + ": conversion to 64 bits of " + want);
    }
    ex.traces();
  }
  template <class T> void pairs(mc::Explorer& ex, int w, const char* name, size_t i, int step) {
    auto& v = of(w, step);
    const N& a = v[i];
    T x = make<T>(a);
    for (auto& b : v) {
      T y = make<T>(b);
      auto check = [&](const T& got, const N& want, const char* op) {
        string s = eni::to_string(got), t = want.low(w).dec();
        if (s != t) mc::fail(string(name) + ": " + a.dec() + " " + op + " " + b.dec() + " is " + s + " instead of " + t);
        ex.transitions();
      };
      check(x + y, a + b, "+");
      check(x - y, a + N::pow2(w) - b, "-");
      check(x * y, a * b, "*");
      if (b.bits()) { N q, r; N::div(a, b, q, r); check(x / y, q, "/"); check(x % y, r, "%"); }
      int k = cmp(a, b);
      if ((x < y) != (k < 0) || (x == y) != (k == 0) || (x > y) != (k > 0) || (x <= y) != (k <= 0)) mc::fail(string(name) + ": comparison of " + a.dec() + " and " + b.dec());
    }
    for (int s = 0; s <= w; ++s) {
      auto check = [&](const T& got, const N& want, const char* op) {
        if (eni::to_string(got) != want.low(w).dec()) mc::fail(string(name) + ": " + a.dec() + mc::fmt(" %s %d is ", op, s) + eni::to_string(got));
        ex.transitions();
      };
      check(x << s, a * N::pow2(s), "<<");
      N q, r;
      q.a.clear();
      N sh;
      for (int i = s; i < a.bits(); ++i) if (a.bit(i)) sh = sh + N::pow2(i - s);
      check(x >> s, sh, ">>");
    }
    T one = x;
    ++one;
    if (eni::to_string(one) != (a + N::of(1)).low(w).dec()) mc::fail(string(name) + ": ++ of " + a.dec());
    one = x;
    --one;
    if (eni::to_string(one) != (a + N::pow2(w) - N::of(1)).low(w).dec()) mc::fail(string(name) + ": -- of " + a.dec());
    ex.traces();
  }
  // signed: exact while results stay below 2^255
  void signedPairs(mc::Explorer& ex, size_t i, int step) {
    auto& v = of(255, step);
    const N& a = v[i];
    N lim = N::pow2(255);
    for (auto& b : v)
      for (int m = 0; m < 4; ++m) {
        eni::s256 x = make<eni::s256>(a), y = make<eni::s256>(b);
        bool na = m & 1, nb = m & 2;
        if (na) x = -x;
        if (nb) y = -y;
        auto text = [](bool neg, const N& n) { return (neg && n.bits() ? "-" : "") + n.dec(); };
        auto check = [&](const eni::s256& got, bool neg, const N& want, const char* op) {
          if (cmp(want, lim) >= 0) return;
          if (eni::to_string(got) != text(neg, want)) mc::fail("s256: " + text(na, a) + " " + op + " " + text(nb, b) + " is " + eni::to_string(got) + " instead of " + text(neg, want));
          ex.transitions();
        };
        int k = cmp(a, b);
        auto sum = [&](bool nb2, const char* op, const eni::s256& got) {
          if (na == nb2) check(got, na, a + b, op);
          else check(got, k >= 0 ? na : nb2, k >= 0 ? a - b : b - a, op);
        };
        if (cmp(a + b, lim) < 0) { sum(nb, "+", x + y); sum(!nb, "-", x - y); }
        if (a.bits() + b.bits() <= 255) check(x * y, na != nb, a * b, "*");
        if (b.bits()) { N q, r; N::div(a, b, q, r); check(x / y, na != nb, q, "/"); check(x % y, na, r, "%"); }
        bool less = na && a.bits() ? (nb && b.bits() ? k > 0 : true) : (nb && b.bits() ? false : k < 0);
        if ((x < y) != less) mc::fail("s256: comparison of " + text(na, a) + " and " + text(nb, b));
      }
    ex.traces();
  }
  void exec(mc::Explorer& ex, const string& c) override {
    char kind;
    int type, step;
    size_t i;
    sscanf(c.c_str(), "%c %d %zu %d", &kind, &type, &i, &step);
    ex.state(mc::hash(c));
    const int W[] = {64, 128, 160, 256, 255};
    if (kind == 'b') {
      if (eni::to_string(true) != "true" || eni::to_string(false) != "false" || eni::to_string(eni::Bool(true)) != "true") mc::fail("to_string of a boolean");
      eni::Int i = -5; eni::UInt u = 5; eni::Address ad = 5;
      if (eni::to_string(i) != "-5" || eni::to_string(u) != "5" || eni::to_string(ad) != "5") mc::fail("to_string of the named types");
      if (!std::is_same<eni::Int, eni::s256>::value || !std::is_same<eni::UInt, eni::u256>::value || !std::is_same<eni::Address, eni::u160>::value || !std::is_same<eni::Bool, bool>::value) mc::fail("the named types");
      if (eni::to_string(eni::Int(0) - 0) != "0" || eni::to_string(-eni::Int(0)) != "0") mc::fail("minus zero");
      ex.transitions(5);
      return;
    }
    if (kind == 's') {
      auto& v = of(W[type], step);
      const N& n = v[i];
      switch (type) {
        case 0: single<eni::u64>(ex, 64, "u64", n, false); break;
        case 1: single<eni::u128>(ex, 128, "u128", n, false); break;
        case 2: single<eni::u160>(ex, 160, "u160", n, false); break;
        case 3: single<eni::u256>(ex, 256, "u256", n, false); break;
        default: single<eni::s256>(ex, 255, "s256", n, false); single<eni::s256>(ex, 255, "s256", n, true);
      }
      return;
    }
    switch (type) {
      case 0: pairs<eni::u64>(ex, 64, "u64", i, step); break;
      case 1: pairs<eni::u128>(ex, 128, "u128", i, step); break;
      case 2: pairs<eni::u160>(ex, 160, "u160", i, step); break;
      case 3: pairs<eni::u256>(ex, 256, "u256", i, step); break;
      default: signedPairs(ex, i, step);
    }
  }
  void enumerate(mc::Explorer& ex) override {
    ex.all("b 0 0 1");
    const int W[] = {64, 128, 160, 256, 255};
    int step = ex.tier(11, 2);
    for (int t = 0; t < 5; ++t) {
      size_t n = of(W[t], 1).size();
      for (size_t i = 0; i < n; ++i) ex.all(mc::fmt("s %d %zu 1", t, i));
    }
    for (int t = 0; t < 5; ++t) {
      size_t n = of(W[t], step).size();
      for (size_t i = 0; i < n; ++i) ex.all(mc::fmt("p %d %zu %d", t, i, step));
    }
  }
};
MC_MAIN(H)
