// A06: the pointer iterator against positions in an array.
#include "mc.hpp"
#include <sys/mman.h>
#include <algorithm>
#include <iterator>
#include <adt/PointerIterator.h>
#include <adt/Vector.h>
#include <json/Value.h>
#include <json/Array.h>
using std::string;

struct Odd { unsigned char b[3]; };
struct Wide { long v[4]; };
template <class T> struct Make { static T of(int i) { return (T)(i + 1); } static bool is(const T& t, int i) { return t == (T)(i + 1); } };
template <> struct Make<Odd> { static Odd of(int i) { return {{(unsigned char)i, 7, (unsigned char)(i * 3)}}; } static bool is(const Odd& o, int i) { return o.b[0] == (unsigned char)i && o.b[1] == 7 && o.b[2] == (unsigned char)(i * 3); } };
template <> struct Make<Wide> { static Wide of(int i) { return {{i, -i, i * 5, 9}}; } static bool is(const Wide& o, int i) { return o.v[0] == i && o.v[1] == -i && o.v[2] == i * 5 && o.v[3] == 9; } };
template <> struct Make<json::Value> { static json::Value of(int i) { return json::Value(i); } static bool is(const json::Value& v, int i) { return v.isInteger() && v.toInteger() == i; } };
template <> struct Make<const char*> { static const char* of(int i) { static const char t[100] = {}; return t + i; } static bool is(const char* p, int i) { return p == of(i); } };

#define WANT(c, ...) do { if (!(c)) mc::fail(mc::fmt(__VA_ARGS__)); } while (0)

/// everything that two iterators at positions i and j of a[0..n) answer
template <class T>
void observe(T* a, long n, const eni::PointerIterator<T>& x, long i, const eni::PointerIterator<T>& y, long j, bool contents = true) {
  typedef eni::PointerIterator<T> I;
  I u(x), w(y);
  WANT(u.operator->() == a + i && x.operator->() == a + i, "an iterator at %ld points elsewhere", i);
  WANT(w.operator->() == a + j, "an iterator at %ld points elsewhere", j);
  WANT((x == y) == (i == j), "== at %ld and %ld", i, j);
  WANT((x != y) == (i != j), "!= at %ld and %ld", i, j);
  WANT((x < y) == (i < j), "< at %ld and %ld", i, j);
  WANT((x > y) == (i > j), "> at %ld and %ld", i, j);
  WANT((x <= y) == (i <= j), "<= at %ld and %ld", i, j);
  WANT((x >= y) == (i >= j), ">= at %ld and %ld", i, j);
  WANT((u - w) == (std::ptrdiff_t)(i - j), "distance of %ld and %ld", i, j);
  WANT(std::distance(w, u) == (std::ptrdiff_t)(i - j), "std::distance of %ld and %ld", j, i);
  if (i < n) {
    WANT(&*u == a + i && &*x == a + i, "the element at %ld is another one", i);
    if (contents) WANT(Make<T>::is(*x, (int)i) && Make<T>::is(*u, (int)i), "the contents at %ld", i);
  }
  if (i <= j && j < n) WANT(&u[j - i] == a + j, "index %ld from %ld", j - i, i);
  if (i <= j) {
    WANT((u + (j - i)).operator->() == a + j, "%ld + %ld", i, j - i);
    WANT((w - (size_t)(j - i)).operator->() == a + i, "%ld - %ld", j, j - i);
  }
  WANT(u.operator->() == a + i && w.operator->() == a + j, "asking moved an iterator from %ld or %ld", i, j);
}

struct Iter : mc::Harness {
  /// all positions of two iterators, and every step from each of them
  template <class T>
  void space(mc::Explorer& ex, long n, const char* name) {
    typedef eni::PointerIterator<T> I;
    std::vector<T> store;
    store.reserve(n + 1);
    for (long i = 0; i < n; ++i) store.push_back(Make<T>::of((int)i));
    T* a = store.data();
    size_t tr = 0;
    for (long i = 0; i <= n; ++i) for (long j = 0; j <= n; ++j) {
      I y(a + j);
      observe(a, n, I(a + i), i, y, j);
      auto at = [&](const I& x, long k, const char* what) {
        ++tr;
        WANT(x.operator->() == a + k, "%s: %s from %ld stands elsewhere than at %ld", name, what, i, k);
        observe(a, n, x, k, y, j);
      };
      if (i < n) {
        { I x(a + i); I& r = ++x; WANT(&r == &x, "++ answers another iterator"); at(x, i + 1, "++"); }
        { I x(a + i); I o = x++; at(x, i + 1, "postfix ++"); at(o, i, "the answer of postfix ++"); }
        { I x(a + i); WANT(Make<T>::is(*x++, (int)i), "*i++ at %ld", i); at(x, i + 1, "*i++"); }
      }
      if (i > 0) {
        { I x(a + i); I& r = --x; WANT(&r == &x, "-- answers another iterator"); at(x, i - 1, "--"); }
        { I x(a + i); I o = x--; at(x, i - 1, "postfix --"); at(o, i, "the answer of postfix --"); }
      }
      { I x(a + i); I c(x); at(c, i, "a copy"); if (i < n) { ++c; at(x, i, "the original of a moved copy"); } }
      { I x(a + i); I c(a + j); I& r = (c = x); WANT(&r == &c, "= answers another iterator"); at(c, i, "an assigned one"); c = c; at(c, i, "one assigned to itself"); if (i < n) { ++c; at(x, i, "the source of a moved one"); } }
      for (long k = 0; k <= n; ++k) {
        if (k >= i) {
          { I x(a + i); I& r = (x += (size_t)(k - i)); WANT(&r == &x, "+= answers another iterator"); at(x, k, "+="); }
          { I x(a + i); I r = x + (size_t)(k - i); at(r, k, "+"); at(x, i, "the original after +"); }
          { I x(a + i); std::advance(x, k - i); at(x, k, "std::advance"); }
        } else {
          { I x(a + i); I& r = (x -= (size_t)(i - k)); WANT(&r == &x, "-= answers another iterator"); at(x, k, "-="); }
          { I x(a + i); I r = x - (size_t)(i - k); at(r, k, "-"); at(x, i, "the original after -"); }
          { I x(a + i); std::advance(x, k - i); at(x, k, "std::advance back"); }
        }
      }
      // writing through an iterator changes that element only
      if (i < n) {
        { I x(a + i); T t = *x; *x = Make<T>::of(40); for (long k = 0; k < n; ++k) WANT(Make<T>::is(a[k], k == i ? 40 : (int)k), "%s: writing at %ld changed %ld", name, i, k); *x = t; }
        if (j >= i && j < n) { I x(a + i); x[j - i] = Make<T>::of(41); for (long k = 0; k < n; ++k) WANT(Make<T>::is(a[k], k == j ? 41 : (int)k), "%s: writing at %ld changed %ld", name, j, k); a[j] = Make<T>::of((int)j); }
      }
      ex.state(mc::hash(mc::fmt("%s %ld %ld %ld", name, n, i, j)));
    }
    ex.transitions(tr);
    ex.traces(tr);
  }
  /// all sequences of steps of this length from this position
  void walks(mc::Explorer& ex, long n, long from, int len) {
    typedef eni::PointerIterator<int> I;
    std::vector<int> store;
    for (int i = 0; i < n; ++i) store.push_back(Make<int>::of(i));
    store.reserve(n + 1);
    int* a = store.data();
    size_t tr = 0;
    std::function<void(I, long, I, long, int)> rec = [&](I x, long i, I y, long j, int left) {
      observe(a, n, x, i, y, j);
      if (!left) return;
      auto go = [&](I u, long k, I v, long l) { ++tr; rec(u, k, v, l, left - 1); };
      if (i < n) { I u = x; ++u; go(u, i + 1, y, j); }
      if (i < n) { I u = x; I v = u++; go(u, i + 1, v, i); }
      if (i > 0) { I u = x; --u; go(u, i - 1, y, j); }
      if (i > 0) { I u = x; I v = u--; go(u, i - 1, v, i); }
      if (i + 2 <= n) { I u = x; u += 2; go(u, i + 2, y, j); }
      if (i + 2 <= n) { I u = x; I v = u + 2; go(u, i, v, i + 2); }
      if (i >= 2) { I u = x; u -= 2; go(u, i - 2, y, j); }
      if (i >= 2) { I u = x; I v = u - (size_t)2; go(u, i, v, i - 2); }
      { I u = x, v = y; u = v; go(u, j, v, j); }
      { I u = x, v = y; std::swap(u, v); go(u, j, v, i); }
    };
    rec(I(a + from), from, I(a), 0, len);
    ex.transitions(tr);
    ex.traces(tr);
  }
  /// standard algorithms on the iterators and on pointers give the same
  void algorithms(mc::Explorer& ex, std::vector<int> in) {
    typedef eni::PointerIterator<int> I;
    const int n = (int)in.size();
    auto both = [&](const char* what, std::function<long(I, I, int*)> f, std::function<long(int*, int*, int*)> g) {
      std::vector<int> a = in, b = in;
      a.reserve(n + 1); b.reserve(n + 1);
      long r = f(I(a.data()), I(a.data() + n), a.data()), s = g(b.data(), b.data() + n, b.data());
      WANT(r == s, "%s answers %ld, on pointers %ld", what, r, s);
      WANT(a == b, "%s leaves another sequence than on pointers", what);
      ex.transitions(1);
    };
#define BOTH(what, expr) both(what, [&](I b, I e, int* base) -> long { (void)base; auto pos = [&](I i) { return (long)(i.operator->() - base); }; (void)pos; return expr; }, \
                              [&](int* b, int* e, int* base) -> long { (void)base; auto pos = [&](int* i) { return (long)(i - base); }; (void)pos; return expr; })
    BOTH("reverse", (std::reverse(b, e), 0));
    BOTH("sort", (std::sort(b, e), 0));
    BOTH("make_heap", (std::make_heap(b, e), 0));
    BOTH("sort_heap", (std::make_heap(b, e), std::sort_heap(b, e), 0));
    BOTH("next_permutation", std::next_permutation(b, e));
    BOTH("prev_permutation", std::prev_permutation(b, e));
    BOTH("is_sorted_until", pos(std::is_sorted_until(b, e)));
    BOTH("max_element", pos(std::max_element(b, e)));
    BOTH("min_element", pos(std::min_element(b, e)));
    BOTH("unique", pos(std::unique(b, e)));
    BOTH("accumulating", ([&] { long s = 0; for (auto i = b; i != e; ++i) s = s * 7 + *i; return s; })());
    BOTH("accumulating backwards", ([&] { long s = 0; for (auto i = e; i != b;) s = s * 7 + *--i; return s; })());
    BOTH("reverse_iterator", ([&] { long s = 0; auto rb = std::make_reverse_iterator(e), re = std::make_reverse_iterator(b); for (auto i = rb; i != re; ++i) s = s * 5 + *i; return s; })());
    for (int k = 0; k <= n; ++k) {
      BOTH("rotate", pos(std::rotate(b, b + k, e)));
      BOTH("nth_element", (std::nth_element(b, b + k, e), k < n ? (long)*(b + k) : 0));
      BOTH("find", pos(std::find(b, e, k)));
      BOTH("count", (long)std::count(b, e, k));
      BOTH("lower_bound", (std::sort(b, e), pos(std::lower_bound(b, e, k))));
      BOTH("upper_bound", (std::sort(b, e), pos(std::upper_bound(b, e, k))));
      BOTH("partition", pos(std::partition(b, e, [&](int x) { return x < k; })));
      BOTH("remove", pos(std::remove(b, e, k)));
      BOTH("replace", (std::replace(b, e, k, 99), 0));
      BOTH("next", pos(std::next(b, k)));
      BOTH("prev", pos(std::prev(e, k)));
      for (int l = 0; k + l <= n; ++l) {
        BOTH("copy down", k ? pos(std::copy(b + k, b + k + l, b)) : 0);
        BOTH("copy up", pos(std::copy_backward(b, b + l, b + k + l)));
        BOTH("fill", (std::fill(b + k, b + k + l, 77), 0));
        BOTH("swap_ranges", l <= k ? pos(std::swap_ranges(b, b + l, b + k)) : 0);
        BOTH("equal", (long)std::equal(b, b + l, b + k));
        BOTH("sort of a part", (std::sort(b + k, b + k + l), 0));
      }
    }
    // a container made from a range
    std::vector<int> a = in;
    a.reserve(n + 1);
    std::vector<int> made(I(a.data()), I(a.data() + n));
    WANT(made == in, "a vector made from the range differs");
    ex.state(mc::hash(in.data(), in.size() * sizeof(int)));
    ex.traces();
  }
  /// arrays of bytes too large to be touched: all pairs of positions
  void far(mc::Explorer& ex, int bits, int size) {
    const long n = 1l << bits;
    char* m = (char*)mmap(nullptr, (n + 1) * size, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) mc::fail("no address space");
    std::vector<long> p{0, n};
    for (int b = 0; b <= bits; ++b) for (long d : {-1, 0, 1}) if ((1l << b) + d <= n) { p.push_back((1l << b) + d); p.push_back(n - ((1l << b) + d)); }
    auto all = [&](auto* a) {
      typedef eni::PointerIterator<typename std::remove_reference<decltype(*a)>::type> I;
      for (long i : p) for (long j : p) {
        I x(a + i), y(a + j), z(x);
        observe(a, n, x, i, y, j, false);
        if (j >= i) { z += (size_t)(j - i); observe(a, n, z, j, x, i, false); z -= (size_t)(j - i); }
        observe(a, n, z, i, y, j, false);
        ex.transitions(3);
      }
    };
    if (size == 1) all((char*)m); else if (size == 8) all((long*)m); else all((Wide*)m);
    munmap(m, (n + 1) * size);
    ex.state(mc::hash(mc::fmt("far %d %d", bits, size)));
    ex.traces();
  }
  void exec(mc::Explorer& ex, const string& c) override {
    std::vector<string> f = mc::split(c, ' ');
    auto num = [&](size_t i) { return atol(f[i].c_str()); };
    if (f[0] == "s") {
      switch (num(1)) {
        case 0: space<char>(ex, num(2), "char"); break;
        case 1: space<int>(ex, num(2), "int"); break;
        case 2: space<Odd>(ex, num(2), "three bytes"); break;
        case 3: space<Wide>(ex, num(2), "four words"); break;
        case 4: space<double>(ex, num(2), "double"); break;
        case 5: space<const char*>(ex, num(2), "pointer"); break;
        default: space<json::Value>(ex, num(2), "JSON value");
      }
    } else if (f[0] == "w") walks(ex, num(1), num(2), (int)num(3));
    else if (f[0] == "f") far(ex, (int)num(1), (int)num(2));
    else {
      std::vector<int> in;
      for (size_t i = 1; i < f.size(); ++i) if (!f[i].empty()) in.push_back((int)num(i));
      algorithms(ex, in);
    }
  }
  void enumerate(mc::Explorer& ex) override {
    for (int t = 0; t < 7; ++t) for (int n = 0; n <= ex.tier(t == 6 ? 7 : 16, 30); ++n) ex.all(mc::fmt("s %d %d", t, n));
    for (int n = 0; n <= 5; ++n) for (int i = 0; i <= n; ++i) ex.all(mc::fmt("w %d %d %d", n, i, ex.tier(5, 7)));
    for (int b = 1; b <= 36; ++b) for (int s : {1, 8, 32}) ex.all(mc::fmt("f %d %d", b, s));
    std::function<void(string, int, int)> rec = [&](string s, int left, int k) { ex.all("a" + s); if (left) for (int v = 0; v < k; ++v) rec(s + mc::fmt(" %d", v), left - 1, k); };
    rec("", ex.tier(5, 6), 4);                       // all sequences over four values
    for (int n : {16, 17, 31, 100, 300}) for (int k : {3, 7, 1000}) { string s = "a"; for (int i = 0; i < n; ++i) s += mc::fmt(" %d", (i * 7919 + 13) % k); ex.all(s); }
  }
};
MC_MAIN(Iter)
