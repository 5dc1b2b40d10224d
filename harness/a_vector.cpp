// A01: eni::Vector against a mathematical sequence.
// Two vectors a and b; every operation, with every valid position and every
// operand (values, elements of a itself, ranges of b), in every reachable state
// up to a size; plus growth sweeps over all sizes.
#include "bfs.hpp"
#include "ref_json.hpp"
#include <adt/Vector.h>
#include <numeric>

struct Big { long long w[5]; bool operator==(const Big& o) const { return !memcmp(w, o.w, sizeof w); } };

// model values are small integers; 0 stands for a value-initialised element
template <class T> struct Elem;
template <> struct Elem<int> { static int make(int i) { return i ? 1000003 * i : 0; } static bool eq(int v, int i) { return v == make(i); } };
template <> struct Elem<char> { static char make(int i) { return (char)(i * 77); } static bool eq(char v, int i) { return v == make(i); } };
template <> struct Elem<Big> {
  static Big make(int i) { Big b; for (int k = 0; k < 5; ++k) b.w[k] = i ? i * 7919LL + k : 0; return b; }
  static bool eq(const Big& v, int i) { return v == make(i); }
};
template <> struct Elem<json::Value> {
  static const ref::V& model(int i) {
    static std::vector<ref::V> m;
    if (m.empty()) {
      m.push_back(ref::V());
      m.push_back(ref::V::string("a string that does not fit into its object"));
      ref::V a = ref::V::array();
      a.a.push_back(ref::V::integer("7"));
      a.a.push_back(ref::V::string("x"));
      m.push_back(a);
      ref::V o = ref::V::object();
      o.set("k", a);
      m.push_back(o);
      m.push_back(ref::V::integer("-12345678901234567890123456789"));
      m.push_back(ref::V::boolean(true));
    }
    return m[i <= 0 ? 0 : 1 + (i - 1) % 5];
  }
  static json::Value make(int i) { return ref::make(model(i)); }
  static bool eq(const json::Value& v, int i) { return ref::diff(v, model(i)).empty(); }
};

template <class T> struct SysVec {
  typedef eni::Vector<T> Vec;
  typedef Elem<T> E;
  enum Kind { PushX, PushSelf, Pop, EmplaceX, EmplaceSelf, InsX, InsSelf, InsNX, InsNSelf, InsRange, InsPtrRange, InsList,
              ItInsX, ItInsSelf, ItInsNX, ItInsRange, ItInsList, Er1, ErN, ItEr1, ItErN, Resize, ResizeX, ResizeSelf, Reserve,
              AssignX, AssignSelf, AssignRange, AssignList, AssignB, AssignA, AssignSelfWhole, AssignOpList, Swap, Clear,
              CopyB, NewN, NewNX, NewStd, NewList, NewCopy, NewEmpty, Shrink, SetX, Sort, Reverse, PushB };
  struct Op { Kind k; int i, j, x; };
  std::unique_ptr<Vec> a, b;
  std::vector<int> A, B;
  int cap, nv;
  bool full;
  bool checking = true;
  std::vector<Op> table;
  static const char* kname(Kind k) {
    static const char* n[] = {"push_back(x)", "push_back(a[i])", "pop_back", "emplace_back(x)", "emplace_back(a[i])", "insert(i,x)",
      "insert(i,a[j])", "insert(i,n,x)", "insert(i,n,a[j])", "insert(i,range of b)", "insert(i,pointers)", "insert(i,list)",
      "insert(it,x)", "insert(it,a[j])", "insert(it,n,x)", "insert(it,range of b)", "insert(it,list)", "erase(i)", "erase(i,j)",
      "erase(it)", "erase(it,it)", "resize(n)", "resize(n,x)", "resize(n,a[j])", "reserve(n)", "assign(n,x)", "assign(n,a[j])",
      "assign(range of b)", "assign(list)", "a=b", "b=a", "a=a", "a=list", "swap", "clear", "b=copy of a", "new(n)", "new(n,x)",
      "new(std::vector)", "new(list)", "new(copy of b)", "new()", "shrink_to_fit", "a[i]=x", "sort", "reverse", "b.push_back(x)"};
    return n[k];
  }
  SysVec(int cap, int nv, bool full) : cap(cap), nv(nv), full(full) {
    auto add = [&](Kind k, int i = 0, int j = 0, int x = 0) { table.push_back({k, i, j, x}); };
    int xs = nv;
    for (int x = 1; x <= xs; ++x) add(PushX, 0, 0, x), add(PushB, 0, 0, x);
    add(EmplaceX, 0, 0, 1);
    add(Pop); add(AssignB); add(AssignA); add(AssignSelfWhole); add(Swap); add(Clear); add(CopyB); add(NewCopy); add(NewEmpty); add(Shrink); add(Reverse);
    if (std::is_same<T, int>::value) add(Sort);
    for (int j = 0; j < cap; ++j) { add(PushSelf, 0, j); add(EmplaceSelf, 0, j); add(SetX, j, 0, 1); }
    for (int i = 0; i <= cap; ++i) {
      for (int x = 1; x <= xs; ++x) add(InsX, i, 0, x);
      add(ItInsX, i, 0, 1);
      add(Er1, i); add(ItEr1, i);
      for (int j = 0; j < cap; ++j) { add(InsSelf, i, j); add(ItInsSelf, i, j); }
      for (int n = 0; n <= 3; ++n) {
        add(InsNX, i, n, 1); add(ItInsNX, i, n, 1);
        if (n) for (int j = 0; j < cap; ++j) add(InsNSelf, i, n, j);
      }
      for (int p = 0; p <= 2; ++p)
        for (int q = p; q <= 2; ++q) { add(InsRange, i, p, q); add(ItInsRange, i, p, q); }
      for (int n = 0; n <= 2; ++n) { add(InsList, i, n); add(ItInsList, i, n); add(InsPtrRange, i, n); }
      for (int j = i + 1; j <= cap; ++j) { add(ErN, i, j); add(ItErN, i, j); }
      add(Resize, i); add(Reserve, i);
      add(ResizeX, i, 0, 1); add(AssignX, i, 0, 1);
      for (int j = 0; j < cap; ++j) { add(ResizeSelf, i, j); add(AssignSelf, i, j); }
      add(NewN, i); add(NewNX, i, 0, 1); add(NewStd, i);
    }
    add(Reserve, cap + 3);
    for (int p = 0; p <= 2; ++p) for (int q = p; q <= 2; ++q) add(AssignRange, p, q);
    for (int n = 0; n <= 3; ++n) { add(AssignList, n); add(AssignOpList, n); add(NewList, n); }
  }
  void reset() { a.reset(new Vec); b.reset(new Vec); A.clear(); B.clear(); }
  void ops(std::vector<int>& r) {
    int n = A.size(), m = B.size();
    for (size_t o = 0; o < table.size(); ++o) {
      const Op& p = table[o];
      bool ok = true;
      switch (p.k) {
        case PushX: case EmplaceX: ok = n < cap; break;
        case PushB: ok = m < 2; break;
        case PushSelf: case EmplaceSelf: ok = n < cap && p.j < n; break;
        case Pop: case Sort: case Reverse: ok = n > 0; break;
        case SetX: ok = p.i < n; break;
        case InsX: case ItInsX: ok = p.i <= n && n < cap; break;
        case InsSelf: case ItInsSelf: ok = p.i <= n && p.j < n && n < cap; break;
        case InsNX: case ItInsNX: ok = p.i <= n && n + p.j <= cap; break;
        case InsNSelf: ok = p.i <= n && p.x < n && n + p.j <= cap; break;
        case InsRange: case ItInsRange: ok = p.i <= n && p.x <= m && n + p.x - p.j <= cap; break;
        case InsList: case ItInsList: case InsPtrRange: ok = p.i <= n && n + p.j <= cap; break;
        case Er1: case ItEr1: ok = p.i < n; break;
        case ErN: case ItErN: ok = p.j <= n; break;
        case ResizeSelf: case AssignSelf: ok = p.j < n; break;
        case AssignA: case CopyB: ok = n <= 2; break;
        case Swap: ok = n <= 2; break;
        case AssignRange: ok = p.j <= m; break;
        default: break;
      }
      if (ok) r.push_back(o);
    }
  }
  std::string name(int o) const {
    const Op& p = table[o];
    return mc::fmt("%s[%d,%d,%d]", kname(p.k), p.i, p.j, p.x);
  }
  std::vector<int> list(int n) { std::vector<int> l; for (int i = 0; i < n; ++i) l.push_back(1 + i % nv); return l; }
  void returned(typename Vec::iterator it, int want) {
    int d = it - a->begin();
    if (d != want) mc::fail(mc::fmt("the returned position is %d instead of %d", d, want));
  }
  void apply(int o) {
    const Op p = table[o];
    Vec &v = *a, &w = *b;
    auto x = [&] { return E::make(p.x); };
    auto ins = [&](int at, std::vector<int> l) { A.insert(A.begin() + at, l.begin(), l.end()); };
    auto cit = [&](int i) { const Vec& c = w; typename Vec::const_iterator t = c.begin(); t += i; return t; };
    auto it = [&](int i) { typename Vec::iterator t = v.begin(); t += i; return t; };
    switch (p.k) {
      case PushX: v.push_back(x()); A.push_back(p.x); break;
      case PushB: w.push_back(x()); B.push_back(p.x); break;
      case PushSelf: v.push_back(v[p.j]); A.push_back(int(A[p.j])); break;
      case EmplaceX: v.emplace_back(x()); A.push_back(p.x); break;
      case EmplaceSelf: v.emplace_back(v[p.j]); A.push_back(int(A[p.j])); break;
      case Pop: { T t = v.pop_back(); if (!E::eq(t, A.back())) mc::fail("pop_back answers a wrong element"); A.pop_back(); break; }
      case InsX: v.insert((size_t)p.i, x()); ins(p.i, {p.x}); break;
      case ItInsX: returned(v.insert(it(p.i), x()), p.i); ins(p.i, {p.x}); break;
      case InsSelf: v.insert((size_t)p.i, v[p.j]); ins(p.i, {A[p.j]}); break;
      case ItInsSelf: returned(v.insert(it(p.i), v[p.j]), p.i); ins(p.i, {A[p.j]}); break;
      case InsNX: v.insert((size_t)p.i, (size_t)p.j, x()); ins(p.i, std::vector<int>(p.j, p.x)); break;
      case ItInsNX: returned(v.insert(it(p.i), (size_t)p.j, x()), p.i); ins(p.i, std::vector<int>(p.j, p.x)); break;
      case InsNSelf: v.insert((size_t)p.i, (size_t)p.j, v[p.x]); ins(p.i, std::vector<int>(p.j, int(A[p.x]))); break;
      case InsRange: v.insert((size_t)p.i, cit(p.j), cit(p.x)); ins(p.i, std::vector<int>(B.begin() + p.j, B.begin() + p.x)); break;
      case ItInsRange: returned(v.insert(it(p.i), cit(p.j), cit(p.x)), p.i); ins(p.i, std::vector<int>(B.begin() + p.j, B.begin() + p.x)); break;
      case InsPtrRange: {
        std::vector<int> l = list(p.j);
        std::vector<T> t;
        for (int i : l) t.push_back(E::make(i));
        typename Vec::const_iterator f((const T*)t.data()), g((const T*)t.data() + t.size());
        v.insert((size_t)p.i, f, g);
        ins(p.i, l);
        break;
      }
      case InsList: case ItInsList: {
        auto go = [&](std::initializer_list<T> l) { if (p.k == InsList) v.insert((size_t)p.i, l); else returned(v.insert(it(p.i), l), p.i); };
        if (p.j == 0) go({}); else if (p.j == 1) go({E::make(1)}); else go({E::make(1), E::make(1 + 1 % nv)});
        ins(p.i, list(p.j));
        break;
      }
      case Er1: v.erase((size_t)p.i); A.erase(A.begin() + p.i); break;
      case ItEr1: returned(v.erase(it(p.i)), p.i); A.erase(A.begin() + p.i); break;
      case ErN: v.erase((size_t)p.i, (size_t)p.j); A.erase(A.begin() + p.i, A.begin() + p.j); break;
      case ItErN: returned(v.erase(it(p.i), it(p.j)), p.i); A.erase(A.begin() + p.i, A.begin() + p.j); break;
      case Resize: v.resize(p.i); A.resize(p.i, 0); break;
      case ResizeX: v.resize(p.i, x()); A.resize(p.i, p.x); break;
      case ResizeSelf: { int t = A[p.j]; v.resize(p.i, v[p.j]); A.resize(p.i, t); break; }
      case Reserve: v.reserve(p.i); if (v.capacity() < (size_t)p.i) mc::fail("reserve leaves less capacity than asked for"); break;
      case AssignX: v.assign((size_t)p.i, x()); A.assign(p.i, p.x); break;
      case AssignSelf: { int t = A[p.j]; v.assign((size_t)p.i, v[p.j]); A.assign(p.i, t); break; }
      case AssignRange: v.assign(cit(p.i), cit(p.j)); A.assign(B.begin() + p.i, B.begin() + p.j); break;
      case AssignList: case AssignOpList: case NewList: {
        auto go = [&](std::initializer_list<T> l) {
          if (p.k == AssignList) v.assign(l);
          else if (p.k == AssignOpList) { if (&(v = l) != &v) mc::fail("assignment does not answer the vector"); }
          else a.reset(new Vec(l));
        };
        int y = 1 + 1 % nv, z = 1 + 2 % nv;
        if (p.i == 0) go({}); else if (p.i == 1) go({E::make(1)}); else if (p.i == 2) go({E::make(1), E::make(y)});
        else go({E::make(1), E::make(y), E::make(z)});
        A = list(p.i);
        break;
      }
      case AssignB: if (&(v = w) != &v) mc::fail("assignment does not answer the vector"); A = B; break;
      case AssignA: w = v; B = A; break;
      case AssignSelfWhole: { Vec& same = v; v = same; break; }
      case Swap: v.swap(w); A.swap(B); break;
      case Clear: v.clear(); A.clear(); break;
      case CopyB: b.reset(new Vec(v)); B = A; break;
      case NewCopy: a.reset(new Vec(w)); A = B; break;
      case NewEmpty: a.reset(new Vec()); A.clear(); break;
      case NewN: a.reset(new Vec((size_t)p.i)); A.assign(p.i, 0); break;
      case NewNX: a.reset(new Vec((size_t)p.i, x())); A.assign(p.i, p.x); break;
      case NewStd: {
        std::vector<T> t;
        A = list(p.i);
        for (int i : A) t.push_back(E::make(i));
        a.reset(new Vec(t));
        break;
      }
      case Shrink: v.shrink_to_fit(); break;
      case SetX: v[p.i] = x(); A[p.i] = p.x; break;
      case Sort: sortThem(v); break;
      case Reverse:
        std::reverse(A.begin(), A.end());
        for (size_t i = 0, j = v.size() - 1; i < j; ++i, --j) { T t(v[i]); v[i] = v[j]; v[j] = t; }
        break;
    }
    if (!checking) return;
    check(*a, A, "a");
    check(*b, B, "b");
  }
  void sortThem(eni::Vector<int>& v) { std::sort(v.data(), v.data() + v.size()); std::sort(A.begin(), A.end(), [](int x, int y) { return Elem<int>::make(x) < Elem<int>::make(y); }); }
  template <class U> void sortThem(U&) {}
  static void check(Vec& v, const std::vector<int>& m, const char* n) {
    const Vec& c = v;
    size_t s = m.size();
    if (c.size() != s) mc::fail(mc::fmt("%s has %zu elements instead of %zu", n, c.size(), s));
    if (c.empty() != m.empty()) mc::fail("empty() disagrees with the number of elements");
    if (c.capacity() < s) mc::fail(mc::fmt("%s has capacity %zu below its size %zu", n, c.capacity(), s));
    for (size_t i = 0; i < s; ++i) {
      if (!E::eq(c[i], m[i])) mc::fail(mc::fmt("element %zu of %s is wrong", i, n));
      if (&v[i] != &c[i] || &v.at(i) != &c[i] || &c.at(i) != &c[i]) mc::fail("element access disagrees");
    }
    if (s && (&v.front() != &v[0] || &v.back() != &v[s - 1] || v.data() != &v[0])) mc::fail("front, back or data is wrong");
    size_t i = 0;
    for (const T& e : c) if (i >= s || &e != &c[i++]) mc::fail("constant iteration is wrong");
    if (i != s) mc::fail("constant iteration ends early");
    i = 0;
    for (T& e : v) if (i >= s || &e != &v[i++]) mc::fail("iteration is wrong");
    if (i != s) mc::fail("iteration ends early");
    if (s <= 6) iterators(v, s);
  }
  template <class V> static void iters(V& v, size_t s) {
    auto first = v.begin();
    auto last = v.end();
    if (last - first != (ptrdiff_t)s) mc::fail("end - begin is not the size");
    for (size_t i = 0; i <= s; ++i) {
      auto x = v.begin() + i, y = last - (s - i), z = first, u = last;
      z += i; u -= s - i;
      if (x != y || z != u || !(x == z)) mc::fail("iterator arithmetic is wrong");
      if (i < s) {
        if (&*x != &v[i] || &first[i] != &v[i] || x.operator->() != &v[i]) mc::fail("an iterator points to the wrong element");
        auto p = x, q = x;
        auto pp = p++;
        if (pp != x || p - x != 1 || &++q == nullptr || q != p) mc::fail("incrementing an iterator is wrong");
        auto mm = p--;
        --q;
        if (mm - x != 1 || p != x || q != x) mc::fail("decrementing an iterator is wrong");
      }
      for (size_t j = 0; j <= s; ++j) {
        auto w = v.begin() + j;
        if (x - w != (ptrdiff_t)i - (ptrdiff_t)j) mc::fail("an iterator difference is wrong");
        if ((x < w) != (i < j) || (x > w) != (i > j) || (x <= w) != (i <= j) || (x >= w) != (i >= j) || (x == w) != (i == j) ||
            (x != w) != (i != j))
          mc::fail("comparing iterators is wrong");
        auto g = x;
        if (&(g = w) != &g || g != w) mc::fail("assigning an iterator is wrong");
      }
    }
  }
  static void iterators(Vec& v, size_t s) { iters(v, s); const Vec& c = v; iters(c, s); }
  std::string key() const {
    std::string k;
    for (int i : A) k += (char)('0' + i);
    k += '|';
    for (int i : B) k += (char)('0' + i);
    return k + mc::fmt("|%zu|%zu", a->capacity(), b->capacity());
  }
};

template <class T> void sweep(mc::Explorer& ex, const std::string& how, int n) {
  typedef eni::Vector<T> Vec;
  typedef Elem<T> E;
  Vec v;
  std::vector<int> m;
  auto val = [](int i) { return 1 + i % 9; };
  auto quick = [&] {
    if (v.size() != m.size() || v.capacity() < m.size()) mc::fail(mc::fmt("%s: size %zu, capacity %zu instead of %zu elements", how.c_str(), v.size(), v.capacity(), m.size()));
    if (m.empty()) return;
    for (size_t i : {size_t(0), m.size() / 2, m.size() - 1})
      if (!E::eq(v[i], m[i])) mc::fail(mc::fmt("%s: element %zu of %zu is wrong", how.c_str(), i, m.size()));
    ex.transitions();
    ex.beat();
  };
  for (int i = 0; i < n; ++i) {
    if (how == "push") v.push_back(E::make(val(i))), m.push_back(val(i));
    else if (how == "self") { if (i == 0) v.push_back(E::make(5)), m.push_back(5); else { v.push_back(v[i / 2]); m.push_back(m[i / 2]); if (i % 7 == 3) v[i / 3] = E::make(val(i)), m[i / 3] = val(i); } }
    else if (how == "front") v.insert((size_t)0, E::make(val(i))), m.insert(m.begin(), val(i));
    else if (how == "mid") v.insert(v.size() / 2, E::make(val(i))), m.insert(m.begin() + m.size() / 2, val(i));
    else if (how == "frontself") { if (i == 0) v.push_back(E::make(5)), m.push_back(5); else { v.insert((size_t)0, v.back()); m.insert(m.begin(), int(m.back())); v.back() = E::make(val(i)); m.back() = val(i); } }
    else if (how == "resize") v.resize(i, E::make(val(i))), m.resize(i, val(i));
    else if (how == "reserve") { v.reserve(i); v.push_back(E::make(val(i))); m.push_back(val(i)); }
    else if (how == "list") { if (i % 3) continue; v.insert(v.size(), {E::make(1), E::make(2), E::make(3)}); m.insert(m.end(), {1, 2, 3}); }
    else if (how == "zigzag") {          // grow by pieces, shrink by pieces
      if (i % 5 < 3) { v.insert(v.size(), (size_t)(i % 37), E::make(val(i))); m.insert(m.end(), i % 37, val(i)); }
      else if (m.size() > 9) { v.erase(m.size() / 3, m.size() / 3 + 7); m.erase(m.begin() + m.size() / 3, m.begin() + m.size() / 3 + 7); }
      else { v.pop_back(); m.pop_back(); v.push_back(E::make(3)); m.push_back(3); }
    }
    quick();
  }
  SysVec<T>::check(v, m, how.c_str());
  Vec w(v), u;
  u = v;
  SysVec<T>::check(w, m, "copy");
  SysVec<T>::check(u, m, "assigned");
  std::vector<T> sv(v.data(), v.data() + v.size());
  Vec s(sv);
  SysVec<T>::check(s, m, "from std::vector");
  while (!m.empty()) {
    size_t k = std::min<size_t>(m.size(), 1 + m.size() / 16);
    size_t at = m.size() % 3 == 0 ? m.size() - k : m.size() % 3 == 1 ? 0 : (m.size() - k) / 2;
    v.erase(at, at + k);
    m.erase(m.begin() + at, m.begin() + at + k);
    quick();
  }
  SysVec<T>::check(v, m, how.c_str());
  ex.traces();
  ex.state(mc::hash(how + std::to_string(n) + std::to_string(sizeof(T))));
}

struct H : mc::Harness {
  const char* rule() override { return "states: contents and capacities of two vectors; every enabled operation in every state, replayed on the real vector"; }
  double hangSeconds() override { return 15; }
  template <class T> void space(mc::Explorer& ex, char how, int cap, int nv, int p, int w, int n) {
    SysVec<T> s(cap, nv, true);
    uint64_t salt = mc::hash(mc::fmt("%zu %d %d", sizeof(T), cap, nv));
    if (how == 'B') mc::bfs(ex, s, 4000000, p, salt);
    else mc::sequences(ex, s, p, w, n, salt);
  }
  void exec(mc::Explorer& ex, const std::string& c) override {
    char how, type, sub[16];
    int cap, nv, p, w = 0, n = 1;
    if (c[0] == 'G') {
      sscanf(c.c_str(), "G %c %15s %d", &type, sub, &n);
      if (type == 'i') sweep<int>(ex, sub, n);
      else if (type == 'c') sweep<char>(ex, sub, n);
      else if (type == 'b') sweep<Big>(ex, sub, n);
      else sweep<json::Value>(ex, sub, n);
      return;
    }
    sscanf(c.c_str(), "%c %c %d %d %d %d %d", &how, &type, &cap, &nv, &p, &w, &n);
    if (type == 'i') space<int>(ex, how, cap, nv, p, w, n);
    else if (type == 'c') space<char>(ex, how, cap, nv, p, w, n);
    else if (type == 'b') space<Big>(ex, how, cap, nv, p, w, n);
    else space<json::Value>(ex, how, cap, nv, p, w, n);
  }
  void enumerate(mc::Explorer& ex) override {
    auto add = [&](const std::string& c) { ex.all(c); };
    if (ex.thorough()) {
      for (char t : {'i', 'c', 'b'}) add(mc::fmt("B %c 6 2 99", t));
      add("B i 4 3 99"); add("B v 4 3 99"); add("B i 7 1 99"); add("B v 5 2 99");
      for (int w = 0; w < 64; ++w) add(mc::fmt("S i 4 2 4 %d 64", w));
      for (int w = 0; w < 64; ++w) add(mc::fmt("S v 4 2 3 %d 64", w));
    } else {
      add("B v 3 2 99"); add("B i 3 3 99"); add("B i 5 1 99"); add("B c 3 2 99"); add("B b 4 1 99"); add("B v 4 1 99");
      for (int w = 0; w < 16; ++w) add(mc::fmt("S i 3 2 3 %d 16", w));
      for (int w = 0; w < 16; ++w) add(mc::fmt("S v 3 1 3 %d 16", w));
    }
    for (const char* how : {"push", "self", "front", "mid", "frontself", "resize", "reserve", "list", "zigzag"})
      for (char t : {'i', 'c', 'b', 'v'}) {
        int lin = t == 'v' ? ex.tier(70, 300) : ex.tier(140, 1100);
        for (int n = 0; n <= lin; ++n) add(mc::fmt("G %c %s %d", t, how, n));
        for (int k = 9; k <= (t == 'v' || t == 'b' ? 11 : ex.tier(13, 15)); ++k)
          for (int d = -1; d <= 1; ++d) {
            if (!strcmp(how, "zigzag") && k > 10) continue;
            if ((!strcmp(how, "front") || !strcmp(how, "mid") || !strcmp(how, "frontself")) && k > (t == 'v' ? 9 : 12)) continue;
            add(mc::fmt("G %c %s %d", t, how, (1 << k) + d));
          }
      }
  }
};
MC_MAIN(H)
