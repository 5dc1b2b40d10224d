// M01: eni::MallocAllocator against a list of blocks, in all sequences of
// operations; requests for memory that fail; sizes around every power of two.
#include "mc.hpp"
#include <new>
#include <support/MallocAllocator.h>

static bool g_On = false;
static long g_Fail = 0, g_Count = 0, g_Frees = 0;
static size_t g_Asked = 0;
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
static bool refuse(size_t n) {
  if (!g_On) return false;
  g_Asked = n;
  return ++g_Count == g_Fail || n > 1ul << 30;
}
void* __wrap_malloc(size_t n) { return refuse(n) ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return b && a > SIZE_MAX / b ? nullptr : refuse(a * b) ? nullptr : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return refuse(n) ? nullptr : __real_realloc(p, n); }
void __wrap_free(void* p) { if (g_On && p) ++g_Frees; __real_free(p); }
}
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { __wrap_free(p); }

// counts its lives; & is not the address
struct Seen {
  static std::set<const void*>* alive;
  static long made, copied, ended;
  int v; char pad[20];
  Seen() : v(0) { memset(pad, 0, sizeof pad); ++made; born(); }
  Seen(int i) : v(i) { memset(pad, 0, sizeof pad); born(); }
  Seen(const Seen& o) : v(o.v) { memcpy(pad, o.pad, sizeof pad); ++copied; born(); }
  ~Seen() { ++ended; if (!alive->erase(this)) mc::fail("an object ends that did not live"); v = -77; }
  void born() { if (!alive->insert(this).second) mc::fail("an object is made where one lives"); }
};
std::set<const void*>* Seen::alive;
long Seen::made, Seen::copied, Seen::ended;
struct Big { int w[11]; };
struct Odd { char c[7]; };

template <class T> T make(int i);
template <> char make<char>(int i) { return (char)(i + 3); }
template <> double make<double>(int i) { return i * 1.5; }
template <> Big make<Big>(int i) { Big b; for (int& x : b.w) x = i; return b; }
template <> Odd make<Odd>(int i) { Odd b; memset(b.c, i, 7); return b; }
template <> Seen make<Seen>(int i) { return Seen(i); }
template <> std::string make<std::string>(int i) { return std::string(i * 9, 'm'); }
bool same(char a, char b) { return a == b; }
bool same(double a, double b) { return a == b; }
bool same(const Big& a, const Big& b) { return !memcmp(&a, &b, sizeof a); }
bool same(const Odd& a, const Odd& b) { return !memcmp(&a, &b, sizeof a); }
bool same(const Seen& a, const Seen& b) { return a.v == b.v && !memcmp(a.pad, b.pad, sizeof a.pad); }
bool same(const std::string& a, const std::string& b) { return a == b; }

template <class T> struct Run {
  typedef eni::MallocAllocator<T> A;
  struct Block { T* p; size_t n; std::vector<int> live; };   // live: -1 nothing, 0 default, else the value
  A a[2];
  std::vector<Block> b;
  mc::Explorer& ex;
  Run(mc::Explorer& ex) : ex(ex) {}
  void look(const char* where) {
    for (Block& x : b)
      for (size_t i = 0; i < x.n; ++i) if (x.live[i] >= 0 && !same(x.p[i], x.live[i] ? make<T>(x.live[i]) : T())) mc::fail(mc::fmt("%s: element %zu of a block of %zu changed", where, i, x.n));
  }
  T* take(A& al, size_t n) {
    g_Asked = 0; g_Count = 0; g_On = true;
    T* p = n == 1 ? al.allocate() : n == 2 ? al.allocate(n, this) : al.allocate(n);
    g_On = false;
    return p;
  }
  void apply(int op, int k) {
    A& al = a[k % 2];
    switch (op) {
      case 0: case 1: case 2: {                       // allocate
        size_t n = op == 0 ? 1 : op == 1 ? 2 : 5;
        T* p = take(al, n);
        if (!p) mc::fail(mc::fmt("no storage for %zu elements", n));
        if (((uintptr_t)p) % alignof(T)) mc::fail("storage is not aligned");
        for (Block& x : b) if (p < x.p + x.n && x.p < p + n) mc::fail("storage is given twice");
        memset((void*)p, 0xd7, n * sizeof(T));
        b.push_back({p, n, std::vector<int>(n, -1)});
        break;
      }
      case 3: case 4: {                               // construct in the first free place of block k
        if (k >= (int)b.size()) return;
        Block& x = b[k];
        for (size_t i = 0; i < x.n; ++i) if (x.live[i] < 0) {
          if (op == 3) al.construct(x.p + i);
          else { T v = make<T>(k + 1); al.construct(x.p + i, v); }
          x.live[i] = op == 3 ? 0 : k + 1;
          if (al.address(x.p[i]) != x.p + i || al.address((const T&)x.p[i]) != x.p + i) mc::fail("address() is not the address");
          break;
        }
        break;
      }
      case 5: {                                       // destroy the last that lives in block k
        if (k >= (int)b.size()) return;
        Block& x = b[k];
        for (size_t i = x.n; i-- > 0; ) if (x.live[i] >= 0) { al.destroy(x.p + i); x.live[i] = -1; break; }
        break;
      }
      case 6: case 7: {                               // give block k back, with its size or without
        if (k >= (int)b.size()) return;
        Block& x = b[k];
        for (size_t i = 0; i < x.n; ++i) if (x.live[i] >= 0) al.destroy(x.p + i);
        g_Frees = 0; g_On = true;
        if (op == 6) al.deallocate(x.p, x.n); else al.deallocate(x.p);
        g_On = false;
        if (g_Frees != 1) mc::fail(mc::fmt("deallocate gives back %ld blocks", g_Frees));
        b.erase(b.begin() + k);
        break;
      }
      case 8: { A c(al); T* p = take(c, 3); if (!p) mc::fail("no storage from a copy"); memset((void*)p, 1, 3 * sizeof(T)); A d(std::move(c)); d.deallocate(p, 3); a[1 - k % 2] = al; a[k % 2] = std::move(d); break; }
      case 9: {                                       // the same for another type
        typedef typename A::template rebind<Odd>::other O;
        O o;
        Odd* p = o.allocate(4);
        if (!p) mc::fail("no storage for another type");
        o.construct(p + 3, make<Odd>(9));
        if (p[3].c[6] != 9) mc::fail("another type is constructed wrongly");
        typedef typename O::template rebind<T>::other Back;
        if (!std::is_same<Back, A>::value) mc::fail("rebinding back gives another type");
        typename A::template rebind<void>::other none;
        void* q = none.allocate(11);
        if (!q) mc::fail("no raw storage");
        memset(q, 5, 11);
        if (none.address(q) != q) mc::fail("address() of raw storage");
        none.deallocate(q, 11);
        if (p[3].c[0] != 9) mc::fail("raw storage overlaps");
        o.deallocate(p, 4);
        break;
      }
      case 10: al.deallocate(nullptr); al.deallocate(nullptr, 7); break;
      case 11: {                                      // no memory
        g_Fail = 1;
        T* p = take(al, k + 1);
        g_Fail = 0;
        if (p) mc::fail("storage although there is no memory");
        break;
      }
    }
    look("afterwards");
  }
  void end() {
    while (!b.empty()) apply(6, 0);
    ex.traces();
  }
  // n elements, for sizes that may not exist
  void size(size_t n) {
    T* p = take(a[0], n);
    const bool possible = n <= SIZE_MAX / sizeof(T) && n * sizeof(T) <= 1ul << 30;
    if (!possible && p) mc::fail(mc::fmt("storage of %zu bytes is given for %zu elements of %zu bytes", g_Asked, n, sizeof(T)));
    if (n && possible && !p) mc::fail(mc::fmt("no storage for %zu elements", n));
    if (p && n && g_Asked / sizeof(T) < n) mc::fail(mc::fmt("%zu bytes for %zu elements of %zu bytes", g_Asked, n, sizeof(T)));
    if (p && n) { memset((void*)p, 1, sizeof(T)); memset((void*)(p + n - 1), 1, sizeof(T)); }
    a[1].deallocate(p, n);
    if (a[0].max_size() != SIZE_MAX / sizeof(T)) mc::fail(mc::fmt("max_size is %zu", a[0].max_size()));
    eni::MallocAllocator<void> v;
    const size_t c = std::min<size_t>(n, 1ul << 40);
    g_On = true;
    void* q = v.allocate(c);
    g_On = false;
    if (c && (q != nullptr) != (c <= 1ul << 30)) mc::fail(mc::fmt("raw storage of %zu bytes: %s", c, q ? "given" : "none"));
    if (q && c) { ((char*)q)[0] = 1; ((char*)q)[c - 1] = 1; }
    v.deallocate(q);
    ex.transitions(2);
  }
};
enum { Ops = 12 };

struct H : mc::Harness {
  const char* rule() override { return "kinds of element x all sequences of allocate, construct, destroy, give back, copy, rebind, failing requests; kinds x sizes around all powers of two; distinct by case"; }
  template <class T> void run(mc::Explorer& ex, const std::string& how, const std::vector<std::string>& f) {
    if (how == "n") { Run<T>(ex).size(strtoull(f[2].c_str(), 0, 10)); ex.state(mc::hash(f[1] + " " + f[2])); return; }
    // s <kind> <depth> <first op>: all ways to go on
    const int depth = atoi(f[2].c_str());
    std::vector<int> op{atoi(f[3].c_str())};
    auto play = [&] {
      Seen::alive->clear();
      if (ex.verbose()) { std::string s; for (int o : op) s += mc::fmt("%d.%d ", o / 3, o % 3); ex.note(s); }
      Run<T> r(ex);
      for (int o : op) r.apply(o / 3, o % 3);
      r.end();
      if (!Seen::alive->empty()) mc::fail("objects live on");
      ex.transitions(op.size());
      uint64_t h = mc::hash(op.data(), op.size() * sizeof(int));
      ex.state(mc::hash(f[1], h));
    };
    std::function<void()> rec = [&] {
      if ((int)op.size() == depth) { play(); return; }
      for (int o = 0; o < Ops * 3; ++o) {
        if (o % 3 && (o / 3 < 3 || (o / 3 >= 8 && o / 3 < 11))) continue;      // the block does not matter
        op.push_back(o);
        rec();
        op.pop_back();
      }
    };
    rec();
  }
  void exec(mc::Explorer& ex, const std::string& c) override {
    static std::set<const void*> alive;
    Seen::alive = &alive;
    auto f = mc::split(c, ' ');
    switch (f[1][0]) {
      case 'c': run<char>(ex, f[0], f); break;
      case 'd': run<double>(ex, f[0], f); break;
      case 'b': run<Big>(ex, f[0], f); break;
      case 'o': run<Odd>(ex, f[0], f); break;
      case 's': run<Seen>(ex, f[0], f); break;
      case 't': run<std::string>(ex, f[0], f); break;
    }
  }
  void enumerate(mc::Explorer& ex) override {
    for (char k : std::string("cdbost")) {
      for (int d = 1; d <= ex.tier(4, 5); ++d)
        for (int o = 0; o < Ops * 3; ++o) ex.all(mc::fmt("s %c %d %d", k, d, o));
      std::set<unsigned long long> n;
      for (int i = 0; i < 300; ++i) n.insert(i);
      for (unsigned long long q : {1, 7, 8, 24, 32, 44})
        for (int p = 0; p <= 64; ++p)
          for (int d = -3; d <= 3; ++d) { unsigned long long v = (p == 64 ? 0ull : 1ull << p) + d; n.insert(v / q); n.insert(v / q + 1); n.insert(v); n.insert(v * q); }
      for (int m = 1; m <= 44; ++m) for (int r = 0; r < 3; ++r) n.insert(~0ull / 44 * m + r), n.insert(~0ull / 24 * m + r), n.insert(~0ull / 7 * m + r), n.insert(~0ull / 8 * m + r);
      for (auto v : n) ex.all(mc::fmt("n %c %llu", k, v));
    }
  }
};
MC_MAIN(H)
