// A02: operations on eni::Vector that cannot be done.
// calloc, malloc and realloc are wrapped: the n-th request can be made to fail,
// and requests above 1 GB always fail, as on a machine with that much memory.
#include "mc.hpp"
#include <new>
#include <adt/Vector.h>
#include <json/Array.h>
#include <json/Value.h>

static bool g_On = false;
static long g_Fail = 0, g_Count = 0;      // fail request number g_Fail (1 = first); 0 = none
static size_t g_Max = 1u << 30;
static bool refuse(size_t n) {
  if (!g_On) return false;
  ++g_Count;
  return n > g_Max || g_Count == g_Fail;
}
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { if (refuse(n)) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) {
  if (a && b > SIZE_MAX / a) { if (g_On) ++g_Count; errno = ENOMEM; return nullptr; }
  if (refuse(a * b)) { errno = ENOMEM; return nullptr; }
  return __real_calloc(a, b);
}
void* __wrap_realloc(void* p, size_t n) { if (refuse(n)) { errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }
}
// storage that containers get through operator new fails like the rest
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct Big { int w[11]; };
template <class T> T make(int i);
template <> int make<int>(int i) { return 1000003 * i; }
template <> char make<char>(int i) { return (char)(i * 7); }
template <> Big make<Big>(int i) { Big b; for (int& x : b.w) x = i; return b; }
template <> json::Value make<json::Value>(int i) { return json::Value(i); }
bool same(int v, int i) { return v == make<int>(i); }
bool same(char v, int i) { return v == make<char>(i); }
bool same(const Big& v, int i) { return v.w[0] == i && v.w[10] == i; }
bool same(const json::Value& v, int i) { return v.isInteger() && v.toInteger() == i; }

enum Outcome { Done, Range, Length, Memory, MemoryOther, Other };
static const char* const kOutcome[] = {"done", "out of range", "length error", "no memory", "std::bad_alloc", "another error"};

struct H : mc::Harness {
  const char* rule() override {
    return "operation x vector size and capacity x (each storage request failing in turn | impossible size | invalid position); "
           "distinct by operation, state, fault and kind of element";
  }
  double hangSeconds() override { return 15; }
  template <class F> static Outcome attempt(F f) {
    g_Count = 0;
    g_On = true;
    Outcome o = Done;
    try { f(); }
    catch (const eni::BadAlloc<eni::NoMemory>& e) { o = std::string(e.what()) == "no memory" ? Memory : Other; }
    catch (const std::bad_alloc&) { o = MemoryOther; }
    catch (const std::out_of_range&) { o = Range; }
    catch (const std::length_error&) { o = Length; }
    catch (...) { o = Other; }
    g_On = false;
    return o;
  }
  template <class T> void run(mc::Explorer& ex, int mode, int op, int size, int extra, long long arg, long nth) {
    typedef eni::Vector<T> Vec;
    Vec v;
    g_On = false; g_Fail = 0;
    if (extra) v.reserve(size + extra);
    for (int i = 0; i < size; ++i) v.push_back(make<T>(i + 1));
    Vec w({make<T>(91), make<T>(92), make<T>(93)});
    std::vector<T> sv;
    for (int i = 0; i < 3; ++i) sv.push_back(make<T>(91 + i));
    size_t n = size, capBefore = v.capacity(), m = (size_t)arg;
    T x = make<T>(77);
    std::unique_ptr<Vec> fresh;
    T out = make<T>(0);
    auto it = [&](size_t i) { auto t = v.begin(); t += i; return t; };
    const Vec& cw = w;
    const Vec& cv = v;
    std::function<void()> f;
    bool access = false;
    if (mode == 0 || mode == 1) {      // growing operations: mode 0 by small amounts, mode 1 by m
      size_t k = mode == 0 ? capBefore - n + 1 + (size_t)(arg & 7) : m;
      size_t total = mode == 0 ? n + k : m;
      switch (op) {
        case 0: f = [&, total] { v.reserve(total); }; break;
        case 1: f = [&, total] { v.resize(total); }; break;
        case 2: f = [&, total] { v.resize(total, x); }; break;
        case 3: f = [&, total] { v.assign(total, x); }; break;
        case 4: f = [&, k] { v.insert(n / 2, k, x); }; break;
        case 5: f = [&, k] { v.insert(v.begin(), k, x); }; break;
        case 6: f = [&, k] { v.insert(n, k, x); }; break;
        case 7: f = [&, total] { fresh.reset(new Vec(total)); }; break;
        case 8: f = [&, total] { fresh.reset(new Vec(total, x)); }; break;
        case 9: f = [&] { v.push_back(x); }; break;
        case 10: f = [&] { v.emplace_back(x); }; break;
        case 11: f = [&] { v.insert(n / 2, x); }; break;
        case 12: f = [&] { v.insert(v.begin(), x); }; break;
        case 13: f = [&] { v.insert(n, cw.begin(), cw.end()); }; break;
        case 14: f = [&] { v.insert(v.begin(), cw.begin(), cw.end()); }; break;
        case 15: f = [&] { v.insert((size_t)0, {x, x, x}); }; break;
        case 16: f = [&] { v.insert(v.end(), {x, x, x}); }; break;
        case 17: f = [&] { v = w; }; break;
        case 18: f = [&] { v = {x, x, x, x, x}; }; break;
        case 19: f = [&] { v.assign({x, x, x, x, x}); }; break;
        case 20: f = [&] { v.assign(cw.begin(), cw.end()); }; break;
        case 21: f = [&] { fresh.reset(new Vec(w)); }; break;
        case 22: f = [&] { fresh.reset(new Vec(sv)); }; break;
        case 23: f = [&] { fresh.reset(new Vec({x, x})); }; break;
        case 24: f = [&] { if (n) v.push_back(v[n / 2]); else v.push_back(x); }; break;
        case 25: f = [&] { if (n) v.insert((size_t)0, v[n - 1]); else v.push_back(x); }; break;
        default: ex.skip(); return;
      }
      if (mode == 1 && op > 8) { ex.skip(); return; }
    } else {                            // positions; m is the position, nth the second one
      size_t q = (size_t)nth;
      access = true;
      switch (op) {
        case 0: f = [&] { out = v.at(m); }; break;
        case 1: f = [&] { out = cv.at(m); }; break;
        case 2: f = [&] { v.insert(m, x); }; break;
        case 3: f = [&] { v.insert(m, (size_t)2, x); }; break;
        case 4: f = [&] { v.insert(m, cw.begin(), cw.end()); }; break;
        case 5: f = [&] { v.insert(m, {x, x}); }; break;
        case 6: f = [&] { v.erase(m); }; break;
        case 7: f = [&, q] { v.erase(m, q); }; break;
        case 8: f = [&] { v.insert(it(m), x); }; break;
        case 9: f = [&] { v.erase(it(m)); }; break;
        case 10: f = [&, q] { v.erase(it(m), it(q)); }; break;
        case 11: f = [&] { v.insert(it(m), (size_t)2, x); }; break;
        case 12: f = [&] { v.insert(it(m), {x, x}); }; break;
        case 13: f = [&] { v.insert(it(m), cw.begin(), cw.end()); }; break;
        case 14: f = [&] { v.insert(m, (size_t)0, x); }; break;
        case 15: f = [&] { v.insert(m, cw.begin(), cw.begin()); }; break;
        case 16: f = [&] { v.insert(m, {}); }; break;
        case 17: f = [&] { v.insert(m, cw.end(), cw.end()); }; break;
        case 18: f = [&] { v.insert(m, std::initializer_list<T>()); }; break;
        default: ex.skip(); return;
      }
      // positions that are valid belong to A01
      bool valid = op <= 1 || op == 6 || op == 9 ? m < n : op == 7 || op == 10 ? m < q && q <= n : m <= n;
      if (valid) { ex.skip(); return; }
      if ((op == 7 || op == 10) && m == q && q <= n) { ex.skip(); return; }    // nothing to erase: not specified
      if (op >= 8 && op <= 13 && m > 1000) { ex.skip(); return; }   // such an iterator cannot be formed
    }
    g_Fail = mode == 0 ? nth : 0;
    long before = g_Count;
    Outcome o = attempt(f);
    long used = g_Count;
    (void)before;
    std::string what = mc::fmt("mode %d operation %d on %zu elements (capacity %zu), argument %lld/%ld", mode, op, n, capBefore, arg, nth);
    if (mode == 0) {
      if (used < nth && o == Done) { ex.skip(); ex.count("requests_beyond_the_last"); return; }
      // a request that fails: not enough memory is reported, with the library's error where the vector's own storage is asked for
      if (used >= nth && o == Done) { ex.count("failures_tolerated"); return; }
      bool own = true;
      if (std::is_same<T, json::Value>::value || op == 7 || op == 8 || op >= 21) own = false;   // elements, or the object itself, are allocated too
      if (!(o == Memory || (!own && o == MemoryOther)))
        mc::fail(what + mc::fmt(": ends with %s when storage request %ld fails", kOutcome[o], nth));
    } else if (mode == 1) {
      if (!(o == Memory || o == Length || (o == MemoryOther && (op == 7 || op == 8))))
        mc::fail(what + ": a size that no memory can hold ends with " + kOutcome[o]);
    } else if (o != Range)
      mc::fail(what + ": an invalid position ends with " + kOutcome[o]);
    // unchanged?
    if (v.size() != n || v.empty() != (n == 0) || v.capacity() < n) mc::fail(what + mc::fmt(": size %zu, capacity %zu afterwards", v.size(), v.capacity()));
    bool halfDone = std::is_same<T, json::Value>::value && mode == 0 && used > 1;
    for (size_t i = 0; i < n; ++i)
      if (!same(v[i], i + 1)) { mc::fail(what + mc::fmt(": element %zu changed", i)); }
    (void)halfDone;
    for (int i = 0; i < 3; ++i) if (w.size() != 3 || !same(w[i], 91 + i)) mc::fail(what + ": the operand changed");
    // still usable?
    v.push_back(make<T>(50));
    v.insert((size_t)0, make<T>(51));
    v.insert(v.size(), (size_t)3, make<T>(52));
    if (v.size() != n + 5 || !same(v[0], 51) || !same(v[n + 1], 50) || !same(v[n + 4], 52)) mc::fail(what + ": not usable afterwards");
    for (size_t i = 0; i < n; ++i) if (!same(v[i + 1], i + 1)) mc::fail(what + ": elements are lost afterwards");
    v.erase((size_t)0);
    v.resize(n);
    Vec copy(v);
    for (size_t i = 0; i < n; ++i) if (!same(copy[i], i + 1)) mc::fail(what + ": a copy afterwards is wrong");
    v.clear();
    v.push_back(make<T>(9));
    if (v.size() != 1 || !same(v[0], 9)) mc::fail(what + ": not usable after clear");
    ex.transitions();
    ex.traces();
    ex.count(kOutcome[o]);
    ex.state(mc::hash(mc::fmt("%d %d %d %d %lld %ld %zu", mode, op, size, extra, arg, nth, sizeof(T))));
  }
  void exec(mc::Explorer& ex, const std::string& c) override {
    int type, mode, op, size, extra;
    long long arg;
    long nth;
    sscanf(c.c_str(), "%d %d %d %d %d %lld %ld", &type, &mode, &op, &size, &extra, &arg, &nth);
    if (type == 0) run<int>(ex, mode, op, size, extra, arg, nth);
    else if (type == 1) run<char>(ex, mode, op, size, extra, arg, nth);
    else if (type == 2) run<Big>(ex, mode, op, size, extra, arg, nth);
    else run<json::Value>(ex, mode, op, size, extra, arg, nth);
  }
  void enumerate(mc::Explorer& ex) override {
    for (int type = 0; type < 4; ++type) {
      long es = type == 0 ? sizeof(int) : type == 1 ? 1 : type == 2 ? sizeof(Big) : sizeof(json::Value);
      for (int size = 0; size <= ex.tier(9, 33); ++size)
        for (int extra = 0; extra <= ex.tier(2, 5); ++extra) {
          if (type != 3)
            for (int op = 0; op <= 25; ++op)
              for (int a = 0; a < ex.tier(3, 8); ++a)
                for (long nth = 1; nth <= 4; ++nth) ex.all(mc::fmt("%d 0 %d %d %d %d %ld", type, op, size, extra, a, nth));
          else
            for (int op : {0}) for (long nth = 1; nth <= 2; ++nth) ex.all(mc::fmt("%d 0 %d %d %d 0 %ld", type, op, size, extra, nth));
          // impossible sizes
          std::set<unsigned long long> sizes;
          for (int k = 31; k <= 64; ++k)
            for (long long d = -12; d <= 12; ++d) {
              unsigned long long s = k == 64 ? (unsigned long long)d : (1ull << k) + d;
              if (k == 64 && d >= 0) continue;
              for (unsigned long long q : {s, s / es, s / es - size, s - size, s / es + 1})
                if (q >= ((1ull << 30) / es) + 100) sizes.insert(q);
            }
          if (!ex.thorough() && size > 4) { if (size != 9) continue; }
          for (auto s : sizes)
            for (int op = 0; op <= 8; ++op) ex.all(mc::fmt("%d 1 %d %d %d %lld 0", type, op, size, extra, (long long)s));
        }
      for (int size = 0; size <= ex.tier(7, 20); ++size)
        for (int op = 0; op <= 18; ++op) {
          std::vector<long long> pos;
          for (int i = 0; i <= size + 4; ++i) pos.push_back(i);
          for (long long p : {-1LL, -2LL, 1LL << 31, 1LL << 32, (1LL << 32) + 1, 1LL << 62, LLONG_MIN, LLONG_MAX, (1LL << 62) / es, -(1LL << 62) / es}) pos.push_back(p);
          for (auto p : pos)
            for (auto q : op == 7 || op == 10 ? pos : std::vector<long long>{0})
              for (int extra : {0, 3}) {
                if (op == 10 && (q < 0 || q > 1000)) continue;
                ex.all(mc::fmt("%d 2 %d %d %d %lld %lld", type, op, size, extra, p, q));
              }
        }
    }
  }
};
MC_MAIN(H)
