// E02: the C entry points of the bundled operations (from their shared
// libraries) and of operations defined here, against the operation objects.
#include "ops.hpp"
#include "ref_json.hpp"
#include <eni.h>
#include <eni_crypto/eni_crypto.h>
#include <eni_scrypt/eni_scrypt.h>
#include REVERSE_SRC
extern "C" int __sanitizer_get_ownership(const volatile void* p);
extern "C" size_t __sanitizer_get_allocated_size(const volatile void* p);
extern "C" void* __asan_region_is_poisoned(void* beg, size_t size);

using std::string;

// operations of every price and kind of result, made with the macros
template <int G> struct Made : eni::EniBase {
  Made(const string& s) : EniBase(s) {}
  size_t n = 0;
  string s;
  bool parse(const json::Array& a) override { n = a.size(); s = n && a[0].isString() ? a[0].toString() : ""; return !(n && a[0].isBoolean()); }
  eni::Gas gas() const override { static const uint64_t g[] = {0, 1ull << 32, 1ull << 63, ~0ull}; return G < 4 ? g[G] : n + 256 * s.size(); }
  bool run(json::Array& r) override {
    if (s == "fail") return false;
    if (G == 0) return true;
    if (G == 1) { r.emplace_back(s); return true; }
    if (G == 2) { r.emplace_back(string(70000, 'x')); r.emplace_back(true); return true; }
    for (size_t i = 0; i < 300 * n; ++i) r.emplace_back((int)i);
    return true;
  }
};
ENI_C_INTERFACE(made0, Made<0>)
ENI_C_INTERFACE(made1, Made<1>)
ENI_C_INTERFACE(made2, Made<2>)
ENI_C_INTERFACE(made3, Made<3>)
ENI_C_INTERFACE(made4, Made<4>)

struct Entry { string name; ops::GasFn* gas; ops::RunFn* run; std::function<eni::EniBase*(const string&)> make; };
template <class C> static std::function<eni::EniBase*(const string&)> maker() { return [](const string& s) -> eni::EniBase* { return new C(s); }; }

// an argument in memory that cannot be written, ending where nothing can be read
struct Sealed {
  char* base;
  size_t pages;
  char* p;
  Sealed(const string& t) {
    size_t n = t.size() + 1;
    pages = (n + 4095) / 4096;
    base = (char*)mmap(nullptr, (pages + 1) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    p = base + pages * 4096 - n;
    memcpy(p, t.c_str(), n);
    mprotect(base, pages * 4096, PROT_READ);
    mprotect(base + pages * 4096, 4096, PROT_NONE);
  }
  ~Sealed() { munmap(base, (pages + 1) * 4096); }
};

struct H : mc::Harness {
  std::vector<Entry> e;
  struct Call { int e; bool run; string text; uint64_t gas; bool has; string out; };
  std::vector<Call> calls;
  const char* rule() override { return "every call of a set (operation, entry point, argument) and every sequence of two or three of them, all results held to the end; up to 5000 calls with different arguments, all results held"; }
  double hangSeconds() override { return 60; }
  void init() override {
    ops::load();
    e = {{"reverse", ops::get(0).gas, ops::get(0).run, maker<Reverse>()}, {"scrypt", ops::get(1).gas, ops::get(1).run, maker<Scrypt>()},
         {"rsa_encrypt", ops::get(2).gas, ops::get(2).run, maker<eni_crypto::RSAEncrypt>()}, {"rsa_decrypt", ops::get(3).gas, ops::get(3).run, maker<eni_crypto::RSADecrypt>()},
         {"made0", made0_gas, made0_run, maker<Made<0>>()}, {"made1", made1_gas, made1_run, maker<Made<1>>()}, {"made2", made2_gas, made2_run, maker<Made<2>>()},
         {"made3", made3_gas, made3_run, maker<Made<3>>()}, {"made4", made4_gas, made4_run, maker<Made<4>>()}};
    string pub = ops::quote(ops::key("k512-3.pub")), priv = ops::quote(ops::key("k512-3.priv")), pub2 = ops::quote(ops::key("k2048-65537.pub"));
    pubKey = pub;
    privKey = priv;
    std::vector<std::pair<int, string>> a;
    // the first ones are the set from which sequences of three are built
    a = {{0, "[\"abc\"]"}, {1, "[\"00ff\"]"}, {2, ops::list({pub, "\"hi\""})}, {3, ops::list({priv, ops::quote(string(128, '1'))})}, {4, "[]"}, {5, "[\"r\\u0001\\\"\"]"}, {1, "[7]"}, {6, "[\"fail\"]"}};
    core = a.size() * 2;
    for (int n : {2000, 4090, 5000, 8190, 16384, 65536, 1000000}) a.push_back({5, "[" + ops::quote(string(n, 'L')) + "]"});
    for (const char* t : {"{}", "\"abc\"", "7", "true"}) for (int i = 0; i < 9; ++i) a.push_back({i, t});
    for (int n : {0, 1, 7, 8, 9, 255, 4095, 4096, 70000}) { a.push_back({0, "[" + ops::quote(string(n, 'r')) + "]"}); a.push_back({5, "[" + ops::quote(string(n, '"')) + "]"}); }
    a.push_back({0, "[\"\xff\x01\x80\"]"});
    a.push_back({0, "  [ \"sp\" ] tail"});
    for (const char* t : {"[\"\"]", "[\"f\"]", "[\"zz\"]", "[]", "[true]"}) a.push_back({1, t});
    a.push_back({1, "[\"" + string(160, 'a') + "\"]"});
    a.push_back({1, "[\"" + string(161, 'a') + "\"]"});
    for (int n : {0, 1, 64, 65}) a.push_back({2, ops::list({pub, ops::quote(string(n, '\1'))})});
    a.push_back({2, ops::list({pub2, "\"longer key\""})});
    a.push_back({2, ops::list({priv, "\"wrong kind of key\""})});
    for (const char* h : {"", "00", "0", "zz"}) a.push_back({3, ops::list({priv, ops::quote(h)})});
    a.push_back({3, ops::list({priv, ops::quote(string(130, '0'))})});
    for (int i = 4; i < 9; ++i) for (const char* t : {"[\"fail\"]", "[false]", "[1,2,3]", "[\"x\",[{}]]", "[\"\\u0000z\"]"}) a.push_back({i, t});
    for (auto& c : a)
      for (int run = 0; run < 2; ++run) {
        Call k{c.first, run != 0, c.second, 0, false, ""};
        eni::EniBase* o = e[c.first].make(c.second);
        if (run) { char* r = o->start(); k.has = r; if (r) { k.out = r; ::free(r); } }
        else k.gas = o->getGas();
        delete o;
        // what the operation made or documented to do, not asked from the object
        if (run && (c.first == 0 || c.first >= 4)) {
          ref::Reader rd(c.second);
          rd.read();
          ref::V want = ref::V::array();
          bool has = rd.root.k == ref::Arr;
          const auto& arg = rd.root.a;
          string s = has && arg.size() && arg[0].k == ref::Str ? arg[0].s : "";
          size_t n = arg.size();
          if (c.first == 0) want.a.push_back(ref::V::string(string(s.rbegin(), s.rend())));
          else if (has && ((n && arg[0].k == ref::Bool) || s == "fail")) has = false;
          else if (c.first == 5) want.a.push_back(ref::V::string(s));
          else if (c.first == 6) { want.a.push_back(ref::V::string(string(70000, 'x'))); want.a.push_back(ref::V::boolean(true)); }
          else if (c.first > 6) for (size_t i = 0; i < 300 * n; ++i) want.a.push_back(ref::V::integer(std::to_string(i)));
          if (has != k.has) wrong = "results of " + e[c.first].name + " on " + mc::esc(mc::cut(c.second)) + " are missing or unexpected";
          if (has) {
            ref::Reader out(k.out);
            if (out.read() != ref::Ok || out.root.show() != want.show()) wrong = "the object " + e[c.first].name + " on " + mc::esc(mc::cut(c.second)) + mc::fmt(" answers %zu characters: ", k.out.size()) + mc::esc(mc::cut(k.out)) + ", which are not its results";
          }
        }
        calls.push_back(k);
      }
  }
  string wrong;
  size_t core;
  void exec(mc::Explorer& ex, const string& c) override {
    if (!wrong.empty()) mc::fail(wrong);
    struct Held { void* p; const Call* k; };
    int op, kind;
    size_t count;
    if (sscanf(c.c_str(), "many %d %d %zu", &op, &kind, &count) == 3) return many(ex, op, kind, count);
    std::vector<Held> held;
    std::vector<std::unique_ptr<Sealed>> args;
    auto look = [&](const Held& h, const char* when) {
      string who = e[h.k->e].name + (h.k->run ? "_run(" : "_gas(") + mc::esc(mc::cut(h.k->text, 80)) + ")";
      if (!h.k->run) {
        if (!h.p) mc::fail(who + " answers null");
        if (*(uint64_t*)h.p != h.k->gas) mc::fail(mc::fmt("%s%s is %llu, but the object answers %llu", who.c_str(), when, (unsigned long long)*(uint64_t*)h.p, (unsigned long long)h.k->gas));
      } else if (!h.k->has) { if (h.p) mc::fail(who + " answers a string, but the object answers nothing"); }
      else if (!h.p) mc::fail(who + " answers null");
      else if (strcmp((char*)h.p, h.k->out.c_str())) mc::fail(who + when + " is " + mc::esc(mc::cut((char*)h.p)) + ", but the object answers " + mc::esc(mc::cut(h.k->out)));
      if (!h.p) return;
      size_t need = h.k->run ? h.k->out.size() + 1 : 8;
      if (!__sanitizer_get_ownership(h.p) || __sanitizer_get_allocated_size(h.p) < need) mc::fail(who + ": the answer is not allocated storage of its size");
      if (__asan_region_is_poisoned(h.p, need)) mc::fail(who + ": the answer is released storage");
    };
    string id;
    for (auto& w : mc::split(c, ' ')) {
      const Call& k = calls[atoi(w.c_str())];
      args.emplace_back(new Sealed(k.text));
      char* a = args.back()->p;
      void* p = k.run ? (void*)e[k.e].run(a) : (void*)e[k.e].gas(a);
      ex.transitions();
      for (auto& h : held) if (p && h.p == p) mc::fail("two answers share their storage");
      held.push_back({p, &k});
      for (auto& h : held) look(h, &h == &held.back() ? "" : " after a later call");
      if (k.text != string(a)) mc::fail("the argument was modified");
    }
    args.clear();                       // answers outlive the arguments
    for (auto& h : held) look(h, " after the argument is gone");
    unsigned order = (unsigned)mc::hash(c);
    while (!held.empty()) {             // released in some order
      size_t i = order++ % held.size();
      ::free(held[i].p);
      held.erase(held.begin() + i);
      for (auto& h : held) look(h, " after releasing another one");
    }
    ex.state(mc::hash(c));
    ex.traces();
  }
  // n calls with different arguments, all answers held to the end
  string argument(int op, int kind, size_t i) {
    string s = kind == 0 ? mc::fmt("%08zu", i) : kind == 1 ? mc::fmt("%zu", i) + string(i % 300, 'z') : string(1 + (i * 37) % 5000, (char)('a' + i % 26));
    if (op == 1) s = kind == 0 ? mc::fmt("%08zx", i) : mc::fmt("%0*zx", (int)(8 + i % 150), i);
    if (op == 2) return ops::list({pubKey, ops::quote(s.substr(0, 60))});
    if (op == 3) return ops::list({privKey, ops::quote(mc::fmt("%0128zx", i + 2))});
    return ops::list({ops::quote(s), i % 3 ? "1" : "[]"});
  }
  string pubKey, privKey;
  void many(mc::Explorer& ex, int op, int kind, size_t count) {
    struct Kept { string want; bool has; char* r; uint64_t price; uint64_t* g; };
    std::vector<Kept> kept;
    std::set<const void*> places;
    auto look = [&](size_t i, const char* when) {
      const Kept& k = kept[i];
      string who = mc::fmt("call %zu of %s", i, e[op].name.c_str());
      if (!k.g) { mc::fail(who + ": the gas entry point answers null"); }
      if (*k.g != k.price) mc::fail(who + mc::fmt(": the gas%s is %llu, but the object answers %llu", when, (unsigned long long)*k.g, (unsigned long long)k.price));
      if (k.has != (k.r != nullptr)) mc::fail(who + ": a result is missing or unexpected");
      if (k.r && k.want != k.r) mc::fail(who + mc::fmt(": the result%s is ", when) + mc::esc(mc::cut(k.r)) + ", but the object answers " + mc::esc(mc::cut(k.want)));
    };
    for (size_t i = 0; i < count; ++i) {
      string t = argument(op, kind, i);
      Kept k;
      eni::EniBase* o = e[op].make(t);
      k.price = o->getGas();
      char* r = o->start();
      k.has = r != nullptr;
      if (r) k.want = r;
      ::free(r);
      delete o;
      string a = t;
      k.r = e[op].run(&a[0]);
      k.g = e[op].gas(&a[0]);
      if (a != t) mc::fail("the argument was modified");
      kept.push_back(k);
      if ((k.r && !places.insert(k.r).second) || !places.insert(k.g).second) mc::fail(mc::fmt("call %zu: two answers share their storage", i));
      look(i, "");
      if ((i & (i + 1)) == 0) for (size_t j = 0; j < i; ++j) look(j, " after later calls");
      ex.transitions(2);
    }
    for (size_t j = 0; j < count; ++j) look(j, " after all calls");
    for (size_t j = 0; j < count; ++j) {
      size_t i = j * 7919 % count;     // 7919 is prime and divides no count
      look(i, " after releasing others");
      ::free(kept[i].r);
      ::free(kept[i].g);
    }
    ex.state(mc::hash(mc::fmt("many %d %d", op, kind)));
    ex.traces();
  }
  void enumerate(mc::Explorer& ex) override {
    for (int op = 0; op < 9; ++op)
      for (int kind = 0; kind < 3; ++kind) {
        if ((op == 3 && kind) || (op == 1 && kind == 2)) continue;
        int most = op == 1 || op == 2 || op == 3 ? ex.tier(300, 5000) : op >= 6 && op <= 8 ? ex.tier(200, 2000) : kind == 2 ? ex.tier(1000, 20000) : ex.tier(5000, 70000);
        ex.all(mc::fmt("many %d %d %d", op, kind, most));
      }
    size_t n = calls.size();
    for (size_t i = 0; i < n; ++i) ex.all(std::to_string(i));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) ex.all(mc::fmt("%zu %zu", i, j));
    for (size_t i = 0; i < core; ++i) for (size_t j = 0; j < core; ++j) for (size_t k = 0; k < core; ++k) ex.all(mc::fmt("%zu %zu %zu", i, j, k));
    if (ex.thorough())
      for (size_t i = 0; i < core; ++i) for (size_t j = 0; j < core; ++j) for (size_t k = 0; k < core; ++k) for (size_t l = 0; l < core; ++l) ex.all(mc::fmt("%zu %zu %zu %zu", i, j, k, l));
  }
};
MC_MAIN(H)
