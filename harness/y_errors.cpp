// Y02: every diagnostic in every category, thrown, caught, copied, kept; and
// the errors raised by the containers and values.
#include "mc.hpp"
#include <adt/StringMap.h>
#include <adt/StringHasher.h>
#include <adt/StringHashTable.h>
#include <adt/HashTable.h>
#include <adt/Vector.h>
#include <diagnostic/Exception.h>
#include <json/Array.h>
#include <json/Object.h>
#include <json/Value.h>
using std::string;
using namespace eni;

static const char* const Doc[] = {"unknown", "not implemented", "no memory", "invalid delegation: value has been assigned", "invalid iterator: iterator points to nowhere",
                                  "invalid access: key does not exist", "invalid access: index out of bound", "invalid reserve: exceed maximum size"};
static const char* const Names[] = {"Unknown", "Unimplemented", "NoMemory", "InvalidDelegateAssigned", "InvalidIteratorEmpty", "InvalidStringMapKey", "InvalidVectorIndex", "InvalidVectorSize"};

struct Case { string label, text; std::function<void()> raise; std::function<string(const string&)> look; };
static void same(const char* got, const string& want, const char* how) {
  if (!got || want != got) mc::fail(string(how) + ": message is \"" + (got ? mc::esc(mc::cut(got)) : "null") + "\" instead of \"" + want + "\"");
}
// an object with other things to keep it away from reused storage
template <class E> struct Held { char pad[64]; E e; char more[64]; };

template <DiagID ID, class B> struct Diag {
  typedef Exception<ID, B> E;
  static void assign(E& a, const E& b, std::true_type) { a = b; }
  static void assign(E&, const E&, std::false_type) { }
  template <class X> static const std::exception* asBase(const X* e, std::true_type) { return e; }
  template <class X> static const std::exception* asBase(const X*, std::false_type) { return nullptr; }
  // a copy of the standard part alone (the categories whose objects carry a message)
  static void sliced(const string& want, std::true_type) {
    try { throw E(); } catch (B e) { same(e.what(), want, "category, by value"); }
    const E e;
    B b(e), c("other");
    c = e;
    same(b.what(), want, "copy of the standard part"); same(c.what(), want, "assigned standard part");
    std::logic_error l(e);
    same(l.what(), want, "copy of the std::logic_error part");
  }
  static void sliced(const string&, std::false_type) { }
  static int forms(const string& want) {
    int n = 0;
    // (judged at run time: a wrong category is a finding, not a failed build)
    if (!std::is_base_of<B, E>::value || !std::is_convertible<E*, B*>::value || !std::is_convertible<E*, std::exception*>::value) mc::fail("\"" + want + "\" cannot be caught as the category it is thrown in");
    if (!std::is_copy_constructible<E>::value || !std::is_copy_assignable<E>::value) mc::fail("\"" + want + "\" cannot be copied");
    try { throw E(); } catch (const E& e) { same(e.what(), want, "own type"); ++n; }
    try { throw E(); } catch (const B& e) { same(e.what(), want, "category"); ++n; }
    try { throw E(); } catch (B& e) { same(e.what(), want, "category, not const"); ++n; }
    try { throw E(); } catch (const std::exception& e) { same(e.what(), want, "std::exception"); ++n; }
    try { throw E(); } catch (E e) { same(e.what(), want, "own type, by value"); ++n; }
    try { try { throw E(); } catch (const std::exception&) { throw; } } catch (const B& e) { same(e.what(), want, "thrown again"); ++n; }
    try { const E e; throw e; } catch (const B& e) { same(e.what(), want, "thrown from an object"); ++n; }
    sliced(want, std::integral_constant<bool, std::is_base_of<std::logic_error, B>::value>());
    // copies outlive what they were copied from
    std::unique_ptr<E> a(new E);
    E b(*a), c;
    assign(c, *a, std::is_copy_assignable<E>());
    memset((void*)0 == (void*)a.get() ? nullptr : &n, 0, 0);
    a.reset();
    same(b.what(), want, "copy"); same(c.what(), want, "assigned copy");
    E d(std::move(b));
    same(d.what(), want, "moved");
    std::unique_ptr<E> own(new E);
    const std::exception* base = asBase(own.get(), std::is_convertible<E*, std::exception*>());
    same(base->what(), want, "through the base");
    n += 4;
    std::exception_ptr p;
    try { throw E(); } catch (...) { p = std::current_exception(); }
    for (int i = 0; i < 2; ++i) try { std::rethrow_exception(p); } catch (const B& e) { same(e.what(), want, "kept and thrown"); ++n; }
    try { std::throw_with_nested(E()); } catch (const std::nested_exception&) { ++n; }
    catch (...) {}
    // with many others alive
    std::vector<E> many(20);
    for (auto& e : many) same(e.what(), want, "among many");
    string first = many[0].what();
    many.erase(many.begin(), many.begin() + 10);
    for (auto& e : many) same(e.what(), want, "among many, some gone");
    return n;
  }
  static void raise() { throw E(); }
};
// which standard categories does a raised error belong to
template <class B> static bool is(const std::function<void()>& f) { try { f(); } catch (const B&) { return true; } catch (...) { return false; } return false; }

struct H : mc::Harness {
  const char* rule() override { return "diagnostic x category x way to catch and copy; operation x state x bad argument; distinct by case"; }
  typedef int (*Forms)(const string&);
  typedef void (*Raise)();
  struct D { Forms forms; Raise raise; int id, cat; };
  std::vector<D> all;
  template <DiagID ID> void add() {
    all.push_back({Diag<ID, std::exception>::forms, Diag<ID, std::exception>::raise, ID, 0});
    all.push_back({Diag<ID, std::bad_alloc>::forms, Diag<ID, std::bad_alloc>::raise, ID, 1});
    all.push_back({Diag<ID, std::logic_error>::forms, Diag<ID, std::logic_error>::raise, ID, 2});
    all.push_back({Diag<ID, std::length_error>::forms, Diag<ID, std::length_error>::raise, ID, 3});
    all.push_back({Diag<ID, std::out_of_range>::forms, Diag<ID, std::out_of_range>::raise, ID, 4});
  }
  void init() override { add<Unknown>(); add<Unimplemented>(); add<NoMemory>(); add<InvalidDelegateAssigned>(); add<InvalidIteratorEmpty>(); add<InvalidStringMapKey>(); add<InvalidVectorIndex>(); add<InvalidVectorSize>(); }
  // f must raise exactly the diagnostic in the category
  template <class B> void raises(mc::Explorer& ex, const string& what, DiagID id, const std::function<void()>& f) {
    bool ok = false;
    string got;
    try { f(); got = "no error"; }
    catch (const B& e) { ok = true; got = e.what(); }
    catch (const std::exception& e) { got = string("an error of another category: ") + e.what(); }
    catch (...) { got = "something that is no std::exception"; }
    if (!ok || got != Doc[id]) mc::fail(what + ": " + got);
    ex.transitions();
  }
  template <class V> void vectorErrors(mc::Explorer& ex, const string& name, size_t n, const std::function<void(V&)>& push) {
    V v;
    for (size_t i = 0; i < n; ++i) push(v);
    const V& cv = v;
    std::vector<size_t> bad;
    for (size_t i = n; i < n + 20; ++i) bad.push_back(i);
    for (int k = 0; k < 64; ++k) for (int d = -1; d <= 1; ++d) if ((1ull << k) + d >= n) bad.push_back((1ull << k) + d);
    bad.push_back(~0ull);
    bad.push_back(~0ull - n);
    for (size_t i : bad) {
      string w = name + mc::fmt(" of %zu elements, index %zu: ", n, i);
      raises<std::out_of_range>(ex, w + "at", InvalidVectorIndex, [&] { (void)v.at(i); });
      raises<std::out_of_range>(ex, w + "const at", InvalidVectorIndex, [&] { (void)cv.at(i); });
      if (i > n) {
        typename V::value_type x = n ? v[0] : typename V::value_type();
        raises<std::out_of_range>(ex, w + "insert", InvalidVectorIndex, [&] { v.insert(i, x); });
        raises<std::out_of_range>(ex, w + "insert of three", InvalidVectorIndex, [&] { v.insert(i, 3, x); });
        raises<std::out_of_range>(ex, w + "insert of a range", InvalidVectorIndex, [&] { v.insert(i, &x, &x + 1); });
        if (i < ~0ull) raises<std::out_of_range>(ex, w + "erase up to it", InvalidVectorIndex, [&] { v.erase((size_t)0, i); });
      }
      if (i < ~0ull) {
        raises<std::out_of_range>(ex, w + "erase", InvalidVectorIndex, [&] { v.erase(i); });
        raises<std::out_of_range>(ex, w + "erase from it", InvalidVectorIndex, [&] { v.erase(i, i + 1); });
      }
      if (n) raises<std::out_of_range>(ex, w + "erase backwards", InvalidVectorIndex, [&] { v.erase(n, (size_t)0); });
      if (v.size() != n) mc::fail(w + "an error changed the size");
    }
  }
  template <class M> void mapErrors(mc::Explorer& ex, const string& name, size_t n) {
    M m;
    for (size_t i = 0; i < n; ++i) m[mc::fmt("k%zu", i)];
    const M& cm = m;
    std::vector<string> bad = {"", "k", "K0", string("k0\0", 3), string(1, 0), mc::fmt("k%zu", n), "k-1", "nokey", string(70000, 'k')};
    for (auto& k : bad) {
      string w = name + mc::fmt(" of %zu entries, key ", n) + mc::esc(mc::cut(k, 30)) + ": ";
      raises<std::out_of_range>(ex, w + "at", InvalidStringMapKey, [&] { (void)m.at(k); });
      raises<std::out_of_range>(ex, w + "const at", InvalidStringMapKey, [&] { (void)cm.at(k); });
      if (m.size() != n) mc::fail(w + "an error changed the number of entries");
    }
  }
  template <class I> void iteratorError(mc::Explorer& ex, const string& name, I e, bool advance) {
    const I& c = e;
    raises<std::logic_error>(ex, name + ": arrow", InvalidIteratorEmpty, [&] { (void)e.operator->(); });
    raises<std::logic_error>(ex, name + ": const arrow", InvalidIteratorEmpty, [&] { (void)c.operator->(); });
    if (advance) raises<std::logic_error>(ex, name + ": increment", InvalidIteratorEmpty, [&] { ++e; });
    if (advance) raises<std::logic_error>(ex, name + ": increment afterwards", InvalidIteratorEmpty, [&] { e++; });
    I copy(e);
    raises<std::logic_error>(ex, name + ": arrow of a copy", InvalidIteratorEmpty, [&] { (void)copy.operator->(); });
  }
  template <class T> void iteratorErrors(mc::Explorer& ex, const string& name, int n) {
    T t;
    for (int i = 0; i < n; ++i) t[mc::fmt("k%d", i)];
    string w = name + mc::fmt(" of %d entries, ", n);
    iteratorError(ex, w + "end", t.end(), true);
    iteratorError(ex, w + "no iterator", typename T::iterator(), true);
    auto i = t.begin();
    for (int k = 0; k < n; ++k) { if (i == t.end()) mc::fail(w + "iteration ends early"); ++i; }
    iteratorError(ex, w + "after the last entry", i, true);
    iteratorError(ex, w + "end of a chain", t.end(string("k0")), false);
    iteratorError(ex, w + "chain of an absent key", t.begin(string("none")), false);
    auto c = t.begin(string("k0"));
    for (int k = 0; k <= n && c != t.end(string("k0")); ++k) ++c;
    iteratorError(ex, w + "after the last of a chain", c, false);
  }
  void exec(mc::Explorer& ex, const string& c) override {
    int a = 0, b = 0;
    char kind;
    sscanf(c.c_str(), "%c %d %d", &kind, &a, &b);
    ex.state(mc::hash(c));
    ex.traces();
    if (kind == 'd') {
      const D& d = all[a];
      int n = d.forms(Doc[d.id]);
      if (n != 14 && n != 13) mc::fail(mc::fmt("%s in category %d: %d of 13 ways to catch it worked", Names[d.id], d.cat, n));
      std::function<void()> f = d.raise;
      bool want[5] = {true, d.cat == 1, d.cat >= 2, d.cat == 3, d.cat == 4};
      bool got[5] = {is<std::exception>(f), is<std::bad_alloc>(f), is<std::logic_error>(f), is<std::length_error>(f), is<std::out_of_range>(f)};
      for (int i = 0; i < 5; ++i) if (got[i] != want[i]) mc::fail(mc::fmt("%s in category %d: caught as category %d: %d", Names[d.id], d.cat, i, got[i]));
      ex.transitions(20);
      return;
    }
    if (kind == 'p') {                   // two diagnostics at a time, one raised while the other is handled
      const D &x = all[a], &y = all[b];
      try { x.raise(); }
      catch (const std::exception& e) {
        same(e.what(), Doc[x.id], "outer");
        const char* before = e.what();
        try { y.raise(); } catch (const std::exception& f) { same(f.what(), Doc[y.id], "inner"); same(e.what(), Doc[x.id], "outer meanwhile"); }
        same(e.what(), Doc[x.id], "outer afterwards");
        same(before, Doc[x.id], "the text of the outer one, kept");
      }
      ex.transitions(4);
      return;
    }
    if (kind == 'v') {
      vectorErrors<Vector<int>>(ex, "Vector<int>", a, [](Vector<int>& v) { v.push_back(1); });
      vectorErrors<Vector<json::Value>>(ex, "Vector<Value>", a, [](Vector<json::Value>& v) { v.push_back(json::Value(true)); });
      vectorErrors<json::Array>(ex, "Array", a, [](json::Array& v) { v.emplace_back("x"); });
      return;
    }
    if (kind == 'm') {
      mapErrors<StringMap<int>>(ex, "StringMap<int>", a);
      mapErrors<json::Object>(ex, "Object", a);
      iteratorErrors<StringMap<int>>(ex, "StringMap<int>", a);
      return;
    }
    if (kind == 'g') {                   // delegation
      for (int k = 0; k < 5; ++k) {
        auto mk = [k]() -> json::Value { switch (k) { case 0: return json::Value(true); case 1: return json::Value("s"); case 2: return json::Value(json::Array()); case 3: return json::Value(json::Object()); default: { json::Value v; v.delegate(*new eni::s256(7)); return v; } } };
        
        json::Array* ar = new json::Array();
        json::Object* ob = new json::Object();
        json::Value v = mk();
        raises<std::logic_error>(ex, mc::fmt("delegating a list to a value of kind %d", k), InvalidDelegateAssigned, [&] { v.delegate(*ar); });
        raises<std::logic_error>(ex, mc::fmt("delegating an object to a value of kind %d", k), InvalidDelegateAssigned, [&] { v.delegate(*ob); });
        delete ar; delete ob;
      }
      return;
    }
    if (kind == 'h') {                   // a hash that is not supplied
      for (int k = 0; k < 3; ++k) raises<std::logic_error>(ex, "a string hash that does not exist", Unimplemented, [&] { internal::StringHasher<77> h; (void)h(string(k * 20, 'x')); });
      return;
    }
    if (kind == 'r') {                   // impossible sizes
      size_t n = a < 64 ? 1ull << a : ~0ull - (a - 64);
      if (n < (1ull << 45)) return;
      Vector<int> v;
      v.push_back(1);
      bool mem = false;
      try { v.reserve(n); mc::fail(mc::fmt("reserving %zu elements succeeds", n)); }
      catch (const std::length_error& e) { same(e.what(), Doc[InvalidVectorSize], "reserve"); }
      catch (const std::bad_alloc& e) { mem = true; same(e.what(), Doc[NoMemory], "reserve"); }
      if (n > v.max_size() && mem) mc::fail(mc::fmt("reserving %zu elements, beyond the maximum size, is reported as lack of memory", n));
      ex.transitions();
      return;
    }
  }
  void enumerate(mc::Explorer& ex) override {
    for (int i = 0; i < (int)all.size(); ++i) ex.all(mc::fmt("d %d", i));
    for (int i = 0; i < (int)all.size(); ++i) for (int j = 0; j < (int)all.size(); ++j) ex.all(mc::fmt("p %d %d", i, j));
    for (int n = 0; n <= ex.tier(40, 300); ++n) ex.all(mc::fmt("v %d", n));
    for (int n = 0; n <= ex.tier(60, 300); ++n) ex.all(mc::fmt("m %d", n));
    ex.all("g");
    ex.all("h");
    for (int k = 40; k < 80; ++k) ex.all(mc::fmt("r %d", k));
  }
};
MC_MAIN(H)
