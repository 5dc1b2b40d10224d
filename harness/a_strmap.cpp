// A04: string-keyed tables with every supplied hash function, and StringMap,
// against std::map, for arbitrary byte strings as keys.
#include "bfs.hpp"
#include <adt/StringHashTable.h>
#include <adt/StringMap.h>
#include <json/Object.h>
#include <unordered_map>

using std::string;
typedef std::map<string, string> Map;
using namespace eni::internal;
static string val(int n) { return n % 2 ? mc::fmt("v%d", n) : mc::fmt("a value that is stored outside its string object %d", n); }
static string show(const string& k) { return "\"" + mc::esc(mc::cut(k, 40)) + "\""; }

// strings that the hash function cannot tell apart, found by search
template <class Hasher> const std::vector<string>& colliding() {
  static std::vector<string> best;
  if (!best.empty()) return best;
  std::unordered_map<uint32_t, std::vector<string>> g;
  const char alpha[] = {0, 'a', 'b', 'A', '1', '.', 64, (char)0x80, (char)0xff, 16, 'c', 1};
  Hasher h;
  std::vector<string> level{""};
  for (int len = 0; len <= 4; ++len) {
    std::vector<string> next;
    for (auto& s : level) {
      g[h(s)].push_back(s);
      if (len < 4) for (char c : alpha) next.push_back(s + c);
    }
    level.swap(next);
  }
  uint32_t at = 0;
  for (auto& p : g)
    if (p.second.size() > best.size() || (p.second.size() == best.size() && p.first < at)) { best = p.second; at = p.first; }
  if (best.size() > 6) best.resize(6);
  return best;
}
static std::vector<string> pool(int which, const std::vector<string>& coll) {
  switch (which) {
    case 0: return {"", string(1, '\0'), "a", string("a\0", 2)};
    case 1: return {"key", "ke", string("key\0x", 5), "KEY"};
    case 2: return coll.size() >= 3 ? std::vector<string>(coll.begin(), coll.begin() + std::min<size_t>(4, coll.size())) : std::vector<string>{"x", "xx", "xxx"};
    case 3: return {string(70000, 'q'), string(70000, 'q') + "r", string(4464, 'q'), string(255, 'q'), };
    case 4: return {"\xff\xfe", "\xff", "\x80\x80\x80", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"};
    default: return {"a.b", "a_b", "a1", "1a", ""};
  }
}
static const int Pools = 6;

// one interface for the table and the map
template <class Hasher> struct TableA {
  typedef eni::StringHashTable<string, Hasher> T;
  T t;
  TableA(int n) : t((size_t)n) {}
  TableA(const TableA& o) : t(o.t) {}
  TableA(TableA&& o) : t(std::move(o.t)) {}
  void set(const string& k, const string& v) { bool e; t.insert(k, e)->setValue(v); }
  bool insertNew(const string& k, const string& v, bool was) {
    bool e = !was;
    auto* x = t.insert(k, e);
    if (x->key() != k) mc::fail("insert of " + show(k) + " answers the entry of " + show(x->key()));
    if (!e) x->setValue(v);
    return e;
  }
  size_t size() const { return t.numOfEntries(); }
  void clear() { t.clear(); }
  string layout() const {
    string k = mc::fmt("%zu/%zu:", t.numOfBuckets(), t.numOfTombstones());
    for (unsigned i = 0; i < t.numOfBuckets(); ++i) {
      auto e = t.bucket(i).entry;
      if (e == T::EmptyBucket()) k += '.';
      else if (e == T::Tombstone()) k += 'x';
      else k += mc::fmt("%016llx", (unsigned long long)mc::hash(e->key())) + e->value() + ",";
    }
    return k;
  }
};
template <class Val> struct MapA {
  typedef eni::StringMap<Val> T;
  T t;
  static Val to(const string& s);
  static string from(const Val& v);
  MapA(int n) : t((size_t)n) {}
  MapA(const MapA& o) : t(o.t) {}
  MapA(MapA&& o) : t(std::move(o.t)) {}
  void set(const string& k, const string& v) { t[k] = to(v); }
  bool insertNew(const string& k, const string& v, bool was) { auto& x = t[k]; if (!was) x = to(v); return was; }
  size_t size() const { return t.size(); }
  void clear() { t = T(3); }
};
template <> string MapA<string>::to(const string& s) { return s; }
template <> string MapA<string>::from(const string& s) { return s; }
template <> json::Value MapA<json::Value>::to(const string& s) { return json::Value(s); }
template <> string MapA<json::Value>::from(const json::Value& v) { return v.isString() ? v.toString() : "no string"; }
static string text(const string& s) { return s; }
static string text(const json::Value& v) { return MapA<json::Value>::from(v); }

template <class A> void absent(A&, const string&) {}
template <class V> void absent(MapA<V>& a, const string& k) {
  const auto& c = a.t;
  size_t n = a.size();
  int thrown = 0;
  for (int i = 0; i < 3; ++i) {
    try { if (i == 0) a.t.at(k); else if (i == 1) c.at(k); else c[k]; }
    catch (const std::out_of_range&) { ++thrown; }
  }
  if (thrown != 3) mc::fail("checked access to the absent key " + show(k) + " raises no out-of-range error");
  if (a.size() != n) mc::fail("checked access to an absent key adds it");
}
template <class A> void present(A&, const string&, const string&) {}
template <class V> void present(MapA<V>& a, const string& k, const string& v) {
  const auto& c = a.t;
  if (text(a.t.at(k)) != v || text(c.at(k)) != v || text(c[k]) != v || text(a.t[k]) != v) mc::fail("access to key " + show(k) + " gives another value");
}

static mc::Explorer* g_Beat;
template <class A> void check(A& a, const Map& m, const std::vector<string>& probe, const char* n) {
  const auto& c = a.t;
  if (a.size() != m.size() || c.empty() != m.empty()) mc::fail(mc::fmt("%s has %zu entries instead of %zu", n, a.size(), m.size()));
  size_t told = 0;
  for (auto& k : probe) {
    if (g_Beat && (++told & 63) == 0) g_Beat->beat();
    auto w = m.find(k);
    auto it = a.t.find(k);
    auto ct = c.find(k);
    if ((it != a.t.end()) != (w != m.end()) || (ct != c.end()) != (w != m.end())) mc::fail(string(n) + ": key " + show(k) + (w == m.end() ? " is found, but absent" : " is lost"));
    if (w == m.end()) { absent(a, k); continue; }
    if (it->key() != k || ct->key() != k) mc::fail(string(n) + ": key " + show(k) + " reads back as " + show(it->key()));
    if (text(it->value()) != w->second || text(ct->value()) != w->second) mc::fail(string(n) + ": key " + show(k) + " has another value: " + text(it->value()));
    present(a, k, w->second);
  }
  size_t steps = 0;
  for (auto it = c.begin(); it != c.end(); ++it) {
    auto w = m.find(it->key());
    if (++steps > m.size() || w == m.end() || text(it->value()) != w->second) mc::fail(string(n) + ": iteration shows " + show(it->key()) + ", which is not stored");
  }
  if (steps != m.size()) mc::fail(mc::fmt("%s: iteration shows %zu of %zu entries", n, steps, m.size()));
}
template <class A> string layoutOf(const A& a, const Map&) { return a.layout(); }
template <class V> string layoutOf(const MapA<V>& a, const Map& m) {
  string k;
  const auto& c = a.t;
  for (auto it = c.begin(); it != c.end(); ++it) k += mc::fmt("%016llx", (unsigned long long)mc::hash(it->key())) + text(it->value()) + ",";
  return k;
}

template <class A> struct Sys {
  enum Kind { Set, Set2, Ins, Era, Clr, Copy, Move, AssignRound, SelfAssign, CopyB, AssignB, AssignFromB, EraB, SetB };
  struct Op { Kind k; int x; };
  std::vector<Op> table;
  std::vector<string> keys;
  std::unique_ptr<A> a, b;
  Map M, N;
  int init;
  bool checking = true;
  Sys(const std::vector<string>& keys, int init, bool two) : keys(keys), init(init) {
    for (size_t i = 0; i < keys.size(); ++i) for (Kind k : {Set, Set2, Ins, Era}) table.push_back({k, (int)i});
    for (Kind k : {Clr, Copy, Move, AssignRound, SelfAssign}) table.push_back({k, 0});
    if (two) { for (Kind k : {CopyB, AssignB, AssignFromB}) table.push_back({k, 0}); for (size_t i = 0; i < 2; ++i) { table.push_back({EraB, (int)i}); table.push_back({SetB, (int)i}); } }
  }
  void reset() { a.reset(new A(init)); b.reset(new A(2)); M.clear(); N.clear(); }
  void ops(std::vector<int>& r) { for (size_t i = 0; i < table.size(); ++i) r.push_back(i); }
  string name(int o) const {
    static const char* n[] = {"set", "set2", "insert", "erase", "clear", "a=copy(a)", "a=move(a)", "assign to new", "a=a", "b=copy(a)", "b=a", "a=b", "b.erase", "b.set"};
    return n[table[o].k] + (table[o].k <= Era || table[o].k >= EraB ? "(" + show(keys[table[o].x]) + ")" : "");
  }
  void apply(int o) {
    Op p = table[o];
    const string& k = keys[p.x];
    switch (p.k) {
      case Set: case Set2: { string v = val(10 * p.x + p.k); a->set(k, v); M[k] = v; break; }
      case Ins: {
        bool was = M.count(k);
        if (a->insertNew(k, val(10 * p.x + 5), was) != was) mc::fail("insert of " + show(k) + " reports wrongly whether the key was present");
        if (!was) M[k] = val(10 * p.x + 5);
        break;
      }
      case Era: if (a->t.erase(k) != (bool)M.erase(k)) mc::fail("erase of " + show(k) + " reports wrongly"); break;
      case Clr: a->clear(); M.clear(); break;
      case Copy: a.reset(new A(*a)); break;
      case Move: { std::unique_ptr<A> n(new A(std::move(*a))); a = std::move(n); break; }
      case AssignRound: { std::unique_ptr<A> n(new A(1)); n->set("old", "x"); if (&(n->t = a->t) != &n->t) mc::fail("assignment does not answer its object"); a = std::move(n); break; }
      case SelfAssign: { auto& s = a->t; a->t = s; break; }
      case CopyB: b.reset(new A(*a)); N = M; break;
      case AssignB: b->t = a->t; N = M; break;
      case AssignFromB: a->t = b->t; M = N; break;
      case EraB: if (b->t.erase(k) != (bool)N.erase(k)) mc::fail("erase of " + show(k) + " reports wrongly"); break;
      case SetB: b->set(k, val(77)); N[k] = val(77); break;
    }
    if (!checking) return;
    check(*a, M, keys, "a");
    check(*b, N, keys, "b");
  }
  string key() const { return layoutOf(*a, M) + "|" + layoutOf(*b, N); }
};

// every key of a family in one table
template <class A> void family(mc::Explorer& ex, const std::vector<string>& ks, int init) {
  A a(init);
  Map m;
  for (size_t i = 0; i < ks.size(); ++i) { a.set(ks[i], val(i)); m[ks[i]] = val(i); if ((i & (i - 1)) == 0) check(a, m, {ks[0], ks[i], ks[i / 2]}, "family"); ex.beat(); }
  check(a, m, ks, "family");
  A c(a);
  for (size_t i = 0; i < ks.size(); i += 2) { if (!a.t.erase(ks[i])) mc::fail("erase of " + show(ks[i]) + " fails"); m.erase(ks[i]); ex.beat(); }
  check(a, m, ks, "family, half erased");
  for (size_t i = 0; i < ks.size(); i += 2) { a.set(ks[i], val(i + 1)); m[ks[i]] = val(i + 1); ex.beat(); }
  check(a, m, ks, "family, written again");
  for (size_t i = 0; i < ks.size(); ++i) m[ks[i]] = val(i);
  check(c, m, ks, "copy of the family");
  ex.transitions(ks.size() * 4);
  ex.traces();
}
// keys of one length that differ in one byte
static std::vector<string> ofLength(size_t n) {
  std::vector<string> r{string(n, 'k')};
  for (size_t at : std::set<size_t>{0, n / 2, n ? n - 1 : 0})
    for (char c : {'\0', 'l', '\xff', '.'}) if (n) { string s(n, 'k'); s[at] = c; r.push_back(s); }
  if (n) { r.push_back(string(n, '\0')); r.push_back(string(n - 1, 'k')); r.push_back(string(n - 1, '\0')); }
  r.push_back(string(n + 1, 'k'));
  r.push_back(string(n, 'k') + '\0');
  if (n >= 65536) { r.push_back(string(n - 65536, 'k')); }
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
static std::vector<string> twoBytes(int part) {      // 0: all strings up to 2 bytes; 1: up to 3 over few bytes; 2: decimal numbers
  std::vector<string> r{""};
  if (part == 0) for (int i = 0; i < 256; ++i) { r.push_back(string(1, (char)i)); for (int j = 0; j < 256; ++j) r.push_back(string(1, (char)i) + (char)j); }
  else if (part == 1) { const char al[] = {0, 1, 'a', '.', (char)0xff, (char)0x80, 'Z', '0'}; for (char x : al) for (char y : al) for (char z : al) { r.push_back(string() + x + y + z); for (char w : al) r.push_back(string() + x + y + z + w); } }
  else if (part == 2) for (int i = 0; i < 5000; ++i) r.push_back(std::to_string(i));
  else for (int i = 0; i < 256; ++i) { r.push_back(string(1, (char)i)); for (int j : {0, 46, 97, 255}) r.push_back(string(1, (char)i) + (char)j); }
  return r;
}

struct H : mc::Harness {
  const char* rule() override { return "states: layouts of string-keyed tables; families of keys: all byte strings up to 2 bytes, every length, colliding hashes"; }
  double hangSeconds() override { return 12; }
  template <class A, class Hasher> void go(mc::Explorer& ex, char how, int which, int init, int depth, int w, int n, int id) {
    uint64_t salt = mc::hash(mc::fmt("%d %d", id, which));
    if (how == 'F') { family<A>(ex, twoBytes(which), init); ex.state(salt ^ init); return; }
    if (how == 'L') { family<A>(ex, ofLength(which), init); ex.state(mc::hash(mc::fmt("L%d %d %d", id, which, init))); return; }
    if (how == 'C') { family<A>(ex, colliding<Hasher>(), init); ex.state(mc::hash(mc::fmt("C%d %d", id, init))); return; }
    Sys<A> s(pool(which, colliding<Hasher>()), init, how == 'T' || how == 'S');
    if (how == 'S') mc::sequences(ex, s, depth, w, n, salt);
    else mc::bfs(ex, s, 3000000, depth, salt);
  }
  void exec(mc::Explorer& ex, const std::string& c) override {
    g_Beat = &ex;
    char how;
    int id, which, init, depth = 0, w = 0, n = 1;
    sscanf(c.c_str(), "%c %d %d %d %d %d %d", &how, &id, &which, &init, &depth, &w, &n);
#define GO(X) case X: go<TableA<StringHasher<X>>, StringHasher<X>>(ex, how, which, init, depth, w, n, id); break;
    switch (id) {
      GO(RS) GO(JS) GO(PJW) GO(ELF) GO(BKDR) GO(SDBM) GO(DJB) GO(DEK) GO(BP) GO(FNV) GO(AP) GO(ES)
      case 12: go<MapA<string>, StringHasher<SDBM>>(ex, how, which, init, depth, w, n, id); break;
      default: go<MapA<json::Value>, StringHasher<SDBM>>(ex, how, which, init, depth, w, n, id);
    }
  }
  void enumerate(mc::Explorer& ex) override {
    // the full family only for hash functions that spread it; the others crowd it into few buckets
    bool t = ex.thorough();
    for (int id : {12, (int)SDBM, (int)RS, (int)FNV, (int)AP}) ex.all(mc::fmt("F %d 0 3", id));
    if (t) for (int id : {13, (int)BKDR, (int)DJB}) ex.all(mc::fmt("F %d 0 3", id));
    for (int id = 0; id < 14; ++id) {
      if (id != ES) { ex.all(mc::fmt("F %d 2 0", id)); }
      ex.all(mc::fmt("F %d 1 0", id));
      ex.all(mc::fmt("F %d 3 0", id));
      for (int init : {0, 1, 8}) ex.all(mc::fmt("C %d 0 %d", id, init));
      for (int which = 0; which < Pools; ++which) {
        if (which == 3) continue;
        if (id < 12) ex.all(mc::fmt("B %d %d %d %d", id, which, which % 3, t ? 99 : 5));
        else for (int w = 0; w < 8; ++w) ex.all(mc::fmt("S %d %d 3 %d %d 8", id, which, t ? 4 : 3, w));
      }
      if (id < 12) ex.all(mc::fmt("T %d 2 1 %d", id, t ? 5 : 3));
      ex.all(mc::fmt("%c %d 3 1 %d", id < 12 ? 'B' : 'S', id, t ? 3 : 2));
      for (int n = 0; n <= ex.tier(300, 2000); ++n) ex.all(mc::fmt("L %d %d %d", id, n, n % 4));
      for (int k = 9; k <= ex.tier(17, 21); ++k)
        for (int d = -2; d <= 2; ++d) ex.all(mc::fmt("L %d %d 2", id, (1 << k) + d));
    }
  }
};
MC_MAIN(H)
