// A03 (PROP 3) and A05 (PROP 5): eni::HashTable against a mathematical map.
// Breadth-first search over all reachable table layouts for chosen hash
// functions and small key sets, exhaustive sequences on two tables, and sweeps
// over every size past all growth steps.
#include "bfs.hpp"
#include <adt/HashTable.h>
#include <map>

static int g_Mode = 0;
static unsigned hashOf(int k) {
  switch (g_Mode) {
    case 0: return (unsigned)k;
    case 1: return 0;
    case 2: return 0xffffffffu;
    case 3: return (unsigned)k % 2;
    case 4: return (unsigned)k * 17u;               // one bucket of 17, different hashes
    case 5: return 0xfffffff0u + (unsigned)k * 5u;  // wraps
    case 6: return (unsigned)k << 28;
    case 7: return (unsigned)(k % 3) * 3u;
    case 8: return 16u - (unsigned)(k % 4);         // runs that wrap around the end of 17
    case 9: return (unsigned)k * 2654435761u;
    case 10: return (unsigned)k * 3u * 17u * 37u * 67u; // one bucket in every small size
    default: return (unsigned)(k / 2);
  }
}
static const int Modes = 12;
struct Hash { unsigned operator()(int k) const { return hashOf(k); } };
typedef eni::HashTable<int, long, Hash> Table;
typedef std::map<int, long> Map;

template <class T> static std::string layout(const T& t) {
  std::string k = mc::fmt("%zu/%zu:", t.numOfBuckets(), t.numOfTombstones());
  for (unsigned i = 0; i < t.numOfBuckets(); ++i) {
    auto e = t.bucket(i).entry;
    if (e == T::EmptyBucket()) k += '.';
    else if (e == T::Tombstone()) k += 'x';
    else k += mc::fmt("%d=%ld,", e->key(), e->value());
  }
  return k;
}

// what find and the counters say
static void checkMap(Table& t, const Map& m, int lo, int hi, const char* n) {
  const Table& c = t;
  if (c.numOfEntries() != m.size()) mc::fail(mc::fmt("%s reports %zu entries instead of %zu", n, c.numOfEntries(), m.size()));
  if (c.empty() != m.empty()) mc::fail(mc::fmt("%s: empty() is wrong", n));
  for (int k = lo; k <= hi; ++k) {
    auto w = m.find(k);
    auto it = t.find(k);
    auto ct = c.find(k);
    if ((it != t.end()) != (w != m.end())) mc::fail(mc::fmt("%s: key %d is %s", n, k, w == m.end() ? "found, but absent" : "lost"));
    if ((ct != c.end()) != (w != m.end())) mc::fail(mc::fmt("%s: key %d is %s (constant)", n, k, w == m.end() ? "found, but absent" : "lost"));
    if (w != m.end() && (it->key() != k || it->value() != w->second || ct->key() != k || ct->value() != w->second))
      mc::fail(mc::fmt("%s: key %d has value %ld instead of %ld", n, k, it->value(), w->second));
  }
}
// what the public counters say about the buckets
static void checkBuckets(const Table& t, const Map& m, const char* n) {
  size_t used = 0, gone = 0, free = 0;
  for (size_t i = 0; i < t.numOfBuckets(); ++i) {
    auto& b = t.bucket((unsigned)i);
    if (b.entry == Table::EmptyBucket()) ++free;
    else if (b.entry == Table::Tombstone()) ++gone;
    else {
      ++used;
      if (b.hash != hashOf(b.entry->key())) mc::fail(mc::fmt("%s: bucket %zu holds key %d under hash %08x", n, i, b.entry->key(), b.hash));
      if (!m.count(b.entry->key())) mc::fail(mc::fmt("%s: bucket %zu holds key %d, which is not stored", n, i, b.entry->key()));
    }
  }
  if (used != m.size() || gone != t.numOfTombstones()) mc::fail(mc::fmt("%s: %zu buckets with entries and %zu tombstones, but %zu entries and %zu tombstones reported", n, used, gone, m.size(), t.numOfTombstones()));
  if (t.numOfBuckets() && !free) mc::fail(mc::fmt("%s: none of %zu buckets is empty", n, t.numOfBuckets()));
  if (t.numOfBuckets() && t.load_factor() != (float)m.size() / (float)t.numOfBuckets()) mc::fail(mc::fmt("%s: load factor %g with %zu entries in %zu buckets", n, t.load_factor(), m.size(), t.numOfBuckets()));
}
// what iteration, chains and counts say
template <class T> static void walk(T& t, const Map& m, int lo, int hi, const char* n) {
  Map seen;
  size_t steps = 0;
  auto end = t.end();
  for (auto it = t.begin(); it != end; ) {
    if (++steps > m.size()) mc::fail(mc::fmt("%s: iteration goes on after all %zu entries", n, m.size()));
    auto w = m.find(it->key());
    if (w == m.end() || (*it).value() != w->second || &*it != it.operator->()) mc::fail(mc::fmt("%s: iteration shows %d=%ld, which is not stored", n, it->key(), it->value()));
    if (!seen.insert(*w).second) mc::fail(mc::fmt("%s: iteration shows key %d twice", n, it->key()));
    auto old = it;
    if (steps % 2) { if (&++it != &it) mc::fail("++ does not answer the iterator"); }
    else if (it++ != old) mc::fail("postfix ++ does not answer the old position");
    if (it == old) mc::fail("++ does not move");
  }
  if (seen.size() != m.size()) mc::fail(mc::fmt("%s: iteration shows %zu of %zu entries", n, seen.size(), m.size()));
  for (int k = lo; k <= hi; ++k) {
    size_t cnt = t.count(k);
    if (cnt != m.count(k)) mc::fail(mc::fmt("%s: count of key %d is %zu", n, k, cnt));
    std::set<int> want, got;
    if (m.count(k)) for (auto& p : m) if (hashOf(p.first) == hashOf(k)) want.insert(p.first);
    bool first = true;
    auto ce = t.end(k);
    for (auto it = t.begin(k); it != ce; ++it) {
      int q = it->key();
      if (first && q != k) mc::fail(mc::fmt("%s: the chain of key %d starts with key %d", n, k, q));
      first = false;
      if (!want.count(q)) mc::fail(mc::fmt("%s: the chain of key %d shows key %d", n, k, q));
      if (!got.insert(q).second) mc::fail(mc::fmt("%s: the chain of key %d shows key %d twice", n, k, q));
      if ((*it).value() != m.at(q)) mc::fail(mc::fmt("%s: the chain of key %d shows a wrong value", n, k));
    }
    if (got.size() != want.size()) mc::fail(mc::fmt("%s: the chain of key %d shows %zu of %zu entries", n, k, got.size(), want.size()));
  }
}
static void check(Table& t, const Map& m, int lo, int hi, const char* n) {
  if (PROP == 3) { checkMap(t, m, lo, hi, n); checkBuckets(t, m, n); }
  else { walk(t, m, lo, hi, n); const Table& c = t; walk(c, m, lo, hi, n);
    if (c.numOfEntries() != m.size() || c.empty() != m.empty()) mc::fail(mc::fmt("%s reports %zu entries instead of %zu", n, c.numOfEntries(), m.size())); }
}

struct Sys {
  enum Kind { Ins, Era, Set, Clr, Reh, RehN, SelfAssign, CopyRound, MoveRound, AssignRound, MoveAssignRound, NewSize,
              // two tables
              InsB, EraB, SetB, ClrB, RehB, CopyAB, CopyBA, AssignAB, AssignBA, MoveAB, MoveBA, MoveAssignAB, MoveAssignBA };
  struct Op { Kind k; int x; };
  std::vector<Op> table;
  std::unique_ptr<Table> a, b;
  Map A, B;
  int keys, init;
  bool two;
  bool checking = true;
  static const char* kname(Kind k) {
    static const char* n[] = {"insert", "erase", "set", "clear", "rehash()", "rehash", "a=a", "a=copy(a)", "a=Table(move(a))", "assign to new",
      "move-assign to new", "new", "b.insert", "b.erase", "b.set", "b.clear", "b.rehash", "b=new copy(a)", "a=new copy(b)", "b=a", "a=b",
      "b=new Table(move(a))", "a=new Table(move(b))", "b=move(a)", "a=move(b)"};
    return n[k];
  }
  Sys(int keys, int init, bool two) : keys(keys), init(init), two(two) {
    auto add = [&](Kind k, int x = 0) { table.push_back({k, x}); };
    for (int k = 0; k < keys; ++k) { add(Ins, k); add(Era, k); }
    add(Clr); add(Reh); add(SelfAssign);
    if (!two) {
      add(Set, 0);
      for (int n : {0, 1, 2, 3, 5, 16, 17, 18, 40}) add(RehN, n);
      add(CopyRound); add(MoveRound); add(AssignRound); add(MoveAssignRound);
      for (int n : {0, 1, 3}) add(NewSize, n);
    } else {
      for (int n : {0, 4}) add(RehN, n);
      for (int k = 0; k < keys; ++k) { add(InsB, k); add(EraB, k); }
      add(Set, 0); add(SetB, 0); add(ClrB); add(RehB, 1); add(NewSize, 0);
      for (int k = CopyAB; k <= MoveAssignBA; ++k) add((Kind)k);
    }
  }
  void reset() { a.reset(new Table(init)); b.reset(new Table(0)); A.clear(); B.clear(); }
  void ops(std::vector<int>& r) { for (size_t i = 0; i < table.size(); ++i) r.push_back(i); }
  std::string name(int o) const { return mc::fmt("%s(%d)", kname(table[o].k), table[o].x); }
  void insert(Table& t, Map& m, int k) {
    bool exist = !m.count(k);            // must be overwritten
    bool want = m.count(k);
    Table::entry_type* e = t.insert(k, exist);
    if (exist != want) mc::fail(mc::fmt("insert of key %d reports that it was %s", k, exist ? "present" : "absent"));
    if (!e || e->key() != k) mc::fail(mc::fmt("insert of key %d answers a wrong entry", k));
    if (want) { if (e->value() != m[k]) mc::fail(mc::fmt("insert of the present key %d changed its value to %ld", k, e->value())); }
    else { e->setValue(100 + k); m[k] = 100 + k; }
  }
  void erase(Table& t, Map& m, int k) {
    bool was = t.erase(k);
    if (was != (bool)m.erase(k)) mc::fail(mc::fmt("erase of key %d reports %s", k, was ? "that it removed it" : "nothing to remove"));
  }
  void set(Table& t, Map& m, int k) {
    auto it = t.find(k);
    if (it == t.end()) { if (m.count(k)) mc::fail(mc::fmt("key %d is lost", k)); return; }
    m[k] = m[k] == 100 + k ? 200 + k : 100 + k;
    it->setValue(m[k]);
  }
  void apply(int o) {
    Op p = table[o];
    switch (p.k) {
      case Ins: insert(*a, A, p.x); break;
      case Era: erase(*a, A, p.x); break;
      case Set: set(*a, A, p.x); break;
      case Clr: a->clear(); A.clear(); break;
      case Reh: a->rehash(); break;
      case RehN: a->rehash((size_t)p.x); break;
      case SelfAssign: { Table& s = *a; if (&(*a = s) != &s) mc::fail("assignment does not answer the table"); break; }
      case CopyRound: a.reset(new Table(*a)); break;
      case MoveRound: { std::unique_ptr<Table> n(new Table(std::move(*a))); gone(*a); a = std::move(n); break; }
      case AssignRound: { std::unique_ptr<Table> n(new Table(5)); bool e; n->insert(77, e)->setValue(1); *n = *a; a = std::move(n); break; }
      case MoveAssignRound: { std::unique_ptr<Table> n(new Table); *n = std::move(*a); gone(*a); a = std::move(n); break; }
      case NewSize: a.reset(new Table((size_t)p.x)); A.clear(); break;
      case InsB: insert(*b, B, p.x); break;
      case EraB: erase(*b, B, p.x); break;
      case SetB: set(*b, B, p.x); break;
      case ClrB: b->clear(); B.clear(); break;
      case RehB: b->rehash((size_t)p.x); break;
      case CopyAB: b.reset(new Table(*a)); B = A; break;
      case CopyBA: a.reset(new Table(*b)); A = B; break;
      case AssignAB: *b = *a; B = A; break;
      case AssignBA: *a = *b; A = B; break;
      case MoveAB: b.reset(new Table(std::move(*a))); B = A; A.clear(); break;
      case MoveBA: a.reset(new Table(std::move(*b))); A = B; B.clear(); break;
      case MoveAssignAB: *b = std::move(*a); B = A; A.clear(); break;
      case MoveAssignBA: *a = std::move(*b); A = B; B.clear(); break;
    }
    if (!checking) return;
    check(*a, A, -1, keys, "a");
    if (two) check(*b, B, -1, keys, "b");
  }
  // a table that was moved from is empty and usable
  void gone(Table& t) {
    Map none;
    if (!checking) return;
    check(t, none, -1, keys, "a table moved from");
    insert(t, none, 1);
    check(t, none, -1, keys, "a table moved from");
  }
  std::string key() const { return two ? layout(*a) + "|" + layout(*b) : layout(*a); }
};

// all sizes: insert n keys, erase part of them in some order, insert others
static void sweep(mc::Explorer& ex, int mode, int n, int init, int pattern) {
  g_Mode = mode;
  std::unique_ptr<Table> t(new Table((size_t)init));
  Map m;
  auto ins = [&](int k) {
    bool e = !m.count(k);
    auto* x = t->insert(k, e);
    if (e != (bool)m.count(k) || x->key() != k) mc::fail(mc::fmt("insert of key %d into %zu entries: wrong answer", k, m.size()));
    if (!e) { x->setValue(k * 3L); m[k] = k * 3L; }
    ex.beat();
  };
  auto era = [&](int k) {
    bool r = t->erase(k);
    if (r != (bool)m.erase(k)) mc::fail(mc::fmt("erase of key %d from %zu entries: wrong answer", k, m.size()));
    ex.beat();
  };
  auto look = [&] { check(*t, m, n > 3000 ? n - 20 : -1, n + 2, "the table"); ex.transitions(); };
  // for large tables with colliding keys, chains are quadratic: iteration only
  auto lookAll = [&] {
    if (PROP == 3) { checkMap(*t, m, -1, n + 2, "the table"); checkBuckets(*t, m, "the table"); ex.transitions(); }
    else look();
  };
  for (int i = 0; i < n; ++i) {
    ins(i);
    if (n <= 40) look();
    else if ((i & (i - 1)) == 0) look();
  }
  lookAll();
  switch (pattern) {
    case 0: for (int i = 0; i < n; i += 2) era(i); break;
    case 1: for (int i = n - 1; i >= 0; --i) { era(i); if (n <= 40) look(); } break;
    case 2: for (int i = 0; i < n; ++i) { era(i); ins(n + 1000 + i); if (n <= 40) look(); } break;
    case 3: for (int r = 0; r < 3; ++r) { for (int i = 0; i < n; ++i) era(i); for (int i = 0; i < n; ++i) ins(i); } break;
    case 4: t->rehash((size_t)n); lookAll(); t->rehash((size_t)(n / 2)); lookAll(); t->rehash((size_t)(n + 1)); lookAll(); t->rehash((size_t)(2 * n + 1)); ins(n + 7); break;
    case 5: for (int i = 0; i < n; i += 3) era(i); { Table c(*t); t->clear(); Map k = m; m.clear(); lookAll(); ins(3); m.swap(k); t.reset(new Table(c)); } break;
    case 7: t->clear(); m.clear(); for (int i = 0; i < 2 * n; ++i) { ins(i); era(i); if (n <= 40) look(); } break;       // tombstones only
    case 8: t->clear(); m.clear(); for (int i = 0; i < 3 * n; ++i) { ins(i); if (i >= 3) era(i - 3); if (n <= 40) look(); } break;
    case 9: t->clear(); m.clear(); t->rehash((size_t)(n / 3)); for (int i = 0; i < n; ++i) { ins(i * 2); if (i % 3) era(i * 2); if (n <= 40) look(); if (i % 11 == 10) t->rehash((size_t)m.size()); } break;
    case 6: for (int i = 0; i < n; ++i) if (i % 4) era(i); t->rehash(); break;
  }
  lookAll();
  for (int i = 0; i < n; i += 5) { era(i); ins(i + 1); }
  lookAll();
  while (!m.empty()) era(m.begin()->first);
  lookAll();
  ins(5);
  lookAll();
  ex.traces();
  ex.state(mc::hash(mc::fmt("sweep %d %d %d %d", mode, n, init, pattern)));
}

// iterators: every one made to stand where every other stands, in its own table and in another one
template <class I> struct Pos { I it, end; int table; std::vector<const void*> rest; };
template <class I> static std::vector<const void*> restOf(I it, const I& end) {
  std::vector<const void*> r;
  for (; it != end && r.size() < 100; ++it) r.push_back(&*it);
  return r;
}
template <class I> static void stand(mc::Explorer& ex, std::vector<Pos<I>>& all, const char* kind) {
  for (auto& p : all) p.rest = restOf(p.it, p.end);
  for (size_t i = 0; i < all.size(); ++i)
    for (size_t j = 0; j < all.size(); ++j) {
      Pos<I> &p = all[i], &q = all[j];
      auto bad = [&](const char* what) { mc::fail(mc::fmt("%s iterators: %zu of table %d and %zu of table %d: %s", kind, i, p.table, j, q.table, what)); };
      I x(p.it), y;
      if (!(x == p.it) || x != p.it) bad("a copy differs");
      if (&(x = q.it) != &x) bad("assignment does not answer the iterator");
      y = x;
      if (!(x == q.it) || x != q.it || !(q.it == x) || y != q.it) bad("assigned, but different");
      if (restOf(x, q.end) != q.rest || restOf(y, q.end) != q.rest || restOf(I(x), q.end) != q.rest) bad("assigned, but iterates over something else");
      if (x != q.it) bad("moved by iterating over a copy");
      if (restOf(p.it, p.end) != p.rest) bad("assignment of a copy moves the iterator");
      if (!p.rest.empty() || !q.rest.empty()) {
        bool same = p.table == q.table && !p.rest.empty() && !q.rest.empty() && p.rest == q.rest;
        if (!same && p.it == q.it) bad("equal, but at different places");
        if (same && strcmp(kind, "entry") == 0 && p.it != q.it) bad("different, but at the same place");
      }
      I s(p.it), u(q.it);
      std::swap(s, u);
      if (s != q.it || u != p.it || restOf(s, q.end) != q.rest || restOf(u, p.end) != p.rest) bad("exchanged wrongly");
      if (!q.rest.empty()) { I v(p.it); v = q.it; I old = v++; if (old != q.it || restOf(v, q.end) != std::vector<const void*>(q.rest.begin() + 1, q.rest.end())) bad("postfix ++ after assignment"); }
      ex.transitions();
    }
}
// an iterator made constant stands at the same place and goes on in the same way, and the iterator stays
template <class I, class C> static void constant(mc::Explorer& ex, std::vector<Pos<I>>& all, std::vector<Pos<C>>& consts, const C& end, const char* kind) {
  for (size_t i = 0; i < all.size(); ++i) {
    Pos<I>& p = all[i];
    std::vector<const void*> rest = restOf(p.it, p.end);
    auto bad = [&](const char* what) { mc::fail(mc::fmt("%s iterator %zu of table %d made constant: %s", kind, i, p.table, what)); };
    C c = p.it, d;
    d = p.it;
    if (c != d || !(c == C(p.it))) bad("different every time");
    if (restOf(c, end) != rest || restOf(d, end) != rest || restOf(C(p.it), end) != rest) bad("goes on in another way");
    if (restOf(p.it, p.end) != rest) bad("the iterator changed");
    if (rest.empty() != (c == end) || rest.empty() != (c == C(p.end))) bad("wrong about the end");
    if (!rest.empty()) {
      if (c->key() != p.it->key() || &*c != rest[0]) bad("stands elsewhere");
      I n(p.it);
      ++n;
      C o = c++;
      if (o != d || restOf(c, end) != restOf(n, p.end) || restOf(C(n), end) != restOf(n, p.end)) bad("moves in another way");
    }
    consts.push_back({d, end, p.table, {}});
    ex.transitions();
  }
}
static void iterators(mc::Explorer& ex, int mode, int init, int ka, int kb, int gone) {
  g_Mode = mode;
  Table t[2] = {Table((size_t)init), Table((size_t)(init ? 0 : 5))};
  int mask[2] = {ka, kb};
  for (int w = 0; w < 2; ++w) {
    bool e;
    for (int k = 0; k < 5; ++k) if (mask[w] >> k & 1 || gone) t[w].insert(k, e)->setValue(k);
    if (gone) for (int k = 0; k < 5; ++k) if (!(mask[w] >> k & 1)) t[w].erase(k);
  }
  std::vector<Pos<Table::iterator>> en;
  std::vector<Pos<Table::const_iterator>> ce;
  std::vector<Pos<Table::chain_iterator>> ch;
  std::vector<Pos<Table::const_chain_iterator>> cc;
  for (int w = 0; w < 2; ++w) {
    const Table& c = t[w];
    for (auto i = t[w].begin(); ; ++i) { en.push_back({i, t[w].end(), w, {}}); if (i == t[w].end()) break; }
    for (auto i = c.begin(); ; ++i) { ce.push_back({i, c.end(), w, {}}); if (i == c.end()) break; }
    for (int k = 0; k < 5; ++k) {
      auto f = t[w].find(k);
      if (f != t[w].end()) { en.push_back({f, t[w].end(), w, {}}); ce.push_back({c.find(k), c.end(), w, {}}); }
      for (auto i = t[w].begin(k); ; ++i) { ch.push_back({i, t[w].end(k), w, {}}); if (i == t[w].end(k)) break; }
      for (auto i = c.begin(k); ; ++i) { cc.push_back({i, c.end(k), w, {}}); if (i == c.end(k)) break; }
    }
  }
  const Table& c0 = t[0];
  std::vector<Pos<Table::const_iterator>> ke;
  std::vector<Pos<Table::const_chain_iterator>> kc;
  constant(ex, en, ke, c0.end(), "entry");
  constant(ex, ch, kc, c0.end(0), "chain");
  ce.insert(ce.end(), ke.begin(), ke.begin() + std::min<size_t>(ke.size(), 4));
  cc.insert(cc.end(), kc.begin(), kc.begin() + std::min<size_t>(kc.size(), 6));
  stand(ex, en, "entry"); stand(ex, ce, "entry"); stand(ex, ch, "chain"); stand(ex, cc, "chain");
  ex.traces();
  ex.state(mc::hash(mc::fmt("it %d %d %d %d %d", mode, init, ka, kb, gone)));
}

struct H : mc::Harness {
  const char* rule() override { return "states: layouts of one or two tables (buckets, tombstones, keys, values); every operation in every state, replayed on the real table"; }
  double hangSeconds() override { return 10; }
  void exec(mc::Explorer& ex, const std::string& c) override {
    char how;
    int mode, keys, init, two, p, w = 0, n = 1;
    sscanf(c.c_str(), "%c %d %d %d %d %d %d %d", &how, &mode, &keys, &init, &two, &p, &w, &n);
    if (how == 'I') { iterators(ex, mode, keys, init, two, p); return; }
    if (how == 'W') { sweep(ex, mode, keys, init, two); return; }
    g_Mode = mode;
    Sys s(keys, init, two);
    uint64_t salt = mc::hash(mc::fmt("%d %d", mode, two));
    if (how == 'B') mc::bfs(ex, s, ex.tier<size_t>(2000000, 8000000), p, salt);
    else mc::sequences(ex, s, p, w, n, salt);
  }
  void enumerate(mc::Explorer& ex) override {
    bool t = ex.thorough();
    for (int mode = 0; mode < Modes; ++mode) {
      ex.all(mc::fmt("B %d 5 3 0 99", mode));
      if (t) ex.all(mc::fmt("B %d 6 3 0 99", mode));
      for (int keys : {2, 3, 4})
        for (int init : {0, 1, 3, 16}) ex.all(mc::fmt("B %d %d %d 0 99", mode, keys, init));
      ex.all(mc::fmt("B %d 2 3 1 99", mode));
      ex.all(mc::fmt("B %d 3 0 1 %d", mode, t ? 99 : 5));
    }
    for (int mode : {0, 1, 4})
      for (int w = 0; w < 16; ++w) ex.all(mc::fmt("S %d 2 %d 1 %d %d 16", mode, mode, t ? 4 : 3, w));
    for (int mode = 0; mode < Modes; ++mode)
      for (int pattern = 0; pattern < 10; ++pattern)
        for (int init : {0, 1, 3, 16, 300}) {
          for (int n = 0; n <= (t ? 120 : PROP == 5 ? 26 : 40); ++n) ex.all(mc::fmt("W %d %d %d %d 0", mode, n, init, pattern));
          if ((init == 3 && (PROP == 3 || pattern < 2 || pattern == 4)) || t)
            for (int n : {50, 73, 74, 100, 147, 148, 149, 314, 315, 500, 733}) if (t || mode == 0 || mode == 9 || n < 150) ex.all(mc::fmt("W %d %d %d %d 0", mode, n, init, pattern));
        }
    if (PROP == 5)
      for (int mode = 0; mode < Modes; ++mode)
        for (int a = 0; a < 32; ++a) for (int b = 0; b < 32; ++b) for (int gone = 0; gone < 2; ++gone)
          for (int init : {0, 3, 20}) if (t || (init == 3 && (a & b) == b)) ex.all(mc::fmt("I %d %d %d %d %d", mode, init, a, b, gone));
    if (PROP == 3)
      for (int mode : {0, 5, 9})
        for (int n : {1944, 1945, 1946, 3074, 3075, 6156, 6157, 6158, 9216, 9217, 12308, 12309, 15362, 15363, 24578, 24579, 36867, 36868, 49152, 49153,
                      73738, 73739, 98325, 98326, 147459, 147460, 150000, 245785, 245786, 300000})
          for (int pattern = 0; pattern < 10; ++pattern) {
            if (!t && (n > 160000 || (pattern != 0 && pattern != 4 && n > 20000))) continue;
            if (!t && mode != 9 && n > 13000) continue;
            ex.all(mc::fmt("W %d %d 3 %d 0", mode, n, pattern));
          }
    else
      for (int n : {1945, 6157, 15363, 49153}) ex.all(mc::fmt("W 0 %d 3 0 0", n)), ex.all(mc::fmt("W 9 %d 3 4 0", n));
    if (PROP == 5) for (int n : {98310, 98326, 100000}) ex.all(mc::fmt("W 0 %d 3 0 0", n)), ex.all(mc::fmt("W 9 %d 3 6 0", n));
  }
};
MC_MAIN(H)
