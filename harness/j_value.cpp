// J04: JSON values under every sequence of copies, moves, assignments, changes
// and adoptions, against value trees; after every operation each value is
// changed everywhere and destroyed in turn, so that shared storage shows.
#include "bfs.hpp"
#include "ref_json.hpp"

using std::string;
typedef json::Value Value;

static int nodes(const ref::V& v) { int n = 1; for (auto& e : v.a) n += nodes(e); for (auto& p : v.o) n += nodes(p.second); return n; }
static string plus1(const string& s) { return std::to_string(atoll(s.c_str()) + 1); }

static ref::V change(Value& v, ref::V w) {
  switch (w.k) {
    case ref::Bool: v = Value(!w.b); w.b = !w.b; break;
    case ref::Int: v.asInteger() += 1; w.s = plus1(w.s); break;
    case ref::Str: v.asString() += "!"; v.asString()[0] = '?'; w.s += "!"; w.s[0] = '?'; break;
    case ref::Arr:
      for (size_t i = 0; i < w.a.size(); ++i) w.a[i] = change(v.asArray().at(i), w.a[i]);
      v.asArray().push_back(Value(true));
      w.a.push_back(ref::V::boolean(true));
      break;
    case ref::Obj:
      for (auto& p : w.o) p.second = change(v.asObject().at(p.first), p.second);
      v.asObject()["new"] = Value(5);
      w.set("new", ref::V::integer("5"));
      break;
    default: break;
  }
  return w;
}
static void access(const Value& v, const ref::V& w, const char* n) {
  if (w.k == ref::Arr) {
    for (int i : {-1, (int)w.a.size(), (int)w.a.size() + 1, 2147483647, -2147483647 - 1}) {
      int thrown = 0;
      for (int k = 0; k < 3; ++k)
        try { if (k == 0) v[i]; else if (k == 1) v.toArray()[i]; else v.toArray().at((size_t)(ptrdiff_t)i); } catch (const std::out_of_range&) { ++thrown; }
      if (thrown != 3) mc::fail(mc::fmt("%s: index %d of a list of %zu raises no out-of-range error", n, i, w.a.size()));
    }
    for (size_t i = 0; i < w.a.size(); ++i) {
      string d = ref::diff(v[(int)i], w.a[i], n);
      if (!d.empty()) mc::fail("by index: " + d);
      access(v[(int)i], w.a[i], n);
    }
  } else if (!v[0].isUndefined() || !v[7].isUndefined() || !v[-1].isUndefined()) mc::fail(string(n) + ": an index of a value that is no list gives a value");
  if (w.k == ref::Obj) {
    for (const char* key : {"absent", "", "K"}) {
      if (w.get(key)) continue;
      int thrown = 0;
      for (int k = 0; k < 3; ++k)
        try { if (k == 0) v[string(key)]; else if (k == 1) v.toObject()[key]; else v.toObject().at(key); } catch (const std::out_of_range&) { ++thrown; }
      if (thrown != 3) mc::fail(string(n) + ": reading the missing key \"" + key + "\" raises no out-of-range error");
      if (v.toObject().size() != w.o.size()) mc::fail(string(n) + ": reading a missing key adds it");
    }
    for (auto& p : w.o) {
      string d = ref::diff(v[p.first], p.second, n);
      if (!d.empty()) mc::fail("by key: " + d);
      access(v[p.first], p.second, n);
    }
  } else if (!v[string("k")].isUndefined() || !v[string()].isUndefined()) mc::fail(string(n) + ": a key of a value that is no object gives a value");
}

static const int N = 3;
struct Sys {
  enum Kind { Leaf, CopyC, MoveC, Assign, Own, Push, PushOwn, Member, Scalar, Pop, Delegate, Storage, Child, ChildMember, StorageC, Kinds };
  struct Op { Kind k; int i, j; };
  std::vector<Op> table;
  std::unique_ptr<Value> v[N];
  ref::V m[N];
  bool checking = true;
  int limit;
  static ref::V leaf(int l) {
    switch (l) {
      case 0: return ref::V();
      case 1: return ref::V::boolean(true);
      case 2: return ref::V::integer("7");
      case 3: return ref::V::string("a string that is stored on the heap");
      case 4: return ref::V::array();
      case 5: return ref::V::object();
      default: return ref::V::string("s");
    }
  }
  Sys(int limit, int n) : limit(limit) {
    for (int i = 0; i < n; ++i) {
      for (int l = 0; l < 7; ++l) table.push_back({Leaf, i, l});
      for (Kind k : {CopyC, MoveC}) for (int j = 0; j < n; ++j) if (i != j) table.push_back({k, i, j});
      for (Kind k : {Assign, Push, Member, Storage, Child, ChildMember, StorageC}) for (int j = 0; j < n; ++j) table.push_back({k, i, j});
      for (Kind k : {Own, PushOwn, Scalar, Pop}) table.push_back({k, i, 0});
      for (int l = 0; l < 3; ++l) table.push_back({Delegate, i, l});
    }
  }
  void reset() { for (int i = 0; i < N; ++i) { v[i].reset(new Value()); m[i] = ref::V(); } }
  void ops(std::vector<int>& r) {
    for (size_t o = 0; o < table.size(); ++o) {
      const Op& p = table[o];
      const ref::V &a = m[p.i], &b = m[p.k == Leaf || p.k == Delegate ? 0 : p.j];
      bool ok = true;
      switch (p.k) {
        case Own: ok = (a.k == ref::Arr && !a.a.empty()) || (a.k == ref::Obj && !a.o.empty()); break;
        case Push: ok = a.k == ref::Arr && nodes(a) + nodes(b) <= limit; break;
        case PushOwn: ok = a.k == ref::Arr && !a.a.empty() && nodes(a) + nodes(a.a[0]) <= limit; break;
        case Member: ok = a.k == ref::Obj && (p.i != p.j || a.get("k")) && nodes(a) + nodes(b) <= limit; break;
        case Child: ok = a.k == ref::Arr && !a.a.empty() && nodes(a) + nodes(b) <= limit; break;
        case ChildMember: ok = a.k == ref::Obj && a.get("k") && nodes(a) + nodes(b) <= limit; break;
        case Scalar: ok = (a.k == ref::Int && a.s.size() < 2 && a.s < "9") || (a.k == ref::Str && a.s.size() < 40) || a.k == ref::Bool; break;
        case Pop: ok = (a.k == ref::Arr && !a.a.empty()) || (a.k == ref::Obj && !a.o.empty()); break;
        case Storage: case StorageC: ok = a.k == b.k && (a.k == ref::Arr || a.k == ref::Obj || a.k == ref::Str || a.k == ref::Int); break;
        default: break;
      }
      if (ok) r.push_back(o);
    }
  }
  string name(int o) const {
    static const char* n[] = {"v%d=leaf%d", "v%d=copy of v%d", "v%d=moved v%d", "v%d=v%d (assign)", "v%d=own element", "v%d.push(v%d)", "v%d.push(own element)", "v%d[k]=v%d", "v%d changed",
                              "v%d.pop", "v%d.delegate%d", "storage of v%d=storage of v%d", "v%d[0]=v%d", "v%d.at(k)=v%d", "v%d=Value(storage of v%d)"};
    return mc::fmt(n[table[o].k], table[o].i, table[o].j);
  }
  void apply(int o) {
    Op p = table[o];
    Value& a = *v[p.i];
    ref::V& x = m[p.i];
    switch (p.k) {
      case Leaf: { Value t = ref::make(leaf(p.j)); a = t; x = leaf(p.j); break; }
      case CopyC: v[p.i].reset(new Value(*v[p.j])); x = m[p.j]; break;
      case MoveC: v[p.i].reset(new Value(std::move(*v[p.j]))); x = m[p.j]; m[p.j] = ref::V(); break;
      case Assign: if (&(a = *v[p.j]) != &a) mc::fail("assignment does not answer its object"); x = ref::V(m[p.j]); break;
      case Own: {
        ref::V e = x.k == ref::Arr ? x.a[0] : x.o[0].second;
        if (x.k == ref::Arr) a = a.toArray()[0]; else a = a.toObject()[x.o[0].first];
        x = e;
        break;
      }
      case Push: { ref::V e = m[p.j]; a.asArray().push_back(*v[p.j]); x.a.push_back(e); break; }
      case PushOwn: { ref::V e = x.a[0]; a.asArray().push_back(a.toArray()[0]); x.a.push_back(e); break; }
      case Member: { ref::V e = m[p.j]; a.asObject()["k"] = *v[p.j]; x.set("k", e); break; }
      case Child: { ref::V e = m[p.j]; a.asArray().at(0) = *v[p.j]; x.a[0] = e; break; }
      case ChildMember: { ref::V e = m[p.j]; a.asObject().at("k") = *v[p.j]; x.set("k", e); break; }
      case Scalar:
        if (x.k == ref::Int) { a.asInteger() += 1; x.s = plus1(x.s); }
        else if (x.k == ref::Str) { a.asString() += "+"; x.s += "+"; }
        else { a = Value(!x.b); x.b = !x.b; }
        break;
      case Pop:
        if (x.k == ref::Arr) { a.asArray().erase((size_t)0); x.a.erase(x.a.begin()); }
        else { a.asObject().erase(x.o[0].first); x.o.erase(x.o.begin()); }
        break;
      case Delegate: {
        bool free = x.k == ref::Undef, thrown = false;
        std::unique_ptr<eni::s256> s(new eni::s256(3));
        std::unique_ptr<json::Object> b(new json::Object());
        (*b)["d"] = Value(true);
        std::unique_ptr<json::Array> c(new json::Array());
        c->push_back(Value("e"));
        try {
          Value* r = p.j == 0 ? &a.delegate(*s) : p.j == 1 ? &a.delegate(*b) : &a.delegate(*c);
          if (r != &a) mc::fail("adoption does not answer its object");
        } catch (const std::logic_error&) { thrown = true; }
        if (thrown == free) mc::fail(free ? "adopting storage into an undefined value is refused" : "adopting storage into a value that holds something is not refused");
        if (free) {
          if (p.j == 0) { s.release(); x = ref::V::integer("3"); }
          if (p.j == 1) { b.release(); x = ref::V::object(); x.set("d", ref::V::boolean(true)); }
          if (p.j == 2) { c.release(); x = ref::V::array(); x.a.push_back(ref::V::string("e")); }
        }
        break;
      }
      case Storage:
        if (x.k == ref::Arr) a.asArray() = v[p.j]->toArray();
        else if (x.k == ref::Obj) a.asObject() = v[p.j]->toObject();
        else if (x.k == ref::Str) a.asString() = v[p.j]->toString();
        else a.asInteger() = v[p.j]->toInteger();
        x = ref::V(m[p.j]);
        break;
      case StorageC: {
        const Value& b = *v[p.j];
        Value* n = x.k == ref::Arr ? new Value(b.toArray()) : x.k == ref::Obj ? new Value(b.toObject()) : x.k == ref::Str ? new Value(b.toString()) : new Value(b.toInteger());
        v[p.i].reset(n);
        x = ref::V(m[p.j]);
        break;
      }
      default: break;
    }
    if (checking) probe();
  }
  void compare(const char* when) {
    for (int i = 0; i < N; ++i) {
      if (!v[i]) continue;
      string d = ref::diff(*v[i], m[i], mc::fmt("v%d", i));
      if (!d.empty()) mc::fail(string(when) + d);
    }
  }
  // uses the state up: every value is changed, then destroyed, in turn
  string before;
  void probe() {
    before = model();
    compare("");
    for (int i = 0; i < N; ++i) access(*v[i], m[i], mc::fmt("v%d", i).c_str());
    compare("after reading only: ");
    static const int order[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    const int* q = order[turn++ % 6];
    for (int t = 0; t < N; ++t) {
      int i = q[t];
      m[i] = change(*v[i], m[i]);
      compare(mc::fmt("after changing v%d everywhere: ", i).c_str());
    }
    for (int t = 0; t < N; ++t) {
      int i = q[(t + 1) % N];
      v[i].reset();
      // reuse of freed storage
      Value noise = ref::make(ref::V::string("noise noise noise noise noise noise"));
      compare(mc::fmt("after destroying v%d: ", i).c_str());
    }
  }
  unsigned turn = 0;
  string model() const { string k; for (int i = 0; i < N; ++i) { m[i].show(k); k += ';'; } return k; }
  string key() const { return before.empty() ? model() : before; }
};
// sequences() keeps the state after apply(), which probe() uses up: rebuild
struct Walk {
  Sys s;
  std::vector<int> done;
  bool checking = true;
  Walk(int limit, int n) : s(limit, n) {}
  void reset() { s.reset(); s.before.clear(); done.clear(); }
  void ops(std::vector<int>& r) { s.ops(r); }
  string name(int o) const { return s.name(o); }
  string key() const { return s.key(); }
  void apply(int o) {
    s.checking = checking;
    s.before.clear();
    s.apply(o);
    done.push_back(o);
    if (!checking) return;
    s.reset();
    s.checking = false;
    string b = s.before;
    for (int d : done) s.apply(d);
    s.before = b;
  }
};

// one shape of every size: every way to copy it onto every kind of target,
// then each side changed (everywhere, or at one place) and destroyed first
static ref::V shape(int k, int n) {
  ref::V v;
  switch (k) {
    case 0: v = ref::V::array(); for (int i = 0; i < n; ++i) v.a.push_back(i % 8 ? ref::V::boolean(i % 3) : ref::V::integer(std::to_string(i))); break;
    case 1: v = ref::V::object(); for (int i = 0; i < n; ++i) v.set(mc::fmt("k%d", i), ref::V::string(mc::fmt("value %d", i))); break;
    case 2: { string s; for (int i = 0; i < n; ++i) s += (char)(i * 7 % 256); v = ref::V::string(s); break; }
    default: break;
  }
  return v;
}
static ref::V nest(int k, int n) {
  ref::V v = ref::V::string("the innermost string, on the heap");
  for (int i = 0; i < n; ++i) {
    ref::V w = k == 0 || (k == 2 && i % 2) ? ref::V::array() : ref::V::object();
    if (w.k == ref::Arr) { w.a.push_back(v); w.a.push_back(ref::V::integer("1")); }
    else { w.set("in", v); w.set("x", ref::V::integer("2")); }
    v = w;
  }
  return v;
}
static ref::V wide(int n) { // list of n short lists, strings and objects
  ref::V v = ref::V::array();
  for (int i = 0; i < n; ++i) {
    ref::V e = i % 3 == 0 ? ref::V::array() : i % 3 == 1 ? ref::V::object() : ref::V::string(mc::fmt("element %d of the list", i));
    if (i % 3 == 0) e.a.push_back(ref::V::integer(std::to_string(i)));
    if (i % 3 == 1) e.set("m", ref::V::boolean(true));
    v.a.push_back(e);
  }
  return v;
}
static ref::V sized(int k, int n) { return k <= 2 ? shape(k, n) : k <= 5 ? nest(k - 3, n) : wide(n); }
static void grow(Value& v, ref::V& w) { // one change, of the value itself only
  if (w.k == ref::Arr) { v.asArray().push_back(Value(true)); w.a.push_back(ref::V::boolean(true)); }
  else if (w.k == ref::Obj) { v.asObject()["new"] = Value(5); w.set("new", ref::V::integer("5")); }
  else if (w.k == ref::Str) { v.asString() += "!"; w.s += "!"; }
}
static void deep(Value* v, ref::V* w) { // one change, of the last or innermost member only
  for (;;) {
    if (w->k == ref::Arr && !w->a.empty()) { size_t i = w->a[0].k == ref::Arr || w->a[0].k == ref::Obj ? 0 : w->a.size() - 1; v = &v->asArray().at(i); w = &w->a[i]; continue; }
    if (w->k == ref::Obj && !w->o.empty()) { auto& p = w->o[w->get("in") ? 0 : w->o.size() - 1]; v = &v->asObject().at(p.first); w = &p.second; continue; }
    break;
  }
  *w = change(*v, *w);
}
static void sizes(mc::Explorer& ex, int k, int n) {
  enum { CopyC, Assign, MoveC, MoveA, Push, Member, Child, ChildMember, Storage, StorageC, Ways };
  ref::V src = sized(k, n);
  std::vector<ref::V> targets;
  targets.push_back(ref::V());
  targets.push_back(ref::V::boolean(true));
  targets.push_back(sized(k, n));
  targets.push_back(sized(k, n ? n - 1 : 5));
  targets.push_back(sized(0, 3));
  targets.push_back(sized(1, 3));
  for (int way = 0; way < Ways; ++way)
    for (size_t t = 0; t < targets.size(); ++t)
      for (int then = 0; then < (n <= 24 || t == 0 || t == 2 ? 6 : 2); ++then) {
        ref::V a = src, b = targets[t];
        std::unique_ptr<Value> x(new Value(ref::make(a))), y(new Value(ref::make(b)));
        switch (way) {
          case CopyC: if (t) continue; y.reset(new Value(*x)); b = a; break;
          case Assign: *y = *x; b = a; break;
          case MoveC: if (t) continue; y.reset(new Value(std::move(*x))); b = a; a = ref::V(); break;
          case MoveA: { Value m(std::move(*x)); *y = std::move(m); x.reset(new Value(ref::make(src))); b = a; break; }
          case Push: if (b.k != ref::Arr) continue; y->asArray().push_back(*x); b.a.push_back(a); break;
          case Member: if (b.k != ref::Obj) continue; y->asObject()["copy"] = *x; b.set("copy", a); break;
          case Child: if (b.k != ref::Arr || b.a.empty()) continue; y->asArray().at(0) = *x; b.a[0] = a; break;
          case ChildMember: if (b.k != ref::Obj || b.o.empty()) continue; y->asObject().at(b.o[0].first) = *x; b.o[0].second = a; break;
          case Storage:
            if (a.k != b.k || a.k == ref::Undef || a.k == ref::Bool) continue;
            if (a.k == ref::Arr) y->asArray() = x->toArray();
            else if (a.k == ref::Obj) y->asObject() = x->toObject();
            else y->asString() = x->toString();
            b = a;
            break;
          case StorageC:
            if (t) continue;
            y.reset(a.k == ref::Arr ? new Value(x->toArray()) : a.k == ref::Obj ? new Value(x->toObject()) : a.k == ref::Str ? new Value(x->toString()) : new Value(*x));
            b = a;
            break;
          default: continue;
        }
        string d = ref::diff(*y, b, "copy");
        if (d.empty()) d = ref::diff(*x, a, "source");
        const char* step = "at once";
        auto both = [&](const char* s) {
          if (!d.empty()) return;
          step = s;
          if (x) d = ref::diff(*x, a, "source");
          if (d.empty() && y) d = ref::diff(*y, b, "copy");
        };
        if (d.empty()) {
          Value *p = then % 2 ? x.get() : y.get(), *q = then % 2 ? y.get() : x.get();
          ref::V *pm = then % 2 ? &a : &b, *qm = then % 2 ? &b : &a;
          if (then < 2) { *pm = change(*p, *pm); both("after the one was changed everywhere"); *qm = change(*q, *qm); both("after the other was changed everywhere"); }
          else if (then < 4) { deep(p, pm); both("after the innermost member of the one was changed"); grow(*p, *pm); both("after the one grew"); deep(q, qm); both("after the innermost member of the other was changed"); }
          else { grow(*p, *pm); both("after the one grew"); deep(p, pm); both("after its innermost member was changed"); }
          if (then % 2) x.reset(); else y.reset();
          { Value noise = ref::make(sized(k, n)); Value more(noise); both("after the one was destroyed"); }
          if (d.empty()) { if (then % 2) { b = change(*y, b); } else { a = change(*x, a); } both("after the last one was changed"); }
        }
        ex.transitions(5);
        if (!d.empty()) mc::fail(mc::fmt("shape %d of size %d, way %d, target %d, order %d: %s: ", k, n, way, (int)t, then, step) + d);
      }
  // itself, an own element, the container as its own element
  {
    ref::V m = src;
    Value v = ref::make(m);
    Value& alias = v;
    v = alias;
    string d = ref::diff(v, m, "itself");
    if (d.empty() && m.k == ref::Arr && !m.a.empty()) {
      size_t i = m.a.size() / 2;
      v.asArray().at(i) = v; { ref::V c = m; m.a[i] = c; }
      d = ref::diff(v, m, "container as its own element");
      if (d.empty()) { m = change(v, m); d = ref::diff(v, m, "container as its own element, changed"); }
      if (d.empty()) { v = v.toArray()[i]; ref::V c = m.a[i]; m = c; d = ref::diff(v, m, "own element"); }
    }
    if (d.empty() && m.k == ref::Obj && !m.o.empty()) {
      size_t i = m.o.size() / 2;
      string key = m.o[i].first;
      v.asObject().at(key) = v; { ref::V c = m; m.o[i].second = c; }
      d = ref::diff(v, m, "container as its own member");
      if (d.empty()) { m = change(v, m); d = ref::diff(v, m, "container as its own member, changed"); }
      if (d.empty()) { v = v.toObject()[key]; ref::V c = *m.get(key); m = c; d = ref::diff(v, m, "own member"); }
    }
    if (!d.empty()) mc::fail(mc::fmt("shape %d of size %d: ", k, n) + d);
    access(v, m, "result");
  }
  ex.traces();
  ex.state(mc::hash(mc::fmt("%d %d", k, n)));
}

struct H : mc::Harness {
  const char* rule() override { return "states of three values (trees up to a number of nodes); every operation in every state, then every value changed and destroyed; all sequences of operations; seven shapes of every size to 40, at powers of two and beyond, through every way of copying onto six kinds of target and six orders of changing and destroying"; }
  void exec(mc::Explorer& ex, const string& c) override {
    int a, b, d, w = 0, n = 1;
    if (sscanf(c.c_str(), "S %d %d %d %d %d", &a, &b, &d, &w, &n) >= 3) { Walk s(a, b); mc::sequences(ex, s, d, w, n, 7 + a * 10 + b); return; }
    if (sscanf(c.c_str(), "Z %d %d", &a, &b) == 2) { sizes(ex, a, b); return; }
    // breadth first, from every state that one leaf operation after another gives
    if (sscanf(c.c_str(), "B %d %d %d %d", &a, &b, &d, &w) != 4) mc::fail("bad case");
    Start s(a, b, w);
    mc::bfs(ex, s, 4000000, d, 1);
  }
  // breadth-first search from the state in which v0 and v1 hold given leaves
  struct Start : Sys {
    int w;
    Start(int limit, int n, int w) : Sys(limit, n), w(w) {}
    void reset() {
      Sys::reset();
      before.clear();
      *v[0] = ref::make(leaf(w % 7)); m[0] = leaf(w % 7);
      *v[1] = ref::make(leaf(w / 7)); m[1] = leaf(w / 7);
    }
    void apply(int o) { before.clear(); Sys::apply(o); }
  };
  void enumerate(mc::Explorer& ex) override {
    std::vector<int> lengths;
    for (int n = 0; n <= ex.tier(40, 130); ++n) lengths.push_back(n);
    for (int n : {63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 1000, 1024}) lengths.push_back(n);
    if (ex.thorough()) for (int n : {199, 200, 201, 500, 511, 513, 999, 1023, 1025, 2048}) lengths.push_back(n);
    for (int k = 0; k < 7; ++k)
      for (int n : lengths) {
        if (k >= 3 && k <= 5 && (n > ex.tier(24, 150) || (!ex.thorough() && n > 8 && n % 4))) continue;
        if ((k == 1 || k == 6) && n > ex.tier(128, 1100)) continue;
        ex.all(mc::fmt("Z %d %d", k, n));
      }
    for (int n : {4095, 4096, 4097, 65535, 65536, 65537, 1000000}) ex.all(mc::fmt("Z 2 %d", n));
    for (int w = 0; w < 64; ++w) ex.all(mc::fmt("S 6 3 3 %d 64", w));
    for (int w = 0; w < 64; ++w) ex.all(mc::fmt("S 6 2 %d %d 64", ex.tier(4, 5), w));
    for (int w = 0; w < 49; ++w) ex.all(mc::fmt("B %d 2 %d %d", ex.tier(5, 6), ex.tier(4, 5), w));
    for (int w : {4 + 7 * 4, 4 + 7 * 5, 5 + 7 * 5, 4 + 7 * 3}) ex.all(mc::fmt("B %d 3 %d %d", ex.tier(4, 6), ex.tier(2, 4), w));
  }
};
MC_MAIN(H)
