// J03: every value of a bounded space is printed; a strict JSON reader written
// from RFC 8259 (strings taken as raw bytes) and the library's own parser must
// both read the text back as the same value.
#include "json_space.hpp"

using std::string;

// RFC 8259: accepts exactly one JSON text, nothing else
class Strict {
public:
  Strict(const string& t) : t(t) {}
  string error;
  bool read(ref::V& v) {
    ws();
    if (!value(v)) return false;
    ws();
    return at == t.size() || bad("text goes on after the value");
  }

private:
  const string& t;
  size_t at = 0;
  bool bad(const char* m) { if (error.empty()) error = mc::fmt("%s at byte %zu", m, at); return false; }
  int peek() { return at < t.size() ? (unsigned char)t[at] : -1; }
  void ws() { while (peek() == ' ' || peek() == '\t' || peek() == '\n' || peek() == '\r') ++at; }
  bool word(const char* w) { size_t n = strlen(w); if (t.compare(at, n, w)) return bad("unknown word"); at += n; return true; }
  bool str(string& s) {
    if (peek() != '"') return bad("no string");
    for (++at;; ) {
      int c = peek();
      if (c < 0) return bad("unterminated string");
      if (c < 0x20) return bad("raw control character in a string");
      ++at;
      if (c == '"') return true;
      if (c != '\\') { s += (char)c; continue; }
      c = peek();
      ++at;
      switch (c) {
        case '"': case '\\': case '/': s += (char)c; break;
        case 'b': s += '\b'; break;
        case 'f': s += '\f'; break;
        case 'n': s += '\n'; break;
        case 'r': s += '\r'; break;
        case 't': s += '\t'; break;
        case 'u': {
          int x = 0;
          for (int i = 0; i < 4; ++i, ++at) {
            int h = peek();
            if (!isxdigit(h)) return bad("bad hexadecimal digit");
            x = x * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
          }
          if (x > 0x7f) return bad("a raw byte was printed as another character");
          s += (char)x;
          break;
        }
        default: return bad("unknown escape");
      }
    }
  }
  bool value(ref::V& v) {
    int c = peek();
    if (c == '{') {
      v = ref::V::object();
      ++at; ws();
      if (peek() == '}') { ++at; return true; }
      while (true) {
        string k;
        ref::V e;
        if (!str(k)) return false;
        ws();
        if (peek() != ':') return bad("no colon");
        ++at; ws();
        if (!value(e)) return false;
        if (v.get(k)) return bad("repeated key");
        v.o.emplace_back(k, e);
        ws();
        if (peek() == '}') { ++at; return true; }
        if (peek() != ',') return bad("no comma between members");
        ++at; ws();
      }
    }
    if (c == '[') {
      v = ref::V::array();
      ++at; ws();
      if (peek() == ']') { ++at; return true; }
      while (true) {
        v.a.emplace_back();
        ref::V e;
        if (!value(e)) return false;
        v.a.back() = std::move(e);
        ws();
        if (peek() == ']') { ++at; return true; }
        if (peek() != ',') return bad("no comma between elements");
        ++at; ws();
      }
    }
    if (c == '"') { v = ref::V::string(""); return str(v.s); }
    if (c == 't') { v = ref::V::boolean(true); return word("true"); }
    if (c == 'f') { v = ref::V::boolean(false); return word("false"); }
    size_t from = at;
    if (peek() == '-') ++at;
    if (peek() == '0') ++at;
    else if (peek() >= '1' && peek() <= '9') while (isdigit(peek())) ++at;
    else return bad("no value");
    v = ref::V::integer(t.substr(from, at - from));
    if (v.s == "-0") v.s = "0";
    return true;
  }
};

static void sortKeys(ref::V& v) {
  for (auto& e : v.a) sortKeys(e);
  for (auto& p : v.o) sortKeys(p.second);
  std::sort(v.o.begin(), v.o.end(), [](const std::pair<string, ref::V>& x, const std::pair<string, ref::V>& y) { return x.first < y.first; });
}
static bool same(const ref::V& x, const ref::V& y) {
  if (x.k != y.k || x.s != y.s || x.a.size() != y.a.size() || x.o.size() != y.o.size() || (x.k == ref::Bool && x.b != y.b)) return false;
  for (size_t i = 0; i < x.a.size(); ++i) if (!same(x.a[i], y.a[i])) return false;
  for (size_t i = 0; i < x.o.size(); ++i) if (x.o[i].first != y.o[i].first || !same(x.o[i].second, y.o[i].second)) return false;
  return true;
}
struct Grouped : std::numpunct<char> {
  char do_thousands_sep() const override { return ','; }
  string do_grouping() const override { return "\1"; }
  string do_truename() const override { return "yes"; }
  string do_falsename() const override { return "no"; }
};
static std::vector<void (*)(std::ostream&)> streams;
static void makeStreams() {
  streams = {[](std::ostream& o) { o << std::hex << std::showbase << std::uppercase; }, [](std::ostream& o) { o << std::oct << std::boolalpha; },
             [](std::ostream& o) { o << std::showpos << std::scientific << std::setprecision(2) << std::unitbuf; },
             [](std::ostream& o) { static std::locale l(std::locale::classic(), new Grouped); o.imbue(l); o << std::left << std::noskipws; }};
}
static void check(mc::Explorer& ex, ref::V want, const json::Value& v, const char* how) {
  sortKeys(want);
  std::ostringstream os;
  v.print(os);
  std::vector<string> texts{os.str()};
  for (auto f : streams) {                               // streams in every state print the same
    std::ostringstream o;
    f(o);
    try { v.print(o); } catch (const std::exception& e) { mc::fail(string(how) + ": printing to a stream with other settings: " + e.what() + "; value " + mc::cut(want.show())); }
    if (o.str() != texts[0]) texts.push_back(o.str());
  }
  if (v.isArray()) { std::ostringstream o; v.toArray().print(o); texts.push_back(o.str()); }
  if (v.isObject()) { std::ostringstream o; v.toObject().print(o); texts.push_back(o.str()); }
  for (size_t i = 0; i < texts.size(); ++i) {
    if (i && texts[i] == texts[0]) continue;
    const string& t = texts[i];
    ref::V got;
    Strict s(t);
    if (!s.read(got)) mc::fail(string(how) + ": a standard reader refuses the text: " + s.error + "; text " + mc::esc(mc::cut(t)) + "; value " + mc::cut(want.show()));
    sortKeys(got);
    if (!same(got, want)) mc::fail(string(how) + ": a standard reader reads another value: text " + mc::esc(mc::cut(t)) + "; value " + mc::cut(want.show()));
    json::Parser p(t);
    if (!(bool)p) mc::fail(string(how) + ": the library refuses its own text: " + mc::esc(mc::cut(t)));
    string d = ref::diff(p.getRoot(), want);
    if (!d.empty()) mc::fail(string(how) + ": the library reads its own text as another value: " + d + "; text " + mc::esc(mc::cut(t)));
    ex.transitions(2);
  }
}
static void all(mc::Explorer& ex, const ref::V& w) {
  json::Value v = ref::make(w);
  check(ex, w, v, "built");
  json::Value c(v);
  check(ex, w, c, "copied");
  string t;
  ref::text(w, t);
  json::Parser p(t);
  if ((bool)p) check(ex, w, p.getRoot(), "parsed");      // whether it parses is J01's concern
  ex.traces(3);
}

struct H : mc::Harness {
  const char* rule() override { return "value trees up to a number of nodes, all strings and keys of up to two bytes (three over a selection), integers, sizes, depths; distinct by value"; }
  std::vector<ref::V> leaves;
  std::vector<string> keys{"", "k", "\"\\", string("\0\n", 2), "\xff{"};
  // all trees of exactly n nodes
  void trees(int n, int leafSet, const std::function<void(const ref::V&)>& f) {
    if (n == 1) {
      for (int i = 0; i < leafSet; ++i) f(leaves[i]);
      f(ref::V::array());
      f(ref::V::object());
      return;
    }
    // sequences of children with n-1 nodes in total
    std::vector<ref::V> kids;
    std::function<void(int)> seq = [&](int left) {
      if (left == 0) {
        ref::V a = ref::V::array();
        a.a = kids;
        f(a);
        if (kids.size() > keys.size()) return;
        std::vector<int> idx;
        std::function<void(size_t)> names = [&](size_t i) {
          if (i == kids.size()) {
            ref::V o = ref::V::object();
            for (size_t k = 0; k < kids.size(); ++k) o.o.emplace_back(keys[idx[k]], kids[k]);
            f(o);
            return;
          }
          for (size_t k = 0; k < keys.size(); ++k) {
            if (std::find(idx.begin(), idx.end(), (int)k) != idx.end()) continue;
            idx.push_back(k);
            names(i + 1);
            idx.pop_back();
          }
        };
        names(0);
        return;
      }
      for (int c = 1; c <= left; ++c)
        trees(c, leafSet, [&](const ref::V& v) { kids.push_back(v); seq(left - c); kids.pop_back(); });
    };
    seq(n - 1);
  }
  // n characters that need no escape
  static string plain(long n, int seed) {
    string r;
    unsigned x = 7 + seed;
    while ((long)r.size() < n) {
      x = x * 1103515245 + 12345;
      char c = (char)(0x20 + (x >> 16) % 0x5f);
      if (c != '"' && c != '\\') r += c;
    }
    return r;
  }
  void init() override {
    makeStreams();
    leaves = {ref::V::boolean(true), ref::V::integer("-7"), ref::V::string("\"\n\\"), ref::V::string(""), ref::V::boolean(false),
              ref::V::integer("0"), ref::V::string(string("a\0\x1f\x7f\x80", 5)), ref::V::integer(ref::pow2(255, -1))};
  }
  // case: 'T' json text of the tree, 'V'/'K' + bytes: string / key, 'I' + digits, 'S' generated
  // very many elements: the text is compared as such
  void big(mc::Explorer& ex, int kind, long n) {
    std::ostringstream os;
    std::vector<string> want, got;
    if (kind == 0) {
      json::Array a;
      a.reserve(n);
      for (long i = 0; i < n; ++i) { a.push_back(json::Value(i % 3 == 0)); want.push_back(i % 3 ? "false" : "true"); }
      json::Value(a).print(os);
    } else {
      json::Object o;
      for (long i = 0; i < n; ++i) { o[mc::fmt("k%ld", i)] = json::Value(i % 3 == 0); want.push_back(mc::fmt("\"k%ld\":", i) + (i % 3 ? "false" : "true")); }
      o.print(os);
      std::sort(want.begin(), want.end());
    }
    string t;
    for (char c : os.str()) if (!strchr(" \n\t\r", c)) t += c;
    if (t.size() < 2 || t[0] != "[{"[kind] || t.back() != "]}"[kind]) mc::fail(mc::fmt("%ld elements are printed as ", n) + mc::esc(mc::cut(t)));
    if (t.size() > 2) got = mc::split(t.substr(1, t.size() - 2), ',');
    if (kind) std::sort(got.begin(), got.end());
    if (got != want) {
      size_t i = 0;
      while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
      mc::fail(mc::fmt("of %ld elements %zu are printed, number %zu as ", n, got.size(), i) + (i < got.size() ? got[i] : "nothing"));
    }
    ex.transitions();
  }
  void exec(mc::Explorer& ex, const string& c) override {
    if (c[0] == 'B') { int kind; long n; sscanf(c.c_str() + 1, "%d %ld", &kind, &n); ex.state(mc::hash(c)); big(ex, kind, n); return; }
    ref::V w;
    string b = c.substr(1);
    switch (c[0]) {
      case 'T': { ref::Reader r(b); if (r.read() != ref::Ok) mc::fail("bad case"); w = r.root; break; }
      case 'V': w = ref::V::array(); w.a = {ref::V::string(b), ref::V::integer("1")}; break;
      case 'v': w = ref::V::string(b); break;
      case 'K': w = ref::V::object(); w.o = {{b, ref::V::string(b)}}; if (b != "z") w.o.push_back({"z", ref::V::boolean(true)}); break;
      case 'I': w = ref::V::integer(b); break;
      case 'S': {
        int kind; long n;
        sscanf(b.c_str(), "%d %ld", &kind, &n);
        switch (kind) {
          case 0: w = ref::V::array(); for (long i = 0; i < n; ++i) w.a.push_back(i % 3 ? ref::V::integer(std::to_string(i)) : ref::V::string("s" + std::to_string(i))); break;
          case 1: w = ref::V::object(); for (long i = 0; i < n; ++i) w.o.push_back({"k\"" + std::to_string(i), i % 2 ? ref::V::boolean(i & 2) : ref::V::integer(std::to_string(-i - 1))}); break;
          case 2: w = ref::V::string(""); for (long i = 0; i < n; ++i) w.s += (char)(i * 7 + i / 256); break;
          case 3: w = ref::V::object(); { string k; for (long i = 0; i < n; ++i) k += (char)(i * 11 + 5); w.o = {{k, ref::V::array()}}; } break;
          case 4: for (long i = 0; i < n; ++i) { ref::V o = i % 2 ? ref::V::array() : ref::V::object(); if (i % 2) { o.a.push_back(i ? w : ref::V::array()); o.a.push_back(ref::V::boolean(true)); } else { o.o.push_back({"\n", i ? w : ref::V::array()}); o.o.push_back({"e", ref::V::string("\\")}); } w = o; } if (!n) w = ref::V::array(); break;
          case 5: w = ref::V::object(); for (long i = 0; i < n; ++i) { ref::V o = ref::V::object(); o.o.push_back({string(i % 50, 'q'), ref::V::array()}); w.o.push_back({string(i, 'n'), o}); } break;
          case 6: w = ref::V::string(plain(n, 0)); break;
          case 7: w = ref::V::object(); w.o = {{plain(n, 1), ref::V::string(plain(n, 2))}, {"z" + plain(n / 2, 3), ref::V::boolean(false)}}; break;
          case 8: w = ref::V::array(); w.a = {ref::V::string(plain(n, 4) + "\n" + plain(n, 5)), ref::V::string(plain(n, 6) + "\""), ref::V::string("\\" + plain(n, 7))}; break;
          case 9: { string t; for (long i = 0; i < n; ++i) t += "\x01\x1f\"\\\n\0"[i % 6]; w = ref::V::array(); w.a = {ref::V::string(t), ref::V::string(string(n, '\\'))}; break; }
        }
        break;
      }
    }
    ex.state(mc::hash(c[0] == 'S' ? c : w.show()));
    all(ex, w);
    if (c[0] == 'T') ex.count("trees");
  }
  void enumerate(mc::Explorer& ex) override {
    for (int n = 1; n <= ex.tier(5, 6); ++n)
      trees(n, n <= 3 ? 8 : n == 4 ? ex.tier(5, 8) : n == 5 ? ex.tier(2, 5) : 2, [&](const ref::V& v) { if (ex.mine()) { string t; ref::text(v, t); ex.run("T" + t); } });
    for (int i = 0; i < 256; ++i)
      for (int j = -1; j < 256; ++j)
        for (const char* k : {"V", "K"})
          if (ex.mine()) ex.run(k + string(1, (char)i) + (j < 0 ? string() : string(1, (char)j)));
    for (int i = 0; i < 256; ++i) if (ex.mine()) ex.run("v" + string(1, (char)i));
    string sel("\0\"\\/\x1f\x7f\xff" "bu0a:}\n", 14);
    if (ex.thorough()) for (int i = 1; i < 256; i += 9) sel += (char)i;
    for (char a : sel) for (char b : sel) for (char c : sel)
      for (const char* k : {"V", "K"})
        if (ex.mine()) ex.run(k + string(1, a) + b + c);
    for (auto& d : space::integers(ex.thorough()))
      for (const char* s : {"", "-"})
        if (!(*s && d == "0") && ex.mine()) ex.run(string("I") + s + d);
    for (int kind = 0; kind < 2; ++kind)
      for (long n : space::sizes(10, ex.tier(1 << 17, 1 << 20))) if (n > 3000 && ex.mine()) ex.run(mc::fmt("B%d %ld", kind, n));
    for (int kind = 0; kind < 10; ++kind) {
      long top = kind == 4 ? ex.tier(400, 1500) : kind == 2 ? 1 << 18 : kind == 3 ? 1 << 17 : kind == 5 ? 400 : kind == 6 ? 1 << 18 : kind > 6 ? 1 << 16 : ex.tier(1 << 12, 1 << 15);
      for (long n : space::sizes(kind == 5 ? 60 : 300, top)) if (ex.mine()) ex.run(mc::fmt("S%d %ld", kind, n));
    }
  }
};
MC_MAIN(H)
