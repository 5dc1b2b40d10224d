// E01: every sequence of gas and run requests on an operation object, against
// the life cycle model: parse once, then follow its verdict.
#include "bfs.hpp"
#include "ref_json.hpp"
#include <eni.h>

using std::string;

struct Script {                  // what one call of run() does
  bool ok;
  std::vector<ref::V> out;
  int extra;                     // 1: uses insert and pop while working; 2: throws nothing but clears and refills
};
static const std::vector<Script>& scripts() {
  static std::vector<Script> s;
  if (s.empty()) {
    ref::V o = ref::V::object();
    o.o.push_back({"a\"", ref::V::integer("-1")});
    ref::V a = ref::V::array();
    a.a = {ref::V::string(string("z\0\n\"", 4)), ref::V::boolean(false)};
    s = {{true, {}, 0}, {true, {ref::V::string("one")}, 0}, {true, {o, a, ref::V::integer("12")}, 1}, {false, {}, 0}, {false, {ref::V::string("never shown")}, 0},
         {true, std::vector<ref::V>(9, ref::V::boolean(true)), 2}};
  }
  return s;
}
static const uint64_t Gases[] = {0, 1, 1499, 1500, 1501, 1ull << 32, ~0ull};

struct Log { int parses = 0, gases = 0, runs = 0, order = 0, dtor = 0; string error; };

struct Op : eni::EniBase {
  Op(const string& t, int verdict, uint64_t gas, const ref::V& args, Log& log) : EniBase(t), verdict(verdict), base(gas), want(args), log(log) {}
  ~Op() { ++log.dtor; }
  int verdict;                   // bit i: answer of the i-th call of parse()
  uint64_t base;
  const ref::V& want;
  Log& log;
  const Script* next = nullptr;
  bool parse(const json::Array& a) override {
    if (log.gases || log.runs) log.error = "the arguments are parsed after the operation's own code ran";
    string d = want.k == ref::Arr ? ref::diff(json::Value(a), want) : "the text is no list";
    if (!d.empty()) log.error = "the parser got other arguments: " + d;
    return verdict >> log.parses++ & 1;
  }
  eni::Gas gas() const override {
    if (log.parses != 1) log.error = "the gas code is called, but the arguments are not parsed";
    ++log.gases;
    return base + 3 * log.runs;
  }
  bool run(json::Array& r) override {
    if (log.parses != 1) log.error = "the run code is called, but the arguments are not parsed";
    ++log.runs;
    if (!next) { log.error = "the run code is called without a request"; return false; }
    if (!r.empty() || r.size()) log.error = mc::fmt("the run code gets a list that already holds %zu results", (size_t)r.size());
    if (next->extra == 2) { r.emplace_back("dropped"); r.clear(); }
    for (auto& v : next->out) r.push_back(ref::make(v));
    if (next->extra == 1) { r.emplace_back(1); r.pop_back(); }
    return next->ok;
  }
};

struct Sys {
  string text;
  int verdict;
  uint64_t gas;
  ref::V args;
  Log log;
  std::unique_ptr<Op> op;
  struct Held { char* p; string was; };
  std::vector<Held> held;
  bool checking = true;
  int asked = 0, wantRuns = 0;
  std::vector<int> sig;
  Sys(const string& t, int verdict, uint64_t gas) : text(t), verdict(verdict), gas(gas) {
    ref::Reader r(text);
    if (r.read() != ref::Ok) mc::fail("bad case");
    args = r.root;
  }
  ~Sys() { done(); }
  void done() { for (auto& h : held) ::free(h.p); held.clear(); }
  void reset() {
    done();
    op.reset();
    log = Log();
    asked = wantRuns = 0;
    sig.clear();
    op.reset(new Op(text, verdict, gas, args, log));
    if (log.parses > 1) mc::fail("parsed more than once");
  }
  void ops(std::vector<int>& r) { for (size_t i = 0; i <= scripts().size(); ++i) r.push_back(i); }
  string name(int o) const { return o == 0 ? "gas" : mc::fmt("run%d", o); }
  void apply(int o) {
    bool good = args.k == ref::Arr && (verdict & 1);
    ++asked;
    sig.push_back(o);
    int gases = log.gases;
    if (o == 0) {
      uint64_t g = op->getGas(), w = good ? gas + 3 * (uint64_t)wantRuns : 1500;
      if (g != w) mc::fail(mc::fmt("gas request answers %llu instead of %llu", (unsigned long long)g, (unsigned long long)w));
      if (!good && log.gases) mc::fail("the gas code of an operation that rejected its arguments is called");
    } else {
      const Script& s = scripts()[o - 1];
      op->next = &s;
      char* p = op->start();
      op->next = nullptr;
      if (p) held.push_back({p, p});
      if (good) ++wantRuns;
      if (log.runs != wantRuns) mc::fail(mc::fmt("the run code was called %d times instead of %d", log.runs, wantRuns));
      if (log.gases != gases) mc::fail("a run request calls the gas code");
      bool answer = good && s.ok;
      if (!answer && p) mc::fail("a run request that must answer nothing answers " + mc::esc(mc::cut(p)));
      if (answer && !p) mc::fail("a run request answers nothing");
      if (answer) {
        ref::V w = ref::V::array();
        w.a = s.out;
        json::Parser r{string(p)};
        if (!(bool)r) mc::fail("the answer is no JSON text: " + mc::esc(mc::cut(p)));
        string d = ref::diff(r.getRoot(), w);
        if (!d.empty()) mc::fail("the answer differs from the results of this call: " + d + "; answer " + mc::esc(mc::cut(p)));
        ref::Reader rr(held.back().was);
        rr.read();
        if (rr.pos != held.back().was.size()) mc::fail("text follows the answer: " + mc::esc(mc::cut(p)));
      }
    }
    if (!log.error.empty()) mc::fail(log.error);
    if (log.parses != (args.k == ref::Arr ? 1 : 0)) mc::fail(mc::fmt("the argument parser was called %d times", log.parses));
    for (auto& h : held) if (h.was != h.p) mc::fail("an earlier answer changed: " + mc::esc(mc::cut(h.was)));
  }
  string key() const { string k = text + mc::fmt("%d/%llu/", verdict, (unsigned long long)gas); for (int o : sig) k += (char)('0' + o); return k; }
};

// results of every size: one string of n characters, n elements, n containers in each other, n members
struct Big : eni::EniBase {
  const ref::V& v;
  Big(const ref::V& v) : EniBase("[]"), v(v) {}
  bool parse(const json::Array&) override { return true; }
  eni::Gas gas() const override { return v.a.size(); }
  bool run(json::Array& r) override { for (auto& e : v.a) r.push_back(ref::make(e)); return true; }
};

struct H : mc::Harness {
  void big(mc::Explorer& ex, int style, size_t n) {
    ref::V w = ref::V::array();
    if (style < 2) w.a.push_back(ref::V::string(string(n, style ? '\n' : 'q')));
    if (style == 2) w.a.assign(n, ref::V::integer("7"));
    if (style == 3) { w.a.push_back(ref::V::boolean(true)); for (size_t i = 0; i < n; ++i) { ref::V o = ref::V::array(); o.a.push_back(w.a[0]); w.a[0] = o; } }
    if (style == 4) { ref::V o = ref::V::object(); for (size_t i = 0; i < n; ++i) o.o.push_back({"k" + std::to_string(i), ref::V::boolean(false)}); w.a.push_back(o); }
    if (style == 5) { w.a.push_back(ref::V::string(string(n, 'x'))); w.a.push_back(ref::V::string("last")); }
    Big op(w);
    for (int round = 0; round < 2; ++round) {
      char* p = op.start();
      ex.transitions();
      if (!p) mc::fail("no answer");
      string s = p;
      ::free(p);
      ref::Reader r(s);
      if (r.read() != ref::Ok) mc::fail("the answer is no JSON text: " + mc::esc(mc::cut(s)));
      if (r.root.show() != w.show()) mc::fail("the answer differs from the results: " + mc::esc(mc::cut(s)) + mc::fmt(" (%zu characters)", s.size()));
      if (r.pos != s.size()) mc::fail("text follows the answer");
    }
    ex.state(mc::hash(mc::fmt("big %d %zu", style, n)));
    ex.traces();
  }
  // one object asked n times, by a repeated pattern of requests
  void longRun(mc::Explorer& ex, int t, int v, const string& pattern, size_t n) {
    Sys s(texts[t], v, 1500);
    s.reset();
    for (size_t i = 0; i < n; ++i) {
      s.apply(pattern[i % pattern.size()] - '0');
      ex.transitions();
      while (s.held.size() > 40) { ::free(s.held[0].p); s.held.erase(s.held.begin()); }
    }
    ex.state(mc::hash(s.key()));
    ex.traces();
  }
  const char* rule() override { return "argument text x verdict of the parser x gas x every sequence of requests; requests repeated in patterns of one or two up to 70000 times on one object; results of every size; distinct by the whole history"; }
  std::vector<string> texts{"[]", "[1]", " [ \"a\" , true ] trailing", "[[],{\"k\":\"v\"}]", "[\"\\u0000\\\"\"]", "{}", "{\"0\":[]}", "\"[]\"", "0", "true", "false", "-12"};
  void exec(mc::Explorer& ex, const string& c) override {
    int t, v, g, len, w;
    size_t n;
    char word[64];
    if (sscanf(c.c_str(), "long %d %d %63s %zu", &t, &v, word, &n) == 4) return longRun(ex, t, v, word, n);
    if (sscanf(c.c_str(), "big %d %zu", &t, &n) == 2) return big(ex, t, n);
    sscanf(c.c_str(), "%d %d %d %d %d", &t, &v, &g, &len, &w);
    Sys s(texts[t], v, Gases[g]);
    mc::sequences(ex, s, len, w, 8, 3);
    s.reset();
    s.done();
    int before = s.log.dtor;
    s.op.reset();
    if (s.log.dtor != before + 1) mc::fail("the object is not destroyed through its base class");
  }
  void enumerate(mc::Explorer& ex) override {
    for (int s = 0; s < 6; ++s) {
      size_t most = s == 3 ? ex.tier(300, 1500) : s == 2 || s == 4 ? ex.tier(5000, 20000) : ex.tier(70000, 2000000);
      for (size_t n = 0; n <= ex.tier(300, 2100) && n <= most; ++n) ex.all(mc::fmt("big %d %zu", s, n));
      for (size_t k = 256; k <= most; k *= 2) for (int d = -5; d <= 2; ++d) ex.all(mc::fmt("big %d %zu", s, k + d));
      for (size_t k = 1000; k <= most; k *= 10) ex.all(mc::fmt("big %d %zu", s, k));
    }
    for (int t : {1, 4, 5})
      for (int v = 0; v < 4; ++v) {
        bool good = t < 5 && (v & 1);
        for (int a = 0; a < 7; ++a) {
          ex.all(mc::fmt("long %d %d %d %d", t, v, a, good ? ex.tier(a == 3 ? 5000 : 70000, 300000) : ex.tier(70000, 1000000)));
          for (int b = 0; b < 7; ++b) if (a != b) ex.all(mc::fmt("long %d %d %d%d %d", t, v, a, b, ex.tier(600, 70000)));
        }
      }
    for (int t = 0; t < (int)texts.size(); ++t)
      for (int v = 0; v < 4; ++v)             // second verdict differs from the first: parsing again would show
        for (int g = 0; g < 7; ++g) {
          bool good = t < 5 && (v & 1);
          int len = good ? ex.tier(t == 1 && g == 1 && v == 1 ? 6 : 4, t < 2 && g < 2 ? 7 : 5) : ex.tier(4, 5);
          for (int w = 0; w < 8; ++w) ex.all(mc::fmt("%d %d %d %d %d", t, v, g, len, w));
        }
  }
};
MC_MAIN(H)
