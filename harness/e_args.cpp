// E05: every list of arguments over a set of values, for each bundled
// operation: refused exactly if an argument is missing or of another kind.
#include "ops.hpp"
#include <map>
#include <mutex>
using std::string;
using namespace ops;

struct Item { const char* kind; string text; };
struct Param { char kind; std::vector<string> good; };     // 'S' string, 'I' integer
struct Spec { int op; std::vector<Param> params; string label; };

struct H : mc::Harness {
  std::vector<Item> items;
  std::vector<Spec> specs;
  const char* rule() override { return "operation x list of arguments, each place over all kinds of values, lists shorter and longer than needed; distinct by list"; }
  double hangSeconds() override { return 60; }
  string known;
  void init() override {
    load();
    if (getenv("VERIF_KNOWN")) known = string(getenv("VERIF_KNOWN")) + "\n";
    items = {{"boolean", "true"}, {"boolean", "false"}, {"integer", "0"}, {"integer", "-1"}, {"integer", "57896044618658097711785492504343953926634992332820282019728792003956564819967"},
             {"string", "\"\""}, {"string", "\"61\""}, {"list", "[]"}, {"list", "[\"61\"]"}, {"object", "{}"}, {"object", "{\"61\":\"61\"}"}};
    string pub = quote(key("k512-3.pub")), priv = quote(key("k512-3.priv"));
    string hex = quote(string(126, '1') + "0f");
    string text = quote("[\"a\", 12 ,{\"k\":[7]}]");
    specs = {{OpReverse, {{'S', {"\"abc\"", "\"\""}}}, "reverse"}, {OpScrypt, {{'S', {"\"00ff\"", "\"\""}}}, "scrypt"},
             {OpEnc, {{'S', {pub}}, {'S', {"\"hello\"", "\"\""}}}, "rsa_encrypt"}, {OpDec, {{'S', {priv}}, {'S', {hex}}}, "rsa_decrypt"},
             {OpJson, {{'S', {"\"parseString\""}}, {'S', {text}}, {'I', {"1"}}, {'I', {"4"}}}, "json parseString"},
             {OpJson, {{'S', {"\"parseArray\""}}, {'S', {text}}, {'I', {"0"}}, {'I', {"22"}}}, "json parseArray"},
             {OpJson, {{'S', {"\"arrayGet\""}}, {'S', {text}}, {'I', {"0"}}, {'I', {"22"}}, {'I', {"1"}}}, "json arrayGet"},
             {OpJson, {{'S', {"\"objectGet\""}}, {'S', {text}}, {'I', {"10"}}, {'I', {"19"}}, {'S', {"\"k\""}}}, "json objectGet"}};
  }
  struct Ans { uint64_t gas; bool has; string out; };
  static Ans ask(int op, const string& t) { Ans a; a.gas = gas(op, t); a.has = run(op, t, a.out); return a; }
  static void refuse(const Spec& s, const string& t) {
    Ans a = ask(s.op, t);
    if (a.gas != 1500) mc::fail(mc::fmt("%s with %s: gas is %llu instead of 1500", s.label.c_str(), mc::esc(mc::cut(t, 300)).c_str(), (unsigned long long)a.gas));
    if (a.has) mc::fail(s.label + " with " + mc::esc(mc::cut(t, 300)) + ": run answers " + mc::esc(mc::cut(a.out)));
  }
  static void fine(const Spec& s, const string& t) {
    Ans a = ask(s.op, t);
    if (!a.has) mc::fail(s.label + " refuses " + mc::esc(mc::cut(t, 300)));
  }
  string goodText(const Spec& s) { std::vector<string> p; for (auto& q : s.params) p.push_back(q.good[0]); return list(p); }
  // case: specification and the items; -1-k is the k-th good value of that place
  void exec(mc::Explorer& ex, const string& c) override {
    std::vector<string> w = mc::split(c, ' ');
    const Spec& s = specs[atoi(w[0].c_str())];
    if (w.size() > 1 && w[1][0] == 'T') {       // no list at all
      string t = items[atoi(w[1].c_str() + 1)].text;
      if (t[0] != '[') { refuse(s, t); fine(s, goodText(s)); ex.traces(2); ex.state(mc::hash(c)); }
      return;
    }
    std::vector<string> p;
    string why;
    int at = -1;
    bool unsure = false;
    for (size_t i = 1; i < w.size(); ++i) {
      if (w[i].empty()) continue;
      int x = atoi(w[i].c_str());
      size_t pos = i - 1;
      if (x < 0) { p.push_back(pos < s.params.size() ? s.params[pos].good[(-1 - x) % s.params[pos].good.size()] : string("\"extra\"")); continue; }
      p.push_back(items[x].text);
      if (pos >= s.params.size()) continue;
      bool same = (s.params[pos].kind == 'S') == !strcmp(items[x].kind, "string") && (s.params[pos].kind != 'S' ? !strcmp(items[x].kind, "integer") : true);
      if (!same && why.empty()) { why = mc::fmt("argument %zu is a%s %s", pos, strchr("aeiou", items[x].kind[0]) ? "n" : "", items[x].kind); at = pos; }
      if (same) unsure = true;            // a value of the right kind, not among the good ones
    }
    if (p.size() < s.params.size() && why.empty()) { why = mc::fmt("argument %zu is missing", p.size()); at = p.size(); }
    string t = list(p);
    ex.transitions(2);
    if (why.empty()) {
      std::vector<string> q(p.begin(), p.begin() + s.params.size());
      if (s.op == OpJson && unsure) { ex.skip(); return; }      // ranges of another text: see X01
      Ans a = ask(s.op, t), b = ask(s.op, list(q));
      if (a.gas != b.gas || a.has != b.has || a.out != b.out) mc::fail(s.label + ": additional arguments change the answer: " + mc::esc(mc::cut(t, 300)));
      if (!unsure && !a.has) mc::fail(s.label + " refuses " + mc::esc(mc::cut(t, 300)));
      ex.count("accepted_lists");
    } else {
      ex.count("lists_to_refuse");
      if (s.op == OpScrypt || s.op == OpEnc || s.op == OpDec) { refuse(s, t); if (p.size() <= s.params.size()) fine(s, goodText(s)); }
      else {                              // operations of examples/ that may end the process
        string op = s.op == OpReverse ? "reverse" : "json";
        string id = op + ": " + why;
        string seen;
        int st = mc::forked([&]() -> int {
          close(2);
          try { refuse(s, t); fine(s, goodText(s)); } catch (const mc::Violation& v) { printf("%s", v.msg.c_str()); return 1; }
          catch (...) { printf("an exception leaves the operation"); return 1; }
          return 0;
        }, 10, &seen);
        if (st != 0) {
          string m = st == -1 ? "does not end" : WIFEXITED(st) && WEXITSTATUS(st) == 1 ? seen : mc::fmt("the process ends (wait status 0x%x)", st);
          if ((known).find(id + ":") == known.npos) mc::fail(s.label + " with " + mc::esc(mc::cut(t, 300)) + " (" + why + "): " + m);
          ex.count("known_findings_seen");
          if (ex.state("known " + id)) printf("KNOWN-FINDING: property=E05 %s: %s\n", id.c_str(), "the operation does not refuse");
        }
      }
      (void)at;
    }
    ex.traces();
    ex.state(mc::hash(c));
  }
  void enumerate(mc::Explorer& ex) override {
    int k = items.size();
    for (int s = 0; s < (int)specs.size(); ++s) {
      int need = specs[s].params.size();
      for (int i = 0; i < k; ++i) ex.all(mc::fmt("%d T%d", s, i));
      if (specs[s].op == OpJson || specs[s].op == OpReverse) {
        // one wrong place at a time, every shorter list, every two wrong places
        for (int n = 0; n < need; ++n) { string c = std::to_string(s); for (int i = 0; i < n; ++i) c += " -1"; ex.all(c); }
        for (int n = need; n <= need + 2; ++n)
          for (int a = 0; a < n; ++a)
            for (int x = 0; x < k; ++x) {
              string c = std::to_string(s);
              for (int i = 0; i < n; ++i) c += i == a ? mc::fmt(" %d", x) : " -1";
              ex.all(c);
            }
        if (specs[s].op == OpReverse)
          for (int x = -2; x < k; ++x) for (int y = -1; y < k; ++y) for (int z = -1; z < k; ++z) ex.all(mc::fmt("%d %d %d %d", s, x, y, z));
        continue;
      }
      int top = ex.tier(specs[s].op == OpScrypt ? 3 : need + 1, need + 2);
      for (int n = 0; n <= top; ++n) {
        std::vector<int> v(n, -2);
        while (true) {
          string c = std::to_string(s);
          for (int x : v) c += mc::fmt(" %d", x);
          ex.all(c);
          int i = n;
          while (i > 0 && v[i - 1] == k - 1) v[--i] = -2;
          if (i == 0) break;
          ++v[i - 1];
        }
      }
    }
  }
};
MC_MAIN(H)
