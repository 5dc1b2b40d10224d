// X01: the example operation json on ranges of generated documents.
#include "json_space.hpp"
#include "ops.hpp"
using std::string;
using ref::V;

// a document that knows where its values lie
struct Node { int kind; size_t from, to; string str; std::vector<std::pair<string, Node*>> kids; };   // kind: 's' 'a' 'o' 'p'
struct Doc {
  string text;
  std::vector<std::unique_ptr<Node>> all;
  int ws;                                   // spacing style
  void space(int k) { static const char* s[] = {"", " ", "\n\t ", "  "}; if (ws) text += s[(ws * 7 + k + text.size()) % 4]; }
  // spec: reads one value of the little language
  //   s<chars>' string, p<chars>; primitive, [..] list, {key=..} object
  Node* value(const char*& p) {
    Node* n = new Node;
    all.emplace_back(n);
    n->from = text.size();
    n->kind = 0;
    if (*p == '\'') {
      n->kind = 's';
      ++p;
      string raw;
      while (*p != '\'') raw += *p++;
      ++p;
      n->str = decode(raw);
      text += '"' + raw + '"';
    } else if (*p == '[') {
      n->kind = 'a';
      ++p;
      text += '[';
      while (*p != ']') { space(1); n->kids.push_back({"", value(p)}); space(2); if (*p == ',') { ++p; text += ','; } }
      ++p;
      if (n->kids.empty()) space(3);
      text += ']';
    } else if (*p == '{') {
      n->kind = 'o';
      ++p;
      text += '{';
      while (*p != '}') {
        space(1);
        ++p;
        string raw;
        while (*p != '\'') raw += *p++;
        p += 2;
        text += '"' + raw + '"';
        space(4);
        text += ':';
        space(5);
        Node* v = value(p);
        n->kids.push_back({decode(raw), v});
        space(2);
        if (*p == ',') { ++p; text += ','; }
      }
      ++p;
      if (n->kids.empty()) space(3);
      text += '}';
    } else {
      n->kind = 'p';
      while (*p && !strchr(",]}", *p)) text += *p++;
    }
    n->to = text.size();
    return n;
  }
  static string decode(const string& raw) {
    string r;
    for (size_t i = 0; i < raw.size(); ++i) {
      if (raw[i] != '\\') { r += raw[i]; continue; }
      char e = raw[++i];
      if (e == 'u') { r += (char)strtol(raw.substr(i + 1, 4).c_str(), nullptr, 16); i += 4; }
      else { const char* from = "bfnrt"; const char* q = strchr(from, e); r += q ? "\b\f\n\r\t"[q - from] : e; }
    }
    return r;
  }
};
struct H : mc::Harness {
  const char* rule() override { return "document x spacing x place in the surrounding text x value, index and key; distinct by query"; }
  double hangSeconds() override { return 60; }
  string known;
  void init() override { ops::load(); const char* k = getenv("VERIF_KNOWN"); known = k ? k : ""; }
  static string q(const char* fn, const string& text, size_t from, size_t to, const string& last) {
    std::vector<string> a = {ops::quote(fn), ops::quote(text), std::to_string(from), std::to_string(to)};
    if (!last.empty()) a.push_back(last);
    return ops::list(a);
  }
  void ask(mc::Explorer& ex, const string& args, const string& want, const string& what) {
    string out;
    if (!ops::run(ops::OpJson, args, out)) mc::fail(what + " is refused: " + mc::esc(mc::cut(args, 300)));
    string got = ops::only(out);
    if (got != want) mc::fail(what + " is " + mc::esc(mc::cut(got)) + " instead of " + mc::esc(mc::cut(want)) + ": " + mc::esc(mc::cut(args, 300)));
    uint64_t g = ops::gas(ops::OpJson, args);
    if (g != 10 * want.size()) mc::fail(what + mc::fmt(" costs %llu", (unsigned long long)g));
    ex.transitions(2);
    ex.state(mc::hash(args));
  }
  static string range(const Node* n, size_t off) { return mc::fmt("%08zx%08zx", n->from + off, n->to + off); }
  void document(mc::Explorer& ex, const string& spec, int ws, int around) {
    static const std::pair<const char*, const char*> outer[] = {{"", ""}, {" ", " "}, {"[1,", ",2]"}, {"{\"k\":", "}"}, {"xx\"\\", "}]\""}, {"[[[", ""}, {"", "garbage"}, {"\"", "\""}, {"\n\x01\x7f", "\x80"}};
    Doc d;
    d.ws = ws;
    const char* p = spec.c_str();
    d.value(p);
    string text = outer[around].first + d.text + outer[around].second;
    size_t off = strlen(outer[around].first);
    for (auto& np : d.all) {
      Node* n = np.get();
      size_t f = n->from + off, t = n->to + off;
      if (n->kind == 's') ask(ex, q("parseString", text, f, t - f, ""), n->str, "parseString");
      if (n->kind == 'a') {
        string all;
        int i = 0;
        for (auto& k : n->kids) { all += range(k.second, off); ask(ex, q("arrayGet", text, f, t, std::to_string(i++)), range(k.second, off), mc::fmt("arrayGet %d", i - 1)); }
        ask(ex, q("parseArray", text, f, t, ""), all, "parseArray");
      }
      if (n->kind == 'o') {
        std::map<string, Node*> last;
        for (auto& k : n->kids) last[k.first] = k.second;        // the last one of equal keys
        for (auto& k : last) ask(ex, q("objectGet", text, f, t, ops::quote(k.first)), range(k.second, off), "objectGet " + mc::esc(k.first));
      }
    }
    ex.traces();
  }
  void refusal(mc::Explorer& ex, const string& args, const string& cls) {
    string seen;
    int st = mc::forked([&]() -> int {
      close(2);
      string out;
      uint64_t g = ops::gas(ops::OpJson, args);
      if (g != 1500) { printf("costs %llu", (unsigned long long)g); return 1; }
      if (ops::run(ops::OpJson, args, out)) { printf("runs"); return 1; }
      return 0;
    }, 10, &seen);
    ex.transitions();
    ex.traces();
    if (st == 0) return;
    string m = st == -1 ? "does not end" : WIFEXITED(st) && WEXITSTATUS(st) == 1 ? seen : mc::fmt("the process ends (wait status 0x%x)", st);
    if (known.find(cls + ":") == string::npos) mc::fail(cls + " is not refused (" + m + "): " + mc::esc(args));
    ex.count("known_findings_seen");
    if (ex.state(mc::hash("known " + cls))) printf("KNOWN-FINDING: property=X01 %s: the operation does not refuse\n", cls.c_str());
  }
  static const std::vector<std::pair<string, string>>& refusals() {
    static std::vector<std::pair<string, string>> r;
    if (r.empty()) {
      auto add = [&](const string& cls, const string& args) { r.push_back({cls, args}); };
      for (const char* fn : {"parseArray", "arrayGet", "objectGet"}) {
        string last = !strcmp(fn, "parseArray") ? "" : !strcmp(fn, "arrayGet") ? "0" : "\"k\"";
        string c = fn;
        add(c + " of a range outside of the text", q(fn, "[1,2]", 100, 105, last));
        add(c + " of a range outside of the text", q(fn, "[1,2]", 0, 100000, last));
        add(c + " of an empty range", q(fn, "[1,2]", 0, 0, last));
        add(c + " of an empty range", q(fn, "", 0, 0, last));
        add(c + " of a range without a container", q(fn, " 5 ", 0, 3, last));
        add(c + " of a range without a container", q(fn, "\"abc\"", 0, 5, last));
        add(c + " of a range with half a container", q(fn, "[1,2", 0, 4, last));
        add(c + " of a range with half a container", q(fn, "{\"k\":[1,2]}", 0, 9, last));
      }
      add("parseString of a range outside of the text", q("parseString", "\"abc\"", 100, 5, ""));
      add("parseString of a range without a string", q("parseString", "[1,2]", 0, 5, ""));
      add("parseString of a range with half a string", q("parseString", "\"abc\"", 0, 3, ""));
      add("arrayGet of an index that does not exist", q("arrayGet", "[1,2]", 0, 5, "2"));
      add("arrayGet of an index that does not exist", q("arrayGet", "[1,2]", 0, 5, "-1"));
      add("arrayGet of an index that does not exist", q("arrayGet", "[]", 0, 2, "0"));
      add("objectGet of a key that does not exist", q("objectGet", "{\"a\":1}", 0, 7, "\"b\""));
      add("objectGet of a key that does not exist", q("objectGet", "{}", 0, 2, "\"\""));
      r.push_back({"an unknown function", q("nothing", "[1]", 0, 3, "")});
      r.push_back({"an unknown function", q("", "[1]", 0, 3, "0")});
      r.push_back({"an unknown function", q("parsearray", "[1]", 0, 3, "0")});
    }
    return r;
  }
  void exec(mc::Explorer& ex, const string& c) override {
    if (c[0] == 'r') { auto& r = refusals()[atoi(c.c_str() + 1)]; refusal(ex, r.second, r.first); return; }
    int ws, around, n = 0;
    sscanf(c.c_str(), "%d %d %n", &ws, &around, &n);
    document(ex, c.substr(n), ws, around);
  }
  void enumerate(mc::Explorer& ex) override {
    // leaves, then containers of them up to a depth, complete
    const std::vector<string> leaves = {"''", "'a'", "'\\\"]'", "'{,'", "1", "-12", "true"};
    std::vector<string> level1 = leaves, docs;
    auto lists = [&](const std::vector<string>& in, size_t max, std::vector<string>& out) {
      std::function<void(std::vector<string>&)> rec = [&](std::vector<string>& k) {
        string a = "[", o = "{";
        for (size_t i = 0; i < k.size(); ++i) { a += (i ? "," : "") + k[i]; o += (i ? "," : "") + mc::fmt("'k%zu'=", i) + k[i]; }
        out.push_back(a + "]");
        out.push_back(o + "}");
        if (k.size() < max) for (auto& v : in) { k.push_back(v); rec(k); k.pop_back(); }
      };
      std::vector<string> k;
      rec(k);
    };
    lists(leaves, ex.tier(2, 3), docs);                                  // flat
    std::vector<string> few = {"[]", "{}", "'x'", "7", "['b',{'c'=1}]", "{'k0'='v','k1'=[2]}", "[[3]]"};
    lists(few, ex.tier(3, 4), docs);                                     // nested
    for (auto& l : leaves) docs.push_back(l);
    // keys
    for (const char* k : {"", " ", "\\\"", "\\u0041", "a\\nb", "]", "}", ":", ",", "k\\\\", "\\u0000", "k\x01", "\x80\xff"})
      docs.push_back(string("{'") + k + "'=1,'other'='" + (*k == '\'' ? "" : "v") + "'}");
    docs.push_back("{'k'=1,'k'=2,'k'='three'}");
    for (int n : {10, 50, 200}) { string a = "[", o = "{"; for (int i = 0; i < n; ++i) { a += (i ? ",'" : "'") + std::to_string(i) + "'"; o += (i ? ",'" : "'") + std::to_string(i) + "'=" + std::to_string(i * 7); } docs.push_back(a + "]"); docs.push_back(o + "}"); }
    for (int n : {5, 20, 60}) docs.push_back(string(n, '[') + "1" + string(n, ']'));
    for (size_t i = 0; i < docs.size(); ++i)
      for (int ws = 0; ws < ex.tier(2, 4); ++ws)
        for (int o = 0; o < 9; ++o) if (ex.thorough() || o == 0 || (i + ws) % 8 + 1 == (size_t)o) ex.all(mc::fmt("%d %d ", ws, o) + docs[i]);
    for (size_t i = 0; i < refusals().size(); ++i) ex.all(mc::fmt("r%zu", i));
  }
};
MC_MAIN(H)
