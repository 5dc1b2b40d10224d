// E04, one thread: all interleavings of the steps (create, requests, destroy)
// of two and three operation objects; each answers what it answers alone.
#include "ops.hpp"
#include <eni.h>
#include <eni_crypto/eni_crypto.h>
#include <eni_scrypt/eni_scrypt.h>
#include REVERSE_SRC
#include JSON_SRC
using std::string;

class ListOp : public eni::EniBase {
public:
  ListOp(const string& a) : eni::EniBase(a) {}
private:
  json::Array m_Args;
  bool parse(const json::Array& a) override { m_Args = a; return a.size() == 0 || !a[0].isString(); }
  eni::Gas gas() const override { return m_Args.size() * 3; }
  bool run(json::Array& r) override {
    for (size_t i = 0; i < m_Args.size(); ++i) r.push_back(m_Args[i]);
    return m_Args.size() == 0 || !m_Args[0].isBoolean() || m_Args[0].toBoolean();
  }
};
/// an operation that passes its argument values through and destroys one of them on the way
class DropOp : public eni::EniBase {
public:
  DropOp(const string& a) : eni::EniBase(a) {}
private:
  json::Value m_Args;
  bool parse(const json::Array& a) override { m_Args = json::Value(a); return true; }
  eni::Gas gas() const override { json::Value v(m_Args); return 7 + v.toArray().size(); }
  bool run(json::Array& r) override {
    json::Array a(m_Args.toArray());
    if (!a.empty()) a.pop_back();
    a.push_back(json::Value("end"));
    for (size_t i = 0; i < a.size(); ++i) r.push_back(a[i]);
    return true;
  }
};
/// an operation that only remembers where its arguments are: values inside of them, reached by index and key
class RefOp : public eni::EniBase {
public:
  RefOp(const string& a) : eni::EniBase(a) {}
private:
  std::vector<const json::Value*> m_At;
  void visit(const json::Value& v) {
    m_At.push_back(&v);
    if (v.isArray()) for (size_t i = 0; i < v.toArray().size(); ++i) visit(v[(int)i]);
    if (v.isObject()) for (auto it = v.toObject().begin(), e = v.toObject().end(); it != e; ++it) visit(v[it->key()]);
    const json::Value& none = v.isArray() ? v["k"] : v[0];                 // no container of that kind
    if (!v.isArray() && !none.isUndefined()) abort();
  }
  bool parse(const json::Array& a) override { for (size_t i = 0; i < a.size(); ++i) visit(a[i]); return true; }
  eni::Gas gas() const override { std::ostringstream s; for (auto v : m_At) v->print(s); return mc::hash(s.str()); }
  bool run(json::Array& r) override { for (auto v : m_At) r.push_back(*v); return true; }
};
struct Kind { int op; string text; };
static const char* const Scripts[] = {"", "g", "r", "gr", "rg", "rr", "gg", "grg", "rgr", "grgr"};

struct H : mc::Harness {
  const char* rule() override { return "operations of the objects x their requests x interleaving of all steps; up to 300 objects at once in three orders; distinct by case"; }
  double hangSeconds() override { return 60; }
  std::vector<Kind> kinds;
  std::vector<std::map<string, string>> want;             // of each kind and script
  eni::EniBase* make(int k) {
    const string& t = kinds[k].text;
    switch (kinds[k].op) {
      case 0: return new ListOp(t);
      case 1: return new ::Reverse(t);
      case 2: return new eni_crypto::RSAEncrypt(t);
      case 3: return new eni_crypto::RSADecrypt(t);
      case 4: return new ::JSON(t);
      case 5: return new ::Scrypt(t);
      case 6: return new DropOp(t);
      default: return new RefOp(t);
    }
  }
  static string request(eni::EniBase* o, char what) {
    if (what == 'g') return mc::fmt("gas %llu;", (unsigned long long)o->getGas());
    char* p = o->start();
    string r = p ? "result " + mc::esc(p) + ";" : "no result;";
    ::free(p);
    return r;
  }
  // object number i of many: all different
  static eni::EniBase* one(int cls, int i) {
    using namespace ops;
    static const string pub = quote(key("k512-3.pub")), prv = quote(key("k512-3.priv"));
    switch (cls) {
      case 0: return new ListOp(mc::fmt("[%d,\"s%d\",{\"k%d\":[%d]}]", i, i * 3, i, -i));
      case 1: return new ::Reverse(list({quote(mc::fmt("%d", i) + string(i % 40, 'r'))}));
      case 2: return new eni_crypto::RSAEncrypt(list({pub, quote(mc::fmt("m%d", i))}));
      case 3: return new eni_crypto::RSADecrypt(list({prv, quote(mc::fmt("%0128x", i + 2))}));
      case 4: return new ::JSON(list({"\"arrayGet\"", quote(mc::fmt("[%d,7]", i)), "0", mc::fmt("%zu", mc::fmt("[%d,7]", i).size()), "0"}));
      case 5: return new ::Scrypt(list({quote(mc::fmt("%0*x", 2 + i % 100, i))}));
      case 6: return new DropOp(mc::fmt("[{\"b\":%d},[1,[%d]],3]", i, i));
      default: return new RefOp(mc::fmt("[[1,{\"k\":[%d,true]},\"s%d\"],5]", i, i));
    }
  }
  enum { Classes = 8 };
  // n objects at once, of one class (or of all in turn), asked and destroyed in several orders
  void many(mc::Explorer& ex, int cls, int n, int mode) {
    auto klass = [&](int i) { int k = cls < Classes ? cls : i % Classes; return k == 5 && cls == Classes && i > 40 ? 0 : k; };
    string alone;
    auto each = [&] { std::vector<string> r; for (int i = 0; i < n; ++i) { std::unique_ptr<eni::EniBase> o(one(klass(i), i)); r.push_back(request(o.get(), 'g') + request(o.get(), 'r')); } return r; };
    int st = mc::forked([&]() -> int { for (auto& s : each()) printf("%s\n", s.c_str()); return 0; }, 50, &alone);
    if (st) mc::fail(mc::fmt("%d operations one after the other end the process (wait status 0x%x)", n, st));
    std::vector<string> w = mc::split(alone, '\n');
    std::vector<std::unique_ptr<eni::EniBase>> o(n);
    std::vector<int> order(n);
    int step = mode == 2 ? 7 : 1;
    while (std::__gcd(step, n) != 1) ++step;
    for (int i = 0; i < n; ++i) order[i] = mode == 1 ? n - 1 - i : i * step % n;
    std::vector<string> gas(n);
    auto runs = [&](int i, const char* when) {
      string r = gas[i] + request(o[i].get(), 'r');
      ex.transitions();
      if (r != w[i]) mc::fail(mc::fmt("object %d of %d at once%s: ", i, n, when) + mc::cut(r, 300) + "; alone " + mc::cut(w[i], 300));
    };
    for (int i = 0; i < n; ++i) o[i].reset(one(klass(i), i));
    for (int i : order) gas[i] = request(o[i].get(), 'g');
    for (int k = n; k--;) runs(order[k], "");
    for (int k = 0; k < n; k += 2) o[order[k]].reset();                     // every other one goes, and comes again
    for (int k = 1; k < n; k += 2) runs(order[k], ", others destroyed");
    for (int k = 0; k < n; k += 2) { int i = order[k]; o[i].reset(one(klass(i), i)); if (mode == 1) gas[i] = request(o[i].get(), 'g'); runs(i, ", made anew"); }
    for (int i = 0; i < n; ++i) { runs(i, ", the last time"); o[i].reset(); }
    ex.traces();
    ex.state(mc::hash(mc::fmt("M %d %d %d", cls, n, mode)));
  }
  void init() override {
    using namespace ops;
    string pub = key("k512-3.pub"), prv = key("k512-3.priv");
    kinds = {{0, "[1,{\"a\":[true,-5],\"b\":\"x\"},\"str\\n\"]"}, {0, "[{\"k\":{\"z\":123456789012345678901234567890}},[[],{}],false]"}, {0, "[\"refused\"]"}, {0, "[false,1]"}, {6, "[{\"b\":\"x\"},[1,[2]],3]"},
             {7, "[[1,{\"k\":[2,true]},\"s\"],5]"}, {7, "[{\"x\":{\"y\":-9}},[[[\"deep\"]]]]"},
             {1, "[\"abcdef\"]"}, {1, "[\"\"]"}, {4, "[\"arrayGet\",\"[1,[2,3]]\",0,9,1]"}, {5, "[\"zz\"]"},
             {2, list({quote(pub), quote("message one")})}, {3, list({quote(prv), quote(string(126, '0') + "05")})}, {2, "[\"no key\",\"m\"]"}, {5, "[\"00112233\"]"}, {5, "[\"abc\"]"}};
    want.resize(kinds.size());
    for (size_t k = 0; k < kinds.size(); ++k) for (const char* s : Scripts) {
      string out;
      int st = mc::forked([&]() -> int {
        eni::EniBase* o = make(k);
        string r;
        for (const char* c = s; *c; ++c) r += request(o, *c);
        delete o;
        printf("%s", r.c_str());
        return 0;
      }, 50, &out);
      if (st && bad.empty()) bad = mc::fmt("operation %s alone, requests %s: wait status 0x%x", mc::esc(mc::cut(kinds[k].text, 60)).c_str(), s, st);
      want[k][s] = out;
    }
  }
  // case: kinds, scripts; all interleavings are run
  string bad;                        // an operation that fails on its own
  void exec(mc::Explorer& ex, const string& c) override {
    if (!bad.empty()) mc::fail(bad);
    int cls, count, mode;
    if (sscanf(c.c_str(), "M %d %d %d", &cls, &count, &mode) == 3) return many(ex, cls, count, mode);
    std::vector<string> w = mc::split(c, ' ');
    int n = w.size() / 2;
    std::vector<int> kind(n);
    std::vector<string> script(n);
    for (int i = 0; i < n; ++i) { kind[i] = atoi(w[2 * i].c_str()); script[i] = w[2 * i + 1] == "-" ? "" : w[2 * i + 1]; }
    std::vector<int> left(n);
    string order;
    int total = 0;
    for (int i = 0; i < n; ++i) total += left[i] = script[i].size() + 2;
    std::function<void()> rec = [&] {
      if ((int)order.size() == total) {
        std::vector<eni::EniBase*> o(n, nullptr);
        std::vector<size_t> at(n, 0);
        std::vector<string> got(n);
        for (char ch : order) {
          int i = ch - '0';
          if (at[i] == 0) o[i] = make(kind[i]);
          else if (at[i] == script[i].size() + 1) { delete o[i]; o[i] = nullptr; }
          else got[i] += request(o[i], script[i][at[i] - 1]);
          ++at[i];
          ex.transitions();
        }
        for (int i = 0; i < n; ++i)
          if (got[i] != want[kind[i]][script[i]])
            mc::fail(mc::fmt("object %d (%s) in the interleaving ", i, mc::esc(mc::cut(kinds[kind[i]].text, 60)).c_str()) + order + ": " + mc::cut(got[i], 300) + "; alone " + mc::cut(want[kind[i]][script[i]], 300));
        ex.traces();
        ex.state(mc::hash(order, mc::hash(c)));
        return;
      }
      for (int i = 0; i < n; ++i) {
        if (!left[i]) continue;
        // objects with equal kind and script are interchangeable: the lower one starts first
        bool skip = false;
        for (int j = 0; j < i; ++j) if (kind[j] == kind[i] && script[j] == script[i] && left[j] == (int)script[j].size() + 2) skip = true;
        if (skip) continue;
        --left[i]; order += (char)('0' + i);
        rec();
        order.pop_back(); ++left[i];
      }
    };
    rec();
  }
  bool dear(int k) { return kinds[k].op == 5 && kinds[k].text != "[\"zz\"]"; }
  void enumerate(mc::Explorer& ex) override {
    for (int cls = 0; cls <= Classes; ++cls)
      for (int m = 1; m <= ex.tier(300, 1100); ++m) {
        if (cls == 5 ? m > ex.tier(10, 40) && m != 33 && m != 65 : m > 34 && m != 63 && m != 64 && m != 65 && m != 100 && m != 127 && m != 128 && m != 129 && m != 256 && m != 257 && m != 300 && m != 1000 && m != 1024 && m != 1025) continue;
        for (int mode = 0; mode < (cls == 5 && !ex.thorough() ? 1 : 3); ++mode) ex.all(mc::fmt("M %d %d %d", cls, m, mode));
      }
    int n = kinds.size(), maxLen = ex.tier(3, 4);
    auto name = [](const char* s) { return *s ? s : "-"; };
    for (int a = 0; a < n; ++a) for (int b = 0; b <= a; ++b)
      for (const char* s : Scripts) for (const char* t : Scripts) {
        int m = maxLen - (a > 10) - (dear(a) || dear(b));
        if ((int)strlen(s) > m || (int)strlen(t) > m || (a == b && strcmp(s, t) < 0)) continue;
        ex.all(mc::fmt("%d %s %d %s", a, name(s), b, name(t)));
      }
    // three objects
    for (int a = 0; a < n; ++a) for (int b = 0; b <= a; ++b) for (int d = 0; d <= b; ++d) {
      if (!ex.thorough() && a > 10 && (dear(a) || b > 2)) continue;
      for (const char* s : {"r", "gr", "rr"}) {
        if (!ex.thorough() && strlen(s) > 1 && (a > 10 || s[0] == 'r')) continue;
        ex.all(mc::fmt("%d %s %d %s %d %s", a, s, b, "r", d, "r"));
        if (ex.thorough()) ex.all(mc::fmt("%d %s %d %s %d %s", a, s, b, "gr", d, "rg"));
      }
    }
  }
};
int main(int argc, char** argv) { H h; return mc::Supervisor().main(argc, argv, h); }
