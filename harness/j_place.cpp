// J01 / J02, second phase: the text at different places in memory, through the
// parser compiled here and through the operation base class in libeni.so.
#include "arena.hpp"
#include "json_space.hpp"
#include "ops.hpp"
#include <eni.h>

struct Probe : eni::EniBase {
  Probe(const std::string& s, const ref::V* want) : eni::EniBase(s), m_Want(want) {}
  bool parse(const json::Array& a) override {
    m_Seen = true;
    json::Value v(a);
    m_Diff = ref::diff(v, *m_Want);
    return true;
  }
  eni::Gas gas() const override { return 1; }
  bool run(json::Array&) override { return true; }
  const ref::V* m_Want;
  std::string m_Diff;
  bool m_Seen = false;
};

struct H : mc::Harness {
  const char* rule() override {
    return PROP == 1 ? "valid text x place of the text (inside the string object, below and above all code) x code that parses it"
                     : "malformed text x place of the text; the process that creates an operation on it must end with status 87";
  }
  double hangSeconds() override { return 60; }
  void init() override {
    if (PROP == 2) ops::load();
    arena::open(arena::Low, 64u << 20, 0);
    arena::open(arena::High, 64u << 20, (uintptr_t)(void*)&dlsymAnchor);
  }
  static void dlsymAnchor() {}
  // nesting that needs more stack than a process has; the input is identified
  // by its text in KNOWN_FINDINGS.txt
  void nesting(mc::Explorer& ex, const std::string& c) {
    long n = atol(c.c_str() + 1);
    ref::V none;
    int st = mc::forked([&]() -> int {
      rlimit l{8u << 20, 8u << 20};
      setrlimit(RLIMIT_STACK, &l);
      Probe op(std::string(n, '['), &none);
      return 0;
    }, 30);
    ex.transitions();
    ex.traces();
    if (st != -1 && WIFEXITED(st) && WEXITSTATUS(st) == 87) return;
    std::string what = mc::fmt("%ld opening brackets", n);
    const char* k = getenv("VERIF_KNOWN");
    if (!k || !strstr(k, what.c_str())) mc::fail(mc::fmt("creating an operation on a text of %ld opening brackets: wait status 0x%x instead of exit 87", n, st));
    printf("KNOWN-FINDING: property=J02 %s overflow the stack of the parser (wait status 0x%x instead of exit 87)\n", what.c_str(), st);
  }
  // the same by the entry points of the bundled operations
  void library(mc::Explorer& ex, const std::string& c) {
    std::string t = c.substr(2);
    if (ref::Reader(t).read() == ref::Ok) { ex.skip(); return; }
    int op = c[1] - '0';
    for (int g = 0; g < 2; ++g) {
      std::string out;
      int st = mc::forked([&]() -> int { close(2); if (g) ops::gas(op, t); else ops::run(op, t, out); return 0; }, 20);
      if (st == -1 || !WIFEXITED(st) || WEXITSTATUS(st) != 87)
        mc::fail(mc::fmt("%s_%s of a malformed text: wait status 0x%x instead of exit 87; text ", ops::Libs[op].op, g ? "gas" : "run", st) + mc::esc(mc::cut(t)));
      ex.transitions();
    }
    ex.traces();
    ex.state(mc::hash(c));
  }
  void exec(mc::Explorer& ex, const std::string& c) override {
    if (c[0] == 'D') return nesting(ex, c);
    if (c[0] == 'L') return library(ex, c);
    std::string t = space::textOf(c);
    ref::Reader r(t);
    ref::Verdict v = r.read();
    if ((v == ref::Ok) != (PROP == 1)) { ex.skip(); return; }
    for (int place = 0; place < 3; ++place) {
      for (int pad = 0; pad < 2; ++pad) {
        if (pad && t.size() >= 16) continue;
        if (place && !arena::g_Area[place].base) { ex.count("place_not_available"); continue; }
        arena::g_Place = (arena::Place)place;
        std::string* u = new std::string((pad ? std::string(16, ' ') : std::string()) + t);
        arena::g_Place = arena::Normal;
        ex.transitions();
        if (PROP == 1) {
          json::Parser p(*u);
          if (!(bool)p) mc::fail("refused at place " + std::to_string(place) + ": " + mc::esc(mc::cut(*u)));
          std::string d = ref::diff(p.getRoot(), r.root);
          if (!d.empty()) mc::fail("wrong value at place " + std::to_string(place) + ": " + d + "; text " + mc::esc(mc::cut(*u)));
          Probe op(*u, &r.root);      // a refusal ends the process with 87
          if (op.getGas() != 1 && r.root.k == ref::Arr) mc::fail("the operation does not accept the list");
          if (!op.m_Diff.empty()) mc::fail("the operation got wrong arguments at place " + std::to_string(place) + ": " + op.m_Diff + "; text " + mc::esc(mc::cut(*u)));
          ex.state(mc::hash(mc::fmt("%d%d", place, pad) + r.root.show()));
        } else {
          ref::V none;
          int st = mc::forked([&]() -> int { Probe op(*u, &none); return 0; }, 20);
          if (st == -1) mc::fail("creating the operation does not end");
          if (!WIFEXITED(st) || WEXITSTATUS(st) != 87)
            mc::fail(mc::fmt("creating an operation on a malformed text: wait status 0x%x instead of exit 87; place %d, text ", st, place) + mc::esc(mc::cut(*u)));
          ex.state(mc::hash(mc::fmt("%d%d", place, pad) + t));
        }
        arena::g_Place = arena::Normal;
        delete u;
      }
    }
    ex.traces();
  }
  void enumerate(mc::Explorer& ex) override {
    auto T = [&](const std::string& t) { ex.run("T" + t); };
    auto C = [&](const std::string& c) { ex.run(c); };
    if (PROP == 1) {
      space::tokens(ex, space::tokenAlphabet(), ex.tier(5, 7), 1, T);
      space::spacing(ex, T);
      space::keys(ex, 3, T);
      space::bytes(ex, T);
      for (long n : space::sizes(40, 1 << 12))
        for (const char* g : {"str", "escstr", "arr", "boolarr", "strarr", "obj", "tail", "key", "ws"})
          if (ex.mine()) C(mc::fmt("G %s %ld 0", g, n));
      for (long n : {32768, 32769, 65536, 65537, 131073})
        for (const char* g : {"arr", "boolarr", "strarr", "obj", "objdup"}) if ((n < 70000 && n != 65536) || strcmp(g, "obj"))
          if (ex.mine()) C(mc::fmt("G %s %ld 0", g, n));
    } else {
      space::tokens(ex, space::tokenAlphabet(), ex.tier(3, 4), 1, T);
      for (auto& d : space::corpus())
        for (size_t n = 0; n <= d.size(); ++n)
          if (ex.mine()) T(d.substr(0, n));
      for (int b = 0; b < 256; ++b)
        for (const char* w : {"", "[", "\"\\"})
          if (ex.mine()) T(std::string(w) + (char)b);
      for (int op = 0; op < ops::Count; ++op) {
        auto L = [&](const std::string& t) { ex.run(mc::fmt("L%d", op) + t); };
        space::tokens(ex, space::tokenAlphabet(), ex.tier(2, 3), 1, L);
        for (auto& d : space::corpus())
          for (size_t n = 0; n <= d.size(); n += ex.tier(n < 8 ? 1 : 5, 1))
            if (ex.mine()) L(d.substr(0, n));
      }
      for (long n : {1000, 10000, 1000000})
        if (ex.mine()) C(mc::fmt("D%ld", n));
      for (long n : {65536, 131073}) if (ex.mine()) C(mc::fmt("G cutarr %ld 0", n));
      for (long n : space::sizes(3, 1 << 12)) if (ex.mine()) C(mc::fmt("G cutstr %ld 0", n));
    }
  }
};
MC_MAIN(H)
