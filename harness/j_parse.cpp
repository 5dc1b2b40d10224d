// J01 / J02: every text of the bounded spaces against the reference recogniser.
#include "json_space.hpp"

struct H : mc::Harness {
  const char* rule() override {
    return PROP == 1 ? "texts that start with a complete value; distinct by the value denoted and the kind of text"
                     : "all texts; distinct by text among those that must be refused";
  }
  void check(mc::Explorer& ex, const std::string& t, const ref::Reader& r, ref::Verdict v) {
    json::Parser p(t);
    bool ok = (bool)p;
    ex.transitions(t.size());
    if (v == ref::Ok) {
      if (PROP == 2) return;
      if (!ok) mc::fail("a text that starts with a complete value is refused: " + mc::esc(mc::cut(t)));
      std::string d = ref::diff(p.getRoot(), r.root);
      if (!d.empty()) mc::fail("the value obtained differs from what the text denotes: " + d + "; text " + mc::esc(mc::cut(t)));
    } else if (ok) {
      if (PROP == 1) return;
      mc::fail("a malformed text is accepted: " + mc::esc(mc::cut(t)));
    }
  }
  void exec(mc::Explorer& ex, const std::string& c) override {
    std::string t = space::textOf(c);
    ref::Reader r(t);
    ref::Verdict v = r.read();
    if (PROP == 1 && v != ref::Ok) { ex.skip(); return; }
    ex.count(v == ref::Ok ? "texts_accepted" : v == ref::Bad ? "texts_wrong" : "texts_cut_off");
    if (PROP == 1 || v != ref::Ok) ex.state(mc::hash(PROP == 1 && t.size() < 4096 ? r.root.show() : c));
    check(ex, t, r, v);
    if (t.size() < 16) {           // short strings live inside the string object: check on the heap, too
      std::string u(16, ' ');
      u += t;
      ref::Reader r2(u);
      ref::Verdict v2 = r2.read();
      check(ex, u, r2, v2);
    }
    ex.traces();
  }
  void enumerate(mc::Explorer& ex) override {
    auto T = [&](const std::string& t) { ex.run("T" + t); };
    auto C = [&](const std::string& c) { ex.run(c); };
    space::tokens(ex, space::tokenAlphabet(), ex.tier(6, 8), 2, T);
    space::tokens(ex, space::byteAlphabet(), ex.tier(5, 7), ex.tier(1, 2), T);
    space::bytes(ex, T);
    space::unicode(ex, T);
    for (auto& d : space::integers(ex.thorough()))
      for (const char* s : {"", "-"})
        for (const char* w : {"", "["})
          if (ex.mine()) T(std::string(w) + s + d + (*w ? "]" : ""));
    space::mutations(ex, T);
    if (ex.thorough()) space::mutations2(ex, T, 14);
    else space::mutations2(ex, T, 5);
    space::spacing(ex, T);
    space::keys(ex, ex.tier(6, 8), T);
    space::large(ex, PROP == 2, C);
  }
};
MC_MAIN(H)
