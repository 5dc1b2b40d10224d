// ref_json.hpp - independent reference for the JSON subset of libeni:
// recogniser with prefix semantics, value trees, comparison with the library's
// values (through the public API only), generators of texts.
#ifndef REF_JSON_HPP
#define REF_JSON_HPP
#include "mc.hpp"
#include <json/Array.h>
#include <json/Object.h>
#include <json/Parser.h>
#include <json/Value.h>
#include <memory>

namespace ref {

enum Kind { Bool, Int, Str, Arr, Obj, Undef };

struct V {
  Kind k = Undef;
  bool b = false;
  bool wild = false;   // a string whose content is not specified (\u above 00FF)
  bool wide = false;   // an integer of magnitude 2^256 or more: value not specified
  std::string s;       // string bytes, or canonical decimal
  std::vector<V> a;
  std::vector<std::pair<std::string, V>> o;   // insertion order, unique keys
  static V boolean(bool b) { V v; v.k = Bool; v.b = b; return v; }
  static V integer(const std::string& d) { V v; v.k = Int; v.s = d; return v; }
  static V string(const std::string& d) { V v; v.k = Str; v.s = d; return v; }
  static V array() { V v; v.k = Arr; return v; }
  static V object() { V v; v.k = Obj; return v; }
  void set(const std::string& key, const V& v) {
    for (auto& p : o) if (p.first == key) { p.second = v; return; }
    o.emplace_back(key, v);
  }
  const V* get(const std::string& key) const {
    for (auto& p : o) if (p.first == key) return &p.second;
    return nullptr;
  }
  /// canonical rendering, for state identity and messages
  void show(std::string& r) const {
    switch (k) {
      case Bool: r += b ? "true" : "false"; break;
      case Int: r += s; break;
      case Str: r += '"' + mc::esc(s) + '"'; break;
      case Arr: r += '['; for (size_t i = 0; i < a.size(); ++i) { if (i) r += ','; a[i].show(r); } r += ']'; break;
      case Obj: {
        std::vector<const std::pair<std::string, V>*> q;
        for (auto& p : o) q.push_back(&p);
        std::sort(q.begin(), q.end(), [](auto x, auto y) { return x->first < y->first; });
        r += '{';
        for (size_t i = 0; i < q.size(); ++i) {
          if (i) r += ',';
          r += '"' + mc::esc(q[i]->first) + "\":";
          q[i]->second.show(r);
        }
        r += '}';
        break;
      }
      case Undef: r += "undef"; break;
    }
  }
  std::string show() const { std::string r; show(r); return r; }
};

inline bool atLeast2to256(const std::string& digits) {
  static const std::string lim = "115792089237316195423570985008687907853269984665640564039457584007913129639936";
  if (digits.size() != lim.size()) return digits.size() > lim.size();
  return digits >= lim;
}

enum Verdict { Ok, Bad, Cut };   // Cut: refused only because the text ends

class Reader {
public:
  Reader(const std::string& t) : m_T(t) {}
  size_t pos = 0;
  V root;
  Verdict read() {
    m_Cut = false;
    pos = 0;
    if (value(root, 0)) return Ok;
    return m_Cut ? Cut : Bad;
  }

private:
  const std::string& m_T;
  bool m_Cut = false;
  bool end() { return pos >= m_T.size(); }
  bool no() { if (end()) m_Cut = true; return false; }
  void ws() { while (!end() && (m_T[pos] == ' ' || m_T[pos] == '\t' || m_T[pos] == '\n' || m_T[pos] == '\r')) ++pos; }
  bool lit(const char* w) {
    for (; *w; ++w, ++pos) if (end() || m_T[pos] != *w) return no();
    return true;
  }
  bool string(std::string& s, bool& wild) {
    if (end() || m_T[pos] != '"') return no();
    ++pos;
    while (true) {
      if (end()) return no();
      char c = m_T[pos++];
      if (c == '"') return true;
      if (c != '\\') { s += c; continue; }
      if (end()) return no();
      char e = m_T[pos];
      const char* from = "\"\\/bfnrt";
      const char* to = "\"\\/\b\f\n\r\t";
      const char* p = e ? strchr(from, e) : nullptr;
      if (p) { s += to[p - from]; ++pos; continue; }
      if (e != 'u') return no();
      ++pos;
      int code = 0;
      for (int i = 0; i < 4; ++i, ++pos) {
        if (end()) return no();
        char h = m_T[pos];
        int d = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1;
        if (d < 0) return no();
        code = code * 16 + d;
      }
      if (code > 0xff) wild = true;
      s += (char)code;
    }
  }
  bool value(V& v, int depth) {
    ws();
    if (end()) return no();
    char c = m_T[pos];
    if (c == '{') {
      ++pos;
      v = V::object();
      ws();
      if (!end() && m_T[pos] == '}') { ++pos; return true; }
      while (true) {
        ws();
        std::string key;
        bool wild = false;
        if (!string(key, wild)) return false;
        if (wild) v.wild = true;
        ws();
        if (end() || m_T[pos] != ':') return no();
        ++pos;
        V e;
        if (!value(e, depth + 1)) return false;
        v.set(key, e);
        ws();
        if (end()) return no();
        if (m_T[pos] == ',') { ++pos; continue; }
        if (m_T[pos] == '}') { ++pos; return true; }
        return false;
      }
    }
    if (c == '[') {
      ++pos;
      v = V::array();
      ws();
      if (!end() && m_T[pos] == ']') { ++pos; return true; }
      while (true) {
        v.a.emplace_back();
        V e;
        if (!value(e, depth + 1)) return false;
        v.a.back() = std::move(e);
        ws();
        if (end()) return no();
        if (m_T[pos] == ',') { ++pos; continue; }
        if (m_T[pos] == ']') { ++pos; return true; }
        return false;
      }
    }
    if (c == '"') { v = V(); v.k = Str; return string(v.s, v.wild); }
    if (c == 't') { v = V::boolean(true); return lit("true"); }
    if (c == 'f') { v = V::boolean(false); return lit("false"); }
    bool neg = false;
    if (c == '-') { neg = true; ++pos; if (end()) return no(); c = m_T[pos]; }
    if (c == '0') { ++pos; v = V::integer("0"); return true; }
    if (c < '1' || c > '9') return false;
    std::string d;
    while (!end() && m_T[pos] >= '0' && m_T[pos] <= '9') d += m_T[pos++];
    v = V::integer((neg ? "-" : "") + d);
    v.wide = atLeast2to256(d);
    return true;
  }
};

/// decimal text of an integer of the library, without using its own output
inline std::string dec(const eni::s256& v) {
  eni::s256 x = v;
  bool neg = x < 0;
  if (neg) x = -x;
  std::string r;
  do {
    eni::s256 q = x / 10;
    r += (char)('0' + (int)(x - q * 10));
    x = q;
  } while (x != 0);
  if (neg) r += '-';
  std::reverse(r.begin(), r.end());
  return r;
}

/// difference between what the library holds and the reference; empty if none
inline std::string diff(const json::Value& g, const V& w, const std::string& at = "root") {
  int n = g.isInteger() + g.isBoolean() + g.isString() + g.isObject() + g.isArray() + g.isUndefined();
  if (n != 1) return at + ": has " + std::to_string(n) + " kinds at once";
  switch (w.k) {
    case Bool:
      if (!g.isBoolean()) return at + ": not a boolean";
      if (g.toBoolean() != w.b) return at + ": wrong boolean";
      return "";
    case Int:
      if (!g.isInteger()) return at + ": not an integer";
      if (!w.wide && dec(g.toInteger()) != w.s) return at + ": is " + dec(g.toInteger()) + ", should be " + w.s;
      return "";
    case Str:
      if (!g.isString()) return at + ": not a string";
      if (!w.wild && g.toString() != w.s)
        return at + ": is \"" + mc::esc(mc::cut(g.toString())) + "\", should be \"" + mc::esc(mc::cut(w.s)) + "\"";
      return "";
    case Arr: {
      if (!g.isArray()) return at + ": not an array";
      const json::Array& a = g.toArray();
      if (a.size() != w.a.size())
        return at + mc::fmt(": has %zu elements, should have %zu", (size_t)a.size(), w.a.size());
      if (a.empty() != w.a.empty()) return at + ": wrong emptiness";
      for (size_t i = 0; i < w.a.size(); ++i) {
        std::string d = diff(a[(int)i], w.a[i], w.a.size() < 50 ? at + mc::fmt("[%zu]", i) : at + "[i]");
        if (!d.empty()) return d;
      }
      return "";
    }
    case Obj: {
      if (!g.isObject()) return at + ": not an object";
      const json::Object& o = g.toObject();
      if (w.wild) return "";
      if (o.size() != w.o.size())
        return at + mc::fmt(": has %zu members, should have %zu", (size_t)o.size(), w.o.size());
      for (auto& p : w.o) {
        json::Object::const_iterator it = o.find(p.first), e = o.end();
        if (it == e) return at + ": lacks the member \"" + mc::esc(mc::cut(p.first)) + "\"";
        if (it->key() != p.first) return at + ": found another key for \"" + mc::esc(mc::cut(p.first)) + "\"";
        std::string d = diff(it->value(), p.second, w.o.size() < 50 ? at + "." + mc::esc(mc::cut(p.first)) : at + ".k");
        if (!d.empty()) return d;
      }
      size_t n = 0;
      json::Object::const_iterator it = o.begin(), e = o.end();
      for (; it != e && n <= w.o.size(); ++it) ++n;
      if (n != w.o.size()) return at + ": iteration visits a wrong number of members";
      return "";
    }
    case Undef:
      if (!g.isUndefined()) return at + ": not undefined";
      return "";
  }
  return "";
}

/// builds a library value from a reference tree
inline json::Value make(const V& w) {
  switch (w.k) {
    case Bool: return json::Value(w.b);
    case Int: return json::Value(eni::s256(w.s));
    case Str: return json::Value(w.s);
    case Arr: {
      json::Array a;
      for (auto& e : w.a) a.push_back(make(e));
      return json::Value(a);
    }
    case Obj: {
      json::Object o;
      for (auto& p : w.o) o[p.first] = make(p.second);
      return json::Value(o);
    }
    default: return json::Value();
  }
}

/// minimal JSON text of a reference tree (for generating inputs)
inline std::string quote(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20) r += mc::fmt("\\u%04X", c);
    else r += c;
  }
  return r + "\"";
}
inline void text(const V& w, std::string& r) {
  switch (w.k) {
    case Bool: r += w.b ? "true" : "false"; break;
    case Int: r += w.s; break;
    case Str: r += quote(w.s); break;
    case Arr: r += '['; for (size_t i = 0; i < w.a.size(); ++i) { if (i) r += ','; text(w.a[i], r); } r += ']'; break;
    case Obj:
      r += '{';
      for (size_t i = 0; i < w.o.size(); ++i) { if (i) r += ','; r += quote(w.o[i].first) + ":"; text(w.o[i].second, r); }
      r += '}';
      break;
    default: break;
  }
}

/// decimal texts of 2^k + d for the interesting d (own arithmetic on decimal strings)
inline std::string pow2(int k, int d = 0) {
  std::vector<int> n{1};   // little endian digits
  for (int i = 0; i < k; ++i) {
    int c = 0;
    for (auto& x : n) { x = x * 2 + c; c = x / 10; x %= 10; }
    if (c) n.push_back(c);
  }
  for (int i = 0; i < d; ++i) {
    size_t j = 0;
    while (j < n.size() && n[j] == 9) n[j++] = 0;
    if (j == n.size()) n.push_back(1); else ++n[j];
  }
  for (int i = 0; i < -d; ++i) {
    size_t j = 0;
    while (j < n.size() && n[j] == 0) n[j++] = 9;
    if (j == n.size()) return "";     // below zero
    --n[j];
    while (n.size() > 1 && n.back() == 0) n.pop_back();
  }
  std::string r;
  for (size_t i = n.size(); i-- > 0;) r += (char)('0' + n[i]);
  return r;
}

} // namespace ref
#endif
