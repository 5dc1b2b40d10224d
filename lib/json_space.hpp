// json_space.hpp - the bounded spaces of JSON texts explored by J01, J02 and
// E03; a case text is 'T'+bytes (the text itself) or 'G'+name+arguments.
#ifndef JSON_SPACE_HPP
#define JSON_SPACE_HPP
#include "ref_json.hpp"

namespace space {
using mc::Explorer;
using std::string;
using std::vector;
typedef std::function<void(const string&)> Sink;

inline const vector<string>& corpus() {
  static const vector<string> c = {
    "true", "false", "0", "-0", "7", "-12", "90", "1234567890", "\"\"", "\"a\"", "\"hello world\"", "[]", "{}", "[0]",
    "[true]", "[false]", "[[]]", "[{}]", "{\"a\":1}", "{\"a\":true}", "{\"\":{}}", "{\"a\":[1,2],\"b\":{\"c\":\"d\"}}",
    "[1,2,3]", "[1,[2,[3,[4]]]]", "[true,false,true]", "[\"a\",\"b\"]", "[\"\\n\\t\\r\\b\\f\\/\\\\\\\"\"]",
    "[\"\\u0041\\u00e9\\u0000\\u001F\"]", " [ 1 , 2 ] ", "\t{\n\"k\" :\r\"v\" }\n", "[-1,-0,-99]",
    "{\"k\":1,\"k\":2,\"k\":[]}", "[\"Messages\", 1024, true]", "[{\"a\":[{\"b\":[{}]}]},[[],[[]]],\"x\"]",
    "[115792089237316195423570985008687907853269984665640564039457584007913129639935]",
    "[-115792089237316195423570985008687907853269984665640564039457584007913129639935]",
    "{\"true\":false,\"false\":true,\"0\":0}", "[\"0123456789abcdef0123456789abcdef0123456789abcdef\"]",
    "[\"\xc3\xa9\xff\x80\x7f\"]", "[1,{\"a\":2},[3],\"4\",true]",
  };
  return c;
}

/// every sequence of tokens up to a length, going on for `slack` tokens after
/// the text is complete or definitely wrong
inline void tokens(Explorer& ex, const vector<string>& alpha, int maxLen, int slack, const Sink& sink) {
  std::function<void(string&, int, int)> go = [&](string& t, int len, int over) {
    if (ex.mine()) sink(t);
    if (len == maxLen) return;
    for (auto& a : alpha) {
      size_t n = t.size();
      t += a;
      int o = over;
      if (o == 0) {
        ref::Reader r(t);
        ref::Verdict v = r.read();
        if (v == ref::Bad) o = 1;
        // complete; a number may still go on
        else if (v == ref::Ok && !(t.size() == r.pos && t.back() >= '0' && t.back() <= '9')) o = 1;
      } else ++o;
      if (o <= slack) go(t, len + 1, o);
      t.resize(n);
    }
  };
  string t;
  go(t, 0, 0);
}

inline const vector<string>& tokenAlphabet() {
  static const vector<string> a = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"\"", "true", "false", "0", "-", "12", " ", "\"b\\n\""};
  return a;
}
inline const vector<string>& byteAlphabet() {
  static const vector<string> a = {"{", "}", "[", "]", ",", ":", "\"", "\\", "/", "t", "r", "u", "e", "f", "a", "l", "s", "n",
                                   "0", "1", "9", "-", "+", ".", "E", " ", "\n", string(1, '\0'), "\x80", "x"};
  return a;
}

/// strings over all 256 bytes, of up to two bytes, in several contexts
inline void bytes(Explorer& ex, const Sink& sink) {
  static const char* const wrap[][2] = {{"", ""}, {"[\"", "\"]"}, {"[", "]"}, {"{\"k\":", "}"}, {"{", "}"}, {"\"\\", "\""},
                                        {"[1", "2]"}, {"[1", ""}, {"{\"k\"", "1}"}, {"{\"", "\":1}"}, {"-", ""}, {"tr", "e"}};
  for (auto& w : wrap)
    for (int n = 0; n <= 2; ++n)
      for (int i = 0; i < (n == 0 ? 1 : n == 1 ? 256 : 65536); ++i) {
        if (!ex.mine()) continue;
        string s = w[0];
        if (n >= 1) s += (char)(i & 255);
        if (n == 2) s += (char)(i >> 8);
        sink(s + w[1]);
      }
}

inline void unicode(Explorer& ex, const Sink& sink) {
  for (int u = 0; u < 65536; ++u)
    for (int style = 0; style < 3; ++style)
      if (ex.mine()) {
        string h = mc::fmt(style == 0 ? "%04x" : "%04X", u);
        if (style == 2) h[1] = (char)tolower(h[1]), h[3] = (char)tolower(h[3]);
        sink("[\"<\\u" + h + ">\"]");
      }
  for (int p = 0; p < 4; ++p)
    for (int b = 0; b < 256; ++b)
      for (const char* base : {"0041", "00ff"})
        if (ex.mine()) {
          string h = base;
          h[p] = (char)b;
          sink("[\"\\u" + h + "\"]");
        }
  for (int n = 0; n <= 4; ++n)
    for (const char* tail : {"", "\"", "\"]", "]", "\\", "\\u"})
      if (ex.mine()) sink("[\"\\u" + string("00ff").substr(0, n) + tail);
}

inline vector<string> integers(bool thorough) {
  vector<string> r;
  std::set<string> seen;
  auto add = [&](const string& d) { if (!d.empty() && !ref::atLeast2to256(d) && seen.insert(d).second) r.push_back(d); };
  int lin = thorough ? 70000 : 3000;
  for (int i = 0; i <= lin; ++i) add(std::to_string(i));
  for (int k = 0; k <= 256; ++k)
    for (int d = -3; d <= 3; ++d) add(ref::pow2(k, d));
  for (int n = 1; n <= 78; ++n) {
    for (int c = 1; c <= 9; ++c) add(string(n, '0' + c));
    add("1" + string(n - 1, '0'));
    add("1" + string(n - 1, '0').replace(0, n > 1, n > 1 ? "9" : ""));
    string s;
    for (int i = 0; i < n; ++i) s += (char)('1' + i % 9);
    add(s);
    std::reverse(s.begin(), s.end());
    add(s);
    for (int i = 0; i < n; ++i) { string z(n, '0'); z[0] = '1'; z[i] = '7'; add(z); }
  }
  return r;
}

/// all truncations, and all changes of one byte, of the corpus
inline void mutations(Explorer& ex, const Sink& sink) {
  for (auto& d : corpus()) {
    for (size_t n = 0; n <= d.size(); ++n)
      if (ex.mine()) sink(d.substr(0, n));
    for (size_t i = 0; i <= d.size(); ++i) {
      if (i < d.size() && ex.mine()) { string t = d; t.erase(i, 1); sink(t); }
      if (i + 1 < d.size() && ex.mine()) { string t = d; std::swap(t[i], t[i + 1]); sink(t); }
      for (int b = 0; b < 256; ++b) {
        if (i < d.size() && ex.mine()) { string t = d; t[i] = (char)b; sink(t); }
        if (ex.mine()) { string t = d; t.insert(i, 1, (char)b); sink(t); }
      }
    }
  }
}

/// all changes of two places, over the structural alphabet
inline void mutations2(Explorer& ex, const Sink& sink, size_t maxDoc) {
  for (auto& d : corpus()) {
    if (d.size() > maxDoc) continue;
    for (size_t i = 0; i < d.size(); ++i)
      for (size_t j = i + 1; j <= d.size(); ++j)
        for (auto& x : byteAlphabet())
          for (auto& y : byteAlphabet())
            for (int m = 0; m < 4; ++m) {
              if (!ex.mine()) continue;
              string t = d;
              if (m & 2) t.insert(j, y);
              else if (j < d.size()) t[j] = y[0];
              else t += y;
              if (m & 1) t.insert(i, x);
              else t[i] = x[0];
              sink(t);
            }
  }
}

/// splits a valid text into tokens, so that white space can go between them
inline vector<string> lex(const string& d) {
  vector<string> r;
  for (size_t i = 0; i < d.size();) {
    char c = d[i];
    if (strchr(" \t\n\r", c)) { ++i; continue; }
    size_t j = i + 1;
    if (c == '"') { while (d[j] != '"') j += d[j] == '\\' ? 2 : 1; ++j; }
    else if (isalpha(c)) { while (j < d.size() && isalpha(d[j])) ++j; }
    else if (c == '-' || isdigit(c)) { while (j < d.size() && isdigit(d[j])) ++j; }
    r.push_back(d.substr(i, j - i));
    i = j;
  }
  return r;
}
inline void spacing(Explorer& ex, const Sink& sink) {
  static const vector<string> ws = {" ", "\t", "\n", "\r", "  ", " \t\n\r", string(40, ' '), string(300, '\n'), "\v", "\f", string(1, '\0'), "\xa0", "#", "/"};
  for (auto& d : corpus()) {
    vector<string> t = lex(d);
    for (auto& w : ws) {
      for (size_t g = 0; g <= t.size() + 1; ++g) {
        if (!ex.mine()) continue;
        string s;
        for (size_t i = 0; i <= t.size(); ++i) {
          if (g == i || g == t.size() + 1) s += w;
          if (i < t.size()) s += t[i];
        }
        sink(s);
      }
    }
    for (auto& w : ws)
      for (auto& x : ws)
        for (size_t g = 0; g <= t.size(); ++g) {
          if (!ex.mine()) continue;
          string s;
          for (size_t i = 0; i <= t.size(); ++i) {
            if (g == i) s += w + x;
            if (i < t.size()) s += t[i];
          }
          sink(s);
        }
  }
}

/// every sequence of members over few keys, so that keys repeat in every way
inline void keys(Explorer& ex, int maxLen, const Sink& sink) {
  static const vector<string> ks = {"\"a\"", "\"b\"", "\"\"", "\"aa\"", "\"\\u0061\""};
  for (int n = 1; n <= maxLen; ++n) {
    long total = 1;
    for (int i = 0; i < n; ++i) total *= ks.size();
    for (long c = 0; c < total; ++c) {
      if (!ex.mine()) continue;
      string s = "{";
      long x = c;
      for (int i = 0; i < n; ++i, x /= ks.size()) {
        if (i) s += ",";
        s += ks[x % ks.size()] + ":" + (i % 3 == 2 ? "[" + std::to_string(i) + "]" : std::to_string(i));
      }
      sink(s + "}");
    }
  }
}

inline vector<long> sizes(long linear, long top) {
  std::set<long> s;
  for (long i = 0; i <= linear; ++i) s.insert(i);
  for (long p = 1; p <= top; p *= 2)
    for (long d = -2; d <= 2; ++d) if (p + d >= 0) s.insert(p + d);
  for (long p = 10; p <= top; p *= 10) { s.insert(p); s.insert(p - 1); }
  return vector<long>(s.begin(), s.end());
}

inline const char* oneEscape(int i) {
  static const char* const e[16] = {"\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t", "\\u0000", "\\u0022", "\\u005c", "\\u00fF", "\\u0080", "\\u000a", "\xc3\xa9", "\xff"};
  return e[i & 15];
}
inline const char* small(int i) {
  static const char* const v[] = {"[]", "{}", "\"\"", "0", "-1", "true", "false", "\"a\"", "[1]", "{\"a\":1}", "\"\\n\"", "\"\\u00e9\"", "[[]]", "[{}]", "{\"\":[]}", "{\"a\":{}}", "[ ]", "{ }", "[true,\"x\"]", "\"\\\"\\\\\"", "12345678901234567890", "{\"a\":1,\"a\":2}", " 7 ", "\"a longer string than fits\""};
  return v[i];
}
enum { NumSmall = 24 };
/// long and large texts by name and size
inline string generate(const string& name, long n, long m) {
  string r;
  if (name == "str") { r = "[\""; for (long i = 0; i < n; ++i) r += (char)('a' + i % 26); r += "\"]"; }
  else if (name == "cutstr") { r = "[\""; for (long i = 0; i < n; ++i) r += (char)('a' + i % 26); }
  else if (name == "escstr") { r = "\""; for (long i = 0; i < n; ++i) r += i % 3 == 0 ? "\\u00e9" : i % 3 == 1 ? "\\\\" : "\\\""; r += "\""; }
  else if (name == "binstr") { r = "\""; for (long i = 0; i < n; ++i) { char c = (char)(i * 7 + i / 256); if (c == '"' || c == '\\') c = 'q'; r += c; } r += "\""; }
  else if (name == "arr") { r = "["; for (long i = 0; i < n; ++i) { if (i) r += ","; r += std::to_string(i * 3); } r += "]"; }
  else if (name == "cutarr") { r = "["; for (long i = 0; i < n; ++i) { if (i) r += ","; r += "0"; } }
  else if (name == "boolarr") { r = "["; for (long i = 0; i < n; ++i) { if (i) r += ","; r += i % 2 ? "true" : "false"; } r += "]"; }
  else if (name == "strarr") { r = "["; for (long i = 0; i < n; ++i) { if (i) r += ","; r += "\"" + string(i % 40, 'z') + "\""; } r += "]"; }
  else if (name == "obj") { r = "{"; for (long i = 0; i < n; ++i) { if (i) r += ","; r += "\"k" + std::to_string(i) + "\":" + std::to_string(i); } r += "}"; }
  else if (name == "objdup") { r = "{"; for (long i = 0; i < n; ++i) { if (i) r += ","; r += "\"k" + std::to_string(i % 7) + "\":" + std::to_string(i); } r += "}"; }
  else if (name == "key") r = "{\"" + string(n, 'k') + "\":1,\"" + string(n, 'k') + "l\":2}";
  else if (name == "nest") { r = string(n, '[') + string(m, ']'); }
  else if (name == "nestv") { r = string(n, '[') + "true" + string(n, ']'); }
  else if (name == "onest") { for (long i = 0; i < n; ++i) r += "{\"a\":"; r += "0" + string(m, '}'); }
  else if (name == "mixnest") { for (long i = 0; i < n; ++i) r += i % 2 ? "[1," : "{\"k\":"; r += "\"x\""; for (long i = n; i-- > 0;) r += i % 2 ? "]" : "}"; }
  else if (name == "tail") { r = "[["; for (long i = 0; i < n; ++i) r += "{\"a\":[true,\"b\"]},"; r += "0],1]"; }
  else if (name == "ws") r = string(n, ' ') + "[" + string(n, '\n') + "true" + string(n, '\t') + "]";
  // one escape after n characters, and m / 16 characters after it
  else if (name == "esc") r = "{\"k\":\"" + string(n, 'p') + oneEscape(m % 16) + string(m / 16, 'q') + "\"}";
  else if (name == "esckey") r = "{\"" + string(n, 'p') + oneEscape(m % 16) + string(m / 16, 'q') + "\":[0]}";
  else if (name == "escpair") r = "[\"" + string(n, 'p') + oneEscape(m % 16) + oneEscape(m / 16) + "\"]";
  // the n-th member, element, character is wrong in way m
  else if (name == "badesc") { static const char* w[] = {"\\x", "\\u00g0", "\\u12", "\\U0041", "\\'", "\\0", "\\u 041", "\\\n"}; r = "[\"" + string(n, 'p') + w[m] + "\",1]"; }
  else if (name == "badsep") { static const char* w[] = {" 1", ";1", ",,1", ":1", "}", "\"x\"", ",", "tru", ",-", "[1]", ",fals", "\""}; r = "["; for (long i = 0; i < n; ++i) r += i % 5 == 4 ? "[true]," : i % 5 == 3 ? "\"s\"," : "1,"; r += string("1") + w[m] + ",1,1]"; }
  else if (name == "badmem") {
    static const char* w[] = {"\"z\" 1", "\"z\",1", "\"z\":", "z:1", "1:1", "\"z\"::1", "", "\"z\":1 \"y\":2", "\"z\":1]", "\"z\":1:2", "true:1", "[]:1", "\"z\":}", "\"z\""};
    r = "{";
    for (long i = 0; i < n; ++i) r += mc::fmt("\"m%ld\":%s,", i, i % 3 ? "true" : "{\"a\":[]}");
    r += string(w[m]) + ",\"end\":1}";
  }
  // n levels of lists and objects (the bits of a fixed pattern), level m closed wrongly (none if m is n)
  else if (name == "close" || name == "closeo" || name == "closea") {
    auto list = [&](long i) { return name == "closea" || (name == "close" && (i * 2654435761ul >> 7 & 1)); };
    for (long i = 0; i < n; ++i) r += list(i) ? "[1," : "{\"k\":";
    r += "true";
    for (long i = n; i-- > 0;) r += list(i) == (i != m) ? "]" : "}";
  }
  else if (name == "after") {
    static const char* w[] = {"]", "}", "\"", "\\", "[", "{", ",", "\\u", "-", "tru", ":", " ", "\"\\", "/*"};
    r = corpus()[n];
    r += m / 16 == 0 ? "" : m / 16 == 1 ? " " : m / 16 == 2 ? "\n\t " : m / 16 == 3 ? string(1, '\0') : "]";
    if (isdigit(corpus()[n].back()) && m / 16 == 0) r += ' ';
    for (int i = 0; i < (m / 16 == 1 ? 3000 : 3); ++i) r += w[m % 16];
  }
  // a small value again and again: in a list, as members, in rows and columns
  else if (name == "rep") { r = "["; for (long i = 0; i < n; ++i) { if (i) r += ","; r += small(m); } r += "]"; }
  else if (name == "repmem") { r = "{"; for (long i = 0; i < n; ++i) { if (i) r += ","; r += "\"" + std::to_string(i * 7919 % 100003) + "\":"; r += small(m); } r += "}"; }
  else if (name == "repdup") { r = "{"; for (long i = 0; i < n; ++i) { if (i) r += ","; r += "\"d\":"; r += small((i + m) % NumSmall); } r += "}"; }
  else if (name == "grid" || name == "ogrid") {
    string row(1, '[');
    for (long i = 0; i < n; ++i) { if (i) row += ","; row += small(m); }
    row += "]";
    r = name == "grid" ? "[" : "{";
    for (long i = 0; i < n; ++i) { if (i) r += ","; if (name == "ogrid") r += "\"r" + std::to_string(i) + "\":"; r += row; }
    r += name == "grid" ? "]" : "}";
  }
  else if (name == "digits") r = string(n, '1');
  else if (name == "zeros") r = "[" + string(n, '0') + "]";
  return r;
}
inline void large(Explorer& ex, bool malformed, const Sink& sinkCase) {
  auto emit = [&](const string& name, long n, long m = 0) { if (ex.mine()) sinkCase(mc::fmt("G %s %ld %ld", name.c_str(), n, m)); };
  for (long n : sizes(300, ex.tier(1 << 20, 1 << 22))) { emit("str", n); emit("binstr", n); if (malformed) emit("cutstr", n); }
  for (long n : sizes(130, ex.tier(1 << 17, 1 << 19))) { emit("escstr", n); emit("key", n); emit("ws", n); }
  for (long n : sizes(300, ex.tier(1 << 14, 1 << 16))) { emit("arr", n); emit("boolarr", n); emit("obj", n); emit("objdup", n); if (malformed) emit("cutarr", n); }
  for (long n : sizes(130, 1 << 12)) { emit("strarr", n); emit("tail", n); emit("zeros", n); }
  for (long n : sizes(260, ex.tier(1 << 10, 1 << 11))) { emit("nest", n, n); emit("nestv", n); emit("onest", n, n); emit("mixnest", n); if (n && malformed) { emit("nest", n, n - 1); emit("onest", n, n - 1); emit("nest", n, 0); } }
  for (long n : sizes(100, 256)) emit("digits", n);
  for (int k = 0; k < NumSmall; ++k) {
    for (long n : sizes(ex.tier(40, 300), ex.tier(1 << 12, 1 << 14))) { emit("rep", n, k); emit("repmem", n, k); emit("repdup", n, k); }
    for (long n : {33, 129, 257, ex.tier(363, 1025)}) { emit("grid", n, k); if (n < 300) emit("ogrid", n, k); }
  }
  // something special at every place
  for (long n : sizes(ex.tier(140, 600), ex.tier(1 << 17, 1 << 20)))
    for (int k = 0; k < 16; ++k) {
      if (n > 5000 && k % 4 > 1 && !ex.thorough()) continue;
      for (long q : {0, 1, 40}) emit("esc", n, k + 16 * q);
      emit("esckey", n, k);
      if (n < 70) { emit("esckey", n, k + 16); for (int l = 0; l < 16; ++l) emit("escpair", n, k + 16 * l); }
    }
  if (malformed) {
    for (long n : sizes(ex.tier(140, 600), ex.tier(1 << 17, 1 << 20))) for (int k = 0; k < 8; ++k) emit("badesc", n, k);
    for (long n : sizes(ex.tier(140, 600), ex.tier(1 << 13, 1 << 16))) for (int k = 0; k < 12; ++k) emit("badsep", n, k);
    for (long n : sizes(ex.tier(100, 400), ex.tier(1 << 12, 1 << 15))) for (int k = 0; k < 14; ++k) emit("badmem", n, k);
    for (const char* g : {"close", "closeo", "closea"})
      for (long n : sizes(ex.tier(70, 200), ex.tier(512, 2048)))
        for (long m = 0; m < n; ++m) if (n <= 70 || m < 3 || m > n - 3 || m % 64 < 2 || m % 64 == 63) emit(g, n, m);
  }
  for (long n : sizes(ex.tier(260, 1000), ex.tier(1024, 2048))) emit("close", n, n);
  for (size_t d = 0; d < corpus().size(); ++d) for (int k = 0; k < 14; ++k) for (int w = 0; w < 5; ++w) emit("after", d, k + 16 * w);
}
inline string textOf(const string& c) {
  if (c[0] == 'T') return c.substr(1);
  char name[32];
  long n, m;
  if (sscanf(c.c_str(), "G %31s %ld %ld", name, &n, &m) != 3) mc::fail("bad case text");
  return generate(name, n, m);
}
} // namespace space
#endif
