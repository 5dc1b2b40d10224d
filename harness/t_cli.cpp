// T01: the command-line tools as processes: argument vectors, outcomes of
// loading, lookup and execution, and what they print.
#include "ops.hpp"
#include <array>
#include <poll.h>
using std::string;
typedef std::vector<string> Args;

struct Out { int status; string out, err, log; };
struct H : mc::Harness {
  const char* rule() override { return "tool x argument vector x outcome; distinct by case"; }
  double hangSeconds() override { return 60; }
  string tools[2], lib, dir, priv, pub;
  std::map<string, string> files;        // shorthand -> path
  std::map<string, string> loadable;     // path -> kind
  static string slurp(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
  static void put(const string& f, const string& s) { std::ofstream o(f, std::ios::binary); o << s; }
  void init() override {
    tools[0] = string(REPO_BUILD) + "/tools/eni_cli/eni_run";
    tools[1] = string(REPO_BUILD) + "/tools/eni_cli/eni_gas";
    lib = string(SO_DIR) + "/t_ops.so";
    char cwd[4096];
    dir = getcwd(cwd, sizeof cwd);
    files = {{"@T", lib}, {"@nofile", dir + "/none.so"}, {"@dir", dir}, {"@text", dir + "/text.so"}, {"@empty", dir + "/empty.so"}, {"@null", "/dev/null"},
             {"@noread", dir + "/elfhead.so"}, {"@rel", "./rel dir/-t.so"}, {"@long", "/" + string(3000, 'x')}, {"@spaces", dir + "/rel dir/-t.so"}};
    mkdir("rel dir", 0700);
    put(dir + "/text.so", "no library\n");
    put(dir + "/empty.so", "");
    put(dir + "/elfhead.so", string("\x7f" "ELF\x02\x01\x01", 7) + string(9, 0));
    (void)!symlink(lib.c_str(), "rel dir/-t.so");
    for (auto& l : ops::Libs) { files[string("@") + l.op] = string(REPO_BUILD) + "/" + l.file; loadable[string(REPO_BUILD) + "/" + l.file] = l.op; }
    for (const char* t : {"@T", "@rel", "@spaces"}) loadable[files[t]] = "T";
    priv = ops::key("k512-3.priv"); pub = ops::key("k512-3.pub");
    ops::load();
  }
  // how: 0 pipes, 1 closed standard output, 2 full device
  Out run(int tool, const Args& a, int how = 0) {
    string log = dir + "/log." + std::to_string(getpid());
    ::unlink(log.c_str());
    int o[2], e[2];
    if (pipe(o) || pipe(e)) _exit(3);
    std::vector<char*> v;
    v.push_back((char*)tools[tool].c_str());
    for (auto& s : a) v.push_back((char*)s.c_str());
    v.push_back(nullptr);
    pid_t p = fork();
    if (!p) {
      dup2(e[1], 2);
      if (how == 0) dup2(o[1], 1);
      else if (how == 1) close(1);
      else { int f = open("/dev/full", O_WRONLY); dup2(f, 1); }
      int n = open("/dev/null", O_RDONLY);
      dup2(n, 0);
      for (int i = 3; i < 64; ++i) close(i);
      setenv("T_LOG", log.c_str(), 1);
      alarm(30);
      execv(v[0], v.data());
      _exit(126);
    }
    close(o[1]); close(e[1]);
    Out r;
    pollfd f[2] = {{o[0], POLLIN, 0}, {e[0], POLLIN, 0}};
    int openFds = 2;
    char b[65536];
    while (openFds) {
      poll(f, 2, -1);
      for (int i = 0; i < 2; ++i)
        if (f[i].revents) {
          ssize_t n = read(f[i].fd, b, sizeof b);
          if (n <= 0) { close(f[i].fd); f[i].fd = -1; f[i].revents = 0; --openFds; }
          else (i ? r.err : r.out).append(b, n);
        }
    }
    waitpid(p, &r.status, 0);
    r.log = slurp(log);
    ::unlink(log.c_str());
    return r;
  }
  enum Kind { Usage, Load, Sym, Null, Bad, Ok, LoadOrSym, Open };
  struct Want { Kind kind; string out, log; };
  static string longText(size_t n) { string s; for (size_t i = 0; i < n; ++i) s += "abc%s\n \\\""[i % 9]; return s; }
  Want want(int tool, const Args& a) {
    Args p;
    bool end = false;
    for (auto& s : a) {
      if (!end && s == "--") { end = true; continue; }
      if (!end && s[0] == '-') continue;
      p.push_back(s);
    }
    if (p.size() != 3) return {Usage};
    if (p[0].empty()) return {LoadOrSym};           // the path of no file; the program itself exports no operation
    auto l = loadable.find(p[0]);
    if (l == loadable.end()) return {Load};
    bool g = tool == 1;
    const string &op = p[1], &arg = p[2];
    string fn = op + (g ? "_gas" : "_run"), log = fn + " " + arg + "\n";
    if (l->second == "T") {
      if (op == "echo") return {Ok, g ? std::to_string(arg.size()) : arg, log};
      if (op == "num") return {Ok, g ? std::to_string(strtoull(arg.c_str(), nullptr, 10)) : "", log};
      if (op == "long") return {Ok, g ? "1" : longText(strtoull(arg.c_str(), nullptr, 10)), log};
      if (op == "none") return {Null, "", log};
      if (op == "onlyrun") return g ? Want{Sym} : Want{Ok, "R", log};
      if (op == "onlygas") return g ? Want{Ok, "7", log} : Want{Sym};
      if (op == "") return {Ok, g ? "8" : "noname", log};
      if (op == "echo_run") return g ? Want{Sym} : Want{Ok, "twice", log};
      if (op == "list") {
        static const std::map<string, std::array<string, 2>> t = {
          {"[]", {"[]", "0"}}, {"[1]", {"[1]", "3"}}, {"[true,2]", {"[true,2]", "6"}}, {"[\"no\"]", {"-", "1500"}}, {"[false]", {"-", "3"}}, {"{}", {"-", "1500"}}, {"7", {"-", "1500"}}, {"5", {"-", "1500"}}, {"\"[1]\"", {"-", "1500"}}};
        auto i = t.find(arg);
        if (i == t.end()) return {Bad};
        if (i->second[g] == "-") return {Null};
        return {Ok, i->second[g]};
      }
      return {Sym};
    }
    for (int k = 0; k < ops::Count; ++k)
      if (op == ops::Libs[k].op && files["@" + op] == p[0]) {
        if (arg.empty() || (arg != "5" && (arg[0] != '[' || arg.back() != ']'))) return {Bad};
        if ((k == ops::OpJson && arg.find("parse") == string::npos) || (k == ops::OpReverse && (arg == "[1]" || arg == "[]"))) return {Open};   // see E05
        if (g) return {Ok, std::to_string(ops::gas(k, arg))};
        string out;
        return ops::run(k, arg, out) ? Want{Ok, out} : Want{Null};
      }
    return {Sym};
  }
  void check(mc::Explorer& ex, int tool, const Args& a, int how = 0) {
    Want w = want(tool, a);
    if (w.kind == Open) { ex.skip(); return; }
    Out r = run(tool, a, how);
    string text = tool ? "eni_gas" : "eni_run";
    for (size_t i = 0; i < a.size() && i < 30; ++i) text += " '" + mc::esc(mc::cut(a[i], 60)) + "'";
    if (a.size() > 30) text += mc::fmt(" ... (%zu arguments)", a.size());
    if (how) text += how == 1 ? " >&-" : " >/dev/full";
    if (!WIFEXITED(r.status)) mc::fail(text + mc::fmt(": ended by signal %d", WTERMSIG(r.status)));
    int st = WEXITSTATUS(r.status);
    auto bad = [&](const string& m) { mc::fail(text + ": " + m + mc::fmt(" (status %d, standard output \"", st) + mc::esc(mc::cut(r.out)) + "\")"); };
    ex.transitions();
    if (w.kind == Ok && how == 0) {
      if (st != 0) bad("fails");
      if (r.out != w.out + "\n") bad("prints something else than " + mc::esc(mc::cut(w.out)));
    } else {
      if (!r.out.empty()) bad("prints on standard output though it fails");
      if (st == 0) bad("status 0 though it fails");
      if (w.kind == Load && st != 3) bad("status is not 3 for an unloadable library");
      if (w.kind == Sym && st != 4) bad("status is not 4 for a missing operation");
      if (w.kind == LoadOrSym && st != 3 && st != 4) bad("status is not 3 or 4 for an empty path");
      if (w.kind == Null && st != 5) bad("status is not 5 for an operation without result");
      if (w.kind == Bad && st != 87) bad("status is not 87 for malformed JSON");
      if (w.kind == Usage)
        for (const char* m : {"NAME", "SYNOPSIS", "DESCRIPTION", "LIBPATH", "OP", "JSON", tool ? "eni_gas" : "eni_run"})
          if (r.err.find(m) == string::npos) bad(string("the manual on standard error lacks ") + m);
    }
    if (r.log != w.log) bad("executed \"" + mc::esc(mc::cut(r.log)) + "\" instead of \"" + mc::esc(mc::cut(w.log)) + "\"");
    ex.count(w.kind == Ok ? "successes" : "failures");
    ex.traces();
  }
  Args subst(const string& c) {
    Args r;
    if (c.empty()) return r;
    for (auto& s : mc::split(c.substr(1), '\x1f')) {
      if (s[0] == 2) { r.insert(r.end(), atoi(s.c_str() + 1), s.substr(s.find('*') + 1)); continue; }   // many times the same
      auto i = files.find(s); r.push_back(i == files.end() ? mc::unesc(s) : i->second); }
    return r;
  }
  void exec(mc::Explorer& ex, const string& c) override {
    int tool = c[0] - '0', how = c[1] - '0';
    check(ex, tool, subst(c.substr(2)), how);
    ex.state(mc::hash(c));
  }
  void enumerate(mc::Explorer& ex) override {
    // one argument starts with \x1f; none at all is the empty text
    auto go = [&](const Args& a, int how = 0) { string s; for (auto& x : a) s += "\x1f" + x; for (int t = 0; t < 2; ++t) ex.all(mc::fmt("%d%d", t, how) + s); };
    auto words = [&](const Args& alpha, int lo, int hi) {
      std::function<void(Args&)> rec = [&](Args& a) {
        if ((int)a.size() >= lo) go(a);
        if ((int)a.size() < hi) for (auto& w : alpha) { a.push_back(w); rec(a); a.pop_back(); }
      };
      Args a;
      rec(a);
    };
    words({"@T", "echo", "[1]", "-", "--", "-x", "---", "--echo", "", "a b"}, 0, ex.tier(3, 4));
    words({"@T", "echo", "--", "-x", ""}, ex.tier(4, 5), ex.tier(5, 6));
    if (!ex.thorough()) words({"@T", "echo", "--", "-", "--help", "-h"}, 4, 4);
    // well-formed vectors with options at every place, and the end of options
    const Args opts = {"-x", "-", "--help", "--", "-h", "--version", "-v", "--lib=x", "-1", "---"};
    for (auto& o : opts) for (auto& o2 : opts) for (int i = 0; i <= 3; ++i) for (int j = i; j <= 3; ++j) {
      Args a = {"@T", "echo", "[1]"};
      a.insert(a.begin() + j, o2);
      a.insert(a.begin() + i, o);
      go(a);
    }
    // very many arguments
    for (int n : {100, 127, 128, 250, 252, 253, 254, 255, 256, 257, 1000, 32763, 32764, 32765, 32768, 40000, 65531, 65532, 65533, 65536, 70000}) for (const char* w : {"-", "-x", "--", "x", ""}) {
      string many = mc::fmt("\x02%d*%s", n, w);
      go({many});
      for (int i = 0; i <= 3; ++i) { Args a = {"@T", "echo", "[1]"}; a.insert(a.begin() + i, many); go(a); if (i) { a.erase(a.begin()); go(a); } }
    }
    // every outcome
    const Args libs = {"@T", "@nofile", "@dir", "@text", "@empty", "@null", "@noread", "@rel", "@long", "@spaces", "", "libnone.so", "@reverse", "@scrypt", "@rsa_encrypt", "@json"};
    const Args names = {"echo", "none", "onlyrun", "onlygas", "num", "list", "", "nope", "echo_run", "ech", "echo ", " echo", "ECHO", "long", "reverse", "scrypt", "rsa_encrypt", "rsa_decrypt", "json", "echo\n", string(5000, 'n')};
    const Args texts = {"[1]", "", "5"};
    for (auto& l : libs) for (auto& n : names) for (auto& t : texts) {
      go({l, n, t});
      if (t == "[1]") { go({"--", l, n, t}); go({l, n, t, "extra"}); }
    }
    for (const char* t : {"[]", "[1]", "[true,2]", "[\"no\"]", "[false]", "{}", "7", "\"[1]\"", "", " ", "[", "]", "[1", "[1,]", "{\"a\":}", "nul", "[\"a]", "tru", "\xff", "[\"\\\\", "{", "[[[[", "--"})
      go({"--", "@T", "list", mc::esc(t)});
    // texts: every byte, many lengths, results with anything in them
    for (int b = 1; b < 256; ++b) { string s(1, (char)b); go({"--", "@T", "echo", mc::esc(s)}); go({"--", "@T", "echo", mc::esc("x" + s)}); }
    for (int n = 0; n <= ex.tier(300, 2000); ++n) go({"--", "@T", "echo", string(n, 'z')});
    for (int n : {1000, 4095, 4096, 4097, 65535, 65536, 100000, 131000}) go({"@T", "echo", string(n, 'q')});
    for (const char* n : {"0", "1", "7", "8", "9", "10", "100", "1023", "1024", "1025", "4096", "65535", "65536", "65537", "1000000"}) go({"@T", "long", n});
    for (int k = 0; k < 64; ++k) for (int d = -1; d <= 1; ++d) go({"@T", "num", std::to_string((1ull << k) + d)});
    for (const char* n : {"18446744073709551615", "9999999999", "1000000", "1000", "100", "4294967296"}) go({"@T", "num", n});
    // the bundled operations
    for (const char* s : {"[\"\"]", "[\"abc\"]", "[\"a\\u0000b\"]", "[\"a\\\"b\\\\n\"]", "[\"00ff\"]", "[\"Zz\"]", "[\"123\"]", "[]", "[1]", "", "x", "[\"a\""})
      for (const char* op : {"reverse", "scrypt"}) if (strcmp(op, "reverse") || !(!strcmp(s, "[]") || !strcmp(s, "[1]"))) go({string("@") + op, op, mc::esc(s)});
    go({"@rsa_encrypt", "rsa_encrypt", mc::esc(ops::list({ops::quote(pub), "\"hello\""}))});
    go({"@rsa_encrypt", "rsa_encrypt", mc::esc(ops::list({ops::quote(priv), "\"hello\""}))});
    go({"@rsa_encrypt", "rsa_encrypt", mc::esc(ops::list({ops::quote(pub), ops::quote(string(65, 'x'))}))});
    go({"@rsa_decrypt", "rsa_decrypt", mc::esc(ops::list({ops::quote(priv), ops::quote(string(128, '0'))}))});
    go({"@rsa_decrypt", "rsa_decrypt", mc::esc(ops::list({ops::quote(priv), ops::quote(string(128, 'f'))}))});
    go({"@rsa_decrypt", "rsa_decrypt", "[1,2]"});
    go({"@json", "json", mc::esc("[\"parseArray\",\"[1,2]\",0,5]")});
    // standard output that cannot be written
    for (int how = 1; how <= 2; ++how) {
      for (const char* n : {"echo", "none", "num", "nope", "list"}) go({"@T", n, "[1]"}, how);
      go({"@T"}, how);
      go({"@nofile", "echo", "1"}, how);
      go({"@T", "long", "100000"}, how);
    }
  }
};
MC_MAIN(H)
