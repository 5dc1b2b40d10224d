// S01: the consensus test as a process, with an eni_run of ours whose
// outcomes follow a plan: all sequences of outcomes, all descriptions.
#include "mc.hpp"
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using std::string;
typedef std::vector<string> Args;

struct Outcome { int status; string out, err; };       // status -11: ended by that signal
static Outcome outcome(char c) {
  switch (c) {
    case '0': return {0, "x\n", ""};
    case '1': return {0, "y\n", ""};
    case '2': return {1, "x\n", ""};
    case '3': return {0, "x\n", "w\n"};
    case '4': return {0, "", ""};
    case '5': return {-11, "", ""};
    case '6': return {0, "x", ""};
    case '7': return {0, "x\n", "v\n"};
    case '8': return {139, "", ""};
    case '9': return {0, string(100000, 'q') + "1\n", ""};
    case 'a': return {0, string(100000, 'q') + "2\n", ""};
    case 'b': return {0, "\xc3\xa9\n", ""};
    case 'c': return {0, " x\n", ""};
    case 'd': return {0, "x\r\n", ""};
    case 'e': return {-6, "", ""};
    case 'g': return {11, "", ""};
    default: return {0, "\xff\n", ""};                 // f: not UTF-8
  }
}
static string slurp(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void put(const string& f, const string& s) { std::ofstream o(f, std::ios::binary); o << s; }
// what is run instead of eni_run
static int stub(int argc, char** argv) {
  string dir = getenv("S_DIR"), rec = std::to_string(argc);
  for (int i = 1; i < argc; ++i) rec += "\x1f" + string(argv[i]);
  rec += "\x1e";
  int f = open((dir + "/log").c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600);
  (void)!write(f, rec.data(), rec.size());
  close(f);
  string op = argc > 2 ? argv[2] : "", plan = slurp(dir + "/plan." + op), n = slurp(dir + "/count." + op);
  size_t k = n.size();
  put(dir + "/count." + op, n + "x");
  if (plan.empty()) return 99;
  Outcome o = outcome(plan[std::min(k, plan.size() - 1)]);
  for (size_t at = 0; at < o.out.size();) { ssize_t w = write(1, o.out.data() + at, o.out.size() - at); if (w <= 0) break; at += w; }
  (void)!write(2, o.err.data(), o.err.size());
  if (o.status < 0) { signal(-o.status, SIG_DFL); raise(-o.status); }
  return o.status;
}

struct Desc { const char* text; int kind; string want; };   // kind: 0 exact, 1 letters and digits, 2 hexadecimal digits, 3 cannot be expanded
struct H : mc::Harness {
  const char* rule() override { return "sequences of outcomes of the runs of one or two cases x number of repetitions, and lists of argument descriptions; distinct by case"; }
  double hangSeconds() override { return 60; }
  string dir, base, known;
  std::vector<Desc> descs;
  pid_t dirOf = 0;
  void place() {                                        // each process works in a folder of its own
    if (dirOf == getpid()) return;
    dirOf = getpid();
    char cwd[4096], self[4096];
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    self[n] = 0;
    if (base.empty()) base = getcwd(cwd, sizeof cwd);
    dir = base + mc::fmt("/s%d", getpid());
    mkdir(dir.c_str(), 0700);
    mkdir((dir + "/bin").c_str(), 0700);
    (void)!symlink(self, (dir + "/bin/eni_run").c_str());
    put(dir + "/plain", "abc");
    put(dir + "/lines", "-----BEGIN\nabc+/=\n  x\n-----END\n\n\n");
    put(dir + "/empty", "");
    put(dir + "/spaces", "\n \tx \t\n");
    put(dir + "/quote", "a\"b");
  }
  void init() override {
    const char* k = getenv("VERIF_KNOWN");
    known = k ? k : "";
    descs = {{"s:0", 1, "0"}, {"s:1", 1, "1"}, {"s:32", 1, "32"}, {"h:0", 2, "0"}, {"h:1", 2, "1"}, {"h:160", 2, "160"}, {"f:@/plain", 0, "abc"}, {"f:@/lines", 0, "-----BEGIN\nabc+/=\n  x\n-----END"}, {"f:@/empty", 0, ""}, {"f:@/spaces", 0, "\n \tx \t"},
             {"f:@/none", 3, ""}, {"x:3", 3, ""}, {"s:", 3, ""}, {"h:q", 3, ""}, {"", 3, ""}, {"S:3", 3, ""}};
  }
  struct Result { int status; std::map<string, std::vector<Args>> runs; };
  // runs the consensus test on a description, with the outcomes planned for each operation
  Result run(const string& list, const Args& options, const std::map<string, string>& plans, bool givesList = true) {
    ::unlink((dir + "/log").c_str());
    for (int i = 0; i < 4; ++i) { ::unlink((dir + mc::fmt("/plan.c%d", i)).c_str()); ::unlink((dir + mc::fmt("/count.c%d", i)).c_str()); }
    for (auto& p : plans) put(dir + "/plan." + p.first, p.second);
    put(dir + "/list.json", list);
    Args a = {"python3", string(REPO_DIR) + "/test/consensus/consensus.py"};
    for (auto& o : options) a.push_back(o);
    if (givesList) a.push_back(dir + "/list.json");
    std::vector<char*> v, e;
    for (auto& s : a) v.push_back((char*)s.c_str());
    v.push_back(nullptr);
    string path = "PATH=" + dir + "/bin:" + getenv("PATH"), sd = "S_DIR=" + dir;
    for (auto s : {path.c_str(), sd.c_str(), "PYTHONDONTWRITEBYTECODE=1", "LANG=C.utf8"}) e.push_back((char*)s);
    e.push_back(nullptr);
    fflush(nullptr);
    pid_t p = fork();
    if (!p) {
      int n = open("/dev/null", O_RDWR);
      dup2(n, 0); dup2(n, 1); dup2(n, 2);
      (void)!chdir(dir.c_str());
      alarm(50);
      execvpe("python3", v.data(), e.data());
      _exit(126);
    }
    Result r;
    waitpid(p, &r.status, 0);
    for (auto& rec : mc::split(slurp(dir + "/log"), '\x1e')) {
      if (rec.empty()) continue;
      Args f = mc::split(rec, '\x1f');
      if (f[0] != "4") mc::fail("eni_run was started with " + std::to_string(atoi(f[0].c_str()) - 1) + " arguments");
      f.erase(f.begin());
      r.runs[f[1]].push_back(f);
    }
    return r;
  }
  void verdict(const Result& r, bool good, const string& what) {
    if (!WIFEXITED(r.status)) mc::fail(what + ": ended by a signal");
    if ((WEXITSTATUS(r.status) == 0) != good) mc::fail(what + mc::fmt(": exit status %d though it should %s", WEXITSTATUS(r.status), good ? "pass" : "fail"));
  }
  // every run got the library, the operation and the same argument text
  void same(const std::vector<Args>& runs, const string& lib, const string& what) {
    for (auto& a : runs) {
      if (a[0] != lib) mc::fail(what + ": ran the library " + a[0] + " instead of " + lib);
      if (a[2] != runs[0][2]) mc::fail(what + ": the repetitions got different arguments");
    }
  }
  static string plan(const string& p, size_t n, size_t& least, size_t& most, bool& agree) {
    agree = true;
    most = n;
    least = n;
    auto eq = [](char a, char b) { Outcome x = outcome(a), y = outcome(b); return x.status == y.status && x.out == y.out && x.err == y.err; };
    for (size_t i = 1; i < n; ++i) if (!eq(p[0], p[i])) { agree = false; least = std::min(least, i + 1); }
    return p;
  }
  void exec(mc::Explorer& ex, const string& c) override {
    place();
    ex.state(mc::hash(c));
    ex.traces();
    std::vector<string> f = mc::split(c, ' ');
    if (c[0] == 'P') {                                 // P <n or -> <plan> [<plan> ...]
      size_t n = f[1] == "-" ? 3 : atoi(f[1].c_str());
      string list = "{";
      std::map<string, string> plans;
      bool good = true, bytes = false;
      std::vector<size_t> least, most;
      // two operations of one library, the third one of another
      for (size_t i = 2; i < f.size(); ++i) {
        size_t l, m; bool a;
        plans["c" + std::to_string(i - 2)] = plan(f[i], n, l, m, a);
        good &= a;
        bytes |= f[i].find('f') != string::npos;
        least.push_back(l); most.push_back(m);
        list += i == 2 ? "\"/l one\": [" : i == 3 ? "," : i == 4 ? "], \"/l2\": [" : ",";
        list += mc::fmt("[\"c%zu\", \"s:5\"]", i - 2);
      }
      list += f.size() > 2 ? "]}" : "}";
      Result r = run(list, f[1] == "-" ? Args{} : Args{"-n", f[1]}, plans);
      if (bytes && good) {
        // known: output that is not UTF-8
        if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0) return;
        string id = "output that is not UTF-8";
        if (known.find(id + ":") == string::npos) mc::fail(id + " makes the consensus test fail though all runs agree");
        ex.count("known_findings_seen");
        if (ex.state(mc::hash(id))) printf("KNOWN-FINDING: property=S01 %s: the test fails though all runs agree\n", id.c_str());
        return;
      }
      verdict(r, good, c);
      for (size_t i = 0; i < most.size(); ++i) {
        auto& runs = r.runs["c" + std::to_string(i)];
        if (bytes) continue;
        if (runs.size() < least[i] || runs.size() > most[i]) mc::fail(c + mc::fmt(": case %zu was run %zu times", i, runs.size()));
        same(runs, i < 2 ? "/l one" : "/l2", c);
        if (runs.empty()) continue;
        expanded(runs[0][2], {descs[1]}, "5", c);
      }
      ex.transitions(n);
      return;
    }
    if (c[0] == 'A') {                                 // A <descriptions>, then a second case
      std::vector<Desc> d;
      string args;
      bool good = true;
      for (size_t i = 1; i < f.size(); ++i) {
        d.push_back(descs[atoi(f[i].c_str())]);
        string t = d.back().text;
        if (t.find('@') != string::npos) t = t.substr(0, 2) + dir + t.substr(3);
        args += ", \"" + t + "\"";
        good &= d.back().kind != 3;
      }
      Result r = run("{\"/lib\": [[\"c0\"" + args + "], [\"c1\", \"h:7\"]]}", {"-n", "2"}, {{"c0", "0"}, {"c1", "0"}});
      string what = "arguments";
      for (auto& x : d) what += string(" ") + x.text;
      verdict(r, good, what);
      if (r.runs["c0"].size() != (good ? 2u : 0u)) mc::fail(what + mc::fmt(": run %zu times", r.runs["c0"].size()));
      if (r.runs["c1"].size() != 2) mc::fail(what + ": the next case was not run");
      same(r.runs["c0"], "/lib", what);
      if (good) expanded(r.runs["c0"][0][2], d, "", what);
      ex.transitions(2);
      return;
    }
    if (c == "Q") {                                    // a file with a quote
      Result r = run("{\"/lib\": [[\"c0\", \"f:" + dir + "/quote\"]]}", {}, {{"c0", "0"}});
      if (r.runs["c0"].size() == 3 && r.runs["c0"][0][2] == "[\"a\\\"b\"]") return;
      string id = "a file with a quotation mark";
      if (known.find(id + ":") == string::npos) mc::fail(id + " is not passed on as the text it holds");
      ex.count("known_findings_seen");
      printf("KNOWN-FINDING: property=S01 %s: it is not passed on as the text it holds\n", id.c_str());
      return;
    }
    // U <which>: requests that cannot be met, and empty lists
    static const struct { const char* list; Args options; bool good, list2; int runs; } U[] = {
      {"{}", {}, true, true, 0}, {"{\"/l\": []}", {}, true, true, 0}, {"{\"/l\": [], \"/m\": [[\"c0\"]]}", {}, true, true, 3},
      {"{\"/l\": [[]]}", {}, false, true, 0}, {"{\"/l\": [[], [\"c0\"]]}", {}, false, true, 3}, {"{\"/l\": [[\"c0\", 5]]}", {}, false, true, 0}, {"{\"/l\": [[\"c0\", null]]}", {}, false, true, 0},
      {"{\"/l\": [[\"c0\"]]", {}, false, true, 0}, {"", {}, false, true, 0}, {"{\"/l\": [[\"c0\"]]}", {"-n", "1"}, false, true, 0}, {"{\"/l\": [[\"c0\"]]}", {"-n", "0"}, false, true, 0},
      {"{\"/l\": [[\"c0\"]]}", {"-n", "-1"}, false, true, 0}, {"{\"/l\": [[\"c0\"]]}", {"-n", "two"}, false, true, 0}, {"{\"/l\": [[\"c0\"]]}", {"-n"}, false, true, 0}, {"{\"/l\": [[\"c0\"]]}", {"--none"}, false, true, 0},
      {"{\"/l\": [[\"c0\"]]}", {}, false, false, 0}, {"{\"/l\": [[\"c0\"]]}", {"/nonexistent/list"}, false, false, 0}, {"{\"/l\": [[\"c0\"]]}", {"-n", "2", "/nonexistent/list"}, false, true, 0},
      {"{\"/l\": [[\"c0\"]]}", {"-n", "40"}, true, true, 40}, {"{\"/l\": [[\"c0\"]]}", {"-n", "300"}, true, true, 300}, {"{\"/l\": [[\"c0\"]]}", {}, true, true, 3}};
    size_t i = atoi(f[1].c_str());
    if (i >= sizeof U / sizeof *U) { ex.skip(); return; }
    Result r = run(U[i].list, U[i].options, {{"c0", "0"}}, U[i].list2);
    string what = string(U[i].list);
    for (auto& o : U[i].options) what += " " + o;
    verdict(r, U[i].good, what);
    if ((int)r.runs["c0"].size() != U[i].runs) mc::fail(what + mc::fmt(": %zu runs", r.runs["c0"].size()));
  }
  // the text holds the strings described
  void expanded(const string& text, const std::vector<Desc>& d, const string& len, const string& what) {
    auto bad = [&]() { mc::fail(what + ": the argument text is " + mc::esc(mc::cut(text))); };
    size_t at = 0;
    auto take = [&](const string& s) { if (text.compare(at, s.size(), s)) bad(); at += s.size(); };
    take("[");
    for (size_t i = 0; i < d.size(); ++i) {
      if (i) take(",");
      take("\"");
      if (d[i].kind == 0) take(d[i].want);
      else
        for (int n = atoi(len.empty() ? d[i].want.c_str() : len.c_str()); n > 0; --n, ++at) {
          char c = at < text.size() ? text[at] : 0;
          if (d[i].kind == 1 ? !isalnum((unsigned char)c) : !isxdigit((unsigned char)c)) bad();
        }
      take("\"");
    }
    take("]");
    if (at != text.size()) bad();
  }
  void enumerate(mc::Explorer& ex) override {
    for (int i = 0; i < 30; ++i) ex.all(mc::fmt("U %d", i));
    ex.all("Q");
    std::function<void(const string&, const string&, size_t, const string&)> words = [&](const string& head, const string& alpha, size_t n, const string& w) {
      if (w.size() == n) { ex.all(head + w); return; }
      for (char a : alpha) words(head, alpha, n, w + a);
    };
    words("P 2 ", "0123456789abcdefg", 2, "");
    words("P 3 ", ex.thorough() ? "0123456789abcde" : "0123458", 3, "");
    words("P - ", "0123", 3, "");
    words("P 4 ", ex.thorough() ? "01234" : "012", 4, "");
    words("P 5 ", "01", 5, "");
    if (ex.thorough()) words("P 8 ", "01", 8, "");
    for (char a : string("0123")) for (char b : string("0123")) words(string("P 2 ") + a + b + " ", "0123", 2, "");
    for (int m = 0; m < 64; ++m) ex.all(mc::fmt("P 2 %d%d %d%d %d%d", m & 1, m >> 1 & 1, m >> 2 & 1, m >> 3 & 1, m >> 4 & 1, m >> 5 & 1));
    for (size_t n : {10, 50}) for (size_t i = 0; i <= n; ++i) { string p(n, '0'); if (i < n) p[i] = '1'; ex.all(mc::fmt("P %zu ", n) + p); }
    int D = (int)descs.size();
    ex.all("A");
    for (int a = 0; a < D; ++a) {
      ex.all(mc::fmt("A %d", a));
      for (int b = 0; b < D; ++b) {
        ex.all(mc::fmt("A %d %d", a, b));
        if (ex.thorough() || (a < 10 && b < 10)) for (int d = 0; d < (ex.thorough() ? D : 10); ++d) ex.all(mc::fmt("A %d %d %d", a, b, d));
      }
    }
  }
};
int main(int argc, char** argv) {
  const char* s = strrchr(argv[0], '/');
  if (getenv("S_DIR") && !strcmp(s ? s + 1 : argv[0], "eni_run")) return stub(argc, argv);
  H h;
  return mc::Supervisor().main(argc, argv, h);
}
