// E03: the answers of the operations in every environment of a product of
// factors, each in a process of its own, and after every history of calls.
#include "ops.hpp"
#include <fenv.h>
#include <locale>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <termios.h>
using std::string;

struct Input { int op; string text; };
static ops::GasFn* listGas;
static ops::RunFn* listRun;
enum { List = ops::Count };

static std::vector<Input> inputs() {
  using namespace ops;
  std::vector<Input> r;
  auto K = [](const char* n) { return quote(key(n)); };
  for (const char* s : {"", "a", "hello", "0123456789abcde", "0123456789abcdef", "\\\"\\\\\\n\\u0001", "\\u0000\\u0000x", "\xc3\xa9\x80\xff"}) r.push_back({OpReverse, string("[\"") + s + "\"]"});
  r.push_back({OpReverse, "[\"" + string(5000, 'z') + "\",1,{\"a\":[true]}]"});
  r.push_back({OpReverse, " [ \"sp\" , {\"b\" : -12 , \"a\" : \"\" } ] "});
  for (const char* s : {"", "0", "00", "ff", "FF", "123", "0123456789abcdefABCDEF", "zz", "g", "-1", "0x"}) r.push_back({OpScrypt, string("[\"") + s + "\"]"});
  for (int n : {159, 160, 161, 31, 32, 33}) r.push_back({OpScrypt, list({quote(string(n, 'd'))})});
  r.push_back({OpScrypt, "[]"}); r.push_back({OpScrypt, "[1]"}); r.push_back({OpScrypt, "{}"}); r.push_back({OpScrypt, "5"});
  for (const char* k : {"k512-3.pub", "k513-65537.pub", "k1024-65537.pub", "k1025-3.pub", "k512-3.priv", "ec.pub", "rsapub.pem", "enc.priv", "enc.p8"})
    for (const char* m : {"", "m", "hello world"}) r.push_back({OpEnc, list({K(k), quote(m)})});
  for (int n : {15, 16, 63, 64, 65}) r.push_back({OpEnc, list({K("k512-3.pub"), quote(string(n, 'x'))})});
  r.push_back({OpEnc, list({K("k512-3.pub"), quote(string(64, (char)0xff))})});
  r.push_back({OpEnc, list({K("k512-3.pub")})}); r.push_back({OpEnc, "[\"\",\"\"]"}); r.push_back({OpEnc, "[true,false]"});
  for (const char* k : {"k512-3.priv", "k513-65537.p8", "k1024-65537.p8", "k512-3.pub", "ec.priv", "enc.priv", "enc.p8"})
    for (int n : {0, 2, 32, 128}) r.push_back({OpDec, list({K(k), quote(string(n, '1'))})});
  for (int n : {126, 127, 129, 130}) r.push_back({OpDec, list({K("k512-3.priv"), quote(string(n, '0'))})});
  r.push_back({OpDec, list({K("k512-3.priv"), quote(string(128, 'f'))})}); r.push_back({OpDec, list({K("k512-3.priv"), quote(string(128, 'g'))})}); r.push_back({OpDec, list({K("k512-3.priv"), "1"})});
  for (const char* t : {"[\"parseArray\",\"[1,[2,3],{},\\\"x\\\"]\",0,16]", "[\"arrayGet\",\"[1,[2,3]]\",0,9,1]", "[\"objectGet\",\"{\\\"a\\\":1,\\\"b\\\":[2]}\",0,15,\"b\"]", "[\"parseString\",\" \\\"abc\\\" \",1,5]", "[\"none\",\"\",0,0]"})
    r.push_back({OpJson, t});
  // everything the library parses and prints
  for (const char* t : {"[]", "[1]", "[true,false]", "[0,-1,10,-999999999,123456789012345678901234567890]", "[57896044618658097711785492504343953926634992332820282019728792003956564819967,-57896044618658097711785492504343953926634992332820282019728792003956564819967]",
                        "[1,\"\",\"\\\"\\\\\\u0001\\u001f\\u007f\"]", "[{}]", "[{\"a\":1}]", "[{\"z\":1,\"y\":2,\"x\":3,\"w\":4,\"v\":5,\"u\":6,\"t\":7,\"s\":8,\"r\":9,\"q\":10,\"p\":11,\"o\":12}]",
                        "[{\"a\":{\"b\":{\"c\":[1,2,{\"d\":true}]}}},[[[[]]]]]", "[{\"k\":1,\"k\":2}]", "[{\"\":1,\" \":2,\"\\n\":3}]", "[true,{\"true\":true,\"false\":false}]", "[\"refused\"]", "[false,1]", "[1000000,1000,100]", "[{\"\xc3\xa9\":1,\"e\":2}]"})
    r.push_back({List, t});
  { string o = "[1,{"; for (int i = 0; i < 128; ++i) o += (i ? ",\"" : "\"") + string(1, (char)(128 + i)) + "k" + string(i % 3, (char)(255 - i)) + "\":\"" + string(1, (char)(128 + i)) + "\""; r.push_back({List, o + "}]"}); }
  { string o = "[{"; for (int i = 0; i < 100; ++i) o += (i ? ",\"" : "\"") + std::to_string(i * 7919) + "\":" + std::to_string(i); r.push_back({List, o + "}]"}); }
  { string o = "["; for (int i = 0; i < 300; ++i) o += (i ? "," : "") + std::to_string(i * i); r.push_back({List, o + "]"}); }
  r.push_back({List, "[\"" + string(3000, 'q') + "\"]"});
  r.back().text.insert(1, "1,");
  // texts that end the process
  for (const char* t : {"", "[", "[1,", "[tru]", "{\"a\"}", "[\"\\x\"]", "]"}) { r.push_back({List, t}); r.push_back({OpScrypt, t}); r.push_back({OpEnc, t}); }
  return r;
}
static bool endsProcess(const Input& i) { return i.text.empty() || (i.text != "5" && i.text != "{}" && i.text != "]" && i.text[0] != ' ' && i.text.back() != ']') || i.text == "[tru]" || i.text == "{\"a\"}" || i.text == "[\"\\x\"]" || i.text == "]"; }

// inputs that end the process wherever they are asked (found out when the check starts)
static std::set<size_t> gEnds;
static bool ends(const std::vector<Input>& in, size_t i) { return endsProcess(in[i]) || gEnds.count(i); }

static void loadAll() {
  ops::load();
  const char* b = getenv("E_BUILD");
  void* h = dlopen((string(SO_DIR) + "/t_ops" + (b ? string("_") + b : string()) + ".so").c_str(), RTLD_NOW);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
  listGas = (ops::GasFn*)dlsym(h, "list_gas");
  listRun = (ops::RunFn*)dlsym(h, "list_run");
}
static __attribute__((noinline)) void paintStack(int how) {
  volatile unsigned char a[400000];
  for (size_t i = 0; i < sizeof a; ++i) a[i] = how == 1 ? 0xff : how == 2 ? (unsigned char)(i * 31 + 1) : 0;
}
// one answer, as text
static string answer(const Input& in, int stack, int offset) {
  std::vector<char> room(in.text.size() + 64);
  char* t = room.data() + offset;
  memcpy(t, in.text.c_str(), in.text.size() + 1);
  if (stack >= 0) paintStack(stack);
  uint64_t* g = in.op == List ? listGas(t) : ops::get(in.op).gas(t);
  string r = mc::fmt("gas %llu", g ? (unsigned long long)*g : 0ull);
  free(g);
  if (stack >= 0) paintStack(stack);
  errno = stack * 3;
  char* p = in.op == List ? listRun(t) : ops::get(in.op).run(t);
  r += p ? " result " + mc::esc(p) : string(" no result");
  free(p);
  return r;
}
static string forkedAnswer(const Input& in, int stack, int offset) {
  int st = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (!p) { close(2); answer(in, stack, offset); _exit(0); }
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return mc::fmt("status 0x%x", st);
}

enum { Fill, Place, Clock, Rand, Env, Stack, Locale, Stdin, Thread, Round, Order, Offset, Build, Process, Factors };
static const int Arity[Factors] = {5, 4, 4, 3, 3, 3, 4, 4, 2, 3, 3, 4, 4, 4};
static const char* const FactorName[Factors] = {"memory contents", "heap place", "clock", "random source", "environment variables and host", "stack contents", "locale", "standard input and terminal", "thread", "rounding mode", "order of calls", "offset of the text", "build of the libraries", "limits, files and signals of the process"};

struct Punct : std::numpunct<char> {
  string g; Punct(const char* s) : g(s) {}
  char do_thousands_sep() const override { return ','; }
  char do_decimal_point() const override { return ';'; }
  string do_grouping() const override { return g; }
  string do_truename() const override { return "yes"; }
  string do_falsename() const override { return "no"; }
};
struct Ctype : std::ctype<char> {
  static const mask* make() {
    static mask t[table_size];
    std::copy(classic_table(), classic_table() + table_size, t);
    t[0x80] = t[0xff] = alpha | lower | digit; t['x'] |= space; t['-'] |= digit;
    return t;
  }
  Ctype() : std::ctype<char>(make()) {}
  char do_tolower(char c) const override { return c == 'I' ? '\xfd' : std::ctype<char>::do_tolower(c); }
  char do_toupper(char c) const override { return c == 'i' ? '\xdd' : std::ctype<char>::do_toupper(c); }
};
static std::vector<int> gCfg;
static void onTick(int) {}
// where the process stands: folder, files, limits, signals
static void place(int how) {
  rlimit r;
  if (how == 1) {                                // nothing to write to, few files
    (void)!chdir("/");
    umask(0777);
    close(1);
    r = {64, 64}; setrlimit(RLIMIT_NOFILE, &r);
    r = {0, 0}; setrlimit(RLIMIT_FSIZE, &r); setrlimit(RLIMIT_CORE, &r);
    signal(SIGPIPE, SIG_IGN); signal(SIGXFSZ, SIG_IGN);
  } else if (how == 2) {                         // one processor, much open, output fails
    (void)!chdir("/dev");
    umask(0);
    int f = open("/dev/full", O_WRONLY);
    dup2(f, 1);
    for (int i = 0; i < 300; ++i) (void)!dup(f);
    cpu_set_t one; CPU_ZERO(&one);
    cpu_set_t may; CPU_ZERO(&may);
    sched_getaffinity(0, sizeof may, &may);
    for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &may)) { CPU_SET(i, &one); break; }
    sched_setaffinity(0, sizeof one, &one);
    (void)!nice(3);
  } else if (how == 3) {                         // signals keep arriving, blocked ones wait
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_handler = onTick;                       // without SA_RESTART
    sigaction(SIGPROF, &a, nullptr); sigaction(SIGUSR1, &a, nullptr);
    sigset_t m; sigemptyset(&m); sigaddset(&m, SIGUSR1); sigaddset(&m, SIGTERM);
    sigprocmask(SIG_BLOCK, &m, nullptr);
    raise(SIGUSR1);
    itimerval t = {{0, 500}, {0, 500}};
    setitimer(ITIMER_PROF, &t, nullptr);
    int p[2];
    (void)!pipe(p);
    dup2(p[1], 1);                               // a pipe nobody reads
  }
}
static void* probeBody(void*) {
  std::vector<Input> in = inputs();
  std::vector<string> out(in.size());
  size_t n = in.size(), step = gCfg[Order] == 2 ? 37 : 1;
  while (std::__gcd(n, step) != 1) ++step;
  if (gCfg[Round]) fesetround(gCfg[Round] == 1 ? FE_UPWARD : FE_TOWARDZERO);
  for (size_t k = 0; k < n; ++k) {
    size_t i = gCfg[Order] == 1 ? n - 1 - k : k * step % n;
    out[i] = ends(in, i) ? forkedAnswer(in[i], gCfg[Stack], gCfg[Offset]) : answer(in[i], gCfg[Stack], gCfg[Offset]);
  }
  fesetround(FE_TONEAREST);
  for (auto& s : out) {
    s += "\n";
    for (size_t k = 0; k < s.size(); ) { ssize_t w = write(5, s.data() + k, s.size() - k); if (w > 0) k += w; else if (errno != EINTR) break; }
  }
  return nullptr;
}
static int probe(const char* cfg) {
  gCfg.assign(Factors, 0);
  for (int i = 0; i < Factors; ++i) gCfg[i] = cfg[i] - '0';
  if (getenv("E_ENDS")) { for (auto& e : mc::split(getenv("E_ENDS"), ',')) if (!e.empty()) gEnds.insert(atoi(e.c_str())); unsetenv("E_ENDS"); }
  if (gCfg[Locale] == 1) setlocale(LC_ALL, "C.utf8");
  if (gCfg[Locale] == 2) std::locale::global(std::locale(std::locale(std::locale::classic(), new Punct("\1")), new Ctype));
  if (gCfg[Locale] == 3) std::locale::global(std::locale(std::locale::classic(), new Punct("\3")));
  place(gCfg[Process]);
  loadAll();
  if (gCfg[Thread]) { pthread_t t; pthread_create(&t, nullptr, probeBody, nullptr); pthread_join(t, nullptr); }
  else probeBody(nullptr);
  return 0;
}

struct H : mc::Harness {
  const char* rule() override { return "environments: all assignments of the factors that differ from the plain one in a bounded number of factors; histories: all sequences of two (thorough: three) calls, one call repeated up to 70000 times, thousands of different ones in both orders; distinct by case"; }
  double hangSeconds() override { return 120; }
  std::vector<Input> in;
  std::vector<string> base;
  string bad;
  void init() override {
    loadAll();
    in = inputs();
    for (size_t i = 0; i < in.size(); ++i) if (!endsProcess(in[i]) && mc::forked([&]() -> int { close(2); answer(in[i], 0, 0); return 0; }, 30)) gEnds.insert(i);
    FILE* f = fopen("answers", "r");              // left by the first worker that made them
    string s;
    if (!f) {
      int st;
      s = runProbe(string(Factors, '0'), st);
      string tmp = mc::fmt("answers.%d", getpid());
      std::ofstream(tmp) << s;
      rename(tmp.c_str(), "answers");
    } else { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); }
    base = mc::split(s, '\n');
    base.pop_back();
    if (base.size() != in.size()) bad = "the inputs that are answered one by one end the process when they are asked one after the other";
  }
  string self = "/proc/self/exe";
  string runProbe(const string& cfg, int& st) {
    int o[2], pty = -1, inFd = -1;
    if (pipe(o)) _exit(3);
    string slave;
    if (cfg[Stdin] == '3') {
      pty = posix_openpt(O_RDWR | O_NOCTTY);
      grantpt(pty); unlockpt(pty);
      slave = ptsname(pty);
      termios t;
      tcgetattr(pty, &t);
      t.c_lflag &= ~ECHO;
      tcsetattr(pty, TCSANOW, &t);
      (void)!write(pty, "x\nx\nx\nx\n", 8);
    }
    if (cfg[Stdin] == '2') { int p[2]; (void)!pipe(p); for (int i = 0; i < 400; ++i) (void)!write(p[1], "x\n", 2); close(p[1]); inFd = p[0]; }
    fflush(nullptr);
    pid_t p = fork();
    if (!p) {
      setsid();
      if (cfg[Stdin] == '3') { int s = open(slave.c_str(), O_RDWR); ioctl(s, TIOCSCTTY, 0); dup2(s, 0); dup2(s, 2); }
      else if (cfg[Stdin] == '2') dup2(inFd, 0);
      else if (cfg[Stdin] == '1') close(0);
      else { int n = open("/dev/null", O_RDONLY); dup2(n, 0); }
      if (cfg[Stdin] != '3') { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
      int w = dup2(o[1], 5);
      (void)w;
      for (int i = 6; i < 64; ++i) close(i);
      string shim = string("LD_PRELOAD=") + SO_DIR + "/e_shim.so", conf = "E_SHIM=";
      for (int i : {Fill, Place, Clock, Rand, Env}) { conf += cfg[i]; conf += ' '; }
      std::vector<char*> env = {(char*)shim.c_str(), (char*)conf.c_str(), (char*)"PATH=/usr/bin:/bin"};
      if (cfg[Env] == '1') { env.push_back((char*)"LANG=tr_TR.UTF-8"); env.push_back((char*)"TZ=Asia/Taipei"); env.push_back((char*)"HOME=/nonexistent"); }
      if (cfg[Env] == '2') { env.push_back((char*)"LC_ALL=C.utf8"); env.push_back((char*)"POSIXLY_CORRECT=1"); }
      string libs = string("VERIF_LIBS=") + REPO_BUILD, build;
      if (cfg[Build] != '0') {
        build = string("E_BUILD=") + (cfg[Build] == '1' ? "fill" : cfg[Build] == '2' ? "opt" : "uchar");
        libs = libs.substr(0, libs.rfind('/') + 1) + build.substr(8);
        env.push_back((char*)libs.c_str());
        env.push_back((char*)build.c_str());
      }
      string list = "E_ENDS=";
      for (size_t i : gEnds) list += mc::fmt("%zu,", i);
      if (!gEnds.empty()) env.push_back((char*)list.c_str());
      env.push_back(nullptr);
      char* av[] = {(char*)"probe", (char*)"--probe", (char*)cfg.c_str(), nullptr};
      alarm(60);
      execve(self.c_str(), av, env.data());
      _exit(126);
    }
    close(o[1]);
    if (inFd >= 0) close(inFd);
    string r;
    char b[65536];
    ssize_t n;
    while ((n = read(o[0], b, sizeof b)) > 0) r.append(b, n);
    close(o[0]);
    waitpid(p, &st, 0);
    if (pty >= 0) close(pty);
    return r;
  }
  static string showCfg(const string& c) { string s; for (int i = 0; i < Factors; ++i) if (c[i] != '0') s += (s.empty() ? "" : ", ") + string(FactorName[i]) + " " + c[i]; return s.empty() ? "the plain environment again" : s; }
  void compare(size_t i, const string& got, const string& where) {
    if (got != base[i])
      mc::fail(mc::fmt("%s of %s in the environment [", in[i].op == List ? "list" : ops::Libs[in[i].op].op, mc::esc(mc::cut(in[i].text, 120)).c_str()) + where + "]: " + mc::cut(got, 300) + "; in the plain one: " + mc::cut(base[i], 300));
  }
  void exec(mc::Explorer& ex, const string& c) override {
    ex.state(mc::hash(c));
    ex.traces();
    if (!bad.empty()) mc::fail(bad);
    if (c[0] == 'E') {
      string cfg = c.substr(2);
      int st = 0;
      string out = runProbe(cfg, st);
      std::vector<string> a = mc::split(out, '\n');
      a.pop_back();
      if (a.size() != in.size()) mc::fail(mc::fmt("the process ends (wait status 0x%x) after %zu of %zu answers in the environment [", st, a.size(), in.size()) + showCfg(cfg) + "]");
      for (size_t i = 0; i < in.size(); ++i) { compare(i, a[i], showCfg(cfg)); ex.transitions(); }
      ex.count("processes");
      return;
    }
    int i, j = -1;
    sscanf(c.c_str() + 2, "%d %d", &i, &j);
    if (c[0] == 'R' || c[0] == 'D') return longHistory(ex, c[0], i, j);
    if (ends(in, i) || (j >= 0 && ends(in, j))) { ex.skip(); return; }
    string seen;
    int st = mc::forked([&]() -> int {
      close(2);
      size_t n = in.size();
      auto call = [&](size_t k, const string& where) { compare(k, answer(in[k], 0, 0), where); };
      try {
        for (size_t k = 0; k < n; ++k) {
          if (ends(in, k)) continue;
          if (j < 0) { call(i, "first call, repeated"); call(k, mc::fmt("after calls of input %d", i)); }
          else { call(i, "repeated"); call(j, mc::fmt("after input %d", i)); call(k, mc::fmt("after inputs %d, %d", i, j)); }
        }
      } catch (const mc::Violation& v) { printf("%s", v.msg.c_str()); return 1; }
      return 0;
    }, 100, &seen);
    if (st != 0) mc::fail(!seen.empty() ? seen : mc::fmt("a history of calls ends the process (wait status 0x%x)", st));
    ex.transitions(in.size() * (j < 0 ? 2 : 3));
  }
  // many calls in one process: one input again and again, or many different
  // ones, forwards and backwards in two processes
  static Input variant(int op, int i) {
    using namespace ops;
    static const string pub = quote(key("k512-3.pub")), priv = quote(key("k512-3.priv"));
    switch (op) {
      case OpReverse: return {op, list({quote(i % 2 ? mc::fmt("%d", i) : string(i % 200, 'r') + mc::fmt("%06d", i))})};
      case OpScrypt: return {op, list({quote(mc::fmt("%0*x", 1 + i % 160, i * 2654435761u))})};
      case OpEnc: return {op, list({pub, quote(mc::fmt("%d", i) + string(i % 50, 'e'))})};
      case OpDec: return {op, list({priv, quote(mc::fmt("%0*x", 128, i + 2))})};
      case OpJson: return {op, list({"\"arrayGet\"", quote(mc::fmt("[%d,[%d]]", i, i * 7)), "0", mc::fmt("%zu", mc::fmt("[%d,[%d]]", i, i * 7).size()), mc::fmt("%d", i % 2)})};
      default: return {op, i % 3 == 0 ? list({"1", mc::fmt("%d", i * 977)}) : i % 3 == 1 ? list({"1", quote(mc::fmt("s%d", i))}) : list({mc::fmt("{\"k%d\":[%d,true]}", i, -i)})};
    }
  }
  void longHistory(mc::Explorer& ex, char kind, int a, int count) {
    if (kind == 'R' && ends(in, a)) { ex.skip(); return; }
    std::vector<string> got[2];
    for (int back = 0; back < (kind == 'D' ? 2 : 1); ++back) {
      string seen;
      int st = mc::forked([&]() -> int {
        close(2);
        string all;
        for (int k = 0; k < count; ++k) {
          if (kind == 'R') {
            string s = answer(in[a], -1, 0);
            if (s != base[a]) { printf("call %d of the same input %d (%s): %s; the first time: %s", k, a, mc::esc(mc::cut(in[a].text, 100)).c_str(), mc::cut(s, 200).c_str(), mc::cut(base[a], 200).c_str()); return 1; }
          } else all += answer(variant(a, back ? count - 1 - k : k), -1, 0) + "\n";
        }
        fwrite(all.data(), 1, all.size(), stdout);
        return 0;
      }, 100, &seen);
      if (st != 0) mc::fail(kind == 'R' && !seen.empty() ? seen : mc::fmt("a history of %d calls of operation %d ends the process (wait status 0x%x)", count, a, st));
      got[back] = mc::split(seen, '\n');
      ex.transitions(count);
    }
    if (kind == 'D')
      for (int k = 0; k < count; ++k)
        if (got[0][k] != got[1][count - 1 - k])
          mc::fail(mc::fmt("%s of %s depends on the calls before: ", a == List ? "list" : ops::Libs[a].op, mc::esc(mc::cut(variant(a, k).text, 120)).c_str()) + mc::cut(got[0][k], 300) + " and " + mc::cut(got[1][count - 1 - k], 300));
  }
  void enumerate(mc::Explorer& ex) override {
    for (int op = 0; op <= List; ++op) ex.all(mc::fmt("D %d %d", op, op == ops::OpScrypt ? ex.tier(400, 6000) : op == ops::OpEnc || op == ops::OpDec ? ex.tier(2000, 40000) : ex.tier(12000, 200000)));
    for (int i = 0; i < (int)in.size(); ++i) {
      int op = in[i].op;
      bool cheap = in[i].text.size() < 300;
      ex.all(mc::fmt("R %d %d", i, op == ops::OpScrypt ? ex.tier(300, 5000) : op == ops::OpEnc || op == ops::OpDec ? ex.tier(600, 20000) : ex.tier(cheap ? 5000 : 600, 70000)));
    }
    for (int i : {1, 2, (int)in.size() - 22}) ex.all(mc::fmt("R %d 70000", i));
    int depth = ex.tier(2, 4);
    string c(Factors, '0');
    std::function<void(int, int)> rec = [&](int from, int left) {
      ex.all("E " + c);
      if (!left) return;
      for (int f = from; f < Factors; ++f) {
        for (int v = 1; v < Arity[f]; ++v) { c[f] = (char)('0' + v); rec(f + 1, left - 1); }
        c[f] = '0';
      }
    };
    rec(0, depth);
    // all combinations of what memory holds and where it is
    for (int a = 0; a < 5; ++a) for (int b = 0; b < 4; ++b) for (int s = 0; s < 3; ++s) for (int t = 0; t < 2; ++t) for (int o = 0; o < 3; ++o) {
      string m(Factors, '0');
      m[Fill] += a; m[Place] += b; m[Stack] += s; m[Thread] += t; m[Order] += o;
      int d = (a > 0) + (b > 0) + (s > 0) + (t > 0) + (o > 0);
      if (d > depth) ex.all("E " + m);
    }
    for (int i = 0; i < (int)in.size(); ++i) ex.all(mc::fmt("H %d", i));
    if (ex.thorough()) for (int i = 0; i < (int)in.size(); ++i) for (int j = 0; j < (int)in.size(); ++j) ex.all(mc::fmt("H %d %d", i, j));
  }
};
int main(int argc, char** argv) {
  if (argc == 3 && !strcmp(argv[1], "--probe")) return probe(argv[2]);
  H h;
  return mc::Supervisor().main(argc, argv, h);
}
