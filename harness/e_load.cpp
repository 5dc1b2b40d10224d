// E07: the operation libraries loaded, called and unloaded in every order, each
// sequence in a process of its own that had none of them before.
#include "mc.hpp"
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
using std::string;
typedef uint64_t* GasFn(char*);
typedef char* RunFn(char*);

static string file(const string& name) {
  std::ifstream f(string(VERIF_DIR) + "/data/" + name, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  string r;
  for (char c : s.str()) if (c == '\n') r += "\\n"; else r += c;
  return r;
}
struct Call { const char* op; string text; };
struct Lib { string path; std::vector<Call> calls; };
static std::vector<Lib> gLibs;
static std::vector<std::vector<string>> gWant;       // the answers of each library alone

static string answer(GasFn* g, RunFn* r, const string& text, std::vector<void*>& kept) {
  std::vector<char> t(text.begin(), text.end());
  t.push_back(0);
  uint64_t* p = g(t.data());
  char* q = r(t.data());
  kept.push_back(p); kept.push_back(q);
  return mc::fmt("gas %llu ", p ? (unsigned long long)*p : 0ull) + (q ? "result " + string(q) : string("no result"));
}

struct World {
  std::vector<std::vector<void*>> handles;
  struct Kept { uint64_t* g; char* r; uint64_t gv; string rv; string what; };
  std::vector<Kept> kept;
  std::vector<pthread_t> staying;                    // threads that end with the sequence
  pthread_barrier_t called;
  pthread_mutex_t stay = PTHREAD_MUTEX_INITIALIZER;
  World() : handles(gLibs.size()) {}
  [[noreturn]] void bad(const string& m) { printf("%s", m.c_str()); fflush(stdout); _exit(9); }
  void load(int k, char how) {
    int flags = how == 'g' ? RTLD_NOW | RTLD_GLOBAL : how == 'd' ? RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND : RTLD_LAZY | RTLD_LOCAL;
    void* h = dlopen(gLibs[k].path.c_str(), flags);
    if (!h) bad(string("a library cannot be loaded: ") + dlerror());
    handles[k].push_back(h);
  }
  bool occupy = false;                               // what is unloaded can only come back elsewhere
  static int ranges(dl_phdr_info* i, size_t, void* p) {
    uintptr_t lo = ~(uintptr_t)0, hi = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_LOAD) {
        lo = std::min<uintptr_t>(lo, (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr) & ~4095ul);
        hi = std::max<uintptr_t>(hi, (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ul);
      }
    if (lo < hi) ((std::vector<std::pair<uintptr_t, uintptr_t>>*)p)->push_back({lo, hi});
    return 0;
  }
  void unload(int k) {
    void* h = handles[k].back();
    handles[k].pop_back();
    std::vector<std::pair<uintptr_t, uintptr_t>> before;
    if (occupy) dl_iterate_phdr(ranges, &before);
    if (dlclose(h)) bad(string("a library cannot be unloaded: ") + dlerror());
    for (auto& r : before) mmap((void*)r.first, r.second - r.first, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  }
  void call(int k) {
    for (size_t i = 0; i < gLibs[k].calls.size(); ++i) {
      const Call& c = gLibs[k].calls[i];
      void* h = handles[k].back();
      GasFn* g = (GasFn*)dlsym(h, (string(c.op) + "_gas").c_str());
      RunFn* r = (RunFn*)dlsym(h, (string(c.op) + "_run").c_str());
      if (!g || !r) bad(string("the operation ") + c.op + " is not found");
      std::vector<void*> v;
      string a = answer(g, r, c.text, v);
      if (!gWant.empty() && a != gWant[k][i]) bad(string(c.op) + " of " + mc::esc(mc::cut(c.text, 60)) + " answers " + mc::esc(mc::cut(a)) + ", alone " + mc::esc(mc::cut(gWant[k][i])));
      if (gWant.empty()) { printf("%s", (mc::esc(a) + "\n").c_str()); fflush(stdout); }
      kept.push_back({(uint64_t*)v[0], (char*)v[1], v[0] ? *(uint64_t*)v[0] : 0, v[1] ? string((char*)v[1]) : "", c.op});
    }
  }
  void finish() {
    if (!staying.empty()) {
      pthread_mutex_unlock(&stay);
      for (pthread_t t : staying) pthread_join(t, nullptr);
    }
    for (Kept& k : kept) {
      if (k.g && *k.g != k.gv) bad("a price of " + k.what + " changed later");
      if (k.r && k.rv != k.r) bad("a result of " + k.what + " changed later");
      free(k.g);
      free(k.r);
    }
  }
  void step(int k, char op) {
    switch (op) {
      case 'l': case 'g': case 'd': load(k, op); break;
      case 'u': unload(k); break;
      case 'c': call(k); break;
      case 't': {                                    // called on a thread that ends at once
        struct A { World* w; int k; } a{this, k};
        pthread_t t;
        if (pthread_create(&t, nullptr, [](void* p) -> void* { A* a = (A*)p; a->w->call(a->k); return nullptr; }, &a)) bad("no thread");
        pthread_join(t, nullptr);
        break;
      }
      case 'h': {                                    // called on a thread that ends only with the sequence
        struct A { World* w; int k; } a{this, k};
        pthread_t t;
        if (staying.empty()) pthread_mutex_lock(&stay);
        pthread_barrier_init(&called, nullptr, 2);
        if (pthread_create(&t, nullptr, [](void* p) -> void* {
              A* a = (A*)p;
              World* w = a->w;
              w->call(a->k);
              pthread_barrier_wait(&w->called);
              pthread_mutex_lock(&w->stay);
              pthread_mutex_unlock(&w->stay);
              return nullptr;
            }, &a)) bad("no thread");
        pthread_barrier_wait(&called);
        staying.push_back(t);
        break;
      }
    }
  }
};

struct Load : mc::Harness {
  /// runs a sequence ("0l 1g 0c 0u") in a process of its own; normal end of the process included
  void sequence(mc::Explorer& ex, const string& seq) {
    one(ex, seq, false);
    size_t u = seq.find("u ");
    if (u != string::npos && u + 2 < seq.size()) one(ex, seq, true);
  }
  void one(mc::Explorer& ex, const string& seq, bool occupy) {
    if (ex.verbose()) ex.note(seq + (occupy ? ", unloaded places taken" : ""));
    string out;
    int st = mc::forked([&] {
      World w;
      w.occupy = occupy;
      for (size_t i = 0; i + 1 < seq.size(); i += 3) w.step(seq[i] - '0', seq[i + 1]);
      w.finish();
      printf("fine");
      fflush(stdout);
      exit(0);                                       // with the libraries' own ends
      return 0;
    }, 20, &out);
    if (st != 0 || out != "fine")
      mc::fail("libraries: " + seq + (occupy ? "(unloaded places taken by others): " : ": ") + (out == "fine" || out.empty() ? (st == -1 ? string("does not end") : mc::fmt("the process ended with status 0x%x", st)) : out));
    ex.transitions(seq.size() / 3);
    ex.traces();
    ex.beat();
  }
  void init() override {
    const string b = REPO_BUILD;
    gLibs = {{b + "/examples/eni/eni_reverse.so", {{"reverse", "[\"hello\"]"}, {"reverse", "[\"\\\"\\u0001\"]"}}},
             {b + "/tools/eni_scrypt/eni_scrypt.so", {{"scrypt", "[\"0aFF\"]"}, {"scrypt", "[\"zz\"]"}}},
             {b + "/tools/eni_crypto/eni_crypto.so", {{"rsa_encrypt", "[\"" + file("keys/k512-3.pub") + "\",\"message\"]"}, {"rsa_decrypt", "[\"" + file("keys/k512-3.priv") + "\",\"" + string(128, '1') + "\"]"}, {"rsa_encrypt", "[\"no key\",\"m\"]"}}},
             {b + "/examples/eni/eni_json.so", {{"json", "[\"arrayGet\",\"[1,[2,3]]\",0,9,1]"}, {"json", "[\"parseString\",\"\\\"ab\\\"\",0,4]"}}},
             {string(SO_DIR) + "/t_ops.so", {{"list", "[1,{\"a\":[true,\"x\"]},-5]"}, {"list", "[\"refused\"]"}}}};
    std::vector<std::vector<string>> want;
    for (size_t k = 0; k < gLibs.size(); ++k) {
      string out;
      int st = mc::forked([&] { World w; w.load(k, 'l'); w.call(k); exit(0); return 0; }, 20, &out);
      std::vector<string> a;
      for (const string& l : mc::split(out, '\n')) if (!l.empty()) a.push_back(mc::unesc(l));
      if (st || a.size() != gLibs[k].calls.size()) { fprintf(stderr, "the library %s does not work alone: status 0x%x %s\n", gLibs[k].path.c_str(), st, out.c_str()); }
      a.resize(gLibs[k].calls.size());
      want.push_back(a);
    }
    gWant = want;
  }
  void exec(mc::Explorer& ex, const string& c) override {
    std::vector<string> f = mc::split(c, ' ');
    if (f[0] == "s") {                               // s <libs> <depth> <handles> <prefix...>: all ways to go on
      const string libs = f[1];
      const int depth = atoi(f[2].c_str()), most = atoi(f[3].c_str());
      string pre;
      for (size_t i = 4; i < f.size(); ++i) if (!f[i].empty()) pre += f[i] + " ";
      std::function<void(string, int)> rec = [&](string s, int left) {
        int n[10] = {}, called = 0;
        for (size_t i = 0; i + 1 < s.size(); i += 3) { int k = s[i] - '0'; if (strchr("lgd", s[i + 1])) ++n[k]; else if (s[i + 1] == 'u') --n[k]; else called = 1; }
        if (!left) { if (called) { sequence(ex, s); ex.state(mc::hash(s)); } return; }
        for (char lc : libs) {
          int k = lc - '0';
          if (n[k] < most) for (char how : n[k] ? string("g") : most == 1 && k % 2 ? string("l") : string("lg")) rec(s + lc + how + " ", left - 1);
          if (n[k]) { if (s.empty() || s[s.size() - 2] != 'c' || s[s.size() - 3] != lc) rec(s + lc + "c ", left - 1); if (most == 2 || left == 1) rec(s + lc + "h ", left - 1); rec(s + lc + "u ", left - 1); }
        }
      };
      rec(pre, depth - (int)pre.size() / 3);
    } else if (f[0] == "o") {                        // o <order> <how>: loaded in this order in these ways, called in every order
      string load;
      for (size_t i = 0; i < f[1].size(); ++i) { load += f[1][i]; load += f[2][i]; load += ' '; }
      string order = f[1];
      std::sort(order.begin(), order.end());
      do {
        for (char how : {'c', 't', 'h'}) {
          string s = load;
          for (char k : order) { s += k; s += how; s += ' '; }
          for (char k : order) { s += k; s += "u "; }
          sequence(ex, s);
        }
        ex.state(mc::hash(load + order));
      } while (std::next_permutation(order.begin(), order.end()));
    } else if (f[0] == "r") {                        // r <lib> <how> <times>: loaded, called and unloaded again and again
      string s;
      for (int i = 0; i < atoi(f[3].c_str()); ++i) s += f[1] + f[2] + " " + f[1] + "c " + (i % 3 == 1 ? f[1] + "t " : "") + f[1] + "u ";
      sequence(ex, s);
      ex.state(mc::hash(c));
    }
  }
  double hangSeconds() override { return 60; }
  void enumerate(mc::Explorer& ex) override {
    const int L = (int)gLibs.size();
    for (int a = 0; a < L; ++a) {
      for (char how : {'l', 'g', 'd'}) for (int n : {1, 2, 17, ex.tier(60, 300)}) ex.all(mc::fmt("r %d %c %d", a, how, n));
      for (int d = 2; d <= ex.tier(6, 8); ++d) ex.all(mc::fmt("s %d %d 2", a, d));
      for (int b = a + 1; b < L; ++b)
        for (int first : {a, b}) for (char how : {'l', 'g'}) for (int second : {a, b}) {
          for (const char* op : {"l", "g", "c", "u"}) {
            if (second == first && !strcmp(op, "l")) continue;
            if (second != first && (*op == 'c' || *op == 'u')) continue;
            ex.all(mc::fmt("s %d%d %d 2 %d%c %d%s", a, b, ex.tier(4, 6), first, how, second, op));
            ex.all(mc::fmt("s %d%d %d 1 %d%c %d%s", a, b, ex.tier(6, 7), first, how, second, op));
          }
        }
    }
    // three at a time, and all
    for (int a = 0; a < L; ++a) for (int b = a + 1; b < L; ++b) for (int c = b + 1; c < L; ++c) {
      string p{(char)('0' + a), (char)('0' + b), (char)('0' + c)};
      do for (int m = 0; m < 27; ++m) ex.all("o " + p + " " + string{"lgd"[m % 3], "lgd"[m / 3 % 3], "lgd"[m / 9]}); while (std::next_permutation(p.begin(), p.end()));
    }
    string p = "01234";
    do for (const char* m : {"lllll", "ggggg", "lglgl"}) if (ex.thorough() || std::is_sorted(p.begin(), p.end()) || std::is_sorted(p.rbegin(), p.rend()) || m[0] == 'g' && p[0] == '2') ex.all("o " + p + " " + m); while (std::next_permutation(p.begin(), p.end()));
  }
};
MC_MAIN(Load)
