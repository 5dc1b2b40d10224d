// mc.hpp - exhaustive exploration driver shared by all harnesses.
//
// A harness derives from mc::Harness and implements
//   enumerate(ex): walks its bounded space in a fixed order; for every case it
//                  asks ex.mine() (sharding) and, if so, calls ex.run(text);
//   exec(ex,text): runs one case, given as text, against the real code and
//                  compares with the oracle; mc::fail(...) reports a violation.
// A case text says everything that is needed to run the case again, alone.
// The supervisor forks workers, survives crashes and hangs of the code under
// test, replays what it found in a fresh process before reporting it, and
// writes what was covered as JSON.
#ifndef MC_HPP
#define MC_HPP
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif

#ifndef MC_NO_ASAN_DEFAULTS
extern "C" inline __attribute__((used, visibility("default"), no_sanitize("address")))
const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:exitcode=99:"
         "quarantine_size_mb=8:malloc_context_size=4:max_allocation_size_mb=8192:"
         "detect_stack_use_after_return=0:handle_abort=1:print_summary=1";
}
#endif

namespace mc {

struct Violation {
  std::string msg;
};

inline std::string vfmt(const char* f, va_list ap) {
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  return buf;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string s = vfmt(f, ap);
  va_end(ap);
  return s;
}
[[noreturn]] inline void fail(const std::string& s) { throw Violation{s}; }

/// printable rendering of arbitrary bytes (also the inverse, for case texts)
inline std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '\\') r += "\\\\";
    else if (c >= 0x20 && c < 0x7f) r += c;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  return r;
}
inline std::string unesc(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\\') { r += s[i]; continue; }
    if (s[i + 1] == '\\') { r += '\\'; i += 1; continue; }
    r += (char)strtol(s.substr(i + 2, 2).c_str(), nullptr, 16);
    i += 3;
  }
  return r;
}
inline std::string cut(const std::string& s, size_t n = 160) {
  return s.size() <= n ? s : s.substr(0, n) + fmt("...(%zu bytes)", s.size());
}
inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
  return h ? h : 1;
}
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull) {
  return hash(s.data(), s.size(), h);
}
inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
inline std::vector<std::string> split(const std::string& s, char d) {
  std::vector<std::string> r;
  std::string cur;
  for (char c : s) { if (c == d) { r.push_back(cur); cur.clear(); } else cur += c; }
  r.push_back(cur);
  return r;
}

static const int MaxWorkers = 32;
static const size_t SlotBytes = 4u << 20;
static const size_t SetBits = 25;

struct Slot {
  std::atomic<uint64_t> beat;     // changes while the worker makes progress
  std::atomic<uint64_t> index;    // case being run
  std::atomic<uint64_t> start;    // first index of this incarnation
  std::atomic<uint64_t> len;
  std::atomic<int> busy;          // inside exec
  char text[SlotBytes];
  char msg[8192];
  char note[4096];                // where inside the case the worker is
};

struct Shared {
  std::atomic<uint64_t> evals, trans, traces, nontrivial, states, dropped;
  std::atomic<uint64_t> extra[32];
  char extraName[32][48];
  std::atomic<int> extraLock;
  std::atomic<int> nsamples;
  char samples[24][512];
  Slot slot[MaxWorkers];
};

class Explorer;

class Harness {
public:
  virtual ~Harness() {}
  virtual void init() {}
  virtual void enumerate(Explorer& ex) = 0;
  virtual void exec(Explorer& ex, const std::string& c) = 0;
  virtual double hangSeconds() { return 20; }
  virtual const char* rule() { return ""; }
};

class Explorer {
public:
  Explorer(Shared* sh, std::atomic<uint64_t>* set, int w, int n, uint64_t from, uint64_t upto,
           bool thorough)
    : m_Sh(sh), m_Set(set), m_W(w), m_N(n), m_From(from), m_Upto(upto), m_Thorough(thorough) {}

  bool thorough() const { return m_Thorough; }
  /// value of a bound in the current tier
  template <class T> T tier(T q, T t) const { return m_Thorough ? t : q; }

  /// step to the next case; true if this worker is to run it
  bool mine() {
    uint64_t i = m_Next++;
    if ((m_Next & 0xffff) == 0) ++m_Sh->slot[m_W].beat;
    return i % m_N == (uint64_t)m_W && i >= m_From && i <= m_Upto;
  }
  uint64_t position() const { return m_Next; }

  void run(const std::string& c) {
    Slot& s = m_Sh->slot[m_W];
    s.index = m_Next - 1;
    size_t n = std::min(c.size(), SlotBytes - 1);
    memcpy(s.text, c.data(), n);
    s.len = n;
    s.note[0] = 0;
    s.busy = 1;
    ++s.beat;
    static const bool slow = getenv("MC_SLOW") != nullptr;   // development aid
    const double t0 = now();
    try {
      m_H->exec(*this, c);
    } catch (const Violation& v) {
      snprintf(s.msg, sizeof s.msg, "%s", v.msg.c_str());
      _exit(42);
    } catch (const std::exception& e) {
      snprintf(s.msg, sizeof s.msg, "unexpected exception: %s", e.what());
      _exit(42);
    } catch (...) {
      snprintf(s.msg, sizeof s.msg, "unexpected exception of unknown type");
      _exit(42);
    }
    s.busy = 0;
    if (slow && now() - t0 > 1) fprintf(stderr, "SLOW %.1f %s\n", now() - t0, cut(c, 100).c_str());
    if (m_Skip) { m_Skip = false; return; }
    ++m_Sh->evals;
    uint64_t k = m_Done++;
    if ((k & (k - 1)) == 0 && k >= 8 && (m_W == (int)(k % 7) || m_N == 1)) sample(c);
    m_Spent += now() - t0;
    if (((k & 0x1ff) == 0 || m_Spent > 0.3) && (m_Spent = 0, rss() > m_RssLimit)) {
      s.start = m_Next;
      _exit(43);
    }
  }
  /// called by exec when the case does not belong to the explored space
  void skip() { m_Skip = true; }
  void all(const std::string& c) { if (mine()) run(c); }

  /// what is being done inside the case, for the report of a crash or hang
  void note(const std::string& n) {
    Slot& s = m_Sh->slot[m_W];
    size_t k = std::min(n.size(), sizeof s.note - 1);
    memcpy(s.note, n.data(), k);
    s.note[k] = 0;
    ++s.beat;
  }
  void beat() { ++m_Sh->slot[m_W].beat; }
  void transitions(uint64_t n = 1) { m_Sh->trans += n; }
  void traces(uint64_t n = 1) { m_Sh->traces += n; }
  /// records a distinct state (or distinct non-trivial case); true if it is new
  bool state(uint64_t h) {
    const uint64_t mask = (1ull << SetBits) - 1;
    if (!h) h = 1;
    uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> (64 - SetBits);
    for (int k = 0; k < 4096; ++k, i = (i + 1) & mask) {
      uint64_t v = m_Set[i].load(std::memory_order_relaxed);
      if (v == h) return false;
      if (v == 0) {
        if (m_Set[i].compare_exchange_strong(v, h)) { ++m_Sh->states; return true; }
        if (v == h) return false;
      }
    }
    ++m_Sh->dropped;
    return false;
  }
  bool state(const std::string& s) { return state(hash(s)); }
  void count(const char* name, uint64_t n = 1) {
    int i = extraIndex(name);
    if (i >= 0) m_Sh->extra[i] += n;
  }
  void sample(const std::string& c) {
    int i = m_Sh->nsamples++;
    if (i < 24) snprintf(m_Sh->samples[i], sizeof m_Sh->samples[i], "%s", esc(cut(c, 110)).c_str());
  }

  bool verbose() const { return m_Verbose; }
  bool m_Verbose = false;         // replaying: note every step
  Harness* m_H = nullptr;
  size_t m_RssLimit = 1400u << 20;
  double m_Spent = 0;             // since the size of the process was looked at
  uint64_t m_Next = 0;

private:
  static size_t rss() {
    static int fd = open("/proc/self/statm", O_RDONLY);
    char b[128];
    ssize_t n = pread(fd, b, sizeof b - 1, 0);
    if (n <= 0) return 0;
    b[n] = 0;
    size_t a = 0, r = 0;
    sscanf(b, "%zu %zu", &a, &r);
    return r * 4096;
  }
  int extraIndex(const char* name) {
    auto it = m_Extra.find(name);
    if (it != m_Extra.end()) return it->second;
    while (m_Sh->extraLock.exchange(1)) {}
    int i;
    for (i = 0; i < 32; ++i) {
      if (!m_Sh->extraName[i][0]) { snprintf(m_Sh->extraName[i], 48, "%s", name); break; }
      if (!strcmp(m_Sh->extraName[i], name)) break;
    }
    m_Sh->extraLock = 0;
    if (i == 32) i = -1;
    m_Extra[name] = i;
    return i;
  }
  Shared* m_Sh;
  std::atomic<uint64_t>* m_Set;
  int m_W, m_N;
  uint64_t m_From, m_Upto;
  bool m_Thorough;
  uint64_t m_Done = 0;
  bool m_Skip = false;
  std::map<std::string, int> m_Extra;
};

inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) r += fmt("\\u%04x", c);
    else r += c;
  }
  return r + "\"";
}

struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};

class Supervisor {
public:
  int main(int argc, char** argv, Harness& h) {
    std::string out, replay;
    int workers = 8;
    bool thorough = false;
    int shW = -1, shN = 1;
    uint64_t from = 0, upto = ~0ull;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if (a == "--out") out = argv[++i];
      else if (a == "--replay") replay = argv[++i];
      else if (a == "--workers") workers = atoi(argv[++i]);
      else if (a == "--thorough") thorough = true;
      else if (a == "--shard") { sscanf(argv[++i], "%d/%d", &shW, &shN); }
      else if (a == "--from") from = strtoull(argv[++i], 0, 10);
      else if (a == "--upto") upto = strtoull(argv[++i], 0, 10);
      else if (a == "--logdir") m_LogDir = argv[++i];
      else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (workers > MaxWorkers) workers = MaxWorkers;
    m_Sh = (Shared*)map(sizeof(Shared));
    m_Set = (std::atomic<uint64_t>*)map(sizeof(uint64_t) << SetBits);
    setbuf(stdout, nullptr);
    std::string self = "/proc/self/exe";
    m_Argv0 = argv[0];
    if (!replay.empty()) {                     // one case, alone
      std::ifstream f(replay, std::ios::binary);
      std::stringstream ss;
      ss << f.rdbuf();
      quiet();
      {
        int rc = probe(h);
        if (rc) return rc == 3 ? 2 : verdict(m_ProbeSt, 0);
        if (ss.str() == "(init)") { printf("the case passes\n"); return 0; }
      }
      h.init();
      Explorer ex(m_Sh, m_Set, 0, 1, 0, ~0ull, thorough);
      ex.m_H = &h;
      ex.m_RssLimit = ~0ull >> 1;
      ex.m_Verbose = true;
      int rc = inChild([&] { ex.mine(); ex.run(ss.str()); }, 0, h.hangSeconds() * 3);
      return verdict(rc, 0);
    }
    if (shW >= 0) {                            // a prefix of one shard
      quiet();
      h.init();
      Explorer ex(m_Sh, m_Set, shW, shN, from, upto, thorough);
      ex.m_H = &h;
      ex.m_RssLimit = ~0ull >> 1;
      int rc = inChild([&] { h.enumerate(ex); }, shW, h.hangSeconds() * 4);
      return verdict(rc, shW);
    }
    double t0 = now();
    quiet();
    if (int rc = probe(h)) {                   // preparing the run already breaks the property (or the tool)
      if (rc == 3) {
        fprintf(stderr, "the preparation of the harness failed: %s\n",
                m_ProbeSt == -1 ? "no end" : describe(m_ProbeSt, 0).c_str());
        return 2;
      }
      std::string msg = m_ProbeSt == -1 ? "no progress: the operation does not terminate" : describe(m_ProbeSt, 0);
      if (m_Sh->slot[0].note[0]) msg += std::string("; while: ") + m_Sh->slot[0].note;
      std::string viol = "{\"how\":\"case\",\"case\":\"(init)\",\"message\":" + jstr(msg) + "}";
      if (!out.empty()) write(out, viol, now() - t0, h, false);
      return 1;
    }
    h.init();
    std::vector<pid_t> pid(workers, 0);
    std::vector<uint64_t> lastBeat(workers, ~0ull), starts(workers, 0);
    std::vector<double> lastT(workers, now());
    for (int w = 0; w < workers; ++w) pid[w] = spawn(h, w, workers, 0, thorough);
    int live = workers, bad = -1, badrc = 0;
    bool hang = false;
    double patience = getenv("MC_HANG") ? atof(getenv("MC_HANG")) : h.hangSeconds();   // (development aid)
    int late = 0;
    std::string hangHow;
    while (live > 0 && bad < 0) {
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        int w = -1;
        for (int i = 0; i < workers; ++i) if (pid[i] == p) w = i;
        if (w < 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pid[w] = 0; --live; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 43) {
          starts[w] = m_Sh->slot[w].start;
          pid[w] = spawn(h, w, workers, starts[w], thorough);
          lastT[w] = now();
          continue;
        }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && ++late <= 6) {     // not by us: no memory left
          starts[w] = m_Sh->slot[w].busy ? m_Sh->slot[w].index.load() : m_Sh->slot[w].index + 1;
          sleep(1);
          pid[w] = spawn(h, w, workers, starts[w], thorough);
          lastT[w] = now();
          continue;
        }
        bad = w;
        badrc = st;
        pid[w] = 0;
        break;
      }
      for (int w = 0; w < workers; ++w) {
        if (!pid[w]) continue;
        uint64_t b = m_Sh->slot[w].beat;
        if (b != lastBeat[w]) { lastBeat[w] = b; lastT[w] = now(); }
        else if (now() - lastT[w] > patience) {
          // stop it and run the case alone, then all the worker did so far
          Slot& sl = m_Sh->slot[w];
          kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL);
          waitpid(pid[w], nullptr, 0);
          pid[w] = 0;
          if (sl.busy) hangHow = again(sl, w, workers, starts[w], thorough);
          if (!hangHow.empty() || !sl.busy || ++late > 6) { bad = w; hang = true; break; }
          // it ends: the machine was slow; go on behind that case, with more patience
          patience *= 2;
          starts[w] = sl.index + 1;
          pid[w] = spawn(h, w, workers, starts[w], thorough);
          for (auto& t : lastT) t = now();
        }
      }
      usleep(20000);
    }
    for (int w = 0; w < workers; ++w) if (pid[w]) kill(-pid[w], SIGKILL), kill(pid[w], SIGKILL);
    while (waitpid(-1, nullptr, 0) > 0) {}
    std::string viol;
    int rc = 0;
    if (bad >= 0) {
      Slot& s = m_Sh->slot[bad];
      std::string text(s.text, s.len);
      std::string msg = hang ? "no progress: the operation does not terminate" : describe(badrc, bad);
      if (!hang && WIFSIGNALED(badrc) && WTERMSIG(badrc) == SIGKILL) {
        fprintf(stderr, "a worker was killed from outside (out of memory?)\n");
        return 2;
      }
      std::string how;
      if (hang) how = hangHow;
      else if (s.busy || (WIFEXITED(badrc) && WEXITSTATUS(badrc) == 42)) how = again(s, bad, workers, starts[bad], thorough);
      std::ifstream nf(m_LogDir + "/sub/replay.note", std::ios::binary);
      std::stringstream note;
      note << nf.rdbuf();
      if (note.str().size()) msg += "; while: " + note.str();
      if (how.empty() && !hang)               // seen once, in a real run of the code: a violation all the same
        how = "case";
      if (how.empty()) {
        fprintf(stderr, "worker %d failed, but the failure could not be reproduced: %s\ncase: %s\n", bad,
                msg.c_str(), esc(cut(text, 2000)).c_str());
        rc = 2;
      } else {
        rc = 1;
        viol = fmt("{\"how\":%s,", jstr(how).c_str()) + "\"case\":" + jstr(text) + ",\"message\":" + jstr(msg) + "}";
      }
    }
    if (!out.empty()) write(out, viol, now() - t0, h, rc == 0);
    return rc;
  }

private:
  static void* map(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
  }
  static void quiet() {
    static NullBuf nb;
    std::cerr.rdbuf(&nb);
  }
  /// the case of a worker once more in a fresh process, or all its cases up to it; how it failed, or nothing
  std::string again(Slot& s, int w, int workers, uint64_t start, bool thorough) {
    const std::string rf = m_LogDir + "/replay.case";
    std::ofstream(rf, std::ios::binary) << std::string(s.text, s.len);
    if (sub({"--replay", rf}, thorough) == 1) return "case";
    auto num = [](uint64_t n) { return fmt("%llu", (unsigned long long)n); };
    if (sub({"--shard", fmt("%d/%d", w, workers), "--from", num(start), "--upto", num(s.index)}, thorough) == 1)
      return fmt("shard %d/%d ", w, workers) + num(start) + " " + num(s.index);
    return "";
  }
  pid_t spawn(Harness& h, int w, int n, uint64_t from, bool thorough) {
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
      setpgid(0, 0);
      log(w);
      m_Sh->slot[w].start = from;
      Explorer ex(m_Sh, m_Set, w, n, from, ~0ull, thorough);
      ex.m_H = &h;
      h.enumerate(ex);
      _exit(0);
    }
    return p;
  }
  void log(int w) {
    int fd = open((m_LogDir + fmt("/worker%d.err", w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    int in = open("/dev/null", O_RDONLY);
    if (in >= 0) { dup2(in, 0); close(in); }
  }
  int inChild(std::function<void()> f, int w, double limit) {
    pid_t p = fork();
    if (p == 0) { setpgid(0, 0); log(w); f(); _exit(0); }
    double t0 = now();
    uint64_t last = ~0ull;
    int st = 0;
    while (true) {
      pid_t q = waitpid(p, &st, WNOHANG);
      if (q == p) return st;
      uint64_t b = m_Sh->slot[w].beat;
      if (b != last) { last = b; t0 = now(); }
      if (now() - t0 > limit) {
        kill(-p, SIGKILL); kill(p, SIGKILL);
        waitpid(p, &st, 0);
        return -1;
      }
      usleep(5000);
    }
  }
  /// h.init() tried in a child: 0 fine, 1 the code under test failed in it, 3 the harness did
  int probe(Harness& h) {
    m_Sh->slot[0].note[0] = 0;
    int st = m_ProbeSt = inChild([&] {
      try {
        h.init();
      } catch (const Violation& v) {
        snprintf(m_Sh->slot[0].msg, sizeof m_Sh->slot[0].msg, "%s", v.msg.c_str());
        _exit(42);
      } catch (const std::exception& e) {
        snprintf(m_Sh->slot[0].msg, sizeof m_Sh->slot[0].msg, "unexpected exception: %s", e.what());
        _exit(42);
      }
    }, 0, h.hangSeconds() * 3);
    if (st == -1) return 1;
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGKILL ? 3 : 1;
    const int e = WEXITSTATUS(st);
    return e == 0 ? 0 : e == 42 || e == 99 || e == 87 ? 1 : 3;
  }
  int verdict(int st, int w) {
    Slot& s = m_Sh->slot[w];
    if (s.note[0] && !(st != -1 && WIFEXITED(st) && (WEXITSTATUS(st) == 42 || WEXITSTATUS(st) == 0)))
      std::ofstream(m_LogDir + "/replay.note", std::ios::binary) << s.note;
    if (st == -1) { printf("REPRODUCED no progress: does not terminate\n"); return 1; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("the case passes\n"); return 0; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 2;
    printf("REPRODUCED %s\n", describe(st, w).c_str());
    return 1;
  }
  std::string describe(int st, int w) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return m_Sh->slot[w].msg;
    std::string s = WIFSIGNALED(st) ? fmt("the process died from signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)))
                                    : fmt("the process ended with status %d", WEXITSTATUS(st));
    std::ifstream f(m_LogDir + fmt("/worker%d.err", w));
    std::string l;
    int n = 0;
    while (std::getline(f, l) && n < 12) {
      if (l.find("ERROR: AddressSanitizer") != l.npos || l.find("runtime error") != l.npos ||
          l.find("    #") == 0 || l.find("terminate called") != l.npos || l.find("what():") != l.npos) {
        s += "; " + cut(l, 150);
        ++n;
      }
    }
    return s;
  }
  int sub(std::vector<std::string> a, bool thorough) {
    std::vector<std::string> v{m_Argv0, "--logdir", m_LogDir + "/sub"};
    mkdir((m_LogDir + "/sub").c_str(), 0755);
    if (thorough) v.push_back("--thorough");
    v.insert(v.end(), a.begin(), a.end());
    std::vector<char*> c;
    for (auto& s : v) c.push_back(&s[0]);
    c.push_back(nullptr);
    pid_t p = fork();
    if (p == 0) { execv(m_Argv0.c_str(), c.data()); _exit(2); }
    int st;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 2;
  }
  void write(const std::string& out, const std::string& viol, double t, Harness& h, bool complete) {
    std::ofstream f(out);
    f << "{\"evaluations\":" << m_Sh->evals << ",\"distinct\":" << m_Sh->states << ",\"transitions\":" << m_Sh->trans
      << ",\"traces\":" << m_Sh->traces << ",\"dropped\":" << m_Sh->dropped << ",\"rule\":" << jstr(h.rule())
      << ",\"complete\":" << (complete ? "true" : "false") << ",\"seconds\":" << t << ",\"counters\":{";
    for (int i = 0, k = 0; i < 32; ++i)
      if (m_Sh->extraName[i][0]) f << (k++ ? "," : "") << jstr(m_Sh->extraName[i]) << ":" << m_Sh->extra[i];
    f << "},\"samples\":[";
    int n = std::min(24, (int)m_Sh->nsamples);
    for (int i = 0; i < n; ++i) f << (i ? "," : "") << jstr(m_Sh->samples[i]);
    f << "],\"violation\":" << (viol.empty() ? "null" : viol) << "}\n";
  }
  Shared* m_Sh;
  std::atomic<uint64_t>* m_Set;
  std::string m_LogDir = "/tmp";
  std::string m_Argv0;
  int m_ProbeSt = 0;
};

/// processor time that a process has used, or -1
inline double cpuOf(pid_t p) {
  clockid_t c;
  timespec t;
  if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return -1;
  return t.tv_sec + t.tv_nsec / 1e9;
}
/// runs f in a child process; returns the wait status (-1: it used up the time, or waits for something for ever)
inline int forked(std::function<int()> f, double limit, std::string* outp = nullptr) {
  int pfd[2] = {-1, -1};
  if (outp && pipe(pfd)) { perror("pipe"); _exit(3); }
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    if (outp) { close(pfd[0]); dup2(pfd[1], 1); close(pfd[1]); }
    int r = f();
    fflush(nullptr);
    _exit(r);
  }
  if (outp) {
    close(pfd[1]);
    char b[65536];
    ssize_t n;
    while ((n = read(pfd[0], b, sizeof b)) > 0) outp->append(b, n);
    close(pfd[0]);
  }
  int st = 0;
  double t0 = now(), used = 0, since = t0;       // since: when it last was seen to have made progress
  useconds_t nap = 50;
  while (true) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) return st;
    if (now() - t0 > limit) {                    // a slow machine does not count
      double c = cpuOf(p);
      if (c > used + 0.001) { used = c; since = now(); }
      if (c < 0 || c > limit || now() - since > std::max(10.0, limit / 2)) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; }
    }
    usleep(nap);
    if (nap < 5000) nap *= 2;
  }
}

} // namespace mc

#define MC_MAIN(H) \
  int main(int argc, char** argv) { H h; return mc::Supervisor().main(argc, argv, h); }
#endif
