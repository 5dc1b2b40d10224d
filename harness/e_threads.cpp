// E04, two threads: the bundled operations, compiled with a hook at every edge
// and memory access, run on two threads under a scheduler that decides at each
// hook which of them goes on. Every schedule runs in a process of its own.
#define MC_NO_ASAN_DEFAULTS
#include "ops.hpp"
#include <openssl/bio.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <pthread.h>
#include <semaphore.h>
#include <unordered_map>
#include <unordered_set>
using std::string;
extern "C" { void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }

// ------------------------------------------------------------- scheduler
static const size_t ArenaSize = 1u << 28, StackSize = 8u << 20, Blocks = 1u << 16, Table = 1u << 20;
struct Area { char *lo, *hi; bool has(uintptr_t a) const { return a - (uintptr_t)lo < (uintptr_t)(hi - lo); } };
static Area arena[2], stk[2];
static size_t arenaUsed[2];
static __thread int self = -1;          // slot of this thread, -1 outside of the operations
static sem_t baton[2];
static bool done[2];
static int idle;                        // switches without progress
static uint64_t events[2], limit_;
static int gSlots = 2;

// what the parent learns
struct Report { int reached[2]; bool stuck; uint64_t points[2], events[2]; size_t answerLen[2]; char answer[2][1 << 16]; size_t nrec; struct { uintptr_t a; unsigned char f; } rec[1 << 19]; bool full; size_t nblock; struct { uintptr_t pc; uint32_t n; } block[Blocks]; };
static Report* rep;

// the plan of a schedule
enum { None, AtBlock, AtAccess, AtPc };
struct Stop { int how; uint64_t where, count; };
static Stop stop_[2];
static bool record_;
static uintptr_t* conf; static size_t nconf;              // sorted conflicting addresses
static bool conflicts(uintptr_t a, size_t n) {
  if (!nconf) return false;
  uintptr_t* p = std::lower_bound(conf, conf + nconf, a);
  return p < conf + nconf && *p < a + n;
}
static struct { uintptr_t a; unsigned char f; } *table_;

static void switchTo(int t) { int me = self; sem_post(&baton[t]); while (sem_wait(&baton[me])) {} }
static void blocked() {                  // the running thread cannot go on
  if (self < 0) { sched_yield(); return; }
  if (done[!self] || gSlots < 2) {       // the other thread may still be leaving
    static int naps;
    timespec t = {0, 1000000};
    if (++naps < 3000) { nanosleep(&t, nullptr); return; }
    idle = 10000;
  }
  if (++idle > 10000) { rep->stuck = true; _exit(0); }
  switchTo(!self);
}
static inline void stopHere() { int me = self; rep->reached[me] = 1; stop_[me].how = None; if (gSlots == 2 && !done[!me]) switchTo(!me); }
static inline void tick() { if (__builtin_expect(++events[self] > limit_, 0)) { events[self] = 0; blocked(); } else idle = 0; }
static void noteByte(uintptr_t a, unsigned char f) {
  size_t i = (a * 0x9E3779B97F4A7C15ull) >> 44;
  while (table_[i].a && table_[i].a != a) i = (i + 1) & (Table - 1);
  if (!table_[i].a) { if (rep->full) return; table_[i].a = a; if (rep->nrec++ > Table / 2 - 4) rep->full = true; }
  table_[i].f |= f;
}
// how often each block is executed by the first thread
static struct { uintptr_t pc; uint32_t n; } *blocks_;
static void noteBlock(int me, uintptr_t pc) {
  if (me) return;
  size_t i = (pc * 0x9E3779B97F4A7C15ull) >> 48;
  while (blocks_[i].pc && blocks_[i].pc != pc) i = (i + 1) % Blocks;
  blocks_[i].pc = pc;
  ++blocks_[i].n;
}
static inline void access_(uintptr_t a, size_t n, bool w, void* pc) {
  int me = self;
  if (me < 0) return;
  tick();
  if (record_ && !arena[me].has(a) && !stk[me].has(a)) {
    unsigned char f = (w ? 2 : 1) << (2 * me);
    if (arena[!me].has(a) || stk[!me].has(a)) f |= 16;
    for (size_t i = 0; i < n; ++i) noteByte(a + i, f);
  }
  Stop& s = stop_[me];
  if (nconf && conflicts(a, n)) {
    ++rep->points[me];
    if (s.how == AtAccess && s.where == rep->points[me]) stopHere();
  }
  if (s.how == AtPc && s.where == (uintptr_t)pc && !--s.count) stopHere();
}
#define PC __builtin_return_address(0)
extern "C" {
// one call per basic block
void __sanitizer_cov_trace_pc() {
  int me = self;
  if (me < 0) return;
  tick();
  uintptr_t pc = (uintptr_t)PC;
  if (record_) noteBlock(me, pc);
  Stop& s = stop_[me];
  if (s.how == AtBlock && s.where == pc && !--s.count) stopHere();
}
// one call per access
#define HOOK(n) \
  void __tsan_read##n(void* p) { access_((uintptr_t)p, n, false, PC); } \
  void __tsan_write##n(void* p) { access_((uintptr_t)p, n, true, PC); } \
  void __tsan_read##n##_pc(void* p, void* pc) { access_((uintptr_t)p, n, false, pc); } \
  void __tsan_write##n##_pc(void* p, void* pc) { access_((uintptr_t)p, n, true, pc); } \
  void __tsan_volatile_read##n(void* p) { access_((uintptr_t)p, n, false, PC); } \
  void __tsan_volatile_write##n(void* p) { access_((uintptr_t)p, n, true, PC); } \
  void __tsan_unaligned_read##n(void* p) { access_((uintptr_t)p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access_((uintptr_t)p, n, true, PC); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_read_range(void* p, size_t n) { access_((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access_((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access_((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access_((uintptr_t)p, 8, false, PC); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int) { access_((uintptr_t)p, sizeof(T), false, PC); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true, PC); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true, PC); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true, PC); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true, PC); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true, PC); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true, PC); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { access_((uintptr_t)p, sizeof(T), true, PC); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { access_((uintptr_t)p, sizeof(T), true, PC); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { access_((uintptr_t)p, sizeof(T), true, PC); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int, int) { access_((uintptr_t)p, sizeof(T), true, PC); __atomic_compare_exchange_n(p, &c, v, false, 5, 5); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)

// ---- storage of its own for each thread, never used again
void* malloc(size_t n) {
  if (self < 0) return __libc_malloc(n);
  size_t want = (n + 31) & ~(size_t)15;
  if (want < n || arenaUsed[self] + want > ArenaSize) { errno = ENOMEM; return nullptr; }
  char* p = arena[self].lo + arenaUsed[self];
  arenaUsed[self] += want;
  *(size_t*)p = n;
  return p + 16;
}
static bool ours(void* p) { return arena[0].has((uintptr_t)p) || arena[1].has((uintptr_t)p); }
void free(void* p) { if (p && !ours(p)) __libc_free(p); }
void* calloc(size_t a, size_t b) { if (self < 0) return __libc_calloc(a, b); if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return malloc(a * b); }
void* realloc(void* p, size_t n) {
  if (self < 0 && !ours(p)) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  size_t o = ours(p) ? ((size_t*)p)[-2] : n;
  char* q = (char*)malloc(n);
  if (!q) return nullptr;
  for (size_t i = 0; i < std::min(o, n); ++i) q[i] = ((char*)p)[i];
  return q;
}
void* memalign(size_t a, size_t n) { if (self < 0) return __libc_memalign(a, n); char* p = (char*)malloc(n + a); return p ? (void*)(((uintptr_t)p + a - 1) & ~(a - 1)) : nullptr; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }

// ---- copying
static inline void range(const void* p, size_t n, bool w, void* pc) { if (self >= 0 && n) access_((uintptr_t)p, n, w, pc); }
void* memcpy(void* d, const void* s, size_t n) { range(s, n, false, PC); range(d, n, true, PC); void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
void* memmove(void* d, const void* s, size_t n) {
  range(s, n, false, PC); range(d, n, true, PC);
  void* r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else { char *x = (char*)d + n - 1; const char* y = (const char*)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(x), "+S"(y), "+c"(n) : : "memory"); }
  return r;
}
void* memset(void* d, int c, size_t n) { range(d, n, true, PC); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
static size_t len(const char* s) { size_t n = 0; while (*(volatile const char*)(s + n)) ++n; return n; }
size_t strlen(const char* s) { size_t n = len(s); range(s, n + 1, false, PC); return n; }
char* strcpy(char* d, const char* s) { size_t n = len(s) + 1; memcpy(d, s, n); return d; }
char* stpcpy(char* d, const char* s) { size_t n = len(s); memcpy(d, s, n + 1); return d + n; }
char* strncpy(char* d, const char* s, size_t n) { size_t k = 0; while (k < n && s[k]) ++k; memcpy(d, s, k); memset(d + k, 0, n - k); return d; }
char* strcat(char* d, const char* s) { memcpy(d + strlen(d), s, len(s) + 1); return d; }
char* strdup(const char* s) { size_t n = len(s) + 1; char* p = (char*)malloc(n); if (p) memcpy(p, s, n); return p; }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  static int (*real)(char*, size_t, const char*, va_list) = (int (*)(char*, size_t, const char*, va_list))dlsym(RTLD_NEXT, "vsnprintf");
  int r = real(b, n, f, ap);
  if (n && r >= 0) range(b, std::min(n, (size_t)r + 1), true, PC);
  return r;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1 << 30, f, ap); }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 30, f, ap); va_end(ap); return r; }
// state that the C library keeps for the process
static char processState[8];
#define STATE(i) range(processState + i, 1, true, PC)
#define NEXT(R, name, ...) ((R (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name))
char* strtok(char* s, const char* d) { STATE(0); return NEXT(char*, strtok, char*, const char*)(s, d); }
int rand() { STATE(1); return NEXT(int, rand, void)(); }
void srand(unsigned s) { STATE(1); NEXT(void, srand, unsigned)(s); }
char* setlocale(int c, const char* l) { STATE(2); return NEXT(char*, setlocale, int, const char*)(c, l); }
int setenv(const char* n, const char* v, int o) { STATE(3); return NEXT(int, setenv, const char*, const char*, int)(n, v, o); }
int chdir(const char* d) { STATE(4); return NEXT(int, chdir, const char*)(d); }

// ---- waiting: let the other thread go on instead
typedef int MutexFn(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t* m) {
  static MutexFn *real, *tryLock;
  if (!real) { real = (MutexFn*)dlsym(RTLD_NEXT, "pthread_mutex_lock"); tryLock = (MutexFn*)dlsym(RTLD_NEXT, "pthread_mutex_trylock"); }
  if (self < 0) return real(m);
  int r;
  while ((r = tryLock(m)) == EBUSY) blocked();
  return r;
}
typedef int RwFn(pthread_rwlock_t*);
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  static RwFn *real, *tryLock;
  if (!real) { real = (RwFn*)dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); tryLock = (RwFn*)dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock"); }
  if (self < 0) return real(m);
  int r;
  while ((r = tryLock(m)) == EBUSY) blocked();
  return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  static RwFn *real, *tryLock;
  if (!real) { real = (RwFn*)dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); tryLock = (RwFn*)dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock"); }
  if (self < 0) return real(m);
  int r;
  while ((r = tryLock(m)) == EBUSY) blocked();
  return r;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  volatile int* s = (volatile int*)o;
  while (*s != 2) {
    if (*s == 0) { *s = 1; f(); *s = 2; }
    else blocked();
  }
  return 0;
}
int __cxa_guard_acquire(long long* g) {
  volatile char* b = (volatile char*)g;
  for (;;) {
    if (b[0]) return 0;
    if (!b[1]) { b[1] = 1; return 1; }
    blocked();
  }
}
void __cxa_guard_release(long long* g) { volatile char* b = (volatile char*)g; b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(long long* g) { ((volatile char*)g)[1] = 0; }
int sched_yield() { if (self >= 0 && gSlots == 2 && !done[!self]) { blocked(); return 0; } return 0; }
int usleep(useconds_t) { if (self >= 0) sched_yield(); else { timespec t = {0, 1000000}; nanosleep(&t, nullptr); } return 0; }
}

// ------------------------------------------------------------ operations
struct Kind { ops::GasFn* gas; ops::RunFn* run; string text[2]; const char* name; };
static std::vector<Kind> kinds;
static int gKind[2];
static void* body(void* arg) {
  int me = (int)(intptr_t)arg;
  Kind& k = kinds[gKind[me]];
  self = -1;
  std::vector<char> text(k.text[me].begin(), k.text[me].end());
  text.push_back(0);
  while (sem_wait(&baton[me])) {}
  self = me;
  uint64_t* g = k.gas(text.data());
  char* r = k.run(text.data());
  self = -1;
  string a = g ? mc::fmt("gas %llu", (unsigned long long)*g) : string("no gas");
  a += r ? string(" result ") + mc::esc(r) : string(" no result");
  rep->answerLen[me] = std::min(a.size(), sizeof rep->answer[me]);
  for (size_t i = 0; i < rep->answerLen[me]; ++i) rep->answer[me][i] = a[i];
  rep->events[me] = events[me];
  OPENSSL_thread_stop();
  done[me] = true;
  if (!done[!me]) sem_post(&baton[!me]);
  return nullptr;
}

struct H : mc::Harness {
  const char* rule() override { return "pair of operations x place where the first thread is preempted (and the second one again); distinct by case"; }
  double hangSeconds() override { return 60; }
  std::vector<string> want[2];
  uint64_t most = 0;
  std::vector<size_t> seen_;
  std::vector<std::vector<uintptr_t>> conf_;              // of each pair
  struct Block { uintptr_t pc; uint32_t n; string name; };
  std::vector<std::vector<Block>> hits;                   // of each kind, as the first thread: executions of each block
  void add(const char* name, const string& file, string a, string b) {
    void* h = dlopen(file.c_str(), RTLD_NOW);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
    Kind k;
    k.name = name;
    k.gas = (ops::GasFn*)dlsym(h, (string(name) + "_gas").c_str());
    k.run = (ops::RunFn*)dlsym(h, (string(name) + "_run").c_str());
    if (!k.gas || !k.run) { fprintf(stderr, "no entry points of %s\n", name); _exit(3); }
    k.text[0] = a; k.text[1] = b;
    kinds.push_back(k);
  }
  /// one execution, in a child; first: the thread that starts
  int execute(int a, int b, Stop s0, Stop s1, const std::vector<uintptr_t>& c, bool rec, int slots, int first) {
    static pid_t owner;
    if (owner != getpid()) {             // each worker has a report of its own
      owner = getpid();
      rep = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    rep->reached[0] = rep->reached[1] = 0; rep->stuck = false; rep->points[0] = rep->points[1] = 0; rep->answerLen[0] = rep->answerLen[1] = 0; rep->nrec = 0; rep->full = false;
    rep->nblock = 0;
    return mc::forked([&]() -> int {
      close(2);
      gKind[0] = a; gKind[1] = b;
      stop_[0] = s0; stop_[1] = s1;
      conf = (uintptr_t*)c.data(); nconf = c.size();
      record_ = rec;
      gSlots = slots;
      limit_ = most ? most * 4 + 1000000 : ~0ull;
      done[0] = slots == 1 && first == 1; done[1] = slots == 1 && first == 0;
      if (rec) table_ = (decltype(table_))mmap(nullptr, Table * sizeof *table_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (rec) blocks_ = (decltype(blocks_))mmap(nullptr, Blocks * sizeof *blocks_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      pthread_t t[2];
      for (int i = 0; i < 2; ++i) {
        sem_init(&baton[i], 0, 0);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, stk[i].lo, StackSize);
        if (pthread_create(&t[i], &at, body, (void*)(intptr_t)i)) _exit(3);
      }
      sem_post(&baton[first]);
      pthread_join(t[first], nullptr);
      if (slots == 2) pthread_join(t[!first], nullptr);
      if (rec) {
        size_t n = 0;
        for (size_t i = 0; i < Table; ++i) if (table_[i].a) { rep->rec[n].a = table_[i].a; rep->rec[n++].f = table_[i].f; }
        rep->nrec = n;
        for (size_t i = 0; i < Blocks; ++i) if (blocks_[i].pc) { rep->block[rep->nblock].pc = blocks_[i].pc; rep->block[rep->nblock++].n = blocks_[i].n; }
      }
      _exit(0);
    }, 50);
  }
  string answer(int t) { return string(rep->answer[t], rep->answerLen[t]); }
  static Stop never() { return Stop{None, 0, 0}; }
  void init() override {
    for (int i = 0; i < 2; ++i) {
      char* p = (char*)mmap(nullptr, ArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      arena[i] = {p, p + ArenaSize};
      p = (char*)mmap(nullptr, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      stk[i] = {p, p + StackSize};
    }
    // the cryptographic library initialises itself here, not in the schedules
    string pub = ops::key("k512-3.pub"), prv = ops::key("k512-3.priv"), pub2 = ops::key("k513-65537.pub"), prv2 = ops::key("k512-3.priv");
    ERR_clear_error();
    BIO* bio = BIO_new_mem_buf(prv.data(), prv.size());
    RSA* rsa = PEM_read_bio_RSAPrivateKey(bio, nullptr, nullptr, (void*)"");
    unsigned char buf[64], out[64];
    std::fill(buf, buf + 64, 7);
    buf[0] = 0;
    RSA_public_encrypt(64, buf, out, rsa, RSA_NO_PADDING);
    string c1 = ops::hex(string((char*)out, 64));
    buf[1] = 0; buf[63] = 99;
    RSA_public_encrypt(64, buf, out, rsa, RSA_NO_PADDING);
    string c2 = ops::hex(string((char*)out, 64));
    RSA_private_decrypt(64, out, buf, rsa, RSA_NO_PADDING);
    RSA_free(rsa); BIO_free(bio);
    bio = BIO_new_mem_buf(pub.data(), pub.size());
    rsa = PEM_read_bio_RSA_PUBKEY(bio, nullptr, nullptr, (void*)"");
    if (rsa) RSA_free(rsa);
    BIO_free(bio);
    ERR_clear_error();
    using namespace ops;
    string at = string(REPO_BUILD) + "/", lists = string(SO_DIR) + "/t_ops_cov.so";
    add("list", lists, "[1,{\"a\":[true,-5],\"b\":\"x\"},\"str\\n\"]", "[{\"k\":{\"z\":123456789012345678901234567890}},[[],{}],false,\"\\u0001t\"]");
    add("reverse", at + Libs[OpReverse].file, "[\"abcdef\"]", "[\"0123456789\"]");
    add("rsa_encrypt", at + Libs[OpEnc].file, list({quote(pub), quote("message one")}), list({quote(pub2), quote("other")}));
    add("rsa_decrypt", at + Libs[OpDec].file, list({quote(prv), quote(c1)}), list({quote(prv2), quote(c2)}));
    add("json", at + Libs[OpJson].file, "[\"arrayGet\",\"[1,[2,3]]\",0,9,1]", "[\"objectGet\",\"{\\\"a\\\":1,\\\"b\\\":[2]}\",0,15,\"b\"]");
    add("scrypt", at + Libs[OpScrypt].file, "[\"00112233\"]", "[\"abcdef\"]");
    add("scrypt", at + Libs[OpScrypt].file, "[\"zz\"]", "[\"" + string(161, '1') + "\"]");
    add("list", lists, "[\"refused\"]", "[false,1]");
    size_t n = kinds.size();
    hits.resize(n);
    std::vector<std::unordered_map<uintptr_t, unsigned char>> solo(2 * n);
    for (size_t i = 0; i < n; ++i) for (int t = 0; t < 2; ++t) {
      int st = execute(i, i, never(), never(), {}, true, 1, t);
      if ((st || rep->stuck) && bad.empty()) bad = mc::fmt("operation %zu alone: wait status 0x%x", i, st);
      want[t].push_back(answer(t));
      most = std::max(most, rep->events[t]);
      for (size_t k = 0; k < rep->nrec; ++k) solo[2 * i + t][rep->rec[k].a] |= rep->rec[k].f;
      if (t == 0) {
        for (size_t k = 0; k < rep->nblock; ++k) {
          Dl_info d;
          dladdr((void*)rep->block[k].pc, &d);
          hits[i].push_back({rep->block[k].pc, rep->block[k].n, mc::fmt("%s+0x%lx", strrchr(d.dli_fname, '/') + 1, rep->block[k].pc - (uintptr_t)d.dli_fbase)});
        }
        std::sort(hits[i].begin(), hits[i].end(), [](const Block& x, const Block& y) { return x.name < y.name; });
      }
      if (rep->full) { fprintf(stderr, "too many addresses\n"); _exit(3); }
    }
    conf_.resize(n * n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
      std::unordered_map<uintptr_t, unsigned char> m = solo[2 * i];
      for (auto& e : solo[2 * j + 1]) m[e.first] |= e.second;
      for (int first = 0; first < 2; ++first) {
        execute(i, j, never(), never(), {}, true, 2, first);          // one after the other; the answers are judged as a case
        for (size_t k = 0; k < rep->nrec; ++k) m[rep->rec[k].a] |= rep->rec[k].f;
      }
      auto& c = conf_[i * n + j];
      seen_.push_back(m.size());
      for (auto& e : m) if ((e.second & 16) || ((e.second & 3) && (e.second & 12) && (e.second & 10))) c.push_back(e.first);
      std::sort(c.begin(), c.end());
      if (FILE* dbg = getenv("E_SHOW") ? fopen(getenv("E_SHOW"), "a") : nullptr) { fprintf(dbg, "%zu %zu: %zu addresses, %zu conflicts\n", i, j, m.size(), c.size()); for (auto a : c) { Dl_info d = {}; if (!dladdr((void*)a, &d)) d.dli_fname = "?"; fprintf(dbg, "  %lx %s %s +%lx f %x\n", a, d.dli_fname, d.dli_sname ? d.dli_sname : "?", a - (uintptr_t)d.dli_fbase, m[a]); } fclose(dbg); }
    }
  }
  string bad;                        // an operation that fails on its own
  void exec(mc::Explorer& ex, const string& c) override {
    if (!bad.empty()) mc::fail(bad);
    int a, b, how, first;
    unsigned long long where, count, where2;
    sscanf(c.c_str(), "%d %d %d %llu %llu %llu %d", &a, &b, &how, &where, &count, &where2, &first);
    if (how == AtBlock && where >= hits[a].size()) { ex.skip(); return; }
    Stop s0{how, how == AtBlock ? hits[a][where].pc : where, count}, s1{where2 ? AtAccess : None, where2, 0};
    int st = execute(a, b, s0, s1, conf_[a * kinds.size() + b], false, 2, first);
    string sched = how == AtBlock ? mc::fmt("the first thread is preempted at %s, time %llu", hits[a][where].name.c_str(), count) : how == AtAccess ? mc::fmt("the first thread is preempted at its shared access %llu", where) : mc::fmt("thread %d runs first", first);
    if (where2) sched += mc::fmt(", the second one at its shared access %llu", where2);
    string what = mc::fmt("%s %s beside %s %s: ", kinds[a].name, mc::esc(mc::cut(kinds[a].text[0], 60)).c_str(), kinds[b].name, mc::esc(mc::cut(kinds[b].text[1], 60)).c_str()) + sched + ": ";
    if (st) mc::fail(what + mc::fmt("the process ends (wait status 0x%x)", st));
    if (rep->stuck) mc::fail(what + "the threads block each other");
    for (int t = 0; t < 2; ++t)
      if (answer(t) != want[t][t ? b : a]) mc::fail(what + mc::fmt("thread %d answers ", t) + mc::cut(answer(t), 300) + "; alone " + mc::cut(want[t][t ? b : a], 300));
    ex.state(mc::hash(c));
    ex.transitions(1 + (rep->reached[0] != 0) + (rep->reached[1] != 0));
    ex.traces();
    ex.count("schedules");
    if (how == None && !first) { ex.count("conflicting addresses", conf_[a * kinds.size() + b].size()); ex.count("addresses outside of the threads' own storage", seen_[a * kinds.size() + b]); }
    if (rep->reached[0]) ex.count("preempted");
  }
  void enumerate(mc::Explorer& ex) override {
    int n = kinds.size();
    uint64_t times = ex.tier(1, 4);
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
      for (int first = 0; first < 2; ++first) ex.all(mc::fmt("%d %d 0 0 0 0 %d", a, b, first));
      // every shared access of the first thread, alone and with every one of the second
      size_t i = 0;
      auto& c = conf_[a * n + b];
      if (!c.empty()) {
        execute(a, b, never(), never(), c, false, 2, 0);
        uint64_t cap = ex.tier(40, 300), pa = std::min(rep->points[0], cap), pb = std::min(rep->points[1], cap);
        for (uint64_t x = 1; x <= pa; ++x) {
          ex.all(mc::fmt("%d %d %d %llu 0 0 0", a, b, AtAccess, (unsigned long long)x));
          for (uint64_t y = 1; y <= pb; ++y) ex.all(mc::fmt("%d %d %d %llu 0 %llu 0", a, b, AtAccess, (unsigned long long)x, (unsigned long long)y));
        }
      }
      for (size_t g = 0; g < hits[a].size(); ++g)
        for (uint64_t k = 1; k <= std::min((uint64_t)hits[a][g].n, times); ++k)
          ex.all(mc::fmt("%d %d %d %zu %llu 0 0", a, b, AtBlock, g, (unsigned long long)k));
    }
  }
};
int main(int argc, char** argv) { H h; return mc::Supervisor().main(argc, argv, h); }
