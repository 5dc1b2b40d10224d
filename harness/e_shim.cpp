// Preloaded into the probes of E03: decides what the code under test sees of
// memory contents and places, time, random sources, host and environment.
// Configured by E_SHIM="fill place clock rand env".
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <initializer_list>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <sched.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>
extern char** environ;
namespace {
struct Cfg { int fill, place, clock, rnd, env; bool ready; };
Cfg g;
const char* raw(const char* name) {
  size_t n = strlen(name);
  for (char** e = environ; e && *e; ++e) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return nullptr;
}
char* area;
size_t used, size = (size_t)1 << 32;
volatile int lock;
void* freeList[64];
unsigned counter;
void setup() {
  if (g.ready) return;
  g.ready = true;
  const char* s = raw("E_SHIM");
  if (s) sscanf(s, "%d %d %d %d %d", &g.fill, &g.place, &g.clock, &g.rnd, &g.env);
  int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
  if (g.place == 1 || g.place == 3) {
    size = 1u << 28;
    for (uintptr_t at = 0x10000000; !area && at < 0x70000000; at += 0x4000000) {
      void* m = mmap((void*)at, size, PROT_READ | PROT_WRITE, fl | MAP_FIXED_NOREPLACE, -1, 0);
      if (m == (void*)at) area = (char*)m; else if (m != MAP_FAILED) munmap(m, size);
    }
  } else if (g.place == 2) {
    size = 1u << 28;
    for (uintptr_t at = 0x7ffffe000000 - size; !area && at > 0x7f0000000000; at -= 0x1000000) {
      uintptr_t here = (uintptr_t)&fl;                        // the stack of the first thread has to be able to grow
      if (at < here && at + size + 0x8000000 > here) continue;
      void* m = mmap((void*)at, size, PROT_READ | PROT_WRITE, fl | MAP_FIXED_NOREPLACE, -1, 0);
      if (m == (void*)at) area = (char*)m; else if (m != MAP_FAILED) munmap(m, size);
    }
  }
  if (!area) { size = (size_t)1 << 30; area = (char*)mmap(nullptr, size, PROT_READ | PROT_WRITE, fl, -1, 0); }
}
struct Head { size_t n, pad; };
void paint(void* p, size_t n, int how) {
  unsigned char* c = (unsigned char*)p;
  switch (how) {
    case 0: memset(c, 0, n); break;
    case 1: memset(c, 0xff, n); break;
    case 2: memset(c, 1, n); break;
    case 3: for (size_t i = 0; i < n; ++i) c[i] = (unsigned char)(++counter * 167 >> 3); break;
    default: for (size_t i = 0; i + 8 <= n; i += 8) { void* q = c + i; memcpy(c + i, &q, 8); }   // looks like pointers
  }
}
int cls(size_t n) { int k = 4; while (((size_t)1 << k) < n) ++k; return k; }
void* get(size_t n, bool zero) {
  setup();
  while (__sync_lock_test_and_set(&lock, 1)) sched_yield();
  void* r = nullptr;
  int k = cls(n);
  if (g.place == 3 && freeList[k]) { r = freeList[k]; memcpy(&freeList[k], r, sizeof(void*)); ((Head*)r)[-1].n = n; }
  else {
    size_t want = g.place == 3 ? (size_t)1 << k : (n + 15) & ~(size_t)15;
    if (n <= size && used + want + sizeof(Head) + 64 <= size) {
      Head* h = (Head*)(area + used);
      h->n = n;
      used += sizeof(Head) + want;
      if (g.place == 2) used += (counter % 3) * 16;
      r = h + 1;
    }
  }
  __sync_lock_release(&lock);
  if (!r) { errno = ENOMEM; return nullptr; }
  if (zero) memset(r, 0, n); else paint(r, n, g.fill);
  return r;
}
void put(void* p) {
  if (!p) return;
  Head* h = (Head*)p - 1;
  if (g.place == 3) {
    while (__sync_lock_test_and_set(&lock, 1)) sched_yield();
    int k = cls(h->n);
    memcpy(p, &freeList[k], sizeof(void*));
    freeList[k] = p;
    __sync_lock_release(&lock);
  } else paint(p, h->n, g.fill == 0 ? 1 : 0);       // freed storage changes at once
}
uint64_t seed() { static uint64_t s = 0; if (!s) s = g.rnd == 1 ? 88172645463325252ull : 0x123456789abcdefull; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
template <class F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
long long when() { setup(); return g.clock == 1 ? 0 : g.clock == 2 ? (1ll << 31) + 7 : -1; }
}
extern "C" {
void* malloc(size_t n) { return get(n, false); }
void free(void* p) { put(p); }
void* calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return get(a * b, true); }
void* realloc(void* p, size_t n) {
  if (!p) return get(n, false);
  if (!n) { put(p); return nullptr; }
  size_t o = ((Head*)p - 1)->n;
  void* q = get(n, false);
  if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n);
  put(p);
  return q;
}
void* memalign(size_t a, size_t n) {
  setup();
  char* p = (char*)get(n + a + sizeof(Head), false);
  if (!p) return nullptr;
  char* q = (char*)(((uintptr_t)p + a - 1) & ~(uintptr_t)(a - 1));
  if (q != p) { if (q - p < (long)sizeof(Head)) q += a; ((Head*)q)[-1].n = n; }
  return q;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
void* valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void* p) { return p ? ((Head*)p - 1)->n : 0; }

time_t time(time_t* t) { setup(); time_t r; if (g.clock) r = when(); else { timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); r = s.tv_sec; } if (t) *t = r; return r; }
int gettimeofday(timeval* t, void*) { setup(); if (g.clock) { t->tv_sec = when(); t->tv_usec = 999999; } else { timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; } return 0; }
int clock_gettime(clockid_t c, timespec* t) { setup(); if (g.clock) { t->tv_sec = when(); t->tv_nsec = g.clock == 3 ? 999999999 : 0; return 0; } return syscall(SYS_clock_gettime, c, t); }
clock_t clock() { setup(); return g.clock ? (clock_t)when() : real<clock_t (*)()>("clock")(); }
int rand() { setup(); return g.rnd ? (int)(seed() & 0x7fffffff) : real<int (*)()>("rand")(); }
long random() { setup(); return g.rnd ? (long)(seed() & 0x7fffffff) : real<long (*)()>("random")(); }
double drand48() { setup(); return g.rnd ? (seed() >> 11) / 9007199254740992.0 : real<double (*)()>("drand48")(); }
long lrand48() { setup(); return g.rnd ? (long)(seed() & 0x7fffffff) : real<long (*)()>("lrand48")(); }
ssize_t getrandom(void* b, size_t n, unsigned f) { setup(); if (!g.rnd) return syscall(SYS_getrandom, b, n, f); for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)(seed() >> 20); return n; }
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
char* getenv(const char* name) {
  setup();
  const char* r = raw(name);
  if (r || !g.env) return (char*)r;
  for (const char* p : {"LD_", "MALLOC", "OPENSSL", "SSL_", "LC_", "LANG", "GCONV", "LOCPATH", "NLSPATH", "GLIBC", "E_", "VERIF", "CTLOG", "RANDFILE", "QLOG"}) if (!strncmp(name, p, strlen(p))) return nullptr;
  return (char*)(g.env == 1 ? "1" : "");
}
int gethostname(char* b, size_t n) { setup(); snprintf(b, n, "host%d", g.env); return 0; }
int uname(utsname* u) { int r = syscall(SYS_uname, u); snprintf(u->nodename, sizeof u->nodename, "node%d", g.env); if (g.env) snprintf(u->release, sizeof u->release, "%d.0", g.env); return r; }
uid_t getuid() { setup(); return g.env ? 1000 + g.env : syscall(SYS_getuid); }
uid_t geteuid() { setup(); return g.env ? 1000 + g.env : syscall(SYS_geteuid); }
int sched_getcpu() { setup(); return g.env; }
pid_t getpid() { setup(); return g.clock ? 7777 * g.clock : syscall(SYS_getpid); }
pid_t getppid() { setup(); return g.clock ? 7 * g.clock : syscall(SYS_getppid); }
}
void* operator new(size_t n) { void* p = get(n ? n : 1, false); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
