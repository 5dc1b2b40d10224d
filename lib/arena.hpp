// arena.hpp - operator new / delete whose storage the harness can place below
// every mapped object of the program, above all shared libraries, or normally.
#ifndef ARENA_HPP
#define ARENA_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
namespace arena {
enum Place { Normal, Low, High };
struct Area { char* base; size_t size; size_t used; };
static Area g_Area[3];
static Place g_Place = Normal;

inline bool open(Place p, size_t size, uintptr_t above) {
  Area& a = g_Area[p];
  if (a.base) return true;
  if (p == Low) {
    for (uintptr_t at = 0x10000000; at < 0x40000000; at += 0x4000000) {
      void* m = mmap((void*)at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (m == (void*)at) { a.base = (char*)m; a.size = size; return true; }
      if (m != MAP_FAILED) munmap(m, size);
    }
    return false;
  }
  for (uintptr_t at = 0x7ffffe000000 - size; at > above; at -= 0x1000000) {
    void* m = mmap((void*)at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m == (void*)at) { a.base = (char*)m; a.size = size; return true; }
    if (m != MAP_FAILED) munmap(m, size);
  }
  return false;
}
inline bool inside(void* p) {
  for (int i = 1; i < 3; ++i)
    if (g_Area[i].base && (char*)p >= g_Area[i].base && (char*)p < g_Area[i].base + g_Area[i].size) return true;
  return false;
}
inline void* get(size_t n) {
  if (g_Place != Normal && g_Area[g_Place].base) {
    Area& a = g_Area[g_Place];
    n = (n + 31) & ~(size_t)31;
    if (a.used + n > a.size) a.used = 0;      // objects of one case are far smaller than the area
    void* p = a.base + a.used;
    a.used += n;
    return p;
  }
  return malloc(n);
}
} // namespace arena
void* operator new(size_t n) { void* p = arena::get(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!arena::inside(p)) free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif
