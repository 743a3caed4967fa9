#pragma once
// A machine on which requests for more than verif_alloc_limit bytes fail.
#include <cstdlib>
#include <new>
#ifdef SYMBOLIC
extern size_t verif_alloc_limit;
#else
size_t verif_alloc_limit = ~(size_t)0;
static void* limited(size_t n) {
  void* p = n > verif_alloc_limit ? nullptr : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return limited(n); }
void* operator new[](size_t n) { return limited(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
