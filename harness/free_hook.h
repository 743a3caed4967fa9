#pragma once
// Called with each pointer handed to operator delete, before it is freed.
#include <cstdlib>
#include <new>
#ifdef SYMBOLIC
extern void (*verif_on_free)(void*);
#else
void (*verif_on_free)(void*) = nullptr;
static void hooked(void* p) { if (verif_on_free && p) verif_on_free(p); free(p); }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { hooked(p); }
void operator delete[](void* p) noexcept { hooked(p); }
void operator delete(void* p, size_t) noexcept { hooked(p); }
void operator delete[](void* p, size_t) noexcept { hooked(p); }
#endif
