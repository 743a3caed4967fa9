// Harness API.  The same harness source is (1) compiled to LLVM IR and executed symbolically by the engine,
// where these functions are intrinsics, and (2) compiled natively with /repo's code, where they read the
// solver's values from a file (replay).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t __sym_var(const char* name, unsigned bits);
void __sym_bytes(void* p, size_t n, const char* name);
uint64_t __sym_choose(const char* name, uint64_t n);
uint64_t __sym_concretize(uint64_t v);
void __sym_assume(int c);
void __sym_assert(int c, const char* msg);
void __sym_fail(const char* msg) __attribute__((noreturn));
void __sym_reach(const char* label);
void __sym_trace(const char* label, uint64_t v);
int __sym_is_symbolic(void);
void __sym_end(void) __attribute__((noreturn));
uint64_t __sym_thread_create(void (*f)(void*), void* arg);
void __sym_thread_join(uint64_t t);
uint64_t __sym_thread_self(void);
void __sym_thread_yield(void);
void __sym_thread_settle(void);   // goes on once no other thread can run
int __sym_futex_wait(unsigned* addr, unsigned val, int timed);
}
static inline uint8_t sym_u8(const char* n) { return (uint8_t)__sym_var(n, 8); }
static inline uint16_t sym_u16(const char* n) { return (uint16_t)__sym_var(n, 16); }
static inline uint32_t sym_u32(const char* n) { return (uint32_t)__sym_var(n, 32); }
static inline uint64_t sym_u64(const char* n) { return __sym_var(n, 64); }
static inline int32_t sym_i32(const char* n) { return (int32_t)__sym_var(n, 32); }
static inline bool sym_bool(const char* n) { return __sym_var(n, 1) != 0; }
// value in [0, n) explored by exhaustive forking (concrete afterwards)
static inline size_t sym_choose(const char* n, size_t k) { return (size_t)__sym_choose(n, k); }
static inline size_t sym_range(const char* n, size_t lo, size_t hi) { return lo + (size_t)__sym_choose(n, hi - lo + 1); }
static inline void sym_assume(bool c) { __sym_assume(c); }
#define CHECK(c, msg) __sym_assert((int)(bool)(c), msg)
#define REACH(l) __sym_reach(l)
#define TRACE(l, v) __sym_trace(l, (uint64_t)(v))
#ifdef __cplusplus
#include <string>
#include <vector>
static inline std::string sym_string(const char* n, size_t len) {
  std::string s(len, '\0');
  if (len) __sym_bytes(&s[0], len, n);
  return s;
}
static inline std::vector<unsigned char> sym_vec(const char* n, size_t len) {
  std::vector<unsigned char> s(len, 0);
  if (len) __sym_bytes(&s[0], len, n);
  return s;
}
// content comparison without one fork per byte
static inline bool same_bytes(const void* a, const void* b, size_t n) {
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  unsigned d = 0;
  for (size_t i = 0; i < n; ++i) d |= (unsigned)(x[i] ^ y[i]);
  return d == 0;
}
template <typename A, typename B>
static inline bool same_content(const A& a, const B& b) {
  return a.size() == b.size() && (a.size() == 0 || same_bytes(&a[0], &b[0], a.size()));
}
#endif
