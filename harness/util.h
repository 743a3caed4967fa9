#pragma once
#include "sym.h"
#include "maidsafe/common/error.h"
// 0: no exception; 1: maidsafe error with the expected code; 2: maidsafe error with another code; 3: another exception
template <typename F>
static int outcome(F f, std::error_code want) {
  try { f(); return 0; }
  catch (const maidsafe::maidsafe_error& e) { return e.code() == want ? 1 : 2; }
  catch (const std::exception&) { return 3; }
}
template <typename F>
static int outcome(F f, maidsafe::CommonErrors want) { return outcome(f, maidsafe::make_error_code(want)); }
// branch-free lexicographic comparison of unsigned bytes: -1, 0, 1
template <typename A, typename B>
static int lex(const A& a, const B& b) {
  size_t n = a.size() < b.size() ? a.size() : b.size();
  unsigned live = 1, less = 0, greater = 0;
  for (size_t i = 0; i < n; ++i) {
    unsigned x = (unsigned char)a[i], y = (unsigned char)b[i];
    less |= live & (unsigned)(x < y);
    greater |= live & (unsigned)(x > y);
    live &= (unsigned)(x == y);
  }
  less |= live & (unsigned)(a.size() < b.size());
  greater |= live & (unsigned)(a.size() > b.size());
  return (int)greater - (int)less;
}
