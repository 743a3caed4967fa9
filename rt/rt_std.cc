// Engine-only models of the compiled part of libstdc++ / libc used by the code under analysis.
// Native replays use the real libraries instead.
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <condition_variable>
#include <exception>
#include <functional>
#include <ios>
#include <iostream>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include "sym.h"

// ---- operator new / delete
int __rt_fail_new_at = -1;  // -1: never
void (*verif_on_free)(void*) = nullptr;  // free_hook.h
static void freed(void* p) { if (verif_on_free && p) verif_on_free(p); free(p); }
size_t verif_alloc_limit = ~(size_t)0;  // larger requests fail (alloc_limit.h)
void* operator new(size_t n) {
  if (n > verif_alloc_limit) throw std::bad_alloc();
  void* p = malloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void operator delete(void* p) noexcept { freed(p); }
void operator delete[](void* p) noexcept { freed(p); }
void operator delete(void* p, size_t) noexcept { freed(p); }
void operator delete[](void* p, size_t) noexcept { freed(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
namespace std { const nothrow_t nothrow{}; }

// ---- terminate & friends
extern "C" void* __cxa_current_exception_object();
extern "C" int __cxa_uncaught_exceptions_count();
extern "C" void __cxa_exc_addref(void*);
extern "C" void __cxa_exc_release(void*);
extern "C" void __cxa_exc_rethrow(void*) __attribute__((noreturn));
extern "C" const std::type_info* __cxa_exc_type(void*);
extern "C" void __clang_call_terminate_rt(void*) { std::terminate(); }
extern "C" const std::type_info* __cxa_current_exception_type() { void* p = __cxa_current_exception_object(); return p ? __cxa_exc_type(p) : nullptr; }
namespace std {
int uncaught_exceptions() noexcept { return __cxa_uncaught_exceptions_count(); }
bool uncaught_exception() noexcept { return __cxa_uncaught_exceptions_count() > 0; }
typedef void (*th)();
terminate_handler set_terminate(terminate_handler) noexcept { return nullptr; }
terminate_handler get_terminate() noexcept { return nullptr; }

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }

namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { if (p) _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) __cxa_exc_addref(_M_exception_object); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { void* p = _M_exception_object; _M_exception_object = nullptr; __cxa_exc_release(p); } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const std::type_info* exception_ptr::__cxa_exception_type() const noexcept { return _M_exception_object ? __cxa_exc_type(_M_exception_object) : nullptr; }
}
exception_ptr current_exception() noexcept { return exception_ptr(__cxa_current_exception_object()); }
void rethrow_exception(exception_ptr p) { void* o = p._M_get(); __cxa_exc_rethrow(o); }
nested_exception::~nested_exception() noexcept {}

// ---- stdexcept.  The message is an owned C string.
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 0; _M_p = p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
static char* dupz(const char* s) { return s ? strdup(s) : nullptr; }
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupz(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupz(o._M_p); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = nullptr; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { std::swap(_M_p, o._M_p); return *this; }
#define EXC_ROOT(C)                                                             \
  C::C(const string& s) : _M_msg(s) {}                                          \
  C::C(const char* s) : _M_msg(s, strlen(s)) {}                                 \
  C::C(C&& o) noexcept : exception(), _M_msg(std::move(o._M_msg)) {}            \
  C& C::operator=(C&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; } \
  C::C(const C& o) noexcept : exception(), _M_msg(o._M_msg) {}                  \
  C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; }     \
  C::~C() noexcept {}                                                           \
  const char* C::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
EXC_ROOT(logic_error)
EXC_ROOT(runtime_error)
#define EXC(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "future_error"; }

#define THROW1(f, E) void f(const char* s) { throw E(s); }
THROW1(__throw_logic_error, logic_error) THROW1(__throw_domain_error, domain_error) THROW1(__throw_invalid_argument, invalid_argument)
THROW1(__throw_length_error, length_error) THROW1(__throw_out_of_range, out_of_range) THROW1(__throw_runtime_error, runtime_error)
THROW1(__throw_range_error, range_error) THROW1(__throw_overflow_error, overflow_error) THROW1(__throw_underflow_error, underflow_error)
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_future_error(int e) { throw future_error(make_error_code(future_errc(e))); }

// ---- error categories
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
namespace {
struct generic_cat : error_category {
  const char* name() const noexcept override { return "generic"; }
  string message(int) const override { return "generic error"; }
};
struct system_cat : error_category {
  const char* name() const noexcept override { return "system"; }
  string message(int) const override { return "system error"; }
  error_condition default_error_condition(int ev) const noexcept override { return error_condition(ev, generic_category()); }
};
struct future_cat : error_category {
  const char* name() const noexcept override { return "future"; }
  string message(int) const override { return "future error"; }
};
}
inline namespace _V2 {
const error_category& generic_category() noexcept { static generic_cat c; return c; }
const error_category& system_category() noexcept { static system_cat c; return c; }
}
const error_category& future_category() noexcept { static future_cat c; return c; }

// ---- list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this;
  first->_M_prev->_M_next = last;
  this->_M_prev->_M_next = first;
  _List_node_base* const tmp = this->_M_prev;
  this->_M_prev = last->_M_prev;
  last->_M_prev = first->_M_prev;
  first->_M_prev = tmp;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
  }
}
// ---- unordered containers
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = b * 2 + 1; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > nb) return {true, _M_next_bkt(ne + ni > 2 * nb ? ne + ni : 2 * nb)};
  return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {  // any function of the bytes will do
  const unsigned char* s = (const unsigned char*)p;
  size_t h = seed;
  for (size_t i = 0; i < n; ++i) h = (h ^ s[i]) * 0x100000001b3ul;
  return h;
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

// ---- red-black tree interface, modelled by an unbalanced search tree (same observable order)
typedef _Rb_tree_node_base* NP;
static NP rb_inc(NP x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  NP y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static NP rb_dec(NP x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;  // header
  if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  NP y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc(const_cast<NP>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec(const_cast<NP>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr;
  x->_M_color = _S_black;  // the header is the only red node
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
NP _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base& h) throw() {
  // update extremes
  NP nextN = h._M_left == z ? rb_inc(z) : nullptr;
  NP prevN = h._M_right == z ? rb_dec(z) : nullptr;
  bool only = h._M_left == z && h._M_right == z;
  auto replace = [&](NP u, NP v) {
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    NP y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right; y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (only) { h._M_left = &h; h._M_right = &h; h._M_parent = nullptr; }
  else { if (nextN) h._M_left = nextN; if (prevN) h._M_right = prevN; }
  return z;
}

// ---- threads
static void run_state(void* p) { thread::_State* s = (thread::_State*)p; s->_M_run(); delete s; }
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id((native_handle_type)(__sym_thread_create(run_state, s.release()) + 1)); }
void thread::join() { if (_M_id == id()) throw system_error(make_error_code(errc::invalid_argument)); __sym_thread_join((uint64_t)native_handle() - 1); _M_id = id(); }
void thread::detach() { if (_M_id == id()) throw system_error(make_error_code(errc::invalid_argument)); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { _M_cond.wait(*l.mutex()); }
void condition_variable::notify_one() noexcept { _M_cond.notify_one(); }
void condition_variable::notify_all() noexcept { _M_cond.notify_all(); }
namespace chrono { inline namespace _V2 {  // unless the harness has clocks of its own
static long long ticks_ = 1000000;
__attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(ticks_ += 1000)); }
__attribute__((weak)) system_clock::time_point system_clock::now() noexcept { return time_point(duration(ticks_ += 1000)); }
} }
namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) { __sym_thread_yield(); } }
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
// ---- futures
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
void __future_base::_State_baseV2::_Make_ready::_S_run(void* p) {
  auto* m = static_cast<_Make_ready*>(p);
  if (auto s = m->_M_shared_state.lock()) s->_M_status._M_store_notify_all(_State_baseV2::_Status::__ready, memory_order_release);
  delete m;
}
void __future_base::_State_baseV2::_Make_ready::_M_set() { abort(); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool to, chrono::seconds, chrono::nanoseconds) { return __sym_futex_wait(a, v, to); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool to, chrono::seconds, chrono::nanoseconds) { return __sym_futex_wait(a, v, to); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
_Sp_make_shared_tag const __rt_tag{};
bool _Sp_make_shared_tag::_S_eq(const type_info&) noexcept { return false; }
void __glibcxx_assert_fail(const char*, int, const char*, const char* c) noexcept { __sym_fail(c ? c : "libstdc++ assertion"); }
}  // namespace std
extern "C" int pthread_once(pthread_once_t* o, void (*f)()) {
  // 0: not started, 2: done
  if (*o == 2) return 0;
  f();
  *o = 2;
  return 0;
}
template class std::basic_string<char>;
template class std::basic_string<wchar_t>;
