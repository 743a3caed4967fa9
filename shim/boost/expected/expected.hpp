// Minimal stand-in for the boost::expected candidate library the repository was written against (it is not
// installed here).  Only what /repo uses: construction from a value or boost::unexpected, valid(), bool, value(), error().
#pragma once
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <new>
namespace boost {
template <typename E>
class unexpected_type {
 public:
  explicit unexpected_type(E e) : e_(std::move(e)) {}
  const E& value() const { return e_; }
 private:
  E e_;
};
template <typename E>
unexpected_type<typename std::decay<E>::type> make_unexpected(E&& e) {
  return unexpected_type<typename std::decay<E>::type>(std::forward<E>(e));
}
template <typename E>
struct bad_expected_access : std::logic_error {
  explicit bad_expected_access(E e) : std::logic_error("bad_expected_access"), error_(std::move(e)) {}
  const E& error() const { return error_; }
  E error_;
};
template <typename T, typename E>
class expected {
 public:
  using value_type = T;
  using error_type = E;
  expected(const T& v) : value_(std::make_shared<T>(v)) {}
  expected(T&& v) : value_(std::make_shared<T>(std::move(v))) {}
  template <typename E2>
  expected(const unexpected_type<E2>& u) : error_(std::make_shared<E>(u.value())) {}
  expected() : value_(std::make_shared<T>()) {}
  expected(const expected& o)
      : value_(o.value_ ? std::make_shared<T>(*o.value_) : nullptr), error_(o.error_ ? std::make_shared<E>(*o.error_) : nullptr) {}
  expected(expected&& o) : value_(o.value_), error_(o.error_) {}
  expected& operator=(expected o) { value_ = o.value_; error_ = o.error_; return *this; }
  bool valid() const { return value_ != nullptr; }
  bool has_value() const { return value_ != nullptr; }
  explicit operator bool() const { return valid(); }
  T& value() { check(); return *value_; }
  const T& value() const { check(); return *value_; }
  T& operator*() { return *value_; }
  const T& operator*() const { return *value_; }
  T* operator->() { return value_.get(); }
  const T* operator->() const { return value_.get(); }
  E& error() { return *error_; }
  const E& error() const { return *error_; }
 private:
  void check() const { if (!value_) throw bad_expected_access<E>(*error_); }
  std::shared_ptr<T> value_;
  std::shared_ptr<E> error_;
};
}  // namespace boost
