// boost::thread_specific_ptr for one thread
#pragma once
#define BOOST_THREAD_TSS_HPP
#include <memory>
namespace boost {
template <typename T>
class thread_specific_ptr {
 public:
  T* get() const { return p.get(); }
  void reset(T* t) { p.reset(t); }
  T& operator*() const { return *p; }
  T* operator->() const { return p.get(); }
 private:
  std::unique_ptr<T> p;
};
}
