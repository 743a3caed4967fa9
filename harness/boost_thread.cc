// The part of libboost_thread that boost::thread needs: start, join and detach of a thread (the rest of the class is
// header code).  Used by the symbolic build and by the cooperative native replay, so both have the same decision points.
#include "sym.h"
#include "boost/thread/thread.hpp"
namespace boost {
namespace detail {
thread_data_base::~thread_data_base() {}
}
static void run(void* p) {
  detail::thread_data_ptr self = static_cast<detail::thread_data_base*>(p)->self;
  self->run();
  self->self.reset();
}
bool thread::start_thread_noexcept() {
  thread_info->self = thread_info;
  thread_info->thread_handle = (pthread_t)(__sym_thread_create(run, thread_info.get()) + 1);
  return true;
}
bool thread::join_noexcept() {
  detail::thread_data_ptr info = thread_info;
  if (!info) return false;
  __sym_thread_join((uint64_t)info->thread_handle - 1);
  thread_info.reset();
  return true;
}
void thread::detach() { thread_info.reset(); }
bool thread::joinable() const BOOST_NOEXCEPT { return !!thread_info; }
thread::native_handle_type thread::native_handle() { return thread_info ? thread_info->thread_handle : (pthread_t)0; }

}
