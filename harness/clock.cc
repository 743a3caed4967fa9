// Clock: the reading is the operating system's, in nanoseconds, with nothing lost.
#include "util.h"
#include <chrono>
#include <limits>
#include "maidsafe/common/clock.h"
using namespace maidsafe;
typedef Clock::time_point TP;
typedef std::chrono::nanoseconds ns;
static int64_t reading;
static int readings;
// replaces the library's: the operating system clock returns whatever the harness chose
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept {
  ++readings;
  return time_point(duration(reading));
}
extern "C" void clock_now(long) {
  reading = (int64_t)sym_u64("reading");
  int before = readings;
  TP t = Clock::now();
  CHECK(readings == before + 1, "one reading of the operating system clock");
  CHECK(t.time_since_epoch().count() == std::chrono::duration_cast<ns>(std::chrono::system_clock::duration(reading)).count(), "the reading, in nanoseconds since 1970");
  int64_t first = reading;
  reading = (int64_t)sym_u64("later");
  sym_assume(reading >= first);
  CHECK(Clock::now() >= t, "a later system reading never gives an earlier project time");
  static_assert(std::ratio_equal<Clock::period, std::nano>::value, "nanosecond ticks");
  REACH("now");
}
extern "C" void clock_time_t(long) {
  int64_t n = (int64_t)sym_u64("n");
  TP t{ns(n)};
  std::time_t s = Clock::to_time_t(t);
  CHECK(s == n / 1000000000, "whole seconds since 1970, rounded towards it");
  int64_t back = Clock::from_time_t(s).time_since_epoch().count();
  int64_t lost = (int64_t)((uint64_t)n - (uint64_t)back);
  CHECK(lost < 1000000000, "less than a second is lost");
  CHECK(lost > -1000000000, "less than a second is gained");
  CHECK(((n >= 0) & (lost >= 0)) | ((n < 0) & (lost <= 0)), "towards 1970");
  REACH("to");
}
extern "C" void clock_from_time_t(long) {
  std::time_t s = (std::time_t)sym_u64("s");
  const std::time_t lim = std::numeric_limits<int64_t>::max() / 1000000000;
  sym_assume(s <= lim && s >= -lim);
  TP t = Clock::from_time_t(s);
  CHECK(t.time_since_epoch().count() == s * 1000000000, "seconds become nanoseconds exactly");
  CHECK(Clock::to_time_t(t) == s, "and come back unchanged");
  std::time_t u = (std::time_t)sym_u64("u");
  sym_assume(u <= lim && u >= -lim);
  CHECK((Clock::from_time_t(u) < t) == (u < s), "order is kept");
  REACH("from");
}
