#include "secure_stub.h"
#include "sym.h"
#include "maidsafe/common/utils.h"
#include <random>
namespace maidsafe {
namespace detail {
std::mt19937& random_number_generator() { static std::mt19937 g(7); return g; }
std::mutex& random_number_generator_mutex() { static std::mutex m; return m; }
}
namespace crypto {
template <>
maidsafe::detail::BoundedString<64, 64, authentication::detail::SafeString> Hash<SHA512, authentication::detail::SafeString>(const authentication::detail::SafeString& in) {
  authentication::detail::SafeString r(64, 0);
  for (size_t i = 0; i < in.size() && i < 60; ++i) r[i] = in[i];
  r[63] = (char)in.size();
  return maidsafe::detail::BoundedString<64, 64, authentication::detail::SafeString>(r);
}
}
}
