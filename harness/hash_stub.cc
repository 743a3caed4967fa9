#include "hash_stub.h"
namespace maidsafe { namespace crypto {
template <typename S> static S digest_of(const S& in) {
  S r(64, 0);
  for (size_t i = 0; i < in.size() && i < 60; ++i) r[i] = in[i];
  r[62] = (unsigned char)(in.size() >> 8);
  r[63] = (unsigned char)in.size();
  return r;
}
template <>
maidsafe::detail::BoundedString<64, 64, std::string> Hash<SHA512, std::string>(const std::string& input) {
  return maidsafe::detail::BoundedString<64, 64, std::string>(digest_of(input));
}
template <>
maidsafe::detail::BoundedString<64, 64, std::vector<byte>> Hash<SHA512, std::vector<byte>>(const std::vector<byte>& input) {
  return maidsafe::detail::BoundedString<64, 64, std::vector<byte>>(digest_of(input));
}
} }
