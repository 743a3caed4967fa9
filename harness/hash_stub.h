// The SHA-512 primitive as a stand-in: an injective function of (short) content, so "equal digests" means "equal content".
#pragma once
#include "maidsafe/common/crypto.h"
namespace maidsafe { namespace crypto {
template <>
maidsafe::detail::BoundedString<64, 64, std::string> Hash<SHA512, std::string>(const std::string& input);
template <>
maidsafe::detail::BoundedString<64, 64, std::vector<byte>> Hash<SHA512, std::vector<byte>>(const std::vector<byte>& input);
} }
