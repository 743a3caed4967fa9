// identity.cc / types need RandomBytes; the harnesses that use this stub never rely on its value.
#include "sym.h"
#include "maidsafe/common/utils.h"
namespace maidsafe {
std::vector<byte> RandomBytes(std::size_t size) { return sym_vec("random", size); }
}
