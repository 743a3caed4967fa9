// convert.h: text/bytes, addresses and endpoints between the two asio flavours, error codes.
#include "util.h"
#include "maidsafe/common/convert.h"
using namespace maidsafe;

extern "C" void cv_bytes(long n) {
  std::string s = sym_string("s", n);
  std::vector<unsigned char> v = convert::ToByteVector(s);
  CHECK(v.size() == s.size() && (!n || same_bytes(&v[0], &s[0], n)), "every byte is kept in order");
  std::string t = convert::ToString(v);
  CHECK(same_content(s, t), "and back");
  std::vector<unsigned char> w = sym_vec("w", n);
  CHECK(same_content(convert::ToByteVector(convert::ToString(w)), w), "bytes survive both directions");
  REACH("bytes");
}
extern "C" void cv_v4(long) {
  uint32_t a = sym_u32("a"), b = sym_u32("b");
  boost::asio::ip::address_v4 x((boost::asio::ip::address_v4::uint_type)a);
  asio::ip::address_v4 y = convert::ToAsio(x);
  CHECK(y.to_ulong() == a, "the address is kept");
  CHECK(convert::ToBoost(y) == x, "and back");
  CHECK((convert::ToAsio(boost::asio::ip::address_v4((boost::asio::ip::address_v4::uint_type)b)) == y) == (a == b), "different addresses stay different");
  auto bytes = y.to_bytes();
  CHECK(bytes[0] == (a >> 24) && bytes[3] == (a & 0xff), "network order");
  asio::ip::address g(y);
  boost::asio::ip::address h = convert::ToBoost(g);
  CHECK(h.is_v4() && h.to_v4().to_ulong() == a, "generic address: version and value are kept");
  CHECK(convert::ToAsio(h) == g, "and back");
  uint16_t port = sym_u16("port");
  asio::ip::udp::endpoint e(g, port);
  boost::asio::ip::udp::endpoint f = convert::ToBoost(e);
  CHECK(f.port() == port && f.address().is_v4() && f.address().to_v4().to_ulong() == a, "endpoint: address and port are kept");
  CHECK(convert::ToAsio(f) == e, "and back");
  REACH("v4");
}
extern "C" void cv_v6(long) {
  asio::ip::address_v6::bytes_type b;
  boost::asio::ip::address_v6::bytes_type c;
  for (int i = 0; i < 16; ++i) b[i] = c[i] = sym_u8("b");
  uint32_t scope = sym_u32("scope");
  asio::ip::address_v6 x(b, scope);
  boost::asio::ip::address_v6 y = convert::ToBoost(x);
  CHECK(y.to_bytes() == c && y.scope_id() == scope, "address and scope are kept");
  asio::ip::address_v6 z = convert::ToAsio(y);
  CHECK(z.to_bytes() == b && z.scope_id() == scope, "and back");
  boost::asio::ip::address_v6 y2(c, scope);
  asio::ip::address_v6 z2 = convert::ToAsio(y2);
  CHECK(z2.to_bytes() == b && z2.scope_id() == scope, "from the other side");
  asio::ip::address g(x);
  boost::asio::ip::address h = convert::ToBoost(g);
  CHECK(h.is_v6() && h.to_v6().to_bytes() == c && h.to_v6().scope_id() == scope, "generic address: version, value and scope are kept");
  asio::ip::address g2 = convert::ToAsio(h);
  CHECK(g2.is_v6() && g2.to_v6().to_bytes() == b && g2.to_v6().scope_id() == scope, "and back");
  uint16_t port = sym_u16("port");
  asio::ip::udp::endpoint e(g, port);
  boost::asio::ip::udp::endpoint f = convert::ToBoost(e);
  CHECK(f.port() == port && f.address().is_v6() && f.address().to_v6().to_bytes() == c && f.address().to_v6().scope_id() == scope, "endpoint: address, scope and port are kept");
  asio::ip::udp::endpoint e2 = convert::ToAsio(f);
  CHECK(e2.port() == port && e2.address().is_v6() && e2.address().to_v6().to_bytes() == b && e2.address().to_v6().scope_id() == scope, "and back");
  REACH("v6");
}
extern "C" void cv_error(long) {
  int v = sym_i32("v");
  boost::system::error_code ec(v, boost::system::system_category()), gc(v, boost::system::generic_category());
  for (auto& e : {convert::ToStd(ec), convert::ToStd(gc)}) {
    CHECK(e.value() == v, "the value is kept");
    CHECK(e.category() == std::generic_category(), "the category is the generic one");
    CHECK((bool)e == (v != 0), "success stays success, failure stays failure");
  }
  REACH("error");
}
