// Instantiates the packet templates so that the analysis sees their bodies.
#include "plain/net/packet/basic.h"
using plain::net::packet::Basic;
namespace verif_drivers {
template <typename T> void rw(Basic &p) { T v{}; p << v; p >> v; }
void packet_ops(Basic &p) {
  rw<uint8_t>(p); rw<int8_t>(p); rw<uint16_t>(p); rw<int16_t>(p); rw<uint32_t>(p); rw<int32_t>(p);
  rw<uint64_t>(p); rw<int64_t>(p);
  std::string s; p << s; p >> s;
  plain::bytes_t b; p << b; p >> b;
  std::vector<uint8_t> v; p << v;
}
}
