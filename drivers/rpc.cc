// Instantiates the RPC marshalling templates so that the analysis sees their bodies.
#include <array>
#include <list>
#include <map>
#include <tuple>
#include <unordered_map>
#include <vector>
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
#include "plain/net/rpc/utility.h"
#include "plain/net/rpc/dispatcher.h"
using plain::net::rpc::Packer;
using plain::net::rpc::Unpacker;
namespace verif_drivers {
struct Custom {
  uint32_t a{}; std::string b;
  template <typename T> void pack(T &p) { p(a, b); }
};
template <typename T> void rt(Packer &p, Unpacker &u) { T v{}; p.process(v); u.process(v); v = u.as<T>(); }
void rpc_ops(Packer &p, Unpacker &u) {
  rt<uint8_t>(p, u); rt<int8_t>(p, u); rt<uint16_t>(p, u); rt<int16_t>(p, u); rt<uint32_t>(p, u); rt<int32_t>(p, u);
  rt<uint64_t>(p, u); rt<int64_t>(p, u); rt<bool>(p, u); rt<float>(p, u); rt<double>(p, u); rt<std::string>(p, u);
  rt<std::vector<uint8_t>>(p, u); rt<std::vector<uint32_t>>(p, u); rt<std::list<std::string>>(p, u);
  rt<std::map<uint8_t, std::string>>(p, u); rt<std::unordered_map<uint32_t, std::string>>(p, u);
  rt<std::array<uint32_t, 3>>(p, u); rt<std::tuple<int32_t, std::string>>(p, u); rt<Custom>(p, u);
  rt<std::chrono::steady_clock::time_point>(p, u);
}
static int add2(int a, int b) { return a + b; }
static void note(std::string) {}
static int zero() { return 0; }
void dispatcher_ops(plain::net::rpc::Dispatcher &d) {
  d.bind("add", &add2);
  d.bind("note", &note);
  d.bind("zero", &zero);
  d.bind("lam", [](int a, std::string b) { return std::to_string(a) + b; });
  d.bind("lamv", [](uint32_t) {});
}
}
#include "plain/net/connection/basic.h"
namespace verif_drivers {
void conn_ops(plain::net::connection::Basic &c) {
  c.call("add", 1, 2);
  c.call("name", std::string{"x"});
  c.send("note", std::string{"x"});
  c.send("none");
}
}
