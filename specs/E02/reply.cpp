// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: asio::async_write, asio::async_read and asio::post follow asio's documented contract
#include "net.hpp"
#include "asioext/socks/client.hpp"
#include <string>
namespace socks = asioext::socks;
using asio::ip::tcp;
typedef std::error_code error_code;

static int calls; static error_code result; static socks::auth_method method;
struct handler { void operator()(error_code ec) const { ++calls; result = ec; } };
struct greet_handler { void operator()(error_code ec, socks::auth_method m) const { ++calls; result = ec; method = m; } };

static void completed(const char* clause) {
  vf_assert(net::op == nullptr, "nothing is read beyond the reply");
  vf_assert(calls == 1, "the handler is called exactly once");
}

// the pending transfer of n bytes fails, and the operation with it
static bool transport_fails(net::kind k) {
  vf_assert(calls == 0, "the handler is called exactly once");
  vf_assert(net::what == k, "the reply is awaited");
  if (vf_bool("transport ok")) return false;
  error_code e((int)(1 + vf_u8("errno") % 120), asio::error::get_system_category());
  net::finish(e, 0);
  completed("transport");
  vf_assert(result == e, "a transport error is reported as it is");
  vf_cover("transport error");
  return true;
}

// the request leaves completely; returns false if the operation is over
static bool request() {
  if (transport_fails(net::write)) return false;
  net::finish(error_code(), net::size);
  return true;
}

// exactly n bytes of the reply are awaited and arrive
static bool receive(std::size_t n, uint8_t* bytes, std::size_t keep) {
  if (transport_fails(net::read)) return false;
  vf_assert(net::size == n, "exactly the bytes of the reply are read");
  const uint8_t* in = (const uint8_t*)vf_bytes(n, "reply");
  for (std::size_t i = 0; i < keep; ++i) bytes[i] = net::in[i] = in[i];
  if (keep < n) for (std::size_t i = keep; i < 5 && i < n; ++i) net::in[i] = in[i];
  net::finish(error_code(), n);
  return true;
}

static void is(error_code want) {
  completed("reply");
  vf_assert(!!result == !!want, "success is reported if and only if the server granted the request");
  vf_assert(result == want, "the reply's status selects the error");
}

VF_HARNESS(v4) {
  net::socket s; asioext::linear_buffer lb;
  if (vf_bool("by name"))
    socks::async_execute(s, socks::command::connect, std::string("example"), vf_u16("port"), std::string("me"), asioext::dynamic_linear_buffer(lb), handler());
  else
    socks::async_execute(s, socks::command::connect, tcp::endpoint(asio::ip::address_v4(vf_u32("address")), vf_u16("port")), std::string(), asioext::dynamic_linear_buffer(lb), handler());
  if (!request()) return;
  uint8_t r[2];
  if (!receive(8, r, 2)) return;
  vf_assert(lb.size() == 0, "the buffer is left empty");
  if (r[0] != 0) { vf_cover("version"); is(socks::error::invalid_version); }
  else if (r[1] == 0x5a) { vf_cover("granted"); is(error_code()); }
  else if (r[1] == 0x5c) { vf_cover("identd"); is(socks::error::identd_not_reachable); }
  else if (r[1] == 0x5d) { vf_cover("login"); is(socks::error::login_failed); }
  else { vf_cover("rejected"); is(socks::error::generic); }
}

VF_HARNESS(greet) {
  net::socket s; asioext::linear_buffer lb;
  std::size_t n = vf_u64("methods"); vf_assume(n <= 255);
  const uint8_t* m = (const uint8_t*)vf_bytes(n, "methods");
  socks::async_greet(s, (const socks::auth_method*)m, n, asioext::dynamic_linear_buffer(lb), greet_handler());
  if (!request()) { vf_assert(method == socks::auth_method::no_acceptable, "no method is chosen on failure"); return; }
  uint8_t r[2];
  if (!receive(2, r, 2)) { vf_assert(method == socks::auth_method::no_acceptable, "no method is chosen on failure"); return; }
  vf_assert(lb.size() == 0, "the buffer is left empty");
  if (r[0] != 5) { vf_cover("version"); is(socks::error::invalid_version); }
  else if (r[1] == 0xff) { vf_cover("none acceptable"); is(socks::error::no_acceptable_auth_method); }
  else { vf_cover("chosen"); is(error_code()); vf_assert((uint8_t)method == r[1], "the server's choice is passed on"); return; }
  vf_assert(method == socks::auth_method::no_acceptable, "no method is chosen on failure");
}

VF_HARNESS(login) {
  net::socket s; asioext::linear_buffer lb;
  socks::async_login(s, std::string("user"), std::string("secret"), asioext::dynamic_linear_buffer(lb), handler());
  if (!request()) return;
  uint8_t r[2];
  if (!receive(2, r, 2)) return;
  vf_assert(lb.size() == 0, "the buffer is left empty");
  if (r[0] != 1) { vf_cover("version"); is(socks::error::invalid_auth_version); }
  else if (r[1] != 0) { vf_cover("rejected"); is(socks::error::login_failed); }
  else { vf_cover("accepted"); is(error_code()); }
}

VF_HARNESS(v5) {
  net::socket s; asioext::linear_buffer lb;
  if (vf_bool("by name"))
    socks::async_execute(s, socks::command::connect, std::string("example"), vf_u16("port"), asioext::dynamic_linear_buffer(lb), handler());
  else
    socks::async_execute(s, socks::command::connect, tcp::endpoint(asio::ip::address_v4(vf_u32("address")), vf_u16("port")), asioext::dynamic_linear_buffer(lb), handler());
  if (!request()) return;
  uint8_t r[5];
  if (!receive(5, r, 5)) return;
  if (r[0] != 5) { vf_cover("version"); is(socks::error::invalid_version); return; }
  if (r[1] != 0) {
    vf_cover("rejected");
    switch (r[1]) {
      case 2: is(asio::error::no_permission); break;
      case 3: is(asio::error::network_unreachable); break;
      case 4: is(asio::error::host_unreachable); break;
      case 5: is(asio::error::connection_refused); break;
      case 6: is(asio::error::timed_out); break;
      case 7: is(socks::error::command_not_supported); break;
      case 8: is(asio::error::address_family_not_supported); break;
      default: vf_cover("unknown status"); is(socks::error::generic); break;
    }
    return;
  }
  // the bound address: its first byte has been read already
  if (r[3] != 1 && r[3] != 3 && r[3] != 4) {
    vf_cover("unknown address type");
    completed("address type");
    vf_assert(!!result, "success is reported if and only if the server granted the request");
    return;
  }
  uint8_t x[1];
  std::size_t rest = 2 + (r[3] == 1 ? 3u : r[3] == 4 ? 15u : (unsigned)r[4]);
  if (!receive(rest, x, 0)) return;
  vf_cover("granted");
  is(error_code());
  vf_assert(lb.size() == 0, "the buffer is left empty");
}
