// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: asio::async_write, asio::async_read and asio::post follow asio's documented contract
#include "net.hpp"
#include "asioext/socks/client.hpp"
#include <string>
namespace socks = asioext::socks;
using asio::ip::tcp;

static std::string any_string(const char* label, std::size_t limit, const uint8_t*& bytes) {
  std::size_t n = vf_u64(label); vf_assume(n <= limit);
  bytes = (const uint8_t*)vf_bytes(n, label);
  return std::string((const char*)bytes, n);
}


static int calls; static std::error_code result;
struct handler { void operator()(std::error_code ec) const { ++calls; result = ec; } };
struct greet_handler { void operator()(std::error_code ec, socks::auth_method) const { ++calls; result = ec; } };

// a buffer big enough for every request, holding nothing yet
struct scratch {
  asioext::linear_buffer lb;
  scratch() { lb.reserve(1024); }
  asioext::dynamic_linear_buffer<std::allocator<uint8_t>> operator()() { return asioext::dynamic_linear_buffer(lb); }
};

// unencodable arguments: nothing is sent, the operation fails asynchronously
static void refused() {
  vf_assert(net::what == net::posted, "nothing is sent for arguments the protocol cannot express");
  vf_assert(calls == 0, "the handler is not called inside the initiating function");
  net::finish(std::error_code(), 0);
  vf_assert(calls == 1 && result == asio::error::invalid_argument, "arguments the protocol cannot express complete with invalid_argument");
  vf_assert(net::op == nullptr, "nothing is sent for arguments the protocol cannot express");
}

// the request is sent as one write of exactly these bytes
template <class At> static void sent(std::size_t n, At at) {
  vf_assert(calls == 0, "the handler is not called inside the initiating function");
  vf_assert(net::what == net::write, "the request is sent");
  vf_assert(net::size == n, "request size");
  std::size_t k = vf_u64("k"); vf_assume(k < n);
  vf_assert(net::out[k] == at(k), "request bytes");
}

static socks::command any_command() { return static_cast<socks::command>(vf_u8("command")); }

struct any_endpoint {
  tcp::endpoint ep; bool v4; uint16_t port; const uint8_t* addr;
  any_endpoint() {
    port = vf_u16("port");
    addr = (const uint8_t*)vf_bytes(16, "address");
    v4 = vf_bool("ipv4");
    if (v4) {
      asio::ip::address_v4::bytes_type b;
      for (int i = 0; i < 4; ++i) b[i] = addr[i];
      ep = tcp::endpoint(asio::ip::address_v4(b), port);
    } else {
      asio::ip::address_v6::bytes_type b;
      for (int i = 0; i < 16; ++i) b[i] = addr[i];
      ep = tcp::endpoint(asio::ip::address_v6(b), port);
    }
  }
};

// ---- SOCKS4a: VN CD DSTPORT DSTIP USERID NUL [HOST NUL]
VF_HARNESS(v4_endpoint) {
  net::socket s; scratch buf;
  const uint8_t* ub;
  std::string user = any_string("user", 700, ub);
  const std::size_t nu = user.size();
  any_endpoint e;
  socks::command cmd = any_command();
  socks::async_execute(s, cmd, e.ep, user, buf(), handler());
  if (!e.v4) { vf_cover("ipv6 cannot be expressed"); refused(); return; }
  sent(nu + 9, [&](std::size_t k) -> uint8_t {
    if (k == 0) return 4;
    if (k == 1) return (uint8_t)cmd;
    if (k == 2) return e.port >> 8;
    if (k == 3) return e.port & 0xff;
    if (k < 8) return e.addr[k - 4];
    return k < 8 + nu ? ub[k - 8] : 0;
  });
  vf_cover("sent");
  vf_stop();
}

VF_HARNESS(v4_host) {
  net::socket s; scratch buf;
  const uint8_t *ub, *hb;
  std::string user = any_string("user", 400, ub), host = any_string("host", 400, hb);
  const std::size_t nu = user.size(), nh = host.size();
  vf_assume(nh > 0);
  uint16_t port = vf_u16("port");
  socks::command cmd = any_command();
  socks::async_execute(s, cmd, host, port, user, buf(), handler());
  sent(nu + nh + 10, [&](std::size_t k) -> uint8_t {
    if (k == 0) return 4;
    if (k == 1) return (uint8_t)cmd;
    if (k == 2) return port >> 8;
    if (k == 3) return port & 0xff;
    if (k < 8) return k == 7;          // 0.0.0.1: the host name follows
    if (k < 8 + nu) return ub[k - 8];
    if (k == 8 + nu) return 0;
    return k < 9 + nu + nh ? hb[k - 9 - nu] : 0;
  });
  vf_cover("sent");
  vf_stop();
}

// ---- SOCKS5 (RFC 1928, RFC 1929)
VF_HARNESS(greet) {
  net::socket s; scratch buf;
  std::size_t n = vf_u64("methods"); vf_assume(n <= 1000);
  const uint8_t* m = (const uint8_t*)vf_bytes(n, "methods");
  std::size_t j = vf_u64("j");
  if (j < n) vf_seq(j, m[j]);
  socks::async_greet(s, (const socks::auth_method*)m, n, buf(), greet_handler());
  if (n > 255) { vf_cover("too many methods"); refused(); return; }
  vf_assert(calls == 0, "the handler is not called inside the initiating function");
  vf_assert(net::what == net::write, "the request is sent");
  vf_assert(net::size == n + 2, "request size");
  vf_assert(net::out[0] == 5 && net::out[1] == n, "request bytes");
  if (j < n) { vf_assert(net::out[2 + j] == m[j], "request bytes"); vf_cover("sent"); }
  vf_stop();
}

VF_HARNESS(login) {
  net::socket s; scratch buf;
  const uint8_t *ub, *pb;
  std::string user = any_string("user", 400, ub), pass = any_string("pass", 400, pb);
  const std::size_t nu = user.size(), np = pass.size();
  socks::async_login(s, user, pass, buf(), handler());
  if (nu > 255 || np > 255) { vf_cover("too long"); refused(); return; }
  sent(nu + np + 3, [&](std::size_t k) -> uint8_t {
    if (k == 0) return 1;
    if (k == 1) return (uint8_t)nu;
    if (k < nu + 2) return ub[k - 2];
    if (k == nu + 2) return (uint8_t)np;
    return pb[k - nu - 3];
  });
  vf_cover("sent");
  vf_stop();
}

VF_HARNESS(v5_endpoint) {
  net::socket s; scratch buf;
  any_endpoint e;
  socks::command cmd = any_command();
  socks::async_execute(s, cmd, e.ep, buf(), handler());
  const std::size_t na = e.v4 ? 4 : 16;
  sent(na + 6, [&](std::size_t k) -> uint8_t {
    if (k == 0) return 5;
    if (k == 1) return (uint8_t)cmd;
    if (k == 2) return 0;
    if (k == 3) return e.v4 ? 1 : 4;
    if (k < 4 + na) return e.addr[k - 4];
    return k == 4 + na ? e.port >> 8 : e.port & 0xff;
  });
  if (e.v4) vf_cover("ipv4"); else vf_cover("ipv6");
  vf_stop();
}

VF_HARNESS(v5_host) {
  net::socket s; scratch buf;
  const uint8_t* hb;
  std::string host = any_string("host", 600, hb);
  const std::size_t nh = host.size();
  vf_assume(nh > 0);
  uint16_t port = vf_u16("port");
  socks::command cmd = any_command();
  socks::async_execute(s, cmd, host, port, buf(), handler());
  if (nh > 255) { vf_cover("too long"); refused(); return; }
  sent(nh + 7, [&](std::size_t k) -> uint8_t {
    if (k == 0) return 5;
    if (k == 1) return (uint8_t)cmd;
    if (k == 2) return 0;
    if (k == 3) return 3;
    if (k == 4) return (uint8_t)nh;
    if (k < 5 + nh) return hb[k - 5];
    return k == 5 + nh ? port >> 8 : port & 0xff;
  });
  vf_cover("sent");
  vf_stop();
}
