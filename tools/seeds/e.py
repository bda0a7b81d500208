MOCK = r'''
#include "asioext/socks/client.hpp"
#include <asio.hpp>
#include <string>
#include <deque>
using namespace asioext; using asio::ip::tcp;
// a peer with a scripted reply
struct peer {
  typedef asio::io_context::executor_type executor_type;
  asio::io_context io; std::string sent, reply;
  executor_type get_executor() { return io.get_executor(); }
  template <class B, class H> void async_write_some(const B& b, H&& h) {
    std::size_t n = asio::buffer_size(b); std::string t(n, 0); asio::buffer_copy(asio::buffer(t), b); sent += t;
    asio::post(io, [n, h = std::move(h)]() mutable { h(std::error_code(), n); });
  }
  template <class B, class H> void async_read_some(const B& b, H&& h) {
    std::size_t n = asio::buffer_copy(b, asio::buffer(reply)); reply.erase(0, n);
    std::error_code ec; if (n == 0 && asio::buffer_size(b)) ec = asio::error::eof;
    asio::post(io, [n, ec, h = std::move(h)]() mutable { h(ec, n); });
  }
};
static int calls; static std::error_code result;
struct done { void operator()(std::error_code ec) const { ++calls; result = ec; } };
struct gdone { void operator()(std::error_code ec, socks::auth_method) const { ++calls; result = ec; } };
'''
seed('E01-host-256', 'E01', [('socks/detail/impl/protocol.cpp', '  if (remote_host_size > 255)', '  if (remote_host_size > 256)')],
     'a host name of exactly 256 characters', 'the length byte of the request wraps to 0 and the name is taken for further requests', MOCK + r'''
int main() {
  peer p; linear_buffer lb;
  socks::async_execute(p, socks::command::connect, std::string(256, 'a'), 80, dynamic_linear_buffer<std::allocator<uint8_t>>(lb), done());
  p.io.run();
  CHECK(p.sent.empty() && calls == 1 && result == asio::error::invalid_argument);
}''')
seed('E01-login-sum', 'E01', [('socks/detail/impl/protocol.cpp', '  if (username_size > 255 || password_size > 255)', '  if (username_size + password_size > 255 + 255)')],
     'a long user name together with a short password', 'the length bytes of the login request wrap around', MOCK + r'''
int main() {
  peer p; linear_buffer lb;
  socks::async_login(p, std::string(300, 'u'), std::string("p"), dynamic_linear_buffer<std::allocator<uint8_t>>(lb), done());
  p.io.run();
  CHECK(p.sent.empty() && calls == 1 && result == asio::error::invalid_argument);
}''')
seed('E01-user-cstr', 'E01', [('socks/detail/impl/protocol.cpp', '''  std::memcpy(out, password.data(), password_size);
  out += password_size;''', '''  for (const char* p = password.c_str(); *p; ++p)
    *out++ = static_cast<uint8_t>(*p);''')],
     'a password with an embedded NUL character', 'the request ends in bytes that are not part of the password', MOCK + r'''
int main() {
  peer p; linear_buffer lb;
  std::string pw("a\0bc", 4);
  lb.reserve(64); std::memset(lb.data(), 'Z', 64);
  socks::async_login(p, std::string("u"), pw, dynamic_linear_buffer<std::allocator<uint8_t>>(lb), done());
  p.io.run();
  CHECK(p.sent == std::string("\x01\x01u\x04", 4) + pw);
}''')
seed('E01-mapped', 'E01', [('socks/detail/impl/protocol.cpp', '''  std::size_t size = 6;
  if (!remote_host.empty())
    size += remote_host_size + 1;
  else if (is_v4)
    size += 4;
  else
    size += 16;

  return size;''', '''  std::size_t size = 6;
  if (!remote_host.empty())
    size += remote_host_size + 1;
  else if (is_v4 || remote.address().to_v6().is_v4_mapped())
    size += 4;
  else
    size += 16;

  return size;''')],
     'an IPv4-mapped IPv6 endpoint', 'the request is cut short: it announces an IPv6 address but carries only 4 of its bytes', MOCK + r'''
int main() {
  peer p; linear_buffer lb;
  socks::async_execute(p, socks::command::connect, tcp::endpoint(asio::ip::make_address_v6("::ffff:1.2.3.4"), 80), dynamic_linear_buffer<std::allocator<uint8_t>>(lb), done());
  p.io.run();
  CHECK(p.sent.size() == 22 && p.sent[3] == 4);
}''')
seed('E02-name-sign', 'E02', [('socks/detail/client.hpp', '        size = first_address_byte_;', '        size = static_cast<std::size_t>(first_address_byte_ & 0x7f);')],
     'a SOCKS5 reply naming a host of more than 127 characters', 'part of the reply is left in the stream and taken for payload', MOCK + r'''
int main() {
  peer p; linear_buffer lb;
  p.reply = std::string("\x05\x00\x00\x03\xc8", 5) + std::string(200, 'h') + "\x01\x02" + "payload";
  socks::async_execute(p, socks::command::connect, std::string("host"), 80, dynamic_linear_buffer<std::allocator<uint8_t>>(lb), done());
  p.io.run();
  CHECK(calls == 1 && !result && p.reply == "payload");
}''')
seed('E02-login-status', 'E02', [('socks/detail/client.hpp', '''    if (status_code != 0) {
      self.complete(error::login_failed);''', '''    if (status_code == 1) {
      self.complete(error::login_failed);''')],
     'a server that refuses the login with a status other than 1', 'a refused login is reported as success', MOCK + r'''
int main() {
  peer p; linear_buffer lb;
  p.reply = std::string("\x01\xff", 2);
  socks::async_login(p, std::string("u"), std::string("p"), dynamic_linear_buffer<std::allocator<uint8_t>>(lb), done());
  p.io.run();
  CHECK(calls == 1 && result == socks::error::login_failed);
}''')
seed('E02-v4-size', 'E02', [('socks/detail/client.hpp', '''        socket_, buffer_.prepare(1 + 1 + 2 + 4),
        std::move(self));
    buffer_.commit(1 + 1 + 2 + 4);''', '''        socket_, buffer_.prepare(1 + 1),
        std::move(self));
    buffer_.commit(1 + 1 + 2 + 4);''')],
     'reading from the proxied connection after a SOCKS4a request', 'six bytes of the reply are taken for payload', MOCK + r'''
int main() {
  peer p; linear_buffer lb;
  p.reply = std::string("\x00\x5a\x00\x00\x00\x00\x00\x00payload", 15);
  socks::async_execute(p, socks::command::connect, std::string("host"), 80, std::string("me"), dynamic_linear_buffer<std::allocator<uint8_t>>(lb), done());
  p.io.run();
  CHECK(calls == 1 && !result && p.reply == "payload");
}''')
