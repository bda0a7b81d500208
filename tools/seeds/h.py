# ---- E03: connecting by name
CN = r'''
#include <asioext/connect.hpp>
#include <asio.hpp>
#include <string>
#include <system_error>
using asio::ip::tcp;
typedef asio::ip::resolver_base rb;
struct server { asio::io_context& c; tcp::acceptor a; std::string port; server(asio::io_context& x, const char* at) : c(x), a(x, tcp::endpoint(asio::ip::make_address(at), 0)), port(std::to_string(a.local_endpoint().port())) {} };
static std::error_code async(asio::io_context& c, tcp::socket& s, tcp::resolver& r, std::string h, std::string p, rb::flags f, tcp::endpoint& e, int& n) {
  std::error_code ec; n = 0; c.restart();
  asioext::async_connect<tcp, tcp::socket::executor_type>(s, r, h, p, f, [&](std::error_code x, tcp::endpoint y) { ++n; ec = x; e = y; });
  for (char& x : h) x = 'x'; for (char& x : p) x = 'x';
  c.run(); return ec;
}
'''
seed('E03-close-once', 'E03', [('impl/connect.cpp', '''  for (const auto& entry : results) {
    socket.close(ec);
    socket.connect(entry, ec);''', '''  if (socket.is_open() && !results.empty())
    socket.close(ec);
  for (const auto& entry : results) {
    socket.connect(entry, ec);''')],
     'a name with several endpoints, the first of which cannot be connected to', 'the second attempt reuses the socket of the first', CN + r'''
int main() { asio::io_context c; server v(c, "127.0.0.1"); tcp::resolver r(c); tcp::socket s(c); std::error_code ec;
  asioext::connect(s, r, "", v.port, {}, ec); CHECK(!ec); CHECK(s.remote_endpoint() == v.a.local_endpoint()); }''', '-pthread')
seed('E03-resolver-error', 'E03', [('impl/connect.cpp', '''  if (ec)
    return;

''', '''  if (ec && !results.empty())
    return;

''')],
     'a name that cannot be resolved', 'the error of the resolver is replaced by not_found', CN + r'''
int main() { asio::io_context c; tcp::resolver r(c); tcp::socket s(c); std::error_code ec;
  asioext::connect(s, r, "localhost", "1", rb::numeric_host, ec); CHECK(ec == asio::error::host_not_found); }''', '-pthread')
seed('E03-close-on-error', 'E03', [('impl/connect.cpp', '''{
  // Get a list of endpoints corresponding to the query.
''', '''{
  // The socket is about to be reused.
  if (socket.is_open())
    socket.close(ec);

  // Get a list of endpoints corresponding to the query.
''')],
     'a connected socket and a name that cannot be resolved', 'the existing connection is lost', CN + r'''
int main() { asio::io_context c; server v(c, "127.0.0.1"); tcp::resolver r(c); tcp::socket s(c); std::error_code ec;
  s.connect(v.a.local_endpoint()); asioext::connect(s, r, "localhost", "1", rb::numeric_host, ec); CHECK(ec == asio::error::host_not_found); CHECK(s.is_open()); }''', '-pthread')
seed('E03-async-flags', 'E03', [('connect.hpp', 'resolver_.async_resolve(host_, service_, resolve_flags_, std::move(self));', 'resolver_.async_resolve(host_, service_, std::move(self));')],
     'an asynchronous connect with resolver flags', 'the flags are not passed to the resolver', CN + r'''
int main() { asio::io_context c; server v(c, "127.0.0.1"); tcp::resolver r(c); tcp::socket s(c); tcp::endpoint e; int n;
  CHECK(async(c, s, r, "localhost", v.port, rb::numeric_host, e, n) == asio::error::host_not_found); CHECK(n == 1); }''', '-pthread')
seed('E03-async-endpoint', 'E03', [('connect.hpp', '''    self.complete(ec, std::move(ep));''', '''    self.complete(ec, ec ? std::move(ep) : socket_.local_endpoint());''')],
     'an asynchronous connect that succeeds', 'the local endpoint is reported instead of that connected to', CN + r'''
int main() { asio::io_context c; server v(c, "127.0.0.1"); tcp::resolver r(c); tcp::socket s(c); tcp::endpoint e; int n;
  CHECK(!async(c, s, r, "127.0.0.1", v.port, {}, e, n)); CHECK(n == 1 && e == v.a.local_endpoint()); }''', '-pthread')
