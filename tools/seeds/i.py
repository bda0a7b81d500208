# ---- H01: buffered streams
BUF = r'''
#include <asioext/experimental/buffered_stream.hpp>
#include <asio.hpp>
#include <algorithm>
#include <string>
// accepts max bytes, then fails until it is reset; delivers `in` piecewise
struct wire {
  typedef asio::io_context::executor_type executor_type; typedef wire lowest_layer_type;
  asio::io_context* c; std::string out, in; std::size_t max = ~std::size_t(0);
  explicit wire(asio::io_context& x) : c(&x) {}
  wire& lowest_layer() { return *this; } executor_type get_executor() noexcept { return c->get_executor(); }
  void close() {} void close(std::error_code& ec) { ec = {}; }
  template <class B> std::size_t write_some(const B& b, std::error_code& ec) { std::string s; for (auto i = asio::buffer_sequence_begin(b); i != asio::buffer_sequence_end(b); ++i) { asio::const_buffer x(*i); s.append((const char*)x.data(), x.size()); }
    if (max == 0 && !s.empty()) { ec = asio::error::broken_pipe; return 0; } std::size_t n = std::min(s.size(), max); out.append(s, 0, n); max -= n; ec = {}; return n; }
  template <class B> std::size_t read_some(const B& b, std::error_code& ec) { asio::mutable_buffer x(*asio::buffer_sequence_begin(b)); std::size_t n = std::min({in.size(), x.size(), std::size_t(3)}); std::memcpy(x.data(), in.data(), n); in.erase(0, n); ec = n || !x.size() ? std::error_code() : std::error_code(asio::error::eof); return n; }
  template <class B, class H> void async_write_some(const B& b, H&& h) { std::error_code ec; std::size_t n = write_some(b, ec); asio::post(*c, [h = std::move(h), ec, n]() mutable { h(ec, n); }); }
  template <class B, class H> void async_read_some(const B& b, H&& h) { std::error_code ec; std::size_t n = read_some(b, ec); asio::post(*c, [h = std::move(h), ec, n]() mutable { h(ec, n); }); }
};
typedef asioext::buffered_stream<wire> stream;
static void put(stream& s, const std::string& x) { auto& b = s.write_buffer(); std::size_t n = b.size(); b.resize(n + x.size()); std::memcpy(b.data() + n, x.data(), x.size()); }
'''
seed('H01-leftover', 'H01', [('experimental/buffered_stream.hpp', '''  if (write_buffer_locked_.size() == 0) {
    // Don't''', '''  if (write_buffer_locked_.size() <= write_buffer_.size()) {
    // Don't''')],
     'a flush that failed half-way, followed by more data and further flushes', 'later data overtakes that left behind', BUF + r'''
int main() { asio::io_context c; stream s(c); std::error_code ec; put(s, "abcdef"); s.next_layer().max = 4; s.flush(ec); CHECK(ec && s.next_layer().out == "abcd"); s.next_layer().max = 100;
  put(s, "ghi"); s.flush(ec); s.flush(ec); CHECK(!ec && s.next_layer().out == "abcdefghi"); }''')
seed('H01-unlock-error', 'H01', [('experimental/buffered_stream.hpp', '''      unlock_write_buffers(size);
''', '''      if (!ec)
        unlock_write_buffers(size);
''')],
     'an asynchronous flush that fails', 'the stream can never be flushed again', BUF + r'''
int main() { asio::io_context c; stream s(c); int n = 0; put(s, "abcdef"); s.next_layer().max = 4; s.async_flush([&](std::error_code ec, std::size_t k) { ++n; CHECK(ec && k == 4); }); c.run(); CHECK(n == 1 && !s.flush_pending());
  s.next_layer().max = 100; std::error_code ec; s.flush(ec); CHECK(!ec && s.next_layer().out == "abcdef"); }''')
seed('H01-fill-all', 'H01', [('experimental/buffered_stream.hpp', '''                          asio::transfer_at_least(1),
                          std::forward''', '''                          asio::transfer_all(),
                          std::forward''')],
     'an asynchronous fill', 'the fill only ends when the peer closes the connection, with an error', BUF + r'''
int main() { asio::io_context c; stream s(c); int n = 0; s.next_layer().in = "abcdef"; s.async_fill([&](std::error_code ec, std::size_t k) { ++n; CHECK(!ec && k == 3); }); c.run(); CHECK(n == 1 && s.read_buffer().size() == 3); }''')
seed('H01-close-keeps', 'H01', [('experimental/buffered_stream.hpp', '''  void close(error_code& ec) ASIOEXT_NOEXCEPT
  {
    write_buffer_.clear();
    write_buffer_locked_.clear();
''', '''  void close(error_code& ec) ASIOEXT_NOEXCEPT
  {
    write_buffer_.clear();
''')],
     'closing after a flush that failed half-way', 'the rest of the old data is sent over the next connection', BUF + r'''
int main() { asio::io_context c; stream s(c); std::error_code ec; put(s, "abcdef"); s.next_layer().max = 4; s.flush(ec); s.close(ec); s.next_layer().max = 100; s.next_layer().out.clear(); put(s, "new"); s.flush(ec); s.flush(ec); CHECK(s.next_layer().out == "new"); }''')
seed('H01-refused-flush', 'H01', [('experimental/buffered_stream.hpp', '''  const auto buffer = lock_write_buffers(ec);
  if (ec) return 0;
''', '''  const auto buffer = lock_write_buffers(ec);
  if (ec) {
    unlock_write_buffers(0);
    return 0;
  }
''')],
     'flushing while an asynchronous flush is pending', 'the pending flush is forgotten: a second one may run at the same time', BUF + r'''
int main() { asio::io_context c; stream s(c); put(s, "abc"); s.async_flush([&](std::error_code, std::size_t) {}); std::error_code ec; s.flush(ec); CHECK(ec == asio::error::already_started && s.flush_pending()); s.flush(ec); CHECK(ec == asio::error::already_started); c.run(); CHECK(!s.flush_pending()); }''')
seed('H01-limit-swapped', 'H01', [('experimental/buffered_stream.hpp', '''    , write_buffer_locked_(allocator, 0, max_write_size)''', '''    , write_buffer_locked_(allocator, 0, max_read_size)''')],
     'a limit on what is written only, and more than one flush', 'after a flush the write buffer grows beyond its limit', BUF + r'''
int main() { asio::io_context c; stream s(c, std::allocator<uint8_t>(), 4); CHECK(s.write_buffer().max_size() == 4); put(s, "ab"); std::error_code ec; s.flush(ec); CHECK(!ec && s.next_layer().out == "ab" && s.write_buffer().max_size() == 4); }''')
seed('F06-executor-open', 'F06', [('basic_file.hpp', '''  basic_file(const executor_type& ex, const char* filename, const open_args& args)
    : holder_(ex)
  {
    error_code ec;
    holder_.get_service().open(holder_.get_implementation(), filename, args, ec);
    detail::throw_error(ec, "basic_file construct");''', '''  basic_file(const executor_type& ex, const char* filename, const open_args& args)
    : holder_(ex)
  {
    error_code ec;
    holder_.get_service().open(holder_.get_implementation(), filename, args, ec);
    if (is_open())
      detail::throw_error(ec, "basic_file construct");''')],
     'a file constructed by an executor (on a service of the user) that cannot be opened', 'the constructor returns a closed file without an error', r'''
#include <asioext/basic_file.hpp>
#include <asio/io_context.hpp>
struct svc : asio::execution_context::service {
  typedef svc key_type; static inline asio::execution_context::id id;
  struct implementation_type {}; typedef int native_handle_type;
  explicit svc(asio::execution_context& c) : service(c) {} void shutdown() noexcept override {}
  void construct(implementation_type&) {} void destroy(implementation_type&) {}
  bool is_open(const implementation_type&) const { return false; }
  void open(implementation_type&, const char*, const asioext::open_args&, std::error_code& ec) { ec = std::make_error_code(std::errc::permission_denied); }
};
int main() { asio::io_context c; bool thrown = false; try { asioext::basic_file<svc> f(c.get_executor(), "x", asioext::open_args(asioext::open_flags::access_read)); } catch (const std::system_error&) { thrown = true; } CHECK(thrown); }''')
seed('C01-frames-max', 'C01', [('detail/impl/chrono.hpp', '''                           static_cast<conv_type>(result_ratio::num) /
                           static_cast<conv_type>(result_ratio::den);
    if (temp  >= (result_limit::min)() && temp  <= (result_limit::max)()) {''', '''                           static_cast<conv_type>(result_ratio::num) /
                           static_cast<conv_type>(result_ratio::den);
    if (temp  > (result_limit::min)() && temp  < (result_limit::max)()) {''')],
     'converting between periods neither of which divides the other, to the largest value of the target', 'a time the target can hold is refused', r'''
#include <asioext/detail/chrono.hpp>
#include <ratio>
namespace chrono = asioext::chrono;
int main() { chrono::duration<int32_t, std::ratio<1, 24>> out(0); CHECK(asioext::detail::safe_duration_cast(chrono::duration<int64_t, std::milli>(89478485292), out) && out.count() == 2147483647); }''')
