// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: asio::write, asio::read, asio::async_write, asio::async_read and asio::post follow asio's documented contract
#include "vf.hpp"
#include "net.hpp"
#include "asioext/linear_buffer.hpp"
#include <cstring>
#include <stdexcept>
#include <system_error>
#include <type_traits>
#include <utility>
typedef std::error_code error_code;
static error_code failure(const char* label) { return error_code((int)(1 + vf_u8(label) % 120), asio::error::get_system_category()); }

// ---- the next layer: what it has been given (any position k of it), and what it delivers
static std::size_t sunk, k; static bool seen; static uint8_t value; static int transfers, closes;
static error_code outcome, close_error; static std::size_t moved; static const uint8_t* delivered; static bool will_fail;
static void emit(const void* p, std::size_t n) {
  if (k >= sunk && k - sunk < n) { vf_assert(!seen, "no byte is written twice"); seen = true; value = ((const uint8_t*)p)[k - sunk]; }
  sunk += n;
}
struct stream {
  typedef net::executor executor_type; typedef stream lowest_layer_type;
  explicit stream(int) {}
  lowest_layer_type& lowest_layer() { return *this; }
  const lowest_layer_type& lowest_layer() const { return *this; }
  executor_type get_executor() const noexcept { return executor_type(); }
  void close() { ++closes; if (close_error) throw std::system_error(close_error); }
  void close(error_code& ec) { ++closes; ec = close_error; }
};
// the contract of a transfer of the whole buffer
static std::size_t written(std::size_t n, error_code& ec) {
  ++transfers;
  outcome = error_code(); moved = n;
  if (n != 0) {
    will_fail = vf_bool("write fails");
    if (will_fail) { outcome = failure("write errno"); moved = vf_u64("written"); vf_assume(moved < n); }
  }
  ec = outcome;
  return moved;
}
static std::size_t read_(std::size_t room, error_code& ec) {
  ++transfers;
  outcome = error_code(); moved = 0; delivered = 0;
  if (room != 0) {
    if (vf_bool("read fails")) outcome = failure("read errno");
    else { moved = 1 + (vf_u64("read") & 0xffff); vf_assume(moved <= room); delivered = (const uint8_t*)vf_bytes(moved, "delivered"); }
  }
  ec = outcome;
  return moved;
}
template <class D> static std::size_t do_write(D& b, const void* p, std::size_t n, error_code& ec) {
  const std::size_t r = written(n, ec);
  emit(p, r); b.consume(r);
  return r;
}
template <class D> static std::size_t do_read(D& b, error_code& ec) {
  const std::size_t r = read_(b.max_size() - b.size(), ec);
  if (r) { std::memcpy(b.prepare(r).data(), delivered, r); b.commit(r); }
  return r;
}
template <class C> static void at_least_one(C& c) {
  vf_assert(c(error_code(), 0) != 0 && c(error_code(), 1) == 0 && c(error_code(asio::error::eof), 0) == 0, "a read ends once something has been read");
}
struct pending { virtual void run() = 0; virtual ~pending() {} };
static pending* op; static int calls; static error_code got; static std::size_t got_n;
template <class H, class D, bool W> struct pending_impl final : pending {
  H h; D b; const void* p; std::size_t n;
  pending_impl(H&& x, D&& y) : h(std::move(x)), b(std::move(y)), p(b.data().data()), n(b.size()) {}
  void run() override {
    error_code ec; std::size_t r;
    if (W) { vf_assert(b.data().data() == p && b.size() == n, "the data being written stays as it is"); r = do_write(b, p, n, ec); }
    else r = do_read(b, ec);
    H l(std::move(h));
    delete this;
    l(ec, r);
  }
};
template <bool W, class H, class D> static void start(H&& h, D&& b) {
  vf_assert(op == nullptr, "one transfer at a time");
  op = new pending_impl<typename std::decay<H>::type, typename std::decay<D>::type, W>(std::move(h), std::move(b));
}
static void finish() { pending* p = op; op = nullptr; p->run(); }

// a buffer that is not consumed by writing it
struct fixed {
  asio::const_buffer c;
  asio::const_buffer data() const { return c; }
  std::size_t size() const { return c.size(); }
  void consume(std::size_t) {}
};
template <class B> static fixed whole(const B& b) {
  auto i = asio::buffer_sequence_begin(b);
  fixed f; f.c = *i;
  vf_requires(++i == asio::buffer_sequence_end(b), "one buffer is written");
  return f;
}
namespace asio {
template <class T> struct dynamic_arg;
template <class A> struct dynamic_arg<asioext::dynamic_linear_buffer<A>> { typedef void type; };
template <class B> using dynamic_t = typename dynamic_arg<typename std::decay<B>::type>::type;
template <class B> using fixed_t = typename std::enable_if<is_const_buffer_sequence<typename std::decay<B>::type>::value>::type;

template <class B, dynamic_t<B>* = nullptr> inline std::size_t write(stream&, B&& x, error_code& ec) { typename std::decay<B>::type b(std::forward<B>(x)); auto d = b.data(); return do_write(b, d.data(), d.size(), ec); }
template <class B, fixed_t<B>* = nullptr> inline std::size_t write(stream&, const B& x, error_code& ec) { fixed b = whole(x); return do_write(b, b.data().data(), b.size(), ec); }
template <class B, dynamic_t<B>* = nullptr> inline std::size_t write(stream& s, B&& b, detail::transfer_all_t, error_code& ec) { return write(s, std::forward<B>(b), ec); }
template <class B, dynamic_t<B>* = nullptr, class C> inline std::size_t read(stream&, B&& x, C c, error_code& ec) { typename std::decay<B>::type b(std::forward<B>(x)); at_least_one(c); return do_read(b, ec); }
template <class B, dynamic_t<B>* = nullptr, class H> inline void async_write(stream&, B&& b, H&& h) { start<true>(std::forward<H>(h), typename std::decay<B>::type(std::forward<B>(b))); }
template <class B, fixed_t<B>* = nullptr, class H> inline void async_write(stream&, const B& b, H&& h) { start<true>(std::forward<H>(h), whole(b)); }
template <class B, dynamic_t<B>* = nullptr, class C, class H> inline void async_read(stream&, B&& b, C c, H&& h) {
  at_least_one(c);
  typename std::decay<H>::type l(std::forward<H>(h));
  start<false>(std::move(l), typename std::decay<B>::type(std::forward<B>(b)));
}
template <class B, dynamic_t<B>* = nullptr> inline std::size_t read(stream& s, B&& b, error_code& ec) { return read(s, std::forward<B>(b), transfer_all(), ec); }
template <class B, dynamic_t<B>* = nullptr, class H> inline void async_read(stream& s, B&& b, H&& h) { async_read(s, std::forward<B>(b), transfer_all(), std::forward<H>(h)); }
}
#include "asioext/experimental/buffered_stream.hpp"
typedef asioext::buffered_stream<stream> BS;
struct handler { void operator()(error_code ec, std::size_t n) const { ++calls; got = ec; got_n = n; } };

static const uint8_t* src[3]; static std::size_t len[3], total; static int parts;
static void begin() {
  sunk = 0; k = vf_u64("k"); seen = false; transfers = closes = 0; op = nullptr; calls = 0; parts = 0; total = 0;
  net::op = nullptr; net::what = net::none;
}
static void append(BS& b) {
  const std::size_t n = vf_u64("length") & 0xffffffff;
  const uint8_t* p = (const uint8_t*)vf_bytes(n, "data");
  const std::size_t old = b.write_buffer().size();
  b.write_buffer().resize(old + n);
  std::memcpy(b.write_buffer().data() + old, p, n);
  src[parts] = p; len[parts] = n; ++parts; total += n;
}
static void in_order() {
  vf_assert(sunk <= total, "nothing but the buffered data is written");
  if (k < total) {
    vf_assert(seen == (k < sunk), "the data is written in order, each byte once");
    std::size_t i = k; int j = 0;
    while (i >= len[j]) { i -= len[j]; ++j; }
    if (seen) vf_assert(value == src[j][i], "the bytes written are those buffered");
  }
}
// one flush in blocking form
template <bool Throwing> static void flush(BS& b) {
  const std::size_t before = sunk; const int t = transfers;
  error_code ec((int)(vf_u32("stale") & 0xff), asio::error::get_system_category()); std::size_t n = 0;
  if (Throwing) {
    try { ec = error_code(); n = b.flush(); }
    catch (const std::system_error& e) { ec = e.code(); n = sunk - before; vf_assert(!!ec, "an exception carries an error"); }
  } else n = b.flush(ec);
  vf_assert(transfers == t + 1, "a flush is one transfer");
  vf_assert(ec == outcome, "the outcome of the transfer is reported");
  vf_assert(n == sunk - before && n == moved, "the number of bytes written is reported");
  vf_assert(!b.flush_pending(), "a flush that is over is not pending");
  in_order();
}
static void drain(BS& b) {
  // what is left of an earlier flush first, then the rest
  flush<false>(b); vf_assume(!outcome);
  flush<false>(b); vf_assume(!outcome);
  vf_assert(sunk == total && !b.can_flush(), "everything buffered is written in the end");
}
template <bool Throwing> static void sync() {
  begin();
  BS b(0);
  vf_assert(!b.can_flush() && !b.flush_pending(), "a new stream has nothing to flush");
  append(b);
  vf_assert(b.can_flush() == (total != 0), "buffered data can be flushed");
  flush<Throwing>(b);
  if (outcome) vf_cover("failed"); else { vf_cover("flushed"); vf_assert(sunk == total, "a successful flush writes everything"); }
  append(b);
  flush<Throwing>(b);
  drain(b);
}
VF_HARNESS(flush) { sync<false>(); }
VF_HARNESS(flush_throwing) { sync<true>(); }

// any stream, with part of the data left behind by a failed flush
static void some(BS& b) { append(b); flush<false>(b); append(b); }

template <int What> static void async() {
  begin();
  BS b(0);
  some(b);
  const std::size_t before = sunk; int t = transfers;
  b.async_flush(handler());
  vf_assert(calls == 0 && op && !net::op && transfers == t && b.flush_pending() && !b.can_flush(), "initiating a flush does not complete it");
  if (What == 1) {
    append(b);
    error_code ec((int)(vf_u32("stale") & 0xff), asio::error::get_system_category());
    const std::size_t left = b.write_buffer().size();
    vf_assert(b.flush(ec) == 0 && ec == asio::error::already_started, "a second flush is refused");
    vf_assert(transfers == t && b.flush_pending() && b.write_buffer().size() == left, "a refused flush changes nothing");
  } else if (What == 2) {
    b.async_flush(handler());
    vf_assert(calls == 0 && net::op && net::what == net::posted && transfers == t && b.flush_pending(), "a refused flush is reported later");
    net::finish(error_code(), 0);
    vf_assert(calls == 1 && got == asio::error::already_started && got_n == 0, "a second flush is refused");
    calls = 0;
    vf_assert(b.flush_pending() && transfers == t, "a refused flush changes nothing");
  }
  finish();
  vf_assert(calls == 1 && transfers == t + 1 && !op && !net::op, "the handler is called exactly once");
  vf_assert(got == outcome && got_n == moved && moved == sunk - before, "the outcome of the transfer is reported");
  vf_assert(!b.flush_pending(), "a flush that is over is not pending");
  if (got) vf_cover("failed"); else vf_cover("flushed");
  in_order();
  drain(b);
}
VF_HARNESS(async_flush) { async<0>(); }
VF_HARNESS(append_meanwhile) { async<1>(); }
VF_HARNESS(flush_meanwhile) { async<2>(); }

// ---- filling
template <int How> static void fill() {
  begin();
  const std::size_t limit = vf_u64("limit") & 0xffffffff;
  BS b(0, ~std::size_t(0), limit);
  const std::size_t n0 = vf_u64("length"); vf_assume(n0 <= limit);
  const uint8_t* p = (const uint8_t*)vf_bytes(n0, "data");
  b.read_buffer().resize(n0);
  std::memcpy(b.read_buffer().data(), p, n0);
  error_code ec((int)(vf_u32("stale") & 0xff), asio::error::get_system_category()); std::size_t n = 0;
  if (How == 0) n = b.fill(ec);
  else if (How == 1) {
    try { ec = error_code(); n = b.fill(); }
    catch (const std::system_error& e) { ec = e.code(); n = moved; vf_assert(!!ec, "an exception carries an error"); }
  } else {
    b.async_fill(handler());
    vf_assert(calls == 0 && op && transfers == 0, "initiating a fill does not complete it");
    finish();
    vf_assert(calls == 1 && !op && !net::op, "the handler is called exactly once");
    ec = got; n = got_n;
  }
  if (ec) vf_cover("failed"); else if (n) vf_cover("filled"); else vf_cover("full");
  vf_assert(transfers == 1 && ec == outcome && n == moved, "the outcome of the transfer is reported");
  vf_assert(b.read_buffer().size() == n0 + n, "exactly the bytes read are added");
  if (k < n0) vf_assert(b.read_buffer().data()[k] == p[k], "what has been read before is kept");
  else if (k - n0 < n) vf_assert(b.read_buffer().data()[k] == delivered[k - n0], "the bytes read are added in order");
  vf_assert(sunk == 0 && !b.flush_pending() && b.write_buffer().empty(), "filling does not affect writing");
}
VF_HARNESS(fill) { fill<0>(); }
VF_HARNESS(fill_throwing) { fill<1>(); }
VF_HARNESS(async_fill) { fill<2>(); }

VF_HARNESS(close) {
  begin();
  BS b(0);
  some(b);
  b.read_buffer().resize(vf_u64("length") & 0xffff);
  close_error = vf_bool("close fails") ? failure("close errno") : error_code();
  if (vf_bool("throwing")) {
    try { b.close(); vf_assert(!close_error, "a failure to close is thrown"); }
    catch (const std::system_error& e) { vf_cover("close fails"); vf_assert(close_error && e.code() == close_error, "a failure to close is thrown"); }
  } else { error_code ec((int)(vf_u32("stale") & 0xff), asio::error::get_system_category()); b.close(ec); vf_assert(ec == close_error, "the outcome of closing is reported"); }
  vf_assert(closes == 1 && b.write_buffer().empty() && b.read_buffer().empty() && !b.can_flush(), "closing drops everything buffered");
  const std::size_t before = sunk;
  error_code ec;
  b.flush(ec);
  vf_assert(sunk == before, "closing drops everything buffered");
}

// both constructors: empty buffers that keep to their limits
VF_HARNESS(limits) {
  begin();
  const std::size_t w = vf_u64("write limit") & 0xffffffff, r = vf_u64("read limit") & 0xffffffff;
  auto test = [&](BS& b) {
    vf_assert(b.write_buffer().empty() && b.read_buffer().empty() && !b.can_flush() && !b.flush_pending(), "a new stream has nothing to flush");
    vf_assert(b.write_buffer().max_size() == w && b.read_buffer().max_size() == r, "the buffers keep to their limits");
    const std::size_t n = vf_u64("length") & 0xffffffff;
    bool refused = false;
    try { b.write_buffer().resize(n); } catch (const std::length_error&) { refused = true; }
    vf_assert(refused == (n > w), "the buffers keep to their limits");
    if (refused) { vf_cover("refused"); return; }
    vf_cover("flushed");
    error_code ec; b.flush(ec);
    vf_assert(b.write_buffer().max_size() == w && b.read_buffer().max_size() == r, "the buffers keep to their limits");
  };
  if (vf_bool("with an allocator")) { BS b(0, std::allocator<uint8_t>(), w, r); test(b); }
  else { BS b(0, w, r); test(b); }
}
