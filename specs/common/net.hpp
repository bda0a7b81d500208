// Ghost socket for composed operations.  async_write / async_read / post follow
// asio's documented contract: they never complete inside the initiating call, a
// successful async_write (async_read) transfers exactly buffer_size(buffers) bytes,
// and a failed one reports an error.  The operation may be moved or destroyed in between.
#ifndef NET_HPP
#define NET_HPP
#include "vf.hpp"
#include <asio/buffer.hpp>
#include <asio/error.hpp>
#include <asio/post.hpp>
#include <asio/write.hpp>
#include <asio/read.hpp>
#include <type_traits>
#include <utility>

namespace net {
typedef std::error_code error_code;

struct executor {
  bool operator==(const executor&) const noexcept { return true; }
  bool operator!=(const executor&) const noexcept { return false; }
  template <class F> void execute(F&& f) const { typename std::decay<F>::type g(std::forward<F>(f)); g(); }
};

enum kind { none, write, read, posted };
struct pending_base {
  virtual void run(error_code ec, std::size_t n) = 0;
  virtual ~pending_base() {}
};
// the one outstanding operation
inline pending_base* op = nullptr;
inline kind what = none;
inline const uint8_t* out = nullptr;
inline uint8_t* in = nullptr;
inline std::size_t size = 0;

template <class H, bool Io> struct pending final : pending_base {
  H h;
  explicit pending(H&& x) : h(std::move(x)) {}
  void run(error_code ec, std::size_t n) override {
    H l(std::move(h));
    delete this;
    if constexpr (Io) l(ec, n); else l();
  }
};
template <bool Io, class H> inline void start(kind k, H&& h) {
  vf_assert(op == nullptr, "one operation at a time");
  what = k;
  op = new pending<typename std::decay<H>::type, Io>(std::move(h));
}
inline void finish(error_code ec, std::size_t n) {
  pending_base* p = op;
  op = nullptr; what = none;
  p->run(ec, n);
}

struct socket {
  typedef net::executor executor_type;
  executor_type get_executor() const noexcept { return executor_type(); }
  // only reached by code that does not use the free functions below
  template <class B, class H> void async_write_some(const B& b, H&& h) {
    asio::const_buffer x(*asio::buffer_sequence_begin(b));
    out = (const uint8_t*)x.data(); size = x.size(); start<true>(write, std::forward<H>(h));
  }
  template <class B, class H> void async_read_some(const B& b, H&& h) {
    asio::mutable_buffer x(*asio::buffer_sequence_begin(b));
    in = (uint8_t*)x.data(); size = x.size(); start<true>(read, std::forward<H>(h));
  }
};
}

namespace asio {
template <class H> inline void async_write(net::socket&, const const_buffer& b, H&& h) {
  net::out = (const uint8_t*)b.data(); net::size = b.size(); net::start<true>(net::write, std::forward<H>(h));
}
template <class H> inline void async_write(net::socket&, const mutable_buffer& b, H&& h) {
  net::out = (const uint8_t*)b.data(); net::size = b.size(); net::start<true>(net::write, std::forward<H>(h));
}
template <class H> inline void async_read(net::socket&, const mutable_buffer& b, H&& h) {
  net::in = (uint8_t*)b.data(); net::size = b.size(); net::start<true>(net::read, std::forward<H>(h));
}
template <class H> inline void post(const net::executor&, H&& h) { net::start<false>(net::posted, std::forward<H>(h)); }
}
#endif
