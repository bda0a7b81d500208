// one transfer between buffers and a file, through any of the file classes
#ifndef SPEC_TRANSFER_HPP
#define SPEC_TRANSFER_HPP
#include "os.hpp"
#include "asioext/file_handle.hpp"
#include "asioext/unique_file_handle.hpp"
#include "asioext/error_code.hpp"
#include <array>
#include <vector>
typedef asioext::file_handle FH;
typedef asioext::unique_file_handle UFH;
typedef asioext::error_code error_code;

static const std::size_t LIM = std::size_t(1) << 60;

// Up to three buffers of any length: the caller's view of one transfer.
template <class Buf, int N>
struct buffers {
  std::array<Buf, N> seq;
  uint8_t* mem[N]; std::size_t len[N], total;
  buffers() : total(0) {
    for (int i = 0; i < N; ++i) {
      len[i] = vf_u64("len"); vf_assume(len[i] <= LIM);
      mem[i] = (uint8_t*)vf_bytes(len[i], "buffer");
      seq[i] = Buf(mem[i], len[i]);
      total += len[i];
    }
  }
  uint8_t at(std::size_t k) const {
    for (int i = 0; i < N; ++i) { if (k < len[i]) return mem[i][k]; k -= len[i]; }
    return 0;
  }
};

struct outcome { std::size_t n; error_code ec; };

template <class H, class S>
static outcome call(H& h, bool write, bool at, uint64_t off, const S& s, bool throwing) {
  outcome r; r.n = 0; r.ec = error_code((int)vf_u32("stale") & 0xff, asio::error::get_system_category());
  if (!throwing) {
    if constexpr (std::is_same<typename S::value_type, asio::const_buffer>::value)
      r.n = at ? h.write_some_at(off, s, r.ec) : h.write_some(s, r.ec);
    else
      r.n = at ? h.read_some_at(off, s, r.ec) : h.read_some(s, r.ec);
  } else {
    try {
      if constexpr (std::is_same<typename S::value_type, asio::const_buffer>::value)
        r.n = at ? h.write_some_at(off, s) : h.write_some(s);
      else
        r.n = at ? h.read_some_at(off, s) : h.read_some(s);
      r.ec = error_code();
    } catch (asio::system_error& e) {
      r.ec = e.code();
      vf_assert(!!r.ec, "an exception carries an error");
    }
  }
  return r;
}

template <class H, class Buf, int N>
static void transfer(bool write, bool at) {
  os::ndesc = 0;
  int fd = os::fresh_fd();
  {
  H h{FH(fd)};
  buffers<Buf, N> b;
  uint64_t off = vf_u64("offset");
  std::size_t k = vf_u64("k");
  os::probe = k; os::probe_hit = false;
  uint8_t old = k < b.total ? b.at(k) : 0;
  os::reset();
  bool throwing = vf_bool("throwing");
  outcome r = call(h, write, at, off, b.seq, throwing);
  os::record& c = os::rec[write ? os::WRITE : os::READ];
  vf_assert(c.done == 1 && os::total_done() == 1, "exactly one transfer is carried out; interrupted calls are repeated");
  vf_assert(c.fd == fd, "the transfer uses the handle's descriptor");
  vf_assert(c.positional == at, "positional transfers leave the file position alone, others use it");
  if (at) vf_assert((uint64_t)c.a == off, "the transfer happens at the given offset");
  if (c.err) {
    vf_cover("failed");
    vf_assert(r.n == 0, "a failed transfer reports 0 bytes");
    vf_assert(r.ec == error_code(c.err, asio::error::get_system_category()), "a failed transfer reports the system's error");
  } else {
    vf_cover("succeeded");
    vf_assert(r.n == (std::size_t)c.result, "the number of bytes moved is reported");
    bool eof = !write && c.result == 0 && b.total > 0;
    if (eof) {
      vf_assert(r.ec == asio::error::eof, "no data for a non-empty buffer is reported as end of file");
      if (!write) vf_cover("eof");
    }
    else vf_assert(!r.ec, "a successful transfer clears the error");
    if (write && k < r.n) vf_assert(os::probe_hit && os::probed == old, "the system receives the buffers' bytes in order");
    if (!write && k < r.n) vf_assert(b.at(k) == os::in_data[k], "the buffers receive the system's bytes in order");
  }
  if (k < b.total && (write || c.err || k >= r.n)) vf_assert(b.at(k) == old, "no other byte of the buffers changes");
  vf_assert(h.is_open() && os::is_open(fd), "a transfer leaves the handle open");
  os::close_can_fail = false;
  }
  // file_handle does not own the descriptor, unique_file_handle does
  vf_assert(os::is_open(fd) == (std::is_same<H, FH>::value), "only owning handles close the descriptor");
}
typedef asio::mutable_buffer M;
typedef asio::const_buffer C;
#endif
