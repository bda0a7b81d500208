// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-opt: * max_paths=200000
#include "fh.hpp"
#include "asioext/standard_streams.hpp"
typedef asioext::file_perms P;

// Each operation in both of its forms, on handles in any state: the error reported is that of the
// system call that failed, an exception is thrown exactly if the other form would set an error.
template <class H, class Op>
static void op(os::kind k, Op f) {
  os::reset(); os::ndesc = 0; os::close_can_fail = false;
  int fd = os::fresh_fd();
  H h{FH(fd)};
  error_code ec = f(h);
  vf_assert(os::rec[k].done == 1, "the system is asked");
  reports(ec, k);
  vf_expect_cover("failed"); vf_expect_cover("succeeded");
}
#define OP(name, kind, v, ex, wec) \
  template <class H> static void name() { op<H>(os::kind, [&](H& h) { v; (void)h; return both([&] { ex; }, [&](error_code& e) { wec; }); }); } \
  VF_HARNESS(file_##name) { name<FH>(); } VF_HARNESS(unique_##name) { name<UFH>(); }

OP(position, SEEK, , h.position(), h.position(e))
OP(seek, SEEK, int64_t o = (int64_t)vf_u64("o"), h.seek(asioext::seek_origin::from_end, o), h.seek(asioext::seek_origin::from_end, o, e))
OP(size, FSTAT, , h.size(), h.size(e))
OP(truncate, TRUNCATE, uint64_t n = vf_u64("n"); vf_assume(n <= (uint64_t)INT64_MAX), h.truncate(n), h.truncate(n, e))
OP(get_permissions, FSTAT, , h.permissions(), h.permissions(e))
OP(set_permissions, CHMOD, , h.permissions(P::all), h.permissions(P::all, e))
OP(set_permissions2, CHMOD, , h.permissions(P::all, asioext::file_perm_options::replace), h.permissions(P::all, asioext::file_perm_options::replace, e))
OP(set_times, UTIMES, asioext::file_times t = asioext::file_times(), h.times(t), h.times(t, e))
OP(close, CLOSE, os::close_can_fail = true, h.close(), h.close(e))

static uint8_t mem[64];
OP(write_some, WRITE, asio::const_buffer b(mem, 64), h.write_some(b), h.write_some(b, e))
OP(write_some_at, WRITE, asio::const_buffer b(mem, 64); uint64_t o = vf_u64("o"), h.write_some_at(o, b), h.write_some_at(o, b, e))

// reading: additionally the end of the file
template <class H> static void read(bool at) {
  os::reset(); os::ndesc = 0; os::close_can_fail = false;
  int fd = os::fresh_fd();
  H h{FH(fd)};
  uint64_t o = vf_u64("o"); std::size_t n = vf_u64("n"); vf_assume(n <= 64);
  asio::mutable_buffer b(mem, n);
  error_code ec = at ? both([&] { h.read_some_at(o, b); }, [&](error_code& e) { h.read_some_at(o, b, e); })
                     : both([&] { h.read_some(b); }, [&](error_code& e) { h.read_some(b, e); });
  os::record& r = os::rec[os::READ];
  if (!r.err && r.result == 0 && n != 0) { vf_cover("end"); vf_assert(ec == asio::error::eof, "the end of the file is reported"); }
  else reports(ec, os::READ);
  vf_expect_cover("failed"); vf_expect_cover("succeeded"); vf_expect_cover("end");
}
VF_HARNESS(file_read_some) { read<FH>(false); } VF_HARNESS(unique_read_some) { read<UFH>(false); }
VF_HARNESS(file_read_some_at) { read<FH>(true); } VF_HARNESS(unique_read_some_at) { read<UFH>(true); }

// times: a time out of range is an error of its own
template <class H> static void get_times() {
  os::reset(); os::ndesc = 0; os::close_can_fail = false;
  int fd = os::fresh_fd();
  H h{FH(fd)};
  error_code ec = both([&] { h.times(); }, [&](error_code& e) { h.times(e); });
  if (os::rec[os::FSTAT].err) vf_assert(ec == sys(os::rec[os::FSTAT].err), "a failure is reported with the system's error");
  else vf_assert(!ec || ec == make_error_code(asioext::errc::value_too_large), "success is reported, and clears an old error");
}
VF_HARNESS(file_times) { get_times<FH>(); } VF_HARNESS(unique_times) { get_times<UFH>(); }

VF_HARNESS(open_file) {
  os::ndesc = 0; os::close_can_fail = false;
  UFH h;
  error_code ec = both([&] { h = asioext::open("f", asioext::open_flags::access_read); }, [&](error_code& e) { h = asioext::open("f", asioext::open_flags::access_read, e); });
  reports(ec, os::OPEN);
  vf_expect_cover("failed"); vf_expect_cover("succeeded");
}
VF_HARNESS(duplicate_handle) {
  os::ndesc = 0; os::close_can_fail = false;
  FH f(os::fresh_fd());
  UFH h;
  error_code ec = both([&] { h = asioext::duplicate(f); }, [&](error_code& e) { h = asioext::duplicate(f, e); });
  reports(ec, os::DUP);
  vf_expect_cover("failed"); vf_expect_cover("succeeded");
}
VF_HARNESS(attributes) {
  os::ndesc = 0;
  FH h(os::fresh_fd());
  error_code a = both([&] { h.attributes(); }, [&](error_code& e) { h.attributes(e); });
  error_code b = both([&] { h.attributes(asioext::file_attrs::hidden); }, [&](error_code& e) { h.attributes(asioext::file_attrs::hidden, e); });
  vf_assert(!a && !b, "success is reported, and clears an old error");
}
VF_HARNESS(empty_handles) {   // closing and replacing nothing
  UFH u; FH f;
  error_code a = both([&] { u.close(); }, [&](error_code& e) { u.close(e); });
  error_code b = both([&] { f.close(); }, [&](error_code& e) { f.close(e); });
  error_code c = both([&] { u.reset(f); }, [&](error_code& e) { u.reset(f, e); });
  vf_assert(!a && !b && !c && os::total_done() == 0, "success is reported, and clears an old error");
}
VF_HARNESS(standard_streams) {
  FH h;
  error_code a = both([&] { h = asioext::get_stdin(); }, [&](error_code& e) { h = asioext::get_stdin(e); });
  error_code b = both([&] { h = asioext::get_stdout(); }, [&](error_code& e) { h = asioext::get_stdout(e); });
  error_code c = both([&] { h = asioext::get_stderr(); }, [&](error_code& e) { h = asioext::get_stderr(e); });
  vf_assert(!a && !b && !c, "success is reported, and clears an old error");
}
