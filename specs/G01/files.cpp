// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: the system calls behave as POSIX says: a transfer moves between 0 and the requested number of bytes, in order, or fails with an errno; a read returns 0 bytes only at the end of the file, a write of at least one byte writes at least one
#include "os.hpp"
#include "asioext/read_file.hpp"
#include "asioext/write_file.hpp"
#include "asioext/linear_buffer.hpp"
#include "asioext/error_code.hpp"
#include <array>
#include <new>
#include <vector>
using asioext::error_code;

static const std::size_t LIM = std::size_t(1) << 40;
static std::size_t k;       // ghost position
static uint8_t want;

// a file with any contents; it may shrink or grow after its size was asked for
static void a_file() {
  os::file_len = vf_u64("length"); vf_assume(os::file_len <= LIM);
  os::file_data = (const uint8_t*)vf_bytes(os::file_len, "file");
  os::file_on = true; os::file_pos = 0;
  k = vf_u64("k"); vf_assume(k < os::file_len);
  want = os::file_data[k];
  vf_seq(k, want); vf_num(os::file_len);
}
static error_code stale() { return error_code((int)vf_u32("stale") & 0xff, std::system_category()); }
static bool failed(os::kind op) { return os::rec[op].done != 0 && os::rec[op].err != 0; }
static bool any_failed() { return failed(os::OPEN) || failed(os::FSTAT) || failed(os::READ); }
// the error is the one of the system call that failed; without one, only ends of the file are errors
static void reason(error_code ec, bool opened) {
  if (opened && failed(os::OPEN)) { vf_assert(ec.value() == os::rec[os::OPEN].err, "the error of the system is reported"); return; }
  if (failed(os::FSTAT)) { vf_assert(ec.value() == os::rec[os::FSTAT].err, "the error of the system is reported"); return; }
  if (failed(os::READ)) { vf_assert(ec.value() == os::rec[os::READ].err, "the error of the system is reported"); return; }
  vf_assert(ec == asio::error::eof || ec == asio::error::message_size, "only the system, a short file or a small container make reading fail");
  if (ec == asio::error::eof) vf_assert(os::file_pos == os::file_len, "the end of the file is only reported there");
}
static const char* const NAME = "x";
static void opened_for_reading() {
  vf_assert(os::rec[os::OPEN].done == 1 && os::path == NAME, "that file is opened once");
  vf_assert((os::rec[os::OPEN].a & (O_CREAT | O_TRUNC | O_EXCL | O_APPEND)) == 0 && (os::rec[os::OPEN].a & O_ACCMODE) == O_RDONLY, "reading never changes or creates a file");
}

// ---- containers
// any container: may refuse any size, by its limit or by an exception
template <class Size> struct box {
  typedef uint8_t value_type; typedef Size size_type;
  uint8_t* p; std::size_t n, max;
  std::size_t resized;
  box() : p(nullptr), n(vf_u64("old size")), max(vf_u64("max_size")), resized(0) {}
  uint8_t* data() { return p; }
  Size size() const { return (Size)n; }
  Size max_size() const { return (Size)max; }
  uint8_t& operator[](std::size_t i) { vf_assert(i < n, "the container is accessed within its size"); return p[i]; }
  void resize(std::size_t m) {
    vf_assert(m <= max_size(), "a container is never resized beyond its maximum size");
    if (vf_bool("resize throws")) { resized = 2; throw std::bad_alloc(); }
    p = (uint8_t*)vf_bytes(m, "container"); n = m; resized = 1;
  }
  void clear() { n = 0; }
};
template <class C> static void contents(C& c) {
  vf_cover("success");
  vf_assert((uint64_t)c.size() == (uint64_t)os::st.st_size, "the container has the size of the file");
  vf_assert(c.size() <= os::file_len, "a file that is shorter than it was is an error");
  if (k < c.size()) { vf_cover("contents"); vf_assert((uint8_t)c.data()[k] == want, "the container holds the contents of the file"); }
}
template <class C> static void read_by_name() {
  a_file();
  C c;
  error_code ec = stale();
  asioext::read_file(NAME, c, ec);
  vf_assert(os::open_count() == 0, "the file is closed again");
  opened_for_reading();
  if (ec) { vf_cover("error"); reason(ec, true); return; }
  contents(c);
}
VF_HARNESS(read_vector) { read_by_name<std::vector<uint8_t>>(); }
VF_HARNESS(read_linear_buffer) { read_by_name<asioext::linear_buffer>(); }

template <class Size> static void read_box() {
  a_file();
  os::can_interrupt = false;
  box<Size> c;
  error_code ec = stale();
  try { asioext::read_file(asioext::file_handle(7), c, ec); }
  catch (const std::bad_alloc&) { vf_cover("no memory"); vf_assert(c.resized == 2, "only the container throws"); return; }
  vf_assert(os::rec[os::OPEN].done == 0 && os::rec[os::CLOSE].done == 0, "the caller keeps the file");
  if (ec) {
    vf_cover("error"); reason(ec, false);
    if (!any_failed() && ec == asio::error::message_size) { vf_cover("too big"); vf_assert((uint64_t)os::st.st_size > (uint64_t)c.max_size(), "a file is only refused if it does not fit"); }
    return;
  }
  contents(c);
}
VF_HARNESS(read_container) { read_box<std::size_t>(); }
VF_HARNESS(read_container_32) { read_box<uint32_t>(); }
VF_HARNESS(read_throwing) {
  a_file();
  os::can_interrupt = false;
  box<std::size_t> c;
  const bool named = vf_bool("by name");
  try {
    if (named) asioext::read_file(NAME, c); else asioext::read_file(asioext::file_handle(7), c);
    if (named) { opened_for_reading(); vf_assert(os::open_count() == 0, "the file is closed again"); }
    contents(c);
  } catch (const std::system_error& e) {
    vf_cover("error"); reason(e.code(), named);
    vf_assert(os::open_count() == 0, "the file is closed again");
  } catch (const std::bad_alloc&) {
    vf_cover("no memory"); vf_assert(c.resized == 2, "only the container throws");
    vf_assert(os::open_count() == 0, "the file is closed again");
  }
}

// ---- buffers
template <int N> struct regions {
  std::array<asio::mutable_buffer, N> seq; uint8_t* mem[N]; std::size_t len[N], total;
  regions() : total(0) {
    for (int i = 0; i < N; ++i) {
      len[i] = vf_u64("len"); vf_assume(len[i] <= LIM);
      mem[i] = (uint8_t*)vf_bytes(len[i], "buffer");
      seq[i] = asio::mutable_buffer(mem[i], len[i]);
      total += len[i];
    }
  }
};
VF_HARNESS(read_buffer) {
  a_file();
  regions<1> b;
  error_code ec = stale();
  const bool named = vf_bool("by name");
  if (vf_bool("throwing form")) {
    try { if (named) asioext::read_file(NAME, b.seq[0]); else asioext::read_file(asioext::file_handle(7), b.seq[0]); ec = error_code(); }
    catch (const std::system_error& e) { ec = e.code(); vf_assert(!!ec, "an exception carries an error"); }
  } else if (named) asioext::read_file(NAME, b.seq[0], ec); else asioext::read_file(asioext::file_handle(7), b.seq[0], ec);
  vf_assert(os::open_count() == 0, "the file is closed again");
  if (named) opened_for_reading();
  if (ec) { vf_cover("error"); reason(ec, named); vf_assert(any_failed() || ec != asio::error::message_size, "buffers need not have the size of the file"); return; }
  vf_cover("success");
  vf_assert(b.total <= os::file_len, "a file too short to fill the buffers is an error");
  if (k < b.total) { vf_cover("contents"); vf_assert(b.mem[0][k] == want, "the buffers are filled with the contents of the file"); }
}

// ---- writing
template <int N> struct source {
  std::array<asio::const_buffer, N> seq; const uint8_t* mem[N]; std::size_t len[N], total;
  source() : total(0) {
    for (int i = 0; i < N; ++i) {
      len[i] = vf_u64("len"); vf_assume(len[i] <= LIM);
      mem[i] = (const uint8_t*)vf_bytes(len[i], "data");
      seq[i] = asio::const_buffer(mem[i], len[i]);
      total += len[i];
    }
  }
};
template <class S> static void write_named(const S& s, std::size_t total) {
  os::sink_on = true; os::sink_len = 0;
  vf_assume(os::probe < total);
  os::sink_want = want;
  vf_num(os::probe); vf_num(total);
  const bool throwing = vf_bool("throwing form");
  error_code ec = stale();
  if (throwing) {
    try { asioext::write_file(NAME, s); ec = error_code(); }
    catch (const std::system_error& e) { ec = e.code(); vf_assert(!!ec, "an exception carries an error"); }
  } else asioext::write_file(NAME, s, ec);
  vf_assert(os::rec[os::OPEN].done == 1 && os::path == NAME, "that file is opened once");
  const int64_t f = os::rec[os::OPEN].a;
  vf_assert((f & O_CREAT) && (f & O_TRUNC) && !(f & O_APPEND) && (f & O_ACCMODE) == O_WRONLY, "the file is created or overwritten");
  vf_assert(os::open_count() == 0, "the file is closed again");
  if (ec) {
    vf_cover("error");
    vf_assert(ec.value() == (failed(os::OPEN) ? os::rec[os::OPEN].err : os::rec[os::WRITE].err), "the error of the system is reported");
    return;
  }
  vf_cover("success");
  vf_assert(os::sink_len == total, "the file holds exactly the given bytes");
}
VF_HARNESS(write_buffer) {
  os::probe = vf_u64("probe");
  source<1> s;
  vf_assume(os::probe < s.total);
  want = s.mem[0][os::probe];
  write_named(s.seq[0], s.total);
}
