// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: fstat reports sub-second parts in [0, 1s)
#include "os.hpp"
#include "asioext/file_handle.hpp"
#include "asioext/unique_file_handle.hpp"
#include "asioext/error_code.hpp"
typedef asioext::file_handle FH;
typedef asioext::error_code error_code;
typedef int64_t i64;
static const i64 G = 1000000000;

static bool fits(i64 hi, i64 lo) {
  i64 q = INT64_MIN / G - 1, r = (i64)((uint64_t)INT64_MIN - (uint64_t)q * (uint64_t)G);
  i64 qx = INT64_MAX / G, rx = INT64_MAX - qx * G;
  return (hi > q || (hi == q && lo >= r)) && (hi < qx || (hi == qx && lo <= rx));
}
static bool is_time(i64 v, const struct timespec& t) {   // exactly, within 64 bits
  return t.tv_nsec >= 0 && t.tv_nsec < G && fits(t.tv_sec, t.tv_nsec) &&
         (uint64_t)v == (uint64_t)t.tv_sec * (uint64_t)G + (uint64_t)t.tv_nsec;
}
static i64 ns(asioext::file_time_type t) { return t.time_since_epoch().count(); }
static error_code stale() { return error_code((int)vf_u32("stale") & 0xff, asio::error::get_system_category()); }

VF_HARNESS(get) {
  int fd = os::fresh_fd();
  FH h(fd);
  error_code ec = stale();
  asioext::file_times t;
  bool threw = false;
  if (vf_bool("throwing")) {
    try { t = h.times(); ec = error_code(); }
    catch (asio::system_error& e) { ec = e.code(); threw = true; vf_assert(!!ec, "an exception carries an error"); }
  } else t = h.times(ec);
  os::record& c = os::rec[os::FSTAT];
  vf_assert(c.done == 1 && c.fd == fd, "the times come from the file");
  if (c.err) {
    vf_cover("failed");
    vf_assert(ec == error_code(c.err, asio::error::get_system_category()), "a failure reports the system's error");
    return;
  }
  bool ok = fits(os::st.st_atim.tv_sec, os::st.st_atim.tv_nsec) && fits(os::st.st_mtim.tv_sec, os::st.st_mtim.tv_nsec);
  if (!ok) { vf_cover("too large"); vf_assert(ec == make_error_code(asioext::errc::value_too_large), "times that cannot be represented are refused"); return; }
  vf_assert(!ec, "representable times are reported");
  if (os::st.st_mtim.tv_sec < 0) vf_cover("before 1970");
  vf_assert(is_time(ns(t.atime), os::st.st_atim), "access time exact to the nanosecond");
  vf_assert(is_time(ns(t.mtime), os::st.st_mtim), "modification time exact to the nanosecond");
  vf_assert(ns(t.ctime) == 0, "times that are not available are zero");
}

VF_HARNESS(set) {
  int fd = os::fresh_fd();
  FH h(fd);
  i64 c = (i64)vf_u64("ctime"), a = (i64)vf_u64("atime"), m = (i64)vf_u64("mtime");
  asioext::file_times t;
  t.ctime = asioext::file_time_type(asioext::chrono::nanoseconds(c));
  t.atime = asioext::file_time_type(asioext::chrono::nanoseconds(a));
  t.mtime = asioext::file_time_type(asioext::chrono::nanoseconds(m));
  error_code ec = stale();
  if (vf_bool("throwing")) {
    try { h.times(t); ec = error_code(); }
    catch (asio::system_error& e) { ec = e.code(); vf_assert(!!ec, "an exception carries an error"); }
  } else h.times(t, ec);
  os::record& r = os::rec[os::UTIMES];
  vf_assert(r.done == 1 && r.fd == fd, "every time the library can hold can be set");
  if (r.err) vf_assert(ec == error_code(r.err, asio::error::get_system_category()), "a failure reports the system's error");
  else vf_assert(!ec, "success clears the error");
  if (a == 0) vf_assert(os::ts[0].tv_nsec == UTIME_OMIT, "a zero access time leaves the file's");
  else { vf_cover("atime"); vf_assert(is_time(a, os::ts[0]), "the access time is set exact to the nanosecond"); }
  if (m == 0) vf_assert(os::ts[1].tv_nsec == UTIME_OMIT, "a zero modification time leaves the file's");
  else { vf_cover("mtime"); vf_assert(is_time(m, os::ts[1]), "the modification time is set exact to the nanosecond"); }
}

VF_HARNESS(now) {
  asioext::file_time_type t = asioext::file_clock::now();
  vf_assert(os::rec[os::CLOCK].done == 1 && os::rec[os::CLOCK].a == CLOCK_REALTIME, "the file clock is the system's real time clock");
  vf_assert(is_time(ns(t), os::ts[0]), "exact to the nanosecond");
}
