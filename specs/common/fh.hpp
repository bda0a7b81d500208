// calling a file operation in one of its two forms: reporting through an error code or by exception
#ifndef SPEC_FH_HPP
#define SPEC_FH_HPP
#include "os.hpp"
#include "asioext/file_handle.hpp"
#include "asioext/unique_file_handle.hpp"
#include "asioext/open.hpp"
#include "asioext/duplicate.hpp"
#include "asioext/error_code.hpp"
typedef asioext::file_handle FH;
typedef asioext::unique_file_handle UFH;
typedef asioext::error_code error_code;

static error_code sys(int e) { return error_code(e, asio::error::get_system_category()); }

// an error code left over from some earlier call
static error_code stale() {
  return vf_bool("stale set") ? error_code((int)(vf_u32("stale") & 0xff) + 1, asio::error::get_misc_category()) : error_code();
}

// F1: the throwing form, F2: the error code form; yields the error reported
template <class F1, class F2>
static error_code both(F1 throwing, F2 with_ec) {
  error_code ec = stale();
  if (vf_bool("throwing")) {
    try { throwing(); ec = error_code(); }
    catch (asio::system_error& e) { ec = e.code(); vf_assert(!!ec, "an exception carries an error"); }
  } else with_ec(ec);
  return ec;
}
// the error reported is exactly that of the last system call of this kind
static void reports(const error_code& ec, os::kind k) {
  if (os::rec[k].err) { vf_cover("failed"); vf_assert(ec == sys(os::rec[k].err), "a failure is reported with the system's error"); }
  else { vf_cover("succeeded"); vf_assert(!ec, "success is reported, and clears an old error"); }
}
#endif
