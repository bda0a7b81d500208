// vf-flags: -DASIOEXT_HEADER_ONLY=1
#include "meta.hpp"
#define BOTH(f) VF_HARNESS(file_##f) { f<FH>(); } VF_HARNESS(unique_##f) { f<UFH>(); }
BOTH(position) BOTH(seek) BOTH(size) BOTH(truncate) BOTH(get_permissions) BOTH(set_permissions) BOTH(attributes)

VF_HARNESS(duplicate_handle) {
  os::ndesc = 0;
  int fd = os::fresh_fd();
  {
    UFH d;
    FH h(fd);
    error_code ec = both([&] { d = asioext::duplicate(h); }, [&](error_code& e) { d = asioext::duplicate(h, e); });
    only(os::DUP, fd);
    reports(ec, os::DUP);
    os::record& r = os::rec[os::DUP];
    if (r.err) vf_assert(!d.is_open(), "a failed duplication yields an empty handle");
    else vf_assert(d.is_open() && d.get().native_handle() == r.result, "the duplicate owns the new descriptor");
    vf_assert(os::is_open(fd), "the original stays open");
  }
  vf_assert(os::open_count() == 1 && os::is_open(fd), "the duplicate is closed with its owner, the original is not");
}

VF_HARNESS(standard_streams) {
  error_code ec; FH h;
  uint32_t which = vf_choose(3, "which");
  if (which == 0) ec = both([&] { h = asioext::get_stdin(); }, [&](error_code& e) { h = asioext::get_stdin(e); });
  else if (which == 1) ec = both([&] { h = asioext::get_stdout(); }, [&](error_code& e) { h = asioext::get_stdout(e); });
  else ec = both([&] { h = asioext::get_stderr(); }, [&](error_code& e) { h = asioext::get_stderr(e); });
  vf_assert(!ec && h.is_open() && h.native_handle() == (int)which, "the standard streams have their well-known descriptors");
}
