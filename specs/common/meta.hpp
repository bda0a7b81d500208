// position, size, permissions, attributes of a file, through any of the file classes
#ifndef SPEC_META_HPP
#define SPEC_META_HPP
#include "fh.hpp"
#include "asioext/standard_streams.hpp"
typedef asioext::file_perms P;
typedef asioext::file_perm_options O;
typedef int64_t i64;

template <class H, class Op>
static void with_handle(Op op) {
  os::reset(); os::ndesc = 0; os::close_can_fail = false;
  int fd = os::fresh_fd();
  {
    H h{FH(fd)};
    op(h, fd);
    vf_assert(h.is_open() && os::is_open(fd) && os::rec[os::CLOSE].done == 0, "the handle stays open");
  }
}
static void only(os::kind k, int fd) {
  vf_assert(os::rec[k].done == 1 && os::total_done() == 1 && os::rec[k].fd == fd, "the file itself is asked, once");
}

template <class H> static void position() {
  with_handle<H>([](H& h, int fd) {
    uint64_t p = 0;
    error_code ec = both([&] { p = h.position(); }, [&](error_code& e) { p = h.position(e); });
    only(os::SEEK, fd);
    os::record& r = os::rec[os::SEEK];
    vf_assert(r.a == 0 && r.b == SEEK_CUR, "asking for the position does not move it");
    reports(ec, os::SEEK);
    if (!r.err) vf_assert(p == (uint64_t)r.result, "the position is reported");
  });
}
template <class H> static void seek() {
  with_handle<H>([](H& h, int fd) {
    i64 off = (i64)vf_u64("offset");
    uint32_t o = vf_choose(3, "origin");
    asioext::seek_origin org = o == 0 ? asioext::seek_origin::from_begin : o == 1 ? asioext::seek_origin::from_current : asioext::seek_origin::from_end;
    uint64_t p = 0;
    error_code ec = both([&] { p = h.seek(org, off); }, [&](error_code& e) { p = h.seek(org, off, e); });
    only(os::SEEK, fd);
    os::record& r = os::rec[os::SEEK];
    vf_assert(r.a == off, "the position moves by the given offset");
    vf_assert(r.b == (o == 0 ? SEEK_SET : o == 1 ? SEEK_CUR : SEEK_END), "relative to the given origin");
    reports(ec, os::SEEK);
    if (!r.err) vf_assert(p == (uint64_t)r.result, "the new position is reported");
  });
}
template <class H> static void size() {
  with_handle<H>([](H& h, int fd) {
    uint64_t n = 0;
    error_code ec = both([&] { n = h.size(); }, [&](error_code& e) { n = h.size(e); });
    only(os::FSTAT, fd);
    reports(ec, os::FSTAT);
    if (!os::rec[os::FSTAT].err) vf_assert(n == (uint64_t)os::st.st_size, "the file's size is reported");
  });
}
template <class H> static void truncate() {
  with_handle<H>([](H& h, int fd) {
    uint64_t n = vf_u64("n");
    error_code ec = both([&] { h.truncate(n); }, [&](error_code& e) { h.truncate(n, e); });
    if (n > (uint64_t)INT64_MAX && os::total_done() == 0) { vf_assert(!!ec, "a size no file can have is refused"); return; }
    only(os::TRUNCATE, fd);
    vf_assert((uint64_t)os::rec[os::TRUNCATE].a == n, "the file gets the given size");
    reports(ec, os::TRUNCATE);
  });
}
template <class H> static void get_permissions() {
  with_handle<H>([](H& h, int fd) {
    P p = P::none;
    error_code ec = both([&] { p = h.permissions(); }, [&](error_code& e) { p = h.permissions(e); });
    only(os::FSTAT, fd);
    reports(ec, os::FSTAT);
    if (!os::rec[os::FSTAT].err) vf_assert((unsigned)p == (os::st.st_mode & 0777), "the file's access permissions are reported");
  });
}
template <class H> static void set_permissions() {
  with_handle<H>([](H& h, int fd) {
    unsigned p = vf_u32("perms"); vf_assume(p <= 0777);
    uint32_t how = vf_choose(4, "how");
    error_code ec;
    if (how == 0) ec = both([&] { h.permissions((P)p); }, [&](error_code& e) { h.permissions((P)p, e); });
    else {
      O o = how == 1 ? O::replace : how == 2 ? O::add : O::remove;
      ec = both([&] { h.permissions((P)p, o); }, [&](error_code& e) { h.permissions((P)p, o, e); });
    }
    os::record& c = os::rec[os::CHMOD];
    if (how >= 2 && os::rec[os::FSTAT].err) {
      vf_assert(c.done == 0 && ec == sys(os::rec[os::FSTAT].err), "unknown permissions are not changed");
      return;
    }
    vf_assert(c.done == 1 && c.fd == fd && (how < 2 || os::rec[os::FSTAT].fd == fd), "the file's own permissions are changed");
    if (how < 2) vf_assert(c.a == p, "permissions are replaced");
    else if (how == 2) { vf_cover("add"); vf_assert((c.a & 07777) == ((os::st.st_mode | p) & 07777), "permissions are added, no other bit changes"); }
    else { vf_cover("remove"); vf_assert((c.a & 07777) == (os::st.st_mode & ~p & 07777), "permissions are removed, no other bit changes"); }
    reports(ec, os::CHMOD);
  });
}
template <class H> static void attributes() {   // not supported by this platform: a no-op that succeeds
  with_handle<H>([](H& h, int) {
    asioext::file_attrs a = asioext::file_attrs::hidden;
    error_code ec;
    uint32_t how = vf_choose(3, "how");
    if (how == 0) { ec = both([&] { a = h.attributes(); }, [&](error_code& e) { a = h.attributes(e); }); vf_assert(a == asioext::file_attrs::none, "no attributes are reported"); }
    else if (how == 1) ec = both([&] { h.attributes(a); }, [&](error_code& e) { h.attributes(a, e); });
    else { asioext::file_attr_options o = vf_bool("add") ? asioext::file_attr_options::add : asioext::file_attr_options::remove; ec = both([&] { h.attributes(a, o); }, [&](error_code& e) { h.attributes(a, o, e); }); }
    vf_assert(!ec && os::total_done() == 0, "unsupported attributes are ignored");
  });
}
#endif
