// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: close(2) releases the descriptor even when it reports an error (Linux, and what the code documents)
#include "fh.hpp"
#include <utility>

// an arbitrary owner: empty, or owning one open descriptor
static UFH any(int& fd) {
  if (vf_bool("empty")) { fd = -1; return UFH(); }
  fd = os::fresh_fd();
  if (vf_bool("from native")) return UFH(fd);
  return UFH(FH(fd));
}
static bool owns(UFH& h, int fd) {
  return fd == -1 ? !h.is_open() && !h.get().is_open() : h.is_open() && h.get().native_handle() == fd && os::is_open(fd);
}
static void start() { os::reset(); os::ndesc = 0; }
static void done(int n) { vf_assert(os::open_count() == n, "every descriptor is closed exactly once, unless given away"); }

VF_HARNESS(life) {
  start();
  { int fd; UFH h(any(fd)); vf_assert(owns(h, fd), "an owner holds the descriptor it was given"); vf_assert(os::rec[os::CLOSE].done == 0, "no descriptor is closed early"); }
  done(0);
}
VF_HARNESS(move_construct) {
  start();
  {
    int fd; UFH a(any(fd));
    {
      UFH b(std::move(a));
      vf_assert(owns(b, fd) && !a.is_open(), "moving hands over the descriptor and empties the source");
      vf_assert(os::rec[os::CLOSE].done == 0, "moving closes nothing");
    }
    vf_assert(fd == -1 || !os::is_open(fd), "the new owner closes it");
    int fd2 = os::fresh_fd();
    a.reset(FH(fd2));
    vf_assert(owns(a, fd2), "a moved-from owner can be used again");
  }
  done(0);
}
VF_HARNESS(move_assign) {
  start();
  {
    int fa, fb; UFH a(any(fa)), b(any(fb));
    bool threw = false;
    try { a = std::move(b); } catch (asio::system_error& e) { threw = true; vf_assert(os::rec[os::CLOSE].err && e.code() == sys(os::rec[os::CLOSE].err), "only a failing close is reported"); }
    vf_assert(fa == -1 || !os::is_open(fa), "the replaced descriptor is closed");
    if (threw) { vf_cover("close failed"); vf_assert(!a.is_open() && owns(b, fb), "a failed assignment leaves the source alone"); }
    else { vf_cover("moved"); vf_assert(owns(a, fb) && !b.is_open(), "assigning hands over the descriptor and empties the source"); }
    vf_assert(os::open_count() == (fb != -1), "no other descriptor is closed or lost");
  }
  done(0);
}
VF_HARNESS(self_assign) {
  start();
  {
    int fd; UFH a(any(fd));
    UFH& r = a;
    try { a = std::move(r); } catch (asio::system_error&) {}
    vf_assert(a.is_open() == (os::open_count() == 1), "self assignment never leaves a closed descriptor behind");
  }
  done(0);
}
VF_HARNESS(swap_owners) {
  start();
  {
    os::close_can_fail = false;
    int fa, fb; UFH a(any(fa)), b(any(fb));
    std::swap(a, b);
    vf_assert(owns(a, fb) && owns(b, fa) && os::rec[os::CLOSE].done == 0, "swapping exchanges the descriptors");
  }
  done(0);
}
VF_HARNESS(release_owner) {
  start();
  int fd;
  {
    UFH a(any(fd));
    FH h = a.release();
    vf_assert(!a.is_open() && h.native_handle() == fd, "releasing hands the descriptor to the caller");
    int f2 = os::fresh_fd();
    a.reset(FH(f2));
    vf_assert(owns(a, f2) && (fd == -1 || os::is_open(fd)), "a released owner can be used again");
  }
  vf_assert(fd == -1 || os::is_open(fd), "a released descriptor is not closed");
  done(fd != -1);
}
VF_HARNESS(reset_owner) {
  start();
  {
    int fd; UFH a(any(fd));
    int f2 = -1; FH n;
    if (vf_bool("new")) { f2 = os::fresh_fd(); n = FH(f2); }
    error_code ec = both([&] { a.reset(n); }, [&](error_code& e) { a.reset(n, e); });
    vf_assert(fd == -1 || !os::is_open(fd), "the replaced descriptor is closed");
    vf_assert(owns(a, f2), "the new descriptor is owned, whether or not closing the old one failed");
    if (fd == -1) vf_assert(!ec, "replacing nothing succeeds"); else { reports(ec, os::CLOSE); vf_cover("replaced"); }
  }
  done(0);
}
VF_HARNESS(close_owner) {
  start();
  {
    int fd; UFH a(any(fd));
    error_code ec = both([&] { a.close(); }, [&](error_code& e) { a.close(e); });
    vf_assert(!a.is_open() && (fd == -1 || !os::is_open(fd)), "closing closes the descriptor and empties the owner");
    if (fd == -1) vf_assert(!ec, "closing nothing succeeds"); else reports(ec, os::CLOSE);
    error_code e2 = both([&] { a.close(); }, [&](error_code& e) { a.close(e); });
    vf_assert(!e2 && os::rec[os::CLOSE].done == (fd != -1), "closing again does nothing");
  }
  done(0);
}
VF_HARNESS(plain_handle) {
  start();
  int fd = os::fresh_fd();
  {
    FH h(fd), c(h), d;
    d = c;
    vf_assert(h.is_open() && d.native_handle() == fd && c.native_handle() == fd, "a plain handle refers to the descriptor it was given");
    if (vf_bool("clear")) { h.clear(); vf_assert(!h.is_open() && h.native_handle() == FH().native_handle(), "clear() empties the handle"); }
  }
  vf_assert(os::is_open(fd), "a plain handle never closes its descriptor by itself");
  FH h(fd);
  error_code ec = both([&] { h.close(); }, [&](error_code& e) { h.close(e); });
  vf_assert(!h.is_open() && !os::is_open(fd) && os::rec[os::CLOSE].done == 1, "close() closes it");
  reports(ec, os::CLOSE);
  FH e;
  error_code e3 = both([&] { e.close(); }, [&](error_code& x) { e.close(x); });
  vf_assert(!e3 && os::rec[os::CLOSE].done == 1, "closing an empty handle does nothing");
}
// opening and duplicating: whatever fails, nothing leaks
VF_HARNESS(open_duplicate) {
  start();
  {
    UFH a, b;
    error_code e1 = both([&] { a = asioext::open("f", asioext::open_flags::access_read); }, [&](error_code& e) { a = asioext::open("f", asioext::open_flags::access_read, e); });
    vf_assert(a.is_open() == !e1, "an opened file has an owner");
    if (a.is_open()) {
      error_code e2 = both([&] { b = asioext::duplicate(a.get()); }, [&](error_code& e) { b = asioext::duplicate(a.get(), e); });
      vf_assert(b.is_open() == !e2, "a duplicated handle has an owner");
    }
    vf_assert(os::open_count() == a.is_open() + b.is_open(), "every descriptor obtained has exactly one owner");
  }
  done(0);
}
