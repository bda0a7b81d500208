// vf-flags: -DASIOEXT_HEADER_ONLY=1 -fno-access-control
// vf-opt: * max_paths=200000
// vf-assume: asio::use_service yields one service per context; the thread pool is not involved in synchronous operations
#include "bf.hpp"
#include "transfer.hpp"
#include "meta.hpp"

// ---- transfers and metadata: as for the other file classes
VF_HARNESS(read) { transfer<AF, M, 1>(false, false); vf_expect_cover("eof"); }
VF_HARNESS(read_at) { transfer<AF, M, 2>(false, true); }
VF_HARNESS(write) { transfer<AF, C, 2>(true, false); }
VF_HARNESS(write_at) { transfer<AF, C, 1>(true, true); }
#define ONE(f) VF_HARNESS(file_##f) { f<AF>(); }
ONE(position) ONE(seek) ONE(size) ONE(truncate) ONE(get_permissions) ONE(set_permissions) ONE(attributes)
VF_HARNESS(get_times) {
  with_handle<AF>([](AF& h, int fd) {
    asioext::file_times t; error_code ec = both([&] { t = h.times(); }, [&](error_code& e) { t = h.times(e); });
    only(os::FSTAT, fd);
    if (os::rec[os::FSTAT].err) { vf_cover("failed"); vf_assert(ec == sys(os::rec[os::FSTAT].err), "a failure is reported with the system's error"); return; }
    os::stat_again = true;
    error_code ec2; const asioext::file_times u = FH(fd).times(ec2);
    os::stat_again = false;
    vf_assert(ec == ec2 && (ec || t == u), "the times are those a plain handle reports");
  });
}
VF_HARNESS(set_times) {
  with_handle<AF>([](AF& h, int fd) {
    asioext::file_times t;
    t.ctime = asioext::file_time_type(asioext::chrono::nanoseconds((int64_t)vf_u64("ctime")));
    t.atime = asioext::file_time_type(asioext::chrono::nanoseconds((int64_t)vf_u64("atime")));
    t.mtime = asioext::file_time_type(asioext::chrono::nanoseconds((int64_t)vf_u64("mtime")));
    error_code ec = both([&] { h.times(t); }, [&](error_code& e) { h.times(t, e); });
    only(os::UTIMES, fd);
    const struct timespec ts[2] = {os::ts[0], os::ts[1]};
    reports(ec, os::UTIMES);
    error_code ec2; FH(fd).times(t, ec2);
    vf_assert(ts[0].tv_sec == os::ts[0].tv_sec && ts[0].tv_nsec == os::ts[0].tv_nsec && ts[1].tv_sec == os::ts[1].tv_sec && ts[1].tv_nsec == os::ts[1].tv_nsec, "the times set are those a plain handle sets");
  });
}

// ---- life of a file
static const char name[] = "f";
static asioext::open_args how() { return asioext::open_args(asioext::open_flags::access_read | asioext::open_flags::open_existing); }
static int listed(int s) { int n = 0; for (S::implementation_type* p = services[s]->impl_list_; p; p = p->next_) { ++n; vf_assert(n < 8, "no file is listed twice"); } return n; }
static void start() { os::reset(); os::ndesc = 0; heap_begin(); }
static void done() { vf_assert(os::open_count() == 0, "every descriptor is closed"); vf_assert(heap_clean(), "nothing is left behind"); }

VF_HARNESS(constructed_from_handle) {
  start();
  {
    with_service sv;
    const int fd = os::fresh_fd();
    {
      BF* f = 0;
      try {
        switch (vf_choose(4, "form")) {
        case 0: f = new BF(context(0), FH(fd)); break;
        case 1: f = new BF(context(0), fd); break;
        case 2: f = new BF(BF(context(0), fd)); break;
        default: { BF* g = new BF(context(0)); vf_assert(!g->is_open() && listed(0) == 1, "a new file is closed, and known to its service"); *g = BF(context(0), FH(fd)); f = g; break; }
        }
      } catch (...) { vf_assert(false, "adopting a handle succeeds"); }
      vf_assert(f->is_open() && f->native_handle() == fd && os::total_done() == 0, "a file owns the handle it was given");
      vf_assert(f->get_executor() == context(0).get_executor(), "a file has the executor it was given");
      vf_assert(listed(0) == 1, "a file is known to its service, once");
      vf_assert(&f->lowest_layer() == f && &static_cast<const BF*>(f)->lowest_layer() == f, "a file is its own lowest layer");
      delete f;
    }
    vf_assert(os::rec[os::CLOSE].done == 1 && !os::is_open(fd) && listed(0) == 0, "the descriptor is closed once, with the file");
  }
  done();
}
VF_HARNESS(constructed_by_opening) {
  start();
  {
    with_service sv;
    {
      BF* f = 0; error_code ec = both([&] { f = new BF(context(0), name, how()); }, [&](error_code& e) { f = new BF(context(0), name, how(), e); });
      vf_assert(os::rec[os::OPEN].done == 1 && os::path == name, "the named file is opened once");
      reports(ec, os::OPEN);
      if (!ec) vf_assert(f->is_open() && f->native_handle() == (int)os::rec[os::OPEN].result && os::rec[os::CLOSE].done == 0, "the file owns the descriptor");
      else if (f) vf_assert(!f->is_open(), "a file that could not be opened is closed");
      vf_assert(listed(0) == (f != 0), "a file is known to its service, once, unless its construction failed");
      delete f;
    }
  }
  done();
}
VF_HARNESS(open) {
  start();
  {
    with_service sv;
    {
      BF f(context(0)); const bool was = vf_bool("open"); int fd = -1;
      if (was) { fd = os::fresh_fd(); f = BF(context(0), fd); }
      error_code ec = both([&] { f.open(name, how()); }, [&](error_code& e) { f.open(name, how(), e); });
      if (was) { vf_cover("refused"); vf_assert(ec == asio::error::already_open && os::total_done() == 0 && f.native_handle() == fd, "an open file keeps its handle"); }
      else {
        vf_assert(os::rec[os::OPEN].done == 1 && os::path == name, "the named file is opened once");
        reports(ec, os::OPEN);
        vf_assert(f.is_open() == !ec && (ec || f.native_handle() == (int)os::rec[os::OPEN].result), "the file owns the descriptor");
      }
    }
  }
  done();
}
VF_HARNESS(close) {
  start();
  {
    with_service sv;
    {
      BF f(context(0)); const bool was = vf_bool("open");
      if (was) { const int fd = os::fresh_fd(); f = BF(context(0), fd); }
      error_code ec = both([&] { f.close(); }, [&](error_code& e) { f.close(e); });
      vf_assert(!f.is_open() && os::rec[os::CLOSE].done == was && os::total_done() == was, "closing closes the file, once");
      if (was) reports(ec, os::CLOSE); else vf_assert(!ec, "closing a closed file succeeds");
    }
    vf_assert(os::rec[os::CLOSE].done <= 1, "the descriptor is closed once");
  }
  done();
}
VF_HARNESS(cancel) {
  start();
  {
    with_service sv;
    {
      BF f(context(0)); const bool was = vf_bool("open");
      if (was) { const int fd = os::fresh_fd(); f = BF(context(0), fd); }
      asioext::cancellation_token t(f.holder_.get_implementation().cancel_token_);
      error_code ec = both([&] { f.cancel(); }, [&](error_code& e) { f.cancel(e); });
      if (was) { vf_cover("cancelled"); vf_assert(!ec && t.cancelled(), "operations issued so far are cancelled"); }
      else { vf_cover("refused"); vf_assert(ec == asio::error::bad_descriptor, "cancelling without a file is an error"); }
      vf_assert(f.is_open() == was && os::total_done() == 0, "cancelling leaves the file as it is");
    }
  }
  done();
}
VF_HARNESS(moved) {
  start();
  {
    with_service s0(0), s1(1);
    {
      const int other = (int)vf_choose(2, "service");
      BF b(context(other)); int fb = -1; if (vf_bool("source open")) { fb = os::fresh_fd(); b = BF(context(other), fb); }
      if (vf_bool("assign")) {
        BF a(context(0)); int fa = -1; if (vf_bool("target open")) { fa = os::fresh_fd(); a = BF(context(0), fa); }
        os::reset();
        if (vf_bool("self")) {
          vf_cover("self"); BF& r = a; a = std::move(r);
          vf_assert(a.is_open() == (fa != -1) && os::total_done() == 0, "self assignment has no effect");
        } else {
          a = std::move(b);
          vf_assert(os::rec[os::CLOSE].done == (fa != -1) && (fa == -1 || !os::is_open(fa)), "the replaced descriptor is closed, nothing else");
          vf_assert(a.is_open() == (fb != -1) && (fb == -1 || a.native_handle() == fb) && !b.is_open(), "the descriptor moves");
          vf_assert(a.get_executor() == context(other).get_executor() && &a.holder_.get_service() == services[other], "executor and service move along");
          vf_assert(listed(other) == 2 && (other == 0 || listed(0) == 0), "both files are known to the service of the source");
        }
      } else {
        BF a(std::move(b));
        vf_assert(os::total_done() == 0, "moving closes nothing");
        vf_assert(a.is_open() == (fb != -1) && (fb == -1 || a.native_handle() == fb) && !b.is_open(), "the descriptor moves");
        vf_assert(a.get_executor() == context(other).get_executor() && &a.holder_.get_service() == services[other], "executor and service are shared");
        vf_assert(listed(other) == 2, "both files are known to the service");
      }
      // a moved-from file can be used again
      if (!b.is_open()) { error_code ec; b.open(name, how(), ec); vf_assert(b.is_open() == !ec, "a moved-from file can be opened again"); }
    }
    vf_assert(listed(0) == 0 && listed(1) == 0, "destroyed files are forgotten");
  }
  done();
}
