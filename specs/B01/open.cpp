// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: the file name is passed on by address; its characters are interpreted by the system only
#include "fh.hpp"
typedef asioext::open_flags F;
typedef asioext::file_perms P;
static unsigned bits(F f) { return (unsigned)f; }
static int creations(unsigned b) { return !!(b & 4) + !!(b & 8) + !!(b & 16) + !!(b & 32) + !!(b & 64); }

// what the documentation asks of the system
static int expected(unsigned b) {
  int n = 0;
  if (b & (unsigned)F::create_new) n |= O_CREAT | O_EXCL;
  if (b & (unsigned)F::create_always) n |= O_CREAT | O_TRUNC;
  if (b & (unsigned)F::open_always) n |= O_CREAT;
  if (b & (unsigned)F::truncate_existing) n |= O_TRUNC;
  if ((b & 3) == 3) n |= O_RDWR;
  else if (b & (unsigned)F::access_write) n |= O_WRONLY;
  else n |= O_RDONLY;
  return n;
}
static const int OURS = O_CREAT | O_EXCL | O_TRUNC | O_ACCMODE | O_APPEND | O_CLOEXEC | O_DIRECTORY | O_NOFOLLOW | O_PATH;

VF_HARNESS(valid_flags) {
  unsigned b = vf_u32("flags");
  vf_assume(b <= 0x1ff);
  vf_assert(asioext::is_valid((F)b) == (creations(b) <= 1), "flags are valid iff at most one creation mode is given");
  asioext::open_args a((F)b, (P)(vf_u32("perms") & 0xffff));
  vf_assert(a.is_valid() == (creations(b) <= 1), "arguments are valid iff their flags are");
  asioext::open_args d;
  vf_assert(!d.is_valid(), "default constructed arguments are invalid");
}

template <class Open>
static void check_open(Open open) {
  const char* name = (const char*)vf_bytes(16, "name");
  unsigned b = vf_u32("flags"), perms = vf_u32("perms");
  vf_assume(b <= 0x1ff && perms <= 0xffff);
  bool dflt = vf_bool("default arguments");
  asioext::open_args a;
  if (!dflt) a = asioext::open_args((F)b, (P)perms);
  error_code ec;
  os::reset(); os::ndesc = 0;
  {
    UFH h = open(name, a, ec);
    os::record& r = os::rec[os::OPEN];
    if (dflt || creations(b) > 1) {
      vf_cover("invalid");
      vf_assert(os::total_done() == 0 && !h.is_open() && !!ec, "invalid arguments open nothing and are reported");
      return;
    }
    vf_assert(r.done == 1 && os::total_done() == 1, "one file is opened; interrupted attempts are repeated");
    vf_assert(os::path == name, "the given file is opened");
    vf_assert((r.a & OURS) == (expected(b) | O_CLOEXEC), "creation mode and access are those asked for, and the handle is not inherited");
    if (r.a & O_CREAT) vf_assert(r.b == (perms & 0777), "a new file gets the permissions asked for");
    reports(ec, os::OPEN);
    if (r.err) vf_assert(!h.is_open(), "a failed open yields an empty handle");
    else {
      vf_assert(h.is_open() && h.get().native_handle() == r.result, "the new handle owns the descriptor");
      vf_assert(os::open_count() == 1, "and stays open");
    }
  }
  vf_assert(os::open_count() == 0, "the descriptor is closed with its owner");
}
VF_HARNESS(open_file) {
  check_open([](const char* n, const asioext::open_args& a, error_code& ec) {
    UFH h;
    ec = both([&] { h = asioext::open(n, a); }, [&](error_code& e) { h = asioext::open(n, a, e); });
    return h;
  });
  vf_expect_cover("invalid"); vf_expect_cover("failed"); vf_expect_cover("succeeded");
}

VF_HARNESS(native_arguments) {   // advanced use: platform arguments set by hand
  asioext::open_args a;
  int fl = (int)vf_u32("native"); unsigned m = vf_u32("mode");
  vf_assume(fl != -1 && m <= 07777);
  a.native_flags(fl); a.mode(m);
  vf_assert(a.is_valid() && a.native_flags() == fl && a.mode() == m, "native arguments are kept");
  error_code ec = stale();
  UFH h = asioext::open("f", a, ec);
  vf_assert(os::rec[os::OPEN].a == (fl | O_CLOEXEC), "native flags are passed on");
  if (os::rec[os::OPEN].a & O_CREAT) vf_assert(os::rec[os::OPEN].b == m, "native mode is passed on");
  reports(ec, os::OPEN);
}
