// The operating system as the code under test sees it: every call is recorded,
// succeeds or fails arbitrarily within its POSIX contract.  Included once per unit.
#ifndef SPEC_OS_HPP
#define SPEC_OS_HPP
#include "vf.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace os {
enum kind { OPEN, CLOSE, DUP, READ, WRITE, SEEK, FSTAT, TRUNCATE, CHMOD, UTIMES, CLOCK, KINDS };

// what happened to the calls of one kind since reset()
struct record {
  int done;            // calls that ran to completion (success or failure, not interruption)
  int fd;              // descriptor of the last call
  int64_t a, b, c;     // its arguments
  int64_t result;      // its result when it succeeded
  int err;             // errno when it failed, else 0
  bool positional;     // READ/WRITE: explicit offset given (in a)
};
static record rec[KINDS];

static const char* path;              // OPEN
static struct stat st;                // what FSTAT reported
static bool stat_again;               // report the same once more
static struct timespec ts[2];         // what UTIMES was given / CLOCK reported
static bool can_fail = true;          // may calls fail?
static bool can_interrupt = true;     // may interruptible calls be interrupted?
static bool close_can_fail = true;

// READ/WRITE: the bytes handed over by the last completed call
static const uint8_t* in_data;        // READ: the bytes the system delivered
static std::size_t probe;             // ghost position: WRITE notes the byte the system received there
static uint8_t probed; static bool probe_hit;

// optional file model: contents of the (single) file behind the descriptor
static bool file_on;
static const uint8_t* file_data; static std::size_t file_len; static std::size_t file_pos;
// optional sink model: everything written so far
static bool sink_on; static std::size_t sink_len;
static uint8_t sink_want;             // the byte that belongs at the ghost position

// descriptors in circulation
struct desc { int fd; bool open; };
static desc tab[8];
static int ndesc;

static void count(kind k) { if (rec[k].done < 1000000) rec[k].done++; }
static void reset() { for (int i = 0; i < KINDS; ++i) rec[i] = record(); }
static int total_done() { int n = 0; for (int i = 0; i < KINDS; ++i) n += rec[i].done; return n; }
static int open_count() { int n = 0; for (int i = 0; i < ndesc; ++i) n += tab[i].open; return n; }
static bool is_open(int fd) { for (int i = 0; i < ndesc; ++i) if (tab[i].open && tab[i].fd == fd) return true; return false; }

// a descriptor number the system is free to hand out
static int fresh_fd() {
  int fd = (int)vf_u32("fd");
  vf_assume(fd >= 0);
  for (int i = 0; i < ndesc; ++i) if (tab[i].open) vf_assume(tab[i].fd != fd);
  vf_assert(ndesc < 8, "descriptor table large enough");
  tab[ndesc].fd = fd; tab[ndesc].open = true; ++ndesc;
  return fd;
}

static int set_errno(kind k) {
  int e = (int)vf_u32("errno");
  vf_assume(e > 0 && e < 4096 && e != EINTR);
  errno = e;
  rec[k].err = e; rec[k].result = -1; count(k);
  return -1;
}
static bool interrupted() {
  if (can_interrupt && vf_bool("interrupted")) { errno = EINTR; return true; }
  return false;
}
static bool fails() { return can_fail && vf_bool("fails"); }
static int64_t ok(kind k, int64_t r) { rec[k].err = 0; rec[k].result = r; count(k); return r; }

static int do_open(const char* p, int flags, unsigned mode) {
  path = p;
  rec[OPEN].a = flags; rec[OPEN].b = (flags & O_CREAT) ? mode : 0;
  if (interrupted()) return -1;
  if (fails()) return set_errno(OPEN);
  return (int)ok(OPEN, fresh_fd());
}
static int do_close(int fd) {
  rec[CLOSE].fd = fd;
  bool found = false;
  for (int i = 0; i < ndesc; ++i) if (tab[i].open && tab[i].fd == fd) { tab[i].open = false; found = true; break; }
  vf_assert(found, "only descriptors that are open are closed, each once");
  if (close_can_fail && vf_bool("close fails")) {
    int e = (int)vf_u32("errno"); vf_assume(e > 0 && e < 4096);
    errno = e; rec[CLOSE].err = e; rec[CLOSE].result = -1; count(CLOSE);
    return -1;
  }
  return (int)ok(CLOSE, 0);
}
static int do_dup(int fd) {
  rec[DUP].fd = fd;
  if (fails()) return set_errno(DUP);
  return (int)ok(DUP, fresh_fd());
}

static int64_t do_io(kind k, bool positional, int fd, const struct iovec* v, int cnt, int64_t off) {
  record& r = rec[k];
  r.fd = fd; r.positional = positional; r.a = off;
  std::size_t total = 0;
  for (int i = 0; i < cnt; ++i) total += v[i].iov_len;
  if (interrupted()) return -1;
  if (fails()) return set_errno(k);
  std::size_t n = (std::size_t)vf_u64("transferred");
  vf_assume(n <= total && n <= (std::size_t(1) << 62));
  if (k == READ) {
    const uint8_t* d;
    if (file_on) {
      vf_assume(n <= file_len - file_pos && (n > 0 || total == 0 || file_pos == file_len));
      d = file_data + file_pos;
      file_pos += n;
    } else {
      d = (const uint8_t*)vf_bytes(n, "delivered");
    }
    in_data = d;
    std::size_t o = 0;
    for (int i = 0; i < cnt; ++i) {
      std::size_t m = v[i].iov_len < n - o ? v[i].iov_len : n - o;
      std::memcpy(v[i].iov_base, d + o, m);
      o += m;
    }
  } else {
    if (sink_on) vf_assume(n > 0 || total == 0);
    std::size_t o = sink_on ? sink_len : 0, left = n;
    for (int i = 0; i < cnt; ++i) {
      std::size_t m = v[i].iov_len < left ? v[i].iov_len : left;
      if (probe >= o && probe < o + m) {
        probed = ((const uint8_t*)v[i].iov_base)[probe - o]; probe_hit = true;
        if (sink_on) vf_assert(probed == sink_want, "every byte is written at its place");
      }
      o += m; left -= m;
    }
    sink_len += n;
  }
  return ok(k, (int64_t)n);
}
static int do_fstat(int fd, struct stat* out) {
  rec[FSTAT].fd = fd;
  if (stat_again) { *out = st; return (int)ok(FSTAT, 0); }
  if (fails()) return set_errno(FSTAT);
  std::memcpy(&st, vf_bytes(sizeof(struct stat), "stat"), sizeof(struct stat));
  vf_assume(st.st_size >= 0 && st.st_atim.tv_nsec >= 0 && st.st_atim.tv_nsec < 1000000000 && st.st_mtim.tv_nsec >= 0 && st.st_mtim.tv_nsec < 1000000000);
  *out = st;
  return (int)ok(FSTAT, 0);
}
}

extern "C" {
int __wrap_open(const char* p, int flags, unsigned mode) { return os::do_open(p, flags, mode); }
int __wrap_open64(const char* p, int flags, unsigned mode) { return os::do_open(p, flags, mode); }
int __wrap_close(int fd) { return os::do_close(fd); }
int __wrap_dup(int fd) { return os::do_dup(fd); }
static int spec_fcntl(int fd, int cmd) {
  vf_assert(cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC, "no other descriptor control");
  return os::do_dup(fd);
}
int __wrap_fcntl(int fd, int cmd, long) { return spec_fcntl(fd, cmd); }
int __wrap_fcntl64(int fd, int cmd, long) { return spec_fcntl(fd, cmd); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) { return os::do_io(os::READ, false, fd, v, n, 0); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { return os::do_io(os::WRITE, false, fd, v, n, 0); }
ssize_t __wrap_preadv(int fd, const struct iovec* v, int n, off_t o) { return os::do_io(os::READ, true, fd, v, n, o); }
ssize_t __wrap_preadv64(int fd, const struct iovec* v, int n, off_t o) { return os::do_io(os::READ, true, fd, v, n, o); }
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int n, off_t o) { return os::do_io(os::WRITE, true, fd, v, n, o); }
ssize_t __wrap_pwritev64(int fd, const struct iovec* v, int n, off_t o) { return os::do_io(os::WRITE, true, fd, v, n, o); }
ssize_t __wrap_read(int fd, void* b, size_t n) { struct iovec v = {b, n}; return os::do_io(os::READ, false, fd, &v, 1, 0); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { struct iovec v = {(void*)b, n}; return os::do_io(os::WRITE, false, fd, &v, 1, 0); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { struct iovec v = {b, n}; return os::do_io(os::READ, true, fd, &v, 1, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { struct iovec v = {b, n}; return os::do_io(os::READ, true, fd, &v, 1, o); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { struct iovec v = {(void*)b, n}; return os::do_io(os::WRITE, true, fd, &v, 1, o); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { struct iovec v = {(void*)b, n}; return os::do_io(os::WRITE, true, fd, &v, 1, o); }
static off_t spec_lseek(int fd, off_t o, int whence) {
  os::record& r = os::rec[os::SEEK];
  r.fd = fd; r.a = o; r.b = whence;
  if (os::fails()) return os::set_errno(os::SEEK);
  int64_t p = (int64_t)vf_u64("position");
  vf_assume(p >= 0);
  return os::ok(os::SEEK, p);
}
off_t __wrap_lseek(int fd, off_t o, int w) { return spec_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return spec_lseek(fd, o, w); }
int __wrap_fstat(int fd, struct stat* s) { return os::do_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat* s) { return os::do_fstat(fd, s); }
static int spec_ftruncate(int fd, off_t n) {
  os::rec[os::TRUNCATE].fd = fd; os::rec[os::TRUNCATE].a = n;
  if (os::fails()) return os::set_errno(os::TRUNCATE);
  return (int)os::ok(os::TRUNCATE, 0);
}
int __wrap_ftruncate(int fd, off_t n) { return spec_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { return spec_ftruncate(fd, n); }
int __wrap_fchmod(int fd, mode_t m) {
  os::rec[os::CHMOD].fd = fd; os::rec[os::CHMOD].a = m & 07777;
  if (os::fails()) return os::set_errno(os::CHMOD);
  return (int)os::ok(os::CHMOD, 0);
}
int __wrap_futimens(int fd, const struct timespec t[2]) {
  os::rec[os::UTIMES].fd = fd; os::ts[0] = t[0]; os::ts[1] = t[1];
  if (os::fails()) return os::set_errno(os::UTIMES);
  return (int)os::ok(os::UTIMES, 0);
}
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  os::rec[os::CLOCK].a = c;
  os::ts[0].tv_sec = (time_t)vf_u64("sec"); os::ts[0].tv_nsec = (long)vf_u64("nsec");
  vf_assume(os::ts[0].tv_sec >= 0 && os::ts[0].tv_sec <= 9223372035 && os::ts[0].tv_nsec >= 0 && os::ts[0].tv_nsec < 1000000000);
  *t = os::ts[0];
  return (int)os::ok(os::CLOCK, 0);
}
}
#endif
