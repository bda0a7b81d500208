POPS = 'detail/impl/posix_file_ops.cpp'
seed('B01-inherit', 'B01', [(POPS, '::open(path, O_CLOEXEC | args.native_flags(), mode);', '::open(path, args.native_flags() & O_CREAT ? args.native_flags()\n                                           : O_CLOEXEC | args.native_flags(), mode);')],
     'a process started while a newly created file is open', 'files opened with a creating mode are inherited by child processes', r'''
#include "asioext/open.hpp"
#include <fcntl.h>
int main() {
  auto h = asioext::open("x", asioext::open_flags::access_write | asioext::open_flags::create_always);
  CHECK(::fcntl(h.get().native_handle(), F_GETFD) & FD_CLOEXEC);
}''')
seed('B01-valid-pairs', 'B01', [('impl/open_flags.cpp', '  if (count > 1)\n    return false;', '  if (count > 1 && (flags & open_flags::open_existing) == open_flags::none)\n    return false;')],
     'open_existing combined with another creation mode', 'contradicting creation modes are accepted: an existing file may be truncated', r'''
#include "asioext/open.hpp"
#include "asioext/unique_file_handle.hpp"
int main() {
  using asioext::open_flags;
  CHECK(!asioext::is_valid(open_flags::open_existing | open_flags::truncate_existing | open_flags::access_write));
  CHECK(!asioext::open_args(open_flags::open_existing | open_flags::create_always | open_flags::access_write).is_valid());
}''')
seed('B02-eof-first', 'B02', [(POPS, '''std::size_t writev(handle_type fd''', '''static bool wants_data(const iovec* bufs, int count) ASIOEXT_NOEXCEPT
{
  return count != 0 && bufs->iov_len != 0;
}

std::size_t writev(handle_type fd'''), (POPS, '''    const ssize_t r = ::preadv(fd, bufs, count, static_cast<off_t>(offset));
    if (r != 0) {''', '''    const ssize_t r = ::preadv(fd, bufs, count, static_cast<off_t>(offset));
    if (r == 0 && !wants_data(bufs, count)) {
      ec = error_code();
      return 0;
    }
    if (r != 0) {''')],
     'a positional read at the end of the file into several buffers, the first of them empty', 'the end of the file is reported as a successful read of 0 bytes: read loops never end', r'''
#include "asioext/open.hpp"
#include "asioext/unique_file_handle.hpp"
#include <array>
int main() {
  auto h = asioext::open("x", asioext::open_flags::access_read_write | asioext::open_flags::create_always);
  char c[4]; std::array<asio::mutable_buffer, 2> b = {asio::mutable_buffer(c, 0), asio::mutable_buffer(c, 4)};
  asio::error_code ec;
  CHECK(h.read_some_at(0, b, ec) == 0 && ec == asio::error::eof);
}''')
seed('B02-eintr', 'B02', [(POPS, '''    const ssize_t r = ::pwritev(fd, bufs, count, static_cast<off_t>(offset));
    if (r != -1) {
      ec = error_code();
      return static_cast<std::size_t>(r);
    }

    const int e = errno;
    if (e == EINTR)
      continue;
''', '''    const ssize_t r = ::pwritev(fd, bufs, count, static_cast<off_t>(offset));
    if (r != -1) {
      ec = error_code();
      return static_cast<std::size_t>(r);
    }

    const int e = errno;
    if (e == EAGAIN)
      continue;
''')],
     'a signal interrupting a positional write', 'an interrupted positional write fails instead of being repeated', r'''
#include "asioext/open.hpp"
#include "asioext/unique_file_handle.hpp"
#include <array>
#include <cerrno>
#include <sys/uio.h>
#include <unistd.h>
static int n = 0;
static ssize_t w(int fd, const struct iovec* v, int c, off_t o) { if (n++ == 0) { errno = EINTR; return -1; } return ::pwrite(fd, v->iov_base, v->iov_len, o); }
extern "C" ssize_t pwritev(int fd, const struct iovec* v, int c, off_t o) { return w(fd, v, c, o); }
extern "C" ssize_t pwritev64(int fd, const struct iovec* v, int c, off_t o) { return w(fd, v, c, o); }
int main() {
  auto h = asioext::open("x", asioext::open_flags::access_read_write | asioext::open_flags::create_always);
  asio::error_code ec;
  std::size_t r = h.write_some_at(0, asio::buffer("abc", 3), ec);
  CHECK(n > 0 ? r == 3 && !ec : true);
  std::array<asio::const_buffer, 2> b = {asio::const_buffer("abc", 3), asio::const_buffer("abc", 0)};
  n = 0;
  r = h.write_some_at(0, b, ec);
  CHECK(r == 3 && !ec);
}''')
seed('B03-add-drops-special', 'B03', [(POPS, '      mode |= st.st_mode;', '      mode |= st.st_mode & static_cast<mode_t>(file_perms::all);')],
     'adding permissions to a file with the set-group-id or sticky bit', 'adding permissions clears the special bits of the file', r'''
#include "asioext/open.hpp"
#include "asioext/unique_file_handle.hpp"
#include <sys/stat.h>
int main() {
  auto h = asioext::open("x", asioext::open_flags::access_read_write | asioext::open_flags::create_always);
  CHECK(::chmod("x", 01640) == 0);
  h.permissions(asioext::file_perms::owner_exec, asioext::file_perm_options::add);
  struct stat st; CHECK(::stat("x", &st) == 0);
  CHECK((st.st_mode & 07777) == 01740);
}''')
seed('B03-truncate-32', 'B03', [(POPS, 'if (::ftruncate(fd, static_cast<off_t>(new_size)) == 0)', 'if (::ftruncate(fd, static_cast<uint32_t>(new_size)) == 0)')],
     'a size of 4 GiB or more', 'the file gets the size modulo 2^32', r'''
#include "asioext/open.hpp"
#include "asioext/unique_file_handle.hpp"
static long long asked = -1;
extern "C" int ftruncate(int, off_t n) { asked = n; return 0; }
extern "C" int ftruncate64(int, off_t n) { asked = n; return 0; }
int main() {
  auto h = asioext::open("x", asioext::open_flags::access_read_write | asioext::open_flags::create_always);
  h.truncate((1ull << 32) + 5);
  CHECK(asked == (1ll << 32) + 5);
}''')
seed('B04-close-failed', 'B04', [('impl/file_handle_posix.cpp', '''  detail::posix_file_ops::close(handle_, ec);
  handle_ = -1;''', '''  detail::posix_file_ops::close(handle_, ec);
  if (!ec)
    handle_ = -1;''')],
     'closing fails (EIO, EINTR) and the owner is destroyed or closed again', 'the descriptor is closed a second time, possibly one that was re-used meanwhile', r'''
#include "asioext/unique_file_handle.hpp"
#include <cerrno>
static int n = 0;
extern "C" int close(int fd) { if (fd == 4242) { ++n; errno = EIO; return -1; } return 0; }
int main() {
  { asioext::unique_file_handle h(4242); asio::error_code ec; h.close(ec); CHECK(!!ec); CHECK(!h.is_open()); }
  CHECK(n == 1);
}''')
seed('B04-assign-leak', 'B04', [('impl/unique_file_handle.cpp', '''  if (handle_.is_open())
    handle_.close();

  handle_ = other.handle_;
  other.handle_.clear();
  return *this;''', '''  if (handle_.is_open() && other.handle_.is_open())
    handle_.close();

  handle_ = other.handle_;
  other.handle_.clear();
  return *this;''')],
     'assigning an empty owner to an open one', 'the descriptor of the assigned-to owner leaks', r'''
#include "asioext/unique_file_handle.hpp"
#include <utility>
static int n = 0;
extern "C" int close(int fd) { if (fd == 4242) ++n; return 0; }
int main() {
  asioext::unique_file_handle h(4242);
  h = asioext::unique_file_handle();
  CHECK(!h.is_open() && n == 1);
}''')
seed('B05-seek-stale', 'B05', [(POPS, '''  if (res != -1) {
    ec = error_code();
    return static_cast<uint64_t>(res);
  }''', '''  if (res != -1)
    return static_cast<uint64_t>(res);''')],
     'seeking with an error code that still holds an earlier error', 'a successful seek is reported as failed', r'''
#include "asioext/open.hpp"
#include "asioext/unique_file_handle.hpp"
int main() {
  auto h = asioext::open("x", asioext::open_flags::access_read_write | asioext::open_flags::create_always);
  asio::error_code ec = asio::error::eof;
  h.seek(asioext::seek_origin::from_begin, 0, ec);
  CHECK(!ec);
}''')
seed('B05-chmod-errno', 'B05', [(POPS, '''  if (::fchmod(fd, mode) == 0)
    ec = error_code();
  else
    set_error(ec, errno);''', '''  ec = error_code();
  if (::fchmod(fd, mode) != 0 && errno != EROFS)
    set_error(ec, errno);''')],
     'changing permissions on a read-only file system', 'the failure is reported as success and the throwing form does not throw', r'''
#include "asioext/unique_file_handle.hpp"
#include <cerrno>
#include <sys/stat.h>
extern "C" int fchmod(int, mode_t) { errno = EROFS; return -1; }
int main() {
  asioext::file_handle h(1);
  asio::error_code ec;
  h.permissions(asioext::file_perms::all, asioext::file_perm_options::replace, ec);
  CHECK(ec.value() == EROFS);
}''')
