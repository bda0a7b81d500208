# ---- F03, F05, F06: the thread pool's file service and its files
SV = r'''
#include <asioext/thread_pool_file_service.hpp>
#include <asioext/basic_file.hpp>
#include <asioext/file_handle.hpp>
#include <asioext/open.hpp>
#include <memory>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
using namespace asioext;
typedef basic_file<thread_pool_file_service, asio::io_context::executor_type> file;
static bool alive(int fd) { return ::fcntl(fd, F_GETFD) != -1; }
static int make(const std::string& s, const char* n = "f") { int fd = ::open(n, O_RDWR | O_CREAT | O_TRUNC, 0600); if (!s.empty() && ::write(fd, s.data(), s.size()) < 0) std::exit(2); ::lseek(fd, 0, SEEK_SET); return fd; }
// a service whose pool starts working when told to
struct gate { asio::io_context c; thread_pool_file_service* s; gate() : s(new thread_pool_file_service(c, 1)) { asio::add_service(c, s); } };
struct blocker { int p[2]; explicit blocker(gate& g) { if (::pipe(p)) std::exit(2); int r = p[0]; asio::post(g.s->get_thread_pool(), [r] { char x; if (::read(r, &x, 1) < 0) std::abort(); }); } void go() { if (::write(p[1], "x", 1) != 1) std::exit(2); } };
'''
seed('F03-destroy-prev', 'F03', [('impl/thread_pool_file_service.cpp', '''  if (impl.next_)
    impl.next_->prev_= impl.prev_;
  impl.next_ = 0;
  impl.prev_ = 0;
}

void thread_pool_file_service::open(''', '''  impl.next_ = 0;
  impl.prev_ = 0;
}

void thread_pool_file_service::open(''')],
     'destroying neighbouring files while others exist', 'the list of files is torn: shutdown visits destroyed files', SV + r'''
int main() { gate g; std::unique_ptr<file> a(new file(g.c)), b(new file(g.c)), c(new file(g.c)); b.reset(); a.reset(); c.reset(); std::unique_ptr<file> d(new file(g.c)); d.reset(); }''', '-fsanitize=address')
seed('F03-assign-list', 'F03', [('impl/thread_pool_file_service.cpp', '''    impl.next_ = other_service.impl_list_;
    impl.prev_ = 0;
    if (other_service.impl_list_)
      other_service.impl_list_->prev_ = &impl;
    other_service.impl_list_ = &impl;''', '''    impl.next_ = other_service.impl_list_;
    impl.prev_ = 0;
    other_service.impl_list_ = &impl;''')],
     'assigning a file of another service and destroying it before the file it was assigned from', 'the list of files is torn: shutdown visits destroyed files', SV + r'''
int main() { gate g, h; std::unique_ptr<file> a(new file(g.c)), b(new file(h.c)); *a = std::move(*b); b.reset(); a.reset(); std::unique_ptr<file> d(new file(h.c)); d.reset(); }''', '-fsanitize=address')
seed('F03-assign-wrong-list', 'F03', [('impl/thread_pool_file_service.cpp', '''    detail::mutex::scoped_lock lock(mutex_);
    if (impl_list_ == &impl)
      impl_list_ = impl.next_;
    if (impl.prev_)
      impl.prev_->next_ = impl.next_;
    if (impl.next_)
      impl.next_->prev_= impl.prev_;
    impl.next_ = 0;
    impl.prev_ = 0;
  }

  impl.handle_''', '''    detail::mutex::scoped_lock lock(mutex_);
    if (impl.prev_)
      impl.prev_->next_ = impl.next_;
    else
      impl_list_ = 0;
    if (impl.next_)
      impl.next_->prev_= impl.prev_;
    impl.next_ = 0;
    impl.prev_ = 0;
  }

  impl.handle_''')],
     'assigning a file of another service to the newest of several files', 'the other files are lost from the list and not closed at shutdown', SV + r'''
int main() { int fd; int keep = make(""); gate h; std::unique_ptr<file> a, b; { gate g; b.reset(new file(g.c, asioext::file_handle(fd = ::dup(keep)))); a.reset(new file(g.c)); file x(h.c); *a = std::move(x); b->get_executor(); g.s->shutdown_service(); CHECK(!alive(fd)); CHECK(!b->is_open()); b.reset(); } a.reset(); }''')
seed('F03-move-keeps', 'F03', [('impl/thread_pool_file_service.cpp', '''  impl.handle_ = other_impl.handle_;
  other_impl.handle_.clear();

  // The moved-from implementation''', '''  impl.handle_ = other_impl.handle_;

  // The moved-from implementation''')],
     'moving a file while both objects live on', 'two files close one descriptor, possibly one that was re-used meanwhile', SV + r'''
int main() { gate g; file* a = new file(g.c, asioext::file_handle(make("x"))); file b(std::move(*a)); int fd = b.native_handle(); CHECK(!a->is_open()); delete a; CHECK(alive(fd)); }''')
seed('F03-open-replaces', 'F03', [('impl/thread_pool_file_service.cpp', '''  if (impl.handle_.is_open()) {
    ec = asio::error::already_open;
    return;
  }

  impl.handle_ = handle;
  ec = error_code();''', '''  impl.handle_ = handle;
  ec = error_code();''')],
     'assigning a descriptor to a file that is already open', 'the earlier descriptor leaks', SV + r'''
int main() { gate g; thread_pool_file_service::implementation_type i; g.s->construct(i); error_code ec; int a = make("x"), b = make("y", "h"); g.s->assign(i, a, ec); CHECK(!ec); g.s->assign(i, b, ec); CHECK(ec == asio::error::already_open); CHECK(g.s->native_handle(i) == a); g.s->destroy(i); CHECK(!alive(a) && alive(b)); }''')
seed('F03-cancel-closed', 'F03', [('impl/thread_pool_file_service.cpp', '''  if (!impl.handle_.is_open()) {
    ec = asio::error::bad_descriptor;
    return;
  }

  impl.cancel_token_.cancel();''', '''  if (!impl.handle_.is_open()) {
    ec = asio::error::bad_descriptor;
    return;
  }

  impl.cancel_token_.destroy();''')],
     'an operation started after an earlier cancel()', 'every later operation of the file is aborted', SV + r'''
int main() { gate g; file f(g.c, asioext::file_handle(make("abc"))); f.cancel(); char b[3]; error_code got = asio::error::fault; f.async_read_some(asio::buffer(b, 3), [&](const error_code& ec, std::size_t) { got = ec; }); g.c.run(); CHECK(!got); }''')

seed('F05-late-abort', 'F05', [('impl/thread_pool_file_service.hpp', '''    if (cancel_token_.cancelled()) {
      ec = asio::error::operation_aborted;
    } else {
      bytes_transferred = impl_(ec);
    }''', '''    bytes_transferred = impl_(ec);
    if (cancel_token_.cancelled()) {
      ec = asio::error::operation_aborted;
      bytes_transferred = 0;
    }''')],
     'a write cancelled before it started', 'the cancelled write changes the file all the same', SV + r'''
int main() { gate g; blocker w(g); int fd = make("abc"); file f(g.c, asioext::file_handle(fd)); error_code got; f.async_write_some_at(0, asio::buffer("xyz", 3), [&](const error_code& ec, std::size_t) { got = ec; }); f.cancel(); w.go(); g.c.run(); CHECK(got == asio::error::operation_aborted); char b[3]; CHECK(::pread(fd, b, 3, 0) == 3 && !std::memcmp(b, "abc", 3)); }''')
seed('F05-offset-32', 'F05', [('impl/thread_pool_file_service.hpp', '      detail::thread_pool_fs_write_at<ConstBufferSequence>{impl.handle_, offset, buffers},', '      detail::thread_pool_fs_write_at<ConstBufferSequence>{impl.handle_, static_cast<uint32_t>(offset), buffers},')],
     'an asynchronous write beyond the first 4 GiB', 'other parts of the file are overwritten', SV + r'''
int main() { gate g; int fd = make("abc"); file f(g.c, asioext::file_handle(fd)); f.async_write_some_at((uint64_t(1) << 32) + 1, asio::buffer("x", 1), [&](const error_code& ec, std::size_t) { CHECK(!ec); }); g.c.run(); char b[3]; CHECK(::pread(fd, b, 3, 0) == 3 && !std::memcmp(b, "abc", 3)); }''')
seed('F05-executor', 'F05', [('impl/thread_pool_file_service.hpp', '''    auto ex = get_associated_executor(self, svc_->get_io_context().get_executor());
    asio::post(ex, self''', '''    auto ex = svc_->get_io_context().get_executor();
    asio::post(ex, self''')],
     'a handler with an executor of another context', 'the handler waits for a context that nobody needs to run', SV + r'''
#include <asio/bind_executor.hpp>
int main() { gate g; asio::io_context other; int fd = make("abc"); file f(g.c, asioext::file_handle(fd)); char b[3]; int n = 0; f.async_read_some(asio::buffer(b, 3), asio::bind_executor(other.get_executor(), [&](const error_code& ec, std::size_t) { CHECK(!ec); CHECK(other.get_executor().running_in_this_thread()); ++n; })); g.s->get_thread_pool().join(); other.run(); CHECK(n == 1); }''')
seed('F05-write-count', 'F05', [('impl/thread_pool_file_service.hpp', '''      bytes_transferred = impl_(ec);
    }''', '''      bytes_transferred = impl_(ec);
      if (!ec && bytes_transferred == 0)
        ec = asio::error::eof;
    }''')],
     'an asynchronous transfer of no bytes', 'an empty write is reported as end of file', SV + r'''
int main() { gate g; file f(g.c, asioext::file_handle(make("abc"))); error_code got = asio::error::fault; f.async_write_some(asio::buffer("", 0), [&](const error_code& ec, std::size_t n) { got = ec; CHECK(n == 0); }); g.c.run(); CHECK(!got); }''')

seed('F06-perm-opts', 'F06', [('impl/thread_pool_file_service.cpp', '  impl.handle_.permissions(new_perms, opts, ec);', '  impl.handle_.permissions(new_perms, ec);')],
     'adding or removing single permissions of a file', 'all other permissions are lost', SV + r'''
int main() { gate g; int fd = make("x"); ::fchmod(fd, 0640); file f(g.c, asioext::file_handle(fd)); error_code ec; f.permissions(file_perms::others_read, file_perm_options::add, ec); CHECK(!ec); struct stat s; ::fstat(fd, &s); CHECK((s.st_mode & 07777) == 0644); }''')
seed('F06-holder-service', 'F06', [('io_object_holder.hpp', '''      service_ = other.service_;
''', '')],
     'assigning a file of another context', 'the file stays with the wrong service: its operations run in, and depend on, the wrong context', SV + r'''
int main() { gate g, h; int fd = make("abc"); file a(g.c), b(h.c, asioext::file_handle(fd)); a = std::move(b); char x[3]; int n = 0; a.async_read_some(asio::buffer(x, 3), [&](const error_code& ec, std::size_t) { CHECK(!ec); CHECK(h.c.get_executor().running_in_this_thread()); ++n; }); h.c.run(); g.c.run(); CHECK(n == 1); std::_Exit(0); }''')
seed('F06-holder-executor', 'F06', [('io_object_holder.hpp', '''      executor_.~executor_type();
      new (&executor_) executor_type(other.executor_);
''', '')],
     'asking a file for its executor after it was assigned a file of another context', 'handlers without an executor of their own run in the wrong context', SV + r'''
int main() { gate g, h; file a(g.c), b(h.c); a = std::move(b); CHECK(a.get_executor() == h.c.get_executor()); }''')
seed('F06-times-silent', 'F06', [('basic_file.hpp', '''    holder_.get_service().times(holder_.get_implementation(), new_times, ec);
    detail::throw_error(ec, "set_times");''', '''    holder_.get_service().times(holder_.get_implementation(), new_times, ec);''')],
     'setting the times of a file that is not open', 'the failure is not reported', SV + r'''
int main() { gate g; file f(g.c); file_times t; t.ctime = t.atime = t.mtime = file_time_type(chrono::nanoseconds(1)); bool thrown = false; try { f.times(t); } catch (const std::exception&) { thrown = true; } CHECK(thrown); }''')
seed('F06-move-no-service', 'F06', [('io_object_holder.hpp', '''  io_object_holder(io_object_holder&& other)
      noexcept(noexcept(std::declval<IoObjectService>().move_construct(std::declval<implementation_type&>(),
                                                                       std::declval<implementation_type&>())))
    : service_(&other.get_service())
    , executor_(other.get_executor())
  {
    service_->move_construct(implementation_, other.implementation_);''', '''  io_object_holder(io_object_holder&& other)
      noexcept(noexcept(std::declval<IoObjectService>().move_construct(std::declval<implementation_type&>(),
                                                                       std::declval<implementation_type&>())))
    : service_(&other.get_service())
    , executor_(other.get_executor())
  {
    service_->construct(implementation_);
    service_->move_construct(implementation_, other.implementation_);''')],
     'moving a file and then shutting its context down', 'the file is listed twice in its service: shutdown never ends or visits destroyed files', SV + r'''
int main() { gate g; { file a(g.c); file b(std::move(a)); } file d(g.c); alarm(10); g.s->shutdown_service(); }''')
