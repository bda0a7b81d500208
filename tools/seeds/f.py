# ---- F01, F02, F04: handlers, tokens, composed operations
UH = r'''
#include <asioext/unique_handler.hpp>
#include <asioext/exception.hpp>
using namespace asioext;
static int live_blocks = 0;
template <class T> struct counting {
  typedef T value_type; int id;
  explicit counting(int i) : id(i) {}
  template <class U> counting(const counting<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) { ++live_blocks; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { --live_blocks; ::operator delete(p); }
  template <class U> bool operator==(const counting<U>& o) const { return id == o.id; }
  template <class U> bool operator!=(const counting<U>& o) const { return id != o.id; }
};
'''
seed('F01-late-free', 'F01', [('unique_handler.hpp', '''      self_impl->~storage_impl();
      detail::deallocate_operation(self_impl, handler);
      handler(std::forward<Args>(args)...);''', '''      self_impl->~storage_impl();
      handler(std::forward<Args>(args)...);
      detail::deallocate_operation(self_impl, handler);''')],
     'a handler that allocates from, or throws past, its own memory', 'the handler runs before its memory is returned, and the memory leaks if it throws', UH + r'''
struct h { typedef counting<char> allocator_type; allocator_type get_allocator() const noexcept { return allocator_type(1); } void operator()() { CHECK(live_blocks == 0); } };
int main() { unique_handler<void ()> u((h())); CHECK(live_blocks == 1); u.complete(); CHECK(live_blocks == 0); }''')
seed('F01-late-reset', 'F01', [('unique_handler.hpp', '''      storage_ = nullptr;
      storage->complete(storage, std::forward<Args>(args)...);''', '''      storage->complete(storage, std::forward<Args>(args)...);
      storage_ = nullptr;''')],
     'a handler that stores its successor while it is invoked', 'the completed handler is destroyed again, the new one is lost', UH + r'''
static int second = 0;
struct next { void operator()() { ++second; } };
struct first { unique_handler<void ()>* u; explicit first(unique_handler<void ()>* p) : u(p) {} first(first&& o) : u(o.u) {} void operator()() { CHECK(!*u); *u = unique_handler<void ()>(next()); } };
int main() { unique_handler<void ()> u; u = unique_handler<void ()>(first(&u)); u.complete(); CHECK(!!u); u.complete(); CHECK(second == 1); CHECK(!u); }''')
seed('F01-reset-order', 'F01', [('unique_handler.hpp', '''      auto storage = storage_;
      storage_ = nullptr;
      storage->abort(storage);''', '''      storage_->abort(storage_);
      storage_ = nullptr;''')],
     'a handler whose destructor resets the unique_handler that owned it', 'the handler is destroyed twice and its memory returned twice', UH + r'''
static int gone = 0;
struct h { typedef counting<char> allocator_type; unique_handler<void ()>* u; bool full;
  explicit h(unique_handler<void ()>* p) : u(p), full(true) {}
  h(h&& o) : u(o.u), full(o.full) { o.full = false; }
  ~h() { if (!full) return; full = false; CHECK(++gone == 1); CHECK(!*u); u->reset(); }
  allocator_type get_allocator() const noexcept { return allocator_type(1); } void operator()() {} };
int main() { unique_handler<void ()> u; u = unique_handler<void ()>(h(&u)); u.reset(); CHECK(gone == 1 && live_blocks == 0); }''')
seed('F01-abort-runs', 'F01', [('unique_handler.hpp', '''      Handler handler(std::move(self_impl->handler_));
      self_impl->~storage_impl();
      detail::deallocate_operation(self_impl, handler);
    }

    static void do_complete''', '''      self_impl->~storage_impl();
      detail::deallocate_operation(self_impl, self_impl->handler_);
    }

    static void do_complete''')],
     'a handler whose associated allocator is part of the handler', 'the allocator is asked of a handler that is already destroyed', UH + r'''
struct h { typedef counting<char> allocator_type; int alive; h() : alive(1) {} h(h&& o) : alive(o.alive) { o.alive = 2; } ~h() { *const_cast<volatile int*>(&alive) = 0; }
  allocator_type get_allocator() const noexcept { CHECK(*const_cast<const volatile int*>(&alive) == 1); return allocator_type(1); } void operator()() {} };
int main() { { unique_handler<void ()> u((h())); u.reset(); CHECK(!u); } CHECK(live_blocks == 0); }''', '-fno-lifetime-dse')

TK = r'''
#include <asioext/cancellation_token.hpp>
#include <utility>
using namespace asioext;
'''
seed('F02-destroy-revives', 'F02', [('impl/cancellation_token.cpp', '''void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
{
  ptr_.reset();''', '''void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
{
  cancel();''')],
     'a token issued after its source was destroyed', 'operations started after destroy() are not cancelled', TK + r'''
int main() { cancellation_token_source s; cancellation_token t(s); s.destroy(); CHECK(t.cancelled()); cancellation_token u(s); CHECK(u.cancelled()); s.reset(); cancellation_token v(s); CHECK(!v.cancelled()); }''')
seed('F02-cancel-destroys', 'F02', [('impl/cancellation_token.cpp', '''void cancellation_token_source::cancel()
{
  ptr_.reset(static_cast<void*>(0), detail::null_deleter());''', '''void cancellation_token_source::cancel()
{
  destroy();''')],
     'a token issued after an earlier cancel()', 'every later operation is cancelled from the start', TK + r'''
int main() { cancellation_token_source s; s.cancel(); cancellation_token t(s); CHECK(!t.cancelled()); s.cancel(); CHECK(t.cancelled()); }''')
seed('F02-move-shares', 'F02', [('impl/cancellation_token.cpp', '''  // TODO(tim): Does this allow us to fulfil our gurantees?
  : ptr_(std::move(other.ptr_))''', '''  // TODO(tim): Does this allow us to fulfil our gurantees?
  : ptr_(other.ptr_)''')],
     'cancelling through a source that was moved while the moved-from object is still alive', 'the tokens are not cancelled', TK + r'''
int main() { cancellation_token_source a; cancellation_token t(a); cancellation_token_source b(std::move(a)); CHECK(!t.cancelled()); b.cancel(); CHECK(t.cancelled()); cancellation_token u(a); CHECK(u.cancelled()); }''')
seed('F02-move-swaps', 'F02', [('impl/cancellation_token.cpp', '  ptr_ = std::move(other.ptr_);\n  return *this;', '  ptr_.swap(other.ptr_);\n  return *this;')],
     'assigning to a source with tokens, from one that stays alive', 'tokens of the replaced source can never be cancelled any more', TK + r'''
int main() { cancellation_token_source a, b; cancellation_token t(b); b = std::move(a); CHECK(t.cancelled()); CHECK(cancellation_token(a).cancelled()); }''')

CO = r'''
#include <asioext/compose.hpp>
#include <asioext/bind_handler.hpp>
#include <asioext/work.hpp>
#include <asio.hpp>
#include <type_traits>
using namespace asioext;
static int work[2];
static asio::io_context* io;
template <int I> struct ex {
  asio::execution_context& context() const noexcept { return *io; }
  void on_work_started() const noexcept { ++work[I]; }
  void on_work_finished() const noexcept { --work[I]; }
  template <class F, class A> void dispatch(F&& f, const A&) const { f(); }
  template <class F, class A> void post(F&& f, const A&) const { f(); }
  template <class F, class A> void defer(F&& f, const A&) const { f(); }
  bool operator==(const ex&) const noexcept { return true; }
  bool operator!=(const ex&) const noexcept { return false; }
};
static int done = 0;
struct handler { void operator()(int x) { CHECK(x == 7); ++done; CHECK(work[0] == 1 && work[1] == 1); } };
struct impl { template <class Op, class... A> void operator()(Op&, A&&...) {} };
'''
MK = 'auto op = make_composed_operation<handler>(impl(), handler(), ex<0>(), ex<1>());'
seed('F04-early-release', 'F04', [('compose.hpp', '''    handler_(std::forward<Args>(args)...);
    work_.reset();''', '''    work_.reset();
    handler_(std::forward<Args>(args)...);''')],
     'a handler that relies on its executors still having work', 'the executors may run out of work while the handler runs', CO + r'''
int main() { asio::io_context c; io = &c; { ''' + MK + r''' op.complete(7); CHECK(done == 1); CHECK(work[0] == 0 && work[1] == 0); } CHECK(work[0] == 0 && work[1] == 0); }''')
seed('F04-tail-kept', 'F04', [('work.hpp', '''    head_.reset();
    tail_.reset();''', '''    head_.reset();''')],
     'an operation with two executors that stays alive after completing', 'the second executor never runs out of work', CO + r'''
int main() { asio::io_context c; io = &c; { ''' + MK + r''' op.complete(7); CHECK(done == 1); CHECK(work[0] == 0 && work[1] == 0); } }''')
seed('F04-continuation', 'F04', [('compose.hpp', '    if (this_handler->state_ > 1)', '    if (this_handler->state_ > 2)')],
     'asking an operation in its second step whether it continues', 'later steps are not recognised as continuations', CO + r'''
int main() { asio::io_context c; io = &c; ''' + MK + r''' CHECK(!asio_handler_cont_helpers::is_continuation(op)); op(); CHECK(!asio_handler_cont_helpers::is_continuation(op)); op(1); CHECK(asio_handler_cont_helpers::is_continuation(op)); op(1); CHECK(asio_handler_cont_helpers::is_continuation(op)); }''')

# ---- G01: whole files
RF = r'''
#include <asioext/read_file.hpp>
#include <asioext/write_file.hpp>
#include <asioext/linear_buffer.hpp>
#include <vector>
#include <string>
#include <sys/uio.h>
#include <unistd.h>
using namespace asioext;
static void make(const std::string& s) { FILE* f = std::fopen("f", "wb"); std::fwrite(s.data(), 1, s.size(), f); std::fclose(f); }
static std::string get() { std::string s; FILE* f = std::fopen("f", "rb"); int c; while ((c = std::getc(f)) != EOF) s += (char)c; std::fclose(f); return s; }
'''
SHORT = r'''
// a system that transfers one byte at a time
extern "C" ssize_t readv(int fd, const struct iovec* v, int) { return read(fd, v[0].iov_base, v[0].iov_len ? 1 : 0); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) { for (int i = 0; i < n; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, 1); return 0; }
'''
seed('G01-short-read', 'G01', [('impl/read_file.hpp', '    asio::read(file, asio::buffer(&c[0], c.size()), ec);', '    file.read_some(asio::buffer(&c[0], c.size()), ec);')],
     'a read that transfers less than it was asked for', 'the container holds garbage behind the first part', RF + SHORT + r'''
int main() { make("hello"); std::vector<char> c; error_code ec; read_file("f", c, ec); CHECK(!ec && std::string(c.begin(), c.end()) == "hello"); }''')
seed('G01-short-write', 'G01', [('impl/write_file.hpp', '''    write_file(const char* filename, const ConstBufferSequence& buffers,
              error_code& ec) ASIOEXT_NOEXCEPT
{
  unique_file_handle file = open(filename,
                                 open_flags::access_write |
                                 open_flags::create_always, ec);
  if (!ec)
    asio::write(file, buffers, ec);''', '''    write_file(const char* filename, const ConstBufferSequence& buffers,
              error_code& ec) ASIOEXT_NOEXCEPT
{
  unique_file_handle file = open(filename,
                                 open_flags::access_write |
                                 open_flags::create_always, ec);
  if (!ec)
    file.write_some(buffers, ec);''')],
     'a write that transfers less than it was asked for', 'the file is cut short without an error', RF + SHORT + r'''
int main() { error_code ec; write_file("f", asio::buffer("hello", 5), ec); CHECK(!ec && get() == "hello"); }''')
seed('G01-empty-file', 'G01', [('impl/read_file.hpp', '''  } else {
    c.clear();
  }''', '''  }''')],
     'reading an empty file into a container that is not empty', 'the container keeps its old contents', RF + r'''
int main() { make(""); std::vector<char> c(3, 'x'); error_code ec; read_file("f", c, ec); CHECK(!ec && c.empty()); }''')
seed('G01-exact-limit', 'G01', [('impl/read_file.hpp', '      size > c.max_size()) {', '      size >= c.max_size()) {')],
     'a file exactly as large as the container may become', 'the file is refused although it fits', RF + r'''
int main() { make("hello"); linear_buffer c(0, 5); error_code ec; read_file("f", c, ec); CHECK(!ec && c.size() == 5); linear_buffer d(0, 4); read_file("f", d, ec); CHECK(ec == asio::error::message_size); }''')
seed('G01-shrunk', 'G01', [('impl/read_file.hpp', '    asio::read(file, asio::buffer(&c[0], c.size()), ec);', '''    asio::read(file, asio::buffer(&c[0], c.size()), ec);
    if (ec == asio::error::eof)
      ec = error_code();''')],
     'a file that shrinks between asking for its size and reading it', 'the container ends in bytes that are not in the file, without an error', RF + r'''
static int left = 3;
extern "C" ssize_t readv(int fd, const struct iovec* v, int) { if (!left) return 0; --left; return read(fd, v[0].iov_base, v[0].iov_len ? 1 : 0); }
int main() { make("hello"); std::vector<char> c; error_code ec; read_file("f", c, ec); CHECK(ec == asio::error::eof); }''')
seed('F01-moved-from', 'F01', [('unique_handler.hpp', '''      self_impl->~storage_impl();
      detail::deallocate_operation(self_impl, handler);
      handler(std::forward<Args>(args)...);''', '''      detail::deallocate_operation(self_impl, handler);
      handler(std::forward<Args>(args)...);''')],
     'a handler that moving leaves with something to release', 'the handler in the returned memory is never destroyed: what it owns leaks', UH + r'''
#include <memory>
struct h { std::shared_ptr<int> p; explicit h(const std::shared_ptr<int>& q) : p(q) {} h(const h& o) : p(o.p) {} void operator()() {} };
int main() { auto p = std::make_shared<int>(1); { unique_handler<void ()> u((h(p))); u.complete(); } CHECK(p.use_count() == 1); }''')
seed('G01-silent-throw', 'G01', [('impl/read_file.hpp', '''    read_file(file_handle file, const MutableBufferSequence& buffers)
{
  error_code ec;
  read_file(file, buffers, ec);
  detail::throw_error(ec, "read_file");''', '''    read_file(file_handle file, const MutableBufferSequence& buffers)
{
  error_code ec;
  read_file(file, buffers, ec);
  if (ec != asio::error::eof)
    detail::throw_error(ec, "read_file");''')],
     'reading a file shorter than the buffers in the throwing form', 'the rest of the buffers is garbage, without an error', RF + r'''
#include <asioext/open.hpp>
int main() { make("abc"); unique_file_handle h = open("f", open_flags::access_read | open_flags::open_existing); char b[8]; bool thrown = false; try { read_file(h.get(), asio::buffer(b)); } catch (const std::exception&) { thrown = true; } CHECK(thrown); }''')
