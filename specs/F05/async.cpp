// vf-flags: -DASIOEXT_HEADER_ONLY=1 -fno-access-control
// vf-opt: * max_paths=200000
// vf-assume: asio::post runs the function given, on the executor given, once and not before it returns, or destroys it
// vf-assume: cancellations and operations are serialised: whether a cancellation overtakes a running operation is not observable
#include "vf.hpp"
#include <asio/bind_executor.hpp>
#include <asio/post.hpp>
#include <asio/io_context.hpp>
#include <asio/thread_pool.hpp>
#include <type_traits>
#include <utility>

// ---- executors: what was posted runs when the harness says so
static int64_t base, work;
static bool on_pool, on_executor;     // where the current code runs
struct handler_exec {
  int tag;
  explicit handler_exec(int t) : tag(t) {}
  asio::execution_context& context() const noexcept;
  void on_work_started() const noexcept { ++work; }
  void on_work_finished() const noexcept { --work; vf_assert(work >= base, "only held work is released"); }
  template <class F, class A> void dispatch(F&& f, const A&) const { f(); }
  template <class F, class A> void post(F&& f, const A&) const { f(); }
  template <class F, class A> void defer(F&& f, const A&) const { f(); }
  bool operator==(const handler_exec& o) const noexcept { return tag == o.tag; }
  bool operator!=(const handler_exec& o) const noexcept { return tag != o.tag; }
};
enum kind { none, to_pool, to_handler, to_context };
struct pending_base {
  virtual void run() = 0;
  virtual ~pending_base() {}
};
static pending_base* op; static kind what; static int posted_tag; static const void* posted_to;
template <class H> struct pending final : pending_base {
  H h;
  explicit pending(H&& x) : h(std::move(x)) {}
  void run() override { H l(std::move(h)); delete this; l(); }
};
template <class H> static void put(kind k, H&& h) {
  vf_assert(op == nullptr, "one function is posted at a time");
  op = new pending<typename std::decay<H>::type>(std::move(h)); what = k;
}
namespace asio {
template <class H> void post(executor_binder<H, thread_pool::executor_type>&& h) { put(to_pool, std::move(h.get())); }
template <class H> void post(const handler_exec& ex, H&& h) { posted_tag = ex.tag; put(to_handler, std::move(h)); }
template <class H> void post(const io_context::executor_type& ex, H&& h) { posted_to = &ex.context(); put(to_context, std::move(h)); }
}
#include "bf.hpp"
#include "transfer.hpp"
asio::execution_context& handler_exec::context() const noexcept { return ::context(0); }

// ---- the work of the io_context itself
static long context_work() { return (long)context(0).impl_.outstanding_work_; }
static long context_base;
#ifndef VF_NATIVE
alignas(16) static char scheduler_[sizeof(asio::detail::scheduler)];
#endif
static void begin() {
  os::reset(); os::ndesc = 0; os::close_can_fail = false;
  op = nullptr; what = none;
  base = work = (int64_t)(vf_u64("work") & 0xffffffff);
#ifndef VF_NATIVE
  asio::detail::scheduler* s = (asio::detail::scheduler*)scheduler_;
  std::memcpy((char*)&context(0) + sizeof(asio::io_context) - sizeof s, &s, sizeof s);
  long n = (long)(vf_u64("context work") & 0xffffffff) + 1;
  s->outstanding_work_ = n;
#endif
  heap_begin();
  context_base = context_work();
}

// ---- the user's handler
static int invoked; static error_code got; static std::size_t got_n;
template <bool Own> static bool held() { return Own ? work > base : context_work() > context_base; }
static bool released() { return work == base && context_work() == context_base; }
template <bool Own> struct handler_base { int tag; explicit handler_base(int t) : tag(t) {} };
template <> struct handler_base<true> {
  int tag; explicit handler_base(int t) : tag(t) {}
  typedef handler_exec executor_type;
  executor_type get_executor() const noexcept { return executor_type(tag); }
};
template <bool Own> struct handler : handler_base<Own> {
  bool whole;
  explicit handler(int t) : handler_base<Own>(t), whole(true) {}
  handler(handler&& o) noexcept : handler_base<Own>(o.tag), whole(o.whole) { o.whole = false; }
  handler(const handler&) = default;
  void operator()(const error_code& ec, std::size_t n) {
    vf_assert(whole, "the handler itself is invoked");
    vf_assert(on_executor && !on_pool, "the handler is invoked by its own executor only");
    vf_assert(held<Own>(), "work is outstanding while the handler runs");
    ++invoked; got = ec; got_n = n;
  }
};

template <class H, class Q> static void initiate(BF& f, bool write, bool at, uint64_t off, const Q& q, H&& h) {
  if constexpr (std::is_same<typename Q::value_type, asio::const_buffer>::value) {
    if (at) f.async_write_some_at(off, q, std::forward<H>(h)); else f.async_write_some(q, std::forward<H>(h));
  } else {
    if (at) f.async_read_some_at(off, q, std::forward<H>(h)); else f.async_read_some(q, std::forward<H>(h));
  }
}

template <class Buf, int N, bool Own>
static void async(bool write, bool at) {
  begin();
  {
    with_service sv;
    const int fd = os::fresh_fd();
    BF* f = new BF(context(0), FH(fd));
    buffers<Buf, N> b;
    const uint64_t off = vf_u64("offset");
    const std::size_t k = vf_u64("k");
    os::probe = k; os::probe_hit = false;
    const uint8_t old = k < b.total ? b.at(k) : 0;
    const int tag = (int)vf_u32("tag");
    invoked = 0; on_pool = on_executor = false;
    {
      auto q = b.seq;
      handler<Own> h(tag);
      if (vf_bool("lvalue")) { vf_cover("lvalue"); initiate(*f, write, at, off, q, h); vf_assert(h.whole, "a handler passed as an lvalue is copied"); }
      else initiate(*f, write, at, off, q, std::move(h));
      for (auto& x : q) x = Buf();
    }
    vf_assert(op && what == to_pool && os::total_done() == 0 && invoked == 0, "initiating hands the operation to the thread pool, nothing else");
    vf_assert(held<Own>(), "work is outstanding from the start");
    // before it runs
    bool cancelled = false;
    switch (vf_choose(7, "meanwhile")) {
    case 0: break;
    case 1: { vf_cover("cancelled"); error_code ec; f->cancel(ec); cancelled = true; break; }
    case 2: { vf_cover("closed"); error_code ec; f->close(ec); cancelled = true; break; }
    case 3: vf_cover("destroyed"); delete f; f = 0; cancelled = true; break;
    case 4: { vf_cover("moved"); BF* g = new BF(std::move(*f)); delete f; f = g; break; }
    case 5: { vf_cover("assigned"); BF* g = new BF(context(0)); *g = std::move(*f); delete f; f = g; break; }
    default: { vf_cover("replaced"); BF g(context(0)); *f = std::move(g); cancelled = true; break; }
    }
    os::reset();
    vf_assert(op && what == to_pool && invoked == 0, "the operation stays queued");
    pending_base* p = op; op = nullptr; what = none;
    if (vf_bool("abandoned")) { vf_cover("abandoned"); delete p; }
    else {
      on_pool = true; p->run(); on_pool = false;
      vf_assert(invoked == 0 && op && what == (Own ? to_handler : to_context), "the handler is posted, not invoked on the pool");
      if (Own) vf_assert(posted_tag == tag, "the handler is posted to its own executor");
      else vf_assert(posted_to == (const void*)&context(0), "handlers without an executor are posted to the service's context");
      vf_assert(held<Own>(), "work is outstanding until the handler has returned");
      os::record& c = os::rec[write ? os::WRITE : os::READ];
      if (cancelled) vf_assert(os::total_done() == 0, "a cancelled operation does not touch the file");
      else {
        vf_assert(c.done == 1 && os::total_done() == 1 && c.fd == fd, "exactly one transfer is carried out, on the file");
        vf_assert(c.positional == at && (!at || (uint64_t)c.a == off), "at the given offset, or at the file position");
      }
      p = op; op = nullptr; what = none;
      if (vf_bool("dropped")) { vf_cover("dropped"); delete p; vf_assert(invoked == 0, "an abandoned handler is not invoked"); }
      else {
        on_executor = true; p->run(); on_executor = false;
        vf_assert(invoked == 1 && op == nullptr, "the handler is invoked once");
        if (cancelled) vf_assert(got == asio::error::operation_aborted && got_n == 0, "a cancelled operation reports operation_aborted and 0 bytes");
        else if (c.err) { vf_cover("failed"); vf_assert(got == error_code(c.err, asio::error::get_system_category()) && got_n == 0, "a failure is reported with the system's error and 0 bytes"); }
        else {
          vf_cover("succeeded");
          vf_assert(got_n == (std::size_t)c.result, "the number of bytes moved is reported");
          if (!write && c.result == 0 && b.total > 0) vf_assert(got == asio::error::eof, "the end of the file is reported");
          else vf_assert(!got, "success is reported");
          if (write && k < got_n) vf_assert(os::probe_hit && os::probed == old, "the system receives the buffers' bytes in order");
          if (!write && k < got_n) vf_assert(b.at(k) == os::in_data[k], "the buffers receive the system's bytes in order");
        }
        if (k < b.total && (write || cancelled || c.err || k >= got_n)) vf_assert(b.at(k) == old, "no other byte of the buffers changes");
      }
    }
    vf_assert(released(), "all work is released");
    delete f;
    vf_assert(!os::is_open(fd), "the file is closed with its owner");
  }
  vf_assert(heap_clean(), "nothing is left behind");
}
VF_HARNESS(read) { async<M, 1, true>(false, vf_bool("at")); }
VF_HARNESS(write) { async<C, 2, true>(true, vf_bool("at")); }
VF_HARNESS(read_default_executor) { async<M, 1, false>(false, vf_bool("at")); }
VF_HARNESS(write_default_executor) { async<C, 1, false>(true, vf_bool("at")); }
