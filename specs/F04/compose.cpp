// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: executors count outstanding work as asio's Executor requirements say; handlers move without throwing
#include "vf.hpp"
#include "asioext/compose.hpp"
#include "asioext/bind_handler.hpp"
#include "asioext/work.hpp"
#include "asioext/associated_allocator.hpp"

// ---- executors that count their outstanding work
static int64_t base[2], work[2];
static asio::execution_context* ctx;
template <int I> struct exec_ {
  asio::execution_context& context() const noexcept { return *ctx; }
  void on_work_started() const noexcept { ++work[I]; }
  void on_work_finished() const noexcept { --work[I]; vf_assert(work[I] >= base[I], "only held work is released"); }
  template <class F, class A> void dispatch(F&& f, const A&) const { f(); }
  template <class F, class A> void post(F&& f, const A&) const { f(); }
  template <class F, class A> void defer(F&& f, const A&) const { f(); }
  bool operator==(const exec_&) const noexcept { return true; }
  bool operator!=(const exec_&) const noexcept { return false; }
};
static bool held() { return work[0] > base[0] && work[1] > base[1]; }
static bool released() { return work[0] == base[0] && work[1] == base[1]; }
static void begin() {
  for (int i = 0; i < 2; ++i) { base[i] = (int64_t)(vf_u64("work") & 0xffffffff); work[i] = base[i]; }
}

// ---- the user's handler
static int invoked; static bool cont; static uint32_t a1; static uint64_t a2;
struct my_exec : exec_<0> { int tag; explicit my_exec(int t) : tag(t) {} };
template <class T> struct my_alloc {
  typedef T value_type; int tag;
  explicit my_alloc(int t) : tag(t) {}
  template <class U> my_alloc(const my_alloc<U>& o) : tag(o.tag) {}
  T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { ::operator delete(p); }
  template <class U> bool operator==(const my_alloc<U>& o) const { return tag == o.tag; }
  template <class U> bool operator!=(const my_alloc<U>& o) const { return tag != o.tag; }
};
static bool expect_work;
struct handler {
  typedef my_alloc<char> allocator_type; typedef my_exec executor_type;
  int tag; bool whole;
  explicit handler(int t) : tag(t), whole(true) {}
  handler(handler&& o) noexcept : tag(o.tag), whole(o.whole) { o.whole = false; }
  handler(const handler&) = default;
  allocator_type get_allocator() const noexcept { return allocator_type(tag); }
  executor_type get_executor() const noexcept { return executor_type(tag); }
  void operator()(uint32_t x, const uint64_t& y) {
    vf_assert(whole, "the handler itself is invoked");
    ++invoked;
    vf_assert(x == a1 && y == a2, "the handler gets exactly the values");
    if (expect_work) vf_assert(held(), "the work is held until the handler has returned");
  }
  friend bool asio_handler_is_continuation(handler* h) { vf_assert(h->whole, "the handler itself is asked"); return cont; }
};
static void values() { a1 = vf_u32("a"); a2 = vf_u64("b"); }

template <class W> static void same_association(W& w, int tag) {
  vf_assert(asio::get_associated_allocator(w).tag == tag, "the handler's allocator is the wrapper's");
  vf_assert(asio::get_associated_executor(w).tag == tag, "the handler's executor is the wrapper's");
}

VF_HARNESS(bind_values) {
  begin(); values(); cont = vf_bool("continuation");
  {
    const int tag = (int)vf_u32("tag");
    auto b = asioext::bind_handler(handler(tag), a1, a2);
    same_association(b, tag);
    vf_assert(asio_handler_cont_helpers::is_continuation(b) == cont, "the handler decides whether it continues");
    auto c(std::move(b));
    vf_assert(invoked == 0, "binding does not invoke");
    c();
    vf_assert(invoked == 1, "the handler is invoked once");
  }
  vf_assert(invoked == 1 && released(), "nothing is left behind");
}
VF_HARNESS(bind_copied) {
  begin(); values();
  handler h(3);
  uint32_t x = a1; uint64_t y = a2;
  auto b = asioext::bind_handler(h, x, y);
  vf_assert(h.whole, "an lvalue handler is copied");
  x = vf_u32("later"); y = vf_u64("later");
  b();
  vf_assert(invoked == 1, "the handler is invoked once");
}
VF_HARNESS(bind_work) {
  begin(); values(); expect_work = true;
  const bool run = vf_bool("invoked");
  {
    auto w = asioext::make_work_tuple(exec_<0>(), exec_<1>());
    vf_assert(held(), "a work tuple holds work on every executor");
    auto b = asioext::bind_handler(handler(1), std::move(w), a1, a2);
    same_association(b, 1);
    vf_assert(held() && invoked == 0, "the work is kept");
    auto c(std::move(b));
    vf_assert(held() && invoked == 0, "the work moves along");
    if (run) { vf_cover("run"); c(); vf_assert(invoked == 1, "the handler is invoked once"); vf_assert(released(), "the work is released after the handler has been invoked"); }
  }
  vf_assert(released() && invoked == (run ? 1 : 0), "work is released once, in the end");
}
VF_HARNESS(work_tuple) {
  begin();
  {
    auto w = asioext::make_work_tuple(exec_<0>(), exec_<1>(), exec_<1>());
    vf_assert(work[0] == base[0] + 1 && work[1] == base[1] + 2, "a work tuple holds work on every executor");
    auto v(std::move(w));
    vf_assert(work[0] == base[0] + 1 && work[1] == base[1] + 2, "the work moves along");
    if (vf_bool("reset")) { v.reset(); vf_assert(released(), "reset releases all work"); if (vf_bool("again")) v.reset(); vf_assert(released(), "work is released once"); }
    if (vf_bool("copy")) { auto c(v); }
  }
  vf_assert(released(), "destruction releases what is still held");
}

// ---- composed operations
static int calls; static uint32_t b1; static int phase;
struct impl {
  bool whole;
  impl() : whole(true) {}
  impl(impl&& o) noexcept : whole(o.whole) { o.whole = false; }
  template <class Op> void operator()(Op& op) { step(op, 0); }
  template <class Op> void operator()(Op& op, uint32_t&& x) { vf_assert(x == b1, "the implementation gets exactly the arguments"); step(op, 1); }
  template <class Op> void operator()(Op& op, uint32_t& x) { vf_assert(&x == &b1, "the implementation gets exactly the arguments"); step(op, 2); }
  template <class Op> void step(Op& op, int how) {
    vf_assert(whole, "the implementation itself is invoked");
    vf_assert(phase == how, "arguments keep their value category");
    if (calls < 1000000) ++calls;
    vf_assert(held(), "the work is held while the operation runs");
  }
};
static auto make(int tag) {
  return asioext::make_composed_operation<handler>(impl(), handler(tag), exec_<0>(), exec_<1>());
}
VF_HARNESS(compose_complete) {
  begin(); values(); expect_work = true;
  const int tag = (int)vf_u32("tag");
  const bool done = vf_bool("completes");
  {
    auto op = make(tag);
    vf_assert(held(), "the operation holds its work");
    same_association(op, tag);
    vf_assert(op.get_handler().tag == tag && op.get_handler().whole, "the operation owns the handler");
    auto moved(std::move(op));
    same_association(moved, tag);
    vf_assert(held() && invoked == 0, "moving keeps the work");
    if (done) {
      moved.complete(a1, a2);
      vf_assert(invoked == 1, "the handler is invoked once");
      vf_assert(released(), "afterwards all held work is released");
    }
  }
  vf_assert(invoked == (done ? 1 : 0) && released(), "work is released once, in the end");
}
// the work of io objects is that of their executors
template <int I> struct io { typedef exec_<I> executor_type; executor_type get_executor() noexcept { return executor_type(); } };
VF_HARNESS(compose_io_objects) {
  begin(); values(); expect_work = true;
  const bool done = vf_bool("completes"), mixed = vf_bool("an executor");
  io<0> a; io<1> b;
  auto test = [&](auto op) {
    vf_assert(held() && invoked == 0, "the operation holds the work of its io objects");
    phase = 0; calls = 0; op();
    vf_assert(calls == 1, "the implementation is invoked once");
    if (done) { op.complete(a1, a2); vf_assert(invoked == 1 && released(), "afterwards all held work is released"); }
  };
  if (mixed) test(asioext::make_composed_operation<handler>(impl(), handler(1), a, exec_<1>()));
  else test(asioext::make_composed_operation<handler>(impl(), handler(1), a, b));
  vf_assert(invoked == (done ? 1 : 0) && released(), "work is released once, in the end");
}
VF_HARNESS(compose_bound) {
  begin(); values(); expect_work = true;
  const int tag = (int)vf_u32("tag");
  const bool run = vf_bool("run");
  {
    auto op = make(tag);
    auto b = op.complete_to_bound_handler(a1, a2);
    vf_assert(held() && invoked == 0, "the bound handler takes over the work");
    same_association(b, tag);
    if (run) { b(); vf_assert(invoked == 1, "the handler is invoked once"); vf_assert(released(), "afterwards all held work is released"); }
  }
  vf_assert(invoked == (run ? 1 : 0) && released(), "work is released once, in the end");
}
VF_HARNESS(compose_steps) {
  begin(); values(); expect_work = true; cont = vf_bool("continuation");
  uint64_t n = vf_u64("intermediate calls");
#ifdef VF_NATIVE
  n %= 64;  // keep replays short
#endif
  {
    auto op = make(1);
    vf_assert(asio_handler_cont_helpers::is_continuation(op) == cont, "before it starts, the handler decides whether it continues");
    phase = 0;
    op();
    vf_assert(calls == 1, "the implementation is invoked once");
    vf_assert(asio_handler_cont_helpers::is_continuation(op) == cont, "initiating the operation is no continuation");
    for (uint64_t i = 0; i < n; ++i) {
      calls = 0;
      b1 = vf_u32("arg");
      if (vf_bool("lvalue")) { phase = 2; op(b1); } else { phase = 1; uint32_t t = b1; op(std::move(t)); }
      vf_assert(calls == 1, "the implementation is invoked once");
      vf_assert(asio_handler_cont_helpers::is_continuation(op), "later steps continue the operation");
    }
    vf_assert(invoked == 0 && held(), "only completing invokes the handler");
    op.complete(a1, a2);
    vf_assert(invoked == 1 && released(), "the handler is invoked once");
  }
  vf_assert(invoked == 1 && released(), "work is released once, in the end");
}
