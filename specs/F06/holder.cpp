// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: asio::use_service yields one service per context
// basic_file and io_object_holder on any service: each implementation is constructed once, by the service of
// its context, and destroyed once, by the same service; construction by executor and by context; errors
#include "vf.hpp"
#include "asioext/basic_file.hpp"
#include "asioext/open_flags.hpp"
#include <new>
#include <system_error>
#include <utility>
typedef std::error_code error_code;

// ---- executors of two contexts, of two types
alignas(16) static char mem[2][sizeof(asio::execution_context)];
static asio::execution_context& ctx(int i) { return reinterpret_cast<asio::execution_context&>(mem[i]); }
template <int K> struct exec_ {
  int id;
  explicit exec_(int i) : id(i) {}
  template <int L> exec_(const exec_<L>& o) : id(o.id) {}
  asio::execution_context& context() const noexcept { return ctx(id); }
  bool operator==(const exec_& o) const noexcept { return id == o.id; }
  bool operator!=(const exec_& o) const noexcept { return id != o.id; }
};
// ---- the service: which implementations exist, and what they were asked to do
struct service;
struct implementation { service* owner; int value; bool alive; };
static int alive; static error_code fail; static int asked; static int handle; static const char* path; static const asioext::open_args* how;
struct service {
  typedef implementation implementation_type; typedef int native_handle_type;
  int id;
  void construct(implementation& i) { i.owner = this; i.value = 0; i.alive = true; ++alive; }
  void check(const implementation& i) const { vf_assert(i.owner == this && i.alive, "an implementation is used by its own service while it exists"); }
  void destroy(implementation& i) { check(i); i.alive = false; --alive; }
  void move_construct(implementation& i, implementation& o) { check(o); construct(i); i.value = o.value; o.value = 0; }
  void move_assign(implementation& i, service& s, implementation& o) { check(i); s.check(o); i.owner = &s; i.value = o.value; o.value = 0; }
  void assign(implementation& i, int h, error_code& ec) { check(i); ++asked; handle = h; ec = fail; if (!ec) i.value = h; }
  void open(implementation& i, const char* p, const asioext::open_args& a, error_code& ec) { check(i); ++asked; path = p; how = &a; ec = fail; if (!ec) i.value = 1; }
  bool is_open(const implementation& i) const { check(i); return i.value != 0; }
  int native_handle(const implementation& i) const { check(i); return i.value; }
};
static service services[2] = {{0}, {1}};
namespace asio {
template <> service& use_service<service>(execution_context& c) { return services[&c == &ctx(1)]; }
}
typedef asioext::basic_file<service, exec_<0>> BF;
typedef asioext::io_object_holder<service, exec_<0>> H0;
typedef asioext::io_object_holder<service, exec_<1>> H1;

static void begin() { alive = asked = 0; fail = vf_bool("fails") ? error_code((int)(1 + vf_u8("errno") % 120), std::system_category()) : error_code(); }
static void made(BF& f, int id, int value) {
  vf_assert(alive == 1 && f.get_executor().id == id, "the file belongs to its context");
  vf_assert(f.native_handle() == value && f.is_open() == (value != 0), "the file is what it was made from");
}
VF_HARNESS(made_by_executor) {
  begin();
  const int id = (int)vf_choose(2, "context"), h = 1 + (int)(vf_u32("handle") & 0xffff);
  const exec_<0> ex(id);
  const asioext::open_args args(asioext::open_flags::access_read);
  static const char name[] = "name";
  error_code ec((int)(vf_u32("stale") & 0xff), std::system_category());
  const int which = (int)vf_choose(5, "constructor");
  try {
    switch (which) {
    case 0: { BF f(ex); made(f, id, 0); vf_assert(asked == 0, "a new file is closed"); fail = error_code(); break; }
    case 1: { BF f(ex, asioext::file_handle(h)); made(f, id, h); vf_assert(asked == 1 && handle == h, "the handle is taken over"); break; }
    case 2: { BF f(ex, h); made(f, id, h); vf_assert(asked == 1 && handle == h, "the handle is taken over"); break; }
    case 3: { BF f(ex, name, args); made(f, id, 1); vf_assert(asked == 1 && path == name && how == &args, "that file is opened"); break; }
    default: { BF f(ex, name, args, ec); made(f, id, fail ? 0 : 1); vf_assert(asked == 1 && path == name && how == &args, "that file is opened"); vf_assert(ec == fail, "the outcome is reported"); fail = error_code(); }
    }
    vf_cover("made");
    vf_assert(!fail, "a failure is thrown");
  } catch (const std::system_error& e) {
    vf_cover("refused");
    vf_assert(fail && e.code() == fail, "a failure is thrown");
  }
  vf_assert(alive == 0, "every implementation is destroyed once, also if a constructor fails");
}
VF_HARNESS(converted) {
  begin();
  const int id = (int)vf_choose(2, "context"), h = (int)(vf_u32("handle") & 0xffff);
  {
    H1 o((exec_<1>(id)));
    o.get_implementation().value = h;
    H0 f(std::move(o));
    vf_assert(alive == 2 && f.get_executor().id == id && &f.get_service() == &services[id], "service and executor are shared");
    f.get_service().check(f.get_implementation()); o.get_service().check(o.get_implementation());
    vf_assert(f.get_implementation().value == h && o.get_implementation().value == 0, "the implementation moves");
    vf_cover("converted");
  }
  vf_assert(alive == 0, "every implementation is destroyed once");
}
VF_HARNESS(assigned) {
  begin();
  const int i = (int)vf_choose(2, "target"), j = (int)vf_choose(2, "source"), h = (int)(vf_u32("handle") & 0xffff);
  {
    H0 a((exec_<0>(i))), b((exec_<0>(j)));
    a.get_implementation().value = 7; b.get_implementation().value = h;
    if (vf_bool("self")) {
      H0& r = a; a = std::move(r);
      vf_cover("self"); vf_assert(a.get_implementation().value == 7 && &a.get_service() == &services[i], "self assignment has no effect");
    } else {
      a = std::move(b);
      vf_cover("assigned");
      vf_assert(a.get_executor().id == j && &a.get_service() == &services[j] && a.get_implementation().value == h, "implementation, service and executor move along");
      vf_assert(b.get_executor().id == j && &b.get_service() == &services[j], "the source stays with its service");
    }
    if (vf_bool("move on")) { H0 c(std::move(a)); vf_assert(alive == 3, "moving makes an implementation"); c.get_service().check(c.get_implementation()); }
  }
  vf_assert(alive == 0, "every implementation is destroyed once");
}
