// basic_file on a thread_pool_file_service, with one service per io_context
#ifndef SPEC_BF_HPP
#define SPEC_BF_HPP
#include "fh.hpp"
#include "asioext/basic_file.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <new>
#include <utility>
typedef asioext::thread_pool_file_service S;
typedef asio::io_context::executor_type exec;
typedef asioext::basic_file<S, exec> BF;

static S* services[2];
#ifdef VF_NATIVE
static asio::io_context& context(int i) { static asio::io_context c[2]; return c[i]; }
#else
alignas(16) static char contexts[2][sizeof(asio::io_context)];
static asio::io_context& context(int i) { return (asio::io_context&)contexts[i]; }
// the pool does nothing here
extern "C" void vfc_pool(asio::thread_pool*, std::size_t) __asm__("vfc$_ZN4asio11thread_poolC1Em");
extern "C" void vfc_pool(asio::thread_pool*, std::size_t) {}
extern "C" void vfc_pool2(asio::thread_pool*, std::size_t) __asm__("vfc$_ZN4asio11thread_poolC2Em");
extern "C" void vfc_pool2(asio::thread_pool*, std::size_t) {}
extern "C" void vfc_dead(asio::thread_pool*) __asm__("vfc$_ZN4asio11thread_poolD1Ev");
extern "C" void vfc_dead(asio::thread_pool*) {}
extern "C" void vfc_dead2(asio::thread_pool*) __asm__("vfc$_ZN4asio11thread_poolD2Ev");
extern "C" void vfc_dead2(asio::thread_pool*) {}
#endif
// asio's documentation: the service of a context is always the same object
namespace asio {
template <> S& use_service<S>(io_context& c) { return *services[&c == &context(1)]; }
}
// storage in use, beyond what contexts keep for themselves
#ifdef VF_NATIVE
static std::size_t heap_before;
static void heap_begin() {
  static const bool once = [] { context(0); context(1); for (int i = 0; i < 2; ++i) { services[0] = new S(context(0), 0); delete services[0]; } return true; }();
  (void)once; heap_before = vf_heap_live();
}
static bool heap_clean() { return vf_heap_live() == heap_before; }
#else
static void heap_begin() {}
static bool heap_clean() { return vf_heap_live() == 0; }
#endif
struct with_service {
  int i;
  explicit with_service(int n = 0) : i(n) { services[i] = new S(context(i), 0); }
  ~with_service() { vf_assert(services[i]->impl_list_ == 0, "no file is left registered"); delete services[i]; services[i] = 0; }
};
// a basic_file made like the other file classes: from a handle
struct AF : with_service, BF {
  explicit AF(const FH& h) : BF(context(0), h) {}
};
#endif
