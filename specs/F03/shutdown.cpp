// vf-flags: -DASIOEXT_HEADER_ONLY=1 -fno-access-control
// vf-assume: asio::thread_pool: join() waits for running functions, shutdown() destroys queued ones (asio's documentation)
#include "vf.hpp"
#include "fh.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <new>
#include <pthread.h>
using asioext::cancellation_token;
typedef asioext::thread_pool_file_service S;
typedef S::implementation_type I;

static S* svc;
static bool held, watching, locks;
static bool waited;            // no operation runs any more
static int stopped;
static bool queued_gone;       // queued handlers are destroyed
extern "C" {
#ifdef VF_NATIVE
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
#endif
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (watching && m == (pthread_mutex_t*)&svc->mutex_) { vf_assert(!held, "the lock is not taken twice"); held = true; return 0; }
#ifdef VF_NATIVE
  return __real_pthread_mutex_lock(m);
#else
  return 0;
#endif
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (watching && m == (pthread_mutex_t*)&svc->mutex_) { vf_assert(held, "only a held lock is released"); held = false; return 0; }
#ifdef VF_NATIVE
  return __real_pthread_mutex_unlock(m);
#else
  return 0;
#endif
}
}
static void drop_queued() {
  vf_assert(!held, "queued handlers, which may own files, are destroyed without holding the lock");
  queued_gone = true;
}

#ifdef VF_NATIVE
struct queued_handler {
  bool whole = true;
  queued_handler() {}
  queued_handler(queued_handler&& o) noexcept : whole(o.whole) { o.whole = false; }
  ~queued_handler() { if (whole) drop_queued(); }
  void operator()() {}
};
VF_HARNESS(shutdown) {
  watching = held = queued_gone = false;
  os::reset(); os::ndesc = 0;
  asio::io_context ctx;
  svc = new S(ctx, 0);
  I x[3]; int fd[3]; cancellation_token* t[3];
  const int n = (int)vf_choose(4, "files");
  for (int i = 0; i < n; ++i) {
    fd[i] = -1;
    if (vf_bool("open")) { fd[i] = os::fresh_fd(); x[i].handle_ = asioext::file_handle(fd[i]); }
    svc->construct(x[i]);
  }
  for (int i = 0; i < 3; ++i) t[i] = new cancellation_token(x[i].cancel_token_);
  asio::post(svc->get_thread_pool(), queued_handler());
  watching = true;
  svc->shutdown_service();
  vf_assert(!held, "the lock is released");
  for (int i = 0; i < n; ++i) {
    vf_assert(!svc->is_open(x[i]) && (fd[i] == -1 || !os::is_open(fd[i])), "shutdown closes every file");
    vf_assert(fd[i] == -1 || t[i]->cancelled(), "shutdown cancels the operations of every file");
  }
  vf_assert(queued_gone, "shutdown destroys queued handlers, while the services they use exist");
  svc->shutdown_service();
  for (int i = 0; i < n; ++i) svc->destroy(x[i]);
  vf_assert(svc->impl_list_ == 0, "files may be destroyed after shutdown");
  vf_assert(os::open_count() == 0, "and are not closed again");
  for (int i = 0; i < 3; ++i) delete t[i];
  watching = false;
  delete svc;
}
#else
extern "C" void vfc_pool(asio::thread_pool*, std::size_t) __asm__("vfc$_ZN4asio11thread_poolC1Em");
extern "C" void vfc_pool(asio::thread_pool*, std::size_t) {}
extern "C" void vfc_pool2(asio::thread_pool*, std::size_t) __asm__("vfc$_ZN4asio11thread_poolC2Em");
extern "C" void vfc_pool2(asio::thread_pool*, std::size_t) {}
extern "C" void vfc_stop(asio::thread_pool*) __asm__("vfc$_ZN4asio11thread_pool4stopEv");
extern "C" void vfc_stop(asio::thread_pool*) { ++stopped; }
extern "C" void vfc_join(asio::thread_pool*) __asm__("vfc$_ZN4asio11thread_pool4joinEv");
extern "C" void vfc_join(asio::thread_pool* p) {
  vf_assert(!held, "running operations are waited for without holding the lock");
  vf_assert(stopped > 0, "only a stopped pool is waited for");
  vf_assert(&svc->get_thread_pool() == p, "running operations may start others");
  waited = true;
}
extern "C" void vfc_drop(asio::execution_context*) __asm__("vfc$_ZN4asio17execution_context8shutdownEv");
extern "C" void vfc_drop(asio::execution_context*) { vf_assert(waited, "running operations are waited for first"); drop_queued(); }
static void pool_dies() {
  if (watching) { vf_assert(stopped > 0 && waited, "running operations are waited for first"); drop_queued(); }
}
extern "C" void vfc_dead(asio::thread_pool*) __asm__("vfc$_ZN4asio11thread_poolD1Ev");
extern "C" void vfc_dead(asio::thread_pool*) { pool_dies(); }
extern "C" void vfc_dead2(asio::thread_pool*) __asm__("vfc$_ZN4asio11thread_poolD2Ev");
extern "C" void vfc_dead2(asio::thread_pool*) { pool_dies(); }

// ---- a list of any number of files. x is any one of them, if the list is not empty; all others are laid out while
// the list is walked: behind the other file o[i] comes o[!i], x or nothing.
static I* x; static I* o[2];
static bool x_listed, x_closed;
static I* at;                  // the first file not closed yet
static void after(I* p, int i, bool x_ahead) {
  // the file behind p is o[i], x or nothing; x must still come if it is ahead
  const unsigned c = vf_choose(x_ahead ? 2 : 2, "next file");
  p->next_ = c ? o[i] : x_ahead ? x : 0;
  if (p->next_) p->next_->prev_ = p;
}
// contract of close_for_destruction(), proved in service.cpp
extern "C" void vfc_close(S*, I&) __asm__("vfc$_ZN7asioext24thread_pool_file_service21close_for_destructionERNS0_19implementation_typeE");
extern "C" void vfc_close(S* s, I& f) {
  vf_assert(s == svc && held, "the list is walked while the lock is held");
  vf_assert(&f == at, "the files of the list are closed in turn");
  if (&f == x) { x_closed = true; }
  else {
    const int i = &f == o[1];
    // the next other file has not been seen so far
    if (f.next_ == x) after(x, !i, false);
    else if (f.next_ == o[!i]) after(o[!i], i, x_listed && !x_closed);
  }
  if (&f == x && x->next_) after(x->next_, x->next_ == o[0], false);
  at = f.next_;
}
VF_HARNESS(shutdown) {
  alignas(16) char ctx[sizeof(asio::io_context)];
  watching = held = queued_gone = waited = false; stopped = 0;
  svc = new S((asio::io_context&)ctx, 0);
  x = new I; o[0] = new I; o[1] = new I;
  x_closed = false;
  x_listed = vf_bool("files");
  if (!x_listed) at = 0;
  else if (vf_bool("first")) { at = x; after(x, 0, false); }
  else { at = o[0]; after(at, 1, true); }
  svc->impl_list_ = at; if (at) at->prev_ = 0;
  if (at == o[0] && at->next_ == x) after(x, 1, false);
  watching = true;
  svc->shutdown_service();
  vf_assert(!held, "the lock is released");
  vf_assert(at == 0 && x_closed == x_listed, "shutdown closes every file and cancels its operations");
  vf_assert(waited, "shutdown waits for running operations");
  vf_assert(queued_gone, "shutdown destroys queued handlers, while the services they use exist");
  if (x_listed) vf_cover("files");
  // asio calls it again
  svc->impl_list_ = at = 0; waited = false;
  svc->shutdown_service();
  vf_assert(&svc->get_thread_pool() != 0, "the pool can still be asked for");
  watching = false;
  delete svc; delete x; delete o[0]; delete o[1];
}
#endif
