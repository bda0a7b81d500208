// vf-flags: -DASIOEXT_HEADER_ONLY=1 -fno-access-control
// vf-assume: std::shared_ptr and std::weak_ptr count their owners atomically; pthread mutexes exclude each other
#include "vf.hpp"
#include "fh.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <new>
#include <pthread.h>
#include <utility>
using asioext::cancellation_token;
typedef asioext::thread_pool_file_service S;
typedef S::implementation_type I;

// ---- the lists of two services, as other threads leave them: they may change them whenever the lock is free
static S* svc[2];
static bool held[2];
static I* member[2][2];        // the files looked at, while they belong to the service
static I* env[2][4];           // other files of the service
static I* left[2][8]; static int nleft[2];   // the list when the lock was last free; GAP: any number of further files
static bool watching;
// Lists may be longer than what is laid out: behind a gap there are files the code must not touch
// (in native replays there is no gap).
static I* GAP;

static void check_list(int s, const char* clause) {
  // exactly the files in left, well linked
  vf_assert(svc[s]->impl_list_ == (nleft[s] ? left[s][0] : 0), clause);
  for (int i = 0; i < nleft[s]; ++i) {
    I* p = left[s][i];
    if (p == GAP) continue;
    vf_assert(p->prev_ == (i ? left[s][i - 1] : 0), clause);
    vf_assert(p->next_ == (i + 1 < nleft[s] ? left[s][i + 1] : 0), clause);
  }
}
static unsigned present[2];     // the other files in the list
// the other files e0.. and the files looked at, a and b, in some order
static void arrange(int s, unsigned how, bool swapped) {
  I** n = left[s]; int k = 0;
  I* const a = member[s][swapped]; I* const b = member[s][!swapped]; I** const e = env[s];
  present[s] = 0;
#define OTHER(i) (present[s] |= 1u << i, n[k++] = e[i])
  if (how < 8) {
    if (how & 1) OTHER(0);
    if (a) n[k++] = a;
    if (how & 2) OTHER(1);
    if (b) n[k++] = b;
    if (how & 4) OTHER(2);
  } else {
    if ((how == 9 || how == 11) && a) n[k++] = a;
    if (how == 11 && b) n[k++] = b;
    OTHER(3);
    if (how == 9 && b) n[k++] = b;
    n[k++] = GAP;
    OTHER(0);
    if ((how == 8 || how == 10) && a) n[k++] = a;
    if (how == 10) OTHER(1);
    if ((how == 8 || how == 10) && b) n[k++] = b;
    if (how != 10) { OTHER(2); n[k++] = GAP; }
  }
  for (int i = 0; i < k; ++i) if (n[i] != GAP) { n[i]->prev_ = i ? n[i - 1] : 0; n[i]->next_ = i + 1 < k ? n[i + 1] : 0; }
  svc[s]->impl_list_ = k ? n[0] : 0; nleft[s] = k;
}
static void on_lock(int s) {
  check_list(s, "the list changes only while the lock is held");
  unsigned how = vf_choose(12, "other files");
#ifdef VF_NATIVE
  how &= 7;
#endif
  arrange(s, how, member[s][0] && member[s][1] && vf_bool("order"));
}
static void on_unlock(int s) {
  // the files now in the list: the others must all still be there
  I* back = 0; unsigned seen = 0; int k = 0, m = 0; I* now[2] = {0, 0};
  for (I* p = svc[s]->impl_list_; p; ) {
    vf_assert(++k < 8, "the list ends");
    if (p == GAP) {
      back = GAP;
      if (seen & 1) break;    // the rest is as before
      p = env[s][0];
      continue;
    }
    vf_assert(p->prev_ == back, "the list is well linked");
    bool other = false;
    for (int i = 0; i < 4; ++i) if (p == env[s][i]) { vf_assert((present[s] >> i & 1) && !(seen >> i & 1), "no file is listed twice"); seen |= 1u << i; other = true; }
    if (!other) { vf_assert(m < 2 && p != now[0], "no file is listed twice"); now[m++] = p; }
    back = p; p = p->next_;
  }
  vf_assert(seen == present[s], "no other file is lost from the list");
  member[s][0] = now[0]; member[s][1] = now[1];
  arrange(s, 7, false);
}
static int which(const void* m) { for (int s = 0; s < 2; ++s) if (watching && svc[s] && m == (const void*)&svc[s]->mutex_) return s; return -1; }
extern "C" {
#ifdef VF_NATIVE
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
#endif
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  const int s = which(m);
  if (s >= 0) { vf_assert(!held[s], "the lock is not taken twice"); held[s] = true; on_lock(s); return 0; }
#ifdef VF_NATIVE
  return __real_pthread_mutex_lock(m);
#else
  return 0;
#endif
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  const int s = which(m);
  if (s >= 0) { vf_assert(held[s], "only a held lock is released"); on_unlock(s); held[s] = false; return 0; }
#ifdef VF_NATIVE
  return __real_pthread_mutex_unlock(m);
#else
  return 0;
#endif
}
}

// ---- the thread pool does nothing here
#ifndef VF_NATIVE
extern "C" void vfc_pool(asio::thread_pool*, std::size_t) __asm__("vfc$_ZN4asio11thread_poolC1Em");
extern "C" void vfc_pool(asio::thread_pool*, std::size_t) {}
extern "C" void vfc_pool2(asio::thread_pool*, std::size_t) __asm__("vfc$_ZN4asio11thread_poolC2Em");
extern "C" void vfc_pool2(asio::thread_pool*, std::size_t) {}
extern "C" void vfc_dead(asio::thread_pool*) __asm__("vfc$_ZN4asio11thread_poolD1Ev");
extern "C" void vfc_dead(asio::thread_pool*) {}
extern "C" void vfc_dead2(asio::thread_pool*) __asm__("vfc$_ZN4asio11thread_poolD2Ev");
extern "C" void vfc_dead2(asio::thread_pool*) {}
#endif

// ---- the world: one or two services and their other files
struct world {
#ifdef VF_NATIVE
  asio::io_context ctx[2];
#else
  alignas(16) char ctx[2][sizeof(asio::io_context)];
#endif
  int n; I e[8];
  explicit world(int count) : n(count) {
    os::reset(); os::ndesc = 0;
    for (int s = 0; s < 2; ++s) { held[s] = false; svc[s] = 0; member[s][0] = member[s][1] = 0; }
    for (int i = 0; i < 8; ++i) env[i / 4][i % 4] = &e[i];
#ifdef VF_NATIVE
    GAP = (I*)16;
#else
    GAP = (I*)::operator new(sizeof(I)); ::operator delete(GAP);
#endif
    for (int s = 0; s < n; ++s) {
      svc[s] = new S((asio::io_context&)ctx[s], 0);
      vf_assert(svc[s]->impl_list_ == 0, "a new service has no files");
    }
    watching = true;
  }
  // call when the files looked at are in member[]
  void begin() { for (int s = 0; s < n; ++s) arrange(s, 7, false); }
  void end() { for (int s = 0; s < n; ++s) { vf_assert(!held[s], "the lock is released"); check_list(s, "the list changes only while the lock is held"); } }
  ~world() { watching = false; for (int s = 0; s < n; ++s) { S* p = svc[s]; svc[s] = 0; delete p; } }
};
static bool in(int s, I& x) { return member[s][0] == &x || member[s][1] == &x; }
static void leave(I& x) { for (int s = 0; s < 2; ++s) for (int i = 0; i < 2; ++i) if (member[s][i] == &x) member[s][i] = 0; }

// an arbitrary file: open or not, with operations in progress
static int make(I& x, const char* label) {
  int fd = -1;
  if (vf_bool(label)) { fd = os::fresh_fd(); x.handle_ = asioext::file_handle(fd); }
  return fd;
}
static bool has(S& s, I& x, int fd) {
  return fd == -1 ? !s.is_open(x) : s.is_open(x) && s.native_handle(x) == fd && os::is_open(fd);
}
static bool usable(I& x) { return !cancellation_token(x.cancel_token_).cancelled(); }

VF_HARNESS(construct) {
  {
    world w(1); S& s = *svc[0];
    I x;
    if (vf_bool("re-used")) { vf_cover("re-used"); x.cancel_token_.destroy(); }
    w.begin();
    s.construct(x);
    w.end();
    vf_assert(in(0, x), "a constructed file belongs to the service");
    vf_assert(!s.is_open(x), "a constructed file is closed");
    vf_assert(usable(x), "operations of a constructed file are not cancelled");
  }
  vf_assert(vf_heap_live() == 0, "nothing is left behind");
}
VF_HARNESS(destroy) {
  {
    world w(1); S& s = *svc[0];
    bool was; I* x = new I; const int fd = make(*x, "open"); was = fd != -1;
    cancellation_token t(x->cancel_token_);
    member[0][0] = x;
    w.begin();
    s.destroy(*x);
    w.end();
    vf_assert(!in(0, *x), "a destroyed file no longer belongs to the service");
    vf_assert(!was || (!os::is_open(fd) && t.cancelled()), "destroying a file closes it and cancels its operations");
    vf_assert(os::rec[os::CLOSE].done == was, "its descriptor is closed once");
    vf_assert(!s.is_open(*x), "a destroyed file is closed");
    delete x;
    vf_assert(t.cancelled(), "no operation outlives its file uncancelled");
  }
  vf_assert(vf_heap_live() == 0, "nothing is left behind");
}
VF_HARNESS(move_construct) {
  {
    world w(1); S& s = *svc[0];
    I x, y; const int fd = make(y, "open");
    cancellation_token t(y.cancel_token_);
    member[0][0] = &y;
    w.begin();
    s.move_construct(x, y);
    w.end();
    vf_assert(in(0, x) && in(0, y), "moving makes a further file of the service");
    vf_assert(has(s, x, fd) && !s.is_open(y), "the descriptor moves");
    vf_assert(os::rec[os::CLOSE].done == 0 && !t.cancelled(), "moving closes and cancels nothing");
    vf_assert(usable(x) && usable(y), "both files can be used afterwards");
    y.cancel_token_.cancel();
    vf_assert(!t.cancelled(), "operations in progress follow the file");
    x.cancel_token_.cancel();
    vf_assert(t.cancelled(), "operations in progress follow the file");
  }
  vf_assert(vf_heap_live() == 0, "nothing is left behind");
}
static void move_assign(int to) {
  {
    world w(to + 1); S& s = *svc[0]; S& o = *svc[to];
    I x, y; const int fx = make(x, "target open"), fy = make(y, "source open");
    cancellation_token tx(x.cancel_token_), ty(y.cancel_token_);
    member[0][0] = &x; member[to][1] = &y;
    w.begin();
    s.move_assign(x, o, y);
    w.end();
    vf_assert(in(to, x) && in(to, y) && (to == 0 || !in(0, x)), "the target belongs to the service of the source afterwards");
    vf_assert(fx == -1 || (!os::is_open(fx) && tx.cancelled()), "the replaced file is closed and its operations cancelled");
    vf_assert(os::rec[os::CLOSE].done == (fx != -1), "nothing else is closed");
    vf_assert(has(o, x, fy) && !o.is_open(y), "the descriptor moves");
    vf_assert(!ty.cancelled(), "moving cancels no operation of the source");
    vf_assert(usable(x) && usable(y), "both files can be used afterwards");
    y.cancel_token_.cancel();
    vf_assert(!ty.cancelled(), "operations in progress follow the file");
    x.cancel_token_.cancel();
    vf_assert(ty.cancelled(), "operations in progress follow the file");
  }
  vf_assert(vf_heap_live() == 0, "nothing is left behind");
}
VF_HARNESS(move_assign_same) { move_assign(0); }
VF_HARNESS(move_assign_other) { move_assign(1); }

VF_HARNESS(open) {
  world w(1); S& s = *svc[0];
  I x; const int fd = make(x, "open");
  cancellation_token t(x.cancel_token_);
  error_code ec = stale();
  static const char name[] = "f";
  s.open(x, name, asioext::open_args(asioext::open_flags::access_read | asioext::open_flags::open_existing), ec);
  if (fd != -1) {
    vf_cover("already open");
    vf_assert(ec == asio::error::already_open && os::total_done() == 0 && has(s, x, fd), "opening an open file is refused without effect");
  } else {
    reports(ec, os::OPEN);
    vf_assert(os::rec[os::OPEN].done == 1 && os::path == name, "the named file is opened once");
    vf_assert(ec ? !s.is_open(x) : has(s, x, (int)os::rec[os::OPEN].result), "the opened file is the file's");
    vf_assert(os::rec[os::CLOSE].done == 0, "nothing is closed");
  }
  vf_assert(!t.cancelled(), "opening cancels nothing");
  x.handle_.clear();
}
VF_HARNESS(assign) {
  world w(1); S& s = *svc[0];
  I x; const int fd = make(x, "open"), other = os::fresh_fd();
  error_code ec = stale();
  s.assign(x, other, ec);
  if (fd != -1) { vf_cover("already open"); vf_assert(ec == asio::error::already_open && has(s, x, fd), "assigning to an open file is refused without effect"); }
  else { vf_cover("assigned"); vf_assert(!ec && has(s, x, other), "the assigned descriptor is the file's"); }
  vf_assert(os::total_done() == 0 && os::is_open(other), "assigning touches no descriptor");
}
VF_HARNESS(close) {
  world w(1); S& s = *svc[0];
  I x; const int fd = make(x, "open");
  cancellation_token t(x.cancel_token_);
  error_code ec = stale();
  s.close(x, ec);
  vf_assert(!s.is_open(x), "a closed file is closed");
  if (fd != -1) {
    vf_assert(os::rec[os::CLOSE].done == 1 && os::rec[os::CLOSE].fd == fd, "the descriptor is closed once");
    reports(ec, os::CLOSE);
    vf_assert(t.cancelled(), "operations not yet started are cancelled before the descriptor can be re-used");
  } else { vf_cover("was closed"); vf_assert(os::total_done() == 0 && !ec, "closing a closed file has no effect"); }
  vf_assert(usable(x), "later operations are not cancelled");
}
VF_HARNESS(cancel) {
  world w(1); S& s = *svc[0];
  I x; const int fd = make(x, "open");
  cancellation_token t(x.cancel_token_);
  error_code ec = stale();
  s.cancel(x, ec);
  vf_assert(os::total_done() == 0 && has(s, x, fd), "cancelling leaves the file open");
  if (fd != -1) vf_assert(!ec && t.cancelled(), "all operations issued so far are cancelled");
  else { vf_cover("closed"); vf_assert(ec == asio::error::bad_descriptor, "cancelling without a file is an error"); }
  vf_assert(usable(x), "later operations are not cancelled");
}

// what shutdown_service() relies on, see shutdown.cpp
VF_HARNESS(close_for_destruction) {
  world w(1); S& s = *svc[0];
  I x; const int fd = make(x, "open");
  I* const a = x.next_; I* const b = x.prev_;
  cancellation_token t(x.cancel_token_);
  s.close_for_destruction(x);
  vf_assert(!s.is_open(x) && (fd == -1 || !os::is_open(fd)), "the file is closed, whatever close(2) reports");
  vf_assert(fd == -1 || t.cancelled(), "its operations are cancelled");
  vf_assert(os::rec[os::CLOSE].done == (fd != -1), "its descriptor is closed once");
  vf_assert(x.next_ == a && x.prev_ == b, "it stays in the list");
}
