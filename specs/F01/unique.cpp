// vf-flags: -DASIOEXT_HEADER_ONLY=1
// vf-assume: handlers and allocators follow their requirements: moving them does not throw, copies of an allocator can release each other's memory
#include "vf.hpp"
#include "asioext/unique_handler.hpp"
#include "asioext/exception.hpp"
#include <new>

// an argument that can only be moved, and knows its value
struct tok {
  uint32_t v; bool full;
  explicit tok(uint32_t x) : v(x), full(true) {}
  tok(tok&& o) noexcept : v(o.v), full(o.full) { o.full = false; }
  tok& operator=(tok&&) = delete;
};
typedef asioext::unique_handler<void (uint32_t, tok, int&, const tok&)> uh;

// ---- ghost state: what became of every handler and every block
enum { N = 4 };
struct fate { int destroyed, invoked; };
static fate of[N];
struct block { void* p; std::size_t bytes; int arena; };
static block blocks[N];
static int made, returned;
static int objects;          // handler objects in existence, also moved from
static uint32_t arg1; static uint32_t arg2; static int arg3; static const tok* arg4;

static int unreturned() { vf_assert(objects == 0, "every handler object is destroyed, also what moving left behind"); int n = 0; for (int i = 0; i < N; ++i) n += blocks[i].p != nullptr; return n; }
static int blocks_of(int arena) { int n = 0; for (int i = 0; i < N; ++i) n += blocks[i].p != nullptr && blocks[i].arena == arena; return n; }

template <class T> struct alloc {
  typedef T value_type;
  int arena;
  explicit alloc(int a) : arena(a) {}
  template <class U> alloc(const alloc<U>& o) : arena(o.arena) {}
  T* allocate(std::size_t n) {
    if (vf_bool("no memory")) throw std::bad_alloc();
    for (int i = 0; i < N; ++i)
      if (!blocks[i].p) {
        blocks[i].p = ::operator new(n * sizeof(T)); blocks[i].bytes = n * sizeof(T); blocks[i].arena = arena;
        ++made;
        return static_cast<T*>(blocks[i].p);
      }
    vf_assert(false, "no more blocks than handlers");
    throw std::bad_alloc();
  }
  void deallocate(T* p, std::size_t n) {
    for (int i = 0; i < N; ++i)
      if (blocks[i].p == static_cast<void*>(p)) {
        vf_assert(blocks[i].bytes == n * sizeof(T), "memory is returned with its size");
        vf_assert(blocks[i].arena == arena, "memory is returned through the handler's allocator");
        blocks[i].p = nullptr; ++returned;
        ::operator delete(static_cast<void*>(p));
        return;
      }
    vf_assert(false, "only memory of the handler's allocator is returned, once");
  }
  template <class U> bool operator==(const alloc<U>& o) const { return arena == o.arena; }
  template <class U> bool operator!=(const alloc<U>& o) const { return arena != o.arena; }
};

// what handlers may do when they are invoked or destroyed: use the unique_handler again
static uh* again; static int action;
static void reenter();

template <int PAD> struct handler {
  typedef alloc<char> allocator_type;
  int id; char pad[PAD];
  explicit handler(int i) : id(i) { ++objects; }
  handler(handler&& o) noexcept : id(o.id) { o.id = -1; ++objects; }
  handler& operator=(handler&&) = delete;
  ~handler() {
    --objects;
    if (id < 0) return;
    const int me = id; id = -1;
    of[me].destroyed++;
    vf_assert(of[me].destroyed == 1, "a handler is destroyed once");
    reenter();
  }
  allocator_type get_allocator() const noexcept { vf_assert(id >= 0, "the allocator is asked of the handler, not of what moving left behind"); return allocator_type(id); }
  void operator()(uint32_t a, tok b, int& c, const tok& d) {
    vf_assert(id >= 0, "the handler itself is invoked");
    vf_assert(of[id].destroyed == 0 && of[id].invoked == 0, "a handler is invoked at most once");
    of[id].invoked++;
    vf_assert(blocks_of(id) == 0, "the handler's memory is returned before it is invoked");
    vf_assert(a == arg1 && b.full && b.v == arg2 && &c == &arg3 && &d == arg4, "the handler gets exactly the arguments");
    reenter();
  }
};
typedef handler<4> small;
typedef handler<64> large;

static void reenter() {
  if (!again) return;
  uh* h = again; again = nullptr;
  switch (action) {
  case 0: vf_cover("again: reset"); h->reset(); vf_assert(!*h, "reset empties"); break;
  case 1: vf_cover("again: assign"); try { *h = small(2); vf_assert(!!*h, "the new handler is kept"); } catch (const std::bad_alloc&) {} break;
  default: break;
  }
}

// an arbitrary unique_handler: empty, or with one of two kinds of handlers
static void fill(uh& h, int id, bool& full) {
  switch (vf_choose(3, "stored")) {
  case 0: full = false; return;
  case 1: try { h = uh(small(id)); full = true; } catch (const std::bad_alloc&) { vf_stop(); } break;
  default: try { h = uh(large(id)); full = true; } catch (const std::bad_alloc&) { vf_stop(); } break;
  }
  // fill's temporaries are not part of the history under test
  vf_assert(of[id].destroyed == 0 && of[id].invoked == 0, "storing a handler neither invokes nor destroys it");
  vf_assert(blocks_of(id) == 1, "a stored handler lives in one block of its allocator");
}
static void done(int id) {
  vf_assert(of[id].destroyed == 1 && blocks_of(id) == 0, "in the end the handler is destroyed and its memory returned");
}
static void never(int id) { vf_assert(of[id].invoked == 0, "only completing invokes the handler"); }

VF_HARNESS(complete) {
  arg1 = vf_u32("a"); arg2 = vf_u32("b");
  tok d(vf_u32("d")); arg4 = &d;
  const bool use = vf_bool("uses it again");
  action = (int)vf_choose(2, "action");
  bool full = false;
  {
    uh h; fill(h, 0, full);
    vf_assert(!!h == full, "a unique_handler knows whether it is empty");
    if (use) again = &h;
    try {
      h.complete(arg1, tok(arg2), arg3, d);
      vf_cover("completed");
      vf_assert(full, "completing an empty unique_handler throws");
      vf_assert(of[0].invoked == 1, "completing invokes the handler once");
      done(0);
      if (!use) vf_assert(!h, "completing empties");
    } catch (const asioext::bad_function_call&) {
      vf_cover("empty");
      vf_assert(!full, "only completing an empty unique_handler throws");
      vf_assert(!h, "it stays empty");
    }
    again = nullptr;
  }
  if (full) vf_assert(of[0].invoked == 1, "a handler is invoked once");
  vf_assert(unreturned() == 0, "all memory is returned");
}
VF_HARNESS(reset) {
  bool full = false;
  {
    uh h; fill(h, 0, full);
    if (vf_bool("uses it again")) { action = 0; again = &h; }
    h.reset();
    vf_assert(!h, "reset empties");
    if (full) { vf_cover("full"); done(0); never(0); }
  }
  vf_assert(unreturned() == 0, "all memory is returned");
}
VF_HARNESS(destroy) {
  bool full = false;
  { uh h; fill(h, 0, full); }
  if (full) { vf_cover("full"); done(0); never(0); }
  vf_assert(unreturned() == 0, "all memory is returned");
}
VF_HARNESS(move_construct) {
  bool full = false;
  {
    uh h; fill(h, 0, full);
    uh g(std::move(h));
    vf_assert(!h && !!g == full, "moving moves the handler");
    if (full) { vf_cover("full"); vf_assert(of[0].destroyed == 0, "moving keeps the handler alive"); }
    never(0);
  }
  if (full) { done(0); never(0); }
  vf_assert(unreturned() == 0, "all memory is returned");
}
VF_HARNESS(move_assign) {
  bool f0 = false, f1 = false;
  const bool use = vf_bool("uses it again");
  {
    uh h; fill(h, 0, f0);
    uh g; fill(g, 1, f1);
    if (use) { action = (int)vf_choose(2, "action"); again = &h; }
    h = std::move(g);
    again = nullptr;
    vf_assert(!g, "the source becomes empty");
    if (f0) { vf_cover("replaced"); done(0); }
    if (!use || !f0) { vf_assert(!!h == f1, "moving moves the handler"); if (f1) vf_assert(of[1].destroyed == 0, "the new handler is kept"); }
    never(0); never(1);
  }
  if (f1) done(1);
  never(1);
  vf_assert(unreturned() == 0, "all memory is returned");
}
VF_HARNESS(assign) {
  bool f0 = false;
  const bool use = vf_bool("uses it again"), named = vf_bool("an lvalue");
  {
    uh h; fill(h, 0, f0);
    if (use) { action = 0; }
    try {
      if (named) { large n(1); if (use) again = &h; h = n; again = nullptr; }
      else { small n(1); if (use) again = &h; h = std::move(n); again = nullptr; }
      vf_cover("assigned");
      if (!use || !f0) { vf_assert(!!h, "the new handler is stored"); vf_assert(of[1].destroyed == 0 && blocks_of(1) == 1, "the new handler is kept"); }
      if (f0) done(0);
    } catch (const std::bad_alloc&) {
      vf_cover("no memory");
      again = nullptr;
      vf_assert(blocks_of(1) == 0, "nothing is allocated for the new handler");
      vf_assert(!!h == (of[0].destroyed == 0 && f0), "the unique_handler never keeps a destroyed handler");
    }
    never(0); never(1);
  }
  if (f0) done(0);
  vf_assert(of[1].destroyed == 1, "the new handler is destroyed once"); never(0); never(1);
  vf_assert(unreturned() == 0, "all memory is returned");
}
VF_HARNESS(construct) {
  try {
    uh h((large(0)));
    vf_cover("stored");
    vf_assert(!!h && of[0].destroyed == 0 && blocks_of(0) == 1, "a stored handler lives in one block of its allocator");
  } catch (const std::bad_alloc&) { vf_cover("no memory"); vf_assert(of[0].destroyed == 1, "a refused handler is destroyed"); }
  vf_assert(of[0].destroyed == 1 && of[0].invoked == 0 && unreturned() == 0, "all memory is returned");
}
