// vf-assume: the allocator's allocate() may fail at any call (std::bad_alloc) except inside operations documented not to throw
#include "vf.hpp"
#include "asioext/linear_buffer.hpp"
#include <cstring>
#include <new>
#include <stdexcept>

// Ghost ledger of every block the allocators hand out.
struct block { void* p; std::size_t n; int owner; bool live; };
static block ledger[16];
static int nblocks;
static bool may_fail;

static int live_blocks() { int k = 0; for (int i = 0; i < nblocks; ++i) if (ledger[i].live) ++k; return k; }

static void* ghost_allocate(std::size_t n, int owner) {
  if (may_fail && vf_bool("fail")) throw std::bad_alloc();
  vf_assert(nblocks < 16, "ledger large enough");
  void* p = ::operator new(n);
  ledger[nblocks++] = block{p, n, owner, true};
  return p;
}
static void ghost_deallocate(void* p, std::size_t n, int owner) {
  for (int i = 0; i < nblocks; ++i)
    if (ledger[i].live && ledger[i].p == p) {
      vf_assert(ledger[i].n == n, "a block is released with the size it was allocated with");
      vf_assert(ledger[i].owner == owner, "a block is released through an allocator equal to the one it came from");
      ledger[i].live = false;
      ::operator delete(p);
      return;
    }
  vf_assert(false, "only blocks that are still allocated are released");
}

template <bool Propagate>
struct ledger_allocator {
  typedef uint8_t value_type;
  typedef std::integral_constant<bool, Propagate> propagate_on_container_move_assignment;
  typedef std::false_type is_always_equal;
  int id;
  ledger_allocator() : id(0) {}
  explicit ledger_allocator(int i) : id(i) {}
  template <class U> struct rebind { typedef ledger_allocator other; };
  uint8_t* allocate(std::size_t n) { return (uint8_t*)ghost_allocate(n, id); }
  void deallocate(uint8_t* p, std::size_t n) { ghost_deallocate(p, n, id); }
  bool operator==(const ledger_allocator& o) const { return id == o.id; }
  bool operator!=(const ledger_allocator& o) const { return id != o.id; }
};

template <class A>
struct world {
  typedef asioext::basic_linear_buffer<A> B;

  // state k of a buffer with allocator id: with / without storage
  template <class F>
  static void any(int id, F f) {
    std::size_t cap = vf_u64("cap"), size = vf_u64("size"), max = vf_u64("max");
    vf_assume(size <= cap && cap <= max && cap <= (std::size_t(1) << 61));
    B b(A(id), cap, max);
    b.resize(size);
    if (vf_bool("stored")) { f(b); return; }
    B c(std::move(b));
    may_fail = false;
    owns(b);
    f(b);
  }

  // the storage of b is exactly one live ledger block of its capacity
  static void owns(const B& b) {
    if (!b.data()) { vf_assert(b.capacity() == 0 && b.size() == 0, "a buffer without storage is empty"); return; }
    int k = 0;
    for (int i = 0; i < nblocks; ++i)
      if (ledger[i].live && ledger[i].p == (const void*)b.data()) {
        ++k;
        vf_assert(ledger[i].n == b.capacity(), "the storage of a buffer is a live block of capacity() bytes");
      }
    vf_assert(k == 1, "the storage of a buffer is one live block");
    vf_assert(b.size() <= b.capacity(), "size() <= capacity()");
  }

  struct keep {
    const uint8_t* d; std::size_t s, c;
    explicit keep(const B& b) : d(b.data()), s(b.size()), c(b.capacity()) {}
    void same(const B& b) const { vf_assert(b.data() == d && b.size() == s && b.capacity() == c, "a failed allocation leaves the buffer as it was"); }
  };

  static void grow(int op) {
    any(1, [op](B& b) {
      std::size_t n = vf_u64("n"), at = vf_u64("at");
      vf_assume(n <= (std::size_t(1) << 61) && at <= b.size());
      const uint8_t* src = (const uint8_t*)(op < 2 ? vf_bytes(n, "src") : nullptr);
      keep before(b);
      may_fail = true;
      try {
        switch (op) {
        case 0: b.append(src, n); break;
        case 1: b.insert(at, src, n); break;
        case 2: b.reserve(n); break;
        case 3: b.resize(n); break;
        }
        vf_cover("ok");
      } catch (std::bad_alloc&) { vf_cover("no memory"); before.same(b); }
      catch (std::length_error&) { vf_cover("too long"); before.same(b); }
      owns(b);
      vf_assert(live_blocks() == (b.data() ? 1 : 0) + (nblocks && before.d == nullptr ? 1 : 0), "no operation leaks or shares storage");
    });
    vf_assert(live_blocks() == 0, "everything is released exactly once");
    vf_assert(vf_heap_live() == 0, "no memory is leaked");
  }

  static void shrink() {
    any(1, [](B& b) {
      std::size_t f = vf_u64("first"), l = vf_u64("last");
      vf_assume(f <= l && l <= b.size());
      keep before(b);
      b.erase(f, l);
      if (b.size() > 0) b.erase(b.size() - 1);
      b.clear();
      vf_assert(b.data() == before.d && b.capacity() == before.c, "shrinking neither allocates nor releases");
      owns(b);
    });
    vf_assert(live_blocks() == 0, "everything is released exactly once");
    vf_assert(vf_heap_live() == 0, "no memory is leaked");
  }

  static void construct() {
    std::size_t n = vf_u64("n"), m = vf_u64("m");
    vf_assume(n <= (std::size_t(1) << 61));
    may_fail = true;
    try {
      if (vf_bool("alloc")) { B b(A(1), n, m); owns(b); }
      else { B b(n, m); owns(b); }
      { B e; owns(e); B f((A(3))); owns(f); }
      vf_cover("ok");
    } catch (std::bad_alloc&) { vf_cover("no memory"); }
    catch (std::length_error&) { vf_cover("too long"); }
    vf_assert(live_blocks() == 0, "everything is released exactly once");
    vf_assert(vf_heap_live() == 0, "no memory is leaked");
  }

  static void copy() {
    any(0, [](B& b) {
      keep before(b);
      int l0 = live_blocks();
      may_fail = true;
      try {
        B c(b);
        owns(c); owns(b);
        vf_assert(!c.data() || c.data() != b.data(), "copies do not share storage");
        vf_assert(live_blocks() == l0 + (c.data() ? 1 : 0), "copies own what they allocate");
        vf_cover("ok");
      } catch (std::bad_alloc&) { vf_cover("no memory"); }
      before.same(b);
      vf_assert(live_blocks() == l0, "a copy releases its storage");
    });
    vf_assert(live_blocks() == 0, "everything is released exactly once");
    vf_assert(vf_heap_live() == 0, "no memory is leaked");
  }

  static void move() {
    any(2, [](B& b) {
      keep before(b);
      int l0 = live_blocks();
      B c(std::move(b));
      vf_assert(c.data() == before.d && c.size() == before.s && c.capacity() == before.c, "move construction hands the storage over");
      vf_assert(!b.data() && b.capacity() == 0 && b.size() == 0, "a moved-from buffer owns nothing");
      vf_assert(live_blocks() == l0, "moving allocates nothing");
      owns(c);
      // the moved-from buffer is usable
      uint8_t x = 7;
      if (b.max_size() > 0) {
        b.append(&x, 1);
        owns(b);
        vf_assert(b.size() == 1 && b[0] == 7, "a moved-from buffer can be used again");
        vf_cover("end");
      }
    });
    vf_assert(live_blocks() == 0, "everything is released exactly once");
    vf_assert(vf_heap_live() == 0, "no memory is leaked");
  }

  static void copy_assign(int ida, int idb) {
    any(ida, [=](B& a) {
      bool f = may_fail;
      may_fail = false;
      any(idb, [&a](B& b) {
        keep ka(a), kb(b);
        may_fail = true;
        try { a = b; vf_cover("ok"); }
        catch (std::bad_alloc&) { vf_cover("no memory"); ka.same(a); }
        catch (std::length_error&) { vf_cover("too long"); ka.same(a); }
        kb.same(b);
        owns(a); owns(b);
        vf_assert(!a.data() || a.data() != b.data(), "copies do not share storage");
        may_fail = false;
        B& self = a;
        a = self;
        owns(a);
      });
      may_fail = f;
    });
    vf_assert(live_blocks() == 0, "everything is released exactly once");
    vf_assert(vf_heap_live() == 0, "no memory is leaked");
  }

  static void move_assign(int ida, int idb) {
    any(ida, [=](B& a) {
      any(idb, [&a](B& b) {
        keep kb(b);
        std::size_t k = vf_u64("k");
        uint8_t at = k < b.size() ? b[k] : 0;
        a = std::move(b);
        vf_assert(a.size() == kb.s && a.capacity() >= kb.s, "move assignment takes the contents over");
        vf_assert(!b.data() && b.capacity() == 0 && b.size() == 0, "a moved-from buffer owns nothing");
        if (k < kb.s) vf_assert(a[k] == at, "move assignment keeps the contents");
        vf_assert(a.size() <= a.max_size(), "size() <= max_size()");
        owns(a);
        B& self = a;
        a = std::move(self);
        owns(a);
        vf_cover("end");
      });
    });
    vf_assert(live_blocks() == 0, "everything is released exactly once");
    vf_assert(vf_heap_live() == 0, "no memory is leaked");
  }
};
typedef world<ledger_allocator<false> > stay;
typedef world<ledger_allocator<true> > go;

VF_HARNESS(append) { stay::grow(0); }
VF_HARNESS(insert) { stay::grow(1); }
VF_HARNESS(reserve) { stay::grow(2); }
VF_HARNESS(resize) { stay::grow(3); }
VF_HARNESS(shrink) { stay::shrink(); }
VF_HARNESS(construct) { stay::construct(); }
VF_HARNESS(copy) { stay::copy(); }
VF_HARNESS(move) { stay::move(); }
VF_HARNESS(copy_assign) { stay::copy_assign(0, 0); }
VF_HARNESS(copy_assign_unequal) { stay::copy_assign(1, 2); }
VF_HARNESS(move_assign_equal) { stay::move_assign(1, 1); }
VF_HARNESS(move_assign_unequal) { stay::move_assign(1, 2); }
VF_HARNESS(move_assign_propagate) { go::move_assign(1, 2); }
VF_HARNESS(move_assign_propagate_equal) { go::move_assign(1, 1); }
VF_HARNESS(move_propagate) { go::move(); }

// the default allocator: same accounting on the global heap
typedef asioext::linear_buffer D;
VF_HARNESS(default_allocator) {
  {
    std::size_t cap = vf_u64("cap"), size = vf_u64("size"), n = vf_u64("n");
    vf_assume(size <= cap && cap <= (std::size_t(1) << 61) && n <= (std::size_t(1) << 61));
    D a(cap), e, z(n);
    a.resize(size);
    e.append(vf_bytes(n, "src"), n);
    switch (vf_choose(6, "op")) {
    case 0: e = a; break;
    case 1: e = std::move(a); break;
    case 2: a = std::move(e); e = z; break;
    case 3: { D c(std::move(a)); a = c; break; }
    case 4: { D c(a); c.reserve(cap + 1); c = std::move(z); break; }
    default: a.insert(size, vf_bytes(n, "ins"), n); a.resize(0); a.erase(std::size_t(0), std::size_t(0));
    }
  }
  vf_assert(vf_heap_live() == 0, "no memory is leaked");
  vf_cover("end");
}
