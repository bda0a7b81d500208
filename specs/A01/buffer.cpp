// vf-assume: bytes passed to append/insert do not alias the buffer's own storage; erase/insert positions are within the buffer
#include "lb.hpp"
using asioext::linear_buffer;
typedef linear_buffer B;
typedef snapshot<B> S;

VF_HARNESS(construct) {
  B d;
  rep_inv(d);
  vf_assert(d.size() == 0 && d.capacity() == 0 && d.data() == nullptr, "a default-constructed buffer is empty and owns nothing");
  vf_assert(d.max_size() == std::allocator_traits<B::allocator_type>::max_size(B::allocator_type()), "default limit is the allocator's");
  B e((std::allocator<uint8_t>()));
  rep_inv(e);
  vf_assert(e.size() == 0 && e.capacity() == 0 && e.data() == nullptr, "a buffer constructed from an allocator is empty and owns nothing");
  std::size_t n = vf_u64("n"), m = vf_u64("m");
  vf_assume(n <= (std::size_t(1) << 62));
  bool threw = false;
  try {
    if (vf_bool("alloc")) {
      B b(std::allocator<uint8_t>(), n, m);
      vf_assert(b.size() == n, "constructed size"); rep_inv(b);
      vf_assert(b.max_size() == (m < d.max_size() ? m : d.max_size()), "constructed limit");
      vf_cover("a");
    } else if (vf_bool("dflt")) {
      B b(n);
      vf_assert(b.size() == n, "constructed size"); rep_inv(b);
      vf_assert(b.max_size() == d.max_size(), "default limit");
      m = n;
    } else {
      B b(n, m);
      vf_assert(b.size() == n, "constructed size"); rep_inv(b);
      vf_assert(b.max_size() == (m < d.max_size() ? m : d.max_size()), "constructed limit");
    }
  } catch (std::length_error&) { threw = true; vf_cover("t"); }
  vf_assert(threw == (n > m), "constructing beyond the limit is refused, and only that");
}

VF_HARNESS(append) {
  with_any<B>("b", [](B& b) {
    std::size_t n = vf_u64("n"), k = vf_u64("k");
    vf_assume(n <= (std::size_t(1) << 61));
    const uint8_t* src = (const uint8_t*)vf_bytes(n, "src");
    S s(b, k);
    bool threw = false;
    try { b.append(src, n); } catch (std::length_error&) { threw = true; }
    vf_assert(threw == (n > s.max - s.size), "length_error iff size() + n > max_size()");
    rep_inv(b);
    if (threw) { vf_cover("refused"); s.unchanged(b); return; }
    vf_assert(b.size() == s.size + n && b.max_size() == s.max, "append adds n bytes");
    vf_assert(b.capacity() >= s.cap, "append never shrinks the capacity");
    if (s.size + n <= s.cap) { vf_cover("in place"); vf_assert(b.data() == s.data, "append within the capacity keeps the storage"); }
    else vf_cover("grown");
    if (k < s.size) vf_assert(b[k] == s.at, "append keeps the old bytes");
    else if (k < s.size + n) vf_assert(b[k] == src[k - s.size], "append stores the new bytes at the end");
  });
}

static void insert_impl(bool it) {
  with_any<B>("b", [it](B& b) {
    std::size_t n = vf_u64("n"), k = vf_u64("k"), pos = vf_u64("pos");
    vf_assume(n <= (std::size_t(1) << 61));
    const uint8_t* src = (const uint8_t*)vf_bytes(n, "src");
    vf_assume(pos <= b.size());
    S s(b, k);
    bool threw = false;
    try { if (it) b.insert(b.begin() + pos, src, n); else b.insert(pos, src, n); } catch (std::length_error&) { threw = true; }
    vf_assert(threw == (n > s.max - s.size), "length_error iff size() + n > max_size()");
    rep_inv(b);
    if (threw) { s.unchanged(b); return; }
    vf_assert(b.size() == s.size + n && b.max_size() == s.max, "insert adds n bytes");
    vf_assert(b.capacity() >= s.cap, "insert never shrinks the capacity");
    if (s.size + n <= s.cap) vf_assert(b.data() == s.data, "insert within the capacity keeps the storage");
    if (k < pos) vf_assert(b[k] == s.at, "insert keeps the bytes before the position");
    else if (k < s.size) vf_assert(b[k + n] == s.at, "insert moves the bytes after the position up");
    std::size_t j = vf_u64("j");
    if (j < n) vf_assert(b[pos + j] == src[j], "insert stores the new bytes at the position");
  });
}
VF_HARNESS(insert_index) { insert_impl(false); }
VF_HARNESS(insert_iterator) { insert_impl(true); }

static void erase_impl(int how) {
  with_any<B>("b", [how](B& b) {
    std::size_t k = vf_u64("k"), f = vf_u64("first"), l = vf_u64("last");
    vf_assume(f <= l && l <= b.size());
    if (how < 2) vf_assume(l == f + 1);
    S s(b, k);
    switch (how) {
    case 0: b.erase(f); break;
    case 1: b.erase(b.begin() + f); break;
    case 2: b.erase(f, l); break;
    default: b.erase(b.begin() + f, b.begin() + l);
    }
    rep_inv(b);
    vf_assert(b.size() == s.size - (l - f), "erase removes exactly the range");
    vf_assert(b.data() == s.data && b.capacity() == s.cap && b.max_size() == s.max, "erase keeps the storage");
    if (k < f) vf_assert(b[k] == s.at, "erase keeps the bytes before the range");
    else if (k >= l && k < s.size) vf_assert(b[k - (l - f)] == s.at, "erase moves the bytes after the range down");
  });
}
VF_HARNESS(erase_index) { erase_impl(0); }
VF_HARNESS(erase_iterator) { erase_impl(1); }
VF_HARNESS(erase_range) { erase_impl(2); }
VF_HARNESS(erase_iterators) { erase_impl(3); }

VF_HARNESS(reserve) {
  with_any<B>("b", [](B& b) {
    std::size_t n = vf_u64("n"), k = vf_u64("k");
    S s(b, k);
    bool threw = false;
    try { b.reserve(n); } catch (std::length_error&) { threw = true; } catch (std::bad_alloc&) { vf_assert(n > (std::size_t(1) << 62), "bad_alloc only when memory runs out"); s.unchanged(b); return; }
    vf_assert(threw == (n > s.max), "length_error iff more than max_size() is reserved");
    rep_inv(b);
    if (threw) { vf_cover("refused"); s.unchanged(b); return; }
    vf_cover("ok");
    vf_assert(b.size() == s.size && b.max_size() == s.max, "reserve keeps the size");
    vf_assert(b.capacity() >= n && b.capacity() >= s.cap, "reserve provides the capacity");
    if (n <= s.cap) s.unchanged(b);
    if (k < s.size) vf_assert(b[k] == s.at, "reserve keeps the contents");
  });
}

VF_HARNESS(resize) {
  with_any<B>("b", [](B& b) {
    std::size_t n = vf_u64("n"), k = vf_u64("k");
    S s(b, k);
    bool threw = false;
    try { b.resize(n); } catch (std::length_error&) { threw = true; } catch (std::bad_alloc&) { vf_assert(n > (std::size_t(1) << 62), "bad_alloc only when memory runs out"); s.unchanged(b); return; }
    vf_assert(threw == (n > s.max), "length_error iff resized beyond max_size()");
    rep_inv(b);
    if (threw) { vf_cover("refused"); s.unchanged(b); return; }
    vf_assert(b.size() == n && b.max_size() == s.max, "resize sets the size");
    vf_assert(b.capacity() >= s.cap, "resize never shrinks the capacity");
    if (n <= s.cap) { vf_cover("in place"); vf_assert(b.data() == s.data && b.capacity() == s.cap, "resize within the capacity keeps the storage"); }
    else vf_cover("grown");
    if (k < s.size && k < n) vf_assert(b[k] == s.at, "resize keeps the common prefix");
  });
}

VF_HARNESS(clear) {
  with_any<B>("b", [](B& b) {
    S s(b, 0);
    b.clear();
    rep_inv(b);
    vf_assert(b.size() == 0, "clear empties the buffer");
    vf_assert(b.data() == s.data && b.capacity() == s.cap && b.max_size() == s.max, "clear keeps the storage");
    vf_cover("end");
  });
}

VF_HARNESS(views) {
  with_any<B>("b", [](B& b) {
    std::size_t k = vf_u64("k");
    const B& c = b;
    vf_assert(b.as_buffers().data() == b.data() && b.as_buffers().size() == b.size(), "as_buffers() is the contents");
    vf_assert(c.as_buffers().data() == b.data() && c.as_buffers().size() == b.size(), "as_buffers() const is the contents");
    vf_assert(buffer(b).data() == b.data() && buffer(b).size() == b.size(), "buffer() is the contents");
    vf_assert(buffer(c).data() == b.data() && buffer(c).size() == b.size(), "buffer() const is the contents");
    vf_assert(c.begin() == b.data() && c.end() == b.data() + b.size() && c.data() == b.data(), "const accessors agree");
    if (k < b.size()) vf_assert(&b[k] == b.data() + k && &c[k] == b.data() + k, "operator[] designates byte k");
    vf_cover("end");
  });
}

VF_HARNESS(copy_construct) {
  with_any<B>("b", [](B& b) {
    std::size_t k = vf_u64("k");
    S s(b, k);
    B c(b);
    s.unchanged(b);
    rep_inv(c);
    vf_assert(c.size() == s.size && c.max_size() == s.max, "a copy has the size and limit of the original");
    vf_assert(s.data == nullptr || c.data() != s.data, "a copy has its own storage");
    if (k < s.size) vf_assert(c[k] == s.at, "a copy has the contents of the original");
    vf_cover("end");
  });
}

VF_HARNESS(move_construct) {
  with_any<B>("b", [](B& b) {
    std::size_t k = vf_u64("k");
    S s(b, k);
    B c(std::move(b));
    vf_assert(b.size() == 0 && b.capacity() == 0 && b.data() == nullptr, "a moved-from buffer is empty and owns nothing");
    rep_inv(b);
    s.unchanged(c);
    rep_inv(c);
    vf_cover("end");
  });
}

VF_HARNESS(copy_assign) {
  with_any<B>("a", [](B& a) {
    with_any<B>("b", [&a](B& b) {
      std::size_t k = vf_u64("k");
      S sa(a, k), sb(b, k);
      bool threw = false;
      try { a = b; } catch (std::length_error&) { threw = true; }
      vf_assert(threw == (sb.size > sa.max), "length_error iff the source exceeds max_size()");
      sb.unchanged(b);
      rep_inv(a);
      if (threw) { vf_cover("refused"); sa.unchanged(a); return; }
      vf_cover("ok");
      vf_assert(a.size() == sb.size && a.max_size() == sa.max, "assignment copies the size and keeps the limit");
      vf_assert(sb.data == nullptr || a.data() != sb.data, "assignment does not share storage");
      if (k < sb.size) vf_assert(a[k] == sb.at, "assignment copies the contents");
    });
  });
}

VF_HARNESS(move_assign) {
  with_any<B>("a", [](B& a) {
    with_any<B>("b", [&a](B& b) {
      std::size_t k = vf_u64("k");
      S sb(b, k);
      a = std::move(b);
      vf_assert(b.size() == 0 && b.capacity() == 0 && b.data() == nullptr, "a moved-from buffer is empty and owns nothing");
      rep_inv(b);
      rep_inv(a);
      vf_assert(a.size() == sb.size && a.data() == sb.data, "move assignment takes the contents over");
      if (k < sb.size) vf_assert(a[k] == sb.at, "move assignment keeps the contents");
      vf_cover("end");
    });
  });
}

VF_HARNESS(self_assign) {
  with_any<B>("b", [](B& b) {
    std::size_t k = vf_u64("k");
    S s(b, k);
    B& alias = b;
    b = alias;
    vf_assert(b.size() == s.size, "self copy-assignment keeps the size");
    if (k < s.size) vf_assert(b[k] == s.at, "self copy-assignment keeps the contents");
    b = std::move(alias);
    rep_inv(b);
    vf_assert(b.size() == s.size || b.size() == 0, "self move-assignment keeps a valid value");
    vf_cover("end");
  });
}
