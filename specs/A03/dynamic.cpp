// vf-assume: the adapted buffer is not modified behind the adaptor's back, and its contents fit the adaptor's limit (otherwise only memory safety is claimed)
#include "lb.hpp"
using asioext::linear_buffer;
typedef linear_buffer B;
typedef asioext::dynamic_linear_buffer<B::allocator_type> D;

// State of the adaptor: in = input sequence (ghost byte at k), out = output sequence behind it
struct state {
  std::size_t in, max, k; uint8_t at; const uint8_t* base;
};

template <class F>
static void with_dynamic(bool v1_only, bool v2_only, F f) {
  std::size_t cap = vf_u64("cap"), size = vf_u64("size"), bmax = vf_u64("bmax"), max = vf_u64("max"), k = vf_u64("k");
  vf_assume(size <= cap && cap <= bmax && cap <= (std::size_t(1) << 60));
  const uint8_t* init = (const uint8_t*)vf_bytes(size, "contents");
  B b(cap, bmax);
  b.resize(size);
  std::memcpy(b.data(), init, size);
  D d(b, max);
  std::size_t lim = max < bmax ? max : bmax;
  vf_assume(size <= lim);
  state s = {size, lim, k, k < size ? init[k] : uint8_t(0), nullptr};
#if !defined(ASIOEXT_NO_DYNAMIC_BUFFER_V1)
  if (!v2_only && vf_bool("prepared")) {
    std::size_t o = vf_u64("pending");
    vf_assume(o <= lim - size && o <= (std::size_t(1) << 60));
    d.prepare(o);
  }
#endif
  s.base = b.data();
  f(b, d, s);
}

static void input_is(D& d, B& b, std::size_t n, std::size_t max) {
  vf_assert(d.size() == n, "size() is the length of the input sequence");
  vf_assert(d.max_size() == max, "max_size() never changes");
  vf_assert(d.size() <= d.max_size(), "size() <= max_size()");
  vf_assert(d.capacity() <= d.max_size() && d.capacity() >= d.size(), "capacity() lies between size() and max_size()");
  vf_assert(b.size() >= n, "the input sequence is inside the adapted buffer");
#if !defined(ASIOEXT_NO_DYNAMIC_BUFFER_V1)
  const D& c = d;
  vf_assert(d.data().size() == n && c.data().size() == n, "data() is the whole input sequence");
  vf_assert(d.data().data() == b.data() && c.data().data() == b.data(), "data() starts at the first byte");
#endif
}

VF_HARNESS(observers) {
  with_dynamic(false, false, [](B& b, D& d, state& s) {
    input_is(d, b, s.in, s.max);
    std::size_t pos = vf_u64("pos"), n = vf_u64("n"), all = b.size();
    const D& c = d;
    auto m = d.data(pos, n);
    auto e = c.data(pos, n);
    std::size_t p = pos < all ? pos : all, want = n < all - p ? n : all - p;
    vf_assert(m.size() == want && e.size() == want, "data(pos, n) has min(n, available) bytes");
    vf_assert((const uint8_t*)m.data() == b.data() + p && (const uint8_t*)e.data() == b.data() + p, "data(pos, n) starts at pos");
    vf_assert(d.capacity() == (b.capacity() < s.max ? b.capacity() : s.max), "capacity() is the storage available within the limit");
    D moved(std::move(d));
    input_is(moved, b, s.in, s.max);
    D again = asioext::dynamic_buffer(b);
    vf_assert(again.max_size() == b.max_size() && again.size() == b.size(), "dynamic_buffer() adapts the whole buffer");
    if (s.k < s.in) vf_assert(b[s.k] == s.at, "observers keep the contents");
    vf_cover("end");
  });
}

#if !defined(ASIOEXT_NO_DYNAMIC_BUFFER_V1)
VF_HARNESS(prepare) {
  with_dynamic(false, false, [](B& b, D& d, state& s) {
    std::size_t n = vf_u64("n"), all = b.size();
    vf_assume(n <= (std::size_t(1) << 60) || n > s.max - s.in);
    bool threw = false;
    try {
      auto m = d.prepare(n);
      vf_assert(m.size() == n, "prepare(n) returns n bytes of output sequence");
      vf_assert((const uint8_t*)m.data() == b.data() + s.in, "the output sequence follows the input sequence");
      vf_assert(s.in + n <= b.size(), "the output sequence is inside the adapted buffer");
      vf_cover("ok");
    } catch (std::length_error&) { threw = true; vf_cover("refused"); }
    vf_assert(threw == (n > s.max - s.in), "length_error iff size() + n > max_size()");
    if (threw) vf_assert(b.size() == all && b.data() == s.base, "a refused prepare changes nothing");
    input_is(d, b, s.in, s.max);
    if (s.k < s.in) vf_assert(b[s.k] == s.at, "prepare keeps the input sequence");
  });
}

VF_HARNESS(prepare_ec) {
  with_dynamic(false, false, [](B& b, D& d, state& s) {
    std::size_t n = vf_u64("n"), all = b.size();
    vf_assume(n <= (std::size_t(1) << 60) || n > s.max - s.in);
    asioext::error_code ec(vf_u32("stale") & 0xff, asio::error::get_system_category());
    auto m = d.prepare(n, ec);
    bool refused = n > s.max - s.in;
    vf_assert(!!ec == refused, "an error is reported iff size() + n > max_size()");
    if (refused) {
      vf_cover("refused");
      vf_assert(ec == asio::error::no_memory, "the error is no_memory");
      vf_assert(m.size() == 0, "nothing is prepared on error");
      vf_assert(b.size() == all && b.data() == s.base, "a refused prepare changes nothing");
    } else {
      vf_cover("ok");
      vf_assert(m.size() == n && (const uint8_t*)m.data() == b.data() + s.in, "prepare(n) returns n bytes following the input sequence");
      vf_assert(s.in + n <= b.size(), "the output sequence is inside the adapted buffer");
    }
    input_is(d, b, s.in, s.max);
    if (s.k < s.in) vf_assert(b[s.k] == s.at, "prepare keeps the input sequence");
  });
}

VF_HARNESS(commit) {
  with_dynamic(false, false, [](B& b, D& d, state& s) {
    std::size_t n = vf_u64("n"), c = vf_u64("c");
    vf_assume(n <= s.max - s.in && n <= (std::size_t(1) << 60));
    auto m = d.prepare(n);
    const uint8_t* data = (const uint8_t*)vf_bytes(n, "written");
    std::memcpy(m.data(), data, n);
    d.commit(c);
    std::size_t moved = c < n ? c : n;
    input_is(d, b, s.in + moved, s.max);
    if (s.k < s.in) vf_assert(b[s.k] == s.at, "commit keeps the input sequence");
    else if (s.k < s.in + moved) vf_assert(b[s.k] == data[s.k - s.in], "commit appends the first bytes of the output sequence");
    vf_assert(b.size() == s.in + moved, "the rest of the output sequence is discarded");
    vf_cover("end");
  });
}

// a second commit without a new prepare moves nothing that was not prepared
VF_HARNESS(commit_twice) {
  with_dynamic(false, false, [](B& b, D& d, state& s) {
    std::size_t n = vf_u64("n"), c = vf_u64("c"), c2 = vf_u64("c2");
    vf_assume(n <= s.max - s.in && n <= (std::size_t(1) << 60) && c <= n);
    d.prepare(n);
    d.commit(c);
    d.commit(c2);
    input_is(d, b, s.in + c, s.max);
    vf_cover("end");
  });
}
#endif

VF_HARNESS(consume) {
  with_dynamic(false, false, [](B& b, D& d, state& s) {
    std::size_t n = vf_u64("n");
    d.consume(n);
    std::size_t c = n < s.in ? n : s.in;
    input_is(d, b, s.in - c, s.max);
    if (s.k >= c && s.k < s.in) vf_assert(b[s.k - c] == s.at, "consume removes bytes from the front only");
    vf_cover("end");
  });
}

VF_HARNESS(grow) {
  with_dynamic(false, false, [](B& b, D& d, state& s) {
    std::size_t n = vf_u64("n"), all = b.size();
    vf_assume(n <= (std::size_t(1) << 60) || n > s.max - s.in);
    bool threw = false;
    try { d.grow(n); vf_cover("ok"); } catch (std::length_error&) { threw = true; vf_cover("refused"); }
    vf_assert(threw == (n > s.max - s.in), "length_error iff size() + n > max_size()");
    if (threw) vf_assert(b.size() == all && b.data() == s.base, "a refused grow changes nothing");
    input_is(d, b, threw ? s.in : s.in + n, s.max);
    if (!threw) vf_assert(b.size() == s.in + n, "grow extends the adapted buffer by n bytes");
    if (s.k < s.in) vf_assert(b[s.k] == s.at, "grow keeps the contents");
  });
}

VF_HARNESS(shrink) {
  with_dynamic(false, false, [](B& b, D& d, state& s) {
    std::size_t n = vf_u64("n");
    d.shrink(n);
    std::size_t r = n < s.in ? s.in - n : 0;
    input_is(d, b, r, s.max);
    vf_assert(b.size() == r, "shrink removes n bytes from the end of the adapted buffer");
    if (s.k < r) vf_assert(b[s.k] == s.at, "shrink keeps the remaining contents");
    vf_cover("end");
  });
}

// An adapted buffer longer than the adaptor's limit: no operation leaves the storage (memory obligations), size() stays limited.
VF_HARNESS(oversize) {
  std::size_t cap = vf_u64("cap"), size = vf_u64("size"), max = vf_u64("max"), n = vf_u64("n");
  vf_assume(size <= cap && cap <= (std::size_t(1) << 60) && n <= (std::size_t(1) << 60));
  B b(cap);
  b.resize(size);
  D d(b, max);
  vf_assert(d.size() == (size < max ? size : max) && d.max_size() == max, "size() is limited by max_size()");
  try {
    switch (vf_choose(5, "op")) {
    case 0: d.consume(n); break;
    case 1: d.grow(n); break;
    case 2: d.shrink(n); break;
    case 3: { auto v = d.data(n, max); vf_assert((const uint8_t*)v.data() >= b.data() && (const uint8_t*)v.data() + v.size() <= b.data() + b.size(), "views stay inside the adapted buffer"); break; }
    default:
#if !defined(ASIOEXT_NO_DYNAMIC_BUFFER_V1)
      d.prepare(n); d.commit(n); d.consume(n);
#endif
      break;
    }
  } catch (std::length_error&) {}
  vf_assert(b.size() <= b.capacity(), "the adapted buffer stays valid");
  vf_cover("end");
}
