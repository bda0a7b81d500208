// Abstract state of a linear buffer and its representation invariant,
// stated over the public interface only.
#ifndef SPEC_LB_HPP
#define SPEC_LB_HPP
#include "vf.hpp"
#include "asioext/linear_buffer.hpp"
#include <cstring>
#include <memory>
#include <new>
#include <stdexcept>

// The contents are described by one arbitrary ("ghost") position k: a clause
// proved for k is proved for every position.
template <class B>
struct snapshot {
  const uint8_t* data;
  std::size_t size, cap, max, k;
  uint8_t at;
  explicit snapshot(const B& b, std::size_t kk) : data(b.data()), size(b.size()), cap(b.capacity()), max(b.max_size()), k(kk), at(0)
  { if (k < size) at = b.data()[k]; }
  // same value, same storage
  void unchanged(const B& b) const {
    vf_assert(b.data() == data, "failed/neutral operation keeps the storage");
    vf_assert(b.size() == size && b.capacity() == cap && b.max_size() == max, "failed/neutral operation keeps size, capacity and limit");
    if (k < size) vf_assert(b.data()[k] == at, "failed/neutral operation keeps the contents");
  }
};

template <class B>
void rep_inv(const B& b) {
  vf_assert(b.size() <= b.capacity(), "size() <= capacity()");
  vf_assert(b.capacity() <= b.max_size(), "capacity() <= max_size()");
  vf_assert(b.empty() == (b.size() == 0), "empty() iff size() == 0");
  vf_assert(b.begin() == b.data() && b.end() == b.data() + b.size(), "begin()/end() delimit the contents");
  if (b.data() == nullptr)
    vf_assert(b.capacity() == 0, "a buffer without storage has capacity 0");
  else
    vf_assert(vf_block_size(b.data()) >= b.capacity() && vf_is_live(b.data()), "storage is one live block of capacity() bytes");
}

// Arbitrary buffer satisfying the invariant: with storage (any capacity, size,
// limit, contents) or without (any limit).  `f` sees it.
template <class B, class F>
void with_any(const char* who, F f) {
  std::size_t cap = vf_u64("cap"), size = vf_u64("size"), max = vf_u64("max");
  vf_assume(size <= cap && cap <= max && cap <= (std::size_t(1) << 61));
  const void* init = vf_bytes(size, "contents");
  if (vf_bool("stored")) {
    B b(cap, max);
    b.resize(size);
    std::memcpy(b.data(), init, size);
    rep_inv(b);
    f(b);
  } else {
    B src(cap, max);
    B b(std::move(src));
    rep_inv(src);
    f(src);
  }
}
#endif
