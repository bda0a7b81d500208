seed('A01-capacity-over-limit', 'A01', [('linear_buffer.hpp', '(capacity_ * 2) < max_size_ ? (std::max)(n, capacity_ * 2) : max_size_;', '(std::max)(n, (std::min)(capacity_, max_size_) * 2);')],
     'growing a buffer whose doubled capacity lies beyond its maximum size', 'the capacity exceeds the maximum size', r'''
#include "asioext/linear_buffer.hpp"
int main() {
  asioext::linear_buffer b(6, 10);
  b.append("ab", 2);
  CHECK(b.size() == 8 && b.capacity() <= b.max_size());
}''')
seed('A01-erase-last', 'A01', [('impl/linear_buffer.hpp', 'std::memmove(rep_.data_ + first, rep_.data_ + last, size_ - first - n);', 'if (n < size_ - last)\n    std::memmove(rep_.data_ + first, rep_.data_ + last, size_ - first - n);\n  else\n    std::memcpy(rep_.data_ + first, rep_.data_ + last, (std::min)(n, size_ - last) & ~std::size_t(1));')],
     'erasing a range followed by an odd number of bytes no longer than the range', 'the last byte behind the erased range is lost', r'''
#include "asioext/linear_buffer.hpp"
int main() {
  asioext::linear_buffer b;
  b.append("abcdefgh", 8);
  b.erase(std::size_t(1), std::size_t(5));
  CHECK(b.size() == 4 && !std::memcmp(b.data(), "afgh", 4));
}''')
seed('A01-reserve-moves', 'A01', [('impl/linear_buffer.hpp', '''  if (min_cap > capacity_) {
    reallocate(min_cap''', '''  if (min_cap >= capacity_) {
    reallocate(min_cap''')],
     'reserving exactly the current capacity', 'storage moves although the request fits the capacity: pointers and views dangle', r'''
#include "asioext/linear_buffer.hpp"
int main() {
  asioext::linear_buffer b(64);
  uint8_t* p = b.data();
  b.reserve(64);
  CHECK(b.data() == p);
}''')
seed('A02-dealloc-size', 'A02', [('impl/linear_buffer.hpp', '''  fn(new_buffer);
  if (rep_.data_)
    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
  rep_.data_ = new_buffer;
  capacity_ = cap;
''', '''  fn(new_buffer);
  std::swap(capacity_, cap);
  if (rep_.data_)
    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
  rep_.data_ = new_buffer;
''')],
     'an allocator that looks at the size given back', 'storage is returned with the size of the new block instead of its own', r'''
#include "asioext/linear_buffer.hpp"
#include <map>
std::map<void*, std::size_t> m;
template <class T> struct A { typedef T value_type; A() {} template <class U> A(const A<U>&) {}
  T* allocate(std::size_t n) { T* p = (T*)std::malloc(n + 1); m[p] = n; return p; }
  void deallocate(T* p, std::size_t n) { CHECK(m.count(p) && m[p] == n); m.erase(p); std::free(p); }
  bool operator==(const A&) const { return true; } bool operator!=(const A&) const { return false; } };
int main() {
  { asioext::basic_linear_buffer<A<uint8_t>> b; for (int i = 0; i < 100; ++i) b.append("abc", 3); CHECK(b.size() == 300); }
  CHECK(m.empty());
}''')
seed('A02-assign-size-first', 'A02', [('impl/linear_buffer.hpp', '''  if (n > capacity_)
    reallocate(calculate_capacity(n), [this] (uint8_t* new_buffer) {});

  std::memcpy(rep_.data_, other.rep_.data_, n);
  size_ = n;
''', '''  size_ = n;
  if (size_ > capacity_)
    reallocate(calculate_capacity(size_), [this] (uint8_t* new_buffer) {});

  std::memcpy(rep_.data_, other.rep_.data_, size_);
''')],
     'copy assignment of a longer buffer while the allocation fails', 'the failed assignment leaves a size beyond the storage: reads run past the end', r'''
#include "asioext/linear_buffer.hpp"
#include <new>
bool fail = false;
template <class T> struct A { typedef T value_type; A() {} template <class U> A(const A<U>&) {}
  T* allocate(std::size_t n) { if (fail) throw std::bad_alloc(); return (T*)std::malloc(n + 1); }
  void deallocate(T* p, std::size_t) { std::free(p); }
  bool operator==(const A&) const { return true; } bool operator!=(const A&) const { return false; } };
int main() {
  asioext::basic_linear_buffer<A<uint8_t>> a, b; a.append("abc", 3); b.append("0123456789", 10);
  fail = true;
  try { a = b; CHECK(false); } catch (std::bad_alloc&) {}
  CHECK(a.size() == 3 && a.size() <= a.capacity() && !std::memcmp(a.data(), "abc", 3));
}''')
seed('A03-commit-all', 'A03', [('linear_buffer.hpp', '''    size_ += (std::min)(n, data_.size() - size_);
    data_.resize(size_);''', '''    if (n < data_.size() - size_)
      data_.resize(size_ + n);
    size_ = (std::min)(size_ + n, max_size_);''')],
     'committing more than was prepared, which the protocol allows', 'the input sequence grows beyond the prepared bytes', r'''
#include "asioext/linear_buffer.hpp"
int main() {
  asioext::linear_buffer b; asioext::dynamic_linear_buffer<std::allocator<uint8_t>> d(b);
  auto m = d.prepare(4); std::memcpy(m.data(), "abcd", 4);
  d.commit(9);
  CHECK(d.size() == 4 && b.size() == 4);
}''')
seed('A03-consume-pending', 'A03', [('linear_buffer.hpp', 'const std::size_t consume_length = (std::min)(n, size_);', 'const std::size_t consume_length = (std::min)(n, data_.size());')],
     'consuming more than the input sequence holds while an output sequence is pending', 'bytes of the output sequence are consumed and the size wraps around', r'''
#include "asioext/linear_buffer.hpp"
int main() {
  asioext::linear_buffer b; b.append("ab", 2);
  asioext::dynamic_linear_buffer<std::allocator<uint8_t>> d(b);
  auto m = d.prepare(4); std::memcpy(m.data(), "wxyz", 4);
  d.consume(3);
  CHECK(d.size() == 0);
  d.commit(4);
  CHECK(d.size() == 4 && !std::memcmp(b.data(), "wxyz", 4));
}''')
