From 304fe87be5c395c0fec225a1a35aac67ba67c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 01/39] fix: linear_buffer::insert() within the capacity lost
 the bytes behind the insertion point

---
 include/asioext/impl/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 5153cf3..6492b11 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -88,8 +88,8 @@ void basic_linear_buffer<Allocator>::insert(std::size_t before_this,
                   size_ - before_this);
     });
   } else {
-    std::memmove(rep_.data_ + before_this,
-                 rep_.data_ + before_this + n,
+    std::memmove(rep_.data_ + before_this + n,
+                 rep_.data_ + before_this,
                  size_ - before_this);
     std::memcpy(rep_.data_ + before_this, data, n);
   }
-- 
2.43.0


From f47260bc4f54374415ff34274ad31bce2a147378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 02/39] fix: linear_buffer constructors accepted an initial
 size beyond the maximum size

---
 include/asioext/linear_buffer.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 89139b2..e99c2ec 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -17,9 +17,11 @@
 #include "asioext/error_code.hpp"
 #include "asioext/detail/buffer.hpp"
 #include "asioext/detail/cstdint.hpp"
+#include "asioext/detail/throw_exception.hpp"
 
 #include <memory>
 #include <limits>
+#include <stdexcept>
 #include <type_traits>
 
 ASIOEXT_NS_BEGIN
@@ -93,6 +95,8 @@ public:
   ///
   /// @param initial_size The initial size that the buffer starts with.
   /// @param maximum_size Specifies a maximum size for the buffer, in bytes.
+  ///
+  /// @throws std::length_error If <tt>initial_size > max_size()</tt>.
   basic_linear_buffer(std::size_t initial_size,
                         std::size_t maximum_size =
                             (std::numeric_limits<std::size_t>::max)())
@@ -102,6 +106,11 @@ public:
     , max_size_((std::min)(allocator_traits_type::max_size(rep_),
                            maximum_size))
   {
+    if (initial_size > max_size_) {
+      std::length_error ex("basic_linear_buffer too long");
+      detail::throw_exception(ex);
+    }
+
     rep_.data_ = allocator_traits_type::allocate(rep_, initial_size);
   }
 
@@ -110,6 +119,8 @@ public:
   /// @param a The allocator that shall be used to allocate the buffer's storage.
   /// @param initial_size The initial size that the buffer starts with.
   /// @param maximum_size Specifies a maximum size for the buffer, in bytes.
+  ///
+  /// @throws std::length_error If <tt>initial_size > max_size()</tt>.
   basic_linear_buffer(const Allocator& a, std::size_t initial_size,
                         std::size_t maximum_size =
                             (std::numeric_limits<std::size_t>::max)())
@@ -119,6 +130,11 @@ public:
     , max_size_((std::min)(allocator_traits_type::max_size(rep_),
                            maximum_size))
   {
+    if (initial_size > max_size_) {
+      std::length_error ex("basic_linear_buffer too long");
+      detail::throw_exception(ex);
+    }
+
     rep_.data_ = allocator_traits_type::allocate(rep_, initial_size);
   }
 
-- 
2.43.0


From 297e81991b478cc6989f6b9ef58008e2a24eb6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 03/39] fix: linear_buffer move assignment without allocator
 propagation never terminated or kept the source

---
 include/asioext/impl/linear_buffer.hpp | 28 +++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 6492b11..7cab15a 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -154,16 +154,26 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
 {
   if (static_cast<allocator_type&>(rep_) !=
       static_cast<allocator_type&>(other.rep_)) {
-    if (rep_.data_)
-      allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
-
-    capacity_ = other.capacity_;
-    size_ = other.size_;
-    rep_.data_ = allocator_traits_type::allocate(rep_, capacity_);
-    std::memcpy(rep_.data_, other.rep_.data_, size_);
-  } else {
-    move_assign(other, std::false_type());
+    uint8_t* new_buffer = nullptr;
+    if (other.rep_.data_) {
+      // Our allocator can't release other's memory.
+      new_buffer = allocator_traits_type::allocate(rep_, other.capacity_);
+      std::memcpy(new_buffer, other.rep_.data_, other.size_);
+      allocator_traits_type::deallocate(other.rep_, other.rep_.data_,
+                                        other.capacity_);
+      other.rep_.data_ = new_buffer;
+    }
   }
+
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+
+  rep_.data_ = other.rep_.data_;
+  capacity_ = other.capacity_;
+  size_ = other.size_;
+  max_size_ = other.max_size_;
+  other.rep_.data_ = nullptr;
+  other.capacity_ = other.size_ = 0;
 }
 
 template <typename Allocator>
-- 
2.43.0


From 23a3f801af295471dd5f50b331330ad891a0e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 04/39] fix: linear_buffer move assignment leaked the target's
 old memory

---
 include/asioext/impl/linear_buffer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 7cab15a..5631db2 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -47,6 +47,9 @@ template <typename Allocator>
 basic_linear_buffer<Allocator>& basic_linear_buffer<Allocator>::operator=(
     basic_linear_buffer&& other) ASIOEXT_NOEXCEPT
 {
+  if (this == &other)
+    return *this;
+
   move_assign(other, std::integral_constant<bool,
       allocator_traits_type::propagate_on_container_move_assignment::value>());
   return *this;
@@ -181,6 +184,9 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
                                                  std::true_type)
   ASIOEXT_NOEXCEPT_IF(std::is_nothrow_move_assignable<allocator_type>::value)
 {
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+
   static_cast<allocator_type&>(rep_) =
       std::move(static_cast<allocator_type&>(other.rep_));
   rep_.data_ = other.rep_.data_;
-- 
2.43.0


From 39caf0138d50f5399231b16effb500b8fa3a665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 05/39] fix: linear_buffer self copy assignment passed
 overlapping ranges to memcpy

---
 include/asioext/impl/linear_buffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 5631db2..2a91af6 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -29,6 +29,9 @@ template <typename Allocator>
 basic_linear_buffer<Allocator>& basic_linear_buffer<Allocator>::operator=(
     const basic_linear_buffer& other)
 {
+  if (this == &other)
+    return *this;
+
   const size_type n = other.size_;
   if (n > max_size_) {
     std::length_error ex("basic_linear_buffer too long");
-- 
2.43.0


From 0ce93a54aa928b1d28387f8d8e84804b327f4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 06/39] fix: linear_buffer passed a null pointer to the
 allocator's deallocate()

---
 include/asioext/impl/linear_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 2a91af6..cca5211 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -206,7 +206,8 @@ void basic_linear_buffer<Allocator>::reallocate(std::size_t cap, Function&& fn)
 {
   uint8_t* new_buffer = allocator_traits_type::allocate(rep_, cap);
   fn(new_buffer);
-  allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
   rep_.data_ = new_buffer;
   capacity_ = cap;
 }
-- 
2.43.0


From 7ccf7f0678f3c0b08e61ba1713759d6fcd03610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 07/39] fix: dynamic_linear_buffer::data() had a bogus length
 before the first prepare()

---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index e99c2ec..853e0cb 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -538,7 +538,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   mutable_buffers_type data() ASIOEXT_NOEXCEPT
   {
-    return mutable_buffers_type(data_.data(), size_);
+    return mutable_buffers_type(data_.data(), size());
   }
 
   /// Get a list of buffers that represents the input sequence.
@@ -551,7 +551,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   const_buffers_type data() const ASIOEXT_NOEXCEPT
   {
-    return const_buffers_type(data_.data(), size_);
+    return const_buffers_type(data_.data(), size());
   }
 #endif
 
-- 
2.43.0


From 8852d9f88b67894ecd1715c569568dec100c5cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 08/39] fix: dynamic_linear_buffer::data(pos, n) left the
 buffer if pos + n overflowed

---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 853e0cb..6cb7b8d 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -574,7 +574,7 @@ public:
     const std::size_t siz = data_.size();
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return mutable_buffers_type(data_.data() + pos, n);
   }
@@ -595,7 +595,7 @@ public:
     const std::size_t siz = data_.size();
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return const_buffers_type(data_.data() + pos, n);
   }
-- 
2.43.0


From b647f3c8f61a4a13f4a675aeab0dbbedb8d45017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 09/39] fix: dynamic_linear_buffer::grow()/shrink() after
 prepare() left size() stale and consume() out of bounds

---
 include/asioext/impl/linear_buffer.hpp | 4 ++++
 include/asioext/linear_buffer.hpp      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index cca5211..af61e01 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -263,6 +263,10 @@ void dynamic_linear_buffer<Allocator>::grow(std::size_t n)
     detail::throw_exception(ex);
   }
   data_.resize(siz + n);
+#if !defined(ASIOEXT_NO_DYNAMIC_BUFFER_V1)
+  if (size_ != (std::numeric_limits<std::size_t>::max)())
+    size_ = data_.size();
+#endif
 }
 
 ASIOEXT_NS_END
diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 6cb7b8d..689e8c8 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -677,6 +677,10 @@ public:
   {
     const std::size_t siz = size();
     data_.resize(siz - (std::min)(siz, n));
+#if !defined(ASIOEXT_NO_DYNAMIC_BUFFER_V1)
+    if (size_ != (std::numeric_limits<std::size_t>::max)())
+      size_ = data_.size();
+#endif
   }
 
   /// @brief Remove characters from the input sequence.
-- 
2.43.0


From bfdc43b8ed9c064c210be2ffbd081b06a99dd171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 10/39] fix: compose_time() refused times before the epoch

---
 include/asioext/detail/impl/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index ccd4d19..1ec1a35 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -161,7 +161,7 @@ bool compose_time(const FirstDuration& first, const SecondDuration& second,
       first.count() == values_type::min_first() - 1) {
     if (second.count() < values_type::min_second())
       return false;
-  } else if (first.count() < values_type::min_second()) {
+  } else if (first.count() < values_type::min_first()) {
     return false;
   }
 
-- 
2.43.0


From e1a361f5310d0e468954ff36ebfdf45a10f000bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 11/39] fix: safe_duration_cast() never refused overflowing
 conversions between unrelated periods

---
 include/asioext/detail/impl/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index 1ec1a35..1817eba 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -50,7 +50,7 @@ ASIOEXT_CONSTEXPR14 bool safe_duration_cast(
       return true;
     }
   } else {
-    if (in.count() < (conv_limit::min)() / result_ratio::num &&
+    if (in.count() < (conv_limit::min)() / result_ratio::num ||
         in.count() > (conv_limit::max)() / result_ratio::num)
       return false;
     const conv_type temp = static_cast<conv_type>(in.count()) *
-- 
2.43.0


From 2744443fbadde3dcb5f367e091950df211f1e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 12/39] fix: time_pair_values limits were truncated to the
 seconds' representation

---
 include/asioext/detail/impl/chrono.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index 1817eba..1fd2490 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -75,6 +75,10 @@ struct time_pair_values
     intmax_t
   >::type common_type;
 
+  // FirstDuration::rep might be too small for the limits of Duration.
+  typedef chrono::duration<common_type, typename FirstDuration::period>
+      wide_first;
+
   static ASIOEXT_CONSTEXPR typename FirstDuration::rep first_rep_min()
       ASIOEXT_NOEXCEPT
   { return (std::numeric_limits<typename FirstDuration::rep>::min)(); }
@@ -84,15 +88,15 @@ struct time_pair_values
   { return (std::numeric_limits<typename SecondDuration::rep>::min)(); }
 
   static ASIOEXT_CONSTEXPR common_type max_first() ASIOEXT_NOEXCEPT
-  { return chrono::duration_cast<FirstDuration>((Duration::max)()).count(); }
+  { return chrono::duration_cast<wide_first>((Duration::max)()).count(); }
 
   static ASIOEXT_CONSTEXPR common_type min_first() ASIOEXT_NOEXCEPT
-  { return chrono::duration_cast<FirstDuration>((Duration::min)()).count(); }
+  { return chrono::duration_cast<wide_first>((Duration::min)()).count(); }
 
   static ASIOEXT_CONSTEXPR common_type max_second() ASIOEXT_NOEXCEPT
   {
     return chrono::duration_cast<SecondDuration>(
-        (Duration::max)() - FirstDuration(max_first())).count();
+        (Duration::max)() - wide_first(max_first())).count();
   }
 
   static ASIOEXT_CONSTEXPR common_type min_second() ASIOEXT_NOEXCEPT
@@ -101,8 +105,8 @@ struct time_pair_values
     // so the smallest |second| we can accept for |min_f - 1| is
     // 1f + clock_min - min_f
     return chrono::duration_cast<SecondDuration>(
-        (Duration::min)() - FirstDuration(min_first()) +
-        FirstDuration(1)).count();
+        (Duration::min)() - wide_first(min_first()) +
+        wide_first(1)).count();
   }
 };
 
-- 
2.43.0


From 8afb602ab957e471a66257ea2afe3f3b27ca7800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 13/39] fix: open() passed the flags of invalid open_args to
 the system

---
 include/asioext/detail/impl/posix_file_ops.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 3a036df..11ccbb7 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -240,6 +240,11 @@ int parse_open_flags(open_flags flags) ASIOEXT_NOEXCEPT
 handle_type open(const char* path, const open_args& args,
                  error_code& ec) ASIOEXT_NOEXCEPT
 {
+  if (!args.is_valid()) {
+    set_error(ec, EINVAL);
+    return -1;
+  }
+
   mode_t mode = static_cast<mode_t>(args.mode());
   while (true) {
     handle_type fd = ::open(path, O_CLOEXEC | args.native_flags(), mode);
-- 
2.43.0


From f1fcaa5c4c21a9026a1f2e33b216440bc9ffd883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 14/39] fix: get_stdin(), get_stdout() and get_stderr() left a
 stale error code

---
 include/asioext/detail/impl/posix_file_ops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 11ccbb7..bfd1ab8 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -304,16 +304,19 @@ handle_type duplicate(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 
 handle_type get_stdin(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDIN_FILENO;
 }
 
 handle_type get_stdout(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDOUT_FILENO;
 }
 
 handle_type get_stderr(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDERR_FILENO;
 }
 
-- 
2.43.0


From 27e3d6d00a077c9c344d4e4711e07f6573c0b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 15/39] fix: unique_file_handle::reset() leaked the new handle
 if closing the old one failed

---
 include/asioext/impl/unique_file_handle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/unique_file_handle.cpp b/include/asioext/impl/unique_file_handle.cpp
index 2a53dae..3070ca3 100644
--- a/include/asioext/impl/unique_file_handle.cpp
+++ b/include/asioext/impl/unique_file_handle.cpp
@@ -67,9 +67,10 @@ void unique_file_handle::reset(file_handle handle)
 void unique_file_handle::reset(file_handle handle,
                                error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // The old handle is gone even if closing it reported an error and
+  // ownership of |handle| has already been transferred to us.
   close(ec);
-  if (!ec)
-    handle_ = handle;
+  handle_ = handle;
 }
 
 ASIOEXT_NS_END
-- 
2.43.0


From dd34b2f839bd2387e9f1fc57891010f34ba62875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 16/39] fix: SOCKS4a requests were encoded as SOCKS5 requests

---
 include/asioext/socks/detail/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 2677119..e7729ac 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -52,7 +52,7 @@ public:
 
     if (0 != size) {
       asio::mutable_buffer buf = buffer_.prepare(size);
-      encode_exec_packet(cmd, remote, remote_host, port,
+      encode_exec_packet(cmd, remote, remote_host, port, user_id,
                          static_cast<uint8_t*>(buf.data()));
       buffer_.commit(size);
     }
-- 
2.43.0


From 27faed54b2ded4eccf7bba2d42dfbd3c88b10f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 17/39] fix: SOCKS4a requests always asked for port 0

---
 include/asioext/socks/impl/client.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/asioext/socks/impl/client.hpp b/include/asioext/socks/impl/client.hpp
index ccc6d1b..28a3637 100644
--- a/include/asioext/socks/impl/client.hpp
+++ b/include/asioext/socks/impl/client.hpp
@@ -25,7 +25,8 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, remote, std::string(), 0, user_id, buffer),
+          socket, cmd, remote, std::string(), remote.port(), user_id,
+          buffer),
       handler, socket
   );
 }
@@ -40,7 +41,8 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, asio::ip::tcp::endpoint(), remote, 0, user_id, buffer),
+          socket, cmd, asio::ip::tcp::endpoint(), remote, port, user_id,
+          buffer),
       handler, socket
   );
 }
-- 
2.43.0


From c10c3c34b1abaf3c835a058b51ef76186d6c8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 18/39] fix: SOCKS replies with a general or unknown failure
 status were reported as success

---
 include/asioext/socks/detail/client.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index e7729ac..028318e 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -110,6 +110,7 @@ void v4_exec_op<Socket, DynamicBuffer>::operator()(
       case 0x5b: ec = error::generic; break;
       case 0x5c: ec = error::identd_not_reachable; break;
       case 0x5d: ec = error::login_failed; break;
+      default: ec = error::generic; break;
     }
 
     self.complete(ec);
@@ -358,6 +359,7 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
           case 6: ec = asio::error::timed_out; break;
           case 7: ec = error::command_not_supported; break;
           case 8: ec = asio::error::address_family_not_supported; break;
+          default: ec = error::generic; break;
         }
         self.complete(ec);
         return;
-- 
2.43.0


From 97ca304e221e08232d5f49f196b1eb34662536c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 19/39] fix: SOCKS5 replies with an unknown address type were
 read with an arbitrary length

---
 include/asioext/socks/detail/client.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 028318e..1f4f849 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -382,6 +382,10 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
         size = 16 - 1;
         break;
       }
+      default: {
+        self.complete(error::generic);
+        return;
+      }
     }
 
     ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size + 2),
-- 
2.43.0


From 146d9c617ea450994c132368570eb3b68b008c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 20/39] fix: url_view had no implementation in header-only mode

---
 include/asioext/url_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/url_view.hpp b/include/asioext/url_view.hpp
index 613c9dd..852f747 100644
--- a/include/asioext/url_view.hpp
+++ b/include/asioext/url_view.hpp
@@ -52,4 +52,8 @@ private:
 
 ASIOEXT_NS_END
 
+#if defined(ASIOEXT_HEADER_ONLY)
+# include "asioext/impl/url_view.cpp"
+#endif
+
 #endif
-- 
2.43.0


From 6ae8bf33492d3ca3635bd62bd0bb297ce7f59d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 21/39] fix: url_view kept components of a refused URL

---
 include/asioext/impl/url_view.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/url_view.cpp b/include/asioext/impl/url_view.cpp
index aaf24fe..b036b83 100644
--- a/include/asioext/impl/url_view.cpp
+++ b/include/asioext/impl/url_view.cpp
@@ -21,8 +21,10 @@ url_view::url_view(std::string_view s, error_code& ec)
   : spec_(s)
 {
   detail::parse_url(s.data(), s.data() + s.size(), url_, ec);
-  if (ec)
+  if (ec) {
     spec_ = std::string_view();
+    url_ = detail::parsed_url();
+  }
 }
 
 std::string_view url_view::port() const ASIOEXT_NOEXCEPT
-- 
2.43.0


From 57956f21719df2cc750701a6d85c7b4b56a9c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 22/39] fix: parse_url() lost the path of URLs like file:/

---
 include/asioext/detail/impl/url_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index d67c6c5..15b3426 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -457,6 +457,8 @@ void parse_url(const char* first, const char* last, parsed_url& out,
 
   if (current_part)
     *current_part = std::string_view(first, it - first);
+  else if (s == url_state::scheme_suffix_slash)
+    out.path = std::string_view(it - 1, 1); // "scheme:/" has the path "/"
 
   ec = error_code();
   if (!out.host.empty()) {
-- 
2.43.0


From ab4accd6a476262f9959637cb5e688146d628ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 23/39] fix: parse_url() accepted IPv6 literals without a
 closing bracket

---
 include/asioext/detail/impl/url_parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index 15b3426..a8deded 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -206,6 +206,7 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
 
   if (*first == '[') {
     auto start = first++; // include '['
+    bool is_terminated = false;
     for (bool is_zone_spec = false; first != last; ++first) {
       const char ch = *first;
 
@@ -229,6 +230,7 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
 
       if (ch == ']') {
         ++first;
+        is_terminated = true;
         break;
       }
 
@@ -237,6 +239,11 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
       return;
     }
 
+    if (!is_terminated) {
+      ec = make_error_code(url_error::invalid_character);
+      return;
+    }
+
     out.host = std::string_view(start, first - start);
   } else {
     auto start = first;
-- 
2.43.0


From f26ac9924baed138cfd22685a259123dba092056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:58 +0000
Subject: [PATCH 24/39] fix: read_file() ended the program when the container
 could not be resized

read_file(file_handle, RawByteContainer&, error_code&) was declared noexcept although resizing the container may throw, so running out of memory called std::terminate().
---
 include/asioext/impl/read_file.hpp | 2 +-
 include/asioext/read_file.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/read_file.hpp b/include/asioext/impl/read_file.hpp
index 0b572fa..bbff31f 100644
--- a/include/asioext/impl/read_file.hpp
+++ b/include/asioext/impl/read_file.hpp
@@ -100,7 +100,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
     read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT
+              error_code& ec)
 {
   const uint64_t size = file.size(ec);
   if (ec) return;
diff --git a/include/asioext/read_file.hpp b/include/asioext/read_file.hpp
index 1e00625..f443d7e 100644
--- a/include/asioext/read_file.hpp
+++ b/include/asioext/read_file.hpp
@@ -152,7 +152,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
     read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT;
+              error_code& ec);
 
 /// @}
 
-- 
2.43.0


From 1ab0a51fad69dd43b010d80bebefa086197ad600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 25/39] fix: unique_handler's converting assignment could not
 be instantiated

It bound an rvalue to storage_impl's Handler& parameter, and would have allocated
through the associated allocator of a reference type, and left a dangling pointer
behind if allocating failed. Construct the new handler first, then replace the old
one.
---
 include/asioext/unique_handler.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 07445ca..996a808 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -139,13 +139,7 @@ public:
   template <typename Handler>
   unique_handler& operator=(Handler&& handler)
   {
-    if (storage_)
-      storage_->abort(storage_);
-
-    storage_ = new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
-                                               Handler>(handler))
-        storage_impl<std::decay_t<Handler>>(std::move(handler));
-    return *this;
+    return *this = unique_handler(std::forward<Handler>(handler));
   }
 
   /// @brief Complete the stored handler.
-- 
2.43.0


From 668fa01006bdd0d990a6312e1fc7562792647285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:22 +0000
Subject: [PATCH 26/39] fix: assigning to a unique_handler destroyed the old
 handler while still owning it

If the destructor of the old handler used the unique_handler (e.g. reset it), the
handler was destroyed and its memory released twice.
---
 include/asioext/unique_handler.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 996a808..fe9fadf 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -119,11 +119,12 @@ public:
   /// constructed using the @c unique_handler() constructor.
   unique_handler& operator=(unique_handler&& other) ASIOEXT_NOEXCEPT
   {
-    if (storage_)
-      storage_->abort(storage_);
-
+    // Replace storage_ before destroying the handler: that may run user-code.
+    auto storage = storage_;
     storage_ = other.storage_;
     other.storage_ = nullptr;
+    if (storage)
+      storage->abort(storage);
     return *this;
   }
 
-- 
2.43.0


From 3b06789ebfa25c2e5796331ca9582e72afe5f526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 27/39] fix: bound handlers released their work before invoking
 the handler

bind_handler() and composed_operation::complete_to_bound_handler() promise to keep the
executors' work until after the handler has been invoked.
---
 include/asioext/detail/bound_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/bound_handler.hpp b/include/asioext/detail/bound_handler.hpp
index 3215d3e..e357a14 100644
--- a/include/asioext/detail/bound_handler.hpp
+++ b/include/asioext/detail/bound_handler.hpp
@@ -121,8 +121,8 @@ public:
     ASIOEXT_NOEXCEPT_IF(noexcept(asioext::detail::invoke(
           handler_, args_, args_indices_type{})))
   {
-    this->reset(); // defined in Work
     asioext::detail::invoke(handler_, args_, args_indices_type{});
+    this->reset(); // defined in Work
   }
 };
 
-- 
2.43.0


From 3ece0cf6fa8ce98eabae06606737d2e68166f60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:33 +0000
Subject: [PATCH 28/39] fix: cancellation_token_source::reset() cancelled the
 tokens of a source in use

The stored pointer is null in every state, so the check for a destroyed source was
always true. cancellation_token::cancelled() only reports calls to cancel().
---
 include/asioext/impl/cancellation_token.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/cancellation_token.cpp b/include/asioext/impl/cancellation_token.cpp
index 250ea19..98b3552 100644
--- a/include/asioext/impl/cancellation_token.cpp
+++ b/include/asioext/impl/cancellation_token.cpp
@@ -55,7 +55,8 @@ void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
 
 void cancellation_token_source::reset()
 {
-  if (!ptr_)
+  // The pointer itself is always null, only its ownership tells the states apart.
+  if (ptr_.use_count() == 0)
     ptr_.reset(static_cast<void*>(0), detail::null_deleter());
 }
 
-- 
2.43.0


From 296998da7dd09a766805e93c67d4520973551315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 29/39] fix: destroying a file whose handle cannot be closed
 ended the program

---
 include/asioext/impl/thread_pool_file_service.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 0906740..92b0c5c 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -266,7 +266,8 @@ void thread_pool_file_service::close_for_destruction(implementation_type& impl)
   if (impl.handle_.is_open()) {
     // TODO(tim): log handler operation
     impl.cancel_token_.destroy();
-    impl.handle_.close();
+    error_code ignored_ec;
+    impl.handle_.close(ignored_ec);
   }
 }
 
-- 
2.43.0


From 7d8e429a9a2360e37d3a7f0f898c8f0305501b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 30/39] fix: moving a file left a file whose later operations
 were all aborted

---
 include/asioext/impl/thread_pool_file_service.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 92b0c5c..c90dbf2 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -8,6 +8,8 @@
 
 #include "asioext/detail/error.hpp"
 
+#include <utility>
+
 ASIOEXT_NS_BEGIN
 
 thread_pool_file_service::thread_pool_file_service(
@@ -48,8 +50,8 @@ void thread_pool_file_service::move_construct(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
-  impl.cancel_token_ =
-      ASIOEXT_MOVE_CAST(cancellation_token_source)(other_impl.cancel_token_);
+  // The moved-from implementation must remain usable, so leave it a new token.
+  std::swap(impl.cancel_token_, other_impl.cancel_token_);
 
   // Insert implementation into linked list of all implementations.
   detail::mutex::scoped_lock lock(mutex_);
@@ -65,6 +67,7 @@ void thread_pool_file_service::move_assign(
     implementation_type& other_impl)
 {
   close_for_destruction(impl);
+  impl.cancel_token_.reset();
 
   if (this != &other_service) {
     // Remove implementation from linked list of all implementations.
@@ -82,6 +85,9 @@ void thread_pool_file_service::move_assign(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
+  // Operations in progress follow the file, so that they can still be cancelled.
+  std::swap(impl.cancel_token_, other_impl.cancel_token_);
+
   if (this != &other_service) {
     // Insert implementation into linked list of all implementations.
     detail::mutex::scoped_lock lock(other_service.mutex_);
-- 
2.43.0


From 84549204bb906c64d123596bdf5a11a56e0d610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 31/39] fix: thread_pool_file_service::cancel() left a stale
 error code

---
 include/asioext/impl/thread_pool_file_service.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index c90dbf2..d4fdf0e 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -264,6 +264,7 @@ void thread_pool_file_service::cancel(implementation_type& impl,
   }
 
   impl.cancel_token_.cancel();
+  ec = error_code();
   // TODO(tim): log handler operation
 }
 
-- 
2.43.0


From 7a8b70b795a57ad047ea464e838b57fdbcbecbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 32/39] fix: move assignment of a basic_file could not be
 instantiated

---
 include/asioext/io_object_holder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/io_object_holder.hpp b/include/asioext/io_object_holder.hpp
index 9a2d25f..d7e622b 100644
--- a/include/asioext/io_object_holder.hpp
+++ b/include/asioext/io_object_holder.hpp
@@ -107,6 +107,7 @@ public:
   // Move-assign an I/O object.
   io_object_holder& operator=(io_object_holder&& other)
       noexcept(noexcept(std::declval<IoObjectService>().move_assign(std::declval<implementation_type&>(),
+                                                                    std::declval<IoObjectService&>(),
                                                                     std::declval<implementation_type&>())))
   {
     if (this != &other)
-- 
2.43.0


From af54cb9ca943e7d41d5021a819af4cd3bfc3a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 33/39] fix: basic_file's constructors from a native handle
 could not be instantiated

---
 include/asioext/basic_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/basic_file.hpp b/include/asioext/basic_file.hpp
index f139c04..742377d 100644
--- a/include/asioext/basic_file.hpp
+++ b/include/asioext/basic_file.hpp
@@ -149,7 +149,7 @@ public:
     : holder_(ex)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
@@ -168,7 +168,7 @@ public:
     : holder_(context)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
-- 
2.43.0


From bf590d4e95d3c779a7425ea4f7808d2a2c6bed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 34/39] fix: operations queued when their file was closed were
 run on a stale descriptor

---
 include/asioext/impl/thread_pool_file_service.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index d4fdf0e..8f7b9d1 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -172,6 +172,9 @@ void thread_pool_file_service::assign(implementation_type& impl,
 void thread_pool_file_service::close(implementation_type& impl,
                                      error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // Operations that have not started yet must not use the descriptor any more,
+  // it might already belong to another file.
+  impl.cancel_token_.cancel();
   impl.handle_.close(ec);
 }
 
-- 
2.43.0


From 73306ee794d3ec99fc8cf5e470aa81ca54562219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 35/39] fix: handlers passed as lvalues were moved from

---
 include/asioext/compose.hpp                       | 12 ++++++------
 include/asioext/impl/thread_pool_file_service.hpp |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/asioext/compose.hpp b/include/asioext/compose.hpp
index 70dc95b..ad052ff 100644
--- a/include/asioext/compose.hpp
+++ b/include/asioext/compose.hpp
@@ -80,9 +80,9 @@ struct initiate_composed_op
       typename std::decay<Handler>::type,
       typename std::decay<Impl>::type,
       typename std::decay<Work>::type
-    >(std::move(handler),
-      std::move(impl),
-      std::move(work))();
+    >(std::forward<Handler>(handler),
+      std::forward<Impl>(impl),
+      std::forward<Work>(work))();
   }
 };
 
@@ -97,9 +97,9 @@ composed_operation<
     typename std::decay<Handler>::type,
     typename std::decay<Impl>::type,
     typename std::decay<Work>::type
-  >(std::move(handler),
-    std::move(impl),
-    std::move(work));
+  >(std::forward<Handler>(handler),
+    std::forward<Impl>(impl),
+    std::forward<Work>(work));
 }
 
 template <typename IoObject, typename = typename std::enable_if<
diff --git a/include/asioext/impl/thread_pool_file_service.hpp b/include/asioext/impl/thread_pool_file_service.hpp
index bdfa471..6b974f4 100644
--- a/include/asioext/impl/thread_pool_file_service.hpp
+++ b/include/asioext/impl/thread_pool_file_service.hpp
@@ -69,7 +69,7 @@ struct thread_pool_fs_init
     auto ex = get_associated_executor(handler, svc->get_io_context().get_executor());
     auto op = make_composed_operation(
         thread_pool_fs_op<Implementation>(source, impl, svc),
-        std::move(handler), ex);
+        std::forward<Handler>(handler), ex);
 
     asio::post(asio::bind_executor(svc->get_thread_pool(), std::move(op)));
   }
-- 
2.43.0


From 3c55dd1caa4de61b1982951fe718c720f71029dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:13 +0000
Subject: [PATCH 36/39] fix: handlers queued at shutdown were destroyed after
 the services they may refer to

---
 include/asioext/impl/thread_pool_file_service.cpp | 14 ++++++++++----
 include/asioext/thread_pool_file_service.hpp      | 15 ++++++++++++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 8f7b9d1..7dfb9ea 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -22,12 +22,18 @@ thread_pool_file_service::thread_pool_file_service(
 
 void thread_pool_file_service::shutdown_service()
 {
-  // Close all implementations, causing all operations to complete.
-  detail::mutex::scoped_lock lock(mutex_);
-  for (implementation_type* cur = impl_list_; cur; cur = cur->next_)
-    close_for_destruction(*cur);
+  {
+    // Close all implementations, causing all operations to complete.
+    detail::mutex::scoped_lock lock(mutex_);
+    for (implementation_type* cur = impl_list_; cur; cur = cur->next_)
+      close_for_destruction(*cur);
+  }
 
+  // Wait for the running operations and destroy the handlers of all others now:
+  // they might own objects that refer to this or other services.
   pool_.stop();
+  pool_.join();
+  pool_.shutdown();
 }
 
 void thread_pool_file_service::construct(implementation_type& impl)
diff --git a/include/asioext/thread_pool_file_service.hpp b/include/asioext/thread_pool_file_service.hpp
index 817d32f..2e5828b 100644
--- a/include/asioext/thread_pool_file_service.hpp
+++ b/include/asioext/thread_pool_file_service.hpp
@@ -294,8 +294,21 @@ private:
   // destroyed.
   ASIOEXT_DECL void close_for_destruction(implementation_type& impl);
 
+  // A thread pool whose queued handlers can be destroyed early.
+  class thread_pool : public asio::thread_pool
+  {
+  public:
+    explicit thread_pool(std::size_t num_threads)
+      : asio::thread_pool(num_threads)
+    {
+      // ctor
+    }
+
+    using asio::thread_pool::shutdown;
+  };
+
   // The thread pool.
-  asio::thread_pool pool_;
+  thread_pool pool_;
 
   // Mutex to protect access to the linked list of implementations.
   detail::mutex mutex_;
-- 
2.43.0


From 1ff955dc991386c983909dc41434384f35a705b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:58 +0000
Subject: [PATCH 37/39] fix: connect reports not_found if the name has no
 endpoints

The documentation of both overloads (and async_connect, by way of
asio::async_connect) promises asio::error::not_found for an empty
sequence; host_not_found was reported instead.
---
 include/asioext/impl/connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/impl/connect.cpp b/include/asioext/impl/connect.cpp
index 387eb97..f69f599 100644
--- a/include/asioext/impl/connect.cpp
+++ b/include/asioext/impl/connect.cpp
@@ -33,7 +33,7 @@ void connect(asio::ip::tcp::socket::lowest_layer_type& socket,
     return;
 
   // Try each endpoint until we successfully establish a connection.
-  ec = asio::error::host_not_found;
+  ec = asio::error::not_found;
   for (const auto& entry : results) {
     socket.close(ec);
     socket.connect(entry, ec);
-- 
2.43.0


From 53259bf2b771f024990fbf70498461220fdc0891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:35 +0000
Subject: [PATCH 38/39] fix: buffered_stream could not be compiled with
 standalone asio

lock_write_buffers() named boost::system::error_code instead of error_code.
---
 include/asioext/experimental/buffered_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 5fc9ea8..d637651 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -325,7 +325,7 @@ buffered_stream<Stream, Allocator>::async_fill(ReadHandler&& handler)
 
 template <typename Stream, typename Allocator>
 typename buffered_stream<Stream, Allocator>::buffer_type*
-buffered_stream<Stream, Allocator>::lock_write_buffers(boost::system::error_code& ec)
+buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
 {
   if (flush_pending_) {
     ec = asio::error::already_started;
-- 
2.43.0


From 27628a739abc886b00a6e82cfd2819fab04ce2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:35 +0000
Subject: [PATCH 39/39] fix: buffered_stream::flush() with a stale error code
 left the stream locked

The write buffers were locked without clearing ec, so that flush() returned
without having written anything, and every later flush was refused with
already_started.
---
 include/asioext/experimental/buffered_stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index d637651..3964eae 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -342,6 +342,7 @@ buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
     }
   }
 
+  ec = error_code();
   flush_pending_ = true;
   return &write_buffer_locked_;
 }
-- 
2.43.0

