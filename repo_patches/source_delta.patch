From 1715e35450e475bf741ac3aa5e6fb903c7c9e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:42 +0000
Subject: [PATCH 01/66] fix: two's complement cast of negative value between
 unsigned types narrower than int

---
 src/archon/core/integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/integer.hpp b/src/archon/core/integer.hpp
index 7418368..84a28e0 100644
--- a/src/archon/core/integer.hpp
+++ b/src/archon/core/integer.hpp
@@ -1478,7 +1478,7 @@ template<class T, class F> constexpr bool can_twos_compl_cast(F val) noexcept
         else {
             static_assert(width_t < width_f);
             auto sign_bit = core::promote(val) & (core::promote(F(1)) << (width_t - 1));
-            auto expected_sign_extension = ~((sign_bit << 1) - 1);
+            auto expected_sign_extension = core::promote(F(-1)) & ~((sign_bit << 1) - 1);
             auto actual_sign_extension = core::promote(val) & (core::promote(F(-1)) << width_t);
             return (actual_sign_extension == expected_sign_extension);
         }
@@ -1503,7 +1503,7 @@ template<class T, class F> constexpr bool try_twos_compl_cast(F from, T& to) noe
         else {
             static_assert(width_t < width_f);
             auto sign_bit = core::promote(from) & (core::promote(F(1)) << (width_t - 1));
-            auto expected_sign_extension = ~((sign_bit << 1) - 1);
+            auto expected_sign_extension = core::promote(F(-1)) & ~((sign_bit << 1) - 1);
             auto actual_sign_extension = core::promote(from) & (core::promote(F(-1)) << width_t);
             if (ARCHON_LIKELY(actual_sign_extension == expected_sign_extension)) {
                 to = T(from);
-- 
2.43.0


From d5251aa9f6a92045ec1bd4dfda4ed8076a48c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:32 +0000
Subject: [PATCH 02/66] fix: comparison of large floating-point values with
 integers

---
 src/archon/core/float.hpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/archon/core/float.hpp b/src/archon/core/float.hpp
index d068c78..9bf518f 100644
--- a/src/archon/core/float.hpp
+++ b/src/archon/core/float.hpp
@@ -290,9 +290,11 @@ template<class F, class I> inline bool float_less_int(F float_val, I int_val) no
 {
     if (ARCHON_UNLIKELY(float_val < F(0))) {
         if constexpr (core::is_signed<I>()) {
-            using float_traits_type = core::FloatTraits<F>;
-            F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-            return (float_val < core::min_float_for_int<F, I>() || core::float_to_int_a<I>(float_val_2) <= int_val);
+            if (ARCHON_LIKELY(float_val >= (core::min_float_for_int<F, I>()))) {
+                I int_val_2 = core::float_to_int_a<I>(float_val);
+                return (int_val_2 < int_val || (int_val_2 == int_val && float_val < std::trunc(float_val)));
+            }
+            return true;
         }
         return (float_val < F(0)); // Catch NaN
     }
@@ -303,9 +305,11 @@ template<class F, class I> inline bool float_less_int(F float_val, I int_val) no
 template<class F, class I> inline bool float_greater_int(F float_val, I int_val) noexcept
 {
     if (ARCHON_LIKELY(float_val > F(0))) {
-        using float_traits_type = core::FloatTraits<F>;
-        F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-        return (float_val > core::max_float_for_int<F, I>() || core::float_to_int_a<I>(float_val_2) >= int_val);
+        if (ARCHON_LIKELY(float_val <= (core::max_float_for_int<F, I>()))) {
+            I int_val_2 = core::float_to_int_a<I>(float_val);
+            return (int_val_2 > int_val || (int_val_2 == int_val && float_val > std::trunc(float_val)));
+        }
+        return true;
     }
     if constexpr (core::is_signed<I>()) {
         return (float_val >= core::min_float_for_int<F, I>() && core::float_to_int_a<I>(float_val) > int_val);
@@ -322,9 +326,11 @@ template<class F, class I> inline bool float_less_equal_int(F float_val, I int_v
         }
         return (float_val <= F(0)); // Catch NaN
     }
-    using float_traits_type = core::FloatTraits<F>;
-    F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-    return (float_val <= core::max_float_for_int<F, I>() && core::float_to_int_a<I>(float_val_2) < int_val);
+    if (ARCHON_LIKELY(float_val <= (core::max_float_for_int<F, I>()))) {
+        I int_val_2 = core::float_to_int_a<I>(float_val);
+        return (int_val_2 < int_val || (int_val_2 == int_val && float_val == std::trunc(float_val)));
+    }
+    return false; // Catch NaN
 }
 
 
@@ -333,9 +339,11 @@ template<class F, class I> inline bool float_greater_equal_int(F float_val, I in
     if (ARCHON_LIKELY(float_val >= F(0)))
         return (float_val > core::max_float_for_int<F, I>() || core::float_to_int_a<I>(float_val) >= int_val);
     if constexpr (core::is_signed<I>()) {
-        using float_traits_type = core::FloatTraits<F>;
-        F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-        return (float_val >= core::min_float_for_int<F, I>() && core::float_to_int_a<I>(float_val_2) > int_val);
+        if (ARCHON_LIKELY(float_val >= (core::min_float_for_int<F, I>()))) {
+            I int_val_2 = core::float_to_int_a<I>(float_val);
+            return (int_val_2 > int_val || (int_val_2 == int_val && float_val == std::trunc(float_val)));
+        }
+        return false; // Catch NaN
     }
     return (float_val >= F(0)); // Catch NaN
 }
-- 
2.43.0


From 9095b66e772c744a43d9bbf4a31e6162327c58ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:43 +0000
Subject: [PATCH 03/66] fix: exception thrown by managed thread lost or written
 to dead object when thread guard is moved

---
 src/archon/core/thread_guard.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/archon/core/thread_guard.hpp b/src/archon/core/thread_guard.hpp
index a94b846..17f63bb 100644
--- a/src/archon/core/thread_guard.hpp
+++ b/src/archon/core/thread_guard.hpp
@@ -25,6 +25,7 @@
 
 
 #include <exception>
+#include <memory>
 #include <utility>
 #include <string>
 
@@ -128,7 +129,10 @@ public:
 
 private:
     std::thread m_thread;
-    std::exception_ptr m_exception;
+
+    // Allocated separately such that its address is unaffected by moving of the thread
+    // guard object while the thread is executing.
+    std::unique_ptr<std::exception_ptr> m_exception;
 };
 
 
@@ -189,7 +193,8 @@ template<class F> inline ThreadGuard::ThreadGuard(F&& func)
 
 template<class F> inline ThreadGuard::ThreadGuard(F&& func, Config config)
 {
-    auto run = [this, thread_name = std::move(config.thread_name),
+    m_exception = std::make_unique<std::exception_ptr>(); // Throws
+    auto run = [&exception = *m_exception, thread_name = std::move(config.thread_name),
                 func = std::move(func)]() noexcept {
         try {
             if (thread_name.has_value())
@@ -197,7 +202,7 @@ template<class F> inline ThreadGuard::ThreadGuard(F&& func, Config config)
             func(); // Throws
         }
         catch (...) {
-            m_exception = std::current_exception();
+            exception = std::current_exception();
         }
     };
     if (config.block_signals) {
@@ -220,8 +225,9 @@ inline void ThreadGuard::join()
 inline void ThreadGuard::join_and_rethrow()
 {
     join(); // Throws
-    if (m_exception) {
-        std::exception_ptr exception = std::move(m_exception);
+    if (m_exception && *m_exception) {
+        std::exception_ptr exception = std::move(*m_exception);
+        *m_exception = nullptr;
         std::rethrow_exception(exception); // Throws
     }
 }
-- 
2.43.0


From cc62b897554d5f1a03ebac1e61f8cbb283b37e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:43 +0000
Subject: [PATCH 04/66] fix: test runner lost results of concurrent phase when
 nonconcurrent tests were executed by same thread

Also avoid finalizing a thread context twice when there are no nonconcurrent tests.
---
 src/archon/check/noinst/thread_context_impl.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index 27d96bf..9417acd 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -79,7 +79,13 @@ void ThreadContextImpl::run()
 
 void ThreadContextImpl::nonconcur_run()
 {
-    clear_counters();
+    // If this is not the thread that was left responsible for the nonconcurrent executions,
+    // this thread context has already been finalized by run().
+    if (m_root_context.last_thread_to_end != thread_index)
+        return;
+
+    // The counters must not be cleared here, because this thread context has not been
+    // finalized yet, so they carry the results of the concurrent executions.
 
     std::unique_lock lock(m_root_context.mutex); // Throws
 
-- 
2.43.0


From 6041d2f4f776348185e0d194ba8407bfbb531c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:40 +0000
Subject: [PATCH 05/66] fix: self-assignment and wrapped-around erasure in
 Deque

Self copy assignment lost the contents. Erasing a range when the contents wrap around the end of the buffer moved too many elements when the erased range was entirely in one of the two chunks.
---
 src/archon/core/deque.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index 23fe267..02e8e09 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -515,8 +515,10 @@ inline Deque<T>::~Deque() noexcept
 template<class T>
 inline auto Deque<T>::operator=(const Deque& other) -> Deque&
 {
-    clear();
-    append(other.begin(), other.end()); // Throws
+    if (ARCHON_LIKELY(&other != this)) {
+        clear();
+        append(other.begin(), other.end()); // Throws
+    }
     return *this;
 }
 
@@ -1191,8 +1193,8 @@ void Deque<T>::erase_near_front(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type n = std::min(after, begin);
-            begin_2 = begin - n;
+            size_type n = std::min(after, begin_2);
+            begin_2 -= n;
             core::uninit_safe_move(base + m_offset + begin_2, n, base + (after - n));
         }
     }
@@ -1237,7 +1239,7 @@ void Deque<T>::erase_near_back(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type remain = size_type(m_size - end);
+            size_type remain = size_type(m_size - end_2);
             size_type n = std::min(before, remain);
             core::uninit_safe_move(base + after, n, base + m_offset + (top - before));
             end_2 += n;
-- 
2.43.0


From 19c350eeaf03f735a30aa383ae15c79109b2f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:40 +0000
Subject: [PATCH 06/66] fix: Vector::resize() wrote past the end and
 Vector::reserve() reserved too much

---
 src/archon/core/impl/vector_impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/impl/vector_impl.hpp b/src/archon/core/impl/vector_impl.hpp
index debd31f..cbf2140 100644
--- a/src/archon/core/impl/vector_impl.hpp
+++ b/src/archon/core/impl/vector_impl.hpp
@@ -185,7 +185,7 @@ inline void VectorImpl<T>::reserve(std::size_t min_capacity)
 {
     if (ARCHON_LIKELY(min_capacity <= m_capacity))
         return;
-    do_reserve_extra(min_capacity); // Throws
+    do_reserve(min_capacity); // Throws
 }
 
 
@@ -289,7 +289,7 @@ void VectorImpl<T>::resize(std::size_t size)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, data() + m_size);
+        core::uninit_safe_fill(size - m_size, data() + m_size); // Throws
     }
     m_size = size;
 }
@@ -303,7 +303,7 @@ void VectorImpl<T>::resize(std::size_t size, const T& value)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, value, data() + m_size);
+        core::uninit_safe_fill(size - m_size, value, data() + m_size); // Throws
     }
     m_size = size;
 }
-- 
2.43.0


From 216defbd637e0415a0fe5108ce34b876c10000e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:57 +0000
Subject: [PATCH 07/66] fix: Buffer::at() accepted index equal to size, and
 Buffer::reserve_f() terminated when the function threw

---
 src/archon/core/buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/buffer.hpp b/src/archon/core/buffer.hpp
index a514e3a..7d6035a 100644
--- a/src/archon/core/buffer.hpp
+++ b/src/archon/core/buffer.hpp
@@ -597,7 +597,7 @@ template<class T>
 template<class F> inline void Buffer<T>::reserve_f(std::size_t min_size, std::size_t used_size, F&& func,
                                                    std::size_t max_size)
 {
-    reserve_a(min_size, [&](span_type new_mem) noexcept {
+    reserve_a(min_size, [&](span_type new_mem) {
         func(new_mem); // Throws
         std::copy_n(data(), used_size, new_mem.data()); // Throws
     }, max_size); // Throws
@@ -697,7 +697,7 @@ void Buffer<T>::prepend_a(T val, std::size_t& offset, std::size_t n)
 template<class T>
 inline void Buffer<T>::verify_index(std::size_t i) const
 {
-    if (ARCHON_LIKELY(i <= size()))
+    if (ARCHON_LIKELY(i < size()))
         return;
     throw std::out_of_range("Buffer element index");
 }
-- 
2.43.0


From c3ae0e1d5a8bef48228be6009ea6f8f78ae3a4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:04 +0000
Subject: [PATCH 08/66] fix: replacement characters misplaced by lenient
 Unicode conversion functions

---
 src/archon/core/unicode.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/archon/core/unicode.hpp b/src/archon/core/unicode.hpp
index 87a6c2e..08173ce 100644
--- a/src/archon/core/unicode.hpp
+++ b/src/archon/core/unicode.hpp
@@ -1392,7 +1392,7 @@ void encode_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::siz
             traits_type::to_char_type(0xBF),
             traits_type::to_char_type(0xBD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1449,7 +1449,7 @@ void decode_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::siz
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1502,7 +1502,7 @@ void encode_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::si
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1559,7 +1559,7 @@ void decode_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::si
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1613,7 +1613,7 @@ void utf8_to_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::s
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1669,7 +1669,7 @@ void utf16_to_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::s
             traits_type::to_char_type(0xBF),
             traits_type::to_char_type(0xBD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
-- 
2.43.0


From 559956251968ff22cf9909faa337620eddb32991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:04 +0000
Subject: [PATCH 09/66] fix: UTF-8 to native transcoder asserted on unencodable
 characters and small buffers, and ignored buffer offset

---
 src/archon/core/unicode_bridge.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/archon/core/unicode_bridge.cpp b/src/archon/core/unicode_bridge.cpp
index 28fc774..5ec6e74 100644
--- a/src/archon/core/unicode_bridge.cpp
+++ b/src/archon/core/unicode_bridge.cpp
@@ -147,9 +147,11 @@ void utf8_to_native_mb_transcoder::transcode_l(core::StringSpan<char> string, co
     std::array<wchar_t, 64> buffer_2;
     std::size_t string_offset = 0;
     std::size_t string_size = string.size();
-    core::WideCharCodec codec(m_locale); // Throws
+    core::WideCharCodec::Config config;
+    config.lenient = true; // Automatically produce replacement characters for invalid input
+    core::WideCharCodec codec(m_locale, config); // Throws
     std::mbstate_t state = {};
-    std::size_t buffer_offset_3 = 0;
+    std::size_t buffer_offset_3 = buffer_offset;
     while (string_offset < string_size) {
         std::size_t buffer_offset_2 = 0;
         for (;;) {
@@ -169,9 +171,15 @@ void utf8_to_native_mb_transcoder::transcode_l(core::StringSpan<char> string, co
         std::wstring_view string_2 = { buffer_2.data(), buffer_offset_2 }; // Throws
         if (ARCHON_LIKELY(m_is_unicode_locale && !force_fallback)) {
             std::size_t string_offset_2 = 0;
-            bool error_2 = {};
-            bool complete = codec.encode(state, string_2, string_offset_2, buffer, buffer_offset_3, error_2); // Throws
-            ARCHON_ASSERT(complete);
+            for (;;) {
+                bool error_2 = {};
+                bool complete = codec.encode(state, string_2, string_offset_2, buffer, buffer_offset_3,
+                                             error_2); // Throws
+                if (ARCHON_LIKELY(complete))
+                    break;
+                ARCHON_ASSERT(!error_2); // Because lenient mode is used
+                buffer.expand(buffer_offset_3); // Throws
+            }
             ARCHON_ASSERT(string_offset_2 == string_2.size());
         }
         else {
-- 
2.43.0


From 5d2d4a3d5676b54d26a555d7a2c66e6a4cb8227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:27 +0000
Subject: [PATCH 10/66] fix: simulated decoding in lenient mode stopped at
 invalid byte sequences

---
 src/archon/core/impl/char_codec.hpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/archon/core/impl/char_codec.hpp b/src/archon/core/impl/char_codec.hpp
index f77cdec..6ae2045 100644
--- a/src/archon/core/impl/char_codec.hpp
+++ b/src/archon/core/impl/char_codec.hpp
@@ -158,6 +158,8 @@ public:
 
     bool encode(std::mbstate_t&, core::Span<const char_type> data, std::size_t& data_offset,
                 core::Span<char> buffer, std::size_t& buffer_offset, bool& error) const;
+    void simul_decode(std::mbstate_t&, core::Span<const char> data, std::size_t& data_offset,
+                      std::size_t buffer_size) const;
 
 private:
     struct ReplacementInfo {
@@ -691,6 +693,33 @@ inline bool CharCodec4<C, T>::encode(std::mbstate_t& state, core::Span<const cha
 }
 
 
+template<class C, class T>
+void CharCodec4<C, T>::simul_decode(std::mbstate_t& state, core::Span<const char> data, std::size_t& data_offset,
+                                    std::size_t buffer_size) const
+{
+    if (ARCHON_LIKELY(!m_lenient)) {
+        CharCodec2<C, T>::simul_decode(state, data, data_offset, buffer_size); // Throws
+        return;
+    }
+
+    // Invalid byte sequences decode to replacement characters in lenient mode, and that is
+    // not known to `std::codecvt::length()`.
+    std::array<char_type, 128> buffer;
+    std::size_t remaining = buffer_size;
+    while (remaining > 0) {
+        std::size_t n = std::min(remaining, buffer.size());
+        bool end_of_data = true;
+        std::size_t buffer_offset = 0;
+        bool error = false;
+        bool complete = decode(state, data, data_offset, end_of_data, core::Span(buffer.data(), n), buffer_offset,
+                               error); // Throws
+        if (ARCHON_LIKELY(complete))
+            break;
+        remaining -= buffer_offset;
+    }
+}
+
+
 template<class C, class T>
 auto CharCodec4<C, T>::get_replacement_info(const std::locale& locale, const super_type& super,
                                             const Config& config) -> ReplacementInfo
-- 
2.43.0


From be31167aa18b697ba9450fc7b6235fe330cda569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:44 +0000
Subject: [PATCH 11/66] fix: decoding and encoding failed when output buffer
 ran full immediately after a null character

---
 src/archon/core/impl/char_codec.hpp     | 28 +++++++++++++++++++++++++
 src/archon/core/impl/codecvt_quirks.hpp | 13 ++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/src/archon/core/impl/char_codec.hpp b/src/archon/core/impl/char_codec.hpp
index 6ae2045..de20e8a 100644
--- a/src/archon/core/impl/char_codec.hpp
+++ b/src/archon/core/impl/char_codec.hpp
@@ -458,6 +458,27 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
         int n = m_codecvt->length(state_2, from, from_end, std::size_t(to_next - to)); // Throws
         from_next = from + n;
     }
+    if constexpr (impl::codecvt_quirk_ok_result_on_full_buffer_after_null_char) {
+        if (ARCHON_UNLIKELY(to_next == to_end && from_next < from_end)) {
+            // Check whether the remaining input really is nothing but an incomplete byte
+            // sequence.
+            std::mbstate_t state_4 = state_2;
+            const char* from_next_2 = nullptr;
+            char_type ch = {};
+            char_type* to_next_2 = nullptr;
+            result = m_codecvt->in(state_4, from_next, from_end, from_next_2, &ch, &ch + 1, to_next_2); // Throws
+            if (ARCHON_LIKELY(to_next_2 != &ch)) {
+                state = state_2;
+                data_offset   = std::size_t(from_next - data.data());
+                buffer_offset = std::size_t(to_next - buffer.data());
+                ARCHON_ASSERT(buffer_offset == buffer.size());
+                error = false;
+                return false;
+            }
+            if (ARCHON_LIKELY(result == std::codecvt_base::error))
+                goto error;
+        }
+    }
     if (ARCHON_LIKELY(data_size_2 == data_size)) {
         if (ARCHON_LIKELY(!end_of_data || (from_next == from_end))) {
             state = state_2;
@@ -517,6 +538,13 @@ bool CharCodec2<C, T>::encode(std::mbstate_t& state, core::Span<const char_type>
 
     switch (result) {
         case std::codecvt_base::ok:
+            if constexpr (impl::codecvt_quirk_ok_result_on_full_buffer_after_null_char) {
+                if (ARCHON_UNLIKELY(data_offset < data.size())) {
+                    ARCHON_ASSERT(buffer_offset == buffer.size());
+                    error = false;
+                    return false;
+                }
+            }
             ARCHON_ASSERT(data_offset == data.size());
             return true;
         case std::codecvt_base::partial:
diff --git a/src/archon/core/impl/codecvt_quirks.hpp b/src/archon/core/impl/codecvt_quirks.hpp
index e20e31a..f30690e 100644
--- a/src/archon/core/impl/codecvt_quirks.hpp
+++ b/src/archon/core/impl/codecvt_quirks.hpp
@@ -43,6 +43,19 @@ inline constexpr bool codecvt_quirk_ok_result_on_zero_size_buffer = true;
 inline constexpr bool codecvt_quirk_ok_result_on_zero_size_buffer = false;
 #endif
 
+// std::codecvt::in() and std::codecvt::out() may report an `ok` result, rather than a
+// `partial` result when there is more input, but the output buffer ran full immediately
+// after a null character was placed in it.
+//
+// This happens in GCC because libstdc++ processes the input in sections separated by null
+// characters.
+//
+#if ARCHON_GNU_LIBCXX && !(ARCHON_CYGWIN || ARCHON_MINGW)
+inline constexpr bool codecvt_quirk_ok_result_on_full_buffer_after_null_char = true;
+#else
+inline constexpr bool codecvt_quirk_ok_result_on_full_buffer_after_null_char = false;
+#endif
+
 // std::codecvt::in() reports a `partial` result, rather than an `ok` result when presented
 // with an incomplete byte sequence (regardless of whether none, some, or all of the
 // incomplete byte sequence has been consumed), and there is enough available space in the
-- 
2.43.0


From 8511ea97985ce16cdfbbcef8659a51dd287e07c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:27 +0000
Subject: [PATCH 12/66] fix: shift state lost by character decoding when output
 buffer ran full or on invalid input

---
 src/archon/core/impl/char_codec.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archon/core/impl/char_codec.hpp b/src/archon/core/impl/char_codec.hpp
index de20e8a..e9087bb 100644
--- a/src/archon/core/impl/char_codec.hpp
+++ b/src/archon/core/impl/char_codec.hpp
@@ -416,6 +416,8 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
                 if (to_next < to_end)
                     goto error;
             }
+            if (ARCHON_UNLIKELY(!m_is_stateless))
+                m_codecvt->length(state_2, from, from_next, std::size_t(to_next - to)); // Throws
             state = state_2;
             data_offset   = std::size_t(from_next - data.data());
             buffer_offset = std::size_t(to_next - buffer.data());
@@ -429,6 +431,8 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
             // valid input sequences, std::codecvt::in() will never have consumed part of an
             // input sequence when it reports an error, so, in this case, what lies between
             // `from` and `from_next` is zero or more complete and valid input sequences.
+            if (ARCHON_UNLIKELY(!m_is_stateless))
+                m_codecvt->length(state_2, from, from_next, std::size_t(to_next - to)); // Throws
             goto error;
         case std::codecvt_base::noconv:
             // Since std::codecvt_base::noconv implies that the internal character type is
-- 
2.43.0


From 46be390e93e934a2cab8816da491623ee0da4ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:00 +0000
Subject: [PATCH 13/66] fix: data race on cache of mapped file path when checks
 fail in several threads of a test

---
 .../check/noinst/thread_context_impl.cpp      | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index 9417acd..1fb08e7 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -183,21 +183,21 @@ void ThreadContextImpl::check_failed(const check::TestContext& test_context, che
         ++m_num_failed_checks;
         m_errors_seen = true;
     }
-    std::string_view mapped_file_path;
-    check::Location test_location = test_context.test_details.location;
-    if (ARCHON_LIKELY(location.file_path == test_location.file_path)) {
-        mapped_file_path = test_context.mapped_file_path;
-    }
-    else if (ARCHON_LIKELY(location.file_path == m_mapped_file_path_cache_key)) {
-        mapped_file_path = m_mapped_file_path_cache_value;
-    }
-    else {
-        m_mapped_file_path_cache_value = m_root_context.map_source_path(location.file_path); // Throws
-        m_mapped_file_path_cache_key = location.file_path;
-        mapped_file_path = m_mapped_file_path_cache_value;
-    }
     {
         std::lock_guard lock(m_root_context.mutex); // Throws
+        std::string_view mapped_file_path;
+        check::Location test_location = test_context.test_details.location;
+        if (ARCHON_LIKELY(location.file_path == test_location.file_path)) {
+            mapped_file_path = test_context.mapped_file_path;
+        }
+        else if (ARCHON_LIKELY(location.file_path == m_mapped_file_path_cache_key)) {
+            mapped_file_path = m_mapped_file_path_cache_value;
+        }
+        else {
+            m_mapped_file_path_cache_value = m_root_context.map_source_path(location.file_path); // Throws
+            m_mapped_file_path_cache_key = location.file_path;
+            mapped_file_path = m_mapped_file_path_cache_value;
+        }
         m_test_level_report_logger.file_path   = mapped_file_path;
         m_test_level_report_logger.line_number = location.line_number;
         check::FailContext fail_context(test_context, location, mapped_file_path);
-- 
2.43.0


From 4c5bec7898d44fcad70485a7fada3c55dd27e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:39 +0000
Subject: [PATCH 14/66] fix: jail logger did not compile

---
 src/archon/log/jail_logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/log/jail_logger.hpp b/src/archon/log/jail_logger.hpp
index 6560568..8da1d90 100644
--- a/src/archon/log/jail_logger.hpp
+++ b/src/archon/log/jail_logger.hpp
@@ -51,7 +51,7 @@ namespace archon::log {
 /// connected to any channel in the target logger.
 ///
 template<class C, class T = std::char_traits<C>> class BasicJailLogger final
-    : private log::BasicCannelMap<C, T>
+    : private log::BasicChannelMap<C, T>
     , public log::BasicLogger<C, T> {
 public:
     using prefix_type  = log::BasicPrefix<C, T>;
@@ -69,7 +69,7 @@ private:
 
     BasicJailLogger(logger_type& target_logger, channel_type& target_channel) noexcept;
 
-    // Overriding functions from log::BasicCannelMap<C, T>
+    // Overriding functions from log::BasicChannelMap<C, T>
     auto do_get_channels() const noexcept -> core::Span<const channel_type> override;
 };
 
-- 
2.43.0


From 5c3de68a5dc65cf550dd4d35bceb6ac51474deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:39 +0000
Subject: [PATCH 15/66] fix: variable log level limit of limit logger could not
 be changed

---
 src/archon/log/limit_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/log/limit_logger.hpp b/src/archon/log/limit_logger.hpp
index a7ade20..f398f57 100644
--- a/src/archon/log/limit_logger.hpp
+++ b/src/archon/log/limit_logger.hpp
@@ -102,7 +102,7 @@ public:
 
     void set(LogLevel limit) noexcept
     {
-        ARCHON_ASSERT(m_fixed_limit != std::numeric_limits<int>::max());
+        ARCHON_ASSERT(m_fixed_limit == std::numeric_limits<int>::max());
         m_variable_limit.store(limit, std::memory_order_relaxed);
     }
 
-- 
2.43.0


From a8e135b45db380b3eabc92fa5489c1856a209fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:39 +0000
Subject: [PATCH 16/66] fix: limit logger applied limit to selected channel
 even when that channel was not matched

---
 src/archon/log/limit_logger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/log/limit_logger.hpp b/src/archon/log/limit_logger.hpp
index f398f57..dca8e74 100644
--- a/src/archon/log/limit_logger.hpp
+++ b/src/archon/log/limit_logger.hpp
@@ -224,7 +224,8 @@ inline void BasicLimitLogger<C, T>::set_log_level_limit(log::LogLevel limit) noe
 
 template<class C, class T>
 inline BasicLimitLogger<C, T>::BasicLimitLogger(Interm&& i, int fixed_limit) noexcept
-    : logger_type(fixed_limit, m_limit, i.prefix, *i.channel, *this)
+    : logger_type(&i.channel->get_limit() == &m_limit ? fixed_limit : i.channel->get_limit().get_fixed_limit(),
+                  i.channel->get_limit(), i.prefix, *i.channel, *this)
     , m_limit(fixed_limit)
     , m_sinks(std::move(i.sinks))
     , m_channels(std::move(i.channels))
-- 
2.43.0


From f595b9069e2e56406fa3a0dbf736ef483f92c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:28 +0000
Subject: [PATCH 17/66] fix: keep the no-implicit-close property with the
 descriptor when a file object is moved

---
 src/archon/core/file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/core/file.hpp b/src/archon/core/file.hpp
index 57a2ad0..7d76807 100644
--- a/src/archon/core/file.hpp
+++ b/src/archon/core/file.hpp
@@ -1087,6 +1087,7 @@ inline void File::steal_from(File& other) noexcept
 #if ARCHON_WINDOWS
     m_holds_lock = other.m_holds_lock;
 #endif
+    m_no_implicit_close = other.m_no_implicit_close;
     other.m_handle = s_null_handle;
 }
 
-- 
2.43.0


From bcb931f285de1f03977beb9aeff8231badb9f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 18/66] fix: define BufferedFileSink::flush()

---
 src/archon/core/file_sink.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/archon/core/file_sink.hpp b/src/archon/core/file_sink.hpp
index d04e485..43ec398 100644
--- a/src/archon/core/file_sink.hpp
+++ b/src/archon/core/file_sink.hpp
@@ -127,6 +127,15 @@ inline BufferedFileSink::BufferedFileSink(core::File& file, core::Span<char> buf
 }
 
 
+inline void BufferedFileSink::flush()
+{
+    std::error_code ec;
+    if (ARCHON_LIKELY(try_flush(ec))) // Throws
+        return; // Success
+    throw std::system_error(ec, "Failed to flush file sink");
+}
+
+
 } // namespace archon::core
 
 #endif // ARCHON_X_CORE_X_FILE_SINK_HPP
-- 
2.43.0


From f8ada8b049e10c72308cbba077ea6c56e4122270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:35 +0000
Subject: [PATCH 19/66] fix: make Base64 encoding to, and decoding from wide
 characters work

---
 src/archon/core/base64.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/archon/core/base64.hpp b/src/archon/core/base64.hpp
index ff41809..dffa4a7 100644
--- a/src/archon/core/base64.hpp
+++ b/src/archon/core/base64.hpp
@@ -313,7 +313,7 @@ template<class C, class T>
 auto BasicEncoder<C, T>::encode(core::Span<const char> data, core::Buffer<C>& buffer) const -> string_view_type
 {
     buffer.reserve(encode_buffer_size(data.size(), m_config)); // Throws
-    if constexpr (BasicCharMapper<char>::is_trivial) {
+    if constexpr (BasicCharMapper<C, T>::is_trivial) {
         std::size_t size = 0;
         bool insufficient_buffer_space = false;
         bool success = base64::encode(data, core::Span(buffer), size, insufficient_buffer_space, m_config);
@@ -327,7 +327,7 @@ auto BasicEncoder<C, T>::encode(core::Span<const char> data, core::Buffer<C>& bu
         const char* data_begin = data.data();
         const char* data_end = data_begin + data.size();
         char* buffer_end = buffer_2.data() + buffer_2.size();
-        char* dest = buffer.data();
+        C* dest = buffer.data();
         for (;;) {
             bool end_of_input = true;
             char* buffer_begin = buffer_2.data();
@@ -335,7 +335,7 @@ auto BasicEncoder<C, T>::encode(core::Span<const char> data, core::Buffer<C>& bu
             std::size_t size = std::size_t(buffer_begin - buffer_2.data());
             ARCHON_ASSERT(size <= buffer.size());
             ARCHON_ASSERT(std::size_t(dest - buffer.data()) <= buffer.size() - size);
-            this->widen({ buffer_2.data(), size }, dest); // Throws
+            this->widen(std::string_view(buffer_2.data(), size), dest); // Throws
             dest += size;
             if (ARCHON_LIKELY(!done)) {
                 if (ARCHON_LIKELY(buffer_begin == buffer_end))
@@ -370,7 +370,7 @@ template<class C, class T>
 auto BasicDecoder<C, T>::decode(string_view_type data, core::Buffer<char>& buffer) const -> core::Span<const char>
 {
     buffer.reserve(decode_buffer_size(data.size())); // Throws
-    if constexpr (BasicCharMapper<char>::is_trivial) {
+    if constexpr (BasicCharMapper<C, T>::is_trivial) {
         std::size_t size = 0;
         bool insufficient_buffer_space = false;
         bool success = base64::decode(data, core::Span(buffer), size, insufficient_buffer_space, m_config);
@@ -395,9 +395,7 @@ auto BasicDecoder<C, T>::decode(string_view_type data, core::Buffer<char>& buffe
             const char* data_end   = data_begin + size;
             bool done = decoder.decode(data_begin, data_end, end_of_input, buffer_begin, buffer_end);
             if (ARCHON_LIKELY(!done)) {
-                ARCHON_ASSERT(buffer_begin != buffer_end);
-                if (ARCHON_LIKELY(data_begin == data_end)) {
-                    ARCHON_ASSERT(!end_of_input);
+                if (ARCHON_LIKELY(data_begin == data_end && !end_of_input)) {
                     i += size;
                     continue;
                 }
-- 
2.43.0


From 0bc6a5bdc23099e7a3bf22201d9060be82cf572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:51 +0000
Subject: [PATCH 20/66] fix: accept padding during Base64 decoding

---
 src/archon/core/base64.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/base64.cpp b/src/archon/core/base64.cpp
index 7a95f2c..6737cbb 100644
--- a/src/archon/core/base64.cpp
+++ b/src/archon/core/base64.cpp
@@ -424,6 +424,7 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
         if (ARCHON_LIKELY(is_padding)) {
             bool allow_padding = (m_config.padding != DecodeConfig::Padding::reject);
             if (ARCHON_LIKELY(allow_padding && valid_partial())) {
+                ++data_begin;
                 ++m_padding_size;
                 if (ARCHON_LIKELY(m_holding_size + m_padding_size < 4))
                     goto input;
@@ -439,9 +440,9 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
         bool require_padding = (m_config.padding == DecodeConfig::Padding::require);
         if (ARCHON_LIKELY(!require_padding && valid_partial()))
             goto partial;
-        if (ARCHON_LIKELY(m_holding_size == 0))
-            return true;
     }
+    if (ARCHON_LIKELY(m_holding_size == 0))
+        return true;
     return false; // Prematute end of input
 
   batch:
-- 
2.43.0


From 5ec0bd1d39da37cd14ed06862039aac09393383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:41 +0000
Subject: [PATCH 21/66] fix: report reason for failure correctly when Base64
 decoding of bad input stops at a full buffer

---
 src/archon/core/base64.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/archon/core/base64.hpp b/src/archon/core/base64.hpp
index dffa4a7..797c2ab 100644
--- a/src/archon/core/base64.hpp
+++ b/src/archon/core/base64.hpp
@@ -288,7 +288,13 @@ inline bool decode(std::string_view data, core::Span<char> buffer, std::size_t&
         size = std::size_t(buffer_begin - buffer.data());
         return true;
     }
-    insufficient_buffer_space = (buffer_begin == buffer_end);
+    // When the buffer is full, lack of buffer space is the reason for failure if, and only if,
+    // there is more output to be produced
+    char extra[1];
+    char* extra_begin = extra;
+    if (buffer_begin == buffer_end)
+        static_cast<void>(decoder.decode(data_begin, data_end, end_of_input, extra_begin, extra + 1));
+    insufficient_buffer_space = (extra_begin != extra);
     return false;
 }
 
-- 
2.43.0


From f87239f202246f0cfcd4a48d53caf4e42394cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:09 +0000
Subject: [PATCH 22/66] fix: KnuthWrapper::get_badness() returned stale value
 after wrapping less than two words

---
 src/archon/core/word_wrap.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archon/core/word_wrap.cpp b/src/archon/core/word_wrap.cpp
index 3647a4e..2fb7d55 100644
--- a/src/archon/core/word_wrap.cpp
+++ b/src/archon/core/word_wrap.cpp
@@ -110,8 +110,10 @@ void KnuthWrapper::wrap(core::Span<const word_wrap::Word> words, std::size_t tra
     breakpoints.clear();
 
     std::size_t num_words = words.size();
-    if (ARCHON_UNLIKELY(num_words < 2))
+    if (ARCHON_UNLIKELY(num_words < 2)) {
+        m_badness = 0;
         return;
+    }
 
     m_word_slots.resize(num_words); // Throws
     for (std::size_t i = 0; i < num_words; ++i) {
-- 
2.43.0


From a85020e6b062009f665f1bc2b892af989a05b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:11 +0000
Subject: [PATCH 23/66] fix: TextFormatter::get_word_info() could not be
 instantiated

---
 src/archon/core/text_formatter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/text_formatter.hpp b/src/archon/core/text_formatter.hpp
index 2fe49a0..e103f8c 100644
--- a/src/archon/core/text_formatter.hpp
+++ b/src/archon/core/text_formatter.hpp
@@ -1774,7 +1774,7 @@ auto BasicTextFormatter<C, T>::get_word_info(std::size_t section_index, std::siz
                                              std::size_t word_index) -> WordInfo
 {
     ExtendedLineInfo line_info = get_extended_line_info(section_index, line_index); // Throws
-    if (ARCHON_UNLIKELY(word_index >= line_info.num_words))
+    if (ARCHON_UNLIKELY(word_index >= line_info.base.num_words))
         throw std::out_of_range("Word index");
     std::size_t word_index_2 = std::size_t(line_info.words_begin + word_index);
     const InputWord& word = m_input_words[word_index_2];
-- 
2.43.0


From f930cc8f0edd150c0d38f906741c82c74dca99f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:11 +0000
Subject: [PATCH 24/66] fix: TextFormatter::jump() beyond last line went to
 wrong line when cursor was on earlier line

---
 src/archon/core/text_formatter.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/core/text_formatter.hpp b/src/archon/core/text_formatter.hpp
index e103f8c..58085b8 100644
--- a/src/archon/core/text_formatter.hpp
+++ b/src/archon/core/text_formatter.hpp
@@ -2961,6 +2961,7 @@ void BasicTextFormatter<C, T>::do_jump(std::size_t line_number)
         m_line_number = line_number;
         return;
     }
+    m_line_number = last_line_number;
     std::size_t n = std::size_t(line_number - last_line_number);
     for (std::size_t i = 0; i < n; ++i) {
         format_newline(); // Throws
-- 
2.43.0


From 2bbc9cef255436c10afef7ef2a8702ab94020270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:25 +0000
Subject: [PATCH 25/66] fix: as_list: accept the bracketed form of an empty
 list when parsing

Formatting an empty sequence as a bracketed list produces for example `[]`, but parsing it
back failed because the check for absence of elements looked at the entire string, including
the brackets.
---
 src/archon/core/as_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/as_list.hpp b/src/archon/core/as_list.hpp
index 01315cf..bc64fa2 100644
--- a/src/archon/core/as_list.hpp
+++ b/src/archon/core/as_list.hpp
@@ -416,7 +416,7 @@ bool parse_as_list(core::BasicValueParserSource<C, T>& src, I begin, I end, I& r
             return false; // Error
         }
     }
-    if (ARCHON_LIKELY(str.empty())) {
+    if (ARCHON_LIKELY(begin_2 == end_2)) {
         reached = end;
         return true; // Trivial success
     }
-- 
2.43.0


From 63340c13deffc0fe134409063482c8514ef50113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:38 +0000
Subject: [PATCH 26/66] fix: as_list: no space inside brackets for an empty
 list in loose mode

As documented for AsListSpace::loose, space is added inside the brackets only when the number
of formatted list elements is not zero.
---
 src/archon/core/as_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/as_list.hpp b/src/archon/core/as_list.hpp
index bc64fa2..d47c02c 100644
--- a/src/archon/core/as_list.hpp
+++ b/src/archon/core/as_list.hpp
@@ -307,7 +307,7 @@ auto format_as_list(std::basic_ostream<C, T>& out, I begin, I end, F&& func,
             space_after_separator = true;
             break;
         case core::AsListSpace::loose:
-            space_inside_brackets = true;
+            space_inside_brackets = (begin != end);
             space_after_separator = true;
             break;
     }
-- 
2.43.0


From 41822bd260027830302ce650805c86faa5b3fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:57 +0000
Subject: [PATCH 27/66] fix: with_reverted_numerics() and friends: consume
 field width of target stream

When a value was written through with_modified_locale(), with_precision(), or with_fixed(), the
field width was applied to the value, but then remained in effect for the next output
operation, contrary to what happens when the value is written directly.
---
 src/archon/core/format_with.hpp          | 2 ++
 src/archon/core/with_modified_locale.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/archon/core/format_with.hpp b/src/archon/core/format_with.hpp
index bd2fd10..52d6af9 100644
--- a/src/archon/core/format_with.hpp
+++ b/src/archon/core/format_with.hpp
@@ -115,6 +115,7 @@ inline auto with_precision(std::basic_ostream<C, T>& out, int prec, const R& ref
     out_2.precision(prec); // Throws
     out_2.clear(out.rdstate()); // Throws
     out_2 << ref; // Throws
+    out.width(out_2.width()); // Throws
     out.clear(out_2.rdstate()); // Throws
     return out;
 }
@@ -142,6 +143,7 @@ inline auto with_fixed(std::basic_ostream<C, T>& out, const R& ref, int prec) ->
     out_2.precision(prec); // Throws
     out_2.clear(out.rdstate()); // Throws
     out_2 << ref; // Throws
+    out.width(out_2.width()); // Throws
     out.clear(out_2.rdstate()); // Throws
     return out;
 }
diff --git a/src/archon/core/with_modified_locale.hpp b/src/archon/core/with_modified_locale.hpp
index 126223e..077952b 100644
--- a/src/archon/core/with_modified_locale.hpp
+++ b/src/archon/core/with_modified_locale.hpp
@@ -122,6 +122,7 @@ inline auto with_modified_locale(std::basic_ostream<C, T>& out, const std::local
         out_2.imbue(std::locale(orig_loc, loc, cat)); // Throws
         out_2.clear(out.rdstate()); // Throws
         out_2 << ref; // Throws
+        out.width(out_2.width()); // Throws
         out.clear(out_2.rdstate()); // Throws
     }
     return out;
-- 
2.43.0


From 98ae583118127ab332beef7e60a9c92f645c4584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:10 +0000
Subject: [PATCH 28/66] fix: BasicStringTemplate::Parser: do not hold on to a
 temporary locale object

The parser stored a reference to the locale passed to its constructor, which by default is a
temporary object that is gone by the time an error has to be reported.
---
 src/archon/core/string_template.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/string_template.hpp b/src/archon/core/string_template.hpp
index 187a6bf..9f1fd3a 100644
--- a/src/archon/core/string_template.hpp
+++ b/src/archon/core/string_template.hpp
@@ -337,7 +337,7 @@ private:
     template<class F> class FuncCallErrorHandler;
 
     core::BasicStringFormatter<char_type, traits_type> m_string_formatter;
-    const std::locale& m_locale;
+    const std::locale m_locale;
     core::ArraySeededBuffer<Substitution, 8> m_buffer;
 
     void do_parse(const char* c_str, const Parameters&, BasicStringTemplate&);
-- 
2.43.0


From c90b1506e72d8566b97274413e692917a38ba8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 29/66] fix: Hash_FNV_1a_32::add_int(): mask last octet of
 negative values of narrow types

---
 src/archon/core/hash_fnv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/hash_fnv.hpp b/src/archon/core/hash_fnv.hpp
index 77c6478..13d6551 100644
--- a/src/archon/core/hash_fnv.hpp
+++ b/src/archon/core/hash_fnv.hpp
@@ -135,7 +135,7 @@ template<class T> constexpr void Hash_FNV_1a_32::add_int(T value) noexcept
             offset += 8;
         }
     }
-    add_octet(value_type(value_2));
+    add_octet(value_type(value_2 & 0xFF));
 }
 
 
-- 
2.43.0


From 2145ec843095de365926a08d39fd40c0549a966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:41 +0000
Subject: [PATCH 30/66] fix: FrozenSets::unite(): do not discard first set when
 the two sets are equal

---
 src/archon/core/frozen_sets.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archon/core/frozen_sets.hpp b/src/archon/core/frozen_sets.hpp
index 36e3daa..05d6dd4 100644
--- a/src/archon/core/frozen_sets.hpp
+++ b/src/archon/core/frozen_sets.hpp
@@ -194,10 +194,12 @@ auto FrozenSets<T, C>::unite(Ident i, Ident j) -> Ident
 {
     core::IndexIterator j_begin = { m_wrap.elems, std::ptrdiff_t(j.m_begin) };
     core::IndexIterator j_end   = { m_wrap.elems, std::ptrdiff_t(j.m_end)   };
+    std::size_t size = m_wrap.elems.size();
     Ident k = unite_ordered(i, j_begin, j_end); // Throws
     if (ARCHON_LIKELY(k.size() > j.size()))
         return k;
-    discard_from(k);
+    // Note: `k` could be `i`, so only discard what was added
+    m_wrap.elems.resize(size);
     return j;
 }
 
-- 
2.43.0


From 9f9e2d2a4d60e64dee9113435f583b43968cadb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:41 +0000
Subject: [PATCH 31/66] fix: StrideIterator: correct negative differences

---
 src/archon/core/stride_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/stride_iterator.hpp b/src/archon/core/stride_iterator.hpp
index c505060..b351e9a 100644
--- a/src/archon/core/stride_iterator.hpp
+++ b/src/archon/core/stride_iterator.hpp
@@ -200,7 +200,7 @@ template<class I, std::size_t S>
 template<class J> inline auto StrideIterator<I, S>::operator-(const StrideIterator<J, S>& other) const
     noexcept(noexcept((std::declval<const I&>() - std::declval<const J&>()) / S)) -> difference_type
 {
-    return difference_type((m_iter - other.m_iter) / S); // Throws
+    return difference_type((m_iter - other.m_iter) / difference_type(S)); // Throws
 }
 
 
-- 
2.43.0


From e9fe877cbc4d5c37a5f98b7beadfa6f676620778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:41 +0000
Subject: [PATCH 32/66] fix: Histogram::print(): allow printing of empty
 histogram

---
 src/archon/core/histogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/histogram.hpp b/src/archon/core/histogram.hpp
index 45b707c..5f30ca3 100644
--- a/src/archon/core/histogram.hpp
+++ b/src/archon/core/histogram.hpp
@@ -331,7 +331,7 @@ template<class C, class U> void Histogram<T>::print(std::basic_ostream<C, U>& ou
     deduct(3);
     deduct(count_column_width);
     deduct(3);
-    double scale = double(max_bar_size) / max_count;
+    double scale = (max_count > 0 ? double(max_bar_size) / max_count : 0.0);
 
     core::BasicSeedMemoryOutputStream<char_type, traits_type> formatter_2; // Throws
     formatter_2.exceptions(std::ios_base::badbit | std::ios_base::failbit); // Throws
-- 
2.43.0


From a3cd087425a304ee01f12409a08e250c86542edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:12 +0000
Subject: [PATCH 33/66] fix: SeedSeq: reset owned sequence of target on move
 assignment from other kind of sequence

---
 src/archon/core/random.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/archon/core/random.hpp b/src/archon/core/random.hpp
index f8c4540..6e15d64 100644
--- a/src/archon/core/random.hpp
+++ b/src/archon/core/random.hpp
@@ -628,6 +628,8 @@ inline void SeedSeq::init(SeedSeq&& other) noexcept
     else {
         ARCHON_ASSERT(!other.m_seq_owner);
         ARCHON_ASSERT(other.m_seq.size() == 0);
+        m_seq_owner = {};
+        m_seq = {};
         m_seq_seq = other.m_seq_seq;
         other.m_seq_seq = {};
     }
-- 
2.43.0


From c845923b6e46993ece35aba7328027d72f3a8722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 34/66] fix: cli: report structural ambiguity in pattern with
 its own error code

---
 src/archon/cli/impl/spec_parser.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/archon/cli/impl/spec_parser.hpp b/src/archon/cli/impl/spec_parser.hpp
index 5d0716d..2096195 100644
--- a/src/archon/cli/impl/spec_parser.hpp
+++ b/src/archon/cli/impl/spec_parser.hpp
@@ -126,7 +126,8 @@ private:
     void extract_next_token();
 
     template<class... P> [[noreturn]] void parse_error(const char* message, const P&... params) const;
-    template<class... P> [[noreturn]] void error(const char* message, const P&... params) const;
+    template<class... P> [[noreturn]] void error(cli::SpecError, const char* message,
+                                                  const P&... params) const;
     template<class... P> auto format_except(const char* message, const P&... params) const -> std::string;
 
     bool get_option_forms(std::size_t node_index, core::BufferContents<OptionForm>&) const;
@@ -495,7 +496,8 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                 // not be clear whether the std::optional object associated with the
                 // outer-most optionality construct should have a value.
                 if (ARCHON_UNLIKELY(level.seq.nullable)) {
-                    parser.error("Pattern-internal structural ambiguity: "
+                    parser.error(cli::SpecError::structural_ambiguity,
+                                 "Pattern-internal structural ambiguity: "
                                  "Optionality construct with nullable sub-pattern"); // Throws
                 }
                 typename Elem::Type type = Elem::Type::opt;
@@ -515,7 +517,8 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                 // clear how many elements should be in the std::vector object associated
                 // with the repetition construct.
                 if (ARCHON_UNLIKELY(level.seq.nullable)) {
-                    parser.error("Pattern-internal structural ambiguity: "
+                    parser.error(cli::SpecError::structural_ambiguity,
+                                 "Pattern-internal structural ambiguity: "
                                  "Repetition construct with nullable sub-pattern"); // Throws
                 }
                 // This repetition construct has internal ambiguity if there is some
@@ -528,7 +531,8 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                 // should have one and two elements respectively, or whether it should be
                 // the other way around (2 elements in the outer-most std::vector object).
                 if (ARCHON_UNLIKELY(level.seq.repeating)) {
-                    parser.error("Pattern-internal structural ambiguity: "
+                    parser.error(cli::SpecError::structural_ambiguity,
+                                 "Pattern-internal structural ambiguity: "
                                  "Repetition construct with repeating sub-pattern"); // Throws
                 }
                 typename Elem::Type type = Elem::Type::rep;
@@ -564,7 +568,8 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                         // alternatives construct should have its first or second
                         // alternative materialized.
                         if (ARCHON_UNLIKELY(level.alt.multiple_nullable_seqs)) {
-                            parser.error("Pattern-internal structural ambiguity: "
+                            parser.error(cli::SpecError::structural_ambiguity,
+                                         "Pattern-internal structural ambiguity: "
                                          "Alternatives construct with multiple nullable branches"); // Throws
                         }
                         typename Elem::Type type = Elem::Type::alt;
@@ -874,18 +879,19 @@ void SpecParser<C, T>::extract_next_token()
 template<class C, class T>
 template<class... P> inline void SpecParser<C, T>::parse_error(const char* message, const P&... params) const
 {
-    error("Failed to parse %s specification: %s", m_error_qualifier.component,
+    error(m_error_qualifier.code, "Failed to parse %s specification: %s", m_error_qualifier.component,
           core::formatted(message, params...)); // Throws
 }
 
 
 template<class C, class T>
-template<class... P> void SpecParser<C, T>::error(const char* message, const P&... params) const
+template<class... P>
+void SpecParser<C, T>::error(cli::SpecError code, const char* message, const P&... params) const
 {
     std::string message_2 = format_except("Error in %s %s specification: %s",
                                           core::as_ordinal(1 + m_error_qualifier.index), m_error_qualifier.entity,
                                           core::formatted(message, params...)); // Throws
-    throw cli::BadSpec(m_error_qualifier.code, std::move(message_2));
+    throw cli::BadSpec(code, std::move(message_2));
 }
 
 
-- 
2.43.0


From 038c1bb611b177ba6e9dca7cf63c36eaff588c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:27 +0000
Subject: [PATCH 35/66] fix: cli: allow alternatives construct to be collapsed
 to branch index in pattern function

---
 src/archon/cli/impl/pattern_args_parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/archon/cli/impl/pattern_args_parser.hpp b/src/archon/cli/impl/pattern_args_parser.hpp
index c5600b3..444312a 100644
--- a/src/archon/cli/impl/pattern_args_parser.hpp
+++ b/src/archon/cli/impl/pattern_args_parser.hpp
@@ -400,6 +400,12 @@ private:
         }
         else if constexpr (std::is_same_v<U, std::size_t>) {
             if (ARCHON_LIKELY(desc.elem->type != Elem::Type::opt)) {
+                if (ARCHON_UNLIKELY(desc.elem->type == Elem::Type::alt)) {
+                    ARCHON_ASSERT(desc.elem->collapsible);
+                    std::size_t branch_index = desc.value;
+                    elem = branch_index;
+                    return true;
+                }
                 if (ARCHON_LIKELY(desc.elem->type != Elem::Type::rep))
                     goto regular;
             }
-- 
2.43.0


From f68fbcc1d406ae4027f44c6a67b29327d52d8f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 36/66] fix: pixel::Box: avoid integer overflow when boxes are
 far apart

---
 src/archon/util/pixel_box.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/archon/util/pixel_box.hpp b/src/archon/util/pixel_box.hpp
index 0ef5fa1..7c3b752 100644
--- a/src/archon/util/pixel_box.hpp
+++ b/src/archon/util/pixel_box.hpp
@@ -28,6 +28,7 @@
 #include <ostream>
 
 #include <archon/core/features.h>
+#include <archon/core/integer.hpp>
 #include <archon/core/format.hpp>
 #include <archon/util/pixel_size.hpp>
 #include <archon/util/pixel_pos.hpp>
@@ -209,10 +210,14 @@ constexpr bool Box::is_empty() const noexcept
 
 constexpr bool Box::intersects(const Box& other) const noexcept
 {
-    bool horz = (pos.x < other.pos.x ? size.width > other.pos.x - pos.x && other.size.width > 0 :
-                 other.size.width > pos.x - other.pos.x && size.width > 0);
-    bool vert = (pos.y < other.pos.y ? size.height > other.pos.y - pos.y && other.size.height > 0 :
-                 other.size.height > pos.y - other.pos.y && size.height > 0);
+    // Whether `a - b` is less than `size` when `a - b` is not necessarily representable
+    auto less = [](int a, int b, int size) noexcept {
+        return (core::can_int_sub(a, b) && a - b < size);
+    };
+    bool horz = (pos.x < other.pos.x ? less(other.pos.x, pos.x, size.width) && other.size.width > 0 :
+                 less(pos.x, other.pos.x, other.size.width) && size.width > 0);
+    bool vert = (pos.y < other.pos.y ? less(other.pos.y, pos.y, size.height) && other.size.height > 0 :
+                 less(pos.y, other.pos.y, other.size.height) && size.height > 0);
     return (horz && vert);
 }
 
@@ -220,8 +225,10 @@ constexpr bool Box::intersects(const Box& other) const noexcept
 constexpr bool Box::contains(const Box& other) const noexcept
 {
     bool horz = (other.pos.x >= pos.x && other.size.width <= size.width &&
+                 core::can_int_sub(other.pos.x, pos.x) &&
                  other.pos.x - pos.x <= size.width - other.size.width);
     bool vert = (other.pos.y >= pos.y && other.size.height <= size.height &&
+                 core::can_int_sub(other.pos.y, pos.y) &&
                  other.pos.y - pos.y <= size.height - other.size.height);
     return (horz && vert);
 }
@@ -245,12 +252,16 @@ constexpr bool Box::clip(Box& other) const noexcept
     pixel::Size size_2 = other.size;
 
     if (ARCHON_LIKELY(pos_2.x >= pos.x)) {
+        if (ARCHON_UNLIKELY(!core::can_int_sub(pos_2.x, pos.x)))
+            return false;
         int discr = size.width - (pos_2.x - pos.x);
         if (ARCHON_UNLIKELY(discr <= 0 || size_2.width <= 0))
             return false;
         size_2.width = std::min(size_2.width, discr);
     }
     else {
+        if (ARCHON_UNLIKELY(!core::can_int_sub(pos.x, pos_2.x)))
+            return false;
         int discr = size_2.width - (pos.x - pos_2.x);
         if (ARCHON_UNLIKELY(discr <= 0 || size.width <= 0))
             return false;
@@ -259,12 +270,16 @@ constexpr bool Box::clip(Box& other) const noexcept
     }
 
     if (ARCHON_LIKELY(pos_2.y >= pos.y)) {
+        if (ARCHON_UNLIKELY(!core::can_int_sub(pos_2.y, pos.y)))
+            return false;
         int discr = size.height - (pos_2.y - pos.y);
         if (ARCHON_UNLIKELY(discr <= 0 || size_2.height <= 0))
             return false;
         size_2.height = std::min(size_2.height, discr);
     }
     else {
+        if (ARCHON_UNLIKELY(!core::can_int_sub(pos.y, pos_2.y)))
+            return false;
         int discr = size_2.height - (pos.y - pos_2.y);
         if (ARCHON_UNLIKELY(discr <= 0 || size.height <= 0))
             return false;
-- 
2.43.0


From 4b1dbe1b7f41b96b33947da030b7f886aee45ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:23 +0000
Subject: [PATCH 37/66] fix: pixel::Size: round down in division also when
 result is negative

---
 src/archon/util/pixel_size.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/archon/util/pixel_size.hpp b/src/archon/util/pixel_size.hpp
index 34003dd..efc6c21 100644
--- a/src/archon/util/pixel_size.hpp
+++ b/src/archon/util/pixel_size.hpp
@@ -401,9 +401,14 @@ constexpr auto operator*(pixel::Size size, int f) noexcept -> pixel::Size
 
 constexpr auto operator/(pixel::Size size, int f) noexcept -> pixel::Size
 {
+    auto div = [](int a, int b) noexcept {
+        int q = a / b;
+        bool inexact_negative = (a % b != 0 && (a < 0) != (b < 0));
+        return (inexact_negative ? q - 1 : q);
+    };
     return {
-        size.width  / f,
-        size.height / f,
+        div(size.width, f),
+        div(size.height, f),
     };
 }
 
-- 
2.43.0


From 74ca128b407c26ddca74d981766d9b892b26501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:34 +0000
Subject: [PATCH 38/66] fix: RectanglePacker: allow packing to be attempted
 again

---
 src/archon/util/rectangle_packer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/util/rectangle_packer.hpp b/src/archon/util/rectangle_packer.hpp
index d6c0379..2834ee3 100644
--- a/src/archon/util/rectangle_packer.hpp
+++ b/src/archon/util/rectangle_packer.hpp
@@ -277,6 +277,10 @@ void RectanglePacker<T>::get_rect_pos(std::size_t rect_index, std::size_t& bin_i
 template<class T>
 bool RectanglePacker<T>::do_pack(comp_type bin_width, comp_type bin_height, std::size_t max_bins)
 {
+    // Discard result of previous packing operation, if any
+    m_bins.clear();
+    m_nodes.clear();
+
     if (ARCHON_UNLIKELY(m_margin > bin_width  || m_margin > bin_width  - m_margin ||
                         m_margin > bin_height || m_margin > bin_height - m_margin))
         return false;
@@ -296,8 +300,6 @@ bool RectanglePacker<T>::do_pack(comp_type bin_width, comp_type bin_height, std:
     });
 
     // Place rectangles
-    ARCHON_ASSERT(m_nodes.empty());
-    ARCHON_ASSERT(m_bins.empty());
     auto add_node = [&](comp_type x, comp_type y, comp_type w, comp_type h) {
         bool occupied = false;
         std::size_t right_node = std::size_t(-1);
-- 
2.43.0


From 821abe8d409dd4ef3b5d12f6f2569588f616f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 39/66] fix: RectanglePacker: do not fail on assertion in
 suggest_bin_width() when total area is very large

---
 src/archon/util/rectangle_packer.hpp | 29 ++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/archon/util/rectangle_packer.hpp b/src/archon/util/rectangle_packer.hpp
index 2834ee3..c49d05e 100644
--- a/src/archon/util/rectangle_packer.hpp
+++ b/src/archon/util/rectangle_packer.hpp
@@ -195,21 +195,26 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
         // max_image_wisth + spacing and max_image_height + spacing.
         constexpr int bits = 2 * (core::num_value_bits<comp_type>() + 1);
         constexpr int num_parts = bits / core::int_width<part_type>();
-        ARCHON_ASSERT(num_parts > 1); // Otherwise the attempt above would have succeeded
-        constexpr bool is_signed = false;
-        using mul_prec_type = core::MulPrecInt<part_type, num_parts, is_signed>;
-        mul_prec_type spacing = mul_prec_type(m_spacing);
-        mul_prec_type area = mul_prec_type(0);
-        for (const Rect& rect: m_rects) {
-            mul_prec_type a = ((mul_prec_type(rect.w) + spacing) *
-                               (mul_prec_type(rect.h) + spacing));
-            if (ARCHON_LIKELY(a <= mul_prec_type::max() - area)) {
-                area += a;
-                continue;
+        if constexpr (num_parts > 1) {
+            constexpr bool is_signed = false;
+            using mul_prec_type = core::MulPrecInt<part_type, num_parts, is_signed>;
+            mul_prec_type spacing = mul_prec_type(m_spacing);
+            mul_prec_type area = mul_prec_type(0);
+            for (const Rect& rect: m_rects) {
+                mul_prec_type a = ((mul_prec_type(rect.w) + spacing) *
+                                   (mul_prec_type(rect.h) + spacing));
+                if (ARCHON_LIKELY(a <= mul_prec_type::max() - area)) {
+                    area += a;
+                    continue;
+                }
+                return max_comp;
             }
+            width = std::max(comp_type(core::int_sqrt(area) - mul_prec_type(m_spacing)), min_width);
+        }
+        else {
+            // The total area is so large that its square root cannot be represented
             return max_comp;
         }
-        width = std::max(comp_type(core::int_sqrt(area) - mul_prec_type(m_spacing)), min_width);
     }
     goto add_margins;
 }
-- 
2.43.0


From c4dda6717efd10463b4146e7f2d61828aebc86a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 40/66] fix: CSS colors: add missing named color 'yellowgreen'

---
 src/archon/util/colors.hpp    | 1 +
 src/archon/util/css_color.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/archon/util/colors.hpp b/src/archon/util/colors.hpp
index 9afca3e..ff96caa 100644
--- a/src/archon/util/colors.hpp
+++ b/src/archon/util/colors.hpp
@@ -184,6 +184,7 @@ inline constexpr auto wheat                = util::Color::from_trgb(0x00F5DEB3);
 inline constexpr auto white                = util::Color::from_trgb(0x00FFFFFF);
 inline constexpr auto whitesmoke           = util::Color::from_trgb(0x00F5F5F5);
 inline constexpr auto yellow               = util::Color::from_trgb(0x00FFFF00);
+inline constexpr auto yellowgreen          = util::Color::from_trgb(0x009ACD32);
 
 
 } // namespace archon::util::colors
diff --git a/src/archon/util/css_color.cpp b/src/archon/util/css_color.cpp
index 321cb0c..ceb7b1e 100644
--- a/src/archon/util/css_color.cpp
+++ b/src/archon/util/css_color.cpp
@@ -270,6 +270,7 @@ constexpr NamedColorEntry g_named_colors[] = {
     { "white",                colors::white,                true  },
     { "whitesmoke",           colors::whitesmoke,           false },
     { "yellow",               colors::yellow,               true  },
+    { "yellowgreen",          colors::yellowgreen,          false },
 };
 
 
-- 
2.43.0


From 39bf22138a07ff3a290db22a44c5aed659f3449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:53 +0000
Subject: [PATCH 41/66] fix: unit_frac: map unity to maximum value also when
 maximum value is not representable as floating point

---
 src/archon/util/unit_frac.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/archon/util/unit_frac.hpp b/src/archon/util/unit_frac.hpp
index 096bae5..26fa6ec 100644
--- a/src/archon/util/unit_frac.hpp
+++ b/src/archon/util/unit_frac.hpp
@@ -202,6 +202,9 @@ constexpr auto flt_to_int(F flt_val, core::Type<I> max_int) noexcept -> I
     static_assert((core::int_max<I>() & 1) == 1);
     F v = flt_val;
     if (ARCHON_LIKELY(v >= F(0))) {
+        // The maximum value may not be exactly representable as floating point.
+        if (ARCHON_UNLIKELY(v >= F(1)))
+            return max_int;
         if constexpr (!alt) {
             // Model: Default
             // Intuition: v = floor(v * (max_int + 1))
-- 
2.43.0


From a1fcb601f194271c94eea748ea8684d649c4167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 42/66] fix: text files: report number of written characters
 when writing fails

---
 src/archon/core/impl/prim_text_file_impl.cpp | 1 +
 src/archon/core/impl/text_file_impl.hpp      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/archon/core/impl/prim_text_file_impl.cpp b/src/archon/core/impl/prim_text_file_impl.cpp
index d28e3e4..fab30c2 100644
--- a/src/archon/core/impl/prim_text_file_impl.cpp
+++ b/src/archon/core/impl/prim_text_file_impl.cpp
@@ -163,6 +163,7 @@ bool PrimWindowsTextFileImpl::write(core::Span<const char> data, std::size_t& n,
         if (ARCHON_LIKELY(m_end > 0)) {
             if (ARCHON_LIKELY(do_flush(ec)))
                 continue;
+            n = data_offset;
             return false;
         }
         expand_buffer(); // Throws
diff --git a/src/archon/core/impl/text_file_impl.hpp b/src/archon/core/impl/text_file_impl.hpp
index 9755246..5d52e4d 100644
--- a/src/archon/core/impl/text_file_impl.hpp
+++ b/src/archon/core/impl/text_file_impl.hpp
@@ -457,6 +457,7 @@ bool TextFileImpl2<P, D>::write(core::Span<const char_type> data, std::size_t& n
             if (ARCHON_LIKELY(m_end > 0)) {
                 if (ARCHON_LIKELY(shallow_flush(ec))) // Throws
                     continue;
+                n = data_offset;
                 return false;
             }
             expand_buffer(); // Throws
-- 
2.43.0


From 79407932da8915f2feb9b05847af95b7321aedd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 43/66] fix: RandomSeed: accept subblock of all ones when
 parsing

---
 src/archon/check/random_seed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/check/random_seed.hpp b/src/archon/check/random_seed.hpp
index ac17929..937fcfb 100644
--- a/src/archon/check/random_seed.hpp
+++ b/src/archon/check/random_seed.hpp
@@ -428,7 +428,7 @@ template<class C, class T> auto operator>>(std::basic_istream<C, T>& in, RandomS
                     if (ARCHON_UNLIKELY(!core::try_int_add(value, digit)))
                         return false;
                 }
-                if (ARCHON_UNLIKELY(value >= core::int_mask<std::uint_fast64_t>(64)))
+                if (ARCHON_UNLIKELY(value > core::int_mask<std::uint_fast64_t>(64)))
                     return false;
                 auto mask = core::int_mask<RandomSeed::value_type>(32);
                 auto word_1 = RandomSeed::value_type(value         & mask);
-- 
2.43.0


From 0a9890c7d810d1a8a5b2fff2d507aa901493260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 44/66] fix: RandomSeed: reject overlong blocks when parsing

---
 src/archon/check/random_seed.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/archon/check/random_seed.hpp b/src/archon/check/random_seed.hpp
index 937fcfb..b679785 100644
--- a/src/archon/check/random_seed.hpp
+++ b/src/archon/check/random_seed.hpp
@@ -451,10 +451,10 @@ template<class C, class T> auto operator>>(std::basic_istream<C, T>& in, RandomS
                 for (;;) {
                     if (!ctype.is(std::ctype_base::alnum, ch))
                         break;
-                    if (i < int(std::size(block))) {
-                        block[i] = mapper.narrow(ch, '\0'); // Throws
-                        ++i;
-                    }
+                    if (ARCHON_UNLIKELY(i == int(std::size(block))))
+                        return false; // Block is too long
+                    block[i] = mapper.narrow(ch, '\0'); // Throws
+                    ++i;
                     if (!helper.next(ch)) // Throws
                         break;
                 }
-- 
2.43.0


From 0af037e2337b4a426f9776861561527362e7b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 45/66] fix: XmlReporter: keep copy of file path of failure

---
 src/archon/check/xml_reporter.cpp | 2 +-
 src/archon/check/xml_reporter.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/check/xml_reporter.cpp b/src/archon/check/xml_reporter.cpp
index 57e60a9..5cd3900 100644
--- a/src/archon/check/xml_reporter.cpp
+++ b/src/archon/check/xml_reporter.cpp
@@ -87,7 +87,7 @@ void XmlReporter::begin(const check::TestContext& context, log::Logger&)
 void XmlReporter::fail(const check::FailContext& context, std::string_view message, log::Logger&)
 {
     Failure f;
-    f.file_path = context.mapped_file_path;
+    f.file_path = std::string(context.mapped_file_path); // Throws
     f.line_number = context.location.line_number;
     f.message = std::string(message); // Throws
     const check::TestContext& test_context = context.test_context;
diff --git a/src/archon/check/xml_reporter.hpp b/src/archon/check/xml_reporter.hpp
index d965a44..f01669d 100644
--- a/src/archon/check/xml_reporter.hpp
+++ b/src/archon/check/xml_reporter.hpp
@@ -56,7 +56,7 @@ public:
 
 protected:
     struct Failure {
-        std::string_view file_path;
+        std::string file_path;
         long line_number;
         std::string message;
     };
-- 
2.43.0


From 26b00444d069c79e54e77fe4d29d21de8073c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 46/66] fix: XmlReporter: escape file path of failure

---
 src/archon/check/xml_reporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/check/xml_reporter.cpp b/src/archon/check/xml_reporter.cpp
index 5cd3900..c8c3eef 100644
--- a/src/archon/check/xml_reporter.cpp
+++ b/src/archon/check/xml_reporter.cpp
@@ -137,7 +137,7 @@ void XmlReporter::root_end(const check::RootContext& context, const check::Summa
         m_out << ">\n"; // Throws
 
         for (auto& i_2 : t.failures) {
-            m_out << "    <failure message=\"" << i_2.file_path << "(" << i_2.line_number << ") : "
+            m_out << "    <failure message=\"" << as_xml_escaped(i_2.file_path) << "(" << i_2.line_number << ") : "
                 "" << as_xml_escaped(i_2.message) << "\"/>\n"; // Throws
         }
         m_out << "  </test>\n"; // Throws
-- 
2.43.0


From 3b6f908cc8e3932b802698491734babe4e34bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 47/66] fix: XmlReporter: preserve tabs and line breaks in
 attribute values

---
 src/archon/check/xml_reporter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/archon/check/xml_reporter.cpp b/src/archon/check/xml_reporter.cpp
index c8c3eef..28db947 100644
--- a/src/archon/check/xml_reporter.cpp
+++ b/src/archon/check/xml_reporter.cpp
@@ -64,6 +64,15 @@ auto operator<<(std::ostream& out, const AsXmlEscaped& pod) -> std::ostream&
                 case '"':
                     helper.write("&quot;"); // Throws
                     continue;
+                case '\t':
+                    helper.write("&#9;"); // Throws
+                    continue;
+                case '\n':
+                    helper.write("&#10;"); // Throws
+                    continue;
+                case '\r':
+                    helper.write("&#13;"); // Throws
+                    continue;
             }
             helper.put(ch); // Throws
         }
-- 
2.43.0


From 2265ff0b7f0226076bf804953e25ce01644f7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:14 +0000
Subject: [PATCH 48/66] fix: Degenerate color space: take alpha into account
 when converting to RGB

---
 src/archon/image/color_space.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/archon/image/color_space.cpp b/src/archon/image/color_space.cpp
index 5602196..30271a4 100644
--- a/src/archon/image/color_space.cpp
+++ b/src/archon/image/color_space.cpp
@@ -44,9 +44,8 @@ void impl::ColorSpaceDegen::from_rgb(const comp_type* rgb, comp_type* native, co
 void impl::ColorSpaceDegen::to_rgb(const comp_type* native, comp_type* rgb, comp_type alpha) const
 {
     static_cast<void>(native);
-    static_cast<void>(alpha);
     for (int i = 0; i < 3; ++i)
-        rgb[i] = comp_type(1);
+        rgb[i] = alpha; // White with premultiplied alpha
 }
 
 
-- 
2.43.0


From 07767c14cf12e8ef11b40072f7fdfd77ded44271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:34 +0000
Subject: [PATCH 49/66] fix: Reader: avoid division by zero when palette is an
 empty image

---
 src/archon/image/reader.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/archon/image/reader.cpp b/src/archon/image/reader.cpp
index d240c37..522ec98 100644
--- a/src/archon/image/reader.cpp
+++ b/src/archon/image/reader.cpp
@@ -320,18 +320,21 @@ void Reader::instantiate_palette_cache()
         constexpr image::CompRepr repr = tag.comp_repr;
         using comp_type = image::comp_type<repr>;
         std::unique_ptr<comp_type[]> palette_entries = std::make_unique<comp_type[]>(buffer_size); // Throws
-        int num_full_rows = int(m_palette_size / palette_image_size.width);
-        std::ptrdiff_t horz_stride = m_num_channels_ext;
-        std::ptrdiff_t vert_stride = palette_image_size.width * m_num_channels_ext;
-        image::Iter iter = { palette_entries.get(), horz_stride, vert_stride };
-        image::Tray tray_1 = { iter, image::Size(palette_image_size.width, num_full_rows) };
-        bool has_alpha = true;
-        palette_reader.get_block_a<repr>(image::Pos(0, 0), tray_1, *m_transfer_info.color_space, has_alpha); // Throws
-        int remain = int(m_palette_size - num_full_rows * std::size_t(palette_image_size.width));
-        if (remain > 0) {
-            image::Tray tray_2 = { iter + image::Size(0, num_full_rows), image::Size(remain, 1) };
-            palette_reader.get_block_a<repr>(image::Pos(0, num_full_rows), tray_2, *m_transfer_info.color_space,
+        if (ARCHON_LIKELY(m_palette_size > 0)) {
+            int num_full_rows = int(m_palette_size / palette_image_size.width);
+            std::ptrdiff_t horz_stride = m_num_channels_ext;
+            std::ptrdiff_t vert_stride = palette_image_size.width * m_num_channels_ext;
+            image::Iter iter = { palette_entries.get(), horz_stride, vert_stride };
+            image::Tray tray_1 = { iter, image::Size(palette_image_size.width, num_full_rows) };
+            bool has_alpha = true;
+            palette_reader.get_block_a<repr>(image::Pos(0, 0), tray_1, *m_transfer_info.color_space,
                                              has_alpha); // Throws
+            int remain = int(m_palette_size - num_full_rows * std::size_t(palette_image_size.width));
+            if (remain > 0) {
+                image::Tray tray_2 = { iter + image::Size(0, num_full_rows), image::Size(remain, 1) };
+                palette_reader.get_block_a<repr>(image::Pos(0, num_full_rows), tray_2, *m_transfer_info.color_space,
+                                                 has_alpha); // Throws
+            }
         }
         m_palette_cache = palette_entries.release();
     }); // Throws
-- 
2.43.0


From 0f5d82854d35324b2d39628e329a9a217b5bd0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:19 +0000
Subject: [PATCH 50/66] fix: Writer::put_block(): make overload taking pixel
 block usable

---
 src/archon/image/writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/writer.hpp b/src/archon/image/writer.hpp
index 5c41aec..ab107da 100644
--- a/src/archon/image/writer.hpp
+++ b/src/archon/image/writer.hpp
@@ -569,7 +569,7 @@ inline auto Writer::put_block_rgba(image::Pos pos, const const_int8_tray_type& t
 
 template<class R> auto Writer::put_block(image::Pos pos, const image::PixelBlock<R>& block) -> Writer&
 {
-    return put_block(pos, block.tray()); // Throws
+    return put_block<R>(pos, block.tray()); // Throws
 }
 
 
-- 
2.43.0


From dc0a3f7572db3b5d93dcf5ff61ae09c6427ddb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:11 +0000
Subject: [PATCH 51/66] fix: Writer::put_image_a(): blend background pixels
 introduced by reader of image without alpha channel

---
 src/archon/image/writer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/archon/image/writer.cpp b/src/archon/image/writer.cpp
index 2cc0fda..35db69e 100644
--- a/src/archon/image/writer.cpp
+++ b/src/archon/image/writer.cpp
@@ -160,7 +160,14 @@ auto Writer::put_image_a(image::Pos pos, image::Reader& reader, image::Box box)
     bool remove_alpha = (origin_info.has_alpha && !destin_info.has_alpha);
     bool is_float = (destin_info.comp_repr == image::CompRepr::float_);
     image::float_type opacity = get_opacity();
-    bool blending = (get_blending_enabled() && (origin_info.has_alpha || opacity != 1));
+    // Even when the origin image has no alpha channel, the background color of the reader,
+    // which can be translucent, may be introduced when reading outside the boundary of the
+    // origin image, or when a color index lies outside the palette.
+    image::Box origin_box = { box.pos + (destin_box.pos - pos), destin_box.size };
+    bool maybe_background = (reader.has_indexed_color() || !origin_box.contained_in(reader.get_image_size()));
+    bool origin_is_solid = (!origin_info.has_alpha &&
+                            (!maybe_background || reader.is_solid_color(ColorSlot::background))); // Throws
+    bool blending = (get_blending_enabled() && (!origin_is_solid || opacity != 1));
     bool is_indexed = has_indexed_color();
     bool lossless = (same_comp_repr && same_color_space && (!remove_alpha || is_float) && opacity == 1 && !blending &&
                      !is_indexed);
-- 
2.43.0


From 93a395dfb3fa1fb17e51d1cfd9e67fc3708ebf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 52/66] fix: Writer: set alpha component of colors to be
 compared

---
 src/archon/image/writer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/image/writer.hpp b/src/archon/image/writer.hpp
index ab107da..bd26e41 100644
--- a/src/archon/image/writer.hpp
+++ b/src/archon/image/writer.hpp
@@ -746,6 +746,7 @@ void Writer::color_to_promoted_native(const image::comp_type<R>* components, con
     const image::ColorSpace& destin_color_space = get_color_space();
     const image::ColorSpaceConverter* custom_converter = find_color_space_converter(color_space, destin_color_space);
     image::color_space_convert(buffer, alpha, color_space, destin_color_space, custom_converter); // Throws
+    buffer[m_num_channels_ext - 1] = alpha;
 }
 
 
-- 
2.43.0


From 1ab192d7e7133cddb6ab0445bbcc2a1336c92c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:39 +0000
Subject: [PATCH 53/66] fix: BufferFormat::try_cast_to(): get number of words
 per channel right when casting subword format to bytes

---
 src/archon/image/buffer_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/buffer_format.cpp b/src/archon/image/buffer_format.cpp
index f1396e6..6a91a42 100644
--- a/src/archon/image/buffer_format.cpp
+++ b/src/archon/image/buffer_format.cpp
@@ -206,7 +206,7 @@ bool BufferFormat::try_cast_to(IntegerFormat& format, IntegerType word_type) con
                             return false;
                     }
                     int bits_per_word_2 = bits_per_byte;
-                    int words_per_channel = bytes_per_word;
+                    int words_per_channel = subword.bits_per_channel / bits_per_byte;
                     core::Endianness word_order = byte_order;
                     ChannelConf channel_conf = subword.channel_conf;
                     if (byte_order == core::Endianness::little)
-- 
2.43.0


From 9a754f41a497735ed24da622a62baa01d781e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 54/66] fix: BufferFormat: handle formats without channels

---
 src/archon/image/buffer_format.cpp | 8 +++++---
 src/archon/image/buffer_format.hpp | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/archon/image/buffer_format.cpp b/src/archon/image/buffer_format.cpp
index 6a91a42..4a856f2 100644
--- a/src/archon/image/buffer_format.cpp
+++ b/src/archon/image/buffer_format.cpp
@@ -93,7 +93,8 @@ bool BufferFormat::try_cast_to(IntegerFormat& format, IntegerType word_type) con
             if (ARCHON_UNLIKELY(!packed.is_valid()))
                 throw std::runtime_error("Invalid buffer format");
             int num_channels = packed.channel_conf.get_num_channels();
-            ARCHON_ASSERT(num_channels > 0);
+            if (ARCHON_UNLIKELY(num_channels < 1))
+                return false;
             // Number of words per bit compound must be divisible by number of channels
             int words_per_channel = packed.words_per_pixel / num_channels;
             int remainder = packed.words_per_pixel % num_channels;
@@ -224,7 +225,7 @@ bool BufferFormat::try_cast_to(IntegerFormat& format, IntegerType word_type) con
             // If the subword format has more than one channel in a word, it is impossible
             // to express it as an integer format based on the same word type.
             int num_channels = subword.channel_conf.get_num_channels();
-            if (ARCHON_UNLIKELY(num_channels > 1 || subword.pixels_per_word > 1))
+            if (ARCHON_UNLIKELY(num_channels != 1 || subword.pixels_per_word > 1))
                 return false;
             int bits_per_word = subword.bits_per_channel;
             int words_per_channel = 1;
@@ -410,7 +411,8 @@ bool BufferFormat::try_cast_to(SubwordFormat& format, IntegerType word_type) con
                 return false;
             // All bit fields must have the same width, and no gap after them.
             int num_channels = packed.channel_conf.get_num_channels();
-            ARCHON_ASSERT(num_channels > 0);
+            if (ARCHON_UNLIKELY(num_channels < 1))
+                return false;
             int bits_per_channel = packed.bit_fields[0].width;
             for (int i = 0; i < num_channels; ++i) {
                 image::BitField field = packed.bit_fields[i];
diff --git a/src/archon/image/buffer_format.hpp b/src/archon/image/buffer_format.hpp
index d76943e..a2902aa 100644
--- a/src/archon/image/buffer_format.hpp
+++ b/src/archon/image/buffer_format.hpp
@@ -453,7 +453,7 @@ inline bool BufferFormat::SubwordFormat::is_valid() const noexcept
     int num_channels = channel_conf.get_num_channels();
     return (bits_per_channel > 0 && pixels_per_word > 0 &&
             num_channels <= core::int_max<int>() / bits_per_channel &&
-            pixels_per_word <= avail_bits_per_word / (num_channels * bits_per_channel));
+            (num_channels < 1 || pixels_per_word <= avail_bits_per_word / (num_channels * bits_per_channel)));
 }
 
 
-- 
2.43.0


From 59f085c9bb12d330d68247eb8ba5d506bbaf9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:56 +0000
Subject: [PATCH 55/66] fix: BufferFormat::try_cast_to(): get order of channels
 right when casting packed format to integer format

---
 src/archon/image/buffer_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/buffer_format.cpp b/src/archon/image/buffer_format.cpp
index 4a856f2..b03709d 100644
--- a/src/archon/image/buffer_format.cpp
+++ b/src/archon/image/buffer_format.cpp
@@ -166,7 +166,7 @@ bool BufferFormat::try_cast_to(IntegerFormat& format, IntegerType word_type) con
                 word_order,
                 packed.channel_conf,
             };
-            if (word_order == core::Endianness::big)
+            if (packed.word_order == core::Endianness::little)
                 format.channel_conf.reverse();
             return true;
         }
-- 
2.43.0


From d10b15c897506505adb6f1adfd5dc347f680d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:09 +0000
Subject: [PATCH 56/66] fix: BufferFormat: report unsupported word types as
 such

---
 src/archon/image/buffer_format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/image/buffer_format.hpp b/src/archon/image/buffer_format.hpp
index a2902aa..93cff56 100644
--- a/src/archon/image/buffer_format.hpp
+++ b/src/archon/image/buffer_format.hpp
@@ -633,7 +633,7 @@ template<class W> constexpr bool BufferFormat::try_map_integer_type(IntegerType&
         return true;
     }
     else {
-        return true;
+        return false;
     }
 }
 
@@ -653,7 +653,7 @@ template<class W> constexpr bool BufferFormat::try_map_float_type(FloatType& wor
         return true;
     }
     else {
-        return true;
+        return false;
     }
 }
 
-- 
2.43.0


From 92f799a9ac6ad1194875a1d8d8d5c4024e2c4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:47 +0000
Subject: [PATCH 57/66] fix: KeyBindings::bind_key(): keep track of key that is
 currently pressed down

---
 src/archon/render/impl/key_bindings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archon/render/impl/key_bindings.cpp b/src/archon/render/impl/key_bindings.cpp
index 36dfec1..31587c7 100644
--- a/src/archon/render/impl/key_bindings.cpp
+++ b/src/archon/render/impl/key_bindings.cpp
@@ -208,7 +208,9 @@ bool KeyBindings::resume_incomplete_on_blur()
 
 void KeyBindings::KeySlot::on_reconfigured() noexcept
 {
-    reset_key_state();
+    // If the key is currently pressed down, it must still be possible for the handler, that
+    // was notified about the press, to be notified about the release.
+    multiplicity = 0;
     max_multiplicity = 0;
     for (const auto& entry : handlers) {
         const Subkey& subkey = entry.first;
-- 
2.43.0


From 3deb66d7a253a067878d29356fd3a6e8e0bbd641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 58/66] fix: KeyBindings: allow for handlers to register
 handlers and bind keys while they are executing

---
 src/archon/render/impl/key_bindings.cpp | 10 ++++++----
 src/archon/render/impl/key_bindings.hpp |  5 ++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/archon/render/impl/key_bindings.cpp b/src/archon/render/impl/key_bindings.cpp
index 31587c7..74d16ee 100644
--- a/src/archon/render/impl/key_bindings.cpp
+++ b/src/archon/render/impl/key_bindings.cpp
@@ -19,6 +19,7 @@
 // DEALINGS IN THE SOFTWARE.
 
 
+#include <memory>
 #include <utility>
 #include <stdexcept>
 #include <functional>
@@ -92,7 +93,7 @@ auto KeyBindings::register_handler(std::string_view label, std::function<bool(bo
     decltype(render::KeyHandlerIdent::value) handler_index = {};
     core::int_cast(m_handlers.size(), handler_index); // Throws
     auto label_2 = std::string(label); // Throws
-    m_handlers.push_back({ std::move(func), std::move(label_2) }); // Throws
+    m_handlers.push_back(std::make_unique<KeyHandler>(KeyHandler { std::move(func), std::move(label_2) })); // Throws
     return { handler_index };
 }
 
@@ -176,7 +177,7 @@ template<bool down> inline bool KeyBindings::on_key(const KeyIdent& key_ident, T
     }
 
     ARCHON_ASSERT(slot.handler_index >= 0);
-    const KeyHandler& handler = m_handlers[slot.handler_index];
+    const KeyHandler& handler = *m_handlers[slot.handler_index];
     return handler.func(down); // Throws
 }
 
@@ -185,6 +186,7 @@ bool KeyBindings::resume_incomplete_on_blur()
 {
     ARCHON_ASSERT(m_on_blur_in_progress);
 
+  restart:
     for (auto& entry : m_key_slots) {
         KeySlot& slot = entry.second;
         bool was_pressed = slot.is_pressed;
@@ -192,11 +194,11 @@ bool KeyBindings::resume_incomplete_on_blur()
         slot.reset_key_state();
         if (ARCHON_LIKELY(!was_pressed || handler_index < 0))
             continue;
-        const KeyHandler& handler = m_handlers[handler_index];
+        const KeyHandler& handler = *m_handlers[handler_index];
         bool down = false;
         bool proceed = handler.func(down); // Throws
         if (ARCHON_LIKELY(proceed))
-            continue;
+            goto restart; // The handler may have bound more keys
         return false; // Interrupt event processing
     }
 
diff --git a/src/archon/render/impl/key_bindings.hpp b/src/archon/render/impl/key_bindings.hpp
index de4b754..948def3 100644
--- a/src/archon/render/impl/key_bindings.hpp
+++ b/src/archon/render/impl/key_bindings.hpp
@@ -22,6 +22,7 @@
 #define ARCHON_X_RENDER_X_IMPL_X_KEY_BINDINGS_HPP
 
 
+#include <memory>
 #include <functional>
 #include <string_view>
 #include <vector>
@@ -79,7 +80,9 @@ private:
     struct KeyHandler;
     struct KeySlot;
 
-    std::vector<KeyHandler> m_handlers;
+    // Handlers must have stable addresses because a handler function may register new
+    // handlers while it is being executed.
+    std::vector<std::unique_ptr<KeyHandler>> m_handlers;
 
     core::FlatMap<KeyIdent, KeySlot> m_key_slots;
 
-- 
2.43.0


From 203d8511fe3eb03be7ed0df9982febc8c0c77c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:13 +0000
Subject: [PATCH 59/66] fix: Render engine: make composed modifier modes and
 redundant modifier keys work

---
 src/archon/render/noinst/engine_impl.cpp | 69 +++++++++++-------------
 src/archon/render/noinst/engine_impl.hpp |  8 +++
 2 files changed, 38 insertions(+), 39 deletions(-)

diff --git a/src/archon/render/noinst/engine_impl.cpp b/src/archon/render/noinst/engine_impl.cpp
index d0b8c2d..f8783e1 100644
--- a/src/archon/render/noinst/engine_impl.cpp
+++ b/src/archon/render/noinst/engine_impl.cpp
@@ -106,26 +106,26 @@ bool EngineImpl::try_init(std::string_view window_title, display::Size window_si
     handler = register_builtin_key_handler(BuiltinKeyHandler::shift_modifier,
                                            "Shift modifier mode",
                                            &EngineImpl::key_func_shift_modifier); // Throws
-    bind_key(display::Key::shift_left, handler); // Throws
-    bind_key(display::Key::shift_right, handler); // Throws
+    bind_modifier_key(display::Key::shift_left, handler); // Throws
+    bind_modifier_key(display::Key::shift_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::control_modifier,
                                            "Control modifier mode",
                                            &EngineImpl::key_func_control_modifier); // Throws
-    bind_key(display::Key::ctrl_left, handler); // Throws
-    bind_key(display::Key::ctrl_right, handler); // Throws
+    bind_modifier_key(display::Key::ctrl_left, handler); // Throws
+    bind_modifier_key(display::Key::ctrl_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::alt_modifier,
                                            "Alt modifier mode",
                                            &EngineImpl::key_func_alt_modifier); // Throws
-    bind_key(display::Key::alt_left, handler); // Throws
-    bind_key(display::Key::alt_right, handler); // Throws
+    bind_modifier_key(display::Key::alt_left, handler); // Throws
+    bind_modifier_key(display::Key::alt_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::meta_modifier,
                                            "Meta modifier mode",
                                            &EngineImpl::key_func_meta_modifier); // Throws
-    bind_key(display::Key::meta_left, handler); // Throws
-    bind_key(display::Key::meta_right, handler); // Throws
+    bind_modifier_key(display::Key::meta_left, handler); // Throws
+    bind_modifier_key(display::Key::meta_right, handler); // Throws
 
     handler = register_builtin_key_handler(BuiltinKeyHandler::quit,
                                            "Quit application",
@@ -536,58 +536,49 @@ auto EngineImpl::register_builtin_key_handler(BuiltinKeyHandler ident, std::stri
 }
 
 
-bool EngineImpl::key_func_shift_modifier(bool down)
+void EngineImpl::bind_modifier_key(display::Key key, render::KeyHandlerIdent handler)
 {
+    // A modifier key must have effect regardless of which other modifier keys are pressed
+    // down.
+    render::KeyModifierMode all = render::modif_shift | render::modif_ctrl | render::modif_alt | render::modif_meta;
+    for (unsigned value = 0; value <= all.value; ++value)
+        bind_key(key, { value }, render::single_tap, handler); // Throws
+}
+
+
+void EngineImpl::on_modifier_key(render::KeyModifierMode modifier, int& num_pressed_keys, bool down) noexcept
+{
+    num_pressed_keys += (down ? 1 : -1);
     auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_shift;
-    }
-    else {
-        mode = mode & ~render::modif_shift;
-    }
+    mode = (num_pressed_keys > 0 ? mode | modifier : mode & ~modifier);
     m_key_bindings.set_modifier_mode(mode);
+}
+
+
+bool EngineImpl::key_func_shift_modifier(bool down)
+{
+    on_modifier_key(render::modif_shift, m_num_pressed_shift_keys, down);
     return true;
 }
 
 
 bool EngineImpl::key_func_control_modifier(bool down)
 {
-    auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_ctrl;
-    }
-    else {
-        mode = mode & ~render::modif_ctrl;
-    }
-    m_key_bindings.set_modifier_mode(mode);
+    on_modifier_key(render::modif_ctrl, m_num_pressed_control_keys, down);
     return true;
 }
 
 
 bool EngineImpl::key_func_alt_modifier(bool down)
 {
-    auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_alt;
-    }
-    else {
-        mode = mode & ~render::modif_alt;
-    }
-    m_key_bindings.set_modifier_mode(mode);
+    on_modifier_key(render::modif_alt, m_num_pressed_alt_keys, down);
     return true;
 }
 
 
 bool EngineImpl::key_func_meta_modifier(bool down)
 {
-    auto mode = m_key_bindings.get_modifier_mode();
-    if (down) {
-        mode = mode | render::modif_meta;
-    }
-    else {
-        mode = mode & ~render::modif_meta;
-    }
-    m_key_bindings.set_modifier_mode(mode);
+    on_modifier_key(render::modif_meta, m_num_pressed_meta_keys, down);
     return true;
 }
 
diff --git a/src/archon/render/noinst/engine_impl.hpp b/src/archon/render/noinst/engine_impl.hpp
index 5755cf1..04e4b6d 100644
--- a/src/archon/render/noinst/engine_impl.hpp
+++ b/src/archon/render/noinst/engine_impl.hpp
@@ -165,6 +165,11 @@ private:
     bool m_wireframe_mode = false;
     bool m_wireframe_mode_prev = false;
 
+    int m_num_pressed_shift_keys = 0;
+    int m_num_pressed_control_keys = 0;
+    int m_num_pressed_alt_keys = 0;
+    int m_num_pressed_meta_keys = 0;
+
     int m_max_opengl_errors = 8;
 
     static auto instantiate_fallback_logger(std::unique_ptr<log::FileLogger>&, const std::locale&) -> log::Logger&;
@@ -174,6 +179,9 @@ private:
     auto register_builtin_key_handler(BuiltinKeyHandler ident, std::string_view label,
                                       bool (EngineImpl::* func)(bool down)) -> render::KeyHandlerIdent;
 
+    void bind_modifier_key(display::Key, render::KeyHandlerIdent);
+    void on_modifier_key(render::KeyModifierMode, int& num_pressed_keys, bool down) noexcept;
+
     bool key_func_shift_modifier(bool down);
     bool key_func_control_modifier(bool down);
     bool key_func_alt_modifier(bool down);
-- 
2.43.0


From 3d264bee0d2b39526bfaf78d4abb8f4d15390f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:30 +0000
Subject: [PATCH 60/66] fix: VirtualTrackball::release(): avoid division by
 zero when mouse was moved and released instantaneously

---
 src/archon/render/virt_trackball.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/render/virt_trackball.cpp b/src/archon/render/virt_trackball.cpp
index 5147ec3..ffa4592 100644
--- a/src/archon/render/virt_trackball.cpp
+++ b/src/archon/render/virt_trackball.cpp
@@ -115,8 +115,10 @@ void VirtualTrackball::release(Clock::time_point now) noexcept
 
     // To apply a spin to the ball, we require that it was either acquired for more than 200
     // milliseconds or the mouse was moved more than 4 pixels. Otherwise we take it as an
-    // attempt to stop the ball from spinning.
-    if (m_track_millis < 200 && math::len(m_first_track_pos - m_track_pos) < 4) {
+    // attempt to stop the ball from spinning. If no time passed between the first and the
+    // last mouse event, there is no way to know the speed of the mouse.
+    bool no_time_passed = (m_track_millis <= 0);
+    if (no_time_passed || (m_track_millis < 200 && math::len(m_first_track_pos - m_track_pos) < 4)) {
         m_spin.angle = 0;
         return;
     }
-- 
2.43.0


From 94f6e7856781407886deb2876ad0936bbd0484e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:53 +0000
Subject: [PATCH 61/66] fix: VirtualTrackball: avoid NaN orientation when mouse
 is moved across the entire ball

---
 src/archon/render/virt_trackball.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/archon/render/virt_trackball.hpp b/src/archon/render/virt_trackball.hpp
index 53f2188..83ff72a 100644
--- a/src/archon/render/virt_trackball.hpp
+++ b/src/archon/render/virt_trackball.hpp
@@ -332,9 +332,11 @@ inline auto VirtualTrackball::calc_rotation(const math::Vector3& a, const math::
 {
     math::Vector3 axis = math::cross(a, b);
     double ss = math::sq_sum(axis);
-    double dp = math::dot(a, b);
-    if (ARCHON_LIKELY(ss != 0 && dp <= 1))
-        return { axis / std::sqrt(ss), std::acos(dp) };
+    if (ARCHON_LIKELY(ss != 0)) {
+        // Due to rounding errors, the dot product can fall outside the domain of the arccosine
+        double len = std::sqrt(ss);
+        return { axis / len, std::atan2(len, math::dot(a, b)) };
+    }
     return {};
 }
 
-- 
2.43.0


From 5307c0348f68fd796a28b92cb667f89b501c53ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:01 +0000
Subject: [PATCH 62/66] fix: core::get_type_ident(): produce same identifier in
 all translation units

---
 src/archon/core/impl/type_ident_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/impl/type_ident_impl.hpp b/src/archon/core/impl/type_ident_impl.hpp
index fa7df37..082cf98 100644
--- a/src/archon/core/impl/type_ident_impl.hpp
+++ b/src/archon/core/impl/type_ident_impl.hpp
@@ -43,7 +43,7 @@ using type_ident_type = std::uintptr_t;
 struct TypeIdentHelper {};
 
 
-template<class> constexpr impl::TypeIdentHelper type_ident_helper;
+template<class> inline constexpr impl::TypeIdentHelper type_ident_helper;
 
 
 template<class T> inline bool try_get_type_ident(impl::type_ident_type& ident) noexcept
-- 
2.43.0


From ce6c419ba1799748e3adb5c941c44108eae8e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 63/66] fix: Saving of PNG: handle combination of interlacing
 and little endian bit order

---
 src/archon/image/file_format_png.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/archon/image/file_format_png.cpp b/src/archon/image/file_format_png.cpp
index f2f08a5..0403589 100644
--- a/src/archon/image/file_format_png.cpp
+++ b/src/archon/image/file_format_png.cpp
@@ -1070,8 +1070,13 @@ bool save(const image::Image& image, core::Sink& sink, const std::locale& loc, l
         if (ARCHON_LIKELY(image.try_get_buffer(buffer_format, buffer_2) &&
                           try_match_save_format(buffer_format, image_size, ctx.format, ctx.xforms,
                                                 ctx.bytes_per_row))) { // Throws
-            buffer = static_cast<const png_byte*>(buffer_2);
-            format_matched = true;
+            // When libpng splits an image into Adam7 passes, it does so before it swaps the
+            // order of pixels inside bytes, so in that case, the order must already be right.
+            bool bad_order = (ctx.xforms.swap_bits && config.use_adam7_interlacing);
+            if (ARCHON_LIKELY(!bad_order)) {
+                buffer = static_cast<const png_byte*>(buffer_2);
+                format_matched = true;
+            }
         }
     }
     if (!format_matched) {
-- 
2.43.0


From b154afe941cd6be7507ccf69d0cd2491296e440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:54 +0000
Subject: [PATCH 64/66] fix: Fallback font: reject glyphs of negative size

---
 src/archon/font/loader_fallback.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archon/font/loader_fallback.cpp b/src/archon/font/loader_fallback.cpp
index 3c6fef9..0b6815e 100644
--- a/src/archon/font/loader_fallback.cpp
+++ b/src/archon/font/loader_fallback.cpp
@@ -288,6 +288,10 @@ bool load_spec(core::FilesystemPathRef resource_dir, log::Logger& logger, const
             bool success = text_parser.parse(line, delim, fields, field_seq, min, max, error, value, label,
                                              pos); // Throws
             if (ARCHON_LIKELY(success)) {
+                if (ARCHON_UNLIKELY(!glyph.box.size.is_valid())) {
+                    error_1("Negative glyph size (%s)", glyph.box.size); // Throws
+                    goto error;
+                }
                 if (ARCHON_UNLIKELY(!glyph.box.contained_in(spec.image_size))) {
                     error_1("Glyph box (%s; %s) escapes image boundary (%s)", glyph.box.pos, glyph.box.size,
                             spec.image_size); // Throws
-- 
2.43.0


From 190ff6cdbde63e9de0381fd9831b1f6275131c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:48 +0000
Subject: [PATCH 65/66] fix: regen_fallback_font(): do not apply numeric
 formatting of locale to generated specification

---
 src/archon/font/loader_fallback.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/font/loader_fallback.cpp b/src/archon/font/loader_fallback.cpp
index 0b6815e..d3496ad 100644
--- a/src/archon/font/loader_fallback.cpp
+++ b/src/archon/font/loader_fallback.cpp
@@ -796,7 +796,8 @@ void font::regen_fallback_font(font::Face& face, bool try_keep_orig_font_size,
         fs::path path = generate_file_path(resource_dir, g_spec_file_name, loc, "-new"); // Throws
         core::BufferedTextFile file(path, core::File::Mode::write); // Throws
         core::SeedMemoryOutputStream out; // Throws
-        out.imbue(loc); // Throws
+        std::locale loc_2(loc, std::locale::classic(), std::locale::numeric); // Throws
+        out.imbue(loc_2); // Throws
         out.exceptions(std::ios_base::badbit | std::ios_base::failbit); // Throws
         auto format = [&](const char* message, const auto&... params) {
             core::format(out, message, params...); // Throws
-- 
2.43.0


From 87f0a54b955b0f05ec64c8f775e9115353238509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 66/66] fix: Text file stream: do not allow for get position to
 move back beyond reported position

---
 src/archon/core/text_file_stream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/archon/core/text_file_stream.hpp b/src/archon/core/text_file_stream.hpp
index 2cf9eb9..de411bb 100644
--- a/src/archon/core/text_file_stream.hpp
+++ b/src/archon/core/text_file_stream.hpp
@@ -643,6 +643,9 @@ inline void GenericTextFileStreambuf<I>::advance()
     std::size_t n = std::size_t(this->gptr() - m_base);
     m_text_file_impl.advance(n); // Throws
     m_base = this->gptr();
+    // Prevent putting back of characters beyond the position of the logical file pointer of
+    // the text file implementation
+    this->setg(m_base, m_base, this->egptr());
 }
 
 
-- 
2.43.0

