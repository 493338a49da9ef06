From a350636be68b40fc70f67b4223d755f3baacdbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 01/14] fix: accept padding when decoding Base64

The decoder did not advance past padding characters, and did not accept end of
input after padding, so padded input could never be decoded.
---
 src/archon/core/base64.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/base64.cpp b/src/archon/core/base64.cpp
index 7a95f2c..6737cbb 100644
--- a/src/archon/core/base64.cpp
+++ b/src/archon/core/base64.cpp
@@ -424,6 +424,7 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
         if (ARCHON_LIKELY(is_padding)) {
             bool allow_padding = (m_config.padding != DecodeConfig::Padding::reject);
             if (ARCHON_LIKELY(allow_padding && valid_partial())) {
+                ++data_begin;
                 ++m_padding_size;
                 if (ARCHON_LIKELY(m_holding_size + m_padding_size < 4))
                     goto input;
@@ -439,9 +440,9 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
         bool require_padding = (m_config.padding == DecodeConfig::Padding::require);
         if (ARCHON_LIKELY(!require_padding && valid_partial()))
             goto partial;
-        if (ARCHON_LIKELY(m_holding_size == 0))
-            return true;
     }
+    if (ARCHON_LIKELY(m_holding_size == 0))
+        return true;
     return false; // Prematute end of input
 
   batch:
-- 
2.43.0


From 1302b98c96d05996f47452b3e856b0f118b8b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:07 +0000
Subject: [PATCH 02/14] fix: keep already converted text in lenient UTF
 conversions

---
 src/archon/core/unicode.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/archon/core/unicode.hpp b/src/archon/core/unicode.hpp
index 87a6c2e..08173ce 100644
--- a/src/archon/core/unicode.hpp
+++ b/src/archon/core/unicode.hpp
@@ -1392,7 +1392,7 @@ void encode_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::siz
             traits_type::to_char_type(0xBF),
             traits_type::to_char_type(0xBD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1449,7 +1449,7 @@ void decode_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::siz
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1502,7 +1502,7 @@ void encode_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::si
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1559,7 +1559,7 @@ void decode_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::si
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1613,7 +1613,7 @@ void utf8_to_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::s
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1669,7 +1669,7 @@ void utf16_to_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::s
             traits_type::to_char_type(0xBF),
             traits_type::to_char_type(0xBD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
-- 
2.43.0


From 3a1813069b45f2e4f770ab77189ebcf87550cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 03/14] fix: erase from deque whose contents wrap around

---
 src/archon/core/deque.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index 23fe267..77777ac 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -1191,8 +1191,8 @@ void Deque<T>::erase_near_front(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type n = std::min(after, begin);
-            begin_2 = begin - n;
+            size_type n = std::min(after, begin_2);
+            begin_2 -= n;
             core::uninit_safe_move(base + m_offset + begin_2, n, base + (after - n));
         }
     }
@@ -1237,7 +1237,7 @@ void Deque<T>::erase_near_back(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type remain = size_type(m_size - end);
+            size_type remain = size_type(m_size - end_2);
             size_type n = std::min(before, remain);
             core::uninit_safe_move(base + after, n, base + m_offset + (top - before));
             end_2 += n;
-- 
2.43.0


From 83325bdbf416bff9e66f3a1ec595741febd0e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:42 +0000
Subject: [PATCH 04/14] fix: fill only the new elements when resizing a vector

---
 src/archon/core/impl/vector_impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/impl/vector_impl.hpp b/src/archon/core/impl/vector_impl.hpp
index debd31f..7d80ff0 100644
--- a/src/archon/core/impl/vector_impl.hpp
+++ b/src/archon/core/impl/vector_impl.hpp
@@ -185,7 +185,7 @@ inline void VectorImpl<T>::reserve(std::size_t min_capacity)
 {
     if (ARCHON_LIKELY(min_capacity <= m_capacity))
         return;
-    do_reserve_extra(min_capacity); // Throws
+    do_reserve(min_capacity); // Throws
 }
 
 
@@ -289,7 +289,7 @@ void VectorImpl<T>::resize(std::size_t size)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, data() + m_size);
+        core::uninit_safe_fill(size - m_size, data() + m_size);
     }
     m_size = size;
 }
@@ -303,7 +303,7 @@ void VectorImpl<T>::resize(std::size_t size, const T& value)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, value, data() + m_size);
+        core::uninit_safe_fill(size - m_size, value, data() + m_size);
     }
     m_size = size;
 }
-- 
2.43.0


From cba08930e8ccf5109e0601a158074ae9c596c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:01 +0000
Subject: [PATCH 05/14] fix: reject one-past-the-end index in checked buffer
 access

---
 src/archon/core/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/buffer.hpp b/src/archon/core/buffer.hpp
index a514e3a..ec2b744 100644
--- a/src/archon/core/buffer.hpp
+++ b/src/archon/core/buffer.hpp
@@ -697,7 +697,7 @@ void Buffer<T>::prepend_a(T val, std::size_t& offset, std::size_t n)
 template<class T>
 inline void Buffer<T>::verify_index(std::size_t i) const
 {
-    if (ARCHON_LIKELY(i <= size()))
+    if (ARCHON_LIKELY(i < size()))
         return;
     throw std::out_of_range("Buffer element index");
 }
-- 
2.43.0


From d70b5ac29b9eb928784d0a95d84ed47fbf6b2265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:36 +0000
Subject: [PATCH 06/14] fix: recognize negative values in two's complement
 casts from narrow unsigned types

can_twos_compl_cast() and try_twos_compl_cast() refused every negative
value when the origin type was narrower than int, because the expected
sign extension was not reduced to the width of the origin type.
---
 src/archon/core/integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/integer.hpp b/src/archon/core/integer.hpp
index 7418368..784756a 100644
--- a/src/archon/core/integer.hpp
+++ b/src/archon/core/integer.hpp
@@ -1480,7 +1480,7 @@ template<class T, class F> constexpr bool can_twos_compl_cast(F val) noexcept
             auto sign_bit = core::promote(val) & (core::promote(F(1)) << (width_t - 1));
             auto expected_sign_extension = ~((sign_bit << 1) - 1);
             auto actual_sign_extension = core::promote(val) & (core::promote(F(-1)) << width_t);
-            return (actual_sign_extension == expected_sign_extension);
+            return (F(actual_sign_extension) == F(expected_sign_extension));
         }
     }
     if constexpr (std::is_unsigned_v<T>)
@@ -1505,7 +1505,7 @@ template<class T, class F> constexpr bool try_twos_compl_cast(F from, T& to) noe
             auto sign_bit = core::promote(from) & (core::promote(F(1)) << (width_t - 1));
             auto expected_sign_extension = ~((sign_bit << 1) - 1);
             auto actual_sign_extension = core::promote(from) & (core::promote(F(-1)) << width_t);
-            if (ARCHON_LIKELY(actual_sign_extension == expected_sign_extension)) {
+            if (ARCHON_LIKELY(F(actual_sign_extension) == F(expected_sign_extension))) {
                 to = T(from);
                 return true;
             }
-- 
2.43.0


From 0fbad8a15df079366abd61b97bb268e07e8544c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:43 +0000
Subject: [PATCH 07/14] fix: compare floating-point values with integers
 exactly when they exceed the mantissa

---
 src/archon/core/float.hpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/archon/core/float.hpp b/src/archon/core/float.hpp
index d068c78..7619042 100644
--- a/src/archon/core/float.hpp
+++ b/src/archon/core/float.hpp
@@ -290,9 +290,10 @@ template<class F, class I> inline bool float_less_int(F float_val, I int_val) no
 {
     if (ARCHON_UNLIKELY(float_val < F(0))) {
         if constexpr (core::is_signed<I>()) {
-            using float_traits_type = core::FloatTraits<F>;
-            F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-            return (float_val < core::min_float_for_int<F, I>() || core::float_to_int_a<I>(float_val_2) <= int_val);
+            if (ARCHON_UNLIKELY(float_val < (core::min_float_for_int<F, I>())))
+                return true;
+            I int_val_2 = core::float_to_int_a<I>(float_val);
+            return (int_val_2 < int_val || (int_val_2 == int_val && float_val < std::trunc(float_val)));
         }
         return (float_val < F(0)); // Catch NaN
     }
@@ -303,9 +304,10 @@ template<class F, class I> inline bool float_less_int(F float_val, I int_val) no
 template<class F, class I> inline bool float_greater_int(F float_val, I int_val) noexcept
 {
     if (ARCHON_LIKELY(float_val > F(0))) {
-        using float_traits_type = core::FloatTraits<F>;
-        F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-        return (float_val > core::max_float_for_int<F, I>() || core::float_to_int_a<I>(float_val_2) >= int_val);
+        if (ARCHON_UNLIKELY(float_val > (core::max_float_for_int<F, I>())))
+            return true;
+        I int_val_2 = core::float_to_int_a<I>(float_val);
+        return (int_val_2 > int_val || (int_val_2 == int_val && float_val > std::trunc(float_val)));
     }
     if constexpr (core::is_signed<I>()) {
         return (float_val >= core::min_float_for_int<F, I>() && core::float_to_int_a<I>(float_val) > int_val);
@@ -322,9 +324,11 @@ template<class F, class I> inline bool float_less_equal_int(F float_val, I int_v
         }
         return (float_val <= F(0)); // Catch NaN
     }
-    using float_traits_type = core::FloatTraits<F>;
-    F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-    return (float_val <= core::max_float_for_int<F, I>() && core::float_to_int_a<I>(float_val_2) < int_val);
+    if (ARCHON_LIKELY(float_val <= (core::max_float_for_int<F, I>()))) {
+        I int_val_2 = core::float_to_int_a<I>(float_val);
+        return (int_val_2 < int_val || (int_val_2 == int_val && float_val == std::trunc(float_val)));
+    }
+    return false;
 }
 
 
@@ -333,9 +337,11 @@ template<class F, class I> inline bool float_greater_equal_int(F float_val, I in
     if (ARCHON_LIKELY(float_val >= F(0)))
         return (float_val > core::max_float_for_int<F, I>() || core::float_to_int_a<I>(float_val) >= int_val);
     if constexpr (core::is_signed<I>()) {
-        using float_traits_type = core::FloatTraits<F>;
-        F float_val_2 = float_traits_type::nextafter(float_val, F(0));
-        return (float_val >= core::min_float_for_int<F, I>() && core::float_to_int_a<I>(float_val_2) > int_val);
+        if (ARCHON_LIKELY(float_val >= (core::min_float_for_int<F, I>()))) {
+            I int_val_2 = core::float_to_int_a<I>(float_val);
+            return (int_val_2 > int_val || (int_val_2 == int_val && float_val == std::trunc(float_val)));
+        }
+        return false;
     }
     return (float_val >= F(0)); // Catch NaN
 }
-- 
2.43.0


From b81c21a49221c5b8d2f8c8cdc5a1a597fd31f650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:38 +0000
Subject: [PATCH 08/14] fix: compute distances between far apart boxes without
 overflow

---
 src/archon/util/pixel_box.hpp | 49 ++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/archon/util/pixel_box.hpp b/src/archon/util/pixel_box.hpp
index 0ef5fa1..f7fefaf 100644
--- a/src/archon/util/pixel_box.hpp
+++ b/src/archon/util/pixel_box.hpp
@@ -209,20 +209,26 @@ constexpr bool Box::is_empty() const noexcept
 
 constexpr bool Box::intersects(const Box& other) const noexcept
 {
-    bool horz = (pos.x < other.pos.x ? size.width > other.pos.x - pos.x && other.size.width > 0 :
-                 other.size.width > pos.x - other.pos.x && size.width > 0);
-    bool vert = (pos.y < other.pos.y ? size.height > other.pos.y - pos.y && other.size.height > 0 :
-                 other.size.height > pos.y - other.pos.y && size.height > 0);
+    // Distances between coordinates are computed in `unsigned` because they may not be
+    // representable in `int`.
+    bool horz = (size.width > 0 && other.size.width > 0 &&
+                 (pos.x < other.pos.x ? unsigned(size.width) > unsigned(other.pos.x) - unsigned(pos.x) :
+                  unsigned(other.size.width) > unsigned(pos.x) - unsigned(other.pos.x)));
+    bool vert = (size.height > 0 && other.size.height > 0 &&
+                 (pos.y < other.pos.y ? unsigned(size.height) > unsigned(other.pos.y) - unsigned(pos.y) :
+                  unsigned(other.size.height) > unsigned(pos.y) - unsigned(other.pos.y)));
     return (horz && vert);
 }
 
 
 constexpr bool Box::contains(const Box& other) const noexcept
 {
+    // Distances between coordinates are computed in `unsigned` because they may not be
+    // representable in `int`.
     bool horz = (other.pos.x >= pos.x && other.size.width <= size.width &&
-                 other.pos.x - pos.x <= size.width - other.size.width);
+                 unsigned(other.pos.x) - unsigned(pos.x) <= unsigned(size.width) - unsigned(other.size.width));
     bool vert = (other.pos.y >= pos.y && other.size.height <= size.height &&
-                 other.pos.y - pos.y <= size.height - other.size.height);
+                 unsigned(other.pos.y) - unsigned(pos.y) <= unsigned(size.height) - unsigned(other.size.height));
     return (horz && vert);
 }
 
@@ -244,32 +250,39 @@ constexpr bool Box::clip(Box& other) const noexcept
     pixel::Pos pos_2   = other.pos;
     pixel::Size size_2 = other.size;
 
+    // Distances between coordinates are computed in `unsigned` because they may not be
+    // representable in `int`.
+
+    if (ARCHON_UNLIKELY(size.width <= 0 || size_2.width <= 0))
+        return false;
     if (ARCHON_LIKELY(pos_2.x >= pos.x)) {
-        int discr = size.width - (pos_2.x - pos.x);
-        if (ARCHON_UNLIKELY(discr <= 0 || size_2.width <= 0))
+        unsigned dist = unsigned(pos_2.x) - unsigned(pos.x);
+        if (ARCHON_UNLIKELY(dist >= unsigned(size.width)))
             return false;
-        size_2.width = std::min(size_2.width, discr);
+        size_2.width = std::min(size_2.width, size.width - int(dist));
     }
     else {
-        int discr = size_2.width - (pos.x - pos_2.x);
-        if (ARCHON_UNLIKELY(discr <= 0 || size.width <= 0))
+        unsigned dist = unsigned(pos.x) - unsigned(pos_2.x);
+        if (ARCHON_UNLIKELY(dist >= unsigned(size_2.width)))
             return false;
         pos_2.x = pos.x;
-        size_2.width = std::min(size.width, discr);
+        size_2.width = std::min(size.width, size_2.width - int(dist));
     }
 
+    if (ARCHON_UNLIKELY(size.height <= 0 || size_2.height <= 0))
+        return false;
     if (ARCHON_LIKELY(pos_2.y >= pos.y)) {
-        int discr = size.height - (pos_2.y - pos.y);
-        if (ARCHON_UNLIKELY(discr <= 0 || size_2.height <= 0))
+        unsigned dist = unsigned(pos_2.y) - unsigned(pos.y);
+        if (ARCHON_UNLIKELY(dist >= unsigned(size.height)))
             return false;
-        size_2.height = std::min(size_2.height, discr);
+        size_2.height = std::min(size_2.height, size.height - int(dist));
     }
     else {
-        int discr = size_2.height - (pos.y - pos_2.y);
-        if (ARCHON_UNLIKELY(discr <= 0 || size.height <= 0))
+        unsigned dist = unsigned(pos.y) - unsigned(pos_2.y);
+        if (ARCHON_UNLIKELY(dist >= unsigned(size_2.height)))
             return false;
         pos_2.y = pos.y;
-        size_2.height = std::min(size.height, discr);
+        size_2.height = std::min(size.height, size_2.height - int(dist));
     }
 
     other = { pos_2, size_2 };
-- 
2.43.0


From 2c2f0c4cb763acaa2ae59127c0605937b6ae2576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:40 +0000
Subject: [PATCH 09/14] fix: digest exactly one octet for the most significant
 octet of an integer

---
 src/archon/core/hash_fnv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/hash_fnv.hpp b/src/archon/core/hash_fnv.hpp
index 77c6478..13d6551 100644
--- a/src/archon/core/hash_fnv.hpp
+++ b/src/archon/core/hash_fnv.hpp
@@ -135,7 +135,7 @@ template<class T> constexpr void Hash_FNV_1a_32::add_int(T value) noexcept
             offset += 8;
         }
     }
-    add_octet(value_type(value_2));
+    add_octet(value_type(value_2 & 0xFF));
 }
 
 
-- 
2.43.0


From d03d8959b123a2a098b443ebca5eb1d69e3d8c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:40 +0000
Subject: [PATCH 10/14] fix: suggest a bin width that accounts for rectangle
 heights and cannot overflow

---
 src/archon/util/rectangle_packer.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/archon/util/rectangle_packer.hpp b/src/archon/util/rectangle_packer.hpp
index d6c0379..027601d 100644
--- a/src/archon/util/rectangle_packer.hpp
+++ b/src/archon/util/rectangle_packer.hpp
@@ -166,14 +166,16 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
             part_type w = part_type(rect.w);
             part_type h = part_type(rect.h);
             if (ARCHON_LIKELY(core::try_int_add(w, m_spacing) &&
-                              core::try_int_add(w, m_spacing))) {
+                              core::try_int_add(h, m_spacing))) {
                 part_type a = w;
                 if (ARCHON_LIKELY(core::try_int_mul(a, h) && core::try_int_add(area, a)))
                     continue;
             }
             goto fallback;
         }
-        width = std::max(comp_type(core::int_sqrt(area) - m_spacing), min_width);
+        if (ARCHON_UNLIKELY(!core::try_int_cast(core::int_sqrt(area) - part_type(m_spacing), width)))
+            width = (m_rects.empty() ? 0 : max_comp);
+        width = std::max(width, min_width);
     }
 
   add_margins:
@@ -194,8 +196,7 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
         // Need to be able to hold area of a rectangle whose sides lengths are
         // max_image_wisth + spacing and max_image_height + spacing.
         constexpr int bits = 2 * (core::num_value_bits<comp_type>() + 1);
-        constexpr int num_parts = bits / core::int_width<part_type>();
-        ARCHON_ASSERT(num_parts > 1); // Otherwise the attempt above would have succeeded
+        constexpr int num_parts = (bits + core::int_width<part_type>() - 1) / core::int_width<part_type>();
         constexpr bool is_signed = false;
         using mul_prec_type = core::MulPrecInt<part_type, num_parts, is_signed>;
         mul_prec_type spacing = mul_prec_type(m_spacing);
@@ -209,7 +210,10 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
             }
             return max_comp;
         }
-        width = std::max(comp_type(core::int_sqrt(area) - mul_prec_type(m_spacing)), min_width);
+        mul_prec_type width_2 = core::int_sqrt(area) - spacing;
+        if (ARCHON_UNLIKELY(width_2 > mul_prec_type(max_comp)))
+            return max_comp;
+        width = std::max(comp_type(width_2), min_width);
     }
     goto add_margins;
 }
-- 
2.43.0


From fda6a02c446977c0c872b7ae44101ecf51a1d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:40 +0000
Subject: [PATCH 11/14] fix: allow for repeated packing with the same rectangle
 packer

---
 src/archon/util/rectangle_packer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/util/rectangle_packer.hpp b/src/archon/util/rectangle_packer.hpp
index 027601d..1bd0278 100644
--- a/src/archon/util/rectangle_packer.hpp
+++ b/src/archon/util/rectangle_packer.hpp
@@ -300,8 +300,8 @@ bool RectanglePacker<T>::do_pack(comp_type bin_width, comp_type bin_height, std:
     });
 
     // Place rectangles
-    ARCHON_ASSERT(m_nodes.empty());
-    ARCHON_ASSERT(m_bins.empty());
+    m_nodes.clear();
+    m_bins.clear();
     auto add_node = [&](comp_type x, comp_type y, comp_type w, comp_type h) {
         bool occupied = false;
         std::size_t right_node = std::size_t(-1);
-- 
2.43.0


From e5b2f16d3ffd3069782a609e927c0bdb8d4dab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 12/14] fix: deliver negative distances between stride
 iterators

---
 src/archon/core/stride_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/stride_iterator.hpp b/src/archon/core/stride_iterator.hpp
index c505060..b351e9a 100644
--- a/src/archon/core/stride_iterator.hpp
+++ b/src/archon/core/stride_iterator.hpp
@@ -200,7 +200,7 @@ template<class I, std::size_t S>
 template<class J> inline auto StrideIterator<I, S>::operator-(const StrideIterator<J, S>& other) const
     noexcept(noexcept((std::declval<const I&>() - std::declval<const J&>()) / S)) -> difference_type
 {
-    return difference_type((m_iter - other.m_iter) / S); // Throws
+    return difference_type((m_iter - other.m_iter) / difference_type(S)); // Throws
 }
 
 
-- 
2.43.0


From 19456aed610384e98adf104897b6e1c8ec9139f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 13/14] fix: define make_stride_iterator() as it is declared

---
 src/archon/core/stride_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/stride_iterator.hpp b/src/archon/core/stride_iterator.hpp
index b351e9a..cd727cb 100644
--- a/src/archon/core/stride_iterator.hpp
+++ b/src/archon/core/stride_iterator.hpp
@@ -260,7 +260,7 @@ auto operator+(typename StrideIterator<I, S>::difference_type i, const StrideIte
 }
 
 
-template<class I, std::size_t S> auto make_stride_iterator(const I& iter) noexcept -> StrideIterator<I, S>
+template<std::size_t S, class I> inline auto make_stride_iterator(const I& iter) noexcept -> StrideIterator<I, S>
 {
     return { iter };
 }
-- 
2.43.0


From 5b819f776308e33db510a62cb40ad0af1b009489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 14/14] fix: let index iterators access elements through the
 specified subscription function

---
 src/archon/core/index_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/index_iterator.hpp b/src/archon/core/index_iterator.hpp
index 6e500aa..5bdd922 100644
--- a/src/archon/core/index_iterator.hpp
+++ b/src/archon/core/index_iterator.hpp
@@ -111,14 +111,14 @@ inline IndexIterator<C, S>::IndexIterator(C& container, std::ptrdiff_t index) no
 template<class C, class S>
 inline auto IndexIterator<C, S>::operator->() const noexcept(noexcept(&S::subscr(std::declval<C&>(), 0))) -> pointer
 {
-    return &(*m_container)[m_index];
+    return &S::subscr(*m_container, m_index);
 }
 
 
 template<class C, class S>
 inline auto IndexIterator<C, S>::operator*() const noexcept(noexcept(S::subscr(std::declval<C&>(), 0))) -> reference
 {
-    return (*m_container)[m_index];
+    return S::subscr(*m_container, m_index);
 }
 
 
@@ -126,7 +126,7 @@ template<class C, class S>
 inline auto IndexIterator<C, S>::operator[](std::ptrdiff_t i) const
     noexcept(noexcept(S::subscr(std::declval<C&>(), 0))) -> reference
 {
-    return (*m_container)[m_index + i];
+    return S::subscr(*m_container, m_index + i);
 }
 
 
-- 
2.43.0

