From 24c205120c1105d65c5a05ea1bf2f4fd050362a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 01/37] fix: strict UTF-8 reader must refuse encoded surrogates

---
 blend2d/unicode/unicode_p.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blend2d/unicode/unicode_p.h b/blend2d/unicode/unicode_p.h
index 437ad1e..870feea 100644
--- a/blend2d/unicode/unicode_p.h
+++ b/blend2d/unicode/unicode_p.h
@@ -290,6 +290,12 @@ public:
         if (BL_UNLIKELY((b1 | b2) > 0x3Fu || uc < 0x800u))
           goto InvalidString;
 
+        // 3. Refuse surrogates (D800-DFFF) in strict mode, they cannot be encoded by a well-formed UTF-8.
+        if (bl_test_flag(kFlags, IOFlags::kStrict)) {
+          if (BL_UNLIKELY(is_surrogate(uc)))
+            goto InvalidString;
+        }
+
         // 3-Byte UTF-8 maps to one UTF-16 or UTF-32 code-point, so subtract 2.
         if (bl_test_flag(kFlags, IOFlags::kCalcIndex))
           _utf32_index_subtract += 2;
-- 
2.43.0


From 79a9ab4aa4ef71585859a7779cd0393a73a56ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 02/37] fix: report indexes when Latin1 to UTF-8 conversion
 succeeds in a tight buffer

---
 blend2d/unicode/unicode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/unicode/unicode.cpp b/blend2d/unicode/unicode.cpp
index 508a688..88c3b58 100644
--- a/blend2d/unicode/unicode.cpp
+++ b/blend2d/unicode/unicode.cpp
@@ -208,6 +208,11 @@ BLResult convert_unicode(
             break;
           }
         }
+
+        if (BL_LIKELY(result == BL_SUCCESS)) {
+          state.dst_index = writer.index(static_cast<char*>(dst));
+          state.src_index = src_size_in_bytes;
+        }
       }
 
       break;
-- 
2.43.0


From 34d251a3ff5d4661cdbee38e2b6c3439e3e46248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 03/37] fix: report truncated UTF-16/UTF-32 source (partial
 trailing code unit) in unicode conversion

---
 blend2d/unicode/unicode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/unicode/unicode.cpp b/blend2d/unicode/unicode.cpp
index 88c3b58..3ffdc1e 100644
--- a/blend2d/unicode/unicode.cpp
+++ b/blend2d/unicode/unicode.cpp
@@ -141,7 +141,7 @@ static BL_INLINE BLResult convert_unicode_impl(void* dst, size_t dst_size_in_byt
   state.dst_index = offset_of_ptr(dst, writer._ptr);
   state.src_index = offset_of_ptr(src, iter._ptr);
 
-  if (Iterator::kCharSize > 1 && result == BL_SUCCESS && !IntOps::is_aligned(state.src_index, Iterator::kCharSize))
+  if (Iterator::kCharSize > 1 && result == BL_SUCCESS && !IntOps::is_aligned(src_size_in_bytes, Iterator::kCharSize))
     return bl_make_error(BL_ERROR_DATA_TRUNCATED);
   else
     return result;
@@ -308,7 +308,7 @@ BLResult convert_unicode(
       memmove(dst, src, validated_size);
 
       // Prevent `BL_ERROR_DATA_TRUNCATED` in case there is not enough space in destination.
-      if (copy_size < src_size_in_bytes && (result == BL_SUCCESS || result == BL_ERROR_DATA_TRUNCATED))
+      if (copy_size < IntOps::align_down(src_size_in_bytes, 2) && (result == BL_SUCCESS || result == BL_ERROR_DATA_TRUNCATED))
         result = bl_make_error(BL_ERROR_NO_SPACE_LEFT);
 
       // Report `BL_ERROR_DATA_TRUNCATED` is everything went right, but the
-- 
2.43.0


From 01819b726182998321efb70a773d4a6541375bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 04/37] fix: copy the bits when a shared BitArray is made
 mutable before modification

---
 blend2d/core/bitarray.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c6da037..a37f3df 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -94,14 +94,19 @@ static BL_NOINLINE BLResult make_mutable_for_modify_op(BLBitArrayCore* self, siz
     }
 
     BLBitArrayCore newO;
+    size_t word_count = word_count_from_bit_count(size);
+
     if (size <= kSSOBitCapacity) {
       init_sso(&newO, size);
+      MemOps::copy_forward_inline_t(newO._d.u32_data, self_impl->data(), word_count);
 
       *out = BitData{self->_d.u32_data, size};
       return replace_instance(self, &newO);
     }
 
-    BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count_from_bit_count(size)), size));
+    BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count), size));
+    MemOps::copy_forward_inline_t(get_impl(&newO)->data(), self_impl->data(), word_count);
+
     *out = BitData{get_impl(&newO)->data(), size};
     return replace_instance(self, &newO);
   }
-- 
2.43.0


From 3784d412427208eb24334af0341e9c3ff1a49d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 05/37] fix: BitArray assign_words overflowed small storage,
 lost the size and ignored reusable capacity

---
 blend2d/core/bitarray.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index a37f3df..c5a57f5 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -317,9 +317,14 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
   using namespace bl::BitArrayInternal;
   BL_ASSERT(self->_d.is_bit_array());
 
+  if (BL_UNLIKELY(word_count > UINT32_MAX / bl::BitArrayOps::kNumBits))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
+  size_t size = size_t(word_count) * bl::BitArrayOps::kNumBits;
+
   if (self->_d.sso()) {
     if (word_count <= kSSOWordCapacity) {
-      set_sso_size(self, word_count * bl::BitArrayOps::kNumBits);
+      set_sso_size(self, size);
       bl::MemOps::copy_forward_inline_t(self->_d.u32_data, word_data, word_count);
       bl::MemOps::fill_inline_t(self->_d.u32_data + word_count, uint32_t(0), kSSOWordCapacity - word_count);
       return BL_SUCCESS;
@@ -331,9 +336,15 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
     size_t capacity_in_words = word_count_from_bit_count(self_impl->capacity);
     size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_impl_mutable(self_impl));
 
-    if ((word_count | immutable_msk) > capacity_in_words) {
+    if ((word_count | immutable_msk) <= capacity_in_words) {
+      self_impl->size = uint32_t(size);
+      bl::MemOps::copy_forward_inline_t(self_impl->data(), word_data, word_count);
+      return BL_SUCCESS;
+    }
+
+    if (word_count <= kSSOWordCapacity) {
       BLBitArrayCore newO;
-      init_sso(&newO, size_t(word_count) * bl::BitArrayOps::kNumBits);
+      init_sso(&newO, size);
       bl::MemOps::copy_forward_inline_t(newO._d.u32_data, word_data, word_count);
 
       return replace_instance(self, &newO);
@@ -341,7 +352,7 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
   }
 
   BLBitArrayCore newO;
-  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count)));
+  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count), size));
 
   BLBitArrayImpl* new_impl = get_impl(&newO);
   bl::MemOps::copy_forward_inline_t(new_impl->data(), word_data, word_count);
-- 
2.43.0


From b57c5b8dd660b4e9f3e35c64a9e2f8da92b85e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 06/37] fix: BitArray has_bits_in_range read past the end when
 the range ends at a word boundary

---
 blend2d/core/bitarray.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c5a57f5..6cc027d 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -467,9 +467,9 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
     return false;
 
   size_t start_word = word_index_of(start);
-  size_t end_word = word_index_of(end);
+  size_t last_word = word_index_of(end - 1u);
 
-  if (start_word == end_word) {
+  if (start_word == last_word) {
     // Special case - the range is within a single BitWord.
     uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start);
     return (d.data[start_word] & mask) != 0u;
@@ -479,12 +479,12 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
   if (d.data[start_word] & start_mask)
     return true;
 
-  for (size_t i = start_word + 1; i < end_word; i++)
+  for (size_t i = start_word + 1; i < last_word; i++)
     if (d.data[i])
       return true;
 
-  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask(end & bl::BitArrayOps::kBitMask);
-  return (d.data[end_word] & end_mask) != 0u;
+  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask((uint32_t(end - 1u) & bl::BitArrayOps::kBitMask) + 1u);
+  return (d.data[last_word] & end_mask) != 0u;
 }
 
 // bl::BitArray - API - Testing
-- 
2.43.0


From befb07dd19b3f9f76c1106ea2d39f4d7a09b09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 07/37] fix: bits added by a reallocating BitArray resize must
 be zero

---
 blend2d/core/bitarray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 6cc027d..67701bb 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -695,6 +695,9 @@ BL_API_IMPL BLResult bl_bit_array_resize(BLBitArrayCore* self, uint32_t n_bits)
   if (last_word_bit_count)
     dst[word_count - 1] &= bl::BitArrayOps::non_zero_start_mask(last_word_bit_count);
 
+  // The memory of a new dynamic Impl is not initialized - bits added by growing the BitArray must be zero.
+  bl::MemOps::fill_inline_t(dst + word_count, uint32_t(0), word_count_from_bit_count(n_bits) - word_count);
+
   return replace_instance(self, &newO);
 }
 
-- 
2.43.0


From 927d51e752b2e5ea937412fd97a711531bc6615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 08/37] fix: reserving less than size in a shared BitArray
 overflowed the new Impl

---
 blend2d/core/bitarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 67701bb..873c9b3 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -725,7 +725,7 @@ BL_API_IMPL BLResult bl_bit_array_reserve(BLBitArrayCore* self, uint32_t n_bits)
     d = BitData{self_impl->data(), self_impl->size};
   }
 
-  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(n_bits));
+  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(bl_max<size_t>(n_bits, d.size)));
   BLBitArrayCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size, d.size));
 
-- 
2.43.0


From ded09fc41678ea92e6604f547d0255246426b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 09/37] fix: BitArray fill/clear/replace words read one word of
 empty input

---
 blend2d/core/bitarray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 873c9b3..b8b1fa7 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -181,6 +181,9 @@ static BL_NOINLINE BLResult make_mutable_for_append_op(BLBitArrayCore* self, siz
 
 template<typename BitOp>
 static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const uint32_t* word_data, size_t word_count) noexcept {
+  if (word_count == 0u)
+    return BL_SUCCESS;
+
   size_t bit_end = bit_index + bl_min(bit_index_of(word_count), d.size - bit_index);
   size_t bit_count = bit_end - bit_index;
 
-- 
2.43.0


From 1a82ebe23b7b3ae0cf3e981c0917ce3cd2d9afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 10/37] fix: BitArray append must fail when the size would not
 be representable

---
 blend2d/core/bitarray.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index b8b1fa7..ad7faaa 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -129,9 +129,6 @@ static BL_NOINLINE BLResult make_mutable_for_append_op(BLBitArrayCore* self, siz
       *out = BitData{d.data, new_size};
       return BL_SUCCESS;
     }
-
-    if (BL_UNLIKELY(append_bit_count > size_t(UINT32_MAX) - d.size))
-      return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
   }
   else {
     BLBitArrayImpl* self_impl = get_impl(self);
@@ -155,12 +152,11 @@ static BL_NOINLINE BLResult make_mutable_for_append_op(BLBitArrayCore* self, siz
     }
   }
 
-  OverflowFlag of{};
-  size_t new_size = IntOps::add_overflow(d.size, append_bit_count, &of);
-
-  if (BL_UNLIKELY(of))
+  if (BL_UNLIKELY(append_bit_count > size_t(UINT32_MAX) - d.size))
     return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
+  size_t new_size = d.size + append_bit_count;
+
   size_t old_word_count = word_count_from_bit_count(d.size);
   size_t new_word_count = word_count_from_bit_count(new_size);
   BLObjectImplSize impl_size = impl_size_from_word_capacity(new_word_count);
-- 
2.43.0


From c188d6b0e51d481a857f87674573521c563929dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 11/37] fix: BitArray unaligned word operations dropped bits of
 the last word or read past the input

---
 blend2d/core/bitarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index ad7faaa..64654a0 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -232,7 +232,7 @@ static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const u
     return BL_SUCCESS;
 
   uint32_t last_word_bits = BitArrayOps::shift_to_start(w, bit_shift_inv);
-  if (bit_shift_inv < bit_count)
+  if (bit_shift < bit_count)
     last_word_bits |= BitArrayOps::shift_to_end(word_data[i], bit_shift);
 
   dst[i] = BitOp::op_masked(dst[i], last_word_bits, BitArrayOps::non_zero_start_mask(bit_count));
-- 
2.43.0


From 0952c228c62aee995a463bcea485bf76c2e9a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 12/37] fix: BitArray range queries within one word shifted by
 more than the word size

---
 blend2d/core/bitarray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 64654a0..4ece164 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -428,7 +428,7 @@ BL_API_IMPL uint32_t bl_bit_array_get_cardinality_in_range(const BLBitArrayCore*
 
   if (start_word == last_word) {
     // Special case - the range is within a single BitWord.
-    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start_bit);
+    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start & bl::BitArrayOps::kBitMask);
     counter.add_item(d.data[start_word] & mask);
   }
   else {
@@ -470,7 +470,7 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
 
   if (start_word == last_word) {
     // Special case - the range is within a single BitWord.
-    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start);
+    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start & bl::BitArrayOps::kBitMask);
     return (d.data[start_word] & mask) != 0u;
   }
 
-- 
2.43.0


From c69bf6af8927f2e3202ae46b0e4cdaa847d7d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 13/37] fix: array modify_op must reject a size that overflows
 the size of the impl

---
 blend2d/core/array.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 5ecfb55..4d2db96 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -742,6 +742,9 @@ BL_API_IMPL BLResult bl_array_modify_op(BLArrayCore* self, BLModifyOp op, size_t
   }
 
   // The container is either immutable or doesn't have the capacity required.
+  if (BL_UNLIKELY(size_after > maximum_capacity_table[array_type]))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
   BLArrayCore newO;
   size_t sso_capacity = sso_capacity_table[array_type];
 
-- 
2.43.0


From 84e08e7aa78b641d5fea3b0f31edbe51d928b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 14/37] fix: array assign_data must allocate storage for the
 assigned items, not for the current ones

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 4d2db96..89d3a21 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -886,7 +886,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     if (BL_UNLIKELY(n > maximum_capacity_table[array_type]))
       return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
-    BLObjectImplSize impl_size = impl_size_from_capacity(u.size, item_size);
+    BLObjectImplSize impl_size = impl_size_from_capacity(n, item_size);
     BLArrayCore newO;
     BL_PROPAGATE(init_dynamic(&newO, array_type, n, impl_size));
 
-- 
2.43.0


From 4adf04952aeb23e4865805aebe2185c8750661bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 15/37] fix: array assign_data must initialize object items
 beyond the current size

---
 blend2d/core/array.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 89d3a21..502376c 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -905,6 +905,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     const uint8_t* src = static_cast<const uint8_t*>(items);
 
     assign_content_objects(u.data, src, replace_size * item_size);
+    init_content_objects(u.data + replace_size * item_size, src + replace_size * item_size, (n - replace_size) * item_size);
     release_content_objects(u.data + replace_size * item_size, (u.size - replace_size) * item_size);
 
     return BL_SUCCESS;
-- 
2.43.0


From e5cf78a003e630e288316fc41a8699128a80d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 16/37] fix: array replace_data wrote past the capacity,
 misplaced the tail and missed overlapping items

---
 blend2d/core/array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 502376c..d8e55ad 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -1191,7 +1191,7 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
   size_t tail_size = u.size - end;
   size_t size_after = u.size - range_size + n;
 
-  if (is_instance_mutable(self)) {
+  if (size_after <= u.capacity && is_instance_mutable(self)) {
     // 0           |<-Start   End->|          | <- Size
     // ^***********^***************^**********^
     // | Unchanged |  Replacement  | TailSize |
@@ -1202,14 +1202,14 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
     const uint8_t* items_ptr = static_cast<const uint8_t*>(items);
     const uint8_t* items_end = items_ptr + item_size * n;
 
-    if (BL_LIKELY(items_ptr >= u.data + u.size * n || items_end <= u.data)) {
+    if (BL_LIKELY(items_ptr >= u.data + u.size * item_size || items_end <= u.data)) {
       // Non-overlaping case (the expected one).
       if (range_size == n) {
         assign_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
       }
       else {
         release_content_by_type(u.data + index * item_size, range_size * item_size, array_type);
-        memmove(u.data + (index + range_size) * item_size, u.data + end * item_size, tail_size * item_size);
+        memmove(u.data + (index + n) * item_size, u.data + end * item_size, tail_size * item_size);
         init_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
         set_size(self, size_after);
       }
-- 
2.43.0


From f7f60649b73d9e36106f00a9868cee2a8e5406d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:38 +0000
Subject: [PATCH 17/37] fix: DST_IN of a transparent source on XRGB32 left the
 destination unchanged instead of clearing it

---
 blend2d/core/compopsimplifyimpl_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/compopsimplifyimpl_p.h b/blend2d/core/compopsimplifyimpl_p.h
index 9563f52..4e7e751 100644
--- a/blend2d/core/compopsimplifyimpl_p.h
+++ b/blend2d/core/compopsimplifyimpl_p.h
@@ -239,7 +239,7 @@ struct CompOpSimplifyInfoImpl {
            d == Fmt::kPRGB32 && s == Fmt::kFRGB32 ? dst_copy(d, s) :
 
            d == Fmt::kXRGB32 && s == Fmt::kPRGB32 ? dst_in(Fmt::kPRGB32, Fmt::kPRGB32) :
-           d == Fmt::kXRGB32 && s == Fmt::kZERO32 ? dst_in(Fmt::kPRGB32, Fmt::kFRGB32) :
+           d == Fmt::kXRGB32 && s == Fmt::kZERO32 ? clear(d, s) :
            d == Fmt::kXRGB32 && s == Fmt::kXRGB32 ? dst_copy(d, s) :
            d == Fmt::kXRGB32 && s == Fmt::kFRGB32 ? dst_copy(d, s) :
 
-- 
2.43.0


From 70f5f9ec7b2c895f4a73624e6197fd8a31b0ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 18/37] fix: assigning or appending a short text to a shared
 String used an uninitialized instance

---
 blend2d/core/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 92beef7..446d229 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -119,8 +119,8 @@ static BLResult modify_and_copy(BLStringCore* self, BLModifyOp op, const char* s
     char* dst = nullptr;
 
     if (size_after <= BLString::kSSOCapacity && !bl_modify_op_does_grow(op)) {
-      init_sso(self, size_after);
-      dst = self->_d.char_data;
+      init_sso(&newO, size_after);
+      dst = newO._d.char_data;
     }
     else {
       BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after), op);
-- 
2.43.0


From 71093a1b69a4bf0c376795b9efadafe539934115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 19/37] fix: reserving a huge String capacity wrapped the
 allocation size

---
 blend2d/core/string.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 446d229..b79a405 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -390,6 +390,9 @@ BL_API_IMPL BLResult bl_string_reserve(BLStringCore* self, size_t n) noexcept {
   if ((n | immutable_mask) <= u.capacity)
     return BL_SUCCESS;
 
+  if (BL_UNLIKELY(n > get_maximum_size()))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
   BLStringCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size_from_capacity(bl_max(u.size, n)), u.size));
 
-- 
2.43.0


From 58dd706ed4e9e48427d0c70a68738bf63931fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 20/37] fix: operations with an explicit color ignored the
 constant source that the simplified operator requires (CLEAR painted the
 color)

---
 blend2d/raster/rastercontext.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 342c53a..934dc56 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1415,9 +1415,15 @@ static BL_INLINE void prepare_non_solid_fetch(BLRasterContextImpl* ctx_impl, Dis
   BL_CONTEXT_RESOLVE_GENERIC_OP(                                                 \
     resolve_explicit_solid_op<kRM>(ctx_impl, NopFlags, Color, solid, Bail))             \
                                                                                  \
+  RenderFetchDataHeader* overridden_fetch_data =                                   \
+    ctx_impl->solid_fetch_data_override_table[size_t(resolved.flags)];                   \
+                                                                                 \
   DispatchInfo di;                                                               \
   di.init(resolved.signature, ctx_impl->internal_state.styleAlphaI[Slot]);            \
-  DispatchStyle ds{&solid}
+                                                                                 \
+  DispatchStyle ds{&solid};                                                      \
+  if (resolved.flags != ContextFlags::kNoFlagsSet)                               \
+    ds.fetch_data = overridden_fetch_data
 
 // Resolves an operation that uses explicit style (fill or stroke).
 #define BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(NopFlags, Slot, Style, Bail)        \
-- 
2.43.0


From f4093e42edea7ba7eced699cfc67f28d0c733c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:20 +0000
Subject: [PATCH 21/37] fix: clip_to_rect with integer coordinates near the int
 limits truncated the clip box and could extend it past the target

---
 blend2d/raster/rastercontext.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 934dc56..b57f723 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2261,10 +2261,16 @@ Use64Bit:
     int64_t x1 = x0 + int64_t(rect->w);
     int64_t y1 = y0 + int64_t(rect->h);
 
-    b.x0 = int(bl_max<int64_t>(x0, ctx_impl->final_clip_box_i().x0));
-    b.y0 = int(bl_max<int64_t>(y0, ctx_impl->final_clip_box_i().y0));
-    b.x1 = int(bl_min<int64_t>(x1, ctx_impl->final_clip_box_i().x1));
-    b.y1 = int(bl_min<int64_t>(y1, ctx_impl->final_clip_box_i().y1));
+    x0 = bl_max<int64_t>(x0, ctx_impl->final_clip_box_i().x0);
+    y0 = bl_max<int64_t>(y0, ctx_impl->final_clip_box_i().y0);
+    x1 = bl_min<int64_t>(x1, ctx_impl->final_clip_box_i().x1);
+    y1 = bl_min<int64_t>(y1, ctx_impl->final_clip_box_i().y1);
+
+    // The coordinates are only guaranteed to be representable by `int` when the intersection is not empty.
+    if (x0 < x1 && y0 < y1)
+      b.reset(int(x0), int(y0), int(x1), int(y1));
+    else
+      b.reset();
   }
 
   if (b.x0 < b.x1 && b.y0 < b.y1) {
-- 
2.43.0


From 3194806b580880b6ca64b783787a8dc34768c107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:20 +0000
Subject: [PATCH 22/37] fix: filling a mask with an explicit style was dropped
 when the fill style of the context was disabled

---
 blend2d/raster/rastercontext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index b57f723..16a7a9d 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3711,7 +3711,7 @@ static BLResult BL_CDECL fill_mask_d_rgba32_impl(BLContextImpl* base_impl, const
   BLResult bail_result = check_image_area(mask_rect, ImageInternal::get_impl(mask), mask_area);
   bool bail = bail_result != BL_SUCCESS;
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
   return fill_unclipped_mask_d<kRM>(ctx_impl, di, ds, *origin, mask, mask_rect);
 }
 
@@ -3725,7 +3725,7 @@ static BLResult BL_CDECL fill_mask_d_ext_impl(BLContextImpl* base_impl, const BL
   BLResult bail_result = check_image_area(mask_rect, ImageInternal::get_impl(mask), mask_area);
   bool bail = bail_result != BL_SUCCESS;
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
   BLResult result = fill_unclipped_mask_d<kRM>(ctx_impl, di, ds, *origin, mask, mask_rect);
 
   return finalize_explicit_op<kRM>(ctx_impl, fetch_data.ptr(), result);
@@ -3771,7 +3771,7 @@ static BLResult BL_CDECL fill_mask_i_rgba32_impl(BLContextImpl* base_impl, const
   BLResult bail_result;
   bool bail = !translate_and_clip_rect_to_blit_i(ctx_impl, origin, mask_area, &mask_impl->size, &bail_result, &dst_box, &src_offset);
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
   return fill_clipped_box_masked_a<kRM>(ctx_impl, di, ds, dst_box, mask, src_offset);
 }
 
@@ -3793,7 +3793,7 @@ static BLResult BL_CDECL fill_mask_i_ext_impl(BLContextImpl* base_impl, const BL
   BLResult bail_result;
   bool bail = !translate_and_clip_rect_to_blit_i(ctx_impl, origin, mask_area, &mask_impl->size, &bail_result, &dst_box, &src_offset);
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
   BLResult result = fill_clipped_box_masked_a<kRM>(ctx_impl, di, ds, dst_box, mask, src_offset);
 
   return finalize_explicit_op<kRM>(ctx_impl, fetch_data.ptr(), result);
-- 
2.43.0


From 7f289436401207f79b56afb03d61e5b304311755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 23/37] fix: stroke caps and join changed after save() were not
 restored

---
 blend2d/raster/rastercontext.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 16a7a9d..8975f34 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2088,7 +2088,7 @@ static BLResult BL_CDECL set_stroke_cap_impl(BLContextImpl* base_impl, BLStrokeC
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.caps[position] = uint8_t(stroke_cap);
   return BL_SUCCESS;
@@ -2101,7 +2101,7 @@ static BLResult BL_CDECL set_stroke_caps_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   for (uint32_t i = 0; i <= BL_STROKE_CAP_POSITION_MAX_VALUE; i++)
     ctx_impl->internal_state.stroke_options.caps[i] = uint8_t(stroke_cap);
@@ -2115,7 +2115,7 @@ static BLResult BL_CDECL set_stroke_join_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.join = uint8_t(stroke_join);
   return BL_SUCCESS;
-- 
2.43.0


From 5fdc220aea9dbc5114b8daf94196cdb0c8ff21ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 24/37] fix: swap_styles() retained the stroke fetch data
 depending on the fill style

---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 8975f34..ca69a09 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1971,7 +1971,7 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
 
     if (bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle)) {
       ctx_impl->saved_state->style[kStrokeSlot].copy_from(state.style[kStrokeSlot]);
-      if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
+      if (bl_test_flag(context_flags, ContextFlags::kFetchDataStroke))
         state.style[kStrokeSlot].get_render_fetch_data()->ref_count++;
     }
 
-- 
2.43.0


From b94af1f1c7aa7d87106e4c4a6d59bae6322e4e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 25/37] fix: swap_styles() mixed unrelated flags into the fill
 and stroke flags

---
 blend2d/raster/rastercontext.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index ca69a09..135d21a 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1984,7 +1984,8 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     BLInternal::swap(state.style_type[kFillSlot], state.style_type[kStrokeSlot]);
 
     constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeStyle | ContextFlags::kFetchDataFillAndStroke;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillStyle | ContextFlags::kFetchDataFill;
+    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kFillFlags) | ((context_flags & kFillFlags) << 1);
   }
 
   // Swap fill and stroke alphas.
@@ -1993,7 +1994,8 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     BLInternal::swap(state.styleAlphaI[kFillSlot], state.styleAlphaI[kStrokeSlot]);
 
     constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeAlpha;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillAlpha;
+    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kFillFlags) | ((context_flags & kFillFlags) << 1);
   }
 
   ctx_impl->context_flags = context_flags;
-- 
2.43.0


From dfbbdf91cd867a9b51e52ea423cb61273b46e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 26/37] fix: ending a context with saved states leaked or
 over-released its styles

---
 blend2d/raster/rastercontext.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 135d21a..08bdcb8 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1594,17 +1594,17 @@ static void discard_states(BLRasterContextImpl* ctx_impl, SavedState* top_state)
   // NOTE: No need to handle parts of states that don't use dynamically allocated memory.
   ContextFlags context_flags = ctx_impl->context_flags;
   do {
-    if ((context_flags & (ContextFlags::kFetchDataFill | ContextFlags::kWeakStateFillStyle)) == ContextFlags::kFetchDataFill) {
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateFillStyle)) {
       constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_FILL;
-      if (saved_state->style[kSlot].has_fetch_data()) {
+      if (bl_test_flag(saved_state->prev_context_flags, ContextFlags::kFetchDataFill)) {
         RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
         fetch_data->release(ctx_impl);
       }
     }
 
-    if ((context_flags & (ContextFlags::kFetchDataStroke | ContextFlags::kWeakStateStrokeStyle)) == ContextFlags::kFetchDataStroke) {
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle)) {
       constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_STROKE;
-      if (saved_state->style[kSlot].has_fetch_data()) {
+      if (bl_test_flag(saved_state->prev_context_flags, ContextFlags::kFetchDataStroke)) {
         RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
         fetch_data->release(ctx_impl);
       }
@@ -1621,9 +1621,9 @@ static void discard_states(BLRasterContextImpl* ctx_impl, SavedState* top_state)
     saved_state = prev_state;
   } while (saved_state != top_state);
 
-  // Make 'top_state' the current state.
+  // Make 'top_state' the current state. The current styles are still owned by the context.
   ctx_impl->saved_state = top_state;
-  ctx_impl->context_flags = context_flags;
+  ctx_impl->context_flags = (context_flags & ~ContextFlags::kFetchDataFillAndStroke) | (ctx_impl->context_flags & ContextFlags::kFetchDataFillAndStroke);
 }
 
 static BLResult BL_CDECL save_impl(BLContextImpl* base_impl, BLContextCookie* cookie) noexcept {
-- 
2.43.0


From 63b19f0843c22a933e41bdde190066d052797df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 27/37] fix: ending a context leaked the dash array of its
 stroke options

---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 08bdcb8..df0d4f7 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -4468,7 +4468,7 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
   // Important as the user doesn't have to restore all states, in that case we basically need to iterate
   // over all of them and release resources they hold.
   discard_states(ctx_impl, nullptr);
-  bl_call_dtor(ctx_impl->internal_state.stroke_options);
+  bl_call_dtor(ctx_impl->internal_state.stroke_options.dcast());
 
   ContextFlags context_flags = ctx_impl->context_flags;
   if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
-- 
2.43.0


From e8eac782c6021df294260261fdede5339ad5018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 28/37] fix: style functions wrote out of bounds when given an
 invalid style slot

---
 blend2d/raster/rastercontext.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index df0d4f7..154c13b 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -547,9 +547,10 @@ static BLResult BL_CDECL disable_style_impl(BLContextImpl* base_impl, BLContextS
   ContextFlags context_flags = ctx_impl->context_flags;
   ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
 
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
@@ -563,9 +564,10 @@ static BLResult BL_CDECL set_style_rgba32_impl(BLContextImpl* base_impl, BLConte
   ContextFlags context_flags = ctx_impl->context_flags;
   ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
 
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
@@ -590,9 +592,10 @@ static BLResult BL_CDECL set_style_rgba64_impl(BLContextImpl* base_impl, BLConte
   ContextFlags context_flags = ctx_impl->context_flags;
   ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
 
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
@@ -622,9 +625,10 @@ static BLResult BL_CDECL set_style_rgba_impl(BLContextImpl* base_impl, BLContext
   if (!RgbaInternal::is_valid(*rgba))
     return disable_style_impl(base_impl, slot);
 
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
-- 
2.43.0


From 0de5e8240ed42e5f4380135f259ac7d9e1e33fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 29/37] fix: restoring a fractional clip enlarged it by a pixel

---
 blend2d/raster/rastercontext.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 154c13b..87300ff 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -835,11 +835,6 @@ static BL_INLINE void reset_clipping_to_meta_clip_box(BLRasterContextImpl* ctx_i
 static BL_INLINE void restore_clipping_from_state(BLRasterContextImpl* ctx_impl, SavedState* saved_state) noexcept {
   // TODO: [Rendering Context] Path-based clipping.
   ctx_impl->internal_state.final_clip_box_d = saved_state->final_clip_box_d;
-  ctx_impl->internal_state.final_clip_box_i.reset(
-    Math::trunc_to_int(ctx_impl->final_clip_box_d().x0),
-    Math::trunc_to_int(ctx_impl->final_clip_box_d().y0),
-    Math::ceil_to_int(ctx_impl->final_clip_box_d().x1),
-    Math::ceil_to_int(ctx_impl->final_clip_box_d().y1));
 
   double fp_scale = ctx_impl->render_target_info.fp_scale_d;
   ctx_impl->set_final_clip_box_fixed_d(BLBox(
@@ -847,6 +842,16 @@ static BL_INLINE void restore_clipping_from_state(BLRasterContextImpl* ctx_impl,
     ctx_impl->final_clip_box_d().y0 * fp_scale,
     ctx_impl->final_clip_box_d().x1 * fp_scale,
     ctx_impl->final_clip_box_d().y1 * fp_scale));
+
+  // Must match the box calculated by `clip_to_final_box()`.
+  int fpMaskI = ctx_impl->render_target_info.fpMaskI;
+  int fpShiftI = ctx_impl->render_target_info.fpShiftI;
+  const BLBoxI& clipBoxFixedI = ctx_impl->final_clip_box_fixed_i();
+
+  ctx_impl->internal_state.final_clip_box_i.reset((clipBoxFixedI.x0 >> fpShiftI),
+                                          (clipBoxFixedI.y0 >> fpShiftI),
+                                          (clipBoxFixedI.x1 + fpMaskI) >> fpShiftI,
+                                          (clipBoxFixedI.y1 + fpMaskI) >> fpShiftI);
 }
 
 // bl::RasterEngine - ContextImpl - Internals - Clip Utilities
-- 
2.43.0


From d8669790d1d66c15677a414e245a0b271962f90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 30/37] fix: restoring clipping without a saved state kept the
 clip mode of the removed clip

---
 blend2d/raster/rastercontext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 87300ff..534ad99 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2315,6 +2315,7 @@ static BLResult BL_CDECL restore_clipping_impl(BLContextImpl* base_impl) noexcep
       // If there is no state saved it means that we have to restore clipping to
       // the initial state, which is accessible through `meta_clip_box_i` member.
       ctx_impl->context_flags &= ~(ContextFlags::kNoClipRect | ContextFlags::kSharedStateFill);
+      ctx_impl->sync_work_data.clip_mode = BL_CLIP_MODE_ALIGNED_RECT;
       reset_clipping_to_meta_clip_box(ctx_impl);
     }
   }
-- 
2.43.0


From 3d1b19434311fe00b5a327c203fe0e3adac4c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:31 +0000
Subject: [PATCH 31/37] fix: set_stroke_dash_array() with the context's own
 dash array used it after it was released

---
 blend2d/raster/rastercontext.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 534ad99..d3ab255 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2148,11 +2148,15 @@ static BLResult BL_CDECL set_stroke_dash_array_impl(BLContextImpl* base_impl, co
   if (BL_UNLIKELY(dash_array->_d.raw_type() != BL_OBJECT_TYPE_ARRAY_FLOAT64))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
+  // The given dash array can be the one that is going to be replaced, so it must be retained first.
+  BLArrayCore new_dash_array = *dash_array;
+  ArrayInternal::retain_instance(&new_dash_array);
+
   on_before_stroke_change_and_destroy_dash_array(ctx_impl);
   ctx_impl->context_flags &= ~(ContextFlags::kNoStrokeOptions | ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
-  ctx_impl->internal_state.stroke_options.dash_array._d = dash_array->_d;
-  return ArrayInternal::retain_instance(&ctx_impl->internal_state.stroke_options.dash_array);
+  ctx_impl->internal_state.stroke_options.dash_array._d = new_dash_array._d;
+  return BL_SUCCESS;
 }
 
 static BLResult BL_CDECL set_stroke_transform_order_impl(BLContextImpl* base_impl, BLStrokeTransformOrder transform_order) noexcept {
-- 
2.43.0


From 6782bf06c64e6f052446642f6ad342e605007784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 32/37] fix: keep the last gradient stop when assigning stops
 that need sorting

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index ba5fd61..4154d2e 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -156,7 +156,7 @@ static BL_NOINLINE size_t copy_unsafe_stops(BLGradientStop* dst, const BLGradien
   double prev1 = -1.0; // Dummy, cannot be within [0..1] range.
   double prev2 = -1.0;
 
-  for (size_t i = 0; i < n - 1u; i++) {
+  for (size_t i = 0; i < n; i++) {
     double offset = stops[i].offset;
     BLRgba64 rgba = src[size_t(stops[i].index)].rgba;
 
-- 
2.43.0


From d178e0a86bc62a45b02f3b3624ab5944a23e2f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 33/37] fix: keep the remaining stops when removing stops of a
 shared gradient

---
 blend2d/core/gradient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 4154d2e..8184315 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -874,6 +874,8 @@ BL_API_IMPL BLResult bl_gradient_remove_stops_by_index(BLGradientCore* self, siz
     BLGradientStop* new_stops = new_impl->stops;
     copy_stops(new_stops, stops, index);
     copy_stops(new_stops + index, stops + end, shifted_count);
+
+    new_impl->size = after_count;
     return replace_instance(self, &newO);
   }
   else {
-- 
2.43.0


From f61a02da35e2536198a46e0aa720769b5d71bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 34/37] fix: replacing a gradient stop by an invalid offset
 must not remove it

---
 blend2d/core/gradient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 8184315..8c8cd4a 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -924,6 +924,9 @@ BL_API_IMPL BLResult bl_gradient_replace_stop_rgba64(BLGradientCore* self, size_
   if (BL_UNLIKELY(index >= get_size(self)))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
+  if (BL_UNLIKELY(!(offset >= 0.0 && offset <= 1.0)))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   BL_PROPAGATE(make_mutable(self, false));
 
   BLGradientPrivateImpl* self_impl = get_impl(self);
-- 
2.43.0


From b3991157eb304bbd33bfb41dd659469c797bdbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 35/37] fix: copy all values of a shared gradient when it
 becomes mutable

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 8c8cd4a..ec68d3f 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -368,7 +368,7 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   const BLGradientPrivateImpl* other_impl = get_impl(other);
 
   BLGradientCore newO;
-  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, value_count_table[get_gradient_type(other)], &other_impl->transform));
+  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &other_impl->transform));
 
   newO._d.info.set_fields(fields);
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
-- 
2.43.0


From 31e1c883586227e2e744ea276acd6f5aa9a21eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 36/37] fix: gradients with different values are not equal

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index ec68d3f..ed4ab58 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -1020,7 +1020,7 @@ BL_API_IMPL bool bl_gradient_equals(const BLGradientCore* a, const BLGradientCor
 
   size_t size = a_impl->size;
   unsigned eq = unsigned(a_impl->transform == b_impl->transform) & unsigned(size == b_impl->size);
-  return eq && memcmp(a_impl->stops, b_impl->stops, size * sizeof(BLGradientStop)) == 0;
+  return eq && memcmp(a_impl->values, b_impl->values, sizeof(a_impl->values)) == 0 && memcmp(a_impl->stops, b_impl->stops, size * sizeof(BLGradientStop)) == 0;
 }
 
 // bl::Gradient - Runtime Registration
-- 
2.43.0


From 51816cf98d24c17e07b0c8927acf3b42c9e58fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 37/37] fix: reserving less than the size of a shared gradient
 wrote past the new storage

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index ed4ab58..0b3110a 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -565,7 +565,7 @@ BL_API_IMPL BLResult bl_gradient_reserve(BLGradientCore* self, size_t n) noexcep
 
   BLGradientCore newO;
 
-  BLObjectImplSize impl_size = bl_max(impl_size_from_capacity(n), BLObjectImplSize(kInitialImplSize));
+  BLObjectImplSize impl_size = bl_max(impl_size_from_capacity(bl_max(n, self_impl->size)), BLObjectImplSize(kInitialImplSize));
   BL_PROPAGATE(alloc_impl(&newO, impl_size, self_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &self_impl->transform));
 
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
-- 
2.43.0

