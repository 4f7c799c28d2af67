From 6d5ec595ffea2b0090d1b81a06d687085387b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:51 +0000
Subject: [PATCH 01/47] fix: open files that have no chunks

Encoding an empty input writes a file with zero chunks, which the decoder
could not open: the footer buffer was resized to zero bytes before the
one-byte compressor config size was read into it.
---
 ebi/src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 4d69395..7ba90c4 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -196,7 +196,9 @@ impl FileReader {
             .map(ChunkFooter::from_le_bytes)
             .collect::<Vec<_>>();
 
-        input.read_exact(&mut buf[..1])?;
+        // `buf` is empty here if the file has no chunks.
+        buf.resize(1, 0);
+        input.read_exact(&mut buf[..])?;
         let config_size = buf[0] as usize;
         buf.resize(config_size, 0);
         input.read_exact(&mut buf[..config_size])?;
-- 
2.43.0


From 7ad469376996890d6f1509535c876e3b91e0a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:20 +0000
Subject: [PATCH 02/47] fix: do not shift by 64 bits when Elf writes a lone
 sign bit

A first value of -0.0, or two successive values that differ only in the
sign bit, have 63 trailing zeros; shifting by trailing_zeros + 1 overflows
and panics when overflow checks are on.
---
 ebi/src/compressor/elf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 245bc3c..8639918 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -196,7 +196,7 @@ impl ElfXorEncoder {
         let trailing_zeros = bits.trailing_zeros();
         w.write_bits(trailing_zeros as u64, 7);
         if trailing_zeros < 64 {
-            w.write_bits(bits >> (trailing_zeros + 1), 63 - trailing_zeros);
+            w.write_bits((bits >> trailing_zeros) >> 1, 63 - trailing_zeros);
             self.size += 70 - trailing_zeros as usize;
             70 - trailing_zeros as usize
         } else {
@@ -249,7 +249,7 @@ impl ElfXorEncoder {
                         ((((0x2 << 3) | leading_repr) << 4) | (center_bits & 0xf)) as u64,
                         9,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 8 + center_bits as usize;
                     this_size += 8 + center_bits as usize;
                 } else {
@@ -258,7 +258,7 @@ impl ElfXorEncoder {
                         ((((0x3 << 3) | leading_repr) << 6) | (center_bits & 0x3f)) as u64,
                         11,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 10 + center_bits as usize;
                     this_size += 10 + center_bits as usize;
                 }
-- 
2.43.0


From 9e22f63e10f51beda7120c7302785625143defc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:03 +0000
Subject: [PATCH 03/47] fix: flag only exact negative powers of ten in Elf

The flag was derived from log10(v) being integral, which also holds for
large powers of ten (where the digit count then overflows, e.g. 1e308) and,
because log10 rounds, for values that are merely close to a power of ten.
---
 ebi/src/compression_common/elf.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ebi/src/compression_common/elf.rs b/ebi/src/compression_common/elf.rs
index 66d7085..7f3e8bc 100644
--- a/ebi/src/compression_common/elf.rs
+++ b/ebi/src/compression_common/elf.rs
@@ -147,9 +147,8 @@ fn get_sp_and_10i_n_flag(v: f64) -> (i32, i32) {
             i += 1;
         }
     }
-    let log10v = v.log10();
-    (
-        log10v.floor() as i32,
-        if log10v == log10v.floor() { 1 } else { 0 },
-    )
+    let sp = v.log10().floor() as i32;
+    // `log10` rounds, so compare with the power of ten itself. Only 10^-i (i > 0) is flagged.
+    let is_10i_n = v < 1.0 && v == get_10i_n(-sp as u32);
+    (sp, if is_10i_n { 1 } else { 0 })
 }
-- 
2.43.0


From cffdfcf9bbf7bf2c6f325bf20b018515d9393ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:25 +0000
Subject: [PATCH 04/47] fix: erase bits in Elf only if the value can be
 recovered

Recovering a value multiplies and divides by a power of ten. For powers
that are not exactly representable (and for digit counts found with a
different power) the result can differ from the original, so the scheme
silently lost the last bits of values such as 1.1e-24. Check the recovery
when encoding, and store the value as it is otherwise.
---
 ebi/src/compression_common/elf.rs   | 16 ++++++++++++++++
 ebi/src/compressor/elf.rs           |  8 +++++++-
 ebi/src/decoder/chunk_reader/elf.rs | 12 +-----------
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/ebi/src/compression_common/elf.rs b/ebi/src/compression_common/elf.rs
index 7f3e8bc..ef46c2f 100644
--- a/ebi/src/compression_common/elf.rs
+++ b/ebi/src/compression_common/elf.rs
@@ -57,6 +57,22 @@ pub fn round_up(v: f64, alpha: u32) -> f64 {
     }
 }
 
+/// Recovers the original value from the erased value `v_prime` and `beta_star`.
+pub fn recover_v_by_beta_star(v_prime: f64, beta_star: i32) -> f64 {
+    let sp = get_sp(v_prime.abs());
+    if beta_star == 0 {
+        let v = get_10i_n((-sp - 1) as u32);
+        if v_prime < 0.0 {
+            -v
+        } else {
+            v
+        }
+    } else {
+        let alpha = beta_star - sp - 1;
+        round_up(v_prime, alpha as u32)
+    }
+}
+
 fn get_significant_count(v: f64, sp: i32, last_beta_star: i32) -> i32 {
     let mut i = if last_beta_star != i32::MAX && last_beta_star != 0 {
         std::cmp::max(last_beta_star - sp - 1, 1)
diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 8639918..9b1ace5 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -122,7 +122,13 @@ impl<T: XorEncoder> ElfEncoderWrapper<T> {
                 }
             }
 
-            if beta_star < 16 && erase_bits > 4 && delta != 0 {
+            // Rounding errors can make the erased value unrecoverable, e.g. 1.1e-24.
+            let is_recoverable = || {
+                elf::recover_v_by_beta_star(f64::from_bits(mask & v_bits), beta_star).to_bits()
+                    == v_bits
+            };
+
+            if beta_star < 16 && erase_bits > 4 && delta != 0 && is_recoverable() {
                 // C2
                 if beta_star == self.last_beta_star {
                     // case 0
diff --git a/ebi/src/decoder/chunk_reader/elf.rs b/ebi/src/decoder/chunk_reader/elf.rs
index 5ae3308..de9f90d 100644
--- a/ebi/src/decoder/chunk_reader/elf.rs
+++ b/ebi/src/decoder/chunk_reader/elf.rs
@@ -66,17 +66,7 @@ impl<T: XorDecoder> ElfDecoderWrapper<T> {
         let Some(v_prime) = self.xor_decompress(r)? else {
             return Ok(None);
         };
-        let sp = compression_common::elf::get_sp(v_prime.abs());
-        let v = if self.last_beta_star == 0 {
-            let mut v = compression_common::elf::get_10i_n((-sp - 1) as u32);
-            if v_prime < 0.0 {
-                v = -v;
-            }
-            v
-        } else {
-            let alpha = self.last_beta_star - sp - 1;
-            compression_common::elf::round_up(v_prime, alpha as u32)
-        };
+        let v = compression_common::elf::recover_v_by_beta_star(v_prime, self.last_beta_star);
         Ok(Some(v))
     }
 
-- 
2.43.0


From 116e567d7b0541fada4be5ef61296677e0169188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:44 +0000
Subject: [PATCH 05/47] fix: refuse a DeltaSprintz scale that does not fit the
 chunk header

The chunk header stores the scale in 32 bits. A larger scale was cut off
silently, so that every decoded value was divided by a different number.
---
 ebi/src/compressor/sprintz.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ebi/src/compressor/sprintz.rs b/ebi/src/compressor/sprintz.rs
index 912fe44..36f4d18 100644
--- a/ebi/src/compressor/sprintz.rs
+++ b/ebi/src/compressor/sprintz.rs
@@ -1,4 +1,4 @@
-use std::mem;
+use std::{io, mem};
 
 use derive_builder::Builder;
 #[cfg(feature = "serde")]
@@ -87,6 +87,14 @@ impl<W: BitWrite> DeltaSprintzCompressorImpl<W> {
 impl<W: BitWrite> Compressor for DeltaSprintzCompressorImpl<W> {
     fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
         self.reset();
+        // The chunk header has 32 bits for the scale.
+        if self.scale > u64::from(u32::MAX) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                format!("scale must be at most {}: {}", u32::MAX, self.scale),
+            )
+            .into());
+        }
         // quantize
         self.total_bytes_in += size_of_val(input);
         // TODO: return quantize error here
-- 
2.43.0


From 3b4aff7a76c0a4054a330095af1181b88e3e9871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:13 +0000
Subject: [PATCH 06/47] fix: keep BUFF filters inside the given bitmask

---
 ebi/src/decoder/chunk_reader/buff.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff.rs b/ebi/src/decoder/chunk_reader/buff.rs
index 7b9d8e9..7dfeb70 100644
--- a/ebi/src/decoder/chunk_reader/buff.rs
+++ b/ebi/src/decoder/chunk_reader/buff.rs
@@ -160,7 +160,7 @@ impl QueryExecutor for BUFFReader {
                 } else {
                     // Predicate::Ne
                     #[allow(clippy::suspicious_operation_groupings)]
-                    if let Some(bitmask) = bitmask {
+                    if let Some(bitmask) = &bitmask {
                         bitmask - result
                     } else {
                         all() - result
@@ -210,8 +210,8 @@ impl QueryExecutor for BUFFReader {
 
                 match (left, right) {
                     (None, None) => {
-                        if let Some(bitmask) = bitmask {
-                            bitmask
+                        if let Some(bitmask) = &bitmask {
+                            bitmask.clone()
                         } else {
                             all()
                         }
@@ -222,6 +222,11 @@ impl QueryExecutor for BUFFReader {
                 }
             }
         };
+        // Chunks decided as a whole do not look at the bitmask
+        let result = match bitmask {
+            Some(bitmask) => result & bitmask,
+            None => result,
+        };
 
         comparison_timer.stop();
         Ok(result)
-- 
2.43.0


From fda72a112754490de0919fcf3351b833ed5691cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:31 +0000
Subject: [PATCH 07/47] fix: BUFF equality filter with a constant above the
 chunk's range

---
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index aa4c7f8..1eff62c 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -112,6 +112,10 @@ pub(crate) fn buff_simd256_equal_filter(
     }
 
     let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    // The predicate is larger than any value in this chunk
+    if 64 - delta_fixed_pred.leading_zeros() > fixed_representation_bits_length {
+        return none();
+    }
 
     let mut remaining_bits_length = fixed_representation_bits_length;
 
-- 
2.43.0


From 6b96b3cc613991c53885c8b44242e21a94fa2353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:31 +0000
Subject: [PATCH 08/47] fix: DeltaSprintz minimum of an already decompressed
 chunk

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index d684657..3a8edce 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -7,7 +7,8 @@ use crate::{
         self,
         error::DecoderError,
         query::{
-            default_filter, default_materialize, default_max, default_sum, Predicate, QueryExecutor,
+            default_filter, default_materialize, default_max, default_min, default_sum, Predicate,
+            QueryExecutor,
         },
         FileMetadataLike, GeneralChunkHandle,
     },
@@ -210,7 +211,7 @@ impl QueryExecutor for DeltaSprintzReader {
         timer: &mut SegmentedExecutionTimes,
     ) -> decoder::Result<f64> {
         if self.decompressed.is_some() {
-            return default_max(self, bitmask, logical_offset, timer);
+            return default_min(self, bitmask, logical_offset, timer);
         }
 
         if let Some(bitmask) = bitmask {
-- 
2.43.0


From 357bd5ba10dfa876cd60e2a29810d5423b87e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:31 +0000
Subject: [PATCH 09/47] fix: DeltaSprintz sum of a selection without records in
 the chunk is zero

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 3a8edce..f23303b 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -289,7 +289,7 @@ fn sum(
     let mut sum = 0;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
-        return Ok(f64::NAN);
+        return Ok(0.0);
     };
     for record_index in 0..number_of_records {
         let zigzag_delta = bit_reader
-- 
2.43.0


From 1a07ad1efbf91bb2c9f16923f15d8b59ebb0b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:31 +0000
Subject: [PATCH 10/47] fix: BUFF sum over a bitmask of a chunk of equal values

---
 ebi/src/decoder/chunk_reader/buff/sum.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 5b261f4..49e107f 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -77,10 +77,16 @@ pub(super) fn sum_with_bitmask(
 
     let scale: f64 = 2.0f64.powi(fractional_part_bits_length as i32);
 
+    let accumulated_len = if let Some(bitmask) = bitmask {
+        bitmask.len() as i64
+    } else {
+        number_of_records as i64
+    };
+
     // All values are the same
     if fixed_representation_bits_length == 0 {
         let fp = base_fixed64 as f64 / scale;
-        return Ok(fp * number_of_records as f64);
+        return Ok(fp * accumulated_len as f64);
     }
 
     let mut sum = 0;
@@ -108,11 +114,6 @@ pub(super) fn sum_with_bitmask(
         sum += subcolumn_sum;
     }
 
-    let accumulated_len = if let Some(bitmask) = bitmask {
-        bitmask.len() as i64
-    } else {
-        number_of_records as i64
-    };
     let sum = (sum as i64 + base_fixed64 * accumulated_len) as f64 / scale;
 
     Ok(sum)
-- 
2.43.0


From ec7c0dca76521e1dd265dc20b0f7b2f7634b80db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:31 +0000
Subject: [PATCH 11/47] fix: nearest neighbour search over vectors that span
 chunks

---
 ebi/src/api/decoder.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index fa71640..b705d20 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -498,14 +498,16 @@ impl<R: Read + Seek> Decoder<R> {
                 processing_vector.distance +=
                     chunk_reader.distance_squared(0, &target[remaining_target_start..])?;
 
-                if processing_vector.distance < min_result.distance {
-                    min_result = processing_vector;
-                }
-
-                remaining_records = 0;
+                let n_records_in_vector = remaining_records.min(chunk_number_of_records);
+                offset += n_records_in_vector;
+                remaining_records -= n_records_in_vector;
 
-                processing_vector.index += 1;
-                offset += remaining_records;
+                if remaining_records == 0 {
+                    if processing_vector.distance <= min_result.distance {
+                        min_result = processing_vector;
+                    }
+                    processing_vector.index += 1;
+                }
             }
 
             while offset < chunk_number_of_records {
-- 
2.43.0


From 9f27c095fd3fbf1918a57493b67635b126fe23f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:31 +0000
Subject: [PATCH 12/47] fix: do not loop forever on an empty nearest neighbour
 target

---
 ebi/src/api/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index b705d20..3135bfa 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -468,6 +468,9 @@ impl<R: Read + Seek> Decoder<R> {
     /// ```
     pub fn knn1(&mut self, target: &[f64]) -> decoder::Result<KnnResult> {
         let target_len = target.len();
+        if target_len == 0 {
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
 
         let Self {
             input,
-- 
2.43.0


From 46f61744553f7575bc7cdcbd7bba3936932c9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:58 +0000
Subject: [PATCH 13/47] fix: refuse matrix shapes that are empty or do not
 match the target

---
 ebi/src/api/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 3135bfa..70f14f4 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -620,6 +620,12 @@ impl<R: Read + Seek> Decoder<R> {
         let (target_rows, target_columns) = target_matrix_shape;
         let (data_rows, data_columns) = data_matrix_shape;
 
+        let is_data_matrix_empty = data_rows == 0 || data_columns == 0;
+        let is_target_matrix_shape_invalid = target_rows * target_columns != target_matrix.len();
+        if is_data_matrix_empty || is_target_matrix_shape_invalid {
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
+
         let is_matrix_shape_invalid = data_columns != target_rows;
         let is_data_matrix_shape_aligned_to_number_of_records_invalid =
             number_of_records % (data_rows * data_columns) != 0;
-- 
2.43.0


From 001b19414b10410505da1033bf583f3e72ed1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:58 +0000
Subject: [PATCH 14/47] fix: multiply matrices that span chunks

---
 ebi/src/api/decoder.rs | 48 +++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 70f14f4..704510f 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -635,31 +635,35 @@ impl<R: Read + Seek> Decoder<R> {
 
         let batch_size = number_of_records / (data_rows * data_columns);
 
-        let mut result_matrices = Vec::with_capacity(batch_size * data_rows * target_columns);
-
-        let mut offset_in_chunk = 0;
-        let mut chunk_index = 0;
-        let mut chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
-
-        for _ in 0..batch_size {
-            if offset_in_chunk >= chunk_reader.number_of_records() as usize {
-                offset_in_chunk = 0;
-                chunk_index += 1;
-                timer += chunk_reader.segmented_execution_times();
-                chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
-            }
-            for row_index in 0..data_rows {
-                for target_column in target_matrix.chunks_exact(target_rows) {
-                    let result = chunk_reader
-                        .dot_product(offset_in_chunk + row_index * data_columns, target_column)?;
-
-                    result_matrices.push(result);
+        let mut result_matrices = vec![0.0; batch_size * data_rows * target_columns];
+
+        let mut record_index = 0;
+        for chunk_index in 0..self.chunk_handles.len() {
+            let mut chunk_reader = self.chunk_reader(ChunkId::new(chunk_index))?;
+            let chunk_number_of_records = chunk_reader.number_of_records() as usize;
+
+            // A row of the data matrices may span chunks, so accumulate the dot products of its parts.
+            let mut offset_in_chunk = 0;
+            while offset_in_chunk < chunk_number_of_records {
+                let row_index = record_index / data_columns;
+                let column_index = record_index % data_columns;
+                let n_columns =
+                    (data_columns - column_index).min(chunk_number_of_records - offset_in_chunk);
+                let result_row = &mut result_matrices[row_index * target_columns..];
+                for (result, target_column) in result_row
+                    .iter_mut()
+                    .zip(target_matrix.chunks_exact(target_rows))
+                {
+                    *result += chunk_reader.dot_product(
+                        offset_in_chunk,
+                        &target_column[column_index..column_index + n_columns],
+                    )?;
                 }
+                offset_in_chunk += n_columns;
+                record_index += n_columns;
             }
-            offset_in_chunk += data_rows * data_columns;
+            timer += chunk_reader.segmented_execution_times();
         }
-        debug_assert!(chunk_reader.is_last_chunk());
-        timer += chunk_reader.segmented_execution_times();
 
         self.timer = timer;
 
-- 
2.43.0


From fe84887fc0d63329f1fa563988726b048084b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:48 +0000
Subject: [PATCH 15/47] fix: sum BUFF and DeltaSprintz chunks without 64 bit
 overflow

---
 ebi/src/decoder/chunk_reader/buff/sum.rs | 10 ++++++----
 ebi/src/decoder/chunk_reader/sprintz.rs  |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 49e107f..bc5969f 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -89,7 +89,8 @@ pub(super) fn sum_with_bitmask(
         return Ok(fp * accumulated_len as f64);
     }
 
-    let mut sum = 0;
+    // The sum of the fixed point values of a chunk may need more than 64 bits
+    let mut sum = 0i128;
     let n_byte_subcolumns = fixed_representation_bits_length / 8;
     let bits_subcolumn_length = fixed_representation_bits_length % 8;
 
@@ -98,7 +99,8 @@ pub(super) fn sum_with_bitmask(
             .read_n_byte(number_of_records as usize)
             .map_err(|_| DecoderError::UnexpectedEndOfChunk)?;
         let subcolumn_sum = sum_byte_subcolumn(chunk, bitmask, logical_offset);
-        let subcolumn_sum_scaled = subcolumn_sum << ((i * 8 + bits_subcolumn_length) as u64);
+        let subcolumn_sum_scaled =
+            (subcolumn_sum as i128) << ((i * 8 + bits_subcolumn_length) as u64);
         sum += subcolumn_sum_scaled;
     }
     if bits_subcolumn_length != 0 {
@@ -111,10 +113,10 @@ pub(super) fn sum_with_bitmask(
         )?;
         // sum += subcolumn_sum as f64 / scale;
         // sum <<= bits_subcolumn_length;
-        sum += subcolumn_sum;
+        sum += subcolumn_sum as i128;
     }
 
-    let sum = (sum as i64 + base_fixed64 * accumulated_len) as f64 / scale;
+    let sum = (sum + base_fixed64 as i128 * accumulated_len as i128) as f64 / scale;
 
     Ok(sum)
 }
diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index f23303b..bc18354 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -286,7 +286,7 @@ fn sum(
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
     let comparison_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
-    let mut sum = 0;
+    let mut sum = 0i128;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
         return Ok(0.0);
@@ -303,7 +303,7 @@ fn sum(
             continue;
         }
 
-        sum += quantized;
+        sum += quantized as i128;
         if let Some(next_logical_record_index) = bitmask.next() {
             next = next_logical_record_index;
         } else {
@@ -334,7 +334,7 @@ fn sum_without_bitmask(
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
     let comparison_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
-    let mut sum = 0;
+    let mut sum = 0i128;
     let mut previous_value_quantized = initial_value;
     for _ in 0..number_of_records {
         let zigzag_delta = bit_reader
@@ -344,7 +344,7 @@ fn sum_without_bitmask(
         let quantized = previous_value_quantized + delta;
         previous_value_quantized = quantized;
 
-        sum += quantized;
+        sum += quantized as i128;
     }
     comparison_timer.stop();
 
-- 
2.43.0


From e6689262a380eea0c3a8db671ec05f5c55966e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:19 +0000
Subject: [PATCH 16/47] fix: plain values of a single column without an
 aggregate

---
 ebi/src/api/decoder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 704510f..ab2c4b1 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -830,7 +830,16 @@ impl AggregationKind {
         bitmask: Option<&RoaringBitmap>,
     ) -> decoder::Result<AggregationResult> {
         Ok(match self {
-            AggregationKind::None => todo!(),
+            AggregationKind::None => {
+                let mut output = DecoderOutput::from_vec(Vec::new());
+                decoder.materialize(&mut output, bitmask, None)?;
+                let bytes = output.into_writer().into_inner();
+                bytes
+                    .chunks_exact(size_of::<f64>())
+                    .map(|value| f64::from_ne_bytes(value.try_into().unwrap()))
+                    .collect::<Vec<f64>>()
+                    .into()
+            }
             AggregationKind::Max => decoder.max(bitmask, None)?.into(),
             AggregationKind::Min => decoder.min(bitmask, None)?.into(),
             AggregationKind::Sum => decoder.sum(bitmask, None)?.into(),
-- 
2.43.0


From bddf04235d6d71b5cf8819204100a7cf5769506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:06 +0000
Subject: [PATCH 17/47] fix: retry interrupted reads of the encoder input

---
 ebi/src/encoder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 276e754..570c073 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -280,10 +280,8 @@ fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
         match f.read(&mut u8_slice[n_read..]) {
             Ok(0) => break,
             Ok(n) => n_read += n,
-            Err(e)
-                if e.kind() == io::ErrorKind::Interrupted
-                    || e.kind() == io::ErrorKind::UnexpectedEof =>
-            {
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
                 if n_read == 0 {
                     return Err(e.into());
                 }
-- 
2.43.0


From d582e9b26a72179377355e55ac73e6ee0a272e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:56 +0000
Subject: [PATCH 18/47] fix: read bits after skipping past the end of the
 buffer

---
 ebi/src/io/bit_read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebi/src/io/bit_read.rs b/ebi/src/io/bit_read.rs
index 3febe8e..0bec993 100644
--- a/ebi/src/io/bit_read.rs
+++ b/ebi/src/io/bit_read.rs
@@ -294,7 +294,8 @@ impl<T: AsRef<[u8]>> BitRead2 for BufferedBitReader<T> {
         let mut remaining_bits = n;
         let mut result = 0u64;
 
-        if (self.buffer.as_ref().len() - self.byte_pos) * 8 - self.bit_pos < n as usize {
+        let total_bits = self.buffer.as_ref().len() * 8;
+        if total_bits.saturating_sub(self.byte_pos * 8 + self.bit_pos) < n as usize {
             return None;
         }
 
-- 
2.43.0


From 9db6b13680a31d28b0ff1b309949d4138a24b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:01 +0000
Subject: [PATCH 19/47] fix: pack fields of 31 bits without overflow

---
 ebi/src/compression_common/buff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/compression_common/buff.rs b/ebi/src/compression_common/buff.rs
index 2a0eaaf..86f34ac 100644
--- a/ebi/src/compression_common/buff.rs
+++ b/ebi/src/compression_common/buff.rs
@@ -87,7 +87,7 @@ pub(crate) mod bit_packing {
                 return Err(bits);
             }
             if bits < MAX_BITS {
-                value &= ((1 << bits) - 1) as u32;
+                value &= (1u32 << bits) - 1;
             }
 
             loop {
-- 
2.43.0


From 5f6483c8ca6ba8423ff2d53fef4b97d6d28ee5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:25 +0000
Subject: [PATCH 20/47] fix: count only the current input of a reused BUFF or
 Zstd compressor

---
 ebi/src/compressor/buff.rs | 1 +
 ebi/src/compressor/zstd.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ebi/src/compressor/buff.rs b/ebi/src/compressor/buff.rs
index 8c62872..08d3ac7 100644
--- a/ebi/src/compressor/buff.rs
+++ b/ebi/src/compressor/buff.rs
@@ -45,6 +45,7 @@ impl BUFFCompressor {
 
 impl Compressor for BUFFCompressor {
     fn compress(&mut self, data: &[f64]) -> encoder::Result<()> {
+        self.reset();
         let quantization_timer = self.timer.start_measurement(SegmentKind::Quantization);
         let precalculated = Precalculated::precalculate(self.scale as usize, data);
         quantization_timer.stop();
diff --git a/ebi/src/compressor/zstd.rs b/ebi/src/compressor/zstd.rs
index aafe28f..4a6f1fa 100644
--- a/ebi/src/compressor/zstd.rs
+++ b/ebi/src/compressor/zstd.rs
@@ -47,6 +47,7 @@ impl From<ZstdCompressorConfig> for ZstdCompressor {
 
 impl Compressor for ZstdCompressor {
     fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
+        self.reset();
         let bytes =
             unsafe { std::slice::from_raw_parts(input.as_ptr().cast::<u8>(), size_of_val(input)) };
         self.total_bytes_in += bytes.len();
-- 
2.43.0


From 1fd327855a1c6f5e6c212cb2f1f01cbf98a8b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:25 +0000
Subject: [PATCH 21/47] fix: do not count rewound records of an uncompressed
 chunk

---
 ebi/src/compressor/uncompressed.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ebi/src/compressor/uncompressed.rs b/ebi/src/compressor/uncompressed.rs
index 8fd1a45..7a938cf 100644
--- a/ebi/src/compressor/uncompressed.rs
+++ b/ebi/src/compressor/uncompressed.rs
@@ -87,6 +87,7 @@ impl RewindableCompressor for UncompressedCompressor {
             return false;
         }
         self.buffer.truncate(self.buffer.len() - n);
+        self.total_bytes_in -= n * size_of::<f64>();
 
         true
     }
-- 
2.43.0


From 4d2c8757b4102782436bf0109ba62121e8fae559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:25 +0000
Subject: [PATCH 22/47] fix: run length encode an empty slice

---
 ebi/src/compressor/run_length.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ebi/src/compressor/run_length.rs b/ebi/src/compressor/run_length.rs
index f9a0eef..ec041bb 100644
--- a/ebi/src/compressor/run_length.rs
+++ b/ebi/src/compressor/run_length.rs
@@ -63,6 +63,9 @@ impl Default for RunLengthCompressor {
 impl Compressor for RunLengthCompressor {
     fn compress(&mut self, input: &[f64]) -> encoder::Result<()> {
         self.reset();
+        if input.is_empty() {
+            return Ok(());
+        }
         let is_starting = self.previous_run_count == 0;
         if is_starting {
             self.previous_value = input[0];
@@ -139,6 +142,9 @@ impl Compressor for RunLengthCompressor {
 
 impl AppendableCompressor for RunLengthCompressor {
     fn append_compress(&mut self, input: &[f64]) {
+        if input.is_empty() {
+            return;
+        }
         let is_starting = self.previous_run_count == 0;
         if is_starting {
             self.previous_value = input[0];
-- 
2.43.0


From d96b18fd8c5aa21b42e154b9187075d6da674522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:00 +0000
Subject: [PATCH 23/47] fix: decompress a chunk again from its beginning

---
 ebi/src/decoder/chunk_reader/chimp_n.rs      |  1 +
 ebi/src/decoder/chunk_reader/general_xor.rs  |  1 +
 ebi/src/decoder/chunk_reader/run_length.rs   | 17 ++++++++++++++---
 ebi/src/decoder/chunk_reader/sprintz.rs      |  1 +
 ebi/src/decoder/chunk_reader/uncompressed.rs |  8 +++++---
 5 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 0356e00..22de353 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -52,6 +52,7 @@ impl<const N: usize> Reader for ChimpNReader<N> {
     type DecompressIterator<'a> = ChimpNDecompressIterator<'a, N>;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(ChimpNDecompressIteratorImpl::new(
             &mut self.bit_reader,
             self.number_of_records,
diff --git a/ebi/src/decoder/chunk_reader/general_xor.rs b/ebi/src/decoder/chunk_reader/general_xor.rs
index e01c63f..b0eed9f 100644
--- a/ebi/src/decoder/chunk_reader/general_xor.rs
+++ b/ebi/src/decoder/chunk_reader/general_xor.rs
@@ -64,6 +64,7 @@ impl<T: XorDecoder> Reader for GeneralXorReader<T> {
         T: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(Self::DecompressIterator::new(
             &mut self.bit_reader,
             self.number_of_records,
diff --git a/ebi/src/decoder/chunk_reader/run_length.rs b/ebi/src/decoder/chunk_reader/run_length.rs
index 8b6b1d5..285e5c2 100644
--- a/ebi/src/decoder/chunk_reader/run_length.rs
+++ b/ebi/src/decoder/chunk_reader/run_length.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek, SeekFrom},
     mem::size_of,
 };
 
@@ -58,7 +58,16 @@ impl<R: Read> RunLengthReaderImpl<R> {
     }
 }
 
-impl<R: Read> Reader for RunLengthReaderImpl<R> {
+impl<R: Read + Seek> RunLengthReaderImpl<R> {
+    /// Move to the first run.
+    fn rewind(&mut self) -> io::Result<()> {
+        let header_size = size_of::<RunLengthHeader>() as u64;
+        self.reader.seek(SeekFrom::Start(header_size))?;
+        Ok(())
+    }
+}
+
+impl<R: Read + Seek> Reader for RunLengthReaderImpl<R> {
     type NativeHeader = RunLengthHeader;
     type DecompressIterator<'a>
         = RunLengthIteratorImpl<'a, R>
@@ -73,6 +82,7 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
         let mut decompressed = Vec::with_capacity(self.number_of_records());
 
         let decompression_timer = timer.start_addition_measurement(SegmentKind::Decompression);
+        self.rewind()?;
         for _ in 0..self.number_of_fields() {
             let mut buf = [0u8; size_of::<u8>() + size_of::<f64>()];
             self.reader.read_exact(&mut buf)?;
@@ -99,6 +109,7 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.rewind()?;
         Ok(RunLengthIteratorImpl::new(self))
     }
 
@@ -157,4 +168,4 @@ impl<R: Read> Iterator for RunLengthIteratorImpl<'_, R> {
 }
 
 // TODO: Implement specialized scan
-impl<R: Read> QueryExecutor for RunLengthReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for RunLengthReaderImpl<R> {}
diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index bc18354..46df1a1 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -59,6 +59,7 @@ impl Reader for DeltaSprintzReader {
         Self: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Self::DecompressIterator::new(&mut self.bit_reader, self.number_of_records)
     }
 
diff --git a/ebi/src/decoder/chunk_reader/uncompressed.rs b/ebi/src/decoder/chunk_reader/uncompressed.rs
index 10af647..01731ff 100644
--- a/ebi/src/decoder/chunk_reader/uncompressed.rs
+++ b/ebi/src/decoder/chunk_reader/uncompressed.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek},
     mem::size_of,
 };
 
@@ -46,7 +46,7 @@ impl UncompressedReader {
     }
 }
 
-impl<R: Read> Reader for UncompressedReaderImpl<R> {
+impl<R: Read + Seek> Reader for UncompressedReaderImpl<R> {
     type NativeHeader = ();
     type DecompressIterator<'a>
         = UncompressedIteratorImpl<'a, R>
@@ -62,6 +62,7 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
         let buf_ref = buf.as_mut_slice();
         let bytes = buf_ref.as_bytes_mut();
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
+        self.reader.rewind()?;
         self.reader.read_exact(bytes)?;
         io_read_timer.stop();
 
@@ -79,6 +80,7 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.reader.rewind()?;
         Ok(UncompressedIteratorImpl::new(self))
     }
 
@@ -123,4 +125,4 @@ impl<R: Read> Iterator for UncompressedIteratorImpl<'_, R> {
     }
 }
 
-impl<R: Read> QueryExecutor for UncompressedReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for UncompressedReaderImpl<R> {}
-- 
2.43.0


From 53aded82e7e2c3ed6f8d3124a6ad11dcfdca202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:19 +0000
Subject: [PATCH 24/47] fix: report failed reads of BUFF and Chimp128 chunks

---
 ebi/src/decoder/chunk_reader.rs         |  4 ++--
 ebi/src/decoder/chunk_reader/buff.rs    | 13 ++++++++-----
 ebi/src/decoder/chunk_reader/chimp_n.rs | 10 +++++-----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader.rs b/ebi/src/decoder/chunk_reader.rs
index 2ddd8a7..4c23d0b 100644
--- a/ebi/src/decoder/chunk_reader.rs
+++ b/ebi/src/decoder/chunk_reader.rs
@@ -316,13 +316,13 @@ impl<R: Read> GeneralChunkReaderInner<R> {
                 gorilla::GorillaReader::new(handle, reader, timer)?,
             ),
             CompressionScheme::BUFF => {
-                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer))
+                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp => {
                 GeneralChunkReaderInner::Chimp(chimp::ChimpReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp128 => GeneralChunkReaderInner::Chimp128(
-                chimp_n::Chimp128Reader::new(handle, reader, timer),
+                chimp_n::Chimp128Reader::new(handle, reader, timer)?,
             ),
             CompressionScheme::ElfOnChimp => GeneralChunkReaderInner::ElfOnChimp(
                 elf::on_chimp::ElfReader::new(handle, reader, timer)?,
diff --git a/ebi/src/decoder/chunk_reader/buff.rs b/ebi/src/decoder/chunk_reader/buff.rs
index 7dfeb70..4755e02 100644
--- a/ebi/src/decoder/chunk_reader/buff.rs
+++ b/ebi/src/decoder/chunk_reader/buff.rs
@@ -7,7 +7,10 @@ mod min_max;
 mod sum;
 
 use core::slice;
-use std::{io::Read, iter};
+use std::{
+    io::{self, Read},
+    iter,
+};
 
 use roaring::RoaringBitmap;
 
@@ -37,20 +40,20 @@ impl BUFFReader {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> io::Result<Self> {
         let chunk_size = handle.chunk_size();
         let mut chunk_in_memory = vec![0; chunk_size as usize];
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let number_of_records = handle.number_of_records();
-        Self {
+        Ok(Self {
             chunk_size,
             number_of_records,
             precision: None,
             bytes: chunk_in_memory,
             decompressed: None,
-        }
+        })
     }
 
     /// Set the precision to be used when materializing the data
diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 22de353..b25e80f 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -1,4 +1,4 @@
-use std::io::Read;
+use std::io::{self, Read};
 
 use crate::{
     decoder::{
@@ -27,19 +27,19 @@ impl<const N: usize> ChimpNReader<N> {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> io::Result<Self> {
         let number_of_records = handle.number_of_records() as usize;
         let chunk_size = handle.chunk_size() as usize;
         let mut chunk_in_memory = vec![0; chunk_size];
         let io_read_timer = timer.start_addition_measurement(crate::time::SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let bit_reader = BufferedBitReader::new(chunk_in_memory);
-        ChimpNReader {
+        Ok(ChimpNReader {
             bit_reader,
             number_of_records,
             decompressed_result: None,
-        }
+        })
     }
 }
 
-- 
2.43.0


From 3713cc58f99f5f9f4c12488c20763dbc1435d25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:27 +0000
Subject: [PATCH 25/47] fix: refuse files without the magic number

---
 ebi/src/format/deserialize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ebi/src/format/deserialize.rs b/ebi/src/format/deserialize.rs
index 5554dd5..7d93a2e 100644
--- a/ebi/src/format/deserialize.rs
+++ b/ebi/src/format/deserialize.rs
@@ -101,6 +101,8 @@ impl_try_from_le_bytes_ext!(
 
 #[derive(Error, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 pub enum ConversionError {
+    #[error("Not an EBI file")]
+    MagicNumber,
     #[error("Failed to convert FieldType")]
     FieldType,
     #[error("Failed to convert CompressionScheme")]
@@ -124,6 +126,9 @@ impl TryFromLeBytes for FileHeader {
             bytes[buf_cursor + 2],
             bytes[buf_cursor + 3],
         ];
+        if magic_number != *b"EBI1" {
+            return Err(ConversionError::MagicNumber);
+        }
         buf_cursor += size_of::<[u8; 4]>();
 
         let config = FileConfig::try_from_le_bytes(&bytes[buf_cursor..])?;
-- 
2.43.0


From 3d087a61e840c9c6726bfba855380dc849c4a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:39 +0000
Subject: [PATCH 26/47] fix: refuse files whose encoding was interrupted

---
 ebi/src/decoder.rs            | 26 +++++++++++++++++++-------
 ebi/src/format/deserialize.rs |  2 ++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 7ba90c4..1b316b2 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -16,7 +16,7 @@ use std::{
 use crate::{
     compressor::CompressorConfig,
     format::{
-        deserialize::{FromLeBytes, TryFromLeBytes},
+        deserialize::{ConversionError, FromLeBytes, TryFromLeBytes},
         native::{NativeChunkFooter, NativeFileFooter, NativeFileHeader},
         ChunkFooter, FileFooter0, FileFooter3, FileHeader,
     },
@@ -159,6 +159,11 @@ impl FileReader {
             .header()
             .ok_or(DecoderError::PreconditionsNotMet)?
             .footer_offset();
+        // The encoder fills in the footer offset last: it is zero if encoding was interrupted.
+        if footer_offset < size_of::<FileHeader>() as u64 {
+            #[allow(clippy::useless_conversion)]
+            return Err(DecoderError::from(ConversionError::FooterOffset).into());
+        }
         input.seek(io::SeekFrom::Start(footer_offset))?;
         Ok(())
     }
@@ -184,12 +189,19 @@ impl FileReader {
         let mut buf = vec![0u8; size_of::<FileFooter0>()];
         input.read_exact(&mut buf)?;
         let footer0 = FileFooter0::from_le_bytes(&buf);
-        let n_chunks = footer0.number_of_chunks as usize;
-
-        let chunk_footers_size = size_of::<ChunkFooter>() * n_chunks;
-
-        buf.resize(chunk_footers_size, 0);
-        input.read_exact(&mut buf[..])?;
+        let chunk_footers_size = footer0
+            .number_of_chunks
+            .saturating_mul(size_of::<ChunkFooter>() as u64);
+
+        // Do not allocate what the input does not have.
+        buf.clear();
+        input
+            .by_ref()
+            .take(chunk_footers_size)
+            .read_to_end(&mut buf)?;
+        if buf.len() as u64 != chunk_footers_size {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
 
         let chunk_footers = buf[..]
             .chunks_exact(size_of::<ChunkFooter>())
diff --git a/ebi/src/format/deserialize.rs b/ebi/src/format/deserialize.rs
index 7d93a2e..9f3b5cc 100644
--- a/ebi/src/format/deserialize.rs
+++ b/ebi/src/format/deserialize.rs
@@ -107,6 +107,8 @@ pub enum ConversionError {
     FieldType,
     #[error("Failed to convert CompressionScheme")]
     CompressionScheme,
+    #[error("Footer offset lies inside the header: the file is incomplete")]
+    FooterOffset,
 }
 
 impl<T: FromLeBytes + Sized> TryFromLeBytes for T {
-- 
2.43.0


From cce5947971f80206e76791db9d39cede435329f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:31 +0000
Subject: [PATCH 27/47] fix: compare DeltaSprintz records with constants
 between two units

---
 ebi/src/decoder/chunk_reader/sprintz.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 46df1a1..20d4528 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -116,7 +116,6 @@ impl QueryExecutor for DeltaSprintzReader {
             .read_byte()
             .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
-        let predicate_encoded = predicate.map(|v| (v * scale as f64).round() as i64);
         let all = || {
             let mut all = roaring::RoaringBitmap::new();
             all.insert_range(
@@ -129,7 +128,7 @@ impl QueryExecutor for DeltaSprintzReader {
         };
 
         if self.number_of_records == 0 {
-            if predicate_encoded.eval(0) {
+            if predicate.eval(0.0) {
                 return Ok(all());
             } else {
                 return Ok(RoaringBitmap::new());
@@ -149,7 +148,8 @@ impl QueryExecutor for DeltaSprintzReader {
             let quantized = previous_value_quantized + delta;
             previous_value_quantized = quantized;
 
-            if predicate_encoded.eval(quantized) {
+            // The constants do not have to be multiples of the unit of `scale`
+            if predicate.eval(quantized as f64 / scale as f64) {
                 let record_offset = logical_offset as u32 + i as u32;
                 bm.insert(record_offset);
             }
-- 
2.43.0


From 697de3fbed886ffc3fdf1a9be5f751a018c89b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:04 +0000
Subject: [PATCH 28/47] fix: compare BUFF records with constants outside the
 fixed-point range

---
 ebi/src/compression_common/buff.rs              | 7 +++++++
 ebi/src/decoder/chunk_reader/buff/filter_cmp.rs | 2 +-
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs  | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ebi/src/compression_common/buff.rs b/ebi/src/compression_common/buff.rs
index 86f34ac..0202ff6 100644
--- a/ebi/src/compression_common/buff.rs
+++ b/ebi/src/compression_common/buff.rs
@@ -45,6 +45,13 @@ pub(crate) mod precision_bound {
         let exp = ((v_bits & EXP_MASK) >> 52) as i32 - 1023i32;
         if exp < -fractional_part_bits_length {
             0i64
+        } else if exp + fractional_part_bits_length >= 63 {
+            // does not fit, infinities included
+            if v < 0.0 {
+                i64::MIN
+            } else {
+                i64::MAX
+            }
         } else {
             into_fixed_representation(v, fractional_part_bits_length)
         }
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index f6c766a..f0be46f 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -338,7 +338,7 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
     {
         let pred_fixed_representation_bits_length = if delta_fixed_pred == 0 {
             0
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index 1eff62c..ce460d0 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -111,7 +111,7 @@ pub(crate) fn buff_simd256_equal_filter(
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
     // The predicate is larger than any value in this chunk
     if 64 - delta_fixed_pred.leading_zeros() > fixed_representation_bits_length {
         return none();
-- 
2.43.0


From 16aeeac1d2f3d0d778fc412583f96c7dc7910a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:54 +0000
Subject: [PATCH 29/47] fix: refuse a BUFF scale beyond the supported
 precisions

---
 ebi/src/compressor/buff.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/ebi/src/compressor/buff.rs b/ebi/src/compressor/buff.rs
index 08d3ac7..b970bd4 100644
--- a/ebi/src/compressor/buff.rs
+++ b/ebi/src/compressor/buff.rs
@@ -1,3 +1,5 @@
+use std::io;
+
 use derive_builder::Builder;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -46,8 +48,19 @@ impl BUFFCompressor {
 impl Compressor for BUFFCompressor {
     fn compress(&mut self, data: &[f64]) -> encoder::Result<()> {
         self.reset();
+        if decimal_places(self.scale) >= PRECISION_MAP.len() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                format!(
+                    "scale must be less than 10^{}: {}",
+                    PRECISION_MAP.len(),
+                    self.scale
+                ),
+            )
+            .into());
+        }
         let quantization_timer = self.timer.start_measurement(SegmentKind::Quantization);
-        let precalculated = Precalculated::precalculate(self.scale as usize, data);
+        let precalculated = Precalculated::precalculate(self.scale, data);
         quantization_timer.stop();
         self.compress_with_precalculated(precalculated);
 
@@ -117,6 +130,14 @@ impl BUFFCompressorConfig {
     }
 }
 
+fn decimal_places(scale: u64) -> usize {
+    if scale == 0 {
+        0
+    } else {
+        (scale as f32).log10() as usize
+    }
+}
+
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 struct Precalculated {
     min: usize,
@@ -126,14 +147,10 @@ struct Precalculated {
 }
 
 impl Precalculated {
-    pub fn precalculate(scale: usize, floats: &[f64]) -> Self {
+    pub fn precalculate(scale: u64, floats: &[f64]) -> Self {
         let mut fixed_representation_values = Vec::new();
 
-        let precision = if scale == 0 {
-            0
-        } else {
-            (scale as f32).log10() as usize
-        };
+        let precision = decimal_places(scale);
 
         let fractional_part_bits_length = *PRECISION_MAP.get(precision).unwrap();
         let mut min = i64::MAX;
-- 
2.43.0


From 1c361f17703c0a03ae3d69bd74398715a9080720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:54 +0000
Subject: [PATCH 30/47] fix: refuse a chunk size of zero instead of dropping
 the input

---
 ebi/src/encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 570c073..9b72ada 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -314,6 +314,11 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
 
     pub fn write<W: Write>(&mut self, mut f: W) -> Result<()> {
         let chunk_option = *self.file_writer.chunk_option();
+        if let ChunkOption::RecordCount(0) | ChunkOption::ByteSizeBestEffort(0) = chunk_option {
+            return Err(
+                io::Error::new(io::ErrorKind::InvalidInput, "chunk size must not be zero").into(),
+            );
+        }
 
         match chunk_option {
             opt @ (ChunkOption::RecordCount(_) | ChunkOption::Full) => {
-- 
2.43.0


From 504e4de29ef20b82f33a5ddbbb959c53456ec91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:39 +0000
Subject: [PATCH 31/47] fix: accept chunk sizes beyond what the input holds

---
 ebi/src/encoder.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 9b72ada..a68d5be 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -270,13 +270,18 @@ pub struct ChunkWriter<'a, R: Read> {
 }
 
 fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
-    let mut buf = vec![0.0; (n_bytes + 7) / size_of::<f64>()];
-    let u8_slice = unsafe {
-        let ptr = buf.as_mut_ptr().cast::<u8>();
-        slice::from_raw_parts_mut(ptr, n_bytes)
-    };
+    // `n_bytes` can be far more than the input holds, so that the buffer grows with the input.
+    const INITIAL_BYTES: usize = 1 << 20;
+    let mut buf = vec![0.0; n_bytes.min(INITIAL_BYTES).div_ceil(size_of::<f64>())];
     let mut n_read = 0;
     while n_read < n_bytes {
+        if n_read == size_of_val(buf.as_slice()) {
+            buf.resize(buf.len() * 2, 0.0);
+        }
+        let u8_slice = unsafe {
+            let ptr = buf.as_mut_ptr().cast::<u8>();
+            slice::from_raw_parts_mut(ptr, size_of_val(buf.as_slice()).min(n_bytes))
+        };
         match f.read(&mut u8_slice[n_read..]) {
             Ok(0) => break,
             Ok(n) => n_read += n,
@@ -324,7 +329,10 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
             opt @ (ChunkOption::RecordCount(_) | ChunkOption::Full) => {
                 let io_read_timer = self.timer.start_addition_measurement(SegmentKind::IORead);
                 let mut buf = if let ChunkOption::RecordCount(count) = opt {
-                    read_less_or_equal(self.file_writer.input_mut(), count * size_of::<f64>())?
+                    read_less_or_equal(
+                        self.file_writer.input_mut(),
+                        count.saturating_mul(size_of::<f64>()),
+                    )?
                 } else {
                     let mut buf = Vec::new();
                     self.file_writer.input_mut().read_to_end(&mut buf)?;
@@ -348,7 +356,7 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
                 let io_read_timer = self.timer.start_addition_measurement(SegmentKind::IORead);
                 let mut buf = read_less_or_equal(
                     self.file_writer.input_mut(),
-                    record_count * size_of::<f64>(),
+                    record_count.saturating_mul(size_of::<f64>()),
                 )?;
                 io_read_timer.stop();
                 if buf.is_empty() {
-- 
2.43.0


From a6846715362c63577c3cd036724bebb8b7767eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 32/47] fix: csv2bin reports a failed write instead of leaving
 a truncated file

---
 tools/src/csv2bin.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/src/csv2bin.rs b/tools/src/csv2bin.rs
index ae1a61b..e69207a 100644
--- a/tools/src/csv2bin.rs
+++ b/tools/src/csv2bin.rs
@@ -102,7 +102,8 @@ fn process_file(path: &Path) -> Result<()> {
             }
         }
 
-        Ok(())
+        // Dropping the writer would ignore an error while writing out what it still holds
+        writer.flush().context("Failed to write to output file")
     };
 
     match process() {
-- 
2.43.0


From 68aa52e4fdeb84038e0e4f9df855b5784748678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 33/47] fix: count the decimals of numbers written with an
 upper case exponent

---
 experimenter/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 844c315..1d01705 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -365,7 +365,7 @@ pub enum Output {
 /// assert_eq!(get_decimal_precision("-99"), 0);
 /// ```
 pub fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
 
-- 
2.43.0


From c99b21871d7bcecdfd3f1676e0c23f2bd899dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:17 +0000
Subject: [PATCH 34/47] fix: collect-stats counts the decimals of numbers
 written with an upper case exponent

---
 tools/src/collect-stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 1235453..35d6b43 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -11,7 +11,7 @@ use std::{
 };
 
 fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
         if let Some(dot_pos) = base.find('.') {
-- 
2.43.0


From 50507dfba716ab8a9347d9d5d5af77d557f62ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:01 +0000
Subject: [PATCH 35/47] fix: list the averages of TPC-H Q1 in the order of the
 query

---
 experimenter/src/tpch.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/experimenter/src/tpch.rs b/experimenter/src/tpch.rs
index fd2d683..0be62fe 100644
--- a/experimenter/src/tpch.rs
+++ b/experimenter/src/tpch.rs
@@ -308,9 +308,8 @@ pub fn process_h01(path: impl AsRef<Path>) -> anyhow::Result<HashMap<String, Tpc
         // count(*)
 
         let total_elapsed_time = queries_elapsed_time.iter().sum::<u64>();
-        // swap the order of the result for the consistency with SQL
-        result.swap(4, 6);
-        query_names.swap(4 - 3, 6 - 3);
+        // move AVG(l_discount) behind the other averages for the consistency with SQL
+        result[4..7].rotate_left(1);
 
         let result = TpchResult01 {
             name: "h01".to_string(),
-- 
2.43.0


From 492644dcd09029eede14aba5b8bfb925c8c315d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:05 +0000
Subject: [PATCH 36/47] fix: report a result file that cannot be written
 completely

---
 experimenter/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 4a0d53a..bd4d8d9 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -811,6 +811,7 @@ fn write_output_json(
     let mut writer = std::io::BufWriter::new(output_file);
     let write_result = writer
         .write_all(output_json.as_bytes())
+        .and_then(|()| writer.flush())
         .context("Failed to write output");
     if let Err(e) = write_result {
         eprintln!("{}\n", output_filename.as_ref().display());
-- 
2.43.0


From eb9a2754092389fb438507f2b2d67a1badce3a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:00 +0000
Subject: [PATCH 37/47] fix: give the repetition count of all and all-patch its
 own short option

---
 experimenter/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index bd4d8d9..4612a31 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -90,7 +90,7 @@ struct AllPatchArgs {
     binary_dir: PathBuf,
     #[arg(long, short('s'))]
     save_dir: PathBuf,
-    #[arg(long, short('s'))]
+    #[arg(long, short('n'))]
     n: Option<usize>,
 
     #[arg(long("pd"))]
@@ -185,7 +185,7 @@ struct AllArgs {
     binary_dir: PathBuf,
     #[arg(long, short('s'))]
     save_dir: PathBuf,
-    #[arg(long, short('s'))]
+    #[arg(long, short('n'))]
     n: Option<usize>,
 }
 impl AllArgs {
-- 
2.43.0


From 8a4c6613b22d563179ef4ab0d1eba5ee35900d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:08 +0000
Subject: [PATCH 38/47] fix: let all-patch read the result files that all
 writes

---
 experimenter/src/main.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 4612a31..b1a93f5 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -529,12 +529,19 @@ fn main() -> anyhow::Result<()> {
             "Patched dataset is not a file: {}",
             patched.display()
         );
-        let Output::All(patched) =
-            serde_json::from_reader::<_, Output>(&mut BufReader::new(File::open(&patched)?))
-                .context("Failed to read results being patched")?
-        else {
-            anyhow::bail!("Patched dataset is not an AllOutput");
-        };
+        // The nanosecond counts are u128, which a tagged enum like `Output` cannot read
+        let mut patched: serde_json::Value =
+            serde_json::from_reader(&mut BufReader::new(File::open(&patched)?))
+                .context("Failed to read results being patched")?;
+        let command_type = patched
+            .as_object_mut()
+            .and_then(|patched| patched.remove("command_type"));
+        anyhow::ensure!(
+            command_type.is_some_and(|command_type| command_type == "All"),
+            "Patched dataset is not an AllOutput"
+        );
+        let patched: AllOutput =
+            serde_json::from_value(patched).context("Failed to read results being patched")?;
         let save_dir = args
             .binary_dir
             .parent()
-- 
2.43.0


From fec42adf46bad3ce74c48dc7e930542a9aa8f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:08 +0000
Subject: [PATCH 39/47] fix: drop the earlier max and sum runs when a method is
 measured again

---
 experimenter/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 1d01705..c1b886c 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -209,6 +209,8 @@ impl AllOutputInner {
         self.compress.clear();
         self.filters.clear();
         self.materialize.clear();
+        self.max.clear();
+        self.sum.clear();
     }
 }
 
-- 
2.43.0


From 2985a1327c274ea9bbf184b19280453ba60bcd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:58 +0000
Subject: [PATCH 40/47] fix: collect-stats averages the exponents of large
 files without overflow

---
 tools/src/collect-stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 35d6b43..9cb6f13 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -296,7 +296,7 @@ fn mean_i32(values: &[i32]) -> f64 {
     if values.is_empty() {
         0.0
     } else {
-        let sum: i32 = values.iter().sum();
+        let sum: i64 = values.iter().map(|&v| i64::from(v)).sum();
         sum as f64 / values.len() as f64
     }
 }
-- 
2.43.0


From a6dc324ce29f482e7fc2d6eca81cf9a0561f3501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:35 +0000
Subject: [PATCH 41/47] fix: skip the bounded-precision methods for datasets
 they cannot hold

---
 experimenter/src/main.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index b1a93f5..6564aee 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -876,6 +876,13 @@ fn process_experiment_for_compressor(
             );
             return Ok(());
         }
+        if compression_scheme == CompressionScheme::DeltaSprintz && scale > u64::from(u32::MAX) {
+            eprintln!(
+                "Scale({}) is too large for DeltaSprintz. Skip: {:?}",
+                scale, compressor_config
+            );
+            return Ok(());
+        }
         if compression_scheme == CompressionScheme::BUFF && precision > 12 {
             eprintln!(
                 "Precision({}) is too high for BUFF. Skip: {:?}",
@@ -2254,6 +2261,19 @@ fn ucr2018_command(
                 config.set_scale(dataset_scales[&dataset_name]);
                 config
             };
+            let max_scale = match config.compression_scheme() {
+                CompressionScheme::DeltaSprintz => u64::from(u32::MAX),
+                CompressionScheme::BUFF => 10u64.pow(12),
+                _ => u64::MAX,
+            };
+            if dataset_scales[&dataset_name] > max_scale {
+                eprintln!(
+                    "Scale is too large for {}, skipping for the method {:?}",
+                    dataset_name,
+                    config.compression_scheme()
+                );
+                continue;
+            }
             let train_file = dataset_entry.join(format!("{}_TRAIN.tsv", dataset_name));
             let test_file = dataset_entry.join(format!("{}_TEST.tsv", dataset_name));
 
@@ -2615,8 +2635,14 @@ fn embedding_command(
                     CompressionScheme::DeltaSprintz | CompressionScheme::BUFF
                 ) {
                     let scale = match scale {
-                        // if precision > 12, skip for the method
-                        Some(scale) if scale > 10u64.pow(12) => {
+                        // if precision > 12, or the scale does not fit the header of
+                        // DeltaSprintz, skip for the method
+                        Some(scale)
+                            if scale > 10u64.pow(12)
+                                || (config.compression_scheme()
+                                    == CompressionScheme::DeltaSprintz
+                                    && scale > u64::from(u32::MAX)) =>
+                        {
                             eprintln!(
                                 "Scale is too large for {}, skipping for the method {:?}",
                                 dataset_key,
-- 
2.43.0


From f1111253d3315161d0905b557b2e2f55b44e0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:17 +0000
Subject: [PATCH 42/47] fix: round UCR series at the dataset's own scale beyond
 nine decimals

---
 experimenter/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 6564aee..3847a3b 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -2094,7 +2094,7 @@ pub struct LabelPixel {
     pub label: isize,
     pub pixels: Vec<f64>,
 }
-pub fn slurp_file(file: impl AsRef<Path>, prec: i32) -> Vec<LabelPixel> {
+pub fn slurp_file(file: impl AsRef<Path>, prec: i64) -> Vec<LabelPixel> {
     fn nan_to_zero(x: f64) -> f64 {
         if x.is_nan() {
             0.0
@@ -2228,7 +2228,7 @@ fn ucr2018_command(
             .to_string_lossy()
             .to_string();
         let test_file = dataset_entry.join(format!("{}_TEST.tsv", dataset_name));
-        let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i32);
+        let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i64);
         let test_vectors = test_data
             .iter()
             .map(|x| x.pixels.clone())
@@ -2277,8 +2277,8 @@ fn ucr2018_command(
             let train_file = dataset_entry.join(format!("{}_TRAIN.tsv", dataset_name));
             let test_file = dataset_entry.join(format!("{}_TEST.tsv", dataset_name));
 
-            let train_data = slurp_file(&train_file, dataset_scales[&dataset_name] as i32);
-            let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i32);
+            let train_data = slurp_file(&train_file, dataset_scales[&dataset_name] as i64);
+            let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i64);
             let train_vectors = train_data
                 .iter()
                 .flat_map(|x| x.pixels.clone())
-- 
2.43.0


From 0a277d0a5d349860a0c658b408502eab11b87808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:15 +0000
Subject: [PATCH 43/47] fix: count the bits of a Chimp128 chunk in a usize, not
 in 32 bits

---
 ebi/src/compressor/chimp_n.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ebi/src/compressor/chimp_n.rs b/ebi/src/compressor/chimp_n.rs
index 9ae210f..e007d5a 100644
--- a/ebi/src/compressor/chimp_n.rs
+++ b/ebi/src/compressor/chimp_n.rs
@@ -88,13 +88,13 @@ impl<const N: usize> Compressor for ChimpNCompressor<N> {
 
     fn total_bytes_buffered(&self) -> usize {
         debug_assert_eq!(
-            self.encoder.size().next_multiple_of(8) as usize / 8,
+            self.encoder.size().next_multiple_of(8) / 8,
             self.encoder.get_out().len()
         );
         // EOF: f64::NAN + 1 bit
         let n_bits = self.encoder.simulate_add_value(f64::NAN) + 1;
 
-        n_bits.next_multiple_of(8) as usize / 8
+        n_bits.next_multiple_of(8) / 8
     }
 
     fn prepare(&mut self) {
@@ -129,7 +129,7 @@ pub struct ChimpNEncoder<const N_PREVIOUS_VALUES: usize> {
     stored_leading_zeros: u32,
     stored_values: Box<[u64]>,
     first: bool,
-    size: u32,
+    size: usize,
     indices: Box<[usize]>,
     index: usize,
     current: usize,
@@ -218,7 +218,7 @@ impl<const N_PREVIOUS_VALUES: usize> ChimpNEncoder<N_PREVIOUS_VALUES> {
         if xor == 0 {
             self.w
                 .write_bits(previous_index as u64, Self::FLAG_ZERO_SIZE);
-            self.size += Self::FLAG_ZERO_SIZE;
+            self.size += Self::FLAG_ZERO_SIZE as usize;
             self.stored_leading_zeros = 65;
         } else {
             let leading_zeros = Self::LEADING_ROUND[xor.leading_zeros() as usize] as u32;
@@ -232,13 +232,13 @@ impl<const N_PREVIOUS_VALUES: usize> ChimpNEncoder<N_PREVIOUS_VALUES> {
                     Self::FLAG_ONE_SIZE,
                 );
                 self.w.write_bits(xor >> trailing_zeros, significant_bits);
-                self.size += significant_bits + Self::FLAG_ONE_SIZE;
+                self.size += (significant_bits + Self::FLAG_ONE_SIZE) as usize;
                 self.stored_leading_zeros = 65;
             } else if leading_zeros == self.stored_leading_zeros {
                 self.w.write_bits(2, 2);
                 let significant_bits = 64 - leading_zeros;
                 self.w.write_bits(xor, significant_bits);
-                self.size += 2 + significant_bits;
+                self.size += (2 + significant_bits) as usize;
             } else {
                 self.stored_leading_zeros = leading_zeros;
                 let significant_bits = 64 - leading_zeros;
@@ -247,7 +247,7 @@ impl<const N_PREVIOUS_VALUES: usize> ChimpNEncoder<N_PREVIOUS_VALUES> {
                     5,
                 );
                 self.w.write_bits(xor, significant_bits);
-                self.size += 5 + significant_bits;
+                self.size += (5 + significant_bits) as usize;
             }
         }
 
@@ -289,7 +289,7 @@ impl<const N_PREVIOUS_VALUES: usize> ChimpNEncoder<N_PREVIOUS_VALUES> {
     /// encoder.add_value(44.0);
     /// assert_eq!(simulated_size, encoder.size());
     /// ```
-    pub fn simulate_add_value(&self, value: f64) -> u32 {
+    pub fn simulate_add_value(&self, value: f64) -> usize {
         let value = value.to_bits();
         if self.first {
             return 64;
@@ -316,26 +316,26 @@ impl<const N_PREVIOUS_VALUES: usize> ChimpNEncoder<N_PREVIOUS_VALUES> {
         }
 
         if xor == 0 {
-            simulated_size += Self::FLAG_ZERO_SIZE;
+            simulated_size += Self::FLAG_ZERO_SIZE as usize;
         } else {
             let leading_zeros = Self::LEADING_ROUND[xor.leading_zeros() as usize] as u32;
 
             if trailing_zeros > Self::THRESHOLD {
                 let significant_bits = 64 - leading_zeros - trailing_zeros;
-                simulated_size += significant_bits + Self::FLAG_ONE_SIZE;
+                simulated_size += (significant_bits + Self::FLAG_ONE_SIZE) as usize;
             } else if leading_zeros == self.stored_leading_zeros {
                 let significant_bits = 64 - leading_zeros;
-                simulated_size += 2 + significant_bits;
+                simulated_size += (2 + significant_bits) as usize;
             } else {
                 let significant_bits = 64 - leading_zeros;
-                simulated_size += 5 + significant_bits;
+                simulated_size += (5 + significant_bits) as usize;
             }
         }
 
         simulated_size
     }
 
-    pub fn size(&self) -> u32 {
+    pub fn size(&self) -> usize {
         self.size
     }
 
-- 
2.43.0


From 55322a023ea1e4f36a83d9ab1c4ddedc4c946332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:29 +0000
Subject: [PATCH 44/47] fix: count a measurement once when it is stopped and
 then dropped

A timer asked to stop on drop and then stopped explicitly added its time twice.
---
 ebi/src/time.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebi/src/time.rs b/ebi/src/time.rs
index e3a034e..53edf14 100644
--- a/ebi/src/time.rs
+++ b/ebi/src/time.rs
@@ -52,6 +52,8 @@ pub struct SegmentTimer<'a, T: KindIndexable, const N: usize> {
 impl<T: KindIndexable, const N: usize> SegmentTimer<'_, T, N> {
     pub fn stop(mut self) {
         self.stop_without_drop();
+        // do not measure again when dropped
+        self.stop_on_drop = false;
     }
 
     fn stop_without_drop(&mut self) {
-- 
2.43.0


From 4d47a761ec438d3f5741ae5969168027c7ed2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:29 +0000
Subject: [PATCH 45/47] fix: count the reading of the chunks in the times of
 aggregates

Aggregation::compute and compute_multiple dropped the time it took to open the chunks, which
for most schemes reads them; compute also dropped that of an aggregate of a bare column, which
compute_multiple counts.
---
 ebi/src/api/decoder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index ab2c4b1..663f138 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -887,7 +887,9 @@ impl Aggregation {
     ) -> decoder::Result<AggregationResult> {
         if let Expr::Index(index) = &self.expr {
             // We can directly access the chunk reader using in-situ query execution if possible.
-            return self.kind.dispatch(&mut decoders[*index], bitmask);
+            let result = self.kind.dispatch(&mut decoders[*index], bitmask)?;
+            *timer += decoders[*index].segmented_execution_times();
+            return Ok(result);
         }
         let number_of_chunks = decoders[0].footer().number_of_chunks() as usize;
         let mut result = AggregationResult::zero(self.kind);
@@ -896,6 +898,10 @@ impl Aggregation {
                 .iter_mut()
                 .map(|d| d.chunk_reader(i))
                 .collect::<decoder::Result<Vec<_>>>()?;
+            // Opening the chunks reads them.
+            for reader in readers.iter() {
+                *timer += reader.segmented_execution_times();
+            }
             let computed_chunk = self.expr.compute_chunk(&mut readers, bitmask, timer)?;
             result.concat(self.kind.dispatch_on_vec(computed_chunk)?, self.kind)?;
         }
@@ -927,6 +933,10 @@ impl Aggregation {
                 .iter_mut()
                 .map(|d| d.chunk_reader(i))
                 .collect::<decoder::Result<Vec<_>>>()?;
+            // Opening the chunks reads them.
+            for reader in readers.iter() {
+                *timer += reader.segmented_execution_times();
+            }
             for (aggr_i, aggr) in aggregations.iter().enumerate() {
                 if computed[aggr_i] {
                     continue;
-- 
2.43.0


From 9ee22ea1756a7556071b27b1509c72ed01acc2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:12 +0000
Subject: [PATCH 46/47] fix: do not divide the throughput of all runs by their
 number

---
 experimenter/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index c1b886c..095beef 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -286,7 +286,6 @@ impl AllOutput {
         let total_compression_throughput = dataset_to_output
             .values()
             .map(|output| {
-                let n = output.compress.len() as f64;
                 let elapsed_time = output
                     .compress
                     .iter()
@@ -297,7 +296,7 @@ impl AllOutput {
                     .iter()
                     .map(|c| c.command_specific.uncompressed_size as f64)
                     .sum::<f64>();
-                (uncompressed_size / elapsed_time) / n
+                uncompressed_size / elapsed_time
             })
             .sum::<f64>();
 
@@ -310,7 +309,6 @@ impl AllOutput {
         let total_decompression_throughput = dataset_to_output
             .values()
             .map(|output| {
-                let n = output.compress.len() as f64;
                 let elapsed_time = output
                     .materialize
                     .iter()
@@ -321,7 +319,7 @@ impl AllOutput {
                     .iter()
                     .map(|c| c.command_specific.uncompressed_size as f64)
                     .sum::<f64>();
-                (uncompressed_size / elapsed_time) / n
+                uncompressed_size / elapsed_time
             })
             .sum::<f64>();
 
-- 
2.43.0


From 3fb0a17ff7e3ba0c93ff0d3fef8723f97563c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:40 +0000
Subject: [PATCH 47/47] fix: read back result documents with a command type

serde does not buffer 128-bit integers, so that every Output with execution
times was refused when read. all-patch no longer has to work around it.
---
 ebi/src/time.rs          | 15 +++++++++++++++
 experimenter/src/lib.rs  | 12 ++++++++++++
 experimenter/src/main.rs | 19 ++++++-------------
 3 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/ebi/src/time.rs b/ebi/src/time.rs
index 53edf14..e924fad 100644
--- a/ebi/src/time.rs
+++ b/ebi/src/time.rs
@@ -127,18 +127,33 @@ impl<T: KindIndexable, const N: usize> AddAssign for SegmentedExecutionTimesImpl
     }
 }
 
+/// serde does not buffer 128 bits, which it has to inside of an internally tagged enum.
+#[cfg(feature = "serde")]
+fn nanos_from_u64<'de, D: serde::Deserializer<'de>>(deserializer: D) -> Result<u128, D::Error> {
+    u64::deserialize(deserializer).map(u128::from)
+}
+
 #[repr(C, packed(1))]
 #[derive(Debug, Clone, Copy, Eq, PartialEq, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct SerializableSegmentedExecutionTimes {
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "nanos_from_u64"))]
     pub io_read_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "nanos_from_u64"))]
     pub io_write_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "nanos_from_u64"))]
     pub xor_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "nanos_from_u64"))]
     pub delta_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "nanos_from_u64"))]
     pub quantization_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "nanos_from_u64"))]
     pub bit_packing_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "nanos_from_u64"))]
     pub compare_insert_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "nanos_from_u64"))]
     pub sum_nanos: u128,
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "nanos_from_u64"))]
     pub decompression_nanos: u128,
 }
 serialize::impl_to_le!(
diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 095beef..3222f26 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -97,11 +97,23 @@ pub struct UCR2018DecompressionResult {
     pub result_string: Vec<String>,
 }
 
+/// serde does not buffer 128 bits, which it has to inside of the tagged [`Output`].
+fn nanos_from_u64<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> Result<Vec<Vec<u128>>, D::Error> {
+    let nanos = Vec::<Vec<u64>>::deserialize(deserializer)?;
+    Ok(nanos
+        .into_iter()
+        .map(|nanos| nanos.into_iter().map(u128::from).collect())
+        .collect())
+}
+
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct UCR2018ResultForOneDataset {
     pub dataset_name: String,
     pub config: UCR2018Config,
     pub compression_config: CompressionConfig,
+    #[serde(deserialize_with = "nanos_from_u64")]
     pub elapsed_time_nanos: Vec<Vec<u128>>,
     pub execution_times: Vec<Vec<SerializableSegmentedExecutionTimes>>,
     pub accuracy: f64,
diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 3847a3b..a1c8861 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -529,19 +529,12 @@ fn main() -> anyhow::Result<()> {
             "Patched dataset is not a file: {}",
             patched.display()
         );
-        // The nanosecond counts are u128, which a tagged enum like `Output` cannot read
-        let mut patched: serde_json::Value =
-            serde_json::from_reader(&mut BufReader::new(File::open(&patched)?))
-                .context("Failed to read results being patched")?;
-        let command_type = patched
-            .as_object_mut()
-            .and_then(|patched| patched.remove("command_type"));
-        anyhow::ensure!(
-            command_type.is_some_and(|command_type| command_type == "All"),
-            "Patched dataset is not an AllOutput"
-        );
-        let patched: AllOutput =
-            serde_json::from_value(patched).context("Failed to read results being patched")?;
+        let Output::All(patched) =
+            serde_json::from_reader::<_, Output>(&mut BufReader::new(File::open(&patched)?))
+                .context("Failed to read results being patched")?
+        else {
+            anyhow::bail!("Patched dataset is not an AllOutput");
+        };
         let save_dir = args
             .binary_dir
             .parent()
-- 
2.43.0

