From 4a01983cf03c0f7163ca4026980e93f437405e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:45 +0000
Subject: [PATCH 01/43] fix: build without the ffi_alp feature

The ffi_alp module, its config arms and its scheme tag were not gated, so ebi
did not compile with default features off. Scheme 12 is now rejected as an
unknown compression scheme when ALP support is not compiled in.
---
 ebi/src/compressor.rs | 13 ++++++++-----
 ebi/src/format.rs     |  1 +
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ebi/src/compressor.rs b/ebi/src/compressor.rs
index 2025644..59c2479 100644
--- a/ebi/src/compressor.rs
+++ b/ebi/src/compressor.rs
@@ -26,7 +26,7 @@ pub mod buff;
 pub mod chimp;
 pub mod chimp_n;
 pub mod elf;
-// #[cfg(feature = "ffi_alp")]
+#[cfg(feature = "ffi_alp")]
 pub mod ffi_alp;
 pub mod general_xor;
 pub mod gorilla;
@@ -302,8 +302,9 @@ impl CompressorConfig {
             | CompressorConfig::Elf(_)
             | CompressorConfig::Zstd(_)
             | CompressorConfig::Gzip(_)
-            | CompressorConfig::Snappy(_)
-            | CompressorConfig::FFIAlp(_) => {}
+            | CompressorConfig::Snappy(_) => {}
+            #[cfg(feature = "ffi_alp")]
+            CompressorConfig::FFIAlp(_) => {}
         }
     }
 
@@ -320,8 +321,9 @@ impl CompressorConfig {
             | CompressorConfig::Elf(_)
             | CompressorConfig::Zstd(_)
             | CompressorConfig::Gzip(_)
-            | CompressorConfig::Snappy(_)
-            | CompressorConfig::FFIAlp(_) => None,
+            | CompressorConfig::Snappy(_) => None,
+            #[cfg(feature = "ffi_alp")]
+            CompressorConfig::FFIAlp(_) => None,
         }
     }
 
@@ -358,6 +360,7 @@ impl CompressorConfig {
             CompressorConfig::Zstd(mut c) => just_write!(c, w),
             CompressorConfig::Gzip(mut c) => just_write!(c, w),
             CompressorConfig::Snappy(mut c) => just_write!(c, w),
+            #[cfg(feature = "ffi_alp")]
             CompressorConfig::FFIAlp(mut c) => just_write!(c, w),
         }
 
diff --git a/ebi/src/format.rs b/ebi/src/format.rs
index f4b9ca3..d42d00f 100644
--- a/ebi/src/format.rs
+++ b/ebi/src/format.rs
@@ -195,6 +195,7 @@ pub enum CompressionScheme {
     Zstd = 9,
     Gzip = 10,
     Snappy = 11,
+    #[cfg(feature = "ffi_alp")]
     FFIAlp = 12,
 }
 
-- 
2.43.0


From f82d9674567c7d0a8d9bdff298d8db0e4cc1199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:45 +0000
Subject: [PATCH 02/43] fix: open files that have no chunks

The decoder read the configuration size into a buffer sized for the chunk
footers and panicked when there were none, so the encoding of an empty input
could not be opened.
---
 ebi/src/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 4d69395..00f6c25 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -196,8 +196,10 @@ impl FileReader {
             .map(ChunkFooter::from_le_bytes)
             .collect::<Vec<_>>();
 
-        input.read_exact(&mut buf[..1])?;
-        let config_size = buf[0] as usize;
+        // `buf` is empty when the file has no chunks, so the size byte is read separately.
+        let mut config_size = [0u8; 1];
+        input.read_exact(&mut config_size)?;
+        let config_size = config_size[0] as usize;
         buf.resize(config_size, 0);
         input.read_exact(&mut buf[..config_size])?;
 
-- 
2.43.0


From 839085e472a7a3c223fa795b037aaba992f9a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:57 +0000
Subject: [PATCH 03/43] fix: keep NaN records in the xor-based codecs

Gorilla, Chimp, Chimp128, Elf and Elf-on-Chimp use the canonical NaN as end
marker, so a NaN record silently cut the chunk short. NaN records are now
stored with another payload.
---
 ebi/src/compressor/chimp_n.rs     |  5 +++--
 ebi/src/compressor/elf.rs         |  2 +-
 ebi/src/compressor/general_xor.rs | 13 ++++++++++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ebi/src/compressor/chimp_n.rs b/ebi/src/compressor/chimp_n.rs
index 9ae210f..7a7957f 100644
--- a/ebi/src/compressor/chimp_n.rs
+++ b/ebi/src/compressor/chimp_n.rs
@@ -9,7 +9,7 @@ use crate::{
     time::{SegmentKind, SegmentedExecutionTimes},
 };
 
-use super::{Capacity, Compressor};
+use super::{general_xor::escape_end_marker, Capacity, Compressor};
 
 pub type Chimp128Compressor = ChimpNCompressor<128>;
 
@@ -75,7 +75,8 @@ impl<const N: usize> Compressor for ChimpNCompressor<N> {
 
         let xor_timer = self.timer.start_measurement(SegmentKind::Xor);
         for &value in input {
-            self.encoder.add_value(value);
+            self.encoder
+                .add_value(f64::from_bits(escape_end_marker(value.to_bits())));
         }
         xor_timer.stop();
 
diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 245bc3c..701721b 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -101,7 +101,7 @@ impl<T: XorEncoder> ElfEncoderWrapper<T> {
             // case 10
             self.size += 2;
             w.write_bits(2, 2);
-            f64::NAN.to_bits()
+            v_bits
         } else {
             // C1: v is a normal or subnormal
             let (alpha, beta_star) = elf::get_alpha_and_beta_star(v, self.last_beta_star);
diff --git a/ebi/src/compressor/general_xor.rs b/ebi/src/compressor/general_xor.rs
index c7b79a0..3a78d96 100644
--- a/ebi/src/compressor/general_xor.rs
+++ b/ebi/src/compressor/general_xor.rs
@@ -29,6 +29,16 @@ pub trait XorEncoder: Default {
     fn reset(&mut self);
 }
 
+/// The canonical NaN marks the end of a xor-encoded stream.
+/// A NaN record is stored with another payload, so that it is not taken for the end marker.
+pub(super) fn escape_end_marker(bits: u64) -> u64 {
+    if bits == f64::NAN.to_bits() {
+        bits | 1
+    } else {
+        bits
+    }
+}
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct GeneralXorCompressor<W: BitWrite, T: XorEncoder + Default> {
     w: W,
@@ -135,7 +145,8 @@ impl<W: BitWrite, T: XorEncoder> Compressor for GeneralXorCompressor<W, T> {
 
         let xor_encode_timer = self.timer.start_measurement(SegmentKind::Xor);
         for value in input {
-            self.encoder.compress_float(&mut self.w, value.to_bits());
+            self.encoder
+                .compress_float(&mut self.w, escape_end_marker(value.to_bits()));
         }
         xor_encode_timer.stop();
 
-- 
2.43.0


From 6357ccbfabb22359f89b6b287af36e2175b20aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:57 +0000
Subject: [PATCH 04/43] fix: shift overflow in Elf for values that differ in
 the sign bit only

With 63 trailing zeros the encoder shifted a u64 by 64, which panics when
overflow checks are on.
---
 ebi/src/compressor/elf.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 701721b..0f973ff 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -196,7 +196,7 @@ impl ElfXorEncoder {
         let trailing_zeros = bits.trailing_zeros();
         w.write_bits(trailing_zeros as u64, 7);
         if trailing_zeros < 64 {
-            w.write_bits(bits >> (trailing_zeros + 1), 63 - trailing_zeros);
+            w.write_bits((bits >> trailing_zeros) >> 1, 63 - trailing_zeros);
             self.size += 70 - trailing_zeros as usize;
             70 - trailing_zeros as usize
         } else {
@@ -249,7 +249,7 @@ impl ElfXorEncoder {
                         ((((0x2 << 3) | leading_repr) << 4) | (center_bits & 0xf)) as u64,
                         9,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 8 + center_bits as usize;
                     this_size += 8 + center_bits as usize;
                 } else {
@@ -258,7 +258,7 @@ impl ElfXorEncoder {
                         ((((0x3 << 3) | leading_repr) << 6) | (center_bits & 0x3f)) as u64,
                         11,
                     );
-                    w.write_bits(xor >> (self.stored_trailing_zeros + 1), center_bits - 1);
+                    w.write_bits((xor >> self.stored_trailing_zeros) >> 1, center_bits - 1);
                     self.size += 10 + center_bits as usize;
                     this_size += 10 + center_bits as usize;
                 }
-- 
2.43.0


From 722f42958e9cca77626ce998412a0aa592afa02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 05/43] fix: Elf must not erase bits it cannot recover

---
 ebi/src/compression_common/elf.rs   | 16 ++++++++++++++++
 ebi/src/compressor/elf.rs           | 13 +++++++++----
 ebi/src/decoder/chunk_reader/elf.rs | 16 ++++------------
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/ebi/src/compression_common/elf.rs b/ebi/src/compression_common/elf.rs
index 66d7085..2ce2817 100644
--- a/ebi/src/compression_common/elf.rs
+++ b/ebi/src/compression_common/elf.rs
@@ -48,6 +48,22 @@ pub fn get_alpha_and_beta_star(v: f64, last_beta_star: i32) -> (u32, i32) {
     (alpha, beta_star)
 }
 
+/// Recovers the original value from the erased value `v_prime`.
+pub fn recover(v_prime: f64, beta_star: i32) -> f64 {
+    let sp = get_sp(v_prime.abs());
+    if beta_star == 0 {
+        let v = get_10i_n((-sp - 1) as u32);
+        if v_prime < 0.0 {
+            -v
+        } else {
+            v
+        }
+    } else {
+        let alpha = beta_star.wrapping_sub(sp).wrapping_sub(1);
+        round_up(v_prime, alpha as u32)
+    }
+}
+
 pub fn round_up(v: f64, alpha: u32) -> f64 {
     let scale = get_10i_p(alpha);
     if v < 0.0 {
diff --git a/ebi/src/compressor/elf.rs b/ebi/src/compressor/elf.rs
index 0f973ff..89ceafa 100644
--- a/ebi/src/compressor/elf.rs
+++ b/ebi/src/compressor/elf.rs
@@ -111,9 +111,9 @@ impl<T: XorEncoder> ElfEncoderWrapper<T> {
 
             if beta_star < 16 {
                 let e = (v_bits >> 52) & 0x7ff;
-                let g_alpha = elf::get_f_alpha(alpha) + e as u32 - 1023;
-                erase_bits = 52 - g_alpha as i32;
-                if erase_bits > 4 {
+                let g_alpha = elf::get_f_alpha(alpha) as i64 + e as i64 - 1023;
+                erase_bits = 52 - g_alpha;
+                if (5..=52).contains(&erase_bits) {
                     mask = u64::MAX << erase_bits;
                     delta = (!mask) & v_bits;
                 } else {
@@ -122,7 +122,12 @@ impl<T: XorEncoder> ElfEncoderWrapper<T> {
                 }
             }
 
-            if beta_star < 16 && erase_bits > 4 && delta != 0 {
+            // Erase only when the decoder gets exactly `v` back from the erased value.
+            if beta_star < 16
+                && erase_bits > 4
+                && delta != 0
+                && elf::recover(f64::from_bits(mask & v_bits), beta_star).to_bits() == v_bits
+            {
                 // C2
                 if beta_star == self.last_beta_star {
                     // case 0
diff --git a/ebi/src/decoder/chunk_reader/elf.rs b/ebi/src/decoder/chunk_reader/elf.rs
index 5ae3308..eb72c09 100644
--- a/ebi/src/decoder/chunk_reader/elf.rs
+++ b/ebi/src/decoder/chunk_reader/elf.rs
@@ -66,18 +66,10 @@ impl<T: XorDecoder> ElfDecoderWrapper<T> {
         let Some(v_prime) = self.xor_decompress(r)? else {
             return Ok(None);
         };
-        let sp = compression_common::elf::get_sp(v_prime.abs());
-        let v = if self.last_beta_star == 0 {
-            let mut v = compression_common::elf::get_10i_n((-sp - 1) as u32);
-            if v_prime < 0.0 {
-                v = -v;
-            }
-            v
-        } else {
-            let alpha = self.last_beta_star - sp - 1;
-            compression_common::elf::round_up(v_prime, alpha as u32)
-        };
-        Ok(Some(v))
+        Ok(Some(compression_common::elf::recover(
+            v_prime,
+            self.last_beta_star,
+        )))
     }
 
     fn xor_decompress<R: BitRead2>(&mut self, r: &mut R) -> decoder::Result<Option<f64>> {
-- 
2.43.0


From 5c6287f3a3044a1f05f25cd58b9e9e131d9d67a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:10 +0000
Subject: [PATCH 06/43] fix: BUFF filters must honour the bitmask and the bit
 width of the chunk

---
 ebi/src/decoder/chunk_reader/buff/filter_cmp.rs | 8 +++++---
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index f6c766a..9b4bbe3 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -319,9 +319,11 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
     );
 
     let all = || {
-        let mut all = RoaringBitmap::new();
-        all.insert_range(logical_offset..(number_of_records + logical_offset));
-        all
+        bitmask.clone().unwrap_or_else(|| {
+            let mut all = RoaringBitmap::new();
+            all.insert_range(logical_offset..(number_of_records + logical_offset));
+            all
+        })
     };
     let none = RoaringBitmap::new;
     // First Skip all the evaluation based on delta base
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index aa4c7f8..be8319c 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -105,13 +105,17 @@ pub(crate) fn buff_simd256_equal_filter(
     }
     if fixed_representation_bits_length == 0 {
         return if fixed_pred == fixed_base64 {
-            all()
+            bitmask.unwrap_or_else(all)
         } else {
             none()
         };
     }
 
     let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    // The predicate does not fit in the bits of this chunk, so no record can be equal to it.
+    if 64 - delta_fixed_pred.leading_zeros() > fixed_representation_bits_length {
+        return none();
+    }
 
     let mut remaining_bits_length = fixed_representation_bits_length;
 
-- 
2.43.0


From a8a30d40080fc41970125a55ca1380599722beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 07/43] fix: BUFF filters with predicates outside the
 fixed-point range

---
 ebi/src/compression_common/buff.rs              | 5 +++--
 ebi/src/decoder/chunk_reader/buff/filter_cmp.rs | 6 +++++-
 ebi/src/decoder/chunk_reader/buff/filter_eq.rs  | 6 +++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/ebi/src/compression_common/buff.rs b/ebi/src/compression_common/buff.rs
index 2a0eaaf..68176ff 100644
--- a/ebi/src/compression_common/buff.rs
+++ b/ebi/src/compression_common/buff.rs
@@ -13,8 +13,9 @@ fn into_fixed_representation(value: f64, decimal_length: i32) -> i64 {
     let exp = ((v_bits & EXP_MASK) >> 52) as i32 - 1023;
     let sign = v_bits & FIRST_ONE;
 
-    if (63 - exp - decimal_length) <= 0 || (63 - exp - decimal_length) >= 64 {
-        dbg!(value, exp, decimal_length, 63 - exp - decimal_length);
+    if (63 - exp - decimal_length) <= 0 {
+        // Out of the range of the fixed representation (or infinite): saturate
+        return if sign != 0 { i64::MIN } else { i64::MAX };
     }
     let mut fixed = if (63 - exp - decimal_length) >= 64 {
         debug_assert!(63 - exp - decimal_length == 64);
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
index 9b4bbe3..9929c6e 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_cmp.rs
@@ -326,6 +326,10 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         })
     };
     let none = RoaringBitmap::new;
+    // NaN is neither equal to, less than nor greater than any record
+    if pred.is_nan() {
+        return none();
+    }
     // First Skip all the evaluation based on delta base
     if fixed_pred < fixed_base64 {
         return if IS_GREATER { all() } else { none() };
@@ -340,7 +344,7 @@ pub(crate) fn buff_simd256_cmp_filter<const IS_GREATER: bool, const INCLUSIVE: b
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
     {
         let pred_fixed_representation_bits_length = if delta_fixed_pred == 0 {
             0
diff --git a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
index be8319c..978eaff 100644
--- a/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
+++ b/ebi/src/decoder/chunk_reader/buff/filter_eq.rs
@@ -99,6 +99,10 @@ pub(crate) fn buff_simd256_equal_filter(
         all
     };
     let none = RoaringBitmap::new;
+    // NaN is neither equal to, less than nor greater than any record
+    if pred.is_nan() {
+        return none();
+    }
     // First Skip all the evaluation based on delta base
     if fixed_pred < fixed_base64 {
         return none();
@@ -111,7 +115,7 @@ pub(crate) fn buff_simd256_equal_filter(
         };
     }
 
-    let delta_fixed_pred = (fixed_pred - fixed_base64) as u64;
+    let delta_fixed_pred = fixed_pred.wrapping_sub(fixed_base64) as u64;
     // The predicate does not fit in the bits of this chunk, so no record can be equal to it.
     if 64 - delta_fixed_pred.leading_zeros() > fixed_representation_bits_length {
         return none();
-- 
2.43.0


From 6749d441ded121b1390955d853a4ba33d4ab526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:13 +0000
Subject: [PATCH 08/43] fix: Sprintz filters with NaN in the predicate

---
 ebi/src/decoder/chunk_reader/sprintz.rs |  3 ++-
 ebi/src/decoder/query.rs                | 13 +++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index d684657..a8130e8 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -96,7 +96,8 @@ impl QueryExecutor for DeltaSprintzReader {
         timer: &mut SegmentedExecutionTimes,
     ) -> decoder::Result<RoaringBitmap> {
         self.bit_reader.reset();
-        if self.decompressed.is_some() {
+        // NaN cannot be quantized
+        if self.decompressed.is_some() || predicate.has_nan() {
             return default_filter(self, predicate, bitmask, logical_offset, timer);
         }
 
diff --git a/ebi/src/decoder/query.rs b/ebi/src/decoder/query.rs
index 77e9126..bfe9987 100644
--- a/ebi/src/decoder/query.rs
+++ b/ebi/src/decoder/query.rs
@@ -444,3 +444,16 @@ impl<T: PredicateNumber> PredicateImpl<T> {
         }
     }
 }
+
+impl Predicate {
+    /// Returns true if any value of the predicate is NaN.
+    pub fn has_nan(&self) -> bool {
+        let is_nan = |bound: RangeValue| {
+            matches!(bound, RangeValue::Inclusive(v) | RangeValue::Exclusive(v) if v.is_nan())
+        };
+        match self {
+            PredicateImpl::Eq(v) | PredicateImpl::Ne(v) => v.is_nan(),
+            PredicateImpl::Range(r) => is_nan(r.start()) || is_nan(r.end()),
+        }
+    }
+}
-- 
2.43.0


From 4bd5619868a7f59604174d5481c7ea7c187d4a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 09/43] fix: BUFF sum of a constant chunk must honour the
 bitmask

---
 ebi/src/decoder/chunk_reader/buff/sum.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 5b261f4..49e107f 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -77,10 +77,16 @@ pub(super) fn sum_with_bitmask(
 
     let scale: f64 = 2.0f64.powi(fractional_part_bits_length as i32);
 
+    let accumulated_len = if let Some(bitmask) = bitmask {
+        bitmask.len() as i64
+    } else {
+        number_of_records as i64
+    };
+
     // All values are the same
     if fixed_representation_bits_length == 0 {
         let fp = base_fixed64 as f64 / scale;
-        return Ok(fp * number_of_records as f64);
+        return Ok(fp * accumulated_len as f64);
     }
 
     let mut sum = 0;
@@ -108,11 +114,6 @@ pub(super) fn sum_with_bitmask(
         sum += subcolumn_sum;
     }
 
-    let accumulated_len = if let Some(bitmask) = bitmask {
-        bitmask.len() as i64
-    } else {
-        number_of_records as i64
-    };
     let sum = (sum as i64 + base_fixed64 * accumulated_len) as f64 / scale;
 
     Ok(sum)
-- 
2.43.0


From ad73ab16fafb49656117d68325240b5e54df76ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 10/43] fix: sum of BUFF and Sprintz chunks that exceeds 64
 bits

---
 ebi/src/decoder/chunk_reader/buff/sum.rs | 10 ++++++----
 ebi/src/decoder/chunk_reader/sprintz.rs  |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/sum.rs b/ebi/src/decoder/chunk_reader/buff/sum.rs
index 49e107f..fd95cc6 100644
--- a/ebi/src/decoder/chunk_reader/buff/sum.rs
+++ b/ebi/src/decoder/chunk_reader/buff/sum.rs
@@ -89,7 +89,8 @@ pub(super) fn sum_with_bitmask(
         return Ok(fp * accumulated_len as f64);
     }
 
-    let mut sum = 0;
+    // 128 bits, because the sum of a large chunk may exceed 64 bits
+    let mut sum: i128 = 0;
     let n_byte_subcolumns = fixed_representation_bits_length / 8;
     let bits_subcolumn_length = fixed_representation_bits_length % 8;
 
@@ -98,7 +99,8 @@ pub(super) fn sum_with_bitmask(
             .read_n_byte(number_of_records as usize)
             .map_err(|_| DecoderError::UnexpectedEndOfChunk)?;
         let subcolumn_sum = sum_byte_subcolumn(chunk, bitmask, logical_offset);
-        let subcolumn_sum_scaled = subcolumn_sum << ((i * 8 + bits_subcolumn_length) as u64);
+        let subcolumn_sum_scaled =
+            (subcolumn_sum as i128) << ((i * 8 + bits_subcolumn_length) as u64);
         sum += subcolumn_sum_scaled;
     }
     if bits_subcolumn_length != 0 {
@@ -111,10 +113,10 @@ pub(super) fn sum_with_bitmask(
         )?;
         // sum += subcolumn_sum as f64 / scale;
         // sum <<= bits_subcolumn_length;
-        sum += subcolumn_sum;
+        sum += subcolumn_sum as i128;
     }
 
-    let sum = (sum as i64 + base_fixed64 * accumulated_len) as f64 / scale;
+    let sum = (sum + base_fixed64 as i128 * accumulated_len as i128) as f64 / scale;
 
     Ok(sum)
 }
diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index a8130e8..acd2a28 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -286,7 +286,7 @@ fn sum(
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
     let comparison_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
-    let mut sum = 0;
+    let mut sum: i128 = 0;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
         return Ok(f64::NAN);
@@ -303,7 +303,7 @@ fn sum(
             continue;
         }
 
-        sum += quantized;
+        sum += quantized as i128;
         if let Some(next_logical_record_index) = bitmask.next() {
             next = next_logical_record_index;
         } else {
@@ -334,7 +334,7 @@ fn sum_without_bitmask(
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
 
     let comparison_timer = timer.start_addition_measurement(SegmentKind::CompareInsert);
-    let mut sum = 0;
+    let mut sum: i128 = 0;
     let mut previous_value_quantized = initial_value;
     for _ in 0..number_of_records {
         let zigzag_delta = bit_reader
@@ -344,7 +344,7 @@ fn sum_without_bitmask(
         let quantized = previous_value_quantized + delta;
         previous_value_quantized = quantized;
 
-        sum += quantized;
+        sum += quantized as i128;
     }
     comparison_timer.stop();
 
-- 
2.43.0


From 8ea48393f06ace84c53acd5de681c8c091a3a41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:53 +0000
Subject: [PATCH 11/43] fix: knn1 for vectors that span chunks

---
 ebi/src/api/decoder.rs | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index fa71640..b170e3e 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -485,45 +485,32 @@ impl<R: Read + Seek> Decoder<R> {
             index: usize::MAX,
             distance: f64::INFINITY,
         };
-        let mut remaining_records = 0;
+        // The number of records of the processing vector that are already included in its distance.
+        // A vector may span any number of chunks.
+        let mut processed_records = 0;
         for chunk_handle in chunk_handles.iter_mut() {
             let mut offset = 0;
             let chunk_number_of_records = chunk_handle.number_of_records() as usize;
             let mut chunk_reader =
                 Self::chunk_reader_from_handle(input, chunk_handle, self.precision)?;
 
-            if remaining_records != 0 {
-                // If the vector is not fully processed, continue processing it with the partial distance of the previous chunk.
-                let remaining_target_start = target_len - remaining_records;
-                processing_vector.distance +=
-                    chunk_reader.distance_squared(0, &target[remaining_target_start..])?;
-
-                if processing_vector.distance < min_result.distance {
-                    min_result = processing_vector;
-                }
-
-                remaining_records = 0;
-
-                processing_vector.index += 1;
-                offset += remaining_records;
-            }
-
             while offset < chunk_number_of_records {
-                let n_records_in_vector = target_len.min(chunk_number_of_records - offset);
-                processing_vector.distance =
-                    chunk_reader.distance_squared(offset, &target[..n_records_in_vector])?;
+                let n_records_in_chunk =
+                    (target_len - processed_records).min(chunk_number_of_records - offset);
+                let target_part = &target[processed_records..processed_records + n_records_in_chunk];
+                processing_vector.distance += chunk_reader.distance_squared(offset, target_part)?;
 
-                if n_records_in_vector == target_len {
+                processed_records += n_records_in_chunk;
+                offset += n_records_in_chunk;
+
+                if processed_records == target_len {
                     if processing_vector.distance <= min_result.distance {
                         min_result = processing_vector;
                     }
                     processing_vector.index += 1;
-                } else {
-                    // If the vector is not fully processed, save the partial distance for the next chunk.
-                    remaining_records = target_len - n_records_in_vector;
+                    processing_vector.distance = 0.0;
+                    processed_records = 0;
                 }
-
-                offset += n_records_in_vector;
             }
 
             self.timer += chunk_reader.segmented_execution_times();
-- 
2.43.0


From 9d3d74bcfcd5d4626b40834f67824ef2c9c69fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:53 +0000
Subject: [PATCH 12/43] fix: knn1 must not loop forever on an empty target

---
 ebi/src/api/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index b170e3e..2c77469 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -468,6 +468,9 @@ impl<R: Read + Seek> Decoder<R> {
     /// ```
     pub fn knn1(&mut self, target: &[f64]) -> decoder::Result<KnnResult> {
         let target_len = target.len();
+        if target_len == 0 {
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
 
         let Self {
             input,
-- 
2.43.0


From 063837cdcac2dc694e822ba4493ef31705cdd874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:49 +0000
Subject: [PATCH 13/43] fix: check the preconditions of matmul

---
 ebi/src/api/decoder.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 2c77469..4013d74 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -551,6 +551,7 @@ impl<R: Read + Seek> Decoder<R> {
     ///
     /// - The number of columns in the target matrix must be equal to the number of rows in the data matrix.
     /// - The total number of elements in the data matrix must be a multiple of the product of its dimensions.
+    /// - Every data matrix must be contained in one chunk.
     ///
     ///
     /// # Example
@@ -605,14 +606,29 @@ impl<R: Read + Seek> Decoder<R> {
         let (target_rows, target_columns) = target_matrix_shape;
         let (data_rows, data_columns) = data_matrix_shape;
 
+        let data_matrix_size = data_rows * data_columns;
         let is_matrix_shape_invalid = data_columns != target_rows;
         let is_data_matrix_shape_aligned_to_number_of_records_invalid =
-            number_of_records % (data_rows * data_columns) != 0;
-        if is_matrix_shape_invalid || is_data_matrix_shape_aligned_to_number_of_records_invalid {
+            data_matrix_size == 0 || number_of_records % data_matrix_size != 0;
+        let is_target_matrix_shape_invalid = target_rows * target_columns != target_matrix.len();
+        // Every data matrix must be contained in one chunk.
+        let is_data_matrix_shape_aligned_to_chunks_invalid = self
+            .chunk_footers()
+            .iter()
+            .any(|footer| footer.logical_offset() as usize % data_matrix_size.max(1) != 0);
+        if is_matrix_shape_invalid
+            || is_data_matrix_shape_aligned_to_number_of_records_invalid
+            || is_target_matrix_shape_invalid
+            || is_data_matrix_shape_aligned_to_chunks_invalid
+        {
             return Err(DecoderError::PreconditionsNotMet.into());
         }
 
-        let batch_size = number_of_records / (data_rows * data_columns);
+        let batch_size = number_of_records / data_matrix_size;
+        if batch_size == 0 {
+            self.timer = timer;
+            return Ok(Box::default());
+        }
 
         let mut result_matrices = Vec::with_capacity(batch_size * data_rows * target_columns);
 
-- 
2.43.0


From 54c7ffeaf08d601896f9d58309ce2414410354b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:49 +0000
Subject: [PATCH 14/43] fix: expressions that are a single column without an
 aggregation

---
 ebi/src/api/decoder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 4013d74..d7992a8 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -821,7 +821,17 @@ impl AggregationKind {
         bitmask: Option<&RoaringBitmap>,
     ) -> decoder::Result<AggregationResult> {
         Ok(match self {
-            AggregationKind::None => todo!(),
+            AggregationKind::None => {
+                let mut output = DecoderOutput::from_vec(Vec::new());
+                decoder.materialize(&mut output, bitmask, None)?;
+                output
+                    .into_writer()
+                    .into_inner()
+                    .chunks_exact(size_of::<f64>())
+                    .map(|bytes| f64::from_ne_bytes(bytes.try_into().unwrap()))
+                    .collect::<Vec<f64>>()
+                    .into()
+            }
             AggregationKind::Max => decoder.max(bitmask, None)?.into(),
             AggregationKind::Min => decoder.min(bitmask, None)?.into(),
             AggregationKind::Sum => decoder.sum(bitmask, None)?.into(),
-- 
2.43.0


From cdec730c7c728ba593a19410dd91742bc55e2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:14 +0000
Subject: [PATCH 15/43] fix: Sprintz min answers the minimum after the chunk
 was decompressed

Once a chunk had been decompressed, min fell back to default_max.
---
 ebi/src/decoder/chunk_reader/sprintz.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index acd2a28..14e6b1e 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -7,7 +7,8 @@ use crate::{
         self,
         error::DecoderError,
         query::{
-            default_filter, default_materialize, default_max, default_sum, Predicate, QueryExecutor,
+            default_filter, default_materialize, default_max, default_min, default_sum, Predicate,
+            QueryExecutor,
         },
         FileMetadataLike, GeneralChunkHandle,
     },
@@ -211,7 +212,7 @@ impl QueryExecutor for DeltaSprintzReader {
         timer: &mut SegmentedExecutionTimes,
     ) -> decoder::Result<f64> {
         if self.decompressed.is_some() {
-            return default_max(self, bitmask, logical_offset, timer);
+            return default_min(self, bitmask, logical_offset, timer);
         }
 
         if let Some(bitmask) = bitmask {
-- 
2.43.0


From 9c94e38923dcdba9dcd0742d50f514cdef9a882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:01 +0000
Subject: [PATCH 16/43] fix: decompressing a chunk always starts at the
 beginning of the chunk

A chunk reader kept its read position from the previous (partial) pass, so
e.g. decompress after sum (Sprintz) or a second iteration failed or
returned shifted values.
---
 ebi/src/decoder/chunk_reader/chimp_n.rs      |  1 +
 ebi/src/decoder/chunk_reader/general_xor.rs  |  1 +
 ebi/src/decoder/chunk_reader/run_length.rs   | 10 +++++++---
 ebi/src/decoder/chunk_reader/sprintz.rs      |  1 +
 ebi/src/decoder/chunk_reader/uncompressed.rs |  8 +++++---
 5 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 0356e00..22de353 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -52,6 +52,7 @@ impl<const N: usize> Reader for ChimpNReader<N> {
     type DecompressIterator<'a> = ChimpNDecompressIterator<'a, N>;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(ChimpNDecompressIteratorImpl::new(
             &mut self.bit_reader,
             self.number_of_records,
diff --git a/ebi/src/decoder/chunk_reader/general_xor.rs b/ebi/src/decoder/chunk_reader/general_xor.rs
index e01c63f..b0eed9f 100644
--- a/ebi/src/decoder/chunk_reader/general_xor.rs
+++ b/ebi/src/decoder/chunk_reader/general_xor.rs
@@ -64,6 +64,7 @@ impl<T: XorDecoder> Reader for GeneralXorReader<T> {
         T: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Ok(Self::DecompressIterator::new(
             &mut self.bit_reader,
             self.number_of_records,
diff --git a/ebi/src/decoder/chunk_reader/run_length.rs b/ebi/src/decoder/chunk_reader/run_length.rs
index 8b6b1d5..891812e 100644
--- a/ebi/src/decoder/chunk_reader/run_length.rs
+++ b/ebi/src/decoder/chunk_reader/run_length.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek, SeekFrom},
     mem::size_of,
 };
 
@@ -58,7 +58,7 @@ impl<R: Read> RunLengthReaderImpl<R> {
     }
 }
 
-impl<R: Read> Reader for RunLengthReaderImpl<R> {
+impl<R: Read + Seek> Reader for RunLengthReaderImpl<R> {
     type NativeHeader = RunLengthHeader;
     type DecompressIterator<'a>
         = RunLengthIteratorImpl<'a, R>
@@ -73,6 +73,8 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
         let mut decompressed = Vec::with_capacity(self.number_of_records());
 
         let decompression_timer = timer.start_addition_measurement(SegmentKind::Decompression);
+        self.reader
+            .seek(SeekFrom::Start(self.header_size() as u64))?;
         for _ in 0..self.number_of_fields() {
             let mut buf = [0u8; size_of::<u8>() + size_of::<f64>()];
             self.reader.read_exact(&mut buf)?;
@@ -99,6 +101,8 @@ impl<R: Read> Reader for RunLengthReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.reader
+            .seek(SeekFrom::Start(self.header_size() as u64))?;
         Ok(RunLengthIteratorImpl::new(self))
     }
 
@@ -157,4 +161,4 @@ impl<R: Read> Iterator for RunLengthIteratorImpl<'_, R> {
 }
 
 // TODO: Implement specialized scan
-impl<R: Read> QueryExecutor for RunLengthReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for RunLengthReaderImpl<R> {}
diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index 14e6b1e..ed219bf 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -59,6 +59,7 @@ impl Reader for DeltaSprintzReader {
         Self: 'a;
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.bit_reader.reset();
         Self::DecompressIterator::new(&mut self.bit_reader, self.number_of_records)
     }
 
diff --git a/ebi/src/decoder/chunk_reader/uncompressed.rs b/ebi/src/decoder/chunk_reader/uncompressed.rs
index 10af647..01731ff 100644
--- a/ebi/src/decoder/chunk_reader/uncompressed.rs
+++ b/ebi/src/decoder/chunk_reader/uncompressed.rs
@@ -1,5 +1,5 @@
 use std::{
-    io::{self, Read},
+    io::{self, Read, Seek},
     mem::size_of,
 };
 
@@ -46,7 +46,7 @@ impl UncompressedReader {
     }
 }
 
-impl<R: Read> Reader for UncompressedReaderImpl<R> {
+impl<R: Read + Seek> Reader for UncompressedReaderImpl<R> {
     type NativeHeader = ();
     type DecompressIterator<'a>
         = UncompressedIteratorImpl<'a, R>
@@ -62,6 +62,7 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
         let buf_ref = buf.as_mut_slice();
         let bytes = buf_ref.as_bytes_mut();
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
+        self.reader.rewind()?;
         self.reader.read_exact(bytes)?;
         io_read_timer.stop();
 
@@ -79,6 +80,7 @@ impl<R: Read> Reader for UncompressedReaderImpl<R> {
     }
 
     fn decompress_iter(&mut self) -> decoder::Result<Self::DecompressIterator<'_>> {
+        self.reader.rewind()?;
         Ok(UncompressedIteratorImpl::new(self))
     }
 
@@ -123,4 +125,4 @@ impl<R: Read> Iterator for UncompressedIteratorImpl<'_, R> {
     }
 }
 
-impl<R: Read> QueryExecutor for UncompressedReaderImpl<R> {}
+impl<R: Read + Seek> QueryExecutor for UncompressedReaderImpl<R> {}
-- 
2.43.0


From 3948cba949d27a2a976dbc50f0fdcac4b79a4f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:12 +0000
Subject: [PATCH 17/43] fix: Sprintz sum over no record of the chunk is 0

A bitmask without a record of the chunk gave NaN, an empty bitmask 0.
---
 ebi/src/decoder/chunk_reader/sprintz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index ed219bf..c4c892f 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -291,7 +291,7 @@ fn sum(
     let mut sum: i128 = 0;
     let mut previous_value_quantized = initial_value;
     let Some(mut next) = bitmask.next() else {
-        return Ok(f64::NAN);
+        return Ok(0.0);
     };
     for record_index in 0..number_of_records {
         let zigzag_delta = bit_reader
-- 
2.43.0


From 87bd830beef08c598c508b1c6b7b753785368651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:21 +0000
Subject: [PATCH 18/43] fix: reading the encoder input retries interrupted
 reads and reports errors

An interrupted read in the middle of a chunk ended the chunk and dropped the
bytes of a partially read record; an UnexpectedEof error of the input was
taken for the end of the input.
---
 ebi/src/encoder.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 276e754..beea2ac 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -280,15 +280,7 @@ fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
         match f.read(&mut u8_slice[n_read..]) {
             Ok(0) => break,
             Ok(n) => n_read += n,
-            Err(e)
-                if e.kind() == io::ErrorKind::Interrupted
-                    || e.kind() == io::ErrorKind::UnexpectedEof =>
-            {
-                if n_read == 0 {
-                    return Err(e.into());
-                }
-                break;
-            }
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
             Err(e) => return Err(e.into()),
         }
     }
-- 
2.43.0


From c0fa061426aaadc0213cb12cdfd843fad39ddfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:17 +0000
Subject: [PATCH 19/43] fix: report read errors of BUFF and Chimp128 chunks
 instead of panicking

---
 ebi/src/decoder/chunk_reader.rs         |  4 ++--
 ebi/src/decoder/chunk_reader/buff.rs    | 13 ++++++++-----
 ebi/src/decoder/chunk_reader/chimp_n.rs | 10 +++++-----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/ebi/src/decoder/chunk_reader.rs b/ebi/src/decoder/chunk_reader.rs
index 2ddd8a7..4c23d0b 100644
--- a/ebi/src/decoder/chunk_reader.rs
+++ b/ebi/src/decoder/chunk_reader.rs
@@ -316,13 +316,13 @@ impl<R: Read> GeneralChunkReaderInner<R> {
                 gorilla::GorillaReader::new(handle, reader, timer)?,
             ),
             CompressionScheme::BUFF => {
-                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer))
+                GeneralChunkReaderInner::BUFF(buff::BUFFReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp => {
                 GeneralChunkReaderInner::Chimp(chimp::ChimpReader::new(handle, reader, timer)?)
             }
             CompressionScheme::Chimp128 => GeneralChunkReaderInner::Chimp128(
-                chimp_n::Chimp128Reader::new(handle, reader, timer),
+                chimp_n::Chimp128Reader::new(handle, reader, timer)?,
             ),
             CompressionScheme::ElfOnChimp => GeneralChunkReaderInner::ElfOnChimp(
                 elf::on_chimp::ElfReader::new(handle, reader, timer)?,
diff --git a/ebi/src/decoder/chunk_reader/buff.rs b/ebi/src/decoder/chunk_reader/buff.rs
index 7b9d8e9..302f86d 100644
--- a/ebi/src/decoder/chunk_reader/buff.rs
+++ b/ebi/src/decoder/chunk_reader/buff.rs
@@ -7,7 +7,10 @@ mod min_max;
 mod sum;
 
 use core::slice;
-use std::{io::Read, iter};
+use std::{
+    io::{self, Read},
+    iter,
+};
 
 use roaring::RoaringBitmap;
 
@@ -37,20 +40,20 @@ impl BUFFReader {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> io::Result<Self> {
         let chunk_size = handle.chunk_size();
         let mut chunk_in_memory = vec![0; chunk_size as usize];
         let io_read_timer = timer.start_addition_measurement(SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let number_of_records = handle.number_of_records();
-        Self {
+        Ok(Self {
             chunk_size,
             number_of_records,
             precision: None,
             bytes: chunk_in_memory,
             decompressed: None,
-        }
+        })
     }
 
     /// Set the precision to be used when materializing the data
diff --git a/ebi/src/decoder/chunk_reader/chimp_n.rs b/ebi/src/decoder/chunk_reader/chimp_n.rs
index 22de353..b25e80f 100644
--- a/ebi/src/decoder/chunk_reader/chimp_n.rs
+++ b/ebi/src/decoder/chunk_reader/chimp_n.rs
@@ -1,4 +1,4 @@
-use std::io::Read;
+use std::io::{self, Read};
 
 use crate::{
     decoder::{
@@ -27,19 +27,19 @@ impl<const N: usize> ChimpNReader<N> {
         handle: &GeneralChunkHandle<T>,
         mut reader: R,
         timer: &mut SegmentedExecutionTimes,
-    ) -> Self {
+    ) -> io::Result<Self> {
         let number_of_records = handle.number_of_records() as usize;
         let chunk_size = handle.chunk_size() as usize;
         let mut chunk_in_memory = vec![0; chunk_size];
         let io_read_timer = timer.start_addition_measurement(crate::time::SegmentKind::IORead);
-        reader.read_exact(&mut chunk_in_memory).unwrap();
+        reader.read_exact(&mut chunk_in_memory)?;
         io_read_timer.stop();
         let bit_reader = BufferedBitReader::new(chunk_in_memory);
-        ChimpNReader {
+        Ok(ChimpNReader {
             bit_reader,
             number_of_records,
             decompressed_result: None,
-        }
+        })
     }
 }
 
-- 
2.43.0


From 77f01a4dd7729ca009401de756b60277da2a7890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:45 +0000
Subject: [PATCH 20/43] fix: reject files without the magic number or without a
 footer

A file whose encoding was interrupted has a footer offset of 0; it was read
as if its footer were at the beginning of the file.
---
 ebi/src/decoder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index 00f6c25..d7b0bab 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -102,6 +102,10 @@ impl FileMetadataLike for MetadataRef<'_, '_> {
     }
 }
 
+fn invalid_data<T>(message: &'static str) -> Result<T> {
+    Err(io::Error::new(io::ErrorKind::InvalidData, message).into())
+}
+
 /// A reader for the file format.
 /// This struct reads the file format from the input stream.
 #[derive(Debug, Clone)]
@@ -137,6 +141,9 @@ impl FileReader {
         let mut buf = [0u8; size_of::<FileHeader>()];
         input.read_exact(&mut buf)?;
         let header = FileHeader::try_from_le_bytes(&buf)?;
+        if header.magic_number != *b"EBI1" {
+            return invalid_data("the magic number is not EBI1");
+        }
 
         self.header = Some(NativeFileHeader::from(&header));
 
@@ -159,6 +166,10 @@ impl FileReader {
             .header()
             .ok_or(DecoderError::PreconditionsNotMet)?
             .footer_offset();
+        // 0 until the encoder has written the whole file
+        if footer_offset < size_of::<FileHeader>() as u64 {
+            return invalid_data("the file has no footer");
+        }
         input.seek(io::SeekFrom::Start(footer_offset))?;
         Ok(())
     }
-- 
2.43.0


From 9f7be566181c19a8effa50f07a5ae5e6e2e1673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:37 +0000
Subject: [PATCH 21/43] fix: reject damaged chunk footers and compressor
 configurations

A wrong number of chunks, chunk footers out of order or a wrong
configuration size made opening the file panic, abort or answer garbage.
---
 ebi/src/decoder.rs | 47 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/ebi/src/decoder.rs b/ebi/src/decoder.rs
index d7b0bab..1f8690d 100644
--- a/ebi/src/decoder.rs
+++ b/ebi/src/decoder.rs
@@ -195,27 +195,58 @@ impl FileReader {
         let mut buf = vec![0u8; size_of::<FileFooter0>()];
         input.read_exact(&mut buf)?;
         let footer0 = FileFooter0::from_le_bytes(&buf);
-        let n_chunks = footer0.number_of_chunks as usize;
-
-        let chunk_footers_size = size_of::<ChunkFooter>() * n_chunks;
+        let Some(chunk_footers_size) = footer0
+            .number_of_chunks
+            .checked_mul(size_of::<ChunkFooter>() as u64)
+        else {
+            return invalid_data("the number of chunks is too large");
+        };
 
-        buf.resize(chunk_footers_size, 0);
-        input.read_exact(&mut buf[..])?;
+        // Not allocated in advance: the number of chunks may be damaged.
+        buf.clear();
+        input
+            .by_ref()
+            .take(chunk_footers_size)
+            .read_to_end(&mut buf)?;
+        if buf.len() as u64 != chunk_footers_size {
+            return invalid_data("the file ends in the chunk footers");
+        }
 
         let chunk_footers = buf[..]
             .chunks_exact(size_of::<ChunkFooter>())
             .map(ChunkFooter::from_le_bytes)
             .collect::<Vec<_>>();
 
+        let mut previous = ChunkFooter {
+            physical_offset: size_of::<FileHeader>() as u64,
+            logical_offset: 0,
+        };
+        let end = ChunkFooter {
+            physical_offset: header.footer_offset(),
+            logical_offset: footer0.number_of_records,
+        };
+        for &chunk_footer in chunk_footers.iter().chain([&end]) {
+            if chunk_footer.physical_offset < previous.physical_offset
+                || chunk_footer.logical_offset < previous.logical_offset
+            {
+                return invalid_data("the chunk footers are not in order");
+            }
+            previous = chunk_footer;
+        }
+
         // `buf` is empty when the file has no chunks, so the size byte is read separately.
         let mut config_size = [0u8; 1];
         input.read_exact(&mut config_size)?;
         let config_size = config_size[0] as usize;
-        buf.resize(config_size, 0);
-        input.read_exact(&mut buf[..config_size])?;
+        // Padded, since the size may be damaged.
+        let mut config_bytes = [0u8; u8::MAX as usize];
+        input.read_exact(&mut config_bytes[..config_size])?;
 
         let compressor_config =
-            CompressorConfig::from_le_bytes(header.config().compression_scheme(), &buf[..]);
+            CompressorConfig::from_le_bytes(header.config().compression_scheme(), &config_bytes);
+        if compressor_config.serialized_size() != size_of::<u8>() + config_size {
+            return invalid_data("the size of the compressor configuration is wrong");
+        }
 
         let footer3_size = size_of::<FileFooter3>();
 
-- 
2.43.0


From fee93bbef05dc9555c6e4dfea0513d98e5faad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:03 +0000
Subject: [PATCH 22/43] fix: bit reader answers None after skipping past the
 end instead of underflowing

---
 ebi/src/io/bit_read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebi/src/io/bit_read.rs b/ebi/src/io/bit_read.rs
index 3febe8e..0216b27 100644
--- a/ebi/src/io/bit_read.rs
+++ b/ebi/src/io/bit_read.rs
@@ -294,7 +294,8 @@ impl<T: AsRef<[u8]>> BitRead2 for BufferedBitReader<T> {
         let mut remaining_bits = n;
         let mut result = 0u64;
 
-        if (self.buffer.as_ref().len() - self.byte_pos) * 8 - self.bit_pos < n as usize {
+        let remaining_bytes = self.buffer.as_ref().len().saturating_sub(self.byte_pos);
+        if (remaining_bytes * 8).saturating_sub(self.bit_pos) < n as usize {
             return None;
         }
 
-- 
2.43.0


From 7f98709073ca344456550d746f1f55087640bc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:03 +0000
Subject: [PATCH 23/43] fix: rewinding the uncompressed compressor takes the
 records out of total_bytes_in

---
 ebi/src/compressor/uncompressed.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebi/src/compressor/uncompressed.rs b/ebi/src/compressor/uncompressed.rs
index 8fd1a45..db0c81d 100644
--- a/ebi/src/compressor/uncompressed.rs
+++ b/ebi/src/compressor/uncompressed.rs
@@ -1,4 +1,7 @@
-use std::{mem::size_of_val, slice};
+use std::{
+    mem::{size_of, size_of_val},
+    slice,
+};
 
 use derive_builder::Builder;
 #[cfg(feature = "serde")]
@@ -87,6 +90,7 @@ impl RewindableCompressor for UncompressedCompressor {
             return false;
         }
         self.buffer.truncate(self.buffer.len() - n);
+        self.total_bytes_in -= n * size_of::<f64>();
 
         true
     }
-- 
2.43.0


From 189b1177d1b436597e7cbd25b28fa90534b817ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:03 +0000
Subject: [PATCH 24/43] fix: appending no records to an empty run-length
 compressor panicked

---
 ebi/src/compressor/run_length.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebi/src/compressor/run_length.rs b/ebi/src/compressor/run_length.rs
index f9a0eef..e199595 100644
--- a/ebi/src/compressor/run_length.rs
+++ b/ebi/src/compressor/run_length.rs
@@ -139,6 +139,9 @@ impl Compressor for RunLengthCompressor {
 
 impl AppendableCompressor for RunLengthCompressor {
     fn append_compress(&mut self, input: &[f64]) {
+        if input.is_empty() {
+            return;
+        }
         let is_starting = self.previous_run_count == 0;
         if is_starting {
             self.previous_value = input[0];
-- 
2.43.0


From 1753746c213c24d9f16a2101c474bc7435524189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:02 +0000
Subject: [PATCH 25/43] fix: a controlled precision of more than 12 decimal
 places panicked

---
 ebi/src/decoder/chunk_reader/buff/controlled_precision.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs b/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
index 2e3a061..e339350 100644
--- a/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
+++ b/ebi/src/decoder/chunk_reader/buff/controlled_precision.rs
@@ -21,7 +21,10 @@ pub fn decode_with_precision(bytes: &[u8], precision: u32) -> Vec<f64> {
 
     let scale: f64 = 2.0f64.powi(fractional_part_bits_length as i32);
 
-    let controlled_fractional_part_bits_length = PRECISION_MAP[precision as usize] as u32;
+    // More decimal places than the map knows are more than any chunk stores
+    let controlled_fractional_part_bits_length = PRECISION_MAP
+        .get(precision as usize)
+        .map_or(fractional_part_bits_length, |&bits| bits as u32);
     let bits_unnecessary =
         fractional_part_bits_length.saturating_sub(controlled_fractional_part_bits_length);
 
-- 
2.43.0


From 8d5fdbbd28d1ff5cb96402b52354af61463f5038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:45 +0000
Subject: [PATCH 26/43] fix: aggregating a plain column did not report the
 times it took

---
 ebi/src/api/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index d7992a8..31d656b 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -879,7 +879,9 @@ impl Aggregation {
     ) -> decoder::Result<AggregationResult> {
         if let Expr::Index(index) = &self.expr {
             // We can directly access the chunk reader using in-situ query execution if possible.
-            return self.kind.dispatch(&mut decoders[*index], bitmask);
+            let result = self.kind.dispatch(&mut decoders[*index], bitmask)?;
+            *timer += decoders[*index].segmented_execution_times();
+            return Ok(result);
         }
         let number_of_chunks = decoders[0].footer().number_of_chunks() as usize;
         let mut result = AggregationResult::zero(self.kind);
-- 
2.43.0


From 419c5554e83be7131ae8450d872ab998f0071286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:38 +0000
Subject: [PATCH 27/43] fix: expressions left the time spent on reading chunks
 out of the times they report

---
 ebi/src/api/decoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 31d656b..2d0a443 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -890,6 +890,10 @@ impl Aggregation {
                 .iter_mut()
                 .map(|d| d.chunk_reader(i))
                 .collect::<decoder::Result<Vec<_>>>()?;
+            // Time spent on reading the chunks: `compute_chunk` resets the timers of the readers
+            for reader in &readers {
+                *timer += reader.segmented_execution_times();
+            }
             let computed_chunk = self.expr.compute_chunk(&mut readers, bitmask, timer)?;
             result.concat(self.kind.dispatch_on_vec(computed_chunk)?, self.kind)?;
         }
@@ -921,6 +925,10 @@ impl Aggregation {
                 .iter_mut()
                 .map(|d| d.chunk_reader(i))
                 .collect::<decoder::Result<Vec<_>>>()?;
+            // Time spent on reading the chunks: `compute_chunk` resets the timers of the readers
+            for reader in &readers {
+                *timer += reader.segmented_execution_times();
+            }
             for (aggr_i, aggr) in aggregations.iter().enumerate() {
                 if computed[aggr_i] {
                     continue;
-- 
2.43.0


From 125529114ef2ec0d14986e83b524cf898a77a7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:40 +0000
Subject: [PATCH 28/43] fix: expressions over columns with different chunks
 combined rows that do not belong together

---
 ebi/src/api/decoder.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ebi/src/api/decoder.rs b/ebi/src/api/decoder.rs
index 2d0a443..d6c9b34 100644
--- a/ebi/src/api/decoder.rs
+++ b/ebi/src/api/decoder.rs
@@ -871,6 +871,21 @@ impl Aggregation {
         Self::new(AggregationKind::None, expr)
     }
 
+    /// Expressions are computed chunk by chunk, so the chunks of all columns must hold the same rows.
+    fn ensure_same_chunks<R: Read + Seek>(decoders: &[Decoder<R>]) -> decoder::Result<()> {
+        let rows = |d: &Decoder<R>| {
+            d.chunk_footers()
+                .iter()
+                .map(|f| f.logical_offset())
+                .chain([d.footer().number_of_records()])
+                .collect::<Vec<u64>>()
+        };
+        if decoders.windows(2).any(|d| rows(&d[0]) != rows(&d[1])) {
+            return Err(DecoderError::PreconditionsNotMet.into());
+        }
+        Ok(())
+    }
+
     pub fn compute<R: Read + Seek>(
         &self,
         decoders: &mut [Decoder<R>],
@@ -883,6 +898,7 @@ impl Aggregation {
             *timer += decoders[*index].segmented_execution_times();
             return Ok(result);
         }
+        Self::ensure_same_chunks(decoders)?;
         let number_of_chunks = decoders[0].footer().number_of_chunks() as usize;
         let mut result = AggregationResult::zero(self.kind);
         for i in (0..number_of_chunks).map(ChunkId::new) {
@@ -919,6 +935,10 @@ impl Aggregation {
                 results.push(AggregationResult::zero(aggr.kind));
             }
         }
+        if computed.iter().all(|computed| *computed) {
+            return Ok(results);
+        }
+        Self::ensure_same_chunks(decoders)?;
         let number_of_chunks = decoders[0].footer().number_of_chunks() as usize;
         for i in (0..number_of_chunks).map(ChunkId::new) {
             let mut readers = decoders
-- 
2.43.0


From b616e914ae47a00a607591208c8615ff207f2849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:46 +0000
Subject: [PATCH 29/43] fix: a chunk limit far beyond the input aborted, or
 encoded nothing when its byte count overflowed

---
 ebi/src/encoder.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index beea2ac..23953c5 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -14,6 +14,7 @@ use crate::{
     },
     time::{SegmentKind, SegmentedExecutionTimes},
 };
+#[cfg(test)]
 use core::slice;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -57,7 +58,9 @@ impl ChunkOption {
     pub fn reach_limit(&self, total_bytes_in: usize, total_bytes_out: usize) -> bool {
         match self {
             ChunkOption::Full => false,
-            ChunkOption::RecordCount(count) => count * size_of::<f64>() <= total_bytes_in,
+            ChunkOption::RecordCount(count) => {
+                count.saturating_mul(size_of::<f64>()) <= total_bytes_in
+            }
             ChunkOption::ByteSizeBestEffort(n_bytes) => *n_bytes <= total_bytes_out,
         }
     }
@@ -269,24 +272,15 @@ pub struct ChunkWriter<'a, R: Read> {
     timer: SegmentedExecutionTimes,
 }
 
-fn read_less_or_equal<R: Read>(mut f: R, n_bytes: usize) -> Result<Vec<f64>> {
-    let mut buf = vec![0.0; (n_bytes + 7) / size_of::<f64>()];
-    let u8_slice = unsafe {
-        let ptr = buf.as_mut_ptr().cast::<u8>();
-        slice::from_raw_parts_mut(ptr, n_bytes)
-    };
-    let mut n_read = 0;
-    while n_read < n_bytes {
-        match f.read(&mut u8_slice[n_read..]) {
-            Ok(0) => break,
-            Ok(n) => n_read += n,
-            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
-            Err(e) => return Err(e.into()),
-        }
-    }
+fn read_less_or_equal<R: Read>(f: R, n_bytes: usize) -> Result<Vec<f64>> {
+    // Let the buffer grow with the input: `n_bytes` is only a limit and may be far bigger.
+    let mut buf = Vec::new();
+    f.take(n_bytes as u64).read_to_end(&mut buf)?;
 
-    buf.truncate(n_read / size_of::<f64>());
-    Ok(buf)
+    Ok(buf
+        .chunks_exact(size_of::<f64>())
+        .map(|chunk| f64::from_le_bytes(chunk.try_into().unwrap()))
+        .collect())
 }
 
 impl<'a, R: Read> ChunkWriter<'a, R> {
@@ -313,7 +307,10 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
             opt @ (ChunkOption::RecordCount(_) | ChunkOption::Full) => {
                 let io_read_timer = self.timer.start_addition_measurement(SegmentKind::IORead);
                 let mut buf = if let ChunkOption::RecordCount(count) = opt {
-                    read_less_or_equal(self.file_writer.input_mut(), count * size_of::<f64>())?
+                    read_less_or_equal(
+                        self.file_writer.input_mut(),
+                        count.saturating_mul(size_of::<f64>()),
+                    )?
                 } else {
                     let mut buf = Vec::new();
                     self.file_writer.input_mut().read_to_end(&mut buf)?;
@@ -337,7 +334,7 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
                 let io_read_timer = self.timer.start_addition_measurement(SegmentKind::IORead);
                 let mut buf = read_less_or_equal(
                     self.file_writer.input_mut(),
-                    record_count * size_of::<f64>(),
+                    record_count.saturating_mul(size_of::<f64>()),
                 )?;
                 io_read_timer.stop();
                 if buf.is_empty() {
-- 
2.43.0


From c4f61dd1c63fd13feda4cd9bacdaa96a219f35ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:34 +0000
Subject: [PATCH 30/43] fix: a chunk limit of 0 encoded a file without records
 and reported success

---
 ebi/src/encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ebi/src/encoder.rs b/ebi/src/encoder.rs
index 23953c5..f57fd8f 100644
--- a/ebi/src/encoder.rs
+++ b/ebi/src/encoder.rs
@@ -302,6 +302,11 @@ impl<'a, R: Read> ChunkWriter<'a, R> {
 
     pub fn write<W: Write>(&mut self, mut f: W) -> Result<()> {
         let chunk_option = *self.file_writer.chunk_option();
+        if let ChunkOption::RecordCount(0) | ChunkOption::ByteSizeBestEffort(0) = chunk_option {
+            // No record fits: the input must not be taken for exhausted.
+            let e = io::Error::new(io::ErrorKind::InvalidInput, "the chunk limit is 0");
+            return Err(e.into());
+        }
 
         match chunk_option {
             opt @ (ChunkOption::RecordCount(_) | ChunkOption::Full) => {
-- 
2.43.0


From 954ea5c2e6af12c309e98d7bbd7ef64003c61a1a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 31/43] fix: csv2bin reported a truncated output file as
 finished when its last write failed

---
 tools/src/csv2bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/csv2bin.rs b/tools/src/csv2bin.rs
index ae1a61b..7b79f0f 100644
--- a/tools/src/csv2bin.rs
+++ b/tools/src/csv2bin.rs
@@ -102,7 +102,7 @@ fn process_file(path: &Path) -> Result<()> {
             }
         }
 
-        Ok(())
+        writer.flush().context("Failed to write to output file")
     };
 
     match process() {
-- 
2.43.0


From d3dd8f93ea5f6683a35965c1f1fdb46204b88d2b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 32/43] fix: decimal places of numbers written with an upper
 case exponent were counted wrongly

---
 experimenter/src/lib.rs    | 2 +-
 tools/src/collect-stats.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 844c315..1d01705 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -365,7 +365,7 @@ pub enum Output {
 /// assert_eq!(get_decimal_precision("-99"), 0);
 /// ```
 pub fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
 
diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 1235453..35d6b43 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -11,7 +11,7 @@ use std::{
 };
 
 fn get_decimal_precision(s: &str) -> usize {
-    if let Some(e_pos) = s.find('e') {
+    if let Some(e_pos) = s.find(['e', 'E']) {
         let (base, exponent) = s.split_at(e_pos);
         let exponent_value: i32 = exponent[1..].parse().unwrap_or(0);
         if let Some(dot_pos) = base.find('.') {
-- 
2.43.0


From 26e35954039cc049947cb27793a352474dfa9719 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 33/43] fix: collect-stats overflowed 32 bits when averaging
 the exponents of a large file

---
 tools/src/collect-stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/collect-stats.rs b/tools/src/collect-stats.rs
index 35d6b43..66f6949 100644
--- a/tools/src/collect-stats.rs
+++ b/tools/src/collect-stats.rs
@@ -296,7 +296,7 @@ fn mean_i32(values: &[i32]) -> f64 {
     if values.is_empty() {
         0.0
     } else {
-        let sum: i32 = values.iter().sum();
+        let sum: i64 = values.iter().map(|&v| v as i64).sum();
         sum as f64 / values.len() as f64
     }
 }
-- 
2.43.0


From c36d13813500e79a9e8cf0fc9ef41a90b74fe404 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 34/43] fix: create-filter-config panicked on a file without
 records

---
 experimenter/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 4a0d53a..03a648d 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -1394,6 +1394,7 @@ fn create_config_command(
 
     let number_of_records = floats.len() as u64;
 
+    anyhow::ensure!(number_of_records > 0, "The input file holds no record");
     anyhow::ensure!(
         !floats.iter().any(|&f| f.is_nan()),
         "Found NaN in the input file"
-- 
2.43.0


From e49ca44a3b44249207d4b46d3d22eead4cb21aa1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 35/43] fix: the experimenter commands all and all-patch gave
 two options the same short name

---
 experimenter/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 03a648d..62232b5 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -90,7 +90,7 @@ struct AllPatchArgs {
     binary_dir: PathBuf,
     #[arg(long, short('s'))]
     save_dir: PathBuf,
-    #[arg(long, short('s'))]
+    #[arg(long)]
     n: Option<usize>,
 
     #[arg(long("pd"))]
@@ -185,7 +185,7 @@ struct AllArgs {
     binary_dir: PathBuf,
     #[arg(long, short('s'))]
     save_dir: PathBuf,
-    #[arg(long, short('s'))]
+    #[arg(long)]
     n: Option<usize>,
 }
 impl AllArgs {
-- 
2.43.0


From 65b8c15041fc8d8c26f7662be407ae86f0f60106 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 36/43] fix: the experimenter lost a result silently when
 writing its file failed

---
 experimenter/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 62232b5..d07e65f 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -811,6 +811,7 @@ fn write_output_json(
     let mut writer = std::io::BufWriter::new(output_file);
     let write_result = writer
         .write_all(output_json.as_bytes())
+        .and_then(|()| writer.flush())
         .context("Failed to write output");
     if let Err(e) = write_result {
         eprintln!("{}\n", output_filename.as_ref().display());
-- 
2.43.0


From 81749b1bf2bdfef3126d2b3c81e81e00d37aefd1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 37/43] fix: all-patch kept the old max and sum measurements
 beside the new ones

---
 experimenter/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/experimenter/src/lib.rs b/experimenter/src/lib.rs
index 1d01705..c1b886c 100644
--- a/experimenter/src/lib.rs
+++ b/experimenter/src/lib.rs
@@ -209,6 +209,8 @@ impl AllOutputInner {
         self.compress.clear();
         self.filters.clear();
         self.materialize.clear();
+        self.max.clear();
+        self.sum.clear();
     }
 }
 
-- 
2.43.0


From ebd7542aad85ad2061933c6dae11ca1e1eaa38e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 38/43] fix: ucr2018 rounded the data of data sets with ten or
 more decimal places to a truncated scale

---
 experimenter/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index d07e65f..01eb355 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -2081,7 +2081,7 @@ pub struct LabelPixel {
     pub label: isize,
     pub pixels: Vec<f64>,
 }
-pub fn slurp_file(file: impl AsRef<Path>, prec: i32) -> Vec<LabelPixel> {
+pub fn slurp_file(file: impl AsRef<Path>, prec: i64) -> Vec<LabelPixel> {
     fn nan_to_zero(x: f64) -> f64 {
         if x.is_nan() {
             0.0
@@ -2215,7 +2215,7 @@ fn ucr2018_command(
             .to_string_lossy()
             .to_string();
         let test_file = dataset_entry.join(format!("{}_TEST.tsv", dataset_name));
-        let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i32);
+        let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i64);
         let test_vectors = test_data
             .iter()
             .map(|x| x.pixels.clone())
@@ -2251,8 +2251,8 @@ fn ucr2018_command(
             let train_file = dataset_entry.join(format!("{}_TRAIN.tsv", dataset_name));
             let test_file = dataset_entry.join(format!("{}_TEST.tsv", dataset_name));
 
-            let train_data = slurp_file(&train_file, dataset_scales[&dataset_name] as i32);
-            let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i32);
+            let train_data = slurp_file(&train_file, dataset_scales[&dataset_name] as i64);
+            let test_data = slurp_file(&test_file, dataset_scales[&dataset_name] as i64);
             let train_vectors = train_data
                 .iter()
                 .flat_map(|x| x.pixels.clone())
-- 
2.43.0


From fb832ea7c92002d2d3bd5a912a6bb44e91273446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:39 +0000
Subject: [PATCH 39/43] fix: the averages in the TPC-H reports were not in the
 order of the query and of the reported names

---
 experimenter/src/tpch.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/experimenter/src/tpch.rs b/experimenter/src/tpch.rs
index fd2d683..1f6fcd3 100644
--- a/experimenter/src/tpch.rs
+++ b/experimenter/src/tpch.rs
@@ -309,8 +309,7 @@ pub fn process_h01(path: impl AsRef<Path>) -> anyhow::Result<HashMap<String, Tpc
 
         let total_elapsed_time = queries_elapsed_time.iter().sum::<u64>();
         // swap the order of the result for the consistency with SQL
-        result.swap(4, 6);
-        query_names.swap(4 - 3, 6 - 3);
+        result[4..7].rotate_left(1);
 
         let result = TpchResult01 {
             name: "h01".to_string(),
@@ -545,6 +544,8 @@ pub fn process_h01_simplified(
         // count(*)
 
         let total_elapsed_time = queries_elapsed_time.iter().sum::<u64>();
+        // swap the order of the result for the consistency with SQL
+        result[2..5].rotate_left(1);
 
         let result = TpchResult01 {
             name: "h01_simplified".to_string(),
-- 
2.43.0


From 94ef1b2a35af5732251a1a94e11793cc2a0a6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:26 +0000
Subject: [PATCH 40/43] fix: all-patch could not read any result it was asked
 to patch

---
 experimenter/src/main.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/experimenter/src/main.rs b/experimenter/src/main.rs
index 01eb355..5f7d789 100644
--- a/experimenter/src/main.rs
+++ b/experimenter/src/main.rs
@@ -529,12 +529,16 @@ fn main() -> anyhow::Result<()> {
             "Patched dataset is not a file: {}",
             patched.display()
         );
-        let Output::All(patched) =
-            serde_json::from_reader::<_, Output>(&mut BufReader::new(File::open(&patched)?))
-                .context("Failed to read results being patched")?
-        else {
-            anyhow::bail!("Patched dataset is not an AllOutput");
-        };
+        // serde cannot read the 128-bit times through the tagged `Output`
+        let mut patched: serde_json::Map<String, serde_json::Value> =
+            serde_json::from_reader(&mut BufReader::new(File::open(&patched)?))
+                .context("Failed to read results being patched")?;
+        anyhow::ensure!(
+            patched.remove("command_type") == Some("All".into()),
+            "Patched dataset is not an AllOutput"
+        );
+        let patched: AllOutput = serde_json::from_value(patched.into())
+            .context("Failed to read results being patched")?;
         let save_dir = args
             .binary_dir
             .parent()
-- 
2.43.0


From 6f486ee7137c7f37a6b21b2388d4e4cfa98eb383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:20 +0000
Subject: [PATCH 41/43] fix: DeltaSprintz truncated scales that need more than
 32 bits, so every value was read back wrong

---
 ebi/src/compressor/sprintz.rs           |  8 ++++-
 ebi/src/decoder/chunk_reader/sprintz.rs | 41 +++++++++++++------------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/ebi/src/compressor/sprintz.rs b/ebi/src/compressor/sprintz.rs
index 912fe44..1b910d3 100644
--- a/ebi/src/compressor/sprintz.rs
+++ b/ebi/src/compressor/sprintz.rs
@@ -160,7 +160,13 @@ mod delta_impl {
         // write header
         let initial_number_bits = unsafe { mem::transmute::<i64, u64>(initial_number) };
         w.write_bits(initial_number_bits, 64);
-        w.write_bits(scale, 32);
+        // A scale that does not fit into 32 bits follows a zero in 64 bits
+        if scale == 0 || scale > u32::MAX as u64 {
+            w.write_bits(0, 32);
+            w.write_bits(scale, 64);
+        } else {
+            w.write_bits(scale, 32);
+        }
         w.write_byte(number_of_bits_needed);
 
         if number_of_bits_needed == 0 {
diff --git a/ebi/src/decoder/chunk_reader/sprintz.rs b/ebi/src/decoder/chunk_reader/sprintz.rs
index c4c892f..8679a57 100644
--- a/ebi/src/decoder/chunk_reader/sprintz.rs
+++ b/ebi/src/decoder/chunk_reader/sprintz.rs
@@ -108,10 +108,7 @@ impl QueryExecutor for DeltaSprintzReader {
             .read_bits(64)
             .ok_or(DecoderError::UnexpectedEndOfChunk)?;
         let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-        let scale = self
-            .bit_reader
-            .read_bits(32)
-            .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+        let scale = read_scale(&mut self.bit_reader)?;
         let number_of_bits_needed = self
             .bit_reader
             .read_byte()
@@ -267,6 +264,20 @@ impl QueryExecutor for DeltaSprintzReader {
     }
 }
 
+/// Read the scale of the chunk header.
+/// A scale that does not fit into 32 bits is stored in 64 bits after a zero.
+fn read_scale(bit_reader: &mut impl BitRead2) -> decoder::Result<u64> {
+    let scale = bit_reader
+        .read_bits(32)
+        .ok_or(DecoderError::UnexpectedEndOfChunk)?;
+    if scale != 0 {
+        return Ok(scale);
+    }
+    Ok(bit_reader
+        .read_bits(64)
+        .ok_or(DecoderError::UnexpectedEndOfChunk)?)
+}
+
 fn sum(
     number_of_records: u64,
     bit_reader: &mut BitReader,
@@ -280,9 +291,7 @@ fn sum(
         .read_bits(64)
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-    let scale = bit_reader
-        .read_bits(32)
-        .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+    let scale = read_scale(bit_reader)?;
     let number_of_bits_needed = bit_reader
         .read_byte()
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
@@ -328,9 +337,7 @@ fn sum_without_bitmask(
         .read_bits(64)
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-    let scale = bit_reader
-        .read_bits(32)
-        .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+    let scale = read_scale(bit_reader)?;
     let number_of_bits_needed = bit_reader
         .read_byte()
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
@@ -366,9 +373,7 @@ fn min_max<const IS_MIN: bool>(
         .read_bits(64)
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-    let scale = bit_reader
-        .read_bits(32)
-        .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+    let scale = read_scale(bit_reader)?;
     let number_of_bits_needed = bit_reader
         .read_byte()
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
@@ -419,9 +424,7 @@ fn min_max_without_bitmask<const IS_MIN: bool>(
         .read_bits(64)
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
     let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-    let scale = bit_reader
-        .read_bits(32)
-        .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+    let scale = read_scale(bit_reader)?;
     let number_of_bits_needed = bit_reader
         .read_byte()
         .ok_or(DecoderError::UnexpectedEndOfChunk)?;
@@ -451,7 +454,7 @@ fn min_max_without_bitmask<const IS_MIN: bool>(
 pub struct DeltaSprintzDecompressIteratorImpl<R: BitRead2> {
     bit_reader: R,
     previous_value_quantized: i64,
-    scale: u32,
+    scale: u64,
     number_of_bits_needed: u8,
     number_of_records: u64,
     record_index: u64,
@@ -463,9 +466,7 @@ impl<R: BitRead2> DeltaSprintzDecompressIteratorImpl<R> {
             .read_bits(64)
             .ok_or(DecoderError::UnexpectedEndOfChunk)?;
         let initial_value = unsafe { std::mem::transmute::<u64, i64>(initial_value_bits) };
-        let scale = bit_reader
-            .read_bits(32)
-            .ok_or(DecoderError::UnexpectedEndOfChunk)? as u32;
+        let scale = read_scale(&mut bit_reader)?;
         let number_of_bits_needed = bit_reader
             .read_byte()
             .ok_or(DecoderError::UnexpectedEndOfChunk)?;
-- 
2.43.0


From 149b00d71dedd3ea5111cc6e0f8584ff96efdc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:39 +0000
Subject: [PATCH 42/43] fix: expressions over columns lost the memory of a
 chunk whose records could not be read

---
 ebi/src/decoder/expr.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/ebi/src/decoder/expr.rs b/ebi/src/decoder/expr.rs
index 4011c73..63ff358 100644
--- a/ebi/src/decoder/expr.rs
+++ b/ebi/src/decoder/expr.rs
@@ -3,6 +3,7 @@ use std::io::{Cursor, Read};
 
 use crate::{
     decoder::{self, error::DecoderError},
+    io::as_bytes_mut::AsBytesMut,
     time::SegmentedExecutionTimes,
 };
 
@@ -94,30 +95,18 @@ impl Expr {
             },
             Expr::Index(i) => {
                 let number_of_records = readers[*i].number_of_records() as usize;
-                let mut raw_buffer = Vec::<f64>::with_capacity(number_of_records);
-                let raw_buffer_ptr = raw_buffer.as_mut_ptr();
-                let raw_buffer_capacity = raw_buffer.capacity();
-                std::mem::forget(raw_buffer);
+                let mut buffer = vec![0.0; number_of_records];
                 let len = {
-                    // Lifetime of `&mut [u8]`
-                    let raw_buffer_byte_slice = unsafe {
-                        std::slice::from_raw_parts_mut(
-                            raw_buffer_ptr as *mut u8,
-                            number_of_records * 8,
-                        )
-                    };
-
-                    let mut writer = Cursor::new(raw_buffer_byte_slice);
+                    let mut writer = Cursor::new(buffer.as_bytes_mut());
                     readers[*i].reset_timer();
                     readers[*i].materialize(&mut writer, bitmask)?;
                     *timer += readers[*i].segmented_execution_times();
 
                     writer.position() as usize
                 };
+                buffer.truncate(len / 8);
 
-                let buffer_written =
-                    unsafe { Vec::from_raw_parts(raw_buffer_ptr, len / 8, raw_buffer_capacity) };
-                Ok(buffer_written)
+                Ok(buffer)
             }
         }
     }
-- 
2.43.0


From 09e3f5f1112bdbb3800acc2a0ffb4934a32b5890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:39 +0000
Subject: [PATCH 43/43] fix: a segment timer that is stopped explicitly after
 stop_on_drop added its time twice

---
 ebi/src/time.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebi/src/time.rs b/ebi/src/time.rs
index e3a034e..25bb9f9 100644
--- a/ebi/src/time.rs
+++ b/ebi/src/time.rs
@@ -51,6 +51,8 @@ pub struct SegmentTimer<'a, T: KindIndexable, const N: usize> {
 
 impl<T: KindIndexable, const N: usize> SegmentTimer<'_, T, N> {
     pub fn stop(mut self) {
+        // The drop at the end must not stop it again.
+        self.stop_on_drop = false;
         self.stop_without_drop();
     }
 
-- 
2.43.0

