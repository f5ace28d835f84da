From 1c0f0ff60d6fbf18df6a67df5ec982d3416c7a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 01/44] fix: encoder: accept raw values of 32 bits in
 write_bits

The debug assertion computed 1u32 << 32 and panicked for the full width that
it allows and that read_bits supports.
---
 src/encoders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index c127adc..c64ac45 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -281,7 +281,7 @@ impl<T: Write> ArithmeticEncoder<T> {
     }
 
     pub fn write_bits(&mut self, mut bits: u32, mut sym: u32) -> std::io::Result<()> {
-        debug_assert!(bits <= 32 && sym < (1u32 << bits));
+        debug_assert!(bits <= 32 && u64::from(sym) < (1u64 << bits));
 
         if bits > 19 {
             self.write_short((sym & u32::from(std::u16::MAX)) as u16)?;
-- 
2.43.0


From 0872924f6ad43d475102b13b2aa46b01e65b9133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 02/44] fix: integer coder: wrap when folding correctors of 31
 bits and wider

Folding the corrector into the range and unfolding the value added or
subtracted the range as i32 without wrapping: with 31 bits (range 2^31) this
overflowed and panicked (or compared against a negative range).
---
 src/compressors.rs   | 4 ++--
 src/decompressors.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compressors.rs b/src/compressors.rs
index 38bd104..aa37936 100644
--- a/src/compressors.rs
+++ b/src/compressors.rs
@@ -148,9 +148,9 @@ impl IntegerCompressor {
         let mut corr = real.wrapping_sub(pred);
         // we fold the corrector into the interval [ corr_min  ...  corr_max ]
         if corr < self.corr_min {
-            corr += self.corr_range as i32;
+            corr = corr.wrapping_add(self.corr_range as i32);
         } else if corr > self.corr_max {
-            corr -= self.corr_range as i32;
+            corr = corr.wrapping_sub(self.corr_range as i32);
         }
 
         let m_bit = &mut self.m_bits[context as usize];
diff --git a/src/decompressors.rs b/src/decompressors.rs
index ca99838..bb3e2a6 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -211,9 +211,9 @@ impl IntegerDecompressor {
         //--- read corrector ---//
         let mut real = pred.wrapping_add(corr);
         if real < 0 {
-            real += self.corr_range as i32;
-        } else if real >= self.corr_range as i32 {
-            real -= self.corr_range as i32
+            real = real.wrapping_add(self.corr_range as i32);
+        } else if real as u32 >= self.corr_range {
+            real = real.wrapping_sub(self.corr_range as i32);
         }
         Ok(real)
     }
-- 
2.43.0


From 4361b53894cb2e8d4db96bfc58167ca5e7997cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 03/44] fix: chunk table: do not sign-extend 32-bit counts

Point and byte counts of 2^31 and more were read back as values near 2^64.
---
 src/laszip/chunk_table.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index a9c5b96..9b1a79e 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -159,17 +159,17 @@ impl ChunkTable {
                 byte_count: 0,
             };
             if contains_point_count {
-                current_entry.point_count = u64::from_le(decompressor.decompress(
+                current_entry.point_count = u64::from(decompressor.decompress(
                     &mut decoder,
                     previous_entry.point_count as i32,
                     POINT_COUNT_CONTEXT,
-                )? as u64);
+                )? as u32);
             }
-            current_entry.byte_count = u64::from_le(decompressor.decompress(
+            current_entry.byte_count = u64::from(decompressor.decompress(
                 &mut decoder,
                 previous_entry.byte_count as i32,
                 BYTE_COUNT_CONTEXT,
-            )? as u64);
+            )? as u32);
 
             chunk_table.0.push(current_entry);
             previous_entry = current_entry;
-- 
2.43.0


From 21f2e46e7f914b10ab74c482848491f3b099806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 04/44] fix: wrap on overflow when predicting coordinates and
 GPS times

---
 src/las/gps.rs    | 67 +++++++++++++++++++++++++----------------------
 src/las/point0.rs |  8 +++---
 src/las/point6.rs | 17 ++++++------
 3 files changed, 49 insertions(+), 43 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index df371b5..68be49c 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -85,7 +85,7 @@ impl Add<f64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: f64) -> Self::Output {
-        Self::from(self.value + rhs.to_bits() as i64)
+        Self::from(self.value.wrapping_add(rhs.to_bits() as i64))
     }
 }
 
@@ -93,19 +93,19 @@ impl Add<i64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: i64) -> Self::Output {
-        Self::from(self.value + rhs)
+        Self::from(self.value.wrapping_add(rhs))
     }
 }
 
 impl AddAssign<f64> for GpsTime {
     fn add_assign(&mut self, rhs: f64) {
-        self.value += rhs.to_bits() as i64;
+        self.value = self.value.wrapping_add(rhs.to_bits() as i64);
     }
 }
 
 impl AddAssign<i64> for GpsTime {
     fn add_assign(&mut self, rhs: i64) {
-        self.value += rhs;
+        self.value = self.value.wrapping_add(rhs);
     }
 }
 
@@ -265,7 +265,8 @@ pub mod v1 {
                 if current_gps_time_value == self.last_gps {
                     encoder.encode_symbol(&mut self.gps_time_0_diff_model, 0)?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -293,7 +294,8 @@ pub mod v1 {
                         LASZIP_GPS_TIME_MULTI_MAX - 1,
                     )?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -331,21 +333,21 @@ pub mod v1 {
                         } else if multi < 10 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 3,
                             )?;
                         } else if multi < 50 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 4,
                             )?;
                         } else {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 5,
                             )?;
@@ -395,7 +397,9 @@ pub mod v1 {
                 if multi == 1 {
                     // the difference can be represented with 32 bits
                     self.last_gps_time_diff = self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                    self.last_gps += i64::from(self.last_gps_time_diff);
+                    self.last_gps = self
+                        .last_gps
+                        .wrapping_add(i64::from(self.last_gps_time_diff));
                 } else if multi == 2 {
                     // the difference is huge,
                     // the gps was written as is
@@ -436,7 +440,7 @@ pub mod v1 {
 
                         gps_time_diff = self.ic_gps_time.decompress(
                             &mut decoder,
-                            self.last_gps_time_diff * multi as i32,
+                            self.last_gps_time_diff.wrapping_mul(multi as i32),
                             context,
                         )?;
 
@@ -448,7 +452,7 @@ pub mod v1 {
                             }
                         }
                     }
-                    self.last_gps += i64::from(gps_time_diff);
+                    self.last_gps = self.last_gps.wrapping_add(i64::from(gps_time_diff));
                 } else if multi < LASZIP_GPS_TIME_MULTI_MAX - 1 {
                     self.last_gps = decoder.read_int_64()? as i64;
                 }
@@ -578,12 +582,12 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self
-                                        .common
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common
                                         .last_gps_times
                                         .get_unchecked((self.common.last + i) & 3)
-                                        .value;
+                                        .value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -644,12 +648,12 @@ pub mod v2 {
                         )?;
                     } else {
                         // the last integer difference was *not* zero
-                        let curr_gps_time_diff_64 = this_val.value
-                            - self
-                                .common
+                        let curr_gps_time_diff_64 = this_val.value.wrapping_sub(
+                            self.common
                                 .last_gps_times
                                 .get_unchecked(self.common.last)
-                                .value;
+                                .value,
+                        );
                         let curr_gps_time_diff_32 = curr_gps_time_diff_64 as i32;
 
                         // if the current gps time difference can be represented with 32 bits
@@ -784,8 +788,9 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self.common.last_gps_times[(self.common.last + i) & 3].value;
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common.last_gps_times[(self.common.last + i) & 3].value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -889,10 +894,10 @@ pub mod v2 {
                             .last_gps_time_diffs
                             .get_unchecked_mut(self.common.last) =
                             self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             *self
                                 .common
                                 .last_gps_time_diffs
@@ -947,10 +952,10 @@ pub mod v2 {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
 
                     if multi == 1 {
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             self.ic_gps_time.decompress(
                                 &mut decoder,
                                 *self
@@ -1089,10 +1094,10 @@ pub mod v2 {
                                 }
                             }
                         }
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(gps_time_diff);
+                            .get_unchecked_mut(self.common.last) += i64::from(gps_time_diff);
                     } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
                         self.common.next = (self.common.next + 1) & 3;
                         self.common
diff --git a/src/las/point0.rs b/src/las/point0.rs
index ebab126..213191e 100644
--- a/src/las/point0.rs
+++ b/src/las/point0.rs
@@ -431,8 +431,8 @@ pub mod v1 {
             let median_x = median_diff(&self.last_x_diffs);
             let median_y = median_diff(&self.last_y_diffs);
 
-            let x_diff = current_point.x() - self.last_point.x();
-            let y_diff = current_point.y() - self.last_point.y();
+            let x_diff = current_point.x().wrapping_sub(self.last_point.x());
+            let y_diff = current_point.y().wrapping_sub(self.last_point.y());
 
             self.ic_dx
                 .compress(encoder, median_x, x_diff, DEFAULT_COMPRESS_CONTEXTS)?;
@@ -545,7 +545,7 @@ pub mod v1 {
             let x_diff =
                 self.ic_dx
                     .decompress(&mut decoder, median_x, DEFAULT_DECOMPRESS_CONTEXTS)?;
-            self.last_point.x += x_diff;
+            self.last_point.x = self.last_point.x.wrapping_add(x_diff);
             // we use the number k of bits corrector bits to switch contexts
             let k_bits = self.ic_dx.k();
             let y_diff = self.ic_dy.decompress(
@@ -553,7 +553,7 @@ pub mod v1 {
                 median_y,
                 if k_bits < 19 { k_bits } else { 19 },
             )?;
-            self.last_point.y += y_diff;
+            self.last_point.y = self.last_point.y.wrapping_add(y_diff);
             let k_bits = (k_bits + self.ic_dy.k()) / 2;
             self.last_point.z = self.ic_dz.decompress(
                 &mut decoder,
diff --git a/src/las/point6.rs b/src/las/point6.rs
index 87424e0..13323a2 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -796,9 +796,10 @@ mod v3_v4 {
                     } else if multi == LASZIP_GPS_TIME_MULTI {
                         gps_time_diff = the_context.decompressors.gps_time.decompress(
                             &mut self.decoders.gps_time,
-                            LASZIP_GPS_TIME_MULTI
-                                * the_context.gps_sequences.last_gps_diffs
+                            LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                the_context.gps_sequences.last_gps_diffs
                                     [the_context.gps_sequences.last],
+                            ),
                             4,
                         )?;
                         the_context.gps_sequences.multi_extreme_counter
@@ -1443,10 +1444,9 @@ mod v3_v4 {
                 }
             } else {
                 // the last integer difference was *not* zero
-                let curr_gps_time_diff_64 = i64::from(gps_time)
-                    - i64::from(
-                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
-                    );
+                let curr_gps_time_diff_64 = i64::from(gps_time).wrapping_sub(i64::from(
+                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
+                ));
                 let curr_gps_time_diff = curr_gps_time_diff_64 as i32;
 
                 if curr_gps_time_diff_64 == i64::from(curr_gps_time_diff) {
@@ -1495,9 +1495,10 @@ mod v3_v4 {
                             )?;
                             the_context.compressors.gps_time.compress(
                                 &mut self.encoders.gps_time,
-                                LASZIP_GPS_TIME_MULTI
-                                    * the_context.gps_sequences.last_gps_diffs
+                                LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                    the_context.gps_sequences.last_gps_diffs
                                         [the_context.gps_sequences.last],
+                                ),
                                 curr_gps_time_diff,
                                 4,
                             )?;
-- 
2.43.0


From 91b685631136a987af92fc4a76668d7f9299537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 05/44] fix: point6: do not lose a change of the sign of a zero
 GPS time

---
 src/las/point6.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/las/point6.rs b/src/las/point6.rs
index 13323a2..fedaa4c 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -1666,7 +1666,9 @@ mod v3_v4 {
 
             // determine changed attributes
             let point_source_changed = last_point.point_source_id != current_point.point_source_id;
-            let gps_time_changed = last_point.gps_time != current_point.gps_time;
+            // The bits are also compared so that a change of the sign of zero is not lost
+            let gps_time_changed = last_point.gps_time != current_point.gps_time
+                || last_point.gps_time.to_bits() != current_point.gps_time.to_bits();
             let scan_angle_changed = last_point.scan_angle_rank != current_point.scan_angle_rank;
 
             // get last and current return counts
-- 
2.43.0


From 78f163d13b6a8d472708ac1f320f0103a3270014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 06/44] fix: wavepacket: wrap offsets and do not confuse
 negative differences with sizes

---
 src/las/wavepacket.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 583c8a5..db90506 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -166,8 +166,10 @@ pub mod v1 {
                     current_wavepacket.offset = self.last_wavepacket.offset;
                 }
                 1 => {
-                    current_wavepacket.offset =
-                        self.last_wavepacket.offset + u64::from(self.last_wavepacket.size);
+                    current_wavepacket.offset = self
+                        .last_wavepacket
+                        .offset
+                        .wrapping_add(u64::from(self.last_wavepacket.size));
                 }
                 2 => {
                     self.last_offset_diff =
@@ -283,7 +285,9 @@ pub mod v1 {
                 u32::from(current_item.descriptor_index),
             )?;
 
-            let offset_diff_64 = current_item.offset as i64 - self.last_wavepacket.offset as i64;
+            let offset_diff_64 = current_item
+                .offset
+                .wrapping_sub(self.last_wavepacket.offset) as i64;
             let offset_diff_32 = offset_diff_64 as i32;
 
             if offset_diff_64 == offset_diff_32 as i64 {
@@ -291,7 +295,7 @@ pub mod v1 {
 
                 let new_syn_offset_diff = if offset_diff_32 == 0 {
                     0
-                } else if offset_diff_32 == self.last_wavepacket.size as i32 {
+                } else if offset_diff_64 == i64::from(self.last_wavepacket.size) {
                     1
                 } else {
                     2
-- 
2.43.0


From 3686aab9ee8b693870b54429ae6d0aa8f9e84f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 07/44] fix: wavepacket: detect changes by comparing bits

---
 src/las/wavepacket.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index db90506..b4e42a4 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -16,6 +16,18 @@ pub struct LasWavepacket {
 
 impl LasWavepacket {
     pub(crate) const SIZE: usize = 29;
+
+    /// Compares all the bits, unlike `PartialEq` for which zeros
+    /// of different sign are equal and NaNs are not.
+    fn is_same_as(&self, other: &Self) -> bool {
+        self.descriptor_index == other.descriptor_index
+            && self.offset == other.offset
+            && self.size == other.size
+            && self.return_point.to_bits() == other.return_point.to_bits()
+            && self.dx.to_bits() == other.dx.to_bits()
+            && self.dy.to_bits() == other.dy.to_bits()
+            && self.dz.to_bits() == other.dz.to_bits()
+    }
 }
 
 impl Packable for LasWavepacket {
@@ -636,7 +648,7 @@ mod v3_v4 {
                 }
             }
 
-            if self.last_wavepackets[last_idx] != current_wavepacket {
+            if !self.last_wavepackets[last_idx].is_same_as(&current_wavepacket) {
                 self.has_changed = true;
             }
 
-- 
2.43.0


From cb84f481cd0d95a5ec853c5e9fbee5b920e91ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 08/44] fix: rgb v1: replace upper bytes instead of merging
 them, use the blue context

---
 src/las/rgb.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/las/rgb.rs b/src/las/rgb.rs
index bf4ffc1..941d968 100644
--- a/src/las/rgb.rs
+++ b/src/las/rgb.rs
@@ -263,12 +263,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_red_byte_changed() {
-                self.last.red |= (self.decompress_byte(
+                let new_upper_red = self.decompress_byte(
                     decoder,
                     UPPER_RED_BYTE_CONTEXT,
                     upper_byte(self.last.red),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.red = (new_upper_red as u16) << 8 | self.last.red & 0x00FF;
             }
 
             if color_diff.lower_green_byte_changed() {
@@ -281,12 +281,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_green_byte_changed() {
-                self.last.green |= (self.decompress_byte(
+                let new_upper_green = self.decompress_byte(
                     decoder,
                     UPPER_GREEN_BYTE_CONTEXT,
                     upper_byte(self.last.green),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.green = (new_upper_green as u16) << 8 | self.last.green & 0x00FF;
             }
 
             if color_diff.lower_blue_byte_changed() {
@@ -299,12 +299,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_blue_byte_changed() {
-                self.last.blue |= (self.decompress_byte(
+                let new_upper_blue = self.decompress_byte(
                     decoder,
                     UPPER_BLUE_BYTE_CONTEXT,
                     upper_byte(self.last.blue),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.blue = (new_upper_blue as u16) << 8 | self.last.blue & 0x00FF;
             }
             self.last.pack_into(buf);
             Ok(())
@@ -387,7 +387,7 @@ pub mod v1 {
                     &mut encoder,
                     i32::from(upper_byte(self.last.blue)),
                     i32::from(upper_byte(current_point.blue)),
-                    UPPER_GREEN_BYTE_CONTEXT,
+                    UPPER_BLUE_BYTE_CONTEXT,
                 )?;
             }
             self.last = current_point;
-- 
2.43.0


From aab8a578434d17a02c3e72bdb442018f94065bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 09/44] fix: extra bytes v1: code the bytes with the integer
 compressor, as LASzip does

---
 src/las/extra_bytes.rs | 100 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 97 insertions(+), 3 deletions(-)

diff --git a/src/las/extra_bytes.rs b/src/las/extra_bytes.rs
index 51a3038..4a85919 100644
--- a/src/las/extra_bytes.rs
+++ b/src/las/extra_bytes.rs
@@ -26,9 +26,6 @@
 */
 //! Defines the different version of compressors and decompressors for ExtraBytes contained in points
 
-/// Just re-export v1 as v2 as they are both the same implementation
-pub use v1 as v2;
-
 pub trait LasExtraBytes {
     fn extra_bytes(&self) -> &[u8];
     fn set_extra_bytes(&mut self, extra_bytes: &[u8]);
@@ -65,6 +62,103 @@ impl LasExtraBytes for ExtraBytes {
 }
 
 pub mod v1 {
+    //! The Algorithm is simple:
+    //! each extra byte is predicted by its previous value and
+    //! the difference is encoded by an integer compressor, with one context per byte
+    use std::io::{Read, Write};
+
+    use crate::compressors::{IntegerCompressor, IntegerCompressorBuilder};
+    use crate::decoders::ArithmeticDecoder;
+    use crate::decompressors::{IntegerDecompressor, IntegerDecompressorBuilder};
+    use crate::encoders::ArithmeticEncoder;
+    use crate::record::{FieldCompressor, FieldDecompressor};
+
+    pub struct LasExtraByteCompressor {
+        last_bytes: Vec<u8>,
+        ic_bytes: IntegerCompressor,
+    }
+
+    impl LasExtraByteCompressor {
+        pub fn new(count: usize) -> Self {
+            Self {
+                last_bytes: vec![0u8; count],
+                ic_bytes: IntegerCompressorBuilder::new()
+                    .bits(8)
+                    .contexts(count as u32)
+                    .build_initialized(),
+            }
+        }
+    }
+
+    impl<W: Write> FieldCompressor<W> for LasExtraByteCompressor {
+        fn size_of_field(&self) -> usize {
+            self.last_bytes.len()
+        }
+
+        fn compress_first(&mut self, dst: &mut W, buf: &[u8]) -> std::io::Result<()> {
+            self.last_bytes.copy_from_slice(buf);
+            dst.write_all(buf)
+        }
+
+        fn compress_with(
+            &mut self,
+            encoder: &mut ArithmeticEncoder<W>,
+            buf: &[u8],
+        ) -> std::io::Result<()> {
+            for (i, (last, current)) in self.last_bytes.iter_mut().zip(buf).enumerate() {
+                self.ic_bytes
+                    .compress(encoder, i32::from(*last), i32::from(*current), i as u32)?;
+                *last = *current;
+            }
+            Ok(())
+        }
+    }
+
+    pub struct LasExtraByteDecompressor {
+        last_bytes: Vec<u8>,
+        ic_bytes: IntegerDecompressor,
+    }
+
+    impl LasExtraByteDecompressor {
+        pub fn new(count: usize) -> Self {
+            Self {
+                last_bytes: vec![0u8; count],
+                ic_bytes: IntegerDecompressorBuilder::new()
+                    .bits(8)
+                    .contexts(count as u32)
+                    .build_initialized(),
+            }
+        }
+    }
+
+    impl<R: Read> FieldDecompressor<R> for LasExtraByteDecompressor {
+        fn size_of_field(&self) -> usize {
+            self.last_bytes.len()
+        }
+
+        fn decompress_first(&mut self, src: &mut R, first_point: &mut [u8]) -> std::io::Result<()> {
+            src.read_exact(first_point)?;
+            self.last_bytes.copy_from_slice(first_point);
+            Ok(())
+        }
+
+        fn decompress_with(
+            &mut self,
+            decoder: &mut ArithmeticDecoder<R>,
+            buf: &mut [u8],
+        ) -> std::io::Result<()> {
+            for (i, last) in self.last_bytes.iter_mut().enumerate() {
+                *last = self
+                    .ic_bytes
+                    .decompress(decoder, i32::from(*last), i as u32)? as u8;
+            }
+            buf.copy_from_slice(&self.last_bytes);
+            Ok(())
+        }
+    }
+}
+
+pub mod v2 {
     //! The Algorithm is simple:
     //! encode the difference between byte for each extra bytes
     use std::io::{Read, Write};
-- 
2.43.0


From cf8851a21faa81025fa1aacf55840c73675310d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 10/44] fix: sequential writer: do not record chunks without
 points

---
 src/laszip/sequential/compression.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 192a88b..5931cfe 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -138,8 +138,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         if self.chunk_start_pos == 0 {
             self.reserve_offset_to_chunk_table()?;
         }
-        self.record_compressor.done()?;
-        self.update_chunk_table()?;
+        if self.current_chunk_entry.point_count != 0 {
+            self.record_compressor.done()?;
+            self.update_chunk_table()?;
+        }
         let stream = self.record_compressor.get_mut();
         chunk_table::update_chunk_table_offset(stream, SeekFrom::Start(self.start_pos))?;
         self.chunk_table.write_to(stream, &self.vlr)?;
@@ -225,6 +227,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
 
     #[inline]
     fn finish_current_chunk_impl(&mut self) -> std::io::Result<()> {
+        if self.current_chunk_entry.point_count == 0 {
+            // Chunks without points are not chunks
+            return Ok(());
+        }
         self.record_compressor.done()?;
         self.record_compressor.reset();
         self.record_compressor
-- 
2.43.0


From f533f63ab7a9e84800a5679419e3f5e060355d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 11/44] fix: parallel writer: do not record chunks without
 points

---
 src/laszip/parallel/compression.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 49369f8..2df9bd6 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -329,21 +329,27 @@ where
 {
     use std::io::Cursor;
 
+    let point_size = laz_vlr.items_size() as usize;
     let chunks = chunks
         .into_par_iter()
         .map(|data| {
             let slc = data.as_ref();
             let mut output = Cursor::new(Vec::<u8>::new());
-            compress_one_chunk(slc, laz_vlr, &mut output)?;
+            if slc.len() >= point_size {
+                compress_one_chunk(slc, laz_vlr, &mut output)?;
+            }
             let vec = output.into_inner();
             Ok((slc.len(), vec))
         })
         .collect::<Vec<crate::Result<(usize, Vec<u8>)>>>();
 
     let mut chunk_table = ChunkTable::with_capacity(chunks.len());
-    let point_size = laz_vlr.items_size() as usize;
     for chunk_result in chunks {
         let (input_size, compressed_data) = chunk_result?;
+        if compressed_data.is_empty() {
+            // Chunks without points are not chunks
+            continue;
+        }
         let point_count = if laz_vlr.uses_variable_size_chunks() {
             (input_size / point_size) as u64
         } else {
-- 
2.43.0


From 5871abf9a105d92f0531d13aebf7b874ba36555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 12/44] fix: layered chunks: use the number of points the chunk
 announces

---
 src/record.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/record.rs b/src/record.rs
index da13149..1fe0d30 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -351,6 +351,10 @@ pub struct LayeredPointRecordDecompressor<'a, R: Read + Seek> {
     fields_sizes: Vec<usize>,
     record_size: usize,
     context: usize,
+    /// Number of points in the chunk, as announced by the chunk (0 when not known yet)
+    point_count: u64,
+    /// Number of points of the chunk decompressed so far
+    points_read: u64,
 }
 
 impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
@@ -364,6 +368,8 @@ impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
             fields_sizes: vec![],
             record_size: 0,
             context: 0,
+            point_count: 0,
+            points_read: 0,
         }
     }
 
@@ -454,7 +460,18 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.record_size
     }
 
+    fn record_count(&self) -> u64 {
+        self.point_count
+    }
+
     fn decompress_next(&mut self, out: &mut [u8]) -> std::io::Result<()> {
+        if self.point_count != 0 && self.points_read >= self.point_count {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "all the points of the chunk were decompressed",
+            ));
+        }
+
         let decompressors_and_data =
             self.field_decompressors
                 .iter_mut()
@@ -472,7 +489,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
                 )?;
             }
 
-            let _count = self.input.read_u32::<LittleEndian>()?;
+            self.point_count = u64::from(self.input.read_u32::<LittleEndian>()?);
             for field in &mut self.field_decompressors {
                 field.read_layers_sizes(&mut self.input)?;
             }
@@ -486,11 +503,14 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
                 field_decompressor.decompress_field_with(out_field_data, &mut self.context)?;
             }
         }
+        self.points_read += 1;
         Ok(())
     }
 
     fn reset(&mut self) {
         self.is_first_decompression = true;
+        self.point_count = 0;
+        self.points_read = 0;
         self.field_decompressors.clear();
         self.record_size = 0;
         self.fields_sizes.clear();
-- 
2.43.0


From fca771a7a47c3d3892457e96c77c2789bfb68233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 13/44] fix: sequential reader: seek in chunks of different
 sizes

---
 src/laszip/sequential/decompression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 34653c6..6256226 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -202,7 +202,11 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
 
         if let Some((chunk_of_point, start_of_chunk)) = chunk_info {
             self.current_chunk = chunk_of_point as usize;
-            let delta = point_idx % chunk_table[self.current_chunk].point_count;
+            let points_before_chunk = chunk_table[..chunk_of_point]
+                .iter()
+                .map(|entry| entry.point_count)
+                .sum::<u64>();
+            let delta = point_idx - points_before_chunk;
             let seeked_point_belong_to_last_chunk = chunk_of_point == (chunk_table.len() - 1);
             // When the index of the point belongs to the last chunk
             // we try to be careful as that point may not exist, and there may be a
-- 
2.43.0


From b12a8e9e562899d6c1d8896a1fcb14ebc64104b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 14/44] fix: sequential reader: report the end of the points
 instead of decoding past it

---
 src/laszip/sequential/decompression.rs | 32 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 6256226..c288941 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -144,6 +144,17 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             self.current_chunk += 1;
         }
 
+        if self.chunk_points_read == 0 {
+            if let Some(seek_info) = &self.seek_info {
+                if self.current_chunk >= seek_info.chunk_table.len() {
+                    return Err(std::io::Error::new(
+                        std::io::ErrorKind::UnexpectedEof,
+                        "no more chunks in the chunk table",
+                    ));
+                }
+            }
+        }
+
         self.record_decompressor.decompress_next(&mut out)?;
         self.chunk_points_read += 1;
 
@@ -234,9 +245,10 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                     self.decompress_one(&mut tmp_out)?;
                     let current_pos = self.get_mut().seek(SeekFrom::Current(0))?;
 
-                    if current_pos >= offset_to_chunk_table {
-                        self.get_mut().seek(SeekFrom::End(0))?;
-                        return Ok(());
+                    // All the bytes of the chunk may be consumed well before its last point
+                    // is decompressed, but no byte of the chunk table may be.
+                    if current_pos > offset_to_chunk_table {
+                        return self.move_to_end();
                     }
                 }
             } else {
@@ -252,9 +264,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             // the requested point it out of bounds (ie higher than the number of
             // points compressed)
 
-            // Seek to the end so that the next call to decompress causes en error
-            // like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
-            self.record_decompressor.get_mut().seek(SeekFrom::End(0))?;
+            return self.move_to_end();
         }
         Ok(())
     }
@@ -278,6 +288,16 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         self.record_decompressor.get()
     }
 
+    /// Moves after the last chunk, so that the next call to decompress causes an error
+    fn move_to_end(&mut self) -> crate::Result<()> {
+        self.get_mut().seek(SeekFrom::End(0))?;
+        self.reset_for_new_chunk();
+        if let Some(seek_info) = &self.seek_info {
+            self.current_chunk = seek_info.chunk_table.len();
+        }
+        Ok(())
+    }
+
     #[inline(always)]
     fn reset_for_new_chunk(&mut self) {
         self.chunk_points_read = 0;
-- 
2.43.0


From d42e786bcddbe857db839313decff0c0fd24c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 15/44] fix: sequential reader: layered chunks know their
 number of points

---
 src/laszip/sequential/decompression.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index c288941..99b2157 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -159,13 +159,14 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         self.chunk_points_read += 1;
 
         if self.chunk_points_read == 1 {
-            if self.vlr.uses_variable_size_chunks() {
-                self.num_points_in_chunk = match (&self.seek_info, self.vlr.compressor) {
-                    (Some(seek_info), _) => seek_info.chunk_table[self.current_chunk].point_count,
-                    (None, CompressorType::LayeredChunked) => {
-                        self.record_decompressor.record_count()
-                    }
-                    (None, _) => {
+            let record_count = self.record_decompressor.record_count();
+            if record_count != 0 {
+                // The chunk itself knows how many points it has
+                self.num_points_in_chunk = record_count;
+            } else if self.vlr.uses_variable_size_chunks() {
+                self.num_points_in_chunk = match &self.seek_info {
+                    Some(seek_info) => seek_info.chunk_table[self.current_chunk].point_count,
+                    None => {
                         // This should not be possible, the `new` method should ensure
                         // we have the chunk table if we need one
                         panic!("Variable-size chunks, but no chunk table");
-- 
2.43.0


From a7db16a1e7f63648d5b8d04d5a8bdd32e8233b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 16/44] fix: sequential reader: go back to the points when
 there is no chunk table

---
 src/laszip/sequential/decompression.rs | 31 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 99b2157..e5331a4 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -74,6 +74,8 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         vlr: LazVlr,
         selection: DecompressionSelection,
     ) -> crate::Result<Self> {
+        // The position where the point data starts (if the source knows it).
+        let start = source.seek(SeekFrom::Current(0));
         // The chunk table is not always mandatory when just reading data.
         let seek_info = match vlr.compressor {
             CompressorType::PointWise => {
@@ -86,12 +88,10 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                     (Ok(info), _) => Some(info),
                     (Err(_), false) => {
                         // The error is probably due to a seek error
-                        // (Eg for a source that is not actually seekable).
-                        // So we _may_ still be at the start of point data,
+                        // (Eg for a source that is not actually seekable)
                         // we need to skip the chunk table offset otherwise
                         // decompression won't be correct.
-                        let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
-                        source.read_exact(&mut tmp)?;
+                        Self::skip_chunk_table_offset(&mut source, start)?;
                         None
                     }
                     (Err(err), true) => {
@@ -108,8 +108,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 let seek_info = SeekInfo::read_from(&mut source, &vlr).ok();
                 if seek_info.is_none() {
                     // Same as in PointWiseChunked
-                    let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
-                    source.read_exact(&mut tmp)?;
+                    Self::skip_chunk_table_offset(&mut source, start)?;
                 }
                 seek_info
             }
@@ -299,6 +298,26 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         Ok(())
     }
 
+    /// Moves the `source` after the offset to the chunk table, when the chunk table
+    /// could not be read.
+    ///
+    /// `start` is the position where the point data starts, an error means that
+    /// the `source` is not seekable, thus that nothing was read from it.
+    fn skip_chunk_table_offset(source: &mut R, start: std::io::Result<u64>) -> std::io::Result<()> {
+        if let Ok(start) = start {
+            // Trying to read the chunk table may have moved the source anywhere.
+            match source.seek(SeekFrom::Current(0))?.checked_sub(start) {
+                Some(0) => {}
+                Some(8) => return Ok(()),
+                _ => {
+                    source.seek(SeekFrom::Start(start))?;
+                }
+            }
+        }
+        let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
+        source.read_exact(&mut tmp)
+    }
+
     #[inline(always)]
     fn reset_for_new_chunk(&mut self) {
         self.chunk_points_read = 0;
-- 
2.43.0


From 0f5c3eb4e82069eef8ef0c42b77abe8b041ea345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 17/44] fix: sequential reader: skip chunks without points

---
 src/laszip/sequential/decompression.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index e5331a4..29e73ef 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -145,6 +145,23 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
 
         if self.chunk_points_read == 0 {
             if let Some(seek_info) = &self.seek_info {
+                // Chunks may have no points
+                let mut bytes_to_skip = 0;
+                for entry in (&seek_info.chunk_table)
+                    .into_iter()
+                    .skip(self.current_chunk)
+                {
+                    if entry.point_count != 0 {
+                        break;
+                    }
+                    bytes_to_skip += entry.byte_count as i64;
+                    self.current_chunk += 1;
+                }
+                if bytes_to_skip != 0 {
+                    let source = self.record_decompressor.get_mut();
+                    source.seek(SeekFrom::Current(bytes_to_skip))?;
+                }
+
                 if self.current_chunk >= seek_info.chunk_table.len() {
                     return Err(std::io::Error::new(
                         std::io::ErrorKind::UnexpectedEof,
-- 
2.43.0


From adeba2dc1377102ff1e5da1f8882117939bfbf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 18/44] fix: parallel reader: report requests for more points
 than there are

---
 src/laszip/parallel/decompression.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 29c1eaa..87f57e1 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -141,13 +141,18 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         }
 
         debug_assert!(num_chunks_to_decompress >= 1);
-        debug_assert!(num_points >= num_requested_points_left);
-        // TODO if num_points >= num_requested_points_left then the user ask to decompress more points
-        //      than there are
+        if num_points < num_requested_points_left {
+            // The user asks to decompress more points than there are
+            return Err(LasZipError::IoError(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "not enough points in the chunk table",
+            )));
+        }
 
         // Read the necessary compressed bytes into our internal buffer
         self.internal_buffer.resize(num_bytes_to_read, 0u8);
         self.source.read_exact(&mut self.internal_buffer)?;
+        self.last_chunk_read += num_chunks_to_decompress as isize;
 
         // 3. Decompress
         // The idea is that if we have `n` chunks to decompress
@@ -205,11 +210,13 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 Ok(())
             },
         );
+        if res1.is_err() || res2.is_err() {
+            // What the rest holds may not have been decompressed
+            self.rest.get_mut().clear();
+            self.rest.set_position(0);
+        }
         res1?;
-        res2?;
-
-        self.last_chunk_read += num_chunks_to_decompress as isize;
-        Ok(())
+        res2
     }
 
     /// Seeks to the position of the point at the given index
-- 
2.43.0


From 5e398a3558ab6bfcbcbefbeb5e79f09f780dc51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 19/44] fix: parallel reader: seek in chunks of different
 sizes, with a selection, and after the end

---
 src/laszip/parallel/decompression.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 87f57e1..2d09f03 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -231,6 +231,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             Some(v) => v,
             None => {
                 let _ = self.source.seek(SeekFrom::End(0))?;
+                self.last_chunk_read = self.chunk_table.len() as isize - 1;
                 return Ok(());
             }
         };
@@ -239,7 +240,14 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         self.source.seek(SeekFrom::Start(start_of_chunk_pos))?;
         self.internal_buffer
             .resize(self.chunk_table[chunk_of_point].byte_count as usize, 0u8);
-        self.source.read(&mut self.internal_buffer)?;
+        self.source.read_exact(&mut self.internal_buffer)?;
+        self.last_chunk_read = chunk_of_point as isize;
+
+        let points_before_chunk = self.chunk_table[..chunk_of_point]
+            .iter()
+            .map(|entry| entry.point_count)
+            .sum::<u64>();
+        let pos_in_chunk = index - points_before_chunk;
 
         // Completely decompress the chunk
         let num_bytes = match self.vlr.num_bytes_in_decompressed_chunk() {
@@ -248,31 +256,29 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 num_bytes_per_point,
             } => num_bytes_per_point * self.chunk_table[chunk_of_point].point_count as usize,
         };
-        self.rest.get_mut().resize(num_bytes, 0u8);
+        let mut points = vec![0u8; num_bytes];
         let mut decompressor = record_decompressor_from_laz_items(
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
         )?;
+        decompressor.set_selection(self.selection);
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
         if is_last_chunk {
-            let num_bytes_decompressed =
-                decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
+            let num_bytes_decompressed = decompressor.decompress_until_end_of_file(&mut points)?;
+            points.truncate(num_bytes_decompressed);
             let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
-            let pos_in_chunk = index % self.vlr.chunk_size() as u64;
             if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
-                // Make the rest appear as fully consumed to
+                // Leave the rest empty to
                 // force EOF error on next decompression
-                self.rest.set_position(self.rest.get_ref().len() as u64);
                 return Ok(());
             }
         } else {
-            decompressor.decompress_many(self.rest.get_mut())?;
+            decompressor.decompress_many(&mut points)?;
         }
+        *self.rest.get_mut() = points;
         // This effectively discard points that were
         // before the one we just seeked to
-        let pos_in_chunk = index % self.vlr.chunk_size() as u64;
         self.rest.set_position(pos_in_chunk * self.vlr.items_size());
-        self.last_chunk_read = chunk_of_point as isize;
         Ok(())
     }
 
-- 
2.43.0


From be077ff5c1a7ac9e55766efd8cb658c1ee24f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 20/44] fix: parallel decompression of buffers: use all the
 bytes of the points, do not panic

---
 src/laszip/parallel/decompression.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 2d09f03..5c4ef90 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -143,10 +143,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         debug_assert!(num_chunks_to_decompress >= 1);
         if num_points < num_requested_points_left {
             // The user asks to decompress more points than there are
-            return Err(LasZipError::IoError(std::io::Error::new(
-                std::io::ErrorKind::UnexpectedEof,
-                "not enough points in the chunk table",
-            )));
+            return Err(unexpected_eof("not enough points in the chunk table"));
         }
 
         // Read the necessary compressed bytes into our internal buffer
@@ -309,6 +306,10 @@ impl<R: Read + Seek> crate::laszip::LazDecompressor for ParLasZipDecompressor<R>
     }
 }
 
+fn unexpected_eof(msg: &str) -> LasZipError {
+    LasZipError::IoError(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, msg))
+}
+
 /// Decompresses all points from the buffer in parallel.
 ///
 /// Each chunk is sent for decompression in a thread.
@@ -336,7 +337,9 @@ pub fn par_decompress_buffer(
         .map(|entry| entry.byte_count as usize)
         .sum::<usize>();
 
-    let compressed_points = &compressed_points_data[std::mem::size_of::<i64>()..num_point_bytes];
+    let compressed_points = compressed_points_data[std::mem::size_of::<i64>()..]
+        .get(..num_point_bytes)
+        .ok_or_else(|| unexpected_eof("the chunks end after the data"))?;
     par_decompress(
         compressed_points,
         decompressed_points,
@@ -360,9 +363,22 @@ pub fn par_decompress_selective(
 ) -> crate::Result<()> {
     use crate::byteslice::ChunksIrregular;
     let sizes = chunk_table.iter().map(|entry| entry.byte_count as usize);
+    if sizes.clone().sum::<usize>() > compressed_points.len() {
+        return Err(unexpected_eof("the chunks end after the data"));
+    }
+    // There may be more points in the chunks than the output can hold
+    let mut room = decompressed_points.len();
     let counts = chunk_table
         .iter()
-        .map(|entry| (entry.point_count * laz_vlr.items_size()) as usize);
+        .map(|entry| {
+            let count = room.min((entry.point_count * laz_vlr.items_size()) as usize);
+            room -= count;
+            count
+        })
+        .collect::<Vec<usize>>();
+    if room != 0 {
+        return Err(unexpected_eof("not enough points in the chunk table"));
+    }
     let input_chunks_iter = ChunksIrregular::new(compressed_points, sizes);
     let output_chunks_iter = ChunksIrregularMut::new(decompressed_points, counts);
 
-- 
2.43.0


From 693543c6e52563d6dd438e0801c38dfed8f32a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:38 +0000
Subject: [PATCH 21/44] fix: parallel writer: reserve an invalid offset to the
 chunk table

---
 src/laszip/parallel/compression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 2df9bd6..828b05f 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -85,7 +85,8 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
     /// [done]: Self::done
     pub fn reserve_offset_to_chunk_table(&mut self) -> std::io::Result<()> {
         self.table_offset = self.dest.seek(SeekFrom::Current(0))? as i64;
-        self.dest.write_i64::<LittleEndian>(self.table_offset)
+        // Not a valid offset, until done is called
+        self.dest.write_i64::<LittleEndian>(-1)
     }
 
     /// Compresses many points using multiple threads.
@@ -285,7 +286,7 @@ pub fn par_compress_buffer<W: Write + Seek>(
 ) -> crate::Result<()> {
     let start_pos = dst.seek(SeekFrom::Current(0))?;
     // Reserve the bytes for the chunk table offset that will be updated later
-    dst.write_i64::<LittleEndian>(start_pos as i64)?;
+    dst.write_i64::<LittleEndian>(-1)?;
 
     let chunk_table = par_compress(dst, uncompressed_points, laz_vlr)?;
 
-- 
2.43.0


From 054cf64838e5f07df6e43fceb55460105790cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 22/44] fix: appenders: accept a number of points of zero, or
 higher than the actual one

---
 src/laszip/sequential/appender.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index d4366a8..0dfcd85 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -42,7 +42,7 @@ where
     let mut data_to_recompress = vec![];
     if !chunk_table.is_empty() {
         let (chunk_index, chunk_start_pos) = chunk_table
-            .chunk_of_point(point_count - 1)
+            .chunk_of_point(point_count.saturating_sub(1))
             .unwrap_or_else(|| {
                 (
                     chunk_table.len() - 1,
@@ -58,11 +58,13 @@ where
             .sum::<u64>();
         // This cannot overflow as with the chunk_index will be the last known chunk
         // if point_count was out of count
-        let mut points_to_read = point_count - points_before_chunk;
+        let mut points_to_read =
+            (point_count - points_before_chunk).min(chunk_table[chunk_index].point_count);
 
         if !vlr.uses_variable_size_chunks()
             && chunk_index == chunk_table.len() - 1
             && points_to_read == 0
+            && point_count != 0
         {
             // If we are here, that means we should skip the chunk
             // but, we chose not to completely trust the point count we received
-- 
2.43.0


From 2451a42db46084d36a5003367e91bb45881a95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:34 +0000
Subject: [PATCH 23/44] fix: appenders: write one chunk table, which describes
 all the chunks

---
 src/laszip/parallel/appender.rs      | 31 +++-----------------
 src/laszip/parallel/compression.rs   | 26 ++++++++++------
 src/laszip/sequential/appender.rs    | 44 ++++++----------------------
 src/laszip/sequential/compression.rs | 22 ++++++++------
 4 files changed, 43 insertions(+), 80 deletions(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index 1d1fd01..c838f52 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -1,12 +1,10 @@
 use crate::laszip::sequential::appender::prepare_compressor_for_appending;
-use crate::laszip::ChunkTable;
 use crate::{LazVlr, ParLasZipCompressor};
 use rayon::iter::IntoParallelIterator;
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{Read, Seek, Write};
 
 /// Struct that handles appending compressed points to a LAZ file in parallel
 pub struct ParLasZipAppender<W> {
-    saved_chunk_table: ChunkTable,
     compressor: ParLasZipCompressor<W>,
 }
 
@@ -16,18 +14,15 @@ where
 {
     /// data must be positioned at the start of point data
     pub fn new(data: W, vlr: LazVlr, point_count: u64) -> crate::Result<Self> {
-        let (compressor, chunk_table) = prepare_compressor_for_appending(
+        let compressor = prepare_compressor_for_appending(
             data,
             vlr,
             point_count,
             ParLasZipCompressor::new,
-            ParLasZipCompressor::get_mut,
+            ParLasZipCompressor::resume,
         )?;
 
-        Ok(Self {
-            saved_chunk_table: chunk_table,
-            compressor,
-        })
+        Ok(Self { compressor })
     }
 
     /// Tells the compressor that no more points will be compressed
@@ -37,24 +32,6 @@ where
     /// - update the offset to the chunk_table
     pub fn done(&mut self) -> crate::Result<()> {
         self.compressor.done()?;
-
-        // The compressor wrote a chunk table that only corresponds to added chunks
-        // We have to write the chunk table that also have the original chunks
-
-        // 1. Get position of chunk table
-        let pos = self.compressor.chunk_table_position_offset() as u64;
-        self.compressor.get_mut().seek(SeekFrom::Start(pos))?;
-        let (_, chunk_table_pos) = ChunkTable::read_offset(self.compressor.get_mut())?
-            .expect("Somehow, the chunk table was not written");
-
-        self.saved_chunk_table.extend(self.compressor.chunk_table());
-
-        // 2 .Overwrite with the correct chunk table
-        let write_point_count = self.compressor.vlr().uses_variable_size_chunks();
-        let dest = self.compressor.get_mut();
-        dest.seek(SeekFrom::Start(chunk_table_pos))?;
-        self.saved_chunk_table.write(dest, write_point_count)?;
-
         Ok(())
     }
 
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 828b05f..3bba2aa 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -222,15 +222,23 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         &self.dest
     }
 
-    /// Returns the position in the file where the offset to chunk
-    /// table is.
-    pub(crate) fn chunk_table_position_offset(&self) -> i64 {
-        self.table_offset
-    }
-
-    /// Returns the current chunk table
-    pub(crate) fn chunk_table(&self) -> &ChunkTable {
-        &self.chunk_table
+    /// Goes on after the chunks of the given table, which are already written,
+    /// the next chunk starts with the given points.
+    ///
+    /// The offset to the chunk table must be reserved.
+    pub(super) fn resume(
+        &mut self,
+        chunk_table: ChunkTable,
+        next_chunk_points: &[u8],
+    ) -> std::io::Result<()> {
+        let num_bytes = chunk_table.chunk_position(chunk_table.len()).unwrap();
+        self.dest.seek(SeekFrom::Current(num_bytes as i64))?;
+        self.chunk_table = chunk_table;
+        if self.vlr.uses_variable_size_chunks() {
+            self.compress_chunks([next_chunk_points])
+        } else {
+            self.compress_many(next_chunk_points)
+        }
     }
 }
 
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index 0dfcd85..c6f7e54 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -20,12 +20,12 @@ pub(crate) fn prepare_compressor_for_appending<W, F, F2, Compressor>(
     vlr: LazVlr,
     point_count: u64,
     compressor_creator: F,
-    get_mut_dest_of_compressor: F2,
-) -> crate::Result<(Compressor, ChunkTable)>
+    resume: F2,
+) -> crate::Result<Compressor>
 where
     W: Write + Read + Seek + Sync,
     F: FnOnce(W, LazVlr) -> crate::Result<Compressor>,
-    F2: FnOnce(&mut Compressor) -> &mut W,
+    F2: FnOnce(&mut Compressor, ChunkTable, &[u8]) -> std::io::Result<()>,
     Compressor: LazCompressor,
 {
     // Technically we could support PointWise compressor
@@ -100,19 +100,14 @@ where
     // Explicitly reserve the offset so that the compressor knows where the
     // offset is.
     compressor.reserve_offset_to_chunk_table()?;
-    let last_chunk_pos = chunk_table.chunk_position(chunk_table.len()).unwrap();
-    get_mut_dest_of_compressor(&mut compressor).seek(SeekFrom::Current(last_chunk_pos as i64))?;
-    // Rewrite the last chunk we read
-    if !data_to_recompress.is_empty() {
-        compressor.compress_many(&data_to_recompress)?;
-    }
+    // Go on after the chunks we keep, and rewrite the last chunk we read
+    resume(&mut compressor, chunk_table, &data_to_recompress)?;
 
-    Ok((compressor, chunk_table))
+    Ok(compressor)
 }
 
 /// Struct that handles appending compressed points to a LAZ file.
 pub struct LasZipAppender<'a, W: Write + Send + 'a> {
-    saved_chunk_table: ChunkTable,
     compressor: LasZipCompressor<'a, W>,
 }
 
@@ -122,18 +117,15 @@ where
 {
     /// data must be positioned at the start of point data
     pub fn new(data: W, vlr: LazVlr, point_count: u64) -> crate::Result<Self> {
-        let (compressor, chunk_table) = prepare_compressor_for_appending(
+        let compressor = prepare_compressor_for_appending(
             data,
             vlr,
             point_count,
             LasZipCompressor::new,
-            LasZipCompressor::get_mut,
+            LasZipCompressor::resume,
         )?;
 
-        Ok(Self {
-            saved_chunk_table: chunk_table,
-            compressor,
-        })
+        Ok(Self { compressor })
     }
 
     /// Tells the compressor that no more points will be compressed
@@ -143,24 +135,6 @@ where
     /// - update the offset to the chunk_table
     pub fn done(&mut self) -> crate::Result<()> {
         self.compressor.done()?;
-
-        // The compressor wrote a chunk table that only corresponds to added chunks
-        // We have to write the chunk table that also have the original chunks
-
-        // 1. Get position of chunk table
-        let pos = self.compressor.chunk_table_position_offset() as u64;
-        self.compressor.get_mut().seek(SeekFrom::Start(pos))?;
-        let (_, chunk_table_pos) = ChunkTable::read_offset(self.compressor.get_mut())?
-            .expect("Somehow, the chunk table was not written");
-
-        self.saved_chunk_table.extend(self.compressor.chunk_table());
-
-        // 2 .Overwrite with the correct chunk table
-        let write_point_count = self.compressor.vlr().uses_variable_size_chunks();
-        let dest = self.compressor.get_mut();
-        dest.seek(SeekFrom::Start(chunk_table_pos))?;
-        self.saved_chunk_table.write(dest, write_point_count)?;
-
         Ok(())
     }
 
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 5931cfe..cd9cbf1 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -202,15 +202,19 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         self.record_compressor.get()
     }
 
-    /// Returns the position in the file where the offset to chunk
-    /// table is.
-    pub(crate) fn chunk_table_position_offset(&self) -> i64 {
-        self.start_pos as i64
-    }
-
-    /// Returns the current chunk table
-    pub(crate) fn chunk_table(&self) -> &ChunkTable {
-        &self.chunk_table
+    /// Goes on after the chunks of the given table, which are already written,
+    /// the current chunk starts with the given points.
+    ///
+    /// The offset to the chunk table must be reserved.
+    pub(super) fn resume(
+        &mut self,
+        chunk_table: ChunkTable,
+        current_chunk_points: &[u8],
+    ) -> std::io::Result<()> {
+        let num_bytes = chunk_table.chunk_position(chunk_table.len()).unwrap();
+        self.chunk_start_pos = self.get_mut().seek(SeekFrom::Current(num_bytes as i64))?;
+        self.chunk_table = chunk_table;
+        self.compress_many(current_chunk_points)
     }
 
     #[inline]
-- 
2.43.0


From cb98de865a03ea40144da20fa6dddf4412cf9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 24/44] fix: chunk table: do not trust the number of chunks to
 allocate memory

---
 src/laszip/chunk_table.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index 9b1a79e..66ee62b 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -151,7 +151,8 @@ impl ChunkTable {
         let mut decoder = ArithmeticDecoder::new(&mut src);
         decoder.read_init_bytes()?;
 
-        let mut chunk_table = ChunkTable::with_capacity(number_of_chunks as usize);
+        // The number of chunks may be wrong, do not allocate memory for entries not yet read
+        let mut chunk_table = ChunkTable::with_capacity(number_of_chunks.min(65_536) as usize);
         let mut previous_entry = ChunkTableEntry::default();
         for _ in 1..=number_of_chunks {
             let mut current_entry = ChunkTableEntry {
-- 
2.43.0


From e807531639cf9f9a2c6f5f472912a86a439ced7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 25/44] fix: file header: number of extra bytes of all point
 formats

---
 src/las/file.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index 49e3aa0..de64605 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -57,14 +57,19 @@ impl QuickHeader {
     }
 
     pub fn num_extra_bytes(&self) -> u16 {
-        let point_size_wo_extra = match self.point_format_id {
+        let point_format_id = point_format_id_compressed_to_uncompressd(self.point_format_id);
+        let point_size_wo_extra = match point_format_id {
             0 => 20,
             1 => 28,
             2 => 26,
             3 => 34,
+            4 => 57,
+            5 => 63,
             6 => 30,
             7 => 36,
             8 => 38,
+            9 => 59,
+            10 => 67,
             _ => panic!("Unknown fmt id"),
         };
 
-- 
2.43.0


From fb716a45d50cde97b8e4831ab3c26f5a2d8d1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:22 +0000
Subject: [PATCH 26/44] fix: refuse items with nothing to compress or with
 wrong sizes

---
 src/laszip/details.rs | 33 +++++++++++++++++++++++++++------
 src/laszip/vlr.rs     |  2 +-
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/laszip/details.rs b/src/laszip/details.rs
index 9448d03..a32cc5a 100644
--- a/src/laszip/details.rs
+++ b/src/laszip/details.rs
@@ -6,13 +6,36 @@ use crate::record::{
 };
 use crate::{LasZipError, LazItem};
 
+/// Checks that there is something to compress and that the items have the size they should.
+///
+/// Returns the first item.
+fn check_items(items: &Vec<LazItem>) -> crate::Result<&LazItem> {
+    let invalid = |msg| {
+        let error = std::io::Error::new(std::io::ErrorKind::InvalidData, msg);
+        Err(LasZipError::IoError(error))
+    };
+
+    let mut point_size = 0u16;
+    for item in items {
+        if item.size != item.item_type.size() {
+            return invalid("a LazItem does not have the size of its type");
+        }
+        point_size = match point_size.checked_add(item.size) {
+            Some(point_size) => point_size,
+            None => return invalid("the LazItems are too big"),
+        };
+    }
+    match items.first() {
+        Some(first_item) if point_size != 0 => Ok(first_item),
+        _ => invalid("there is no LazItem to compress"),
+    }
+}
+
 pub(super) fn record_decompressor_from_laz_items<'a, R: Read + Seek + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     input: R,
 ) -> crate::Result<Box<dyn RecordDecompressor<R> + Send + Sync + 'a>> {
-    let first_item = items
-        .get(0)
-        .expect("There should be at least one LazItem to be able to create a RecordDecompressor");
+    let first_item = check_items(items)?;
 
     let mut decompressor = match first_item.version {
         1 | 2 => {
@@ -39,9 +62,7 @@ pub(super) fn record_compressor_from_laz_items<'a, W: Write + Send + Sync + 'a>(
     items: &Vec<LazItem>,
     output: W,
 ) -> crate::Result<Box<dyn RecordCompressor<W> + Send + Sync + 'a>> {
-    let first_item = items
-        .get(0)
-        .expect("There should be at least one LazItem to be able to create a RecordCompressor");
+    let first_item = check_items(items)?;
 
     let mut compressor = match first_item.version {
         1 | 2 => {
diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index 3c2d58c..7eb9e99 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -89,7 +89,7 @@ impl LazItemType {
         }
     }
 
-    fn size(&self) -> u16 {
+    pub(super) fn size(&self) -> u16 {
         match self {
             LazItemType::Byte(size) => *size,
             LazItemType::Point10 => Point0::SIZE as u16,
-- 
2.43.0


From 74a04c13d94f80b36f074364beb4edf77022cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 27/44] fix: parallel reader and writer: return errors for
 unsupported items

---
 src/laszip/parallel/compression.rs   | 6 ++++--
 src/laszip/parallel/decompression.rs | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 3bba2aa..51c9f1f 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -60,6 +60,8 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         {
             return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
         }
+        // Refuse now the items we could not compress
+        record_compressor_from_laz_items(vlr.items(), std::io::sink())?;
 
         let mut rest = Vec::<u8>::new();
         if let DecompressedChunkSize::Fixed { num_bytes } = vlr.num_bytes_in_decompressed_chunk() {
@@ -315,7 +317,6 @@ pub fn par_compress<W: Write>(
     uncompressed_points: &[u8],
     laz_vlr: &LazVlr,
 ) -> crate::Result<ChunkTable> {
-    debug_assert!(!laz_vlr.uses_variable_size_chunks());
     debug_assert_eq!(uncompressed_points.len() % laz_vlr.items_size() as usize, 0);
 
     let point_size = laz_vlr.items_size() as usize;
@@ -381,7 +382,8 @@ fn compress_one_chunk<W: Write + Seek + Send + Sync>(
 ) -> std::io::Result<u64> {
     let start = dest.seek(SeekFrom::Current(0))?;
     {
-        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest).unwrap();
+        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest)
+            .map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
         compressor.compress_many(chunk_data)?;
         compressor.done()?;
     }
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 5c4ef90..07b7e4b 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -59,6 +59,8 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         {
             return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
         }
+        // Refuse now the items we could not decompress
+        record_decompressor_from_laz_items(vlr.items(), std::io::empty())?;
         let chunk_table = ChunkTable::read_from(&mut source, &vlr)?;
         let start_of_data = source.seek(SeekFrom::Current(0))?;
         let biggest_chunk = chunk_table
-- 
2.43.0


From 447b3a53b46f309b7086036d9d304701d4c4efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 28/44] fix: refuse fixed-size chunks of zero points and
 records without items

---
 src/laszip/details.rs                  | 13 ++++++++++++-
 src/laszip/parallel/compression.rs     | 13 ++++++++++---
 src/laszip/parallel/decompression.rs   |  5 ++++-
 src/laszip/sequential/compression.rs   |  6 +++++-
 src/laszip/sequential/decompression.rs |  5 ++++-
 5 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/laszip/details.rs b/src/laszip/details.rs
index a32cc5a..01ac141 100644
--- a/src/laszip/details.rs
+++ b/src/laszip/details.rs
@@ -4,7 +4,18 @@ use crate::record::{
     LayeredPointRecordCompressor, LayeredPointRecordDecompressor, RecordCompressor,
     RecordDecompressor, SequentialPointRecordCompressor, SequentialPointRecordDecompressor,
 };
-use crate::{LasZipError, LazItem};
+use crate::{LasZipError, LazItem, LazVlr};
+
+/// Checks that chunks can have points.
+pub(super) fn check_chunk_size(vlr: &LazVlr) -> crate::Result<()> {
+    if vlr.chunk_size() == 0 {
+        return Err(LasZipError::IoError(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "chunks cannot have a fixed size of zero",
+        )));
+    }
+    Ok(())
+}
 
 /// Checks that there is something to compress and that the items have the size they should.
 ///
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 51c9f1f..189d810 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -4,7 +4,7 @@ use byteorder::{LittleEndian, WriteBytesExt};
 use rayon::prelude::*;
 
 use crate::laszip::chunk_table::{update_chunk_table_offset, ChunkTable, ChunkTableEntry};
-use crate::laszip::details::record_compressor_from_laz_items;
+use crate::laszip::details::{check_chunk_size, record_compressor_from_laz_items};
 use crate::laszip::{CompressorType, DecompressedChunkSize};
 use crate::{LasZipError, LazVlr};
 
@@ -60,8 +60,9 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         {
             return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
         }
-        // Refuse now the items we could not compress
+        // Refuse now what we could not compress
         record_compressor_from_laz_items(vlr.items(), std::io::sink())?;
+        check_chunk_size(&vlr)?;
 
         let mut rest = Vec::<u8>::new();
         if let DecompressedChunkSize::Fixed { num_bytes } = vlr.num_bytes_in_decompressed_chunk() {
@@ -317,7 +318,13 @@ pub fn par_compress<W: Write>(
     uncompressed_points: &[u8],
     laz_vlr: &LazVlr,
 ) -> crate::Result<ChunkTable> {
-    debug_assert_eq!(uncompressed_points.len() % laz_vlr.items_size() as usize, 0);
+    debug_assert_eq!(
+        uncompressed_points.len() % laz_vlr.items_size().max(1) as usize,
+        0
+    );
+
+    record_compressor_from_laz_items(laz_vlr.items(), std::io::sink())?;
+    check_chunk_size(laz_vlr)?;
 
     let point_size = laz_vlr.items_size() as usize;
     let points_per_chunk = laz_vlr.chunk_size() as usize;
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 07b7e4b..4e06577 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -329,7 +329,10 @@ pub fn par_decompress_buffer(
     decompressed_points: &mut [u8],
     laz_vlr: &LazVlr,
 ) -> crate::Result<()> {
-    debug_assert_eq!(decompressed_points.len() % laz_vlr.items_size() as usize, 0);
+    debug_assert_eq!(
+        decompressed_points.len() % laz_vlr.items_size().max(1) as usize,
+        0
+    );
     let mut cursor = std::io::Cursor::new(compressed_points_data);
     let chunk_table = ChunkTable::read_from(&mut cursor, &laz_vlr)?;
 
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index cd9cbf1..14c122f 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -61,6 +61,7 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
             return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
         }
 
+        details::check_chunk_size(&vlr)?;
         let record_compressor = details::record_compressor_from_laz_items(&vlr.items(), output)?;
         Ok(Self {
             vlr,
@@ -300,7 +301,10 @@ pub fn compress_buffer<W: Write + Seek + Send + Sync>(
     uncompressed_points: &[u8],
     laz_vlr: LazVlr,
 ) -> crate::Result<()> {
-    debug_assert_eq!(uncompressed_points.len() % laz_vlr.items_size() as usize, 0);
+    debug_assert_eq!(
+        uncompressed_points.len() % laz_vlr.items_size().max(1) as usize,
+        0
+    );
     let mut compressor = LasZipCompressor::new(dst, laz_vlr)?;
     compressor.compress_many(uncompressed_points)?;
     compressor.done()?;
diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 29e73ef..2338229 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -389,7 +389,10 @@ pub fn decompress_buffer(
     decompressed_points: &mut [u8],
     laz_vlr: LazVlr,
 ) -> crate::Result<()> {
-    debug_assert_eq!(decompressed_points.len() % laz_vlr.items_size() as usize, 0);
+    debug_assert_eq!(
+        decompressed_points.len() % laz_vlr.items_size().max(1) as usize,
+        0
+    );
     let src = std::io::Cursor::new(compressed_points_data);
     LasZipDecompressor::new(src, laz_vlr).and_then(|mut decompressor| {
         decompressor.decompress_many(decompressed_points)?;
-- 
2.43.0


From f101b673679ba79a7aed11cc0c1ebc62eea589fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 29/44] fix: sequential reader: error instead of a panic for
 layered chunks without layers

---
 src/laszip/sequential/decompression.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 2338229..a24fab7 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -183,9 +183,11 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 self.num_points_in_chunk = match &self.seek_info {
                     Some(seek_info) => seek_info.chunk_table[self.current_chunk].point_count,
                     None => {
-                        // This should not be possible, the `new` method should ensure
-                        // we have the chunk table if we need one
-                        panic!("Variable-size chunks, but no chunk table");
+                        // The compressor is said to be layered, but the items are not
+                        return Err(std::io::Error::new(
+                            std::io::ErrorKind::InvalidData,
+                            "Variable-size chunks, but no chunk table",
+                        ));
                     }
                 }
             } else if self.vlr.compressor == CompressorType::PointWise {
-- 
2.43.0


From 5cfe8523245a55ac5716dc8685b800e0a020e7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 30/44] fix: items: the wave packets of point formats 4 and 5
 only have a version 1

---
 src/laszip/vlr.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index 7eb9e99..d5e1d8e 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -110,7 +110,7 @@ impl LazItemType {
             LazItemType::Point10 => 2,
             LazItemType::GpsTime => 2,
             LazItemType::RGB12 => 2,
-            LazItemType::WavePacket13 => 2,
+            LazItemType::WavePacket13 => 1,
             LazItemType::Point14 => 3,
             LazItemType::RGB14 => 3,
             LazItemType::RGBNIR14 => 3,
@@ -152,6 +152,11 @@ pub struct LazItem {
 impl LazItem {
     pub(crate) fn new(item_type: LazItemType, version: u16) -> Self {
         let size = item_type.size();
+        let version = match item_type {
+            // The only version that exists, other software refuses the version 2
+            LazItemType::WavePacket13 => 1,
+            _ => version,
+        };
         Self {
             item_type,
             size,
-- 
2.43.0


From d5d71e88c342b2376906918fe80292af9137b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 31/44] fix: refuse unsupported compressors in the parallel
 one-shot functions

---
 src/laszip/details.rs                | 11 +++++++++++
 src/laszip/parallel/compression.rs   |  5 ++++-
 src/laszip/parallel/decompression.rs |  3 ++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/laszip/details.rs b/src/laszip/details.rs
index 01ac141..02fd1f2 100644
--- a/src/laszip/details.rs
+++ b/src/laszip/details.rs
@@ -1,11 +1,22 @@
 use std::io::{Read, Seek, Write};
 
+use crate::laszip::CompressorType;
 use crate::record::{
     LayeredPointRecordCompressor, LayeredPointRecordDecompressor, RecordCompressor,
     RecordDecompressor, SequentialPointRecordCompressor, SequentialPointRecordDecompressor,
 };
 use crate::{LasZipError, LazItem, LazVlr};
 
+/// Checks that the vlr describes chunks that can be handled independently.
+pub(super) fn check_is_chunked(vlr: &LazVlr) -> crate::Result<()> {
+    if vlr.compressor != CompressorType::PointWiseChunked
+        && vlr.compressor != CompressorType::LayeredChunked
+    {
+        return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
+    }
+    Ok(())
+}
+
 /// Checks that chunks can have points.
 pub(super) fn check_chunk_size(vlr: &LazVlr) -> crate::Result<()> {
     if vlr.chunk_size() == 0 {
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 189d810..ef07d7e 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -4,7 +4,9 @@ use byteorder::{LittleEndian, WriteBytesExt};
 use rayon::prelude::*;
 
 use crate::laszip::chunk_table::{update_chunk_table_offset, ChunkTable, ChunkTableEntry};
-use crate::laszip::details::{check_chunk_size, record_compressor_from_laz_items};
+use crate::laszip::details::{
+    check_chunk_size, check_is_chunked, record_compressor_from_laz_items,
+};
 use crate::laszip::{CompressorType, DecompressedChunkSize};
 use crate::{LasZipError, LazVlr};
 
@@ -323,6 +325,7 @@ pub fn par_compress<W: Write>(
         0
     );
 
+    check_is_chunked(laz_vlr)?;
     record_compressor_from_laz_items(laz_vlr.items(), std::io::sink())?;
     check_chunk_size(laz_vlr)?;
 
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 4e06577..54cde16 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -5,7 +5,7 @@ use rayon::prelude::*;
 use crate::byteslice::ChunksIrregularMut;
 use crate::las::selective::DecompressionSelection;
 use crate::laszip::chunk_table::{ChunkTable, ChunkTableEntry};
-use crate::laszip::details::record_decompressor_from_laz_items;
+use crate::laszip::details::{check_is_chunked, record_decompressor_from_laz_items};
 use crate::laszip::CompressorType;
 use crate::{LasZipError, LazVlr};
 
@@ -333,6 +333,7 @@ pub fn par_decompress_buffer(
         decompressed_points.len() % laz_vlr.items_size().max(1) as usize,
         0
     );
+    check_is_chunked(laz_vlr)?;
     let mut cursor = std::io::Cursor::new(compressed_points_data);
     let chunk_table = ChunkTable::read_from(&mut cursor, &laz_vlr)?;
 
-- 
2.43.0


From ee415fb24848d837c49c200e83a2471897192e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 32/44] fix: file reader: return errors instead of panicking

---
 src/las/file.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index de64605..641caf3 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -9,6 +9,7 @@ use std::io::{Read, Seek, SeekFrom};
 use byteorder::{LittleEndian, ReadBytesExt};
 
 use crate::laszip::{LasZipDecompressor, LazVlr};
+use crate::LasZipError;
 
 /// LAS header with only the minimum information
 /// to be able to read points contained in a LAS file.
@@ -112,17 +113,28 @@ impl Vlr {
 }
 
 pub fn read_vlrs_and_get_laszip_vlr<R: Read>(src: &mut R, header: &QuickHeader) -> Option<LazVlr> {
+    read_laszip_vlr(src, header).unwrap()
+}
+
+fn read_laszip_vlr<R: Read>(src: &mut R, header: &QuickHeader) -> std::io::Result<Option<LazVlr>> {
     let mut laszip_vlr = None;
     for _i in 0..header.num_vlrs {
-        let vlr = Vlr::read_from(src).unwrap();
+        let vlr = Vlr::read_from(src)?;
         if vlr.record_id == 22204
             && String::from_utf8_lossy(&vlr.user_id).trim_end_matches(|c| c as u8 == 0)
                 == "laszip encoded"
         {
-            laszip_vlr = Some(LazVlr::read_from(vlr.data.as_slice()).unwrap());
+            laszip_vlr = Some(LazVlr::read_from(vlr.data.as_slice()).map_err(into_io_error)?);
         }
     }
-    laszip_vlr
+    Ok(laszip_vlr)
+}
+
+fn into_io_error(err: LasZipError) -> std::io::Error {
+    match err {
+        LasZipError::IoError(err) => err,
+        err => std::io::Error::new(std::io::ErrorKind::InvalidData, err),
+    }
 }
 
 pub fn read_header_and_vlrs<R: Read + Seek>(
@@ -130,7 +142,7 @@ pub fn read_header_and_vlrs<R: Read + Seek>(
 ) -> std::io::Result<(QuickHeader, Option<LazVlr>)> {
     let hdr = QuickHeader::read_from(src)?;
     src.seek(SeekFrom::Start(hdr.header_size as u64))?;
-    let laz_vlr = read_vlrs_and_get_laszip_vlr(src, &hdr);
+    let laz_vlr = read_laszip_vlr(src, &hdr)?;
     src.seek(SeekFrom::Start(hdr.offset_to_points as u64))?;
     Ok((hdr, laz_vlr))
 }
@@ -179,17 +191,17 @@ impl<'a> SimpleReader<'a> {
     pub fn new<R: Read + Seek + Send + Sync + 'a>(mut src: R) -> std::io::Result<Self> {
         let mut header = QuickHeader::read_from(&mut src)?;
         src.seek(SeekFrom::Start(header.header_size as u64))?;
-        let laszip_vlr = read_vlrs_and_get_laszip_vlr(&mut src, &header);
+        let laszip_vlr = read_laszip_vlr(&mut src, &header)?;
         src.seek(SeekFrom::Start(header.offset_to_points as u64))?;
         let point_reader: Box<dyn LasPointReader> =
             if is_point_format_compressed(header.point_format_id) {
-                Box::new(
-                    LasZipDecompressor::new(
-                        src,
-                        laszip_vlr.expect("Compressed data, but no Laszip Vlr found"),
+                let laszip_vlr = laszip_vlr.ok_or_else(|| {
+                    std::io::Error::new(
+                        std::io::ErrorKind::InvalidData,
+                        "Compressed data, but no Laszip Vlr found",
                     )
-                    .unwrap(),
-                )
+                })?;
+                Box::new(LasZipDecompressor::new(src, laszip_vlr).map_err(into_io_error)?)
             } else {
                 Box::new(RawPointReader { src })
             };
-- 
2.43.0


From 5e07bc51aa3ecb2285a73bcea83486fe450be354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 33/44] fix: arithmetic decoder: return an error on bytes no
 encoder can produce

---
 src/decoders.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/decoders.rs b/src/decoders.rs
index d557ad9..bfd77af 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -99,6 +99,14 @@ pub const AC_MAX_LENGTH: u32 = 0xFFFF_FFFF;
 // maximum AC interval length
 pub const AC_MIN_LENGTH: u32 = 0x0100_0000;
 
+/// The bytes are not the ones of an arithmetic encoder
+fn invalid_data() -> std::io::Error {
+    std::io::Error::new(
+        std::io::ErrorKind::InvalidData,
+        "The data is not valid arithmetic coded data",
+    )
+}
+
 pub struct ArithmeticDecoder<T: Read> {
     in_stream: T,
     value: u32,
@@ -125,6 +133,10 @@ impl<T: Read> ArithmeticDecoder<T> {
 
         self.value =
             u32::from(v[0]) << 24 | u32::from(v[1]) << 16 | u32::from(v[2]) << 8 | u32::from(v[3]);
+        // The value is always inside of the interval, no encoder produces these bytes
+        if self.value >= self.length {
+            return Err(invalid_data());
+        }
         Ok(())
     }
 
@@ -233,6 +245,9 @@ impl<T: Read> ArithmeticDecoder<T> {
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
+        if sym >= (1 << 1) {
+            return Err(invalid_data());
+        }
         Ok(sym)
     }
 
@@ -254,6 +269,9 @@ impl<T: Read> ArithmeticDecoder<T> {
             if self.length < AC_MIN_LENGTH {
                 self.renorm_dec_interval()?;
             }
+            if sym >= (1 << bits) {
+                return Err(invalid_data());
+            }
             Ok(sym)
         }
     }
@@ -268,7 +286,9 @@ impl<T: Read> ArithmeticDecoder<T> {
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 8));
+        if sym >= (1 << 8) {
+            return Err(invalid_data());
+        }
         Ok(sym as u8)
     }
 
@@ -281,7 +301,9 @@ impl<T: Read> ArithmeticDecoder<T> {
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 16));
+        if sym >= (1 << 16) {
+            return Err(invalid_data());
+        }
         Ok(sym as u16)
     }
 
-- 
2.43.0


From 310a4ffdfd1675706f48a466d8d3f967cd1ace4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 34/44] fix: layers: do not allocate memory for bytes that do
 not exist

---
 src/las/utils.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/las/utils.rs b/src/las/utils.rs
index fe31a2b..9b1e7a6 100644
--- a/src/las/utils.rs
+++ b/src/las/utils.rs
@@ -174,8 +174,12 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
     let inner_vec = decoder.get_mut().get_mut();
     if is_requested {
         if num_bytes > 0 {
-            inner_vec.resize(num_bytes, 0);
-            src.read_exact(&mut inner_vec[..num_bytes])?;
+            // The size may be wrong, do not allocate memory for bytes that may not exist
+            inner_vec.clear();
+            src.take(num_bytes as u64).read_to_end(inner_vec)?;
+            if inner_vec.len() != num_bytes {
+                return Err(std::io::ErrorKind::UnexpectedEof.into());
+            }
             decoder.read_init_bytes()?;
             Ok(true)
         } else {
@@ -188,8 +192,10 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
                 // This is mainly to accommodate python bindings,
                 // where the stream might not be seekable and return an error
                 // so we instead try to read data to skip it
-                let mut unused_data = vec![0u8; num_bytes];
-                src.read_exact(unused_data.as_mut_slice())?;
+                let skipped = std::io::copy(&mut src.take(num_bytes as u64), &mut std::io::sink())?;
+                if skipped != num_bytes as u64 {
+                    return Err(std::io::ErrorKind::UnexpectedEof.into());
+                }
             }
         }
         Ok(false)
-- 
2.43.0


From 87f6f730db5200159cab17dd55f4398e36f2bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 35/44] fix: do not trust a chunk table that is not located
 right after its chunks

---
 src/laszip/chunk_table.rs              | 63 +++++++++++++++-----------
 src/laszip/parallel/decompression.rs   |  4 +-
 src/laszip/sequential/appender.rs      |  2 +-
 src/laszip/sequential/decompression.rs |  2 +-
 4 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index 66ee62b..0853e60 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -58,12 +58,28 @@ impl ChunkTable {
     ///
     /// For `variable-size` chunks the `point_count` of each entry is the one read
     /// from the source.
-    pub fn read_from<R: Read + Seek>(mut src: R, vlr: &LazVlr) -> crate::Result<Self> {
-        if vlr.uses_variable_size_chunks() {
-            ChunkTable::read_as_variably_sized(&mut src)
-        } else {
-            ChunkTable::read_as_fixed_size(&mut src, vlr.chunk_size().into())
+    pub fn read_from<R: Read + Seek>(src: R, vlr: &LazVlr) -> crate::Result<Self> {
+        Self::read_located(src, vlr).map(|(_, _, chunk_table)| chunk_table)
+    }
+
+    /// Reads the chunk table from the source, and checks that it directly follows the chunks
+    /// it describes, as any chunk table does.
+    ///
+    /// When the writing of the source was interrupted, what looks like an offset
+    /// may be anything.
+    ///
+    /// Moves the `src` just like [ChunkTable::read_from] does.
+    pub(crate) fn read_checked<R: Read + Seek>(src: R, vlr: &LazVlr) -> crate::Result<Self> {
+        let (start_of_chunks, chunk_table_start, chunk_table) = Self::read_located(src, vlr)?;
+        let size_of_chunks = chunk_table
+            .0
+            .iter()
+            .map(|entry| entry.byte_count)
+            .sum::<u64>();
+        if start_of_chunks + size_of_chunks != chunk_table_start {
+            return Err(LasZipError::MissingChunkTable);
         }
+        Ok(chunk_table)
     }
 
     /// Writes the chunk table to the `dst`.
@@ -71,34 +87,27 @@ impl ChunkTable {
         self.write(&mut dst, vlr.uses_variable_size_chunks())
     }
 
-    /// Reads the chunk table that contains both the `point_count` and `bytes_size`.
+    /// Reads the chunk table, as well as the position where the chunks start and
+    /// the position of the chunk table.
     ///
-    /// This of course will only give correct results if the chunk table stored in the source
-    /// contains both these information. Which is the case for **variable-sized** chunks.
-    fn read_as_variably_sized<R: Read + Seek>(mut src: R) -> crate::Result<Self> {
+    /// - For **variable-size** chunks, the source contains both
+    ///   the `point_count` and the `byte_count` of each chunk.
+    /// - For **fixed-size** chunks, the source only contains the `byte_count`,
+    ///   the `point_count` of each entry is the one of the `vlr`.
+    fn read_located<R: Read + Seek>(mut src: R, vlr: &LazVlr) -> crate::Result<(u64, u64, Self)> {
+        let contains_point_count = vlr.uses_variable_size_chunks();
         let (data_start, chunk_table_start) =
             Self::read_offset(&mut src)?.ok_or(LasZipError::MissingChunkTable)?;
         src.seek(SeekFrom::Start(chunk_table_start))?;
-        let chunk_table = Self::read(&mut src, true)?;
-        src.seek(SeekFrom::Start(data_start + 8))?;
-        Ok(chunk_table)
-    }
+        let mut chunk_table = Self::read(&mut src, contains_point_count)?;
+        let start_of_chunks = src.seek(SeekFrom::Start(data_start + Self::OFFSET_SIZE as u64))?;
 
-    /// Reads the chunk table that contains only `point_count`.
-    ///
-    /// This is for the case when chunks are  **fixed-size**.
-    /// Each chunk entry will have the given `point_count` as the point_count.
-    fn read_as_fixed_size<R: Read + Seek>(mut src: R, point_count: u64) -> crate::Result<Self> {
-        let (data_start, chunk_table_start) =
-            Self::read_offset(&mut src)?.ok_or(LasZipError::MissingChunkTable)?;
-        src.seek(SeekFrom::Start(chunk_table_start))?;
-        let mut chunk_table = Self::read(&mut src, false)?;
-        src.seek(SeekFrom::Start(data_start + 8))?;
-
-        for entry in &mut chunk_table.0 {
-            entry.point_count = point_count;
+        if !contains_point_count {
+            for entry in &mut chunk_table.0 {
+                entry.point_count = u64::from(vlr.chunk_size());
+            }
         }
-        Ok(chunk_table)
+        Ok((start_of_chunks, chunk_table_start, chunk_table))
     }
 
     /// Reads the offset to the chunk table.
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 54cde16..8fd8ca3 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -61,7 +61,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         }
         // Refuse now the items we could not decompress
         record_decompressor_from_laz_items(vlr.items(), std::io::empty())?;
-        let chunk_table = ChunkTable::read_from(&mut source, &vlr)?;
+        let chunk_table = ChunkTable::read_checked(&mut source, &vlr)?;
         let start_of_data = source.seek(SeekFrom::Current(0))?;
         let biggest_chunk = chunk_table
             .as_ref()
@@ -335,7 +335,7 @@ pub fn par_decompress_buffer(
     );
     check_is_chunked(laz_vlr)?;
     let mut cursor = std::io::Cursor::new(compressed_points_data);
-    let chunk_table = ChunkTable::read_from(&mut cursor, &laz_vlr)?;
+    let chunk_table = ChunkTable::read_checked(&mut cursor, &laz_vlr)?;
 
     let num_point_bytes = chunk_table
         .as_ref()
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index c6f7e54..d1698e5 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -37,7 +37,7 @@ where
     }
 
     let start_of_data = data.stream_position()?;
-    let mut chunk_table = ChunkTable::read_from(&mut data, &vlr)?;
+    let mut chunk_table = ChunkTable::read_checked(&mut data, &vlr)?;
 
     let mut data_to_recompress = vec![];
     if !chunk_table.is_empty() {
diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index a24fab7..02db1a6 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -21,7 +21,7 @@ impl SeekInfo {
         mut source: &mut T,
         vlr: &LazVlr,
     ) -> crate::Result<Self> {
-        let chunk_table = ChunkTable::read_from(&mut source, vlr)?;
+        let chunk_table = ChunkTable::read_checked(&mut source, vlr)?;
         let data_start = source.seek(SeekFrom::Current(0))?;
 
         Ok(Self {
-- 
2.43.0


From 7129eec123fa004ce11842cf72d97738b9464ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 36/44] fix: read point-wise streams whatever the chunk size of
 the LASzip record is

---
 src/laszip/sequential/decompression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 02db1a6..21bb23b 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -179,6 +179,9 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             if record_count != 0 {
                 // The chunk itself knows how many points it has
                 self.num_points_in_chunk = record_count;
+            } else if self.vlr.compressor == CompressorType::PointWise {
+                // There are no chunks, whatever their size is said to be
+                self.num_points_in_chunk = u64::MAX;
             } else if self.vlr.uses_variable_size_chunks() {
                 self.num_points_in_chunk = match &self.seek_info {
                     Some(seek_info) => seek_info.chunk_table[self.current_chunk].point_count,
@@ -190,8 +193,6 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                         ));
                     }
                 }
-            } else if self.vlr.compressor == CompressorType::PointWise {
-                self.num_points_in_chunk = u64::from(u32::MAX);
             } else {
                 self.num_points_in_chunk = u64::from(self.vlr.chunk_size());
             }
-- 
2.43.0


From da0d3d756d0c5dc7d267d9d22c1b484c9ad60287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 37/44] fix: parallel decompressor, appender: memory grows with
 the points, not with the chunk size

---
 src/laszip/parallel/decompression.rs | 22 ++++++----------------
 src/laszip/sequential/appender.rs    | 10 +++++-----
 src/record.rs                        | 22 +++++++++++++++-------
 3 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 8fd8ca3..59e9c2a 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -63,14 +63,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         record_decompressor_from_laz_items(vlr.items(), std::io::empty())?;
         let chunk_table = ChunkTable::read_checked(&mut source, &vlr)?;
         let start_of_data = source.seek(SeekFrom::Current(0))?;
-        let biggest_chunk = chunk_table
-            .as_ref()
-            .into_iter()
-            .map(|entry| entry.point_count)
-            .max()
-            .unwrap_or(0);
-        let vec = Vec::<u8>::with_capacity(biggest_chunk as usize);
-        let rest = std::io::Cursor::new(vec);
+        let rest = std::io::Cursor::new(vec![]);
 
         Ok(Self {
             source,
@@ -197,10 +190,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 if !vlr.uses_variable_size_chunks() && end_index == chunk_table_len {
                     // When fixed-size chunks are used, for the last chunk, the number of point
                     // is unknown, so we have to decompress it until an end of file appears
-                    rest.get_mut().resize(num_bytes_left, 0u8);
-                    let num_actually_decompressed =
-                        decompressor.decompress_until_end_of_file(rest.get_mut())?;
-                    rest.get_mut().resize(num_actually_decompressed, 0u8);
+                    decompressor.decompress_until_end_of_file(rest.get_mut(), num_bytes_left)?;
                 } else {
                     rest.get_mut().resize(num_bytes_left, 0u8);
                     decompressor.decompress_many(rest.get_mut())?;
@@ -255,7 +245,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 num_bytes_per_point,
             } => num_bytes_per_point * self.chunk_table[chunk_of_point].point_count as usize,
         };
-        let mut points = vec![0u8; num_bytes];
+        let mut points = vec![];
         let mut decompressor = record_decompressor_from_laz_items(
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
@@ -263,15 +253,15 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         decompressor.set_selection(self.selection);
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
         if is_last_chunk {
-            let num_bytes_decompressed = decompressor.decompress_until_end_of_file(&mut points)?;
-            points.truncate(num_bytes_decompressed);
-            let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
+            decompressor.decompress_until_end_of_file(&mut points, num_bytes)?;
+            let num_points_in_last_chunk = points.len() / self.vlr.items_size() as usize;
             if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
                 // Leave the rest empty to
                 // force EOF error on next decompression
                 return Ok(());
             }
         } else {
+            points.resize(num_bytes, 0u8);
             decompressor.decompress_many(&mut points)?;
         }
         *self.rest.get_mut() = points;
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index d1698e5..736af4c 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -83,11 +83,11 @@ where
             let mut decompressor =
                 record_decompressor_from_laz_items(vlr.items(), &mut chunk_data)?;
 
-            // Resize the output buffer so that we decompresse data until its either full,
-            // or EOF was reached
-            data_to_recompress.resize((points_to_read * vlr.items_size()) as usize, 0);
-            let byte_len = decompressor.decompress_until_end_of_file(&mut data_to_recompress)?;
-            data_to_recompress.resize(byte_len, 0);
+            // Decompress data until we have all the points or EOF was reached
+            decompressor.decompress_until_end_of_file(
+                &mut data_to_recompress,
+                (points_to_read * vlr.items_size()) as usize,
+            )?;
         }
 
         // Drop chunk table entry/entries that are after the our point
diff --git a/src/record.rs b/src/record.rs
index 1fe0d30..6809bf2 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -120,21 +120,29 @@ pub trait RecordDecompressor<R> {
     }
 
     /// Decompresss data until either end of file is reached
-    /// of the `out` buffer has been completely filled
+    /// or `max_num_bytes` bytes of points were added to `out`.
     ///
-    /// Returns how many bytes are valid in the output
+    /// As there may be much less points than that, `out` grows with the points.
     #[inline]
-    fn decompress_until_end_of_file(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
-        for (i, point) in out.chunks_exact_mut(self.record_size()).enumerate() {
-            if let Err(error) = self.decompress_next(point) {
+    fn decompress_until_end_of_file(
+        &mut self,
+        out: &mut Vec<u8>,
+        max_num_bytes: usize,
+    ) -> std::io::Result<()> {
+        let record_size = self.record_size();
+        for _ in 0..max_num_bytes / record_size {
+            let len = out.len();
+            out.resize(len + record_size, 0);
+            if let Err(error) = self.decompress_next(&mut out[len..]) {
+                out.truncate(len);
                 if error.kind() == std::io::ErrorKind::UnexpectedEof {
-                    return Ok(i * self.record_size());
+                    break;
                 } else {
                     return Err(error.into());
                 }
             }
         }
-        Ok(out.len())
+        Ok(())
     }
 
     /// Resets the `RecordDecompressor` to its initial state
-- 
2.43.0


From 2ebf14cdbe3472e8f68429aa2297d911005c55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 38/44] fix: parallel writer: do not reserve memory for a whole
 chunk

---
 src/laszip/mod.rs                  | 3 ---
 src/laszip/parallel/compression.rs | 8 +++-----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/laszip/mod.rs b/src/laszip/mod.rs
index 8dd5edf..b8570bd 100644
--- a/src/laszip/mod.rs
+++ b/src/laszip/mod.rs
@@ -12,9 +12,6 @@ pub use vlr::{
     LazVlrBuilder, Version1, Version2, Version3, Version4,
 };
 
-#[cfg(feature = "parallel")]
-pub(crate) use vlr::DecompressedChunkSize;
-
 mod chunk_table;
 mod details;
 #[cfg(feature = "parallel")]
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index ef07d7e..a089fbb 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -7,7 +7,7 @@ use crate::laszip::chunk_table::{update_chunk_table_offset, ChunkTable, ChunkTab
 use crate::laszip::details::{
     check_chunk_size, check_is_chunked, record_compressor_from_laz_items,
 };
-use crate::laszip::{CompressorType, DecompressedChunkSize};
+use crate::laszip::CompressorType;
 use crate::{LasZipError, LazVlr};
 
 /// LasZip compressor that compresses using multiple threads
@@ -66,10 +66,8 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         record_compressor_from_laz_items(vlr.items(), std::io::sink())?;
         check_chunk_size(&vlr)?;
 
-        let mut rest = Vec::<u8>::new();
-        if let DecompressedChunkSize::Fixed { num_bytes } = vlr.num_bytes_in_decompressed_chunk() {
-            rest.reserve(num_bytes);
-        }
+        // Not more memory than points are given, chunks may be huge
+        let rest = Vec::<u8>::new();
 
         Ok(Self {
             vlr,
-- 
2.43.0


From 23f2be0c8745e2740684ae38b6945eefdd35f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:41 +0000
Subject: [PATCH 39/44] fix: parallel decompressor: memory grows with the
 points, whatever the chunk table says

---
 src/laszip/parallel/decompression.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 59e9c2a..88c90e7 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -187,13 +187,16 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 // Then, decompress what we did not, into our rest buffer
                 let num_bytes_left =
                     (tail_chunk_entry.point_count as usize * point_size) - tail_output.len();
-                if !vlr.uses_variable_size_chunks() && end_index == chunk_table_len {
-                    // When fixed-size chunks are used, for the last chunk, the number of point
-                    // is unknown, so we have to decompress it until an end of file appears
-                    decompressor.decompress_until_end_of_file(rest.get_mut(), num_bytes_left)?;
-                } else {
-                    rest.get_mut().resize(num_bytes_left, 0u8);
-                    decompressor.decompress_many(rest.get_mut())?;
+                // When fixed-size chunks are used, for the last chunk, the number of point
+                // is unknown, so we have to decompress it until an end of file appears.
+                //
+                // For other chunks, the number of points may be wrong, so do not allocate
+                // memory for points that are not there either.
+                decompressor.decompress_until_end_of_file(rest.get_mut(), num_bytes_left)?;
+                let is_count_known =
+                    vlr.uses_variable_size_chunks() || end_index != chunk_table_len;
+                if is_count_known && rest.get_ref().len() != num_bytes_left {
+                    return Err(unexpected_eof("not enough points in the chunk"));
                 }
                 rest.set_position(0);
                 Ok(())
@@ -252,17 +255,16 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         )?;
         decompressor.set_selection(self.selection);
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
+        decompressor.decompress_until_end_of_file(&mut points, num_bytes)?;
         if is_last_chunk {
-            decompressor.decompress_until_end_of_file(&mut points, num_bytes)?;
             let num_points_in_last_chunk = points.len() / self.vlr.items_size() as usize;
             if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
                 // Leave the rest empty to
                 // force EOF error on next decompression
                 return Ok(());
             }
-        } else {
-            points.resize(num_bytes, 0u8);
-            decompressor.decompress_many(&mut points)?;
+        } else if points.len() != num_bytes {
+            return Err(unexpected_eof("not enough points in the chunk"));
         }
         *self.rest.get_mut() = points;
         // This effectively discard points that were
-- 
2.43.0


From 3d9733d99362fed4af238775d2f5bf4c75768771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 40/44] fix: sequential decompressor: no attempt at reading the
 chunk table when the start of the data is not known

---
 src/laszip/sequential/decompression.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 21bb23b..09aa7d4 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -83,7 +83,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 None
             }
             CompressorType::PointWiseChunked => {
-                let result = SeekInfo::read_from(&mut source, &vlr);
+                let result = Self::read_seek_info(&mut source, &start, &vlr);
                 match (result, vlr.uses_variable_size_chunks()) {
                     (Ok(info), _) => Some(info),
                     (Err(_), false) => {
@@ -105,7 +105,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             CompressorType::LayeredChunked => {
                 // Layered Chunks embeds the point count at the start of the chunk
                 // So its fine if we don't have a chunk table
-                let seek_info = SeekInfo::read_from(&mut source, &vlr).ok();
+                let seek_info = Self::read_seek_info(&mut source, &start, &vlr).ok();
                 if seek_info.is_none() {
                     // Same as in PointWiseChunked
                     Self::skip_chunk_table_offset(&mut source, start)?;
@@ -318,6 +318,19 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         Ok(())
     }
 
+    /// Reads the chunk table, unless the position of the source is not known:
+    /// we could not come back to where the point data starts.
+    fn read_seek_info(
+        source: &mut R,
+        start: &std::io::Result<u64>,
+        vlr: &LazVlr,
+    ) -> crate::Result<SeekInfo> {
+        match start {
+            Ok(_) => SeekInfo::read_from(source, vlr),
+            Err(error) => Err(std::io::Error::from(error.kind()).into()),
+        }
+    }
+
     /// Moves the `source` after the offset to the chunk table, when the chunk table
     /// could not be read.
     ///
-- 
2.43.0


From e3d43f5bf8fa360aa48b66a726622cfbed06a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 41/44] fix: readers: after a failed call, nothing is
 decompressed until the next seek

---
 src/laszip/parallel/decompression.rs   | 13 +++++++----
 src/laszip/sequential/decompression.rs | 30 +++++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 88c90e7..047a78d 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -143,8 +143,10 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
 
         // Read the necessary compressed bytes into our internal buffer
         self.internal_buffer.resize(num_bytes_to_read, 0u8);
+        let last_chunk_read = self.last_chunk_read + num_chunks_to_decompress as isize;
+        // Should anything fail from here, there is nothing to read until the next seek
+        self.last_chunk_read = self.chunk_table.len() as isize - 1;
         self.source.read_exact(&mut self.internal_buffer)?;
-        self.last_chunk_read += num_chunks_to_decompress as isize;
 
         // 3. Decompress
         // The idea is that if we have `n` chunks to decompress
@@ -208,7 +210,9 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             self.rest.set_position(0);
         }
         res1?;
-        res2
+        res2?;
+        self.last_chunk_read = last_chunk_read;
+        Ok(())
     }
 
     /// Seeks to the position of the point at the given index
@@ -216,6 +220,8 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         // Throw away what's in the rest buffer
         self.rest.set_position(0);
         self.rest.get_mut().clear();
+        // Should anything fail from here, there is nothing to read until the next seek
+        self.last_chunk_read = self.chunk_table.len() as isize - 1;
 
         let chunk_info = self.chunk_table.chunk_of_point(index);
 
@@ -223,7 +229,6 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             Some(v) => v,
             None => {
                 let _ = self.source.seek(SeekFrom::End(0))?;
-                self.last_chunk_read = self.chunk_table.len() as isize - 1;
                 return Ok(());
             }
         };
@@ -233,7 +238,6 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         self.internal_buffer
             .resize(self.chunk_table[chunk_of_point].byte_count as usize, 0u8);
         self.source.read_exact(&mut self.internal_buffer)?;
-        self.last_chunk_read = chunk_of_point as isize;
 
         let points_before_chunk = self.chunk_table[..chunk_of_point]
             .iter()
@@ -270,6 +274,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         // This effectively discard points that were
         // before the one we just seeked to
         self.rest.set_position(pos_in_chunk * self.vlr.items_size());
+        self.last_chunk_read = chunk_of_point as isize;
         Ok(())
     }
 
diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 09aa7d4..6a9eff4 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -56,6 +56,9 @@ pub struct LasZipDecompressor<'a, R: Read + Seek + 'a> {
     current_chunk: usize,
     chunk_points_read: u64,
     num_points_in_chunk: u64,
+    // The position in the source is not known after an error,
+    // so nothing is decompressed until the next seek
+    failure: Option<std::io::ErrorKind>,
 }
 
 impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
@@ -129,6 +132,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             current_chunk: 0,
             chunk_points_read: 0,
             num_points_in_chunk: 1,
+            failure: None,
         })
     }
 
@@ -137,7 +141,19 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
     /// - The buffer should have at least enough byte to store the decompressed data
     /// - The data is written in the buffer exactly as it would have been in a LAS File
     ///   in Little Endian order,
-    pub fn decompress_one(&mut self, mut out: &mut [u8]) -> std::io::Result<()> {
+    pub fn decompress_one(&mut self, out: &mut [u8]) -> std::io::Result<()> {
+        if let Some(kind) = self.failure {
+            return Err(std::io::Error::new(
+                kind,
+                "a previous call failed, seek to a point first",
+            ));
+        }
+        let result = self.decompress_next(out);
+        self.failure = result.as_ref().err().map(std::io::Error::kind);
+        result
+    }
+
+    fn decompress_next(&mut self, mut out: &mut [u8]) -> std::io::Result<()> {
         if self.chunk_points_read == self.num_points_in_chunk {
             self.reset_for_new_chunk();
             self.current_chunk += 1;
@@ -222,6 +238,17 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
     /// and then we have to decompress points in the chunk until we reach the
     /// one we want.
     pub fn seek(&mut self, point_idx: u64) -> crate::Result<()> {
+        if self.seek_info.is_none() {
+            return Err(MissingChunkTable);
+        }
+        let result = self.seek_to_point(point_idx);
+        if result.is_err() {
+            self.failure = Some(std::io::ErrorKind::Other);
+        }
+        result
+    }
+
+    fn seek_to_point(&mut self, point_idx: u64) -> crate::Result<()> {
         let SeekInfo {
             data_start,
             chunk_table,
@@ -354,6 +381,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
     #[inline(always)]
     fn reset_for_new_chunk(&mut self) {
         self.chunk_points_read = 0;
+        self.failure = None;
         self.record_decompressor.reset();
         // we can safely unwrap here, as set_field would have failed in the ::new()
         self.record_decompressor
-- 
2.43.0


From f1825c807c443c29c049fb0e73c37192f70b0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:06 +0000
Subject: [PATCH 42/44] fix: file reader: after a failed read of an
 uncompressed point, no point is read from the middle of another

---
 src/las/file.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index 641caf3..4f90f98 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -165,11 +165,18 @@ pub trait LasPointReader {
 
 struct RawPointReader<R: Read> {
     src: R,
+    // The position in the source is not known after an error
+    failure: Option<std::io::ErrorKind>,
 }
 
 impl<R: Read> LasPointReader for RawPointReader<R> {
     fn read_next_into(&mut self, buffer: &mut [u8]) -> std::io::Result<()> {
-        self.src.read_exact(buffer)
+        if let Some(kind) = self.failure {
+            return Err(kind.into());
+        }
+        let result = self.src.read_exact(buffer);
+        self.failure = result.as_ref().err().map(std::io::Error::kind);
+        result
     }
 }
 
@@ -203,7 +210,7 @@ impl<'a> SimpleReader<'a> {
                 })?;
                 Box::new(LasZipDecompressor::new(src, laszip_vlr).map_err(into_io_error)?)
             } else {
-                Box::new(RawPointReader { src })
+                Box::new(RawPointReader { src, failure: None })
             };
         header.point_format_id = point_format_id_compressed_to_uncompressd(header.point_format_id);
         let internal_buffer = vec![0u8; header.point_size as usize];
-- 
2.43.0


From 4543eaa69dba563e9c76d42dbe225e9db338e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 43/44] fix: file reader: refuse a LASzip record whose points
 are not those of the header

---
 src/las/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/las/file.rs b/src/las/file.rs
index 4f90f98..af9903b 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -208,6 +208,12 @@ impl<'a> SimpleReader<'a> {
                         "Compressed data, but no Laszip Vlr found",
                     )
                 })?;
+                if laszip_vlr.items_size() != u64::from(header.point_size) {
+                    return Err(std::io::Error::new(
+                        std::io::ErrorKind::InvalidData,
+                        "The sizes of the points in the header and in the Laszip Vlr differ",
+                    ));
+                }
                 Box::new(LasZipDecompressor::new(src, laszip_vlr).map_err(into_io_error)?)
             } else {
                 Box::new(RawPointReader { src, failure: None })
-- 
2.43.0


From a5bd998ab2d43126e1142d515614e48f7e2a1bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 44/44] fix: file reader: read_to_end only gives the points
 that were read

---
 src/las/file.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index af9903b..653e8fc 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -244,14 +244,8 @@ impl<'a> SimpleReader<'a> {
     pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> std::io::Result<usize> {
         assert!(buf.is_empty());
         let mut num_read = 0usize;
-        buf.resize(
-            self.header.num_points as usize * self.header.point_size as usize,
-            0u8,
-        );
-        let slc = buf.as_mut_slice();
         while let Some(point) = self.read_next() {
-            let point = point?;
-            slc[num_read * point.len()..(num_read + 1) * point.len()].copy_from_slice(point);
+            buf.extend_from_slice(point?);
             num_read += 1;
         }
         Ok(num_read)
-- 
2.43.0

