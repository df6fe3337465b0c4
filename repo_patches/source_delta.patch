From c9af391b14b56bd6eb719bfbfa08de8674259b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 01/57] fix: return Err instead of panicking when decoding runs
 past the end of the buffer

Aligning within the last, incomplete octet indexed past the end of the
buffer, and a read position past the end underflowed the remaining count.
---
 codecs/src/aper/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 2b0cdcd..98afad4 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -64,6 +64,12 @@ impl AperCodecData {
         let remaining = 8 - (self.decode_offset & 0x7_usize);
         log::debug!("Aligning Codec Buffer with {} bits", remaining);
 
+        if self.bits.len() < self.decode_offset + remaining {
+            return Err(AperCodecError::new(
+                "AperCodec:DecodeError:End of Bitstream reached while trying to align.",
+            ));
+        }
+
         if !self.bits[self.decode_offset..self.decode_offset + remaining]
             .iter()
             .all(|b| b == false)
@@ -82,7 +88,7 @@ impl AperCodecData {
     }
 
     fn decode_bool(&mut self) -> Result<bool, AperCodecError> {
-        if self.bits.len() == self.decode_offset {
+        if self.bits.len() <= self.decode_offset {
             return Err(AperCodecError::new(
                 "AperCodec:DecodeError:End of Bitstream reached while trying to decode bool.",
             ));
@@ -98,7 +104,7 @@ impl AperCodecData {
         bits: usize,
         signed: bool,
     ) -> Result<i128, AperCodecError> {
-        let remaining = self.bits.len() - self.decode_offset;
+        let remaining = self.bits.len().saturating_sub(self.decode_offset);
         if remaining < bits {
             Err(AperCodecError::new(
                 format!(
@@ -217,7 +223,7 @@ impl AperCodecData {
             if ignore {
                 self.decode_offset = self.bits.len()
             } else {
-                let remaining = self.bits.len() - self.decode_offset;
+                let remaining = self.bits.len().saturating_sub(self.decode_offset);
                 return Err(AperCodecError::new(
                     format!(
                         "AperCodec:DecodeError:Requested Bits to advance {}, Remaining bits {}",
@@ -238,7 +244,7 @@ impl AperCodecData {
                 format!(
                     "AperCodec:GetBitError:Requested Bit {}, Remaining bits {}",
                     self.decode_offset,
-                    self.bits.len() - self.decode_offset
+                    self.bits.len().saturating_sub(self.decode_offset)
                 )
                 .as_str(),
             ));
@@ -253,7 +259,7 @@ impl AperCodecData {
                 format!(
                     "AperCodec:GetBitError:Requested Bit {}, Remaining bits {}",
                     length,
-                    self.bits.len() - self.decode_offset
+                    self.bits.len().saturating_sub(self.decode_offset)
                 )
                 .as_str(),
             ));
@@ -271,7 +277,7 @@ impl AperCodecData {
                 format!(
                     "AperCodec:GetBitError:Requested Bits {}, Remaining bits {}",
                     length,
-                    self.bits.len() - self.decode_offset
+                    self.bits.len().saturating_sub(self.decode_offset)
                 )
                 .as_str(),
             ));
-- 
2.43.0


From 2b632f464cdd0d63e6de572e2c3efdf78ad3a4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 02/57] fix: decode integers of every length up to 16 octets,
 refuse longer ones

Signed integers of 9 to 15 octets (except 16) were refused although the
encoder writes them, integers of more than 16 octets panicked, and unsigned
ones of 128 bits could wrap to negative values.
---
 codecs/src/aper/mod.rs | 108 ++++++++---------------------------------
 1 file changed, 19 insertions(+), 89 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 98afad4..09c2000 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -113,103 +113,33 @@ impl AperCodecData {
                 )
                 .as_str(),
             ))
+        } else if bits > 128 {
+            Err(AperCodecError::new(format!(
+                "AperCodec:DecodeError:Integers of {} bits are not supported",
+                bits
+            )))
         } else {
             log::trace!(
                 "Decoding Bits as Integer. offset: {}, bits: {}",
                 self.decode_offset,
                 bits
             );
-            let value = if !signed {
-                if bits == 0 {
-                    0_i128
-                } else {
-                    self.bits[self.decode_offset..self.decode_offset + bits].load_be::<u128>()
-                        as i128
+            let value = if bits == 0 {
+                0_i128
+            } else if !signed {
+                let value = self.bits[self.decode_offset..self.decode_offset + bits].load_be::<u128>();
+                if value > i128::MAX as u128 {
+                    return Err(AperCodecError::new(format!(
+                        "Integer {} is too big to decode",
+                        value
+                    )));
                 }
+                value as i128
             } else {
-                match bits {
-                    8 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i8;
-                        inner as i128
-                    }
-                    16 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i16;
-                        inner as i128
-                    }
-                    24 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u32>() as u32;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFF000000
-                        } else {
-                            inner & 0x00FFFFFF
-                        };
-                        let inner = inner as i32;
-                        inner as i128
-                    }
-                    32 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i32;
-                        inner as i128
-                    }
-                    40 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u64>() as u64;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFFFFFF0000000000
-                        } else {
-                            inner & 0x000000FFFFFFFFFF
-                        };
-                        let inner = inner as i64;
-                        inner as i128
-                    }
-                    48 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u64>() as u64;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFFFF000000000000
-                        } else {
-                            inner & 0x0000FFFFFFFFFFFF
-                        };
-                        let inner = inner as i64;
-                        inner as i128
-                    }
-                    56 => {
-                        eprintln!("{}", self.decode_offset);
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u64>() as u64;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFF00000000000000
-                        } else {
-                            inner & 0x00FFFFFFFFFFFFFF
-                        };
-                        let inner = inner as i64;
-                        inner as i128
-                    }
-                    64 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i64;
-                        inner as i128
-                    }
-                    128 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i128;
-                        inner as i128
-                    }
-                    _ => {
-                        return Err(
-                            AperCodecError::new(
-                                format!(
-                                    "For a signed number in 2's compliment form, requested bits {} not supported!",
-                                    bits)));
-                    }
-                }
+                let value = self.bits[self.decode_offset..self.decode_offset + bits].load_be::<u128>();
+                // Sign extend
+                let unused = 128 - bits;
+                ((value << unused) as i128) >> unused
             };
             log::trace!("Decoded Value: {:?}", value);
             self.advance_maybe_err(bits, false)?;
-- 
2.43.0


From 006a6737754507b2b45ccfa188904eed6ec1bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 03/57] fix: refuse decoded integers above the upper bound, and
 overflowing ones

A bit pattern that the range does not use decoded to a value outside the
constraint; adding the lower bound could overflow.
---
 codecs/src/aper/decode/decode_internal.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 3632214..9adb8f7 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -152,7 +152,9 @@ pub(super) fn decode_semi_constrained_whole_number(
     let bits = length * 8;
     let val = data.decode_bits_as_integer(bits, false)?;
 
-    Ok(val + lb)
+    val.checked_add(lb).ok_or_else(|| {
+        AperCodecError::new(format!("Integer {} above {} is too big to decode", val, lb))
+    })
 }
 
 // Decode a 'constrained' whole number where both `lb` and `ub` are available.
@@ -165,7 +167,10 @@ pub(super) fn decode_constrained_whole_number(
 ) -> Result<i128, AperCodecError> {
     log::trace!("decode_constrained_whole_number: lb: {}, ub: {}", lb, ub,);
 
-    let range = ub - lb + 1;
+    let range = ub
+        .checked_sub(lb)
+        .and_then(|span| span.checked_add(1))
+        .ok_or_else(|| AperCodecError::new("Range for the Integer Constraint is too big."))?;
     if range <= 0 {
         Err(AperCodecError::new(
             "Range for the Integer Constraint is negative.",
@@ -198,6 +203,13 @@ pub(super) fn decode_constrained_whole_number(
             data.decode_bits_as_integer(length * 8, false)?
         };
 
+        if value >= range {
+            return Err(AperCodecError::new(format!(
+                "Decoded integer is greater than upper bound {}",
+                ub
+            )));
+        }
+
         Ok(value + lb)
     }
 }
-- 
2.43.0


From bcd215658ed12aca938cfec6d751dcb7633cc985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 04/57] fix: encode semi-constrained integers without a sign
 octet

X.691 11.7: the offset from the lower bound is a non-negative-binary-integer
in the minimum number of octets.  128 above the lower bound took two octets.
---
 codecs/src/aper/encode/encode_internal.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index c944c7d..cf6f509 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -41,7 +41,16 @@ pub(super) fn encode_semi_constrained_whole_number(
         )));
     }
 
-    encode_unconstrained_whole_number(data, value - lb)
+    let offset = value.checked_sub(lb).ok_or_else(|| {
+        AperCodecError::new(format!("Integer {} above {} is too big to encode", value, lb))
+    })?;
+
+    // A non-negative-binary-integer in the minimum number of octets: there is no sign bit.
+    let bytes = offset.to_be_bytes();
+    let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
+    encode_length_determinent(data, None, None, false, 16 - first_non_zero)?;
+    data.append_bits(bytes[first_non_zero..16].view_bits());
+    Ok(())
 }
 
 pub(super) fn encode_constrained_whole_number(
-- 
2.43.0


From 0336aa072abd33d4d46d659ed42cb9d3e1277a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 05/57] fix: encode the lower bound of a range of more than
 65536 values

The offset 0 takes one octet; the encoder computed a length of 0 octets and
refused the value.
---
 codecs/src/aper/encode/encode_internal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index cf6f509..7a3af34 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -73,7 +73,10 @@ pub(super) fn encode_constrained_whole_number(
         )));
     }
 
-    let range = ub - lb + 1;
+    let range = ub
+        .checked_sub(lb)
+        .and_then(|span| span.checked_add(1))
+        .ok_or_else(|| AperCodecError::new("Range for the Integer Constraint is too big."))?;
     let value = value - lb;
 
     if range <= 256 {
@@ -102,7 +105,7 @@ pub(super) fn encode_constrained_whole_number(
     } else {
         let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range) as i128;
         let bytes = value.to_be_bytes();
-        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(16);
+        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
         encode_constrained_whole_number(
             data,
             1,
-- 
2.43.0


From d27f84e1437617845ab71fff3a708c3c1ba490d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 06/57] fix: size the length field of large ranges by the
 largest offset

For a range of exactly 2^(8n) values, as in INTEGER (0..4294967295), the
largest offset fits n octets; one more was allowed for, which changes the
width of the length field.
---
 codecs/src/aper/decode/decode_internal.rs | 2 +-
 codecs/src/aper/encode/encode_internal.rs | 2 +-
 codecs/src/aper/mod.rs                    | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 9adb8f7..8186e08 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -196,7 +196,7 @@ pub(super) fn decode_constrained_whole_number(
             let _ = data.decode_align()?;
             data.decode_bits_as_integer(16, false)?
         } else {
-            let bytes_needed = crate::aper::bytes_needed_for_range(range);
+            let bytes_needed = crate::aper::bytes_needed_for_range(range - 1);
             log::trace!("bytes_needed : {}", bytes_needed);
             let length = decode_constrained_length_determinent(data, 1, bytes_needed as usize)?;
             let _ = data.decode_align()?;
diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 7a3af34..3742c1d 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -103,7 +103,7 @@ pub(super) fn encode_constrained_whole_number(
         let bytes = (value as u16).to_be_bytes();
         data.append_bits(bytes.view_bits::<Msb0>());
     } else {
-        let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range) as i128;
+        let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range - 1) as i128;
         let bytes = value.to_be_bytes();
         let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
         encode_constrained_whole_number(
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 09c2000..2c0c0d6 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -307,8 +307,9 @@ impl AperCodecData {
     }
 }
 
-fn bytes_needed_for_range(range: i128) -> u8 {
-    let bits_needed: u8 = 128 - range.leading_zeros() as u8;
+/// Octets needed for the largest offset in a range, ie. `ub - lb`.
+fn bytes_needed_for_range(max_offset: i128) -> u8 {
+    let bits_needed: u8 = 128 - max_offset.leading_zeros() as u8;
     let mut bytes_needed = bits_needed / 8;
     if bits_needed % 8 != 0 {
         bytes_needed += 1
-- 
2.43.0


From d39630f24df43369e4df5a324c9297a5fe730c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 07/57] fix: check the upper bound of integers without a lower
 bound

---
 codecs/src/aper/decode/mod.rs | 9 ++++++++-
 codecs/src/aper/encode/mod.rs | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 3b2d7b8..8f0c544 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -115,7 +115,14 @@ pub fn decode_integer(
             None =>
             // 12.2.4
             {
-                decode_unconstrained_whole_number(data)?
+                let value = decode_unconstrained_whole_number(data)?;
+                if ub.map_or(false, |ub| value > ub) {
+                    return Err(AperCodecError::new(format!(
+                        "Decoded integer {} is greater than the upper bound",
+                        value
+                    )));
+                }
+                value
             }
             Some(lb) => {
                 match ub {
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 736338f..39cdd72 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -106,6 +106,12 @@ pub fn encode_integer(
     }
 
     let _ = match (lb, ub) {
+        (None, Some(ub)) if value > ub => {
+            return Err(AperCodecError::new(format!(
+                "Cannot encode integer {} - greater than upper bound {}",
+                value, ub,
+            )));
+        }
         (None, _) => encode_unconstrained_whole_number(data, value)?,
         (Some(lb), None) => encode_semi_constrained_whole_number(data, lb, value)?,
         (Some(lb), Some(ub)) => encode_constrained_whole_number(data, lb, ub, value)?,
-- 
2.43.0


From b350e8e233cb2236cd25a0569e07098c244a6363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:46 +0000
Subject: [PATCH 08/57] fix: encode normally small lengths of 33 to 64 in their
 short form

X.691 11.9.3.4: lengths up to 64 take a zero bit and 6 bits.  0 is not a
normally small length; it underflowed.
---
 codecs/src/aper/encode/encode_internal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 3742c1d..d657d39 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -141,7 +141,12 @@ pub(super) fn encode_normally_small_length_determinent(
     data: &mut AperCodecData,
     value: usize,
 ) -> Result<(), AperCodecError> {
-    if value <= 32 {
+    if value == 0 {
+        return Err(AperCodecError::new(
+            "Cannot encode a normally small length of 0",
+        ));
+    }
+    if value <= 64 {
         let byte = (value - 1) as u8;
         data.encode_bool(false);
         data.append_bits(&byte.view_bits::<Msb0>()[2..8]);
-- 
2.43.0


From 3a5808bf6bdd2712e1bb10af026ffa54c0505040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:46 +0000
Subject: [PATCH 09/57] fix: check decoded string lengths, and only fragment
 general lengths

A general length determinant says nothing about the SIZE: it has to be checked
after decoding.  A constrained length of 16384 or more is not a fragment.
---
 codecs/src/aper/decode/decode_internal.rs | 22 ++++++++++++++++++++++
 codecs/src/aper/decode/mod.rs             | 14 ++++++++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 8186e08..474ad18 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -38,6 +38,28 @@ fn decode_normally_small_length_determinent(
 // Decode a Length Determinent (Section 10.9)
 //
 // Decodes a Length Determinent.
+/// Is a length determinant with this upper bound a constrained one, ie. one that never announces a
+/// fragment?
+pub fn length_is_constrained(ub: Option<i128>) -> bool {
+    ub.map_or(false, |ub| ub < 65_536)
+}
+
+/// Checks a complete length against its bounds, which a general length determinant does not imply.
+pub fn check_length(
+    length: usize,
+    lb: Option<i128>,
+    ub: Option<i128>,
+) -> Result<(), AperCodecError> {
+    let length = length as i128;
+    if lb.map_or(false, |lb| length < lb) || ub.map_or(false, |ub| length > ub) {
+        return Err(AperCodecError::new(format!(
+            "Decoded length {} is outside the bounds {:?}..{:?}",
+            length, lb, ub
+        )));
+    }
+    Ok(())
+}
+
 pub fn decode_length_determinent(
     data: &mut AperCodecData,
     lb: Option<i128>,
diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 8f0c544..9444c4a 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -7,7 +7,9 @@ use crate::aper::AperCodecError;
 mod decode_internal;
 use decode_internal::*;
 
+pub use decode_internal::check_length;
 pub use decode_internal::decode_length_determinent;
+pub use decode_internal::length_is_constrained;
 
 /// Decode a Choice Index.
 ///
@@ -233,13 +235,17 @@ pub fn decode_bitstring(
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        if length >= 16384 && (is_extended || !length_is_constrained(ub)) {
             continue;
         } else {
             break;
         }
     }
 
+    if !is_extended {
+        check_length(bv.len(), lb, ub)?;
+    }
+
     data.dump();
 
     Ok(bv)
@@ -283,13 +289,17 @@ pub fn decode_octetstring(
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
+        if length >= 16384 && (is_extended || !length_is_constrained(ub)) {
             continue;
         } else {
             break;
         }
     }
 
+    if !is_extended {
+        check_length(octets.len(), lb, ub)?;
+    }
+
     data.dump();
 
     Ok(octets)
-- 
2.43.0


From ec27c3cc428388f738ef9b2bc8089baef42ea589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:46 +0000
Subject: [PATCH 10/57] fix: align bit and octet strings of variable length

X.691 16.11 and 17.8: only fixed-length strings of up to 16 bits (2 octets)
are not aligned.  Shorter strings of a variable length were not aligned.
---
 codecs/src/aper/decode/mod.rs | 5 +++--
 codecs/src/aper/encode/mod.rs | 5 +++--
 codecs/src/aper/mod.rs        | 5 +++++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 9444c4a..d7ad3ce 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -10,6 +10,7 @@ use decode_internal::*;
 pub use decode_internal::check_length;
 pub use decode_internal::decode_length_determinent;
 pub use decode_internal::length_is_constrained;
+use crate::aper::length_is_fixed;
 
 /// Decode a Choice Index.
 ///
@@ -228,7 +229,7 @@ pub fn decode_bitstring(
         };
 
         if length > 0 {
-            if length > 16 {
+            if length > 16 || is_extended || !length_is_fixed(lb, ub) {
                 let _ = data.decode_align()?;
             }
             bv.extend(data.get_bitvec(length)?);
@@ -282,7 +283,7 @@ pub fn decode_octetstring(
         };
 
         if length > 0 {
-            if length > 2 {
+            if length > 2 || is_extended || !length_is_fixed(lb, ub) {
                 let _ = data.decode_align()?;
             }
             octets.extend(data.get_bytes(length)?);
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 39cdd72..6a82b0d 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -1,5 +1,6 @@
 //! ASN.1 Aper Encoder module.
 
+use crate::aper::length_is_fixed;
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
 use bitvec::prelude::*;
@@ -205,7 +206,7 @@ pub fn encode_bitstring(
 
     encode_length_determinent(data, lb, ub, false, length)?;
     if length > 0 {
-        if length > 16 {
+        if length > 16 || !length_is_fixed(lb, ub) {
             data.align();
         }
         data.append_bits(bit_string);
@@ -254,7 +255,7 @@ pub fn encode_octetstring(
     encode_length_determinent(data, lb, ub, false, length)?;
 
     if length > 0 {
-        if length > 2 {
+        if length > 2 || !length_is_fixed(lb, ub) {
             data.align();
         }
         data.append_bits(octet_string.view_bits());
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 2c0c0d6..0864e14 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -307,6 +307,11 @@ impl AperCodecData {
     }
 }
 
+/// Do the size bounds allow a single length, which is then not encoded?
+fn length_is_fixed(lb: Option<i128>, ub: Option<i128>) -> bool {
+    ub.map_or(false, |ub| ub < 65_536 && lb.unwrap_or(0) == ub)
+}
+
 /// Octets needed for the largest offset in a range, ie. `ub - lb`.
 fn bytes_needed_for_range(max_offset: i128) -> u8 {
     let bits_needed: u8 = 128 - max_offset.leading_zeros() as u8;
-- 
2.43.0


From 46489d16a4bb6bb879d6bfdcfa6a08116e4d56a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:46 +0000
Subject: [PATCH 11/57] fix: align character strings by their size bounds,
 decode fragmented ones

X.691 30.5.6 and 30.5.7: the alignment depends on the bounds, not on the length
of the value; encoder and decoder even disagreed for strings of 2 characters.
The decoder took the first fragment of a long string for all of it.
---
 codecs/src/aper/decode/decode_charstrings.rs | 40 +++++++++++---------
 codecs/src/aper/encode/mod.rs                |  3 +-
 codecs/src/aper/mod.rs                       |  9 +++++
 3 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 96fbcc6..e8ccc0c 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -1,10 +1,9 @@
 //! Functionality for decoding character strings
-use bitvec::field::BitField;
-
+use crate::aper::charstring_is_aligned;
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
 
-use super::decode_internal::decode_length_determinent;
+use super::decode_internal::{check_length, decode_length_determinent, length_is_constrained};
 
 // 27.5.3 and 27.5.4
 /// Decode a VisibleString CharacterString Type.
@@ -70,22 +69,29 @@ fn decode_string(
         false
     };
 
-    let length = if is_extended {
-        decode_length_determinent(data, None, None, false)?
-    } else {
-        decode_length_determinent(data, lb, ub, false)?
-    };
+    let mut bytes = Vec::new();
+    loop {
+        let length = if is_extended {
+            decode_length_determinent(data, None, None, false)?
+        } else {
+            decode_length_determinent(data, lb, ub, false)?
+        };
 
-    let num_bits = 8;
-    let length = length * num_bits;
-    if length > 16 {
-        data.decode_align()?;
+        if length > 0 {
+            if is_extended || charstring_is_aligned(lb, ub) {
+                data.decode_align()?;
+            }
+            bytes.extend(data.get_bytes(length)?);
+        }
+
+        // Fragmented So get the chunks in multiples of 16384,
+        if length < 16384 || (!is_extended && length_is_constrained(ub)) {
+            break;
+        }
+    }
+    if !is_extended {
+        check_length(bytes.len(), lb, ub)?;
     }
-    let bits = data.get_bitvec(length)?;
-    let bytes = bits
-        .chunks_exact(num_bits)
-        .map(|c| c.load::<u8>())
-        .collect::<Vec<u8>>();
 
     data.dump();
 
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 6a82b0d..5eff3a4 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -1,5 +1,6 @@
 //! ASN.1 Aper Encoder module.
 
+use crate::aper::charstring_is_aligned;
 use crate::aper::length_is_fixed;
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
@@ -338,7 +339,7 @@ fn encode_string(
         data.encode_bool(extended);
     }
     encode_length_determinent(data, lb, ub, false, value.len())?;
-    if value.len() > 2 {
+    if !value.is_empty() && charstring_is_aligned(lb, ub) {
         data.align();
     }
     data.append_bits(value.as_bits());
diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 0864e14..5be6527 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -312,6 +312,15 @@ fn length_is_fixed(lb: Option<i128>, ub: Option<i128>) -> bool {
     ub.map_or(false, |ub| ub < 65_536 && lb.unwrap_or(0) == ub)
 }
 
+/// Are character strings (of 8 bits per character) with these size bounds octet aligned?
+fn charstring_is_aligned(lb: Option<i128>, ub: Option<i128>) -> bool {
+    match ub {
+        Some(ub) if length_is_fixed(lb, Some(ub)) => ub * 8 > 16,
+        Some(ub) => ub * 8 >= 16,
+        None => true,
+    }
+}
+
 /// Octets needed for the largest offset in a range, ie. `ub - lb`.
 fn bytes_needed_for_range(max_offset: i128) -> u8 {
     let bits_needed: u8 = 128 - max_offset.leading_zeros() as u8;
-- 
2.43.0


From e76f94ecc5c477de2b4dacc1f7c94c2bcc4a857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:05 +0000
Subject: [PATCH 12/57] fix: the SIZE of a UTF8String counts characters and
 does not change its encoding

X.691 30.3: UTF8String is not a known-multiplier type, so its SIZE is not
PER-visible and the length determinant, in octets, is unconstrained.
---
 codecs/src/aper/decode/decode_charstrings.rs |  7 ++++++-
 codecs/src/aper/encode/mod.rs                | 11 ++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index e8ccc0c..e728e80 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -54,7 +54,12 @@ pub fn decode_utf8_string(
         ub,
         is_extensible
     );
-    decode_string(data, lb, ub, is_extensible)
+    // The SIZE of a UTF8String is not PER-visible: it counts characters, the length counts octets.
+    let decoded = decode_string(data, None, None, false)?;
+    if !is_extensible {
+        check_length(decoded.chars().count(), lb, ub)?;
+    }
+    Ok(decoded)
 }
 
 fn decode_string(
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 5eff3a4..d276017 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -408,7 +408,16 @@ pub fn encode_utf8_string(
         extended
     );
 
-    encode_string(data, lb, ub, is_extensible, value, extended)
+    // The SIZE of a UTF8String is not PER-visible: it counts characters, the length counts octets.
+    let length = value.chars().count() as i128;
+    if !is_extensible && (lb.map_or(false, |lb| length < lb) || ub.map_or(false, |ub| length > ub)) {
+        return Err(AperCodecError::new(format!(
+            "Cannot encode UTF8String of {} characters - outside {:?}..{:?}",
+            length, lb, ub
+        )));
+    }
+
+    encode_string(data, None, None, false, value, extended)
 }
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 9c0022eb02f12d54aeb537e6bc4bbd57954a3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:05 +0000
Subject: [PATCH 13/57] fix: refuse non-ASCII characters in VisibleString and
 PrintableString

Neither type has them, and the SIZE was compared with the number of octets
they take instead of the number of characters.
---
 codecs/src/aper/decode/decode_charstrings.rs | 13 +++++++++++--
 codecs/src/aper/encode/mod.rs                | 12 ++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index e728e80..bedd512 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -19,7 +19,7 @@ pub fn decode_visible_string(
         ub,
         is_extensible
     );
-    decode_string(data, lb, ub, is_extensible)
+    ascii_only(decode_string(data, lb, ub, is_extensible)?)
 }
 
 /// Decode a PrintableString CharacterString Type.
@@ -35,7 +35,7 @@ pub fn decode_printable_string(
         ub,
         is_extensible
     );
-    decode_string(data, lb, ub, is_extensible)
+    ascii_only(decode_string(data, lb, ub, is_extensible)?)
 }
 
 // UTF-8 String is always - indefinite length case as it's not a fixed character width string. It's
@@ -62,6 +62,15 @@ pub fn decode_utf8_string(
     Ok(decoded)
 }
 
+// Characters outside ASCII would take several octets, of which the length would count each.
+fn ascii_only(decoded: String) -> Result<String, AperCodecError> {
+    if decoded.is_ascii() {
+        Ok(decoded)
+    } else {
+        Err(AperCodecError::new("String contains non-ASCII characters"))
+    }
+}
+
 fn decode_string(
     data: &mut AperCodecData,
     lb: Option<i128>,
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index d276017..8801249 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -366,6 +366,12 @@ pub fn encode_visible_string(
         extended
     );
 
+    if !value.is_ascii() {
+        return Err(AperCodecError::new(
+            "Cannot encode a non-ASCII character in this string type",
+        ));
+    }
+
     encode_string(data, lb, ub, is_extensible, value, extended)
 }
 
@@ -387,6 +393,12 @@ pub fn encode_printable_string(
         extended
     );
 
+    if !value.is_ascii() {
+        return Err(AperCodecError::new(
+            "Cannot encode a non-ASCII character in this string type",
+        ));
+    }
+
     encode_string(data, lb, ub, is_extensible, value, extended)
 }
 
-- 
2.43.0


From 45cab4329216eac5a290c24f81b7bf82340fd7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:05 +0000
Subject: [PATCH 14/57] fix: refuse decoded integers the type cannot hold, and
 ENUMERATED additions

Values were truncated to the Rust type, and the number of an ENUMERATED
addition was taken for a root item.
---
 codecs_derive/src/aper/enumerated.rs | 8 +++++++-
 codecs_derive/src/aper/integer.rs    | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index 80b26d9..1952131 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -44,7 +44,13 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
 
                 let decoded = asn1_codecs::aper::decode::decode_enumerated(data, #lb, #ub, #ext)?;
 
-                Ok(Self(decoded.0 as #ty))
+                if decoded.1 {
+                    return Err(asn1_codecs::aper::AperCodecError::new("ENUMERATED Additions not supported yet."));
+                }
+                let value = <#ty as std::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new(format!("Decoded ENUMERATED {} is not supported.", decoded.0))
+                })?;
+                Ok(Self(value))
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
diff --git a/codecs_derive/src/aper/integer.rs b/codecs_derive/src/aper/integer.rs
index 8dc44d9..0343703 100644
--- a/codecs_derive/src/aper/integer.rs
+++ b/codecs_derive/src/aper/integer.rs
@@ -43,7 +43,10 @@ pub(super) fn generate_aper_codec_for_asn_integer(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_integer(data, #lb, #ub, #ext)?;
-                Ok(Self(decoded.0 as #ty))
+                let value = <#ty as std::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new(format!("Decoded integer {} is not supported.", decoded.0))
+                })?;
+                Ok(Self(value))
             }
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
-- 
2.43.0


From dc6cb3dab966aa2085bfc179496c7bc1393288d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:05 +0000
Subject: [PATCH 15/57] fix: SEQUENCE OF: empty lists, SIZE errors, extensible
 and fragmented lengths

An empty list decoded until the end of the buffer, a length outside the SIZE
was not reported, an extensible SIZE has an extension bit and not a normally
small length, and long lists come in fragments.
---
 codecs_derive/src/aper/seqof.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 8d5049c..f670cb9 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -43,17 +43,22 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext)?;
+                let extended = if #sz_ext { asn1_codecs::aper::decode::decode_bool(data)? } else { false };
+                let (lb, ub): (Option<i128>, Option<i128>) = if extended { (None, None) } else { (#sz_lb, #sz_ub) };
 
                 let mut items = vec![];
-                let mut count = 0;
                 loop {
-                    items.push(#ty::decode(data)?);
-                    count += 1;
-                    if count == length {
+                    let length = asn1_codecs::aper::decode::decode_length_determinent(data, lb, ub, false)?;
+                    for _ in 0..length {
+                        items.push(#ty::decode(data)?);
+                    }
+
+                    // Fragmented So get the items in multiples of 16384,
+                    if length < 16384 || asn1_codecs::aper::decode::length_is_constrained(ub) {
                         break;
                     }
                 }
+                asn1_codecs::aper::decode::check_length(items.len(), lb, ub)?;
 
                 Ok(Self(items))
             }
@@ -61,7 +66,10 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len());
+                if #sz_ext {
+                    asn1_codecs::aper::encode::encode_bool(data, false)?;
+                }
+                asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, false, self.0.len())?;
 
                 for elem in &self.0 {
                     let _ = elem.encode(data)?;
-- 
2.43.0


From 94b182d74c280d54fff4284d51c8dd00206b82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:05 +0000
Subject: [PATCH 16/57] fix: encode open types without content as one zero
 octet

X.691 11.1: an open type holds a complete encoding, of at least one octet.  The
length of an empty buffer underflowed.
---
 codecs/src/aper/mod.rs         | 2 +-
 codecs_derive/src/aper/open.rs | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 5be6527..4aec0eb 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -295,7 +295,7 @@ impl AperCodecData {
     /// Get the length of the data in bytes
     /// This is useful when encoding an open type.
     pub fn length_in_bytes(&self) -> usize {
-        ((self.bits.len() - 1) / 8) + 1
+        (self.bits.len() + 7) / 8
     }
 
     /// Append one encoding to another preserving byte alignment.
diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 8205f6a..20b3f09 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -22,6 +22,10 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
                 let _ = match self {
                     #(#variant_encode_tokens)*
                 };
+                if inner.length_in_bytes() == 0 {
+                    // An encoding without any bits takes one zero octet in an open type
+                    asn1_codecs::aper::encode::encode_integer(&mut inner, Some(0), Some(255), false, 0, false)?;
+                }
                 let length = inner.length_in_bytes();
                 let _ = asn1_codecs::aper::encode::encode_length_determinent(data, None, None, false, length)?;
                 data.append_aligned(&mut inner);
-- 
2.43.0


From 688e5e344de2aa13d8a96c1bfd92af5bb1398086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:05 +0000
Subject: [PATCH 17/57] fix: delimit open types by their length

The decoded length was ignored: decoding continued wherever the type inside
ended, so the rest was misread when that type had unknown additions, padding,
or a length that disagrees; and a nested `key` replaced the outer one.
---
 codecs_derive/src/aper/open.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 20b3f09..16a5ec7 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -44,9 +44,13 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, None, None, false)?;
+                let content = asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
 
-                log::trace!("open type: decoded length: {}", length);
+                log::trace!("open type: decoded length: {}", content.len());
+
+                // The type inside is decoded from its own buffer: it can neither read past the
+                // content, nor change the `key` used outside
+                let mut inner = asn1_codecs::aper::AperCodecData::from_slice(&content);
 
                 if data.get_key().is_none() {
                     return Err(asn1_codecs::aper::AperCodecError::new("Decoding OPEN Type, but `key` is not determined!"));
@@ -99,7 +103,7 @@ fn generate_open_type_variant_tokens_using_attrs(
                             let unnamed = unnamed.as_ref().unwrap();
                             let ty = &unnamed.ty;
                             let variant_decode_token = quote! {
-                                #key => Ok(Self::#variant_ident(#ty::decode(data)?)),
+                                #key => Ok(Self::#variant_ident(#ty::decode(&mut inner)?)),
                             };
                             let variant_encode_token = quote! {
                                 Self::#variant_ident(ref v) => v.encode(&mut inner)?,
-- 
2.43.0


From 27a204fb6763d07fe7a397a46c3adbeaa0f00cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:47 +0000
Subject: [PATCH 18/57] fix: skip unknown SEQUENCE extension additions

The extension bit was decoded and ignored, and the additions were then read as
whatever follows the SEQUENCE.
---
 codecs/src/aper/decode/mod.rs | 20 ++++++++++++++++++++
 codecs_derive/src/aper/seq.rs |  8 ++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index d7ad3ce..29e7390 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -77,6 +77,26 @@ pub fn decode_sequence_header(
     Ok((bitmap, extended))
 }
 
+/// Skip the extension additions of a SEQUENCE
+///
+/// None of them is known, but each is preceded by its length.
+pub fn skip_extension_additions(data: &mut AperCodecData) -> Result<(), AperCodecError> {
+    let count = decode_length_determinent(data, None, None, true)?;
+    if count >= 16384 {
+        return Err(AperCodecError::new(
+            "16384 or more extension additions are not supported",
+        ));
+    }
+    let present = data.get_bitvec(count)?.count_ones();
+    for _ in 0..present {
+        let _ = decode_octetstring(data, None, None, false)?;
+    }
+
+    data.dump();
+
+    Ok(())
+}
+
 /// Decode an Integer
 ///
 /// Given an Integer Specification with PER Visible Constraints, decode an Integer Value to obtain
diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 896c83e..b7539da 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -30,8 +30,12 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let (bitmap, _extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
-                Ok(Self{#(#fld_decode_tokens)*})
+                let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                let decoded = Self{#(#fld_decode_tokens)*};
+                if extensions_present {
+                    asn1_codecs::aper::decode::skip_extension_additions(data)?;
+                }
+                Ok(decoded)
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
-- 
2.43.0


From eff122cbe961a750925c71a21631a12e0ce131d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:37 +0000
Subject: [PATCH 19/57] fix: keep the key of a SEQUENCE from being replaced by
 one of its fields

A key inside an earlier field, such as a nested SEQUENCE with a key of its own,
selected the open type of the outer SEQUENCE.
---
 codecs_derive/src/aper/seq.rs | 36 ++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index b7539da..0122e04 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -22,6 +22,11 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
         return fld_tokens.err().unwrap().to_compile_error().into();
     }
     let (fld_decode_tokens, hdr_encode_tokens, fld_encode_tokens) = fld_tokens.unwrap();
+    let key_decode_token = if has_key_field(ast) {
+        quote! { let mut key: Option<i128> = None; }
+    } else {
+        quote! {}
+    };
 
     let tokens = quote! {
         impl asn1_codecs::aper::AperCodec for #name {
@@ -31,6 +36,7 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                #key_decode_token
                 let decoded = Self{#(#fld_decode_tokens)*};
                 if extensions_present {
                     asn1_codecs::aper::decode::skip_extension_additions(data)?;
@@ -71,6 +77,18 @@ fn generate_seq_field_codec_tokens_using_attrs(
     let mut encode_tokens = vec![];
     let mut hdr_encode_tokens = vec![];
 
+    // A field may have replaced the `key` by one of its own: the fields that follow it, among them
+    // the open type, are to see the `key` of this SEQUENCE.
+    let set_key_token = if has_key_field(ast) {
+        quote! {
+            if let Some(key) = key {
+                data.set_key(key);
+            }
+        }
+    } else {
+        quote! {}
+    };
+
     let mut errors: Vec<syn::Error> = vec![];
     if let syn::Data::Struct(ref data) = ast.data {
         if let syn::Fields::Named(ref fields) = data.fields {
@@ -106,6 +124,7 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                             {
                                             let present = bitmap[#optidx];
                                             if present {
+                                                #set_key_token
                                                 Some(#ty_ident::decode(data)?)
                                             } else {
                                                 None
@@ -125,6 +144,7 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                 if !is_key_field {
                                     quote! {
                                         {
+                                        #set_key_token
                                         #ty_ident::decode(data)?
                                         }
                                     }
@@ -132,7 +152,8 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                     quote! {
                                         {
                                         let value = #ty_ident::decode(data)?;
-                                        let _ = data.set_key(value.0 as i128);
+                                        key = Some(value.0 as i128);
+                                        data.set_key(value.0 as i128);
                                         value
                                         }
                                     }
@@ -185,6 +206,19 @@ fn generate_seq_field_codec_tokens_using_attrs(
     }
 }
 
+fn has_key_field(ast: &syn::DeriveInput) -> bool {
+    if let syn::Data::Struct(ref data) = ast.data {
+        data.fields.iter().any(|field| {
+            parse_fld_meta_as_codec_params(&field.attrs)
+                .ok()
+                .and_then(|cp| cp.key_field)
+                .map_or(false, |key_field| key_field.value())
+        })
+    } else {
+        false
+    }
+}
+
 struct StructFieldType {
     ty: Option<syn::Ident>,
     is_optional: bool,
-- 
2.43.0


From fc9904b17057649f7f79636d3b2a77dd6e5b85e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:07 +0000
Subject: [PATCH 20/57] fix: return tokenizer errors instead of panicking

---
 asn-compiler/src/tokenizer/mod.rs | 32 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 2164273..06153dd 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -524,13 +524,18 @@ fn get_number_token(chars: &[char], line: usize, begin: usize) -> Result<(Token,
     }
 
     let mut consumed = neg;
-    let last = chars[neg..].iter().position(|&x| !x.is_numeric());
+    let last = chars[neg..].iter().position(|&x| !x.is_ascii_digit());
     if let Some(lst) = last {
         consumed += lst;
     } else {
         consumed += chars[neg..].len();
     }
 
+    // Free standing '-' this is an error.
+    if consumed == neg {
+        return Err(Error::TokenizeError(14, line, begin));
+    }
+
     Ok((
         Token {
             r#type: TokenType::NumberInt,
@@ -690,12 +695,12 @@ fn get_seq_extension_or_square_brackets_token(
     begin: usize,
 ) -> Result<(Token, usize), Error> {
     let (token_type, consumed) = if chars[0] == '[' {
-        if chars[1] == '[' {
+        if chars.get(1) == Some(&'[') {
             (TokenType::AdditionGroupsBegin, 2)
         } else {
             (TokenType::SquareBegin, 1)
         }
-    } else if chars[1] == ']' {
+    } else if chars.get(1) == Some(&']') {
         (TokenType::AdditionGroupsEnd, 2)
     } else {
         (TokenType::SquareEnd, 1)
@@ -753,7 +758,7 @@ fn get_maybe_comment_token(
     line: usize,
     begin: usize,
 ) -> Result<(Option<Token>, usize), Error> {
-    if chars[1] != '-' {
+    if chars.get(1) != Some(&'-') {
         return Ok((None, 0));
     }
     let mut consumed = 2; // initial "--"
@@ -808,16 +813,18 @@ where
     let mut line = 1;
     let mut tokens: Vec<Token> = Vec::new();
     let mut buffer = Vec::new();
-    let _ = input.read_to_end(&mut buffer).unwrap();
-    let buffer = String::from_utf8(buffer).unwrap();
+    let _ = input
+        .read_to_end(&mut buffer)
+        .map_err(|_| Error::TokenizeError(22, line, 0))?;
+    let buffer = String::from_utf8(buffer).map_err(|_| Error::TokenizeError(23, line, 0))?;
     let chars: Vec<char> = buffer.chars().collect();
     let mut column = 0_usize;
     let mut processed = 0;
     let total_read = chars.len();
-    loop {
+    while processed < total_read {
         let c = chars[processed];
         match c {
-            ' ' | '\t' => {
+            ' ' | '\t' | '\r' | '\u{b}' | '\u{c}' => {
                 processed += 1;
                 column += 1;
             }
@@ -919,15 +926,10 @@ where
                 processed += 1;
             }
             _ => {
-                panic!(
-                    "Unsupported First character for a token: '{:?}'. Line: {}, Column: {}",
-                    chars[processed], line, column
-                );
+                // Unsupported First character for a token.
+                return Err(Error::TokenizeError(24, line, column));
             }
         }
-        if processed == total_read {
-            break;
-        }
     }
     Ok(tokens)
 }
-- 
2.43.0


From 627bda7393549255952762d1698d1fa3d473a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:47 +0000
Subject: [PATCH 21/57] fix: report unparsable components instead of looping
 forever

---
 .../parser/asn/types/constructed/choice.rs    | 32 ++++++++++++++-----
 .../src/parser/asn/types/constructed/seq.rs   | 21 +++++++-----
 asn-compiler/src/parser/asn/types/int.rs      |  5 +++
 asn-compiler/src/parser/asn/types/ioc.rs      |  5 +++
 4 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 83ca10f..acd058d 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -32,10 +32,14 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
     let mut no_ver_additions_components = vec![];
     let mut extension_markers = 0;
     loop {
-        let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
-            Ok(result) => (Some(result.0), result.1),
-            Err(_) => (None, 0),
-        };
+        let start = consumed;
+        let (component, component_consumed) =
+            if expect_token(&tokens[consumed..], Token::is_value_reference)? {
+                let (component, component_consumed) = parse_component(&tokens[consumed..])?;
+                (Some(component), component_consumed)
+            } else {
+                (None, 0)
+            };
         if let Some(c) = component {
             // We have a component that needs to be added in the `additions` list and not in the
             // `root_components`. All such components that are not part of `ChoiceAdditionGroup`
@@ -84,6 +88,10 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'COMPONENT' or '}'", tokens[consumed]));
+        }
     }
 
     let additions = if extension_markers > 0 {
@@ -130,10 +138,14 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
 
     let mut components = vec![];
     loop {
-        let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
-            Ok(result) => (Some(result.0), result.1),
-            Err(_) => (None, 0),
-        };
+        let start = consumed;
+        let (component, component_consumed) =
+            if expect_token(&tokens[consumed..], Token::is_value_reference)? {
+                let (component, component_consumed) = parse_component(&tokens[consumed..])?;
+                (Some(component), component_consumed)
+            } else {
+                (None, 0)
+            };
 
         if let Some(c) = component {
             components.push(c);
@@ -148,6 +160,10 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'COMPONENT' or ']]'", tokens[consumed]));
+        }
     }
     if components.is_empty() {
         Err(parse_error!("Additional Components cannot be empty!"))
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 6b2b6ec..d8ac40b 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -43,10 +43,8 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
     let mut additions = vec![];
     let mut ext_marker_found = 0;
     loop {
-        let (component, component_consumed) = match parse_seq_component(&tokens[consumed..]) {
-            Ok(result) => result,
-            Err(_) => (None, 0),
-        };
+        let start = consumed;
+        let (component, component_consumed) = parse_seq_component(&tokens[consumed..])?;
         if let Some(root_comp) = component {
             root_components.push(root_comp);
         }
@@ -83,6 +81,10 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'COMPONENT' or '}'", tokens[consumed]));
+        }
     }
 
     let extensible = ext_marker_found > 0;
@@ -129,10 +131,13 @@ fn parse_sequence_of_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Err
 fn parse_seq_component(tokens: &[Token]) -> Result<(Option<SeqComponent>, usize), Error> {
     let mut consumed = 0;
 
-    let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
-        Ok(result) => (Some(result.0), result.1),
-        Err(_) => (None, 0),
-    };
+    let (component, component_consumed) =
+        if expect_token(&tokens[consumed..], Token::is_value_reference)? {
+            let (component, component_consumed) = parse_component(&tokens[consumed..])?;
+            (Some(component), component_consumed)
+        } else {
+            (None, 0)
+        };
     consumed += component_consumed;
 
     if let Some(component) = component {
diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 470acae..346ac5f 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -194,6 +194,7 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
 
     let mut params = vec![];
     loop {
+        let start = consumed;
         if expect_token(&tokens[consumed..], Token::is_curly_begin)? {
             consumed += 1;
             let param = if expect_one_of_tokens(
@@ -229,6 +230,10 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'PARAMETER' or '}'", tokens[consumed]));
+        }
     }
     Ok((params, consumed))
 }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index d81941c..7afada1 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -314,6 +314,7 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
     let mut additional_elements = vec![];
     let mut extension_token_count = 0;
     loop {
+        let start = consumed;
         if expect_token(&tokens[consumed..], Token::is_extension)? {
             extension_token_count += 1;
             if extension_token_count > 1 {
@@ -371,6 +372,10 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'OBJECT' or '}'", tokens[consumed]));
+        }
     }
     Ok((
         ObjectSet {
-- 
2.43.0


From cc753e03a20ae2899719ba48c54aa8c3f161bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:05 +0000
Subject: [PATCH 22/57] fix: match the fields of an object in the order of the
 WITH SYNTAX clause

---
 .../src/parser/asn/structs/types/ioc.rs       |  44 ++++--
 asn-compiler/src/parser/asn/types/ioc.rs      | 128 +++++++++++-------
 2 files changed, 108 insertions(+), 64 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 79b5ca2..728e8f7 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -38,11 +38,31 @@ impl ObjectClassFieldSpec {
         }
     }
 
-    fn with_syntax(&self) -> Option<String> {
+    // Words that precede the value of the field in an Object definition.
+    //
+    // Without a `WITH SYNTAX` clause, this is the name of the field itself.
+    pub(crate) fn syntax_words(&self) -> Vec<String> {
         match self {
-            Self::Type { with_syntax, .. } | Self::FixedTypeValue { with_syntax, .. } => {
-                with_syntax.clone()
+            Self::Type {
+                id, with_syntax, ..
             }
+            | Self::FixedTypeValue {
+                id, with_syntax, ..
+            } => match with_syntax {
+                Some(words) => words.split_whitespace().map(|w| w.to_string()).collect(),
+                None => vec![id.clone()],
+            },
+        }
+    }
+
+    pub(crate) fn is_mandatory(&self) -> bool {
+        match self {
+            Self::Type {
+                optional, default, ..
+            } => !*optional && default.is_none(),
+            Self::FixedTypeValue {
+                optional, default, ..
+            } => !*optional && default.is_none(),
         }
     }
 }
@@ -50,6 +70,12 @@ impl ObjectClassFieldSpec {
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ObjectClass {
     pub(crate) fields: HashMap<String, ObjectClassFieldSpec>,
+
+    // Field names in the order of their definition.
+    pub(crate) order: Vec<String>,
+
+    // Field names in the order of the `WITH SYNTAX` clause. `None`, if there is no such clause.
+    pub(crate) syntax_order: Option<Vec<String>>,
 }
 
 impl Asn1ObjectClass {
@@ -65,8 +91,9 @@ impl Asn1ObjectClass {
     }
 
     pub(crate) fn get_first_unique_field_id(&self) -> Option<String> {
-        for (name, value) in &self.fields {
-            if let ObjectClassFieldSpec::FixedTypeValue { unique, .. } = value {
+        for name in &self.order {
+            if let Some(ObjectClassFieldSpec::FixedTypeValue { unique, .. }) = self.fields.get(name)
+            {
                 if *unique {
                     return Some(name.clone());
                 }
@@ -74,13 +101,6 @@ impl Asn1ObjectClass {
         }
         None
     }
-
-    pub(crate) fn get_with_syntax_words(&self) -> Vec<String> {
-        self.fields
-            .values()
-            .filter_map(|v| v.with_syntax())
-            .collect::<Vec<String>>()
-    }
 }
 
 #[derive(Debug, Clone)]
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index 7afada1..d4cfc88 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -30,12 +30,19 @@ pub(crate) fn parse_class(tokens: &[Token]) -> Result<(Asn1ObjectClass, usize),
     consumed += 1;
 
     let mut fields = HashMap::new();
+    let mut order = vec![];
     loop {
         // Any error in parsing a field spec is an error.
         let (field_spec, field_spec_consumed) = parse_field_spec(&tokens[consumed..])?;
         consumed += field_spec_consumed;
 
-        fields.insert(field_spec.id(), field_spec);
+        order.push(field_spec.id());
+        if fields.insert(field_spec.id(), field_spec).is_some() {
+            return Err(parse_error!(
+                "Field '{}' is defined more than once in the CLASS.",
+                order[order.len() - 1]
+            ));
+        }
 
         if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
@@ -47,10 +54,18 @@ pub(crate) fn parse_class(tokens: &[Token]) -> Result<(Asn1ObjectClass, usize),
         }
     }
 
-    let with_syntax_consumed = parse_with_syntax_for_fields(&tokens[consumed..], &mut fields)?;
+    let (syntax_order, with_syntax_consumed) =
+        parse_with_syntax_for_fields(&tokens[consumed..], &mut fields)?;
     consumed += with_syntax_consumed;
 
-    Ok((Asn1ObjectClass { fields }, consumed))
+    Ok((
+        Asn1ObjectClass {
+            fields,
+            order,
+            syntax_order,
+        },
+        consumed,
+    ))
 }
 
 fn parse_field_spec(tokens: &[Token]) -> Result<(ObjectClassFieldSpec, usize), Error> {
@@ -203,10 +218,10 @@ fn parse_type_field_spec(tokens: &[Token]) -> Result<(ObjectClassFieldSpec, usiz
 fn parse_with_syntax_for_fields(
     tokens: &[Token],
     fields: &mut HashMap<String, ObjectClassFieldSpec>,
-) -> Result<usize, Error> {
+) -> Result<(Option<Vec<String>>, usize), Error> {
     let mut consumed = 0;
     if !expect_keywords(&tokens[consumed..], &["WITH", "SYNTAX"])? {
-        return Ok(consumed);
+        return Ok((None, consumed));
     }
     consumed += 2;
 
@@ -215,6 +230,7 @@ fn parse_with_syntax_for_fields(
     }
     consumed += 1;
 
+    let mut syntax_order = vec![];
     let mut in_optional_group = false;
     loop {
         if expect_token(&tokens[consumed..], Token::is_square_begin)? {
@@ -250,6 +266,7 @@ fn parse_with_syntax_for_fields(
             consumed += 1;
 
             let field = field.unwrap();
+            syntax_order.push(field.id());
 
             let is_default_none = match field {
                 ObjectClassFieldSpec::Type { default, .. } => default.is_none(),
@@ -272,6 +289,12 @@ fn parse_with_syntax_for_fields(
                                 field
                             ));
                     }
+                    if with_syntax.is_some() {
+                        return Err(parse_error!(
+                            "Field {} found more than once in WITH SYNTAX",
+                            field.id()
+                        ));
+                    }
                     *with_syntax = Some(words);
                 }
             }
@@ -299,7 +322,7 @@ fn parse_with_syntax_for_fields(
         }
     }
 
-    Ok(consumed)
+    Ok((Some(syntax_order), consumed))
 }
 
 pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), Error> {
@@ -443,40 +466,57 @@ pub(crate) fn parse_object_from_class(
 ) -> Result<Asn1ObjectValue, Error> {
     let reader = std::io::BufReader::new(std::io::Cursor::new(value));
     let tokens = tokenize(reader)?;
-    let mut consumed = 0;
+    if tokens.len() < 2 {
+        return Err(parse_error!("Unable to parse '{}' as an Object.", value));
+    }
     let object_tokens = &tokens[1..tokens.len() - 1];
 
-    // We are splitting the tokens by words from WITH SYNTAX. This will use any word that's not
-    // there in WITH SYNTAX. This is a bit complicated because we've to also worry about WITH
-    // SYNTAX words that can be more than a single WORD.
-    let word_tokens = &mut object_tokens.split(|t| {
-        !class
-            .get_with_syntax_words()
-            .iter()
-            .any(|f| f.split_whitespace().any(|w| t.text == w))
-    });
+    // The values of the fields follow each other in the order of the `WITH SYNTAX` clause, each of
+    // them preceded by the words given for it. Fields that are not mandatory may be absent.
+    let mut consumed = 0;
     let mut fields = HashMap::new();
-    for words in word_tokens {
-        consumed += words.len();
-        let words = words
-            .iter()
-            .map(|t| t.text.clone())
-            .collect::<Vec<String>>()
-            .join(" ");
-        let field_spec = class_fieldspec_from_words(class, &words);
-        if let Some(fspec) = field_spec {
-            let (field_spec_value, field_spec_value_consumed) =
-                value_from_field_spec(fspec, &object_tokens[consumed..])?;
-            fields.insert(fspec.id(), field_spec_value);
-            consumed += field_spec_value_consumed;
-
-            // Required to handle &Type IDENTIFIED BY &id
-            if consumed == object_tokens.len() {
-                break;
+    let order = class.syntax_order.as_ref().unwrap_or(&class.order);
+    for (idx, id) in order.iter().enumerate() {
+        let fspec = &class.fields[id];
+        let rest = &object_tokens[consumed..];
+        let words = fspec.syntax_words();
+
+        // An absent field without any words is only noticed from the words of a following field.
+        let absent = !starts_with_words(rest, &words)
+            || rest.len() == words.len()
+            || (words.is_empty()
+                && order[idx + 1..].iter().any(|next| {
+                    let words = class.fields[next].syntax_words();
+                    !words.is_empty() && starts_with_words(rest, &words)
+                }));
+        if absent {
+            if fspec.is_mandatory() {
+                return Err(parse_error!(
+                    "Value for the field '{}' not found in the Object '{}'.",
+                    id,
+                    value
+                ));
             }
+            continue;
+        }
+        consumed += words.len();
+
+        let (field_spec_value, field_spec_value_consumed) =
+            value_from_field_spec(fspec, &object_tokens[consumed..])?;
+        fields.insert(id.clone(), field_spec_value);
+        consumed += field_spec_value_consumed;
+
+        if consumed < object_tokens.len()
+            && expect_token(&object_tokens[consumed..], Token::is_comma)?
+        {
+            consumed += 1;
         }
     }
 
+    if consumed < object_tokens.len() {
+        return Err(unexpected_token!("'}'", object_tokens[consumed]));
+    }
+
     // If we didn't find an optional value, Check if default exists, if default exists, give it to
     // the resolved value.
     for (key, spec) in class.fields.iter() {
@@ -514,25 +554,9 @@ pub(crate) fn parse_object_from_class(
     Ok(Asn1ObjectValue::Asn1ObjectFromClass { fields })
 }
 
-fn class_fieldspec_from_words<'c>(
-    class: &'c Asn1ObjectClass,
-    words: &str,
-) -> Option<&'c ObjectClassFieldSpec> {
-    for field in class.fields.values() {
-        match field {
-            ObjectClassFieldSpec::Type { with_syntax, .. }
-            | ObjectClassFieldSpec::FixedTypeValue { with_syntax, .. } => {
-                if with_syntax.is_none() {
-                    continue;
-                }
-                let with_syntax = with_syntax.as_ref().unwrap();
-                if with_syntax == words {
-                    return Some(field);
-                }
-            }
-        }
-    }
-    None
+// Returns true if the tokens begin with all of the given words.
+fn starts_with_words(tokens: &[Token], words: &[String]) -> bool {
+    tokens.len() >= words.len() && tokens.iter().zip(words.iter()).all(|(t, w)| &t.text == w)
 }
 
 fn value_from_field_spec(
-- 
2.43.0


From cf26bf355a639bcc079e9fd1cb58d019f0ec8136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:45 +0000
Subject: [PATCH 23/57] fix: keep the objects with literal identifiers or
 builtin types in an object set

---
 .../src/resolver/asn/structs/values.rs        |  10 --
 .../src/resolver/asn/types/constraints.rs     |  19 +--
 .../src/resolver/asn/types/constructed.rs     |   4 +-
 asn-compiler/src/resolver/asn/types/ioc.rs    | 130 ++++++++++--------
 asn-compiler/src/resolver/asn/values.rs       |   4 +-
 asn-compiler/src/resolver/int.rs              |  19 ++-
 6 files changed, 99 insertions(+), 87 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/values.rs b/asn-compiler/src/resolver/asn/structs/values.rs
index 285e4d4..da6781c 100644
--- a/asn-compiler/src/resolver/asn/structs/values.rs
+++ b/asn-compiler/src/resolver/asn/structs/values.rs
@@ -48,13 +48,3 @@ pub(crate) enum Asn1ResolvedValue {
     },
     Base(ResolvedBaseValue),
 }
-
-impl Asn1ResolvedValue {
-    pub(crate) fn get_base_integer_value(&self) -> Option<i128> {
-        match self {
-            Self::Base(ResolvedBaseValue::Integer(ref i)) => Some(i.value as i128),
-            Self::ReferencedType { value, .. } => value.get_base_integer_value(),
-            _ => None,
-        }
-    }
-}
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 732986a..4bf7987 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -8,7 +8,6 @@ use crate::parser::asn::structs::types::constraints::*;
 use crate::resolver::asn::structs::{
     defs::Asn1ResolvedDefinition,
     types::constraints::{Asn1ConstraintValueSet, ConstraintValues},
-    values::{Asn1ResolvedValue, ResolvedBaseValue},
 };
 use crate::resolver::Resolver;
 
@@ -358,17 +357,13 @@ impl SubtypeElements {
                         value
                     )),
                     Some(res) => {
-                        if let Asn1ResolvedDefinition::Value(Asn1ResolvedValue::Base(
-                            ResolvedBaseValue::Integer(ref i),
-                        )) = res
-                        {
-                            Ok(i.value)
-                        } else {
-                            Err(constraint_error!(
-                                "Resolved Value {:#?} of different type!",
-                                res
-                            ))
-                        }
+                        let integer = match res {
+                            Asn1ResolvedDefinition::Value(ref v) => resolver.get_integer_value(v),
+                            _ => None,
+                        };
+                        integer.ok_or_else(|| {
+                            constraint_error!("Resolved Value {:#?} of different type!", res)
+                        })
                     }
                 }
             }
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index ebf433c..ef19a1c 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -266,10 +266,10 @@ fn get_seq_component_for_object_set(
         if let ResolvedObjectSetElement::Object(ref o) = object {
             let field_ob = o.fields.get(fieldref);
             if let Some(ResolvedFieldSpec::Type { ty }) = field_ob {
-                if let Some(Asn1ResolvedType::Reference(ref _tyid)) = ty {
+                if let Some(ty) = ty {
                     types.insert(
                         (key.1.clone(), key.0.clone()),
-                        (key.0.clone(), ty.as_ref().unwrap().clone()),
+                        (key.0.clone(), ty.clone()),
                     );
                 }
             }
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 975273f..ecfa2c4 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -11,9 +11,12 @@ use crate::resolver::{
     asn::{
         structs::{
             defs::Asn1ResolvedDefinition,
-            types::ioc::{
-                Asn1ResolvedObject, Asn1ResolvedObjectSet, ResolvedFieldSpec, ResolvedObjectSet,
-                ResolvedObjectSetElement,
+            types::{
+                ioc::{
+                    Asn1ResolvedObject, Asn1ResolvedObjectSet, ResolvedFieldSpec, ResolvedObjectSet,
+                    ResolvedObjectSetElement,
+                },
+                Asn1ResolvedType,
             },
             values::Asn1ResolvedValue,
         },
@@ -38,13 +41,13 @@ pub(crate) fn resolve_object_set(
             // if the class has UNIQUE field, create a Map for the values from that field to the
             // Object. Note: it's indeed possible to have more than one unique field, but we are not
             // supporting it at the moment, we'll create the map for the 'first' unique field.
-            let class = cls.get_inner_class().unwrap().classref; // inner class is guaranteed to be Some or a BUG, Let it Panic
-            let unique_field = class.get_first_unique_field_id();
-            let unique_field = if let Some(u) = unique_field {
-                u
-            } else {
-                "".to_string()
+            let class = match cls.get_inner_class() {
+                Some(c) => c.classref,
+                None => {
+                    return Err(resolve_error!("'{}' is not a class!", objectset.class));
+                }
             };
+            let unique_field = class.get_first_unique_field_id().unwrap_or_default();
             let mut lookup_table = HashMap::new();
 
             let mut elements = vec![];
@@ -95,35 +98,13 @@ pub(crate) fn resolve_object_set(
                                             fields: o.fields.clone(),
                                         });
                                     elements.push(element.clone());
-                                    if !unique_field.is_empty() {
-                                        if let ResolvedObjectSetElement::Object(ref o) = element {
-                                            let field = o.fields.get(&unique_field);
-                                            if let ResolvedFieldSpec::FixedTypeValue {
-                                                value,
-                                                typeref,
-                                            } = field.unwrap()
-                                            {
-                                                decoder_ty.replace(typeref.clone());
-                                                let value = value.as_ref().unwrap();
-                                                if let Asn1ResolvedValue::Reference(ref s) = value {
-                                                    let v = resolver.resolved_defs.get(s).unwrap();
-
-                                                    if let Asn1ResolvedDefinition::Value(ref v) = v
-                                                    {
-                                                        // Get the actual Value - Usually this value is an
-                                                        // Integer Value. This Value is to be used by the
-                                                        // decoder.
-                                                        let v = format!(
-                                                            "{}",
-                                                            v.get_base_integer_value().unwrap()
-                                                        );
-                                                        lookup_table
-                                                            .insert((v, s.clone()), element);
-                                                    }
-                                                }
-                                            }
-                                        }
-                                    }
+                                    add_to_lookup_table(
+                                        &element,
+                                        &unique_field,
+                                        &mut decoder_ty,
+                                        &mut lookup_table,
+                                        resolver,
+                                    )?;
                                 } else {
                                     return Err(resolve_error!(
                                         "Resolved '{}' is not an Object!",
@@ -141,29 +122,13 @@ pub(crate) fn resolve_object_set(
                             resolver,
                         )?);
                         elements.push(element.clone());
-                        if !unique_field.is_empty() {
-                            if let ResolvedObjectSetElement::Object(ref o) = element {
-                                let field = o.fields.get(&unique_field);
-                                if let ResolvedFieldSpec::FixedTypeValue { value, typeref } =
-                                    field.unwrap()
-                                {
-                                    decoder_ty.replace(typeref.clone());
-                                    let value = value.as_ref().unwrap();
-                                    if let Asn1ResolvedValue::Reference(ref s) = value {
-                                        let v = resolver.resolved_defs.get(s).unwrap();
-
-                                        if let Asn1ResolvedDefinition::Value(ref v) = v {
-                                            // Get the actual Value - Usually this value is an
-                                            // Integer Value. This Value is to be used by the
-                                            // decoder.
-                                            let v =
-                                                format!("{}", v.get_base_integer_value().unwrap());
-                                            lookup_table.insert((v, s.clone()), element);
-                                        }
-                                    }
-                                }
-                            }
-                        }
+                        add_to_lookup_table(
+                            &element,
+                            &unique_field,
+                            &mut decoder_ty,
+                            &mut lookup_table,
+                            resolver,
+                        )?;
                     }
                 }
             }
@@ -179,6 +144,49 @@ pub(crate) fn resolve_object_set(
     }
 }
 
+// Adds the `element` to the `lookup_table` by the value of it's `UNIQUE` field.
+//
+// The Value is to be used by the decoder, hence it has to be an Integer value.
+fn add_to_lookup_table(
+    element: &ResolvedObjectSetElement,
+    unique_field: &str,
+    decoder_ty: &mut Option<Asn1ResolvedType>,
+    lookup_table: &mut HashMap<(String, String), ResolvedObjectSetElement>,
+    resolver: &Resolver,
+) -> Result<(), Error> {
+    let object = match element {
+        ResolvedObjectSetElement::Object(ref o) if !unique_field.is_empty() => o,
+        _ => return Ok(()),
+    };
+
+    if let Some(ResolvedFieldSpec::FixedTypeValue {
+        value: Some(value),
+        typeref,
+    }) = object.fields.get(unique_field)
+    {
+        decoder_ty.replace(typeref.clone());
+        let integer = resolver.get_integer_value(value).ok_or_else(|| {
+            resolve_error!(
+                "Value of the field '{}' in the object '{}' is not an INTEGER.",
+                unique_field,
+                object.name
+            )
+        })?;
+        let name = match value {
+            Asn1ResolvedValue::Reference(ref s) => s.clone(),
+            _ => format!("Id {}", integer).replace('-', "minus "),
+        };
+        let _ = lookup_table.insert((integer.to_string(), name), element.clone());
+        Ok(())
+    } else {
+        Err(resolve_error!(
+            "Field '{}' not found in the object '{}'.",
+            unique_field,
+            object.name
+        ))
+    }
+}
+
 pub(crate) fn resolve_object(
     object_name: &str,
     object_value: &Asn1ObjectValue,
diff --git a/asn-compiler/src/resolver/asn/values.rs b/asn-compiler/src/resolver/asn/values.rs
index 08914f1..9297057 100644
--- a/asn-compiler/src/resolver/asn/values.rs
+++ b/asn-compiler/src/resolver/asn/values.rs
@@ -25,7 +25,9 @@ pub(crate) fn resolve_value(
             match typeref {
                 Asn1ResolvedType::Base(ref b) => match b {
                     ResolvedBaseType::Integer(ref _i) => {
-                        let value = value.parse::<BaseInteger>().unwrap();
+                        let value = value.parse::<BaseInteger>().map_err(|_| {
+                            resolve_error!("'{}' is not a value of an INTEGER type.", value)
+                        })?;
                         Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(
                             Asn1ResolvedIntegerValue {
                                 typeref: typeref.clone(),
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 30cbbc6..f86056b 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -6,7 +6,11 @@ use crate::error::Error;
 
 use crate::parser::asn::structs::{defs::Asn1Definition, module::Asn1Module};
 
-use crate::resolver::asn::structs::{defs::Asn1ResolvedDefinition, types::Asn1ResolvedType};
+use crate::resolver::asn::structs::{
+    defs::Asn1ResolvedDefinition,
+    types::Asn1ResolvedType,
+    values::{Asn1ResolvedValue, ResolvedBaseValue},
+};
 
 use crate::resolver::asn::defs::resolve_definition;
 
@@ -98,6 +102,19 @@ impl Resolver {
         Ok(())
     }
 
+    // Follows the references to a value till an INTEGER value is found.
+    pub(crate) fn get_integer_value(&self, value: &Asn1ResolvedValue) -> Option<i128> {
+        match value {
+            Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(ref i)) => Some(i.value),
+            Asn1ResolvedValue::ReferencedType { ref value, .. } => self.get_integer_value(value),
+            Asn1ResolvedValue::Reference(ref name) => match self.resolved_defs.get(name) {
+                Some(Asn1ResolvedDefinition::Value(ref v)) => self.get_integer_value(v),
+                _ => None,
+            },
+            _ => None,
+        }
+    }
+
     pub(crate) fn get_resolved_types(&self) -> Vec<(&String, &Asn1ResolvedType)> {
         self.resolved_defs
             .iter()
-- 
2.43.0


From 261f12343d85b6b175bc32bff292c2f33dc3eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:24 +0000
Subject: [PATCH 24/57] fix: use the largest of values and ranges as the upper
 bound of a constraint

---
 asn-compiler/src/resolver/asn/structs/types/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 78ddae2..9f50ffd 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -44,7 +44,7 @@ impl ConstraintValues {
             None => ranges_max,
             Some(vals_max) => match ranges_max {
                 None => Some(*vals_max),
-                Some(rnges_max) => Some(std::cmp::min(rnges_max, *vals_max)), // FIXME: This should be std::cmp::max?
+                Some(rnges_max) => Some(std::cmp::max(rnges_max, *vals_max)),
             },
         }
     }
-- 
2.43.0


From d6fecddb2030618d61a287aac526d50453233e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:40 +0000
Subject: [PATCH 25/57] fix: apply every PER-visible constraint of a type, also
 on references

Serial constraints, MIN and MAX, SIZE unions and extensions, constraints on
type references and on contained subtypes were ignored or misread. What is
not supported is reported as an error.
---
 .../resolver/asn/structs/types/constraints.rs | 108 +++++-
 .../src/resolver/asn/types/base/bitstring.rs  |  14 +-
 .../src/resolver/asn/types/base/charstring.rs |  28 +-
 .../src/resolver/asn/types/base/integer.rs    | 103 +++---
 .../src/resolver/asn/types/base/mod.rs        |  11 +
 .../resolver/asn/types/base/octetstring.rs    |  17 +-
 .../src/resolver/asn/types/constraints.rs     | 344 +++++++++++-------
 .../src/resolver/asn/types/constructed.rs     |  16 +-
 asn-compiler/src/resolver/asn/types/int.rs    | 135 ++++++-
 asn-compiler/src/resolver/int.rs              |  11 +
 10 files changed, 530 insertions(+), 257 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 9f50ffd..1bb26f1 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -2,6 +2,14 @@
 
 use std::ops::Range;
 
+use crate::error::Error;
+
+/// Start of a range without a lower bound (`MIN`).
+pub(crate) const UNBOUNDED_MIN: i128 = i128::MIN;
+
+/// End of a range without an upper bound (`MAX`).
+pub(crate) const UNBOUNDED_END: i128 = i128::MAX;
+
 #[derive(Debug, Clone)]
 pub(crate) struct ConstraintValues {
     pub(crate) ranges: Vec<Range<i128>>,
@@ -16,6 +24,17 @@ impl ConstraintValues {
         }
     }
 
+    /// All the values of an INTEGER without any constraints.
+    pub(crate) fn unconstrained() -> Self {
+        ConstraintValues {
+            ranges: vec![Range {
+                start: UNBOUNDED_MIN,
+                end: UNBOUNDED_END,
+            }],
+            values: vec![],
+        }
+    }
+
     pub(crate) fn append(&mut self, other: &Self) {
         self.ranges.extend(other.ranges.clone());
         self.values.extend(other.values.clone());
@@ -25,30 +44,42 @@ impl ConstraintValues {
         self.values.is_empty() && self.ranges.is_empty()
     }
 
-    pub(crate) fn min(&self) -> Option<i128> {
-        let values_min = self.values.iter().min();
-        let ranges_min = self.ranges.iter().map(|r| r.start).min();
-        match values_min {
-            None => ranges_min,
-            Some(vals_min) => match ranges_min {
-                None => Some(*vals_min),
-                Some(rnges_min) => Some(std::cmp::min(rnges_min, *vals_min)),
-            },
+    /// Values that are in this set and in the other one.
+    pub(crate) fn intersection(&self, other: &Self) -> Self {
+        let mut output = Self::new();
+        for left in self.all_ranges() {
+            for right in other.all_ranges() {
+                let start = std::cmp::max(left.start, right.start);
+                let end = std::cmp::min(left.end, right.end);
+                if start < end {
+                    output.ranges.push(Range { start, end });
+                }
+            }
         }
+        output
+    }
+
+    fn all_ranges(&self) -> impl Iterator<Item = Range<i128>> + '_ {
+        let values = self.values.iter().map(|v| Range {
+            start: *v,
+            end: *v + 1,
+        });
+        self.ranges.iter().cloned().chain(values)
     }
 
+    /// The smallest value. `None` if there is no lower bound.
+    pub(crate) fn min(&self) -> Option<i128> {
+        let min = self.all_ranges().map(|r| r.start).min();
+        min.filter(|m| *m != UNBOUNDED_MIN)
+    }
+
+    /// The largest value. `None` if there is no upper bound.
     pub(crate) fn max(&self) -> Option<i128> {
-        let values_max = self.values.iter().max();
-        let ranges_max = self.ranges.iter().map(|r| r.end - 1).max();
-        match values_max {
-            None => ranges_max,
-            Some(vals_max) => match ranges_max {
-                None => Some(*vals_max),
-                Some(rnges_max) => Some(std::cmp::max(rnges_max, *vals_max)),
-            },
-        }
+        let end = self.all_ranges().map(|r| r.end).max();
+        end.filter(|e| *e != UNBOUNDED_END).map(|e| e - 1)
     }
 }
+
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ConstraintValueSet {
     pub(crate) root_values: ConstraintValues,
@@ -59,4 +90,45 @@ impl Asn1ConstraintValueSet {
     pub(crate) fn has_extension(&self) -> bool {
         self.additional_values.is_some()
     }
+
+    /// Applies this constraint to the values allowed by the `parent`.
+    ///
+    /// Only the root values of the `parent` matter and it's extensibility is lost.
+    pub(crate) fn constrain(&self, parent: Option<&Self>) -> Result<Self, Error> {
+        let root_values = match parent {
+            Some(p) => p.root_values.intersection(&self.root_values),
+            None => self.root_values.clone(),
+        };
+        if root_values.is_empty() {
+            Err(constraint_error!(
+                "No value is allowed by the Constraint '{:#?}'.",
+                self
+            ))
+        } else {
+            Ok(Self {
+                root_values,
+                additional_values: self.additional_values.clone(),
+            })
+        }
+    }
+
+    /// Same as `constrain` but for the values of a size.
+    pub(crate) fn constrain_size(&self, parent: Option<&Self>) -> Result<Self, Error> {
+        if self.root_values.min().map_or(false, |min| min < 0) {
+            return Err(constraint_error!(
+                "Negative size in the Constraint '{:#?}'.",
+                self
+            ));
+        }
+        let mut all_sizes = ConstraintValues::new();
+        all_sizes.ranges.push(Range {
+            start: 0,
+            end: UNBOUNDED_END,
+        });
+        let sizes = Self {
+            root_values: self.root_values.intersection(&all_sizes),
+            additional_values: self.additional_values.clone(),
+        };
+        sizes.constrain(parent)
+    }
 }
diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index cb0f510..11a5eda 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -19,19 +19,7 @@ impl Asn1ResolvedBitString {
     ) -> Result<Asn1ResolvedBitString, Error> {
         let mut base = Asn1ResolvedBitString::default();
 
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
-        }
+        base.size = ty.get_size_valueset_from_constraints(None, resolver)?;
 
         if b.named_bits.is_some() {
             let mut named_values = HashMap::new();
diff --git a/asn-compiler/src/resolver/asn/types/base/charstring.rs b/asn-compiler/src/resolver/asn/types/base/charstring.rs
index 42f279b..1d40649 100644
--- a/asn-compiler/src/resolver/asn/types/base/charstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/charstring.rs
@@ -16,22 +16,20 @@ impl Asn1ResolvedCharacterString {
         if let Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString { str_type }) = &ty.kind {
             base.str_type = str_type.clone();
         }
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
+        base.constrain(ty, resolver)?;
 
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    return Err(constraint_error!(
-                        "Expected a Size Constraint, Found '{:#?}'",
-                        constraint
-                    ));
-                }
-            }
-        }
         Ok(base)
     }
+
+    // Applies the constraints of the type `ty` to this type.
+    pub(crate) fn constrain(&mut self, ty: &Asn1Type, resolver: &Resolver) -> Result<(), Error> {
+        if !ty.has_only_size_constraints(resolver)? {
+            return Err(constraint_error!(
+                "Expected a Size Constraint, Found '{:#?}'",
+                ty.constraints
+            ));
+        }
+        self.size = ty.get_size_valueset_from_constraints(self.size.as_ref(), resolver)?;
+        Ok(())
+    }
 }
diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 4ce50a3..41b34f2 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -3,7 +3,10 @@
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{base::Asn1TypeInteger, Asn1Type};
-use crate::resolver::asn::structs::types::base::Asn1ResolvedInteger;
+use crate::resolver::asn::structs::types::{
+    base::Asn1ResolvedInteger,
+    constraints::{Asn1ConstraintValueSet, ConstraintValues},
+};
 use crate::resolver::Resolver;
 
 impl Asn1ResolvedInteger {
@@ -15,54 +18,64 @@ impl Asn1ResolvedInteger {
     ) -> Result<Asn1ResolvedInteger, Error> {
         let mut base = Asn1ResolvedInteger::default();
 
-        if ty.constraints.is_none() {
-            return Ok(base);
-        } else {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if constraints.is_empty() {
-                return Ok(base);
-            }
-        }
-
-        // Get the Values that are expected
-        let value_set = ty.get_integer_valueset_from_constraint(resolver)?;
-        if let Some(x) = value_set.root_values.min() {
-            if x < 0 {
-                base.signed = true
-            } else {
-                base.signed = false
-            }
-        }
-
-        let bit_width = if base.signed {
-            let min = value_set.root_values.min().unwrap();
-            let max = value_set.root_values.max().unwrap();
-            let bits_needed_max = 128 - max.abs().leading_zeros();
-            let bits_needed_min = 128 - min.abs().leading_zeros();
-            std::cmp::max(bits_needed_min, bits_needed_max)
-        } else if value_set.root_values.min().is_none() {
-            8_u32
-        } else {
-            let max = value_set.root_values.max().unwrap();
-            128 - max.leading_zeros()
-        };
-
-        base.bits = if bit_width <= 8 {
-            8
-        } else if bit_width <= 16 {
-            16
-        } else if bit_width <= 32 {
-            32
-        } else if bit_width <= 64 {
-            64
-        } else {
-            128
-        };
+        let value_set = ty.get_integer_valueset_from_constraints(None, resolver)?;
+        base.set_constraints(value_set)?;
 
         // TODO: If we have named values, They should be added to Global list of resolved definitions.
         if i.named_values.is_some() {}
 
-        let _ = base.resolved_constraints.replace(value_set);
         Ok(base)
     }
+
+    // Values allowed by the root of the constraints of this type.
+    pub(crate) fn root_values(&self) -> ConstraintValues {
+        match self.resolved_constraints {
+            Some(ref constraints) => constraints.root_values.clone(),
+            None => ConstraintValues::unconstrained(),
+        }
+    }
+
+    // Sets the constraints and determines the width and the signedness of the type.
+    //
+    // The type is able to hold all the values allowed by the constraint including those that are
+    // specified after the extension marker.
+    pub(crate) fn set_constraints(
+        &mut self,
+        constraints: Option<Asn1ConstraintValueSet>,
+    ) -> Result<(), Error> {
+        if let Some(ref value_set) = constraints {
+            let mut values = value_set.root_values.clone();
+            if let Some(ref additional) = value_set.additional_values {
+                values.append(additional);
+            }
+            let (min, max) = (values.min(), values.max());
+
+            self.signed = min.map_or(true, |m| m < 0);
+            self.bits = match (min, max) {
+                (Some(min), Some(max)) => {
+                    let value_bits = |v: i128| 128 - (if v < 0 { !v } else { v }).leading_zeros();
+                    let bits = std::cmp::max(value_bits(min), value_bits(max));
+                    match bits + self.signed as u32 {
+                        0..=8 => 8,
+                        9..=16 => 16,
+                        17..=32 => 32,
+                        33..=64 => 64,
+                        _ => {
+                            return Err(constraint_error!(
+                                "There is no type for the values {}..{}.",
+                                min,
+                                max
+                            ))
+                        }
+                    }
+                }
+                (_, Some(max)) if max > i64::MAX as i128 => {
+                    return Err(constraint_error!("There is no type for the values ..{}.", max))
+                }
+                _ => 64,
+            };
+        }
+        self.resolved_constraints = constraints;
+        Ok(())
+    }
 }
diff --git a/asn-compiler/src/resolver/asn/types/base/mod.rs b/asn-compiler/src/resolver/asn/types/base/mod.rs
index 3ad3b29..affcfc9 100644
--- a/asn-compiler/src/resolver/asn/types/base/mod.rs
+++ b/asn-compiler/src/resolver/asn/types/base/mod.rs
@@ -29,6 +29,17 @@ pub(crate) fn resolve_base_type(
 ) -> Result<ResolvedBaseType, Error> {
     if let Asn1TypeKind::Builtin(ref kind) = ty.kind {
         match kind {
+            Asn1BuiltinType::Enumerated(..)
+            | Asn1BuiltinType::Boolean
+            | Asn1BuiltinType::ObjectIdentifier
+            | Asn1BuiltinType::Null
+                if ty.has_size_constraints(resolver)? =>
+            {
+                Err(constraint_error!(
+                    "Size Constraint on a type without a size. '{:#?}'",
+                    ty
+                ))
+            }
             Asn1BuiltinType::Integer(ref i) => Ok(ResolvedBaseType::Integer(
                 Asn1ResolvedInteger::resolve_integer(ty, i, resolver)?,
             )),
diff --git a/asn-compiler/src/resolver/asn/types/base/octetstring.rs b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
index 0ed52b6..9938087 100644
--- a/asn-compiler/src/resolver/asn/types/base/octetstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
@@ -11,21 +11,8 @@ impl Asn1ResolvedOctetString {
         ty: &Asn1Type,
         resolver: &Resolver,
     ) -> Result<Asn1ResolvedOctetString, Error> {
-        let mut base = Asn1ResolvedOctetString::default();
+        let size = ty.get_size_valueset_from_constraints(None, resolver)?;
 
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
-        }
-        Ok(base)
+        Ok(Asn1ResolvedOctetString { size })
     }
 }
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 4bf7987..06333a8 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -7,7 +7,11 @@ use crate::parser::asn::structs::types::constraints::*;
 
 use crate::resolver::asn::structs::{
     defs::Asn1ResolvedDefinition,
-    types::constraints::{Asn1ConstraintValueSet, ConstraintValues},
+    types::{
+        base::ResolvedBaseType,
+        constraints::{Asn1ConstraintValueSet, ConstraintValues, UNBOUNDED_END, UNBOUNDED_MIN},
+        Asn1ResolvedType,
+    },
 };
 use crate::resolver::Resolver;
 
@@ -73,7 +77,7 @@ impl Asn1Constraint {
     /// Returns Dependent Components for the constraint
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         match self {
-            Self::Table(ref _t) => vec![self.get_set_reference().unwrap()],
+            Self::Table(ref _t) => self.get_set_reference().into_iter().collect(),
             Self::Subtype(ref s) => s.clone().dependent_references(), // FIXME: Need to get reference
             Self::Contents { .. } => vec![], // FIXME: Not sure but perhaps this causes lot of circular dependencies
         }
@@ -106,52 +110,18 @@ impl Asn1Constraint {
         true
     }
 
-    // Returns whether the constraint is a 'size' constraint.
-    pub(crate) fn is_size_constraint(&self) -> bool {
-        if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() != 1 {
-                false
-            } else {
-                matches!(
-                    iset[0].elements[0],
-                    Elements::Subtype(SubtypeElements::SizeConstraint(..))
-                )
-            }
-        } else {
-            false
-        }
-    }
-
+    /// Returns the values for the size, if the constraint is a 'size' constraint.
     pub(crate) fn get_size_valueset(
         &self,
         resolver: &Resolver,
-    ) -> Result<Asn1ConstraintValueSet, Error> {
-        if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() == 1 {
-                match iset[0].elements[0] {
-                    Elements::Subtype(ref s) => match s {
-                        SubtypeElements::SizeConstraint(ref elems) => {
-                            elems.get_integer_valueset(resolver)
-                        }
-                        _ => Err(constraint_error!(
-                            "The Constraint for the Type is not a Size Constraint."
-                        )),
-                    },
-                    _ => Err(constraint_error!(
-                        "The Constraint for the type is not a size Constraint."
-                    )),
-                }
-            } else {
-                Err(constraint_error!(
-                    "The Constraint for the type is not a size Constraint."
-                ))
-            }
-        } else {
-            Err(constraint_error!(
-                "The Constraint for the type is not a size Constraint."
-            ))
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        match self {
+            Self::Subtype(ref e) => e.get_size_valueset(resolver),
+            Self::Contents { .. } => Ok(None),
+            Self::Table(..) => Err(constraint_error!(
+                "Table Constraints are supported for class fields only! '{:#?}'",
+                self
+            )),
         }
     }
 }
@@ -176,22 +146,10 @@ impl ElementSet {
     }
 
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<Asn1ConstraintValueSet, Error> {
-        let mut root_values = ConstraintValues::new();
-        for element in self.get_inner_elements() {
-            let element_values = element.get_integer_valueset(resolver)?;
-            root_values.append(&element_values);
-        }
-
-        let additional_values = if self.additional_elements.is_some() {
-            let additional_elements = self.additional_elements.as_ref().unwrap();
-            let mut additional_values = ConstraintValues::new();
-            for element in &additional_elements.elements {
-                let element_values = element.get_integer_valueset(resolver)?;
-                additional_values.append(&element_values);
-            }
-            Some(additional_values)
-        } else {
-            None
+        let root_values = self.root_elements.get_integer_values(resolver)?;
+        let additional_values = match self.additional_elements {
+            Some(ref elements) => Some(elements.get_integer_values(resolver)?),
+            None => None,
         };
 
         Ok(Asn1ConstraintValueSet {
@@ -200,6 +158,35 @@ impl ElementSet {
         })
     }
 
+    // Values of all the `SIZE` constraints inside. `None` if there are no such constraints.
+    fn get_size_valueset(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let mut values = match self.root_elements.get_size_valueset(resolver)? {
+            Some(values) => values,
+            None => return Ok(None),
+        };
+        if let Some(ref elements) = self.additional_elements {
+            let mut additional = ConstraintValues::new();
+            if !elements.elements.is_empty() {
+                match elements.get_size_valueset(resolver)? {
+                    Some(a) => additional.append(&a.root_values),
+                    None => {
+                        return Err(constraint_error!(
+                            "The Constraint for the type is not a size Constraint."
+                        ))
+                    }
+                }
+            }
+            if let Some(ref inner) = values.additional_values {
+                additional.append(inner);
+            }
+            let _ = values.additional_values.replace(additional);
+        }
+        Ok(Some(values))
+    }
+
     fn dependent_references(self) -> Vec<String> {
         let mut output = vec![];
         output.extend(self.root_elements.dependent_references());
@@ -216,6 +203,45 @@ impl ElementSet {
     }
 }
 
+// Merges the values of `SIZE` constraints.
+//
+// A combination of `SIZE` constraints with other constraints or more than one extensible `SIZE`
+// constraint is not supported.
+fn merge_size_valuesets(
+    mut value_sets: Vec<Option<Asn1ConstraintValueSet>>,
+    merge: impl Fn(&ConstraintValues, &ConstraintValues) -> ConstraintValues,
+) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+    if value_sets.len() == 1 {
+        return Ok(value_sets.remove(0));
+    }
+    if value_sets.iter().all(|v| v.is_none()) {
+        return Ok(None);
+    }
+    let mut output: Option<ConstraintValues> = None;
+    for values in value_sets {
+        match values {
+            Some(Asn1ConstraintValueSet {
+                root_values,
+                additional_values: None,
+            }) => {
+                output = Some(match output {
+                    None => root_values,
+                    Some(o) => merge(&o, &root_values),
+                });
+            }
+            _ => {
+                return Err(constraint_error!(
+                    "This combination of constraints for the size of a type is not supported."
+                ))
+            }
+        }
+    }
+    Ok(output.map(|root_values| Asn1ConstraintValueSet {
+        root_values,
+        additional_values: None,
+    }))
+}
+
 impl IntersectionSet {
     fn get_single_string_value(&self) -> Result<String, Error> {
         if self.elements.len() == 1 {
@@ -236,26 +262,33 @@ impl IntersectionSet {
     }
 
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
-        let mut value_set = ConstraintValues::new();
+        let mut value_set: Option<ConstraintValues> = None;
         for element in &self.elements {
             let element_set = element.get_integer_valueset(resolver)?;
-            if value_set.is_empty() {
-                // If Empty Set, it's okay to union, but not otherwise
-                value_set.append(&element_set);
-            } else {
-                value_set.values = value_set
-                    .values
-                    .into_iter()
-                    .filter(|e| element_set.values.contains(e))
-                    .collect::<Vec<i128>>();
-                value_set.ranges = value_set
-                    .ranges
-                    .into_iter()
-                    .filter(|e| element_set.ranges.contains(e))
-                    .collect::<Vec<Range<i128>>>();
-            }
+            value_set = Some(match value_set {
+                None => element_set,
+                Some(values) => values.intersection(&element_set),
+            });
         }
-        Ok(value_set)
+        Ok(value_set.unwrap_or_else(ConstraintValues::new))
+    }
+
+    fn get_size_valueset(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let mut value_sets = vec![];
+        for element in &self.elements {
+            let sizes = match element {
+                Elements::Subtype(SubtypeElements::SizeConstraint(ref e)) => {
+                    Some(e.get_integer_valueset(resolver)?)
+                }
+                Elements::Subtype(_) => None,
+                Elements::Set(ref e) => e.get_size_valueset(resolver)?,
+            };
+            value_sets.push(sizes);
+        }
+        merge_size_valuesets(value_sets, |a, b| a.intersection(b))
     }
 
     fn dependent_references(&self) -> Vec<String> {
@@ -281,9 +314,15 @@ impl Elements {
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
         match self {
             Self::Subtype(ref s) => s.get_integer_valueset(resolver),
-            Self::Set(ref _s) => Err(constraint_error!(
-                "get_integer_valueset: Set Variant: Not Supported!"
-            )),
+            Self::Set(ref s) => {
+                let values = s.get_integer_valueset(resolver)?;
+                if values.has_extension() {
+                    return Err(constraint_error!(
+                        "Extension Marker is not supported inside a Constraint!"
+                    ));
+                }
+                Ok(values.root_values)
+            }
         }
     }
 
@@ -300,13 +339,19 @@ impl SubtypeElements {
         let mut value_set = ConstraintValues::new();
         match self {
             Self::SingleValue { value } => {
-                value_set
-                    .values
-                    .push(Self::parse_or_resolve_value(value, resolver)?);
-            }
-            Self::ConstrainedSubtype(ref ty) => {
-                let all_values_set = ty.get_integer_valueset_from_constraint(resolver)?;
-                value_set.append(&all_values_set.root_values); // We only care about Root Elements
+                if let Some(Asn1ResolvedDefinition::Type(..)) = resolver.resolved_defs.get(value) {
+                    // Contained Subtype. We only care about Root Elements
+                    match resolver.get_referenced_type(value) {
+                        Some(Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref i))) => {
+                            value_set.append(&i.root_values())
+                        }
+                        _ => return Err(constraint_error!("'{}' is not an INTEGER Type", value)),
+                    }
+                } else {
+                    value_set
+                        .values
+                        .push(Self::parse_or_resolve_value(value, resolver)?);
+                }
             }
             Self::ValueRange {
                 lower,
@@ -314,25 +359,34 @@ impl SubtypeElements {
                 upper,
                 upper_inclusive,
             } => {
-                let mut lower_value = Self::parse_or_resolve_value(lower, resolver)?;
-                if !lower_inclusive {
-                    lower_value += 1;
-                }
-                let mut upper_value = Self::parse_or_resolve_value(upper, resolver)?;
-                if !upper_inclusive {
-                    upper_value -= 1;
-                }
-                value_set.ranges.push(Range {
-                    start: lower_value,
-                    end: upper_value + 1,
-                });
-            }
-            Self::SizeConstraint(ref elems) => {
-                let size_elements = elems.get_integer_valueset(resolver)?;
-                value_set.append(&size_elements.root_values);
-                if size_elements.additional_values.is_some() {
-                    value_set.append(&size_elements.additional_values.unwrap());
+                let start = if lower == "MIN" && *lower_inclusive {
+                    UNBOUNDED_MIN
+                } else {
+                    let value = Self::parse_or_resolve_value(lower, resolver)?;
+                    if *lower_inclusive {
+                        value
+                    } else {
+                        value + 1
+                    }
+                };
+                let end = if upper == "MAX" && *upper_inclusive {
+                    UNBOUNDED_END
+                } else {
+                    let value = Self::parse_or_resolve_value(upper, resolver)?;
+                    if *upper_inclusive {
+                        value + 1
+                    } else {
+                        value
+                    }
+                };
+                if start >= end {
+                    return Err(constraint_error!(
+                        "There are no values in the range '{}'..'{}'.",
+                        lower,
+                        upper
+                    ));
                 }
+                value_set.ranges.push(Range { start, end });
             }
             _ => {
                 return Err(constraint_error!(
@@ -345,29 +399,32 @@ impl SubtypeElements {
     }
 
     fn parse_or_resolve_value(value: &str, resolver: &Resolver) -> Result<i128, Error> {
-        // FIXME : do the 'resolve part'
-        let parsed = value.parse::<i128>();
-        match parsed {
-            Ok(x) => Ok(x),
-            Err(_) => {
-                let resolved = resolver.resolved_defs.get(value);
-                match resolved {
-                    None => Err(constraint_error!(
+        let resolved = match value.parse::<i128>() {
+            Ok(x) => x,
+            Err(_) => match resolver.resolved_defs.get(value) {
+                None => {
+                    return Err(constraint_error!(
                         "Unable To Resolve '{}'. Not Found!",
                         value
-                    )),
-                    Some(res) => {
-                        let integer = match res {
-                            Asn1ResolvedDefinition::Value(ref v) => resolver.get_integer_value(v),
-                            _ => None,
-                        };
-                        integer.ok_or_else(|| {
-                            constraint_error!("Resolved Value {:#?} of different type!", res)
-                        })
-                    }
+                    ))
                 }
-            }
+                Some(res) => {
+                    let integer = match res {
+                        Asn1ResolvedDefinition::Value(ref v) => resolver.get_integer_value(v),
+                        _ => None,
+                    };
+                    integer.ok_or_else(|| {
+                        constraint_error!("Resolved Value {:#?} of different type!", res)
+                    })?
+                }
+            },
+        };
+
+        // Types for values other than these cannot be generated.
+        if resolved < i64::MIN as i128 || resolved > u64::MAX as i128 {
+            return Err(constraint_error!("Value '{}' is not supported.", resolved));
         }
+        Ok(resolved)
     }
 
     fn dependent_references(&self) -> Vec<String> {
@@ -382,14 +439,11 @@ impl SubtypeElements {
             Self::ConstrainedSubtype(ref t) => t.dependent_references(),
             Self::ValueRange { lower, upper, .. } => {
                 let mut output = vec![];
-                match lower.parse::<i128>() {
-                    Ok(_) => {}
-                    Err(_) => output.extend(vec![lower.trim().to_string()]),
-                };
-                match upper.parse::<i128>() {
-                    Ok(_) => {}
-                    Err(_) => output.extend(vec![upper.trim().to_string()]),
-                };
+                for bound in [lower, upper].iter() {
+                    if bound.parse::<i128>().is_err() && *bound != "MIN" && *bound != "MAX" {
+                        output.push(bound.trim().to_string());
+                    }
+                }
                 output
             }
             Self::SizeConstraint(ref s) => s.clone().dependent_references(),
@@ -399,6 +453,30 @@ impl SubtypeElements {
 }
 
 impl UnionSet {
+    fn get_integer_values(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
+        let mut values = ConstraintValues::new();
+        for element in &self.elements {
+            let element_values = element.get_integer_valueset(resolver)?;
+            values.append(&element_values);
+        }
+        Ok(values)
+    }
+
+    fn get_size_valueset(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let mut value_sets = vec![];
+        for element in &self.elements {
+            value_sets.push(element.get_size_valueset(resolver)?);
+        }
+        merge_size_valuesets(value_sets, |a, b| {
+            let mut values = a.clone();
+            values.append(b);
+            values
+        })
+    }
+
     fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         for element in &self.elements {
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index ef19a1c..977260f 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -30,6 +30,12 @@ pub(crate) fn resolve_constructed_type(
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
     if let Asn1TypeKind::Constructed(ref kind) = ty.kind {
+        if ty.has_constraints() {
+            return Err(constraint_error!(
+                "Constraints on a Constructed Type are not supported. '{:#?}'",
+                ty.constraints
+            ));
+        }
         match kind {
             Asn1ConstructedType::Choice(ref c) => resolve_choice_type(c, resolver),
             Asn1ConstructedType::Sequence(ref s) => resolve_sequence_type(s, resolver),
@@ -129,7 +135,15 @@ fn resolve_sequence_of_type(
     let resolved = resolve_type(&sequence_of.ty, resolver)?;
     let size_values = if sequence_of.size.is_some() {
         let size = sequence_of.size.as_ref().unwrap();
-        Some(size.get_size_valueset(resolver)?)
+        match size.get_size_valueset(resolver)? {
+            Some(sizes) => Some(sizes.constrain_size(None)?),
+            None => {
+                return Err(constraint_error!(
+                    "Expected a Size Constraint, Found '{:#?}'",
+                    size
+                ))
+            }
+        }
     } else {
         None
     };
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 5195053..69ecb46 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -1,45 +1,87 @@
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    Asn1BuiltinType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
+    constraints::Asn1Constraint, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
 
 use crate::resolver::{
     asn::{
         structs::{
             defs::Asn1ResolvedDefinition,
-            types::{constraints::Asn1ConstraintValueSet, Asn1ResolvedType},
+            types::{
+                base::ResolvedBaseType, constraints::Asn1ConstraintValueSet,
+                constructed::ResolvedConstructedType, Asn1ResolvedType,
+            },
         },
         types::{base::resolve_base_type, constructed::resolve_constructed_type},
     },
     Resolver,
 };
 
-impl Asn1Type {
+
     // Returns the Integer ValueSet for a given Type.
     //
     // If the type is a `Base` type, it should be INTEGER or it's an Error. If the `Type` is a
     // Referenced Type, it should be possible to 'resolve' the Reference to a proper
     // `Asn1ConstraintValueSet` else it's an error, we'll try to 'recursively' 'resolve' till we
     // get to a `Base` Type.
-    pub(crate) fn get_integer_valueset_from_constraint(
+
+impl Asn1Type {
+    // Values allowed by the constraints of this INTEGER type, that also are in the `parent`'s.
+    pub(crate) fn get_integer_valueset_from_constraints(
         &self,
+        parent: Option<&Asn1ConstraintValueSet>,
         resolver: &Resolver,
-    ) -> Result<Asn1ConstraintValueSet, Error> {
-        let kind = &self.kind;
-        match kind {
-            Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(..)) => {
-                let constraint = &self.constraints.as_ref().unwrap()[0];
-                constraint.get_integer_valueset(resolver)
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let mut output = parent.cloned();
+        for constraint in self.constraints.iter().flatten() {
+            let values = constraint.get_integer_valueset(resolver)?;
+            output = Some(values.constrain(output.as_ref())?);
+        }
+        Ok(output)
+    }
+
+    // Returns whether there are any constraints other than `CONTAINING` for this type.
+    pub(crate) fn has_constraints(&self) -> bool {
+        self.constraints
+            .iter()
+            .flatten()
+            .any(|c| !matches!(c, Asn1Constraint::Contents { .. }))
+    }
+
+    // Returns whether any of the constraints of this type is for it's size.
+    pub(crate) fn has_size_constraints(&self, resolver: &Resolver) -> Result<bool, Error> {
+        for constraint in self.constraints.iter().flatten() {
+            if constraint.get_size_valueset(resolver)?.is_some() {
+                return Ok(true);
             }
-            Asn1TypeKind::Reference(Asn1TypeReference::Reference(ref _r)) => {
-                Err(constraint_error!("Not Implemented!"))
+        }
+        Ok(false)
+    }
+
+    // Returns whether all the constraints of this type are for it's size.
+    pub(crate) fn has_only_size_constraints(&self, resolver: &Resolver) -> Result<bool, Error> {
+        for constraint in self.constraints.iter().flatten() {
+            if constraint.get_size_valueset(resolver)?.is_none() {
+                return Ok(false);
+            }
+        }
+        Ok(true)
+    }
+
+    // Sizes allowed by the constraints of this type, that also are in the `parent`'s.
+    pub(crate) fn get_size_valueset_from_constraints(
+        &self,
+        parent: Option<&Asn1ConstraintValueSet>,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let mut output = parent.cloned();
+        for constraint in self.constraints.iter().flatten() {
+            if let Some(sizes) = constraint.get_size_valueset(resolver)? {
+                output = Some(sizes.constrain_size(output.as_ref())?);
             }
-            _ => Err(constraint_error!(
-                "The Type '{:#?}' is not of a BuiltIn Or a Referenced Kind!",
-                self,
-            )),
         }
+        Ok(output)
     }
 }
 
@@ -55,6 +97,55 @@ pub(crate) fn resolve_type(
     }
 }
 
+// Resolves a reference to a type with additional constraints like `Foo (SIZE(3))`.
+//
+// Such a type is different from the type it refers to, so instead of a reference, it is resolved
+// to the referenced type with the additional constraints applied.
+fn resolve_constrained_reference(
+    ty: &Asn1Type,
+    reference: &str,
+    resolver: &Resolver,
+) -> Result<Asn1ResolvedType, Error> {
+    let mut resolved = match resolver.get_referenced_type(reference) {
+        Some(t) => t.clone(),
+        None => {
+            return Err(resolve_error!(
+                "Referenced Type for '{}' Not resolved yet!",
+                reference
+            ))
+        }
+    };
+    match resolved {
+        Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref mut i)) => {
+            let parent = i.resolved_constraints.take();
+            let values = ty.get_integer_valueset_from_constraints(parent.as_ref(), resolver)?;
+            i.set_constraints(values)?;
+        }
+        Asn1ResolvedType::Base(ResolvedBaseType::BitString(ref mut b)) => {
+            b.size = ty.get_size_valueset_from_constraints(b.size.as_ref(), resolver)?;
+        }
+        Asn1ResolvedType::Base(ResolvedBaseType::OctetString(ref mut o)) => {
+            o.size = ty.get_size_valueset_from_constraints(o.size.as_ref(), resolver)?;
+        }
+        Asn1ResolvedType::Base(ResolvedBaseType::CharacterString(ref mut c)) => {
+            c.constrain(ty, resolver)?;
+        }
+        Asn1ResolvedType::Constructed(ResolvedConstructedType::SequenceOf {
+            ref mut size_values,
+            ..
+        }) if ty.has_only_size_constraints(resolver)? => {
+            *size_values = ty.get_size_valueset_from_constraints(size_values.as_ref(), resolver)?;
+        }
+        _ => {
+            return Err(constraint_error!(
+                "Constraints on the type '{}' are not supported.",
+                reference
+            ))
+        }
+    }
+    Ok(resolved)
+}
+
 fn resolve_reference_type(
     ty: &Asn1Type,
     resolver: &mut Resolver,
@@ -66,7 +157,11 @@ fn resolve_reference_type(
                 match resolved {
                     Some(res) => match res {
                         Asn1ResolvedDefinition::Type(..) => {
-                            Ok(Asn1ResolvedType::Reference(r.to_string()))
+                            if ty.has_constraints() {
+                                resolve_constrained_reference(ty, r, resolver)
+                            } else {
+                                Ok(Asn1ResolvedType::Reference(r.to_string()))
+                            }
                         }
                         _ => Err(resolve_error!(
                             "Expected a Resolved Type, found {:#?}",
@@ -83,6 +178,12 @@ fn resolve_reference_type(
                 let def = resolver.parameterized_defs.get(typeref);
                 match def {
                     Some(d) => {
+                        if ty.has_constraints() {
+                            return Err(constraint_error!(
+                                "Constraints on a Parameterized Type are not supported. '{:#?}'",
+                                ty
+                            ));
+                        }
                         let params_resolved_type = d.clone().apply_params(params)?;
                         resolve_type(&params_resolved_type, resolver)
                     }
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index f86056b..e036062 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -115,6 +115,17 @@ impl Resolver {
         }
     }
 
+    // Follows the references to a type till a type that is not a reference is found.
+    pub(crate) fn get_referenced_type(&self, name: &str) -> Option<&Asn1ResolvedType> {
+        match self.resolved_defs.get(name) {
+            Some(Asn1ResolvedDefinition::Type(Asn1ResolvedType::Reference(ref r))) => {
+                self.get_referenced_type(r)
+            }
+            Some(Asn1ResolvedDefinition::Type(ref t)) => Some(t),
+            _ => None,
+        }
+    }
+
     pub(crate) fn get_resolved_types(&self) -> Vec<(&String, &Asn1ResolvedType)> {
         self.resolved_defs
             .iter()
-- 
2.43.0


From f1819cd51d2e4c3de5374e435a22ac6c904a9066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:31 +0000
Subject: [PATCH 26/57] fix: keep extension additions out of the root of a
 SEQUENCE, DEFAULT is optional

Components are separated by commas and CHOICE additions keep their order.
---
 .../parser/asn/structs/types/constructed.rs   |   3 +
 .../parser/asn/types/constructed/choice.rs    | 121 +++++++-----------
 .../src/parser/asn/types/constructed/seq.rs   |  55 ++++----
 .../src/resolver/asn/types/constructed.rs     |   4 +-
 4 files changed, 84 insertions(+), 99 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/constructed.rs b/asn-compiler/src/parser/asn/structs/types/constructed.rs
index 2ca0ad8..3a10800 100644
--- a/asn-compiler/src/parser/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constructed.rs
@@ -20,6 +20,9 @@ pub(crate) struct SeqComponent {
     pub(crate) component: Component,
     pub(crate) optional: bool,
     pub(crate) _default: Option<String>, // FIXME: Should be Asn1Value later on
+
+    // A component after the first (and before the second) extension marker, that is not in a group.
+    pub(crate) addition: bool,
 }
 
 impl SeqComponent {
diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index acd058d..b815594 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -28,49 +28,9 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
     consumed += 1;
 
     let mut root_components = vec![];
-    let mut additions = vec![];
-    let mut no_ver_additions_components = vec![];
+    let mut additions: Vec<ChoiceAdditionGroup> = vec![];
     let mut extension_markers = 0;
     loop {
-        let start = consumed;
-        let (component, component_consumed) =
-            if expect_token(&tokens[consumed..], Token::is_value_reference)? {
-                let (component, component_consumed) = parse_component(&tokens[consumed..])?;
-                (Some(component), component_consumed)
-            } else {
-                (None, 0)
-            };
-        if let Some(c) = component {
-            // We have a component that needs to be added in the `additions` list and not in the
-            // `root_components`. All such components that are not part of `ChoiceAdditionGroup`
-            // (ie. one without `version`, are pulled into one `ChoiceAdditionGroup` with version
-            // as `None`. And are added separately.
-            if extension_markers > 0 {
-                no_ver_additions_components.push(c);
-            } else {
-                root_components.push(c);
-            }
-            consumed += component_consumed;
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_addition_groups_begin)? {
-            if extension_markers != 1 {
-                return Err(parse_error!(
-                    "Addition Component can only be present after an Extension Marker!"
-                ));
-            } else {
-                let (addition_group, addition_group_consumed) =
-                    parse_choice_addition_group(&tokens[consumed..])?;
-                additions.push(addition_group);
-                consumed += addition_group_consumed;
-            }
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_comma)? {
-            consumed += 1;
-        }
-
-        // Consume extension marker and next comma if present
         if expect_token(&tokens[consumed..], Token::is_extension)? {
             extension_markers += 1;
             if extension_markers > 1 {
@@ -79,9 +39,34 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
                 ));
             }
             consumed += 1;
-            if expect_token(&tokens[consumed..], Token::is_comma)? {
-                consumed += 1;
+        } else if expect_token(&tokens[consumed..], Token::is_addition_groups_begin)? {
+            if extension_markers != 1 {
+                return Err(parse_error!(
+                    "Addition Component can only be present after an Extension Marker!"
+                ));
+            }
+            let (addition_group, addition_group_consumed) =
+                parse_choice_addition_group(&tokens[consumed..])?;
+            additions.push(addition_group);
+            consumed += addition_group_consumed;
+        } else if expect_token(&tokens[consumed..], Token::is_value_reference)? {
+            let (component, component_consumed) = parse_component(&tokens[consumed..])?;
+            consumed += component_consumed;
+
+            // Components after the extension marker need to be added in the `additions` list and
+            // not in the `root_components`, in the order of their definition. The ones that are
+            // not part of a `ChoiceAdditionGroup` are added as a `ChoiceAdditionGroup` with
+            // version as `None`.
+            if extension_markers > 0 {
+                additions.push(ChoiceAdditionGroup {
+                    _version: None,
+                    components: vec![component],
+                });
+            } else {
+                root_components.push(component);
             }
+        } else {
+            return Err(unexpected_token!("'COMPONENT' or '}'", tokens[consumed]));
         }
 
         if expect_token(&tokens[consumed..], Token::is_curly_end)? {
@@ -89,19 +74,19 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
             break;
         }
 
-        if consumed == start {
-            return Err(unexpected_token!("'COMPONENT' or '}'", tokens[consumed]));
+        if !expect_token(&tokens[consumed..], Token::is_comma)? {
+            return Err(unexpected_token!("',' or '}'", tokens[consumed]));
         }
+        consumed += 1;
+    }
+
+    if root_components.is_empty() {
+        return Err(parse_error!(
+            "At least one component is required before the Extension Marker of a 'CHOICE'"
+        ));
     }
 
     let additions = if extension_markers > 0 {
-        if !no_ver_additions_components.is_empty() {
-            let new_addition = ChoiceAdditionGroup {
-                _version: None,
-                components: no_ver_additions_components,
-            };
-            additions.push(new_addition);
-        }
         Some(additions)
     } else {
         None
@@ -137,34 +122,22 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
     };
 
     let mut components = vec![];
-    loop {
-        let start = consumed;
-        let (component, component_consumed) =
-            if expect_token(&tokens[consumed..], Token::is_value_reference)? {
-                let (component, component_consumed) = parse_component(&tokens[consumed..])?;
-                (Some(component), component_consumed)
-            } else {
-                (None, 0)
-            };
-
-        if let Some(c) = component {
-            components.push(c);
-        }
+    while expect_token(&tokens[consumed..], Token::is_value_reference)? {
+        let (component, component_consumed) = parse_component(&tokens[consumed..])?;
+        components.push(component);
         consumed += component_consumed;
 
-        if expect_token(&tokens[consumed..], Token::is_comma)? {
-            consumed += 1;
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_addition_groups_end)? {
-            consumed += 1;
+        if !expect_token(&tokens[consumed..], Token::is_comma)? {
             break;
         }
+        consumed += 1;
+    }
 
-        if consumed == start {
-            return Err(unexpected_token!("'COMPONENT' or ']]'", tokens[consumed]));
-        }
+    if !expect_token(&tokens[consumed..], Token::is_addition_groups_end)? {
+        return Err(unexpected_token!("'COMPONENT' or ']]'", tokens[consumed]));
     }
+    consumed += 1;
+
     if components.is_empty() {
         Err(parse_error!("Additional Components cannot be empty!"))
     } else {
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index d8ac40b..1e4d9e8 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -42,17 +42,25 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
     let mut root_components = vec![];
     let mut additions = vec![];
     let mut ext_marker_found = 0;
+    let mut empty = true;
     loop {
-        let start = consumed;
-        let (component, component_consumed) = parse_seq_component(&tokens[consumed..])?;
-        if let Some(root_comp) = component {
-            root_components.push(root_comp);
+        if empty && expect_token(&tokens[consumed..], Token::is_curly_end)? {
+            consumed += 1;
+            break;
         }
-        consumed += component_consumed;
+        empty = false;
 
-        // Add to additional group only if first extension marker is found.
-        // after second extension marker, we cannot add additional groups.
-        if expect_token(&tokens[consumed..], Token::is_addition_groups_begin)? {
+        if expect_token(&tokens[consumed..], Token::is_extension)? {
+            ext_marker_found += 1;
+            if ext_marker_found > 2 {
+                return Err(parse_error!(
+                    "At most two extension markers are allowed in a 'SEQUENCE'!"
+                ));
+            }
+            consumed += 1;
+        } else if expect_token(&tokens[consumed..], Token::is_addition_groups_begin)? {
+            // Add to additional group only if first extension marker is found.
+            // after second extension marker, we cannot add additional groups.
             if ext_marker_found == 1 {
                 let (ext_group, ext_group_consumed) =
                     parse_seq_addition_group(&tokens[consumed..])?;
@@ -63,18 +71,16 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
                     "Addition groups can only be added between first and second extension markers!"
                 ));
             }
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_comma)? {
-            consumed += 1;
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_extension)? {
-            ext_marker_found += 1;
-            consumed += 1;
-            if expect_token(&tokens[consumed..], Token::is_comma)? {
-                consumed += 1;
+        } else {
+            let (component, component_consumed) = parse_seq_component(&tokens[consumed..])?;
+            match component {
+                Some(mut component) => {
+                    component.addition = ext_marker_found == 1;
+                    root_components.push(component);
+                }
+                None => return Err(unexpected_token!("'COMPONENT' or '}'", tokens[consumed])),
             }
+            consumed += component_consumed;
         }
 
         if expect_token(&tokens[consumed..], Token::is_curly_end)? {
@@ -82,9 +88,10 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
             break;
         }
 
-        if consumed == start {
-            return Err(unexpected_token!("'COMPONENT' or '}'", tokens[consumed]));
+        if !expect_token(&tokens[consumed..], Token::is_comma)? {
+            return Err(unexpected_token!("',' or '}'", tokens[consumed]));
         }
+        consumed += 1;
     }
 
     let extensible = ext_marker_found > 0;
@@ -168,6 +175,7 @@ fn parse_seq_component(tokens: &[Token]) -> Result<(Option<SeqComponent>, usize)
                 component,
                 optional,
                 _default,
+                addition: false,
             }),
             consumed,
         ))
@@ -210,9 +218,10 @@ fn parse_seq_addition_group(tokens: &[Token]) -> Result<(SeqAdditionGroup, usize
         components.push(component.unwrap());
         consumed += component_consumed;
 
-        if expect_token(&tokens[consumed..], Token::is_comma)? {
-            consumed += 1;
+        if !expect_token(&tokens[consumed..], Token::is_comma)? {
+            break;
         }
+        consumed += 1;
     }
 
     if components.is_empty() {
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 977260f..4798b9a 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -99,7 +99,7 @@ fn resolve_sequence_type(
 ) -> Result<Asn1ResolvedType, Error> {
     let mut components = vec![];
     // FIXME: implement for additional_components too
-    for c in &sequence.root_components {
+    for c in sequence.root_components.iter().filter(|c| !c.addition) {
         let ty = match resolve_type(&c.component.ty, resolver) {
             Ok(ty) => ty,
             Err(_e) => {
@@ -112,7 +112,7 @@ fn resolve_sequence_type(
         };
         let seq_component = ResolvedSeqComponent {
             component,
-            optional: c.optional,
+            optional: c.optional || c._default.is_some(),
             class_field_type: None,
             key_field: false,
         };
-- 
2.43.0


From 9c398c2781a4c82f58afee5551d7afcad50b9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:36 +0000
Subject: [PATCH 27/57] fix: generate the fields of a class also for empty
 object sets

Components of a SEQUENCE that are no class fields were dropped, OPTIONAL was
ignored, and an error in any component was taken for a class field.
---
 .../src/resolver/asn/structs/types/ioc.rs     |   2 +
 .../src/resolver/asn/types/constructed.rs     | 240 ++++++++++--------
 asn-compiler/src/resolver/asn/types/ioc.rs    |   1 +
 3 files changed, 135 insertions(+), 108 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/structs/types/ioc.rs b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
index 683fe3c..df23110 100644
--- a/asn-compiler/src/resolver/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
@@ -27,6 +27,8 @@ pub(crate) struct Asn1ResolvedObjectSet {
 
 #[derive(Debug, Clone)]
 pub(crate) struct ResolvedObjectSet {
+    // Name of the class of the objects.
+    pub(crate) class: String,
     pub(crate) decoder_ty: Option<Asn1ResolvedType>,
     pub(crate) elements: Vec<ResolvedObjectSetElement>,
     pub(crate) lookup_table: HashMap<(String, String), ResolvedObjectSetElement>,
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 4798b9a..e487ee5 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -3,7 +3,9 @@ use std::collections::BTreeMap;
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf, Component, SeqComponent},
+    constraints::Asn1Constraint,
+    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf, SeqComponent},
+    ioc::ObjectClassFieldSpec,
     Asn1ConstructedType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
 
@@ -100,12 +102,11 @@ fn resolve_sequence_type(
     let mut components = vec![];
     // FIXME: implement for additional_components too
     for c in sequence.root_components.iter().filter(|c| !c.addition) {
-        let ty = match resolve_type(&c.component.ty, resolver) {
-            Ok(ty) => ty,
-            Err(_e) => {
-                return resolve_sequence_classfield_components(sequence, resolver);
-            }
-        };
+        if let Asn1TypeKind::Reference(Asn1TypeReference::ClassField { .. }) = c.component.ty.kind {
+            components.push(resolve_classfield_component(c, sequence, resolver)?);
+            continue;
+        }
+        let ty = resolve_type(&c.component.ty, resolver)?;
         let component = ResolvedComponent {
             id: c.component.id.clone(),
             ty,
@@ -157,118 +158,141 @@ fn resolve_sequence_of_type(
     ))
 }
 
-fn resolve_sequence_classfield_components(
-    seq: &Asn1TypeSequence,
+// Resolves a component like `id CLASS.&id ({Set})` or `value CLASS.&Value ({Set}{@id})`.
+fn resolve_classfield_component(
+    component: &SeqComponent,
+    sequence: &Asn1TypeSequence,
     resolver: &mut Resolver,
-) -> Result<Asn1ResolvedType, Error> {
-    let mut all_components = vec![];
-    all_components.extend(seq.root_components.clone());
-    all_components.extend(
-        seq.additions
-            .clone()
-            .iter()
-            .map(|a| a.components.clone())
-            .flatten()
-            .collect::<Vec<SeqComponent>>(),
-    );
-    let all_components = all_components
-        .iter()
-        .map(|c| c.component.clone())
-        .collect::<Vec<Component>>();
-
-    if all_components.is_empty() {
-        // It's an Error to try to resolve Empty components with Class Field Ref
-        return Err(resolve_error!("Expected Sequence with at-least one ClassField Reference Component!. Found Empty Sequences"));
-    }
+) -> Result<ResolvedSeqComponent, Error> {
+    let id = &component.component.id;
+    let ty = &component.component.ty;
 
-    // Get the Object Set first It's the Same Object Set for all components. So if we get the first
-    // one that's good enough!
-    let ty = &all_components[0].ty;
-    let constraint = &ty.constraints.as_ref().unwrap()[0];
+    let (classref, fieldref) = match ty.kind {
+        Asn1TypeKind::Reference(Asn1TypeReference::ClassField {
+            ref classref,
+            ref fieldref,
+        }) => (classref, fieldref),
+        _ => return Err(resolve_error!("'{}' is not a Class Field Component!", id)),
+    };
 
+    let constraint = match ty.constraints.as_deref() {
+        Some([constraint]) => constraint,
+        _ => {
+            return Err(constraint_error!(
+                "Expected an Object Set as the only constraint of the component '{}'",
+                id
+            ))
+        }
+    };
     let set_reference = constraint.get_set_reference()?;
-
-    let objects = resolver.resolved_defs.get(&set_reference);
-    if objects.is_none() {
-        return Err(resolve_error!(
-            "Object Set '{}' not resolved yet!",
-            set_reference
-        ));
-    }
-    if let Some(Asn1ResolvedDefinition::ObjectSet(ref set)) = objects {
-        let objects = &set.objects;
-        let components =
-            resolve_seq_components_for_objects(&all_components, &set_reference, objects)?;
-        Ok(Asn1ResolvedType::Constructed(
-            ResolvedConstructedType::Sequence {
-                name: None,
-                extensible: seq.extensible,
-                components,
-            },
-        ))
-    } else {
+    let objects = match resolver.resolved_defs.get(&set_reference) {
+        Some(Asn1ResolvedDefinition::ObjectSet(ref set)) => &set.objects,
+        _ => {
+            return Err(resolve_error!(
+                "Object Set '{}' not resolved yet!",
+                set_reference
+            ))
+        }
+    };
+    if objects.class != *classref {
         return Err(resolve_error!(
-            "Object Set '{}' not resolved yet!",
-            set_reference
+            "'{}' is not an Object Set of the class '{}'.",
+            set_reference,
+            classref
         ));
     }
+
+    let class = match resolver
+        .classes
+        .get(classref)
+        .and_then(|c| c.get_inner_class())
+    {
+        Some(c) => c.classref,
+        None => return Err(resolve_error!("Class '{}' definition not found!", classref)),
+    };
+    let unique_field = class.get_first_unique_field_id();
+
+    let (ty, class_field_type) = match class.fields.get(fieldref) {
+        None => {
+            return Err(resolve_error!(
+                "Class '{}' has no field '{}'.",
+                classref,
+                fieldref
+            ))
+        }
+        Some(ObjectClassFieldSpec::FixedTypeValue { field_type, .. }) => (
+            resolve_type(field_type, resolver)?,
+            ClassFieldComponentType::FixedTypeValue,
+        ),
+        Some(ObjectClassFieldSpec::Type { .. }) => {
+            // The decoder selects the type by the component with the value of the unique field.
+            // There's nothing to select from when there are no objects.
+            if !objects.elements.is_empty()
+                && !is_selected_by_unique_field(
+                    sequence,
+                    id,
+                    constraint,
+                    &unique_field,
+                    &set_reference,
+                )
+            {
+                return Err(resolve_error!(
+                    "Type of the component '{}' is not selected by the unique field of '{}'.",
+                    id,
+                    set_reference
+                ));
+            }
+            let types = get_seq_component_for_object_set(fieldref, objects)?;
+            let ty = ResolvedSetType {
+                setref: set_reference.to_string(),
+                types,
+            };
+            (Asn1ResolvedType::Set(ty), ClassFieldComponentType::Type)
+        }
+    };
+
+    Ok(ResolvedSeqComponent {
+        component: ResolvedComponent { id: id.clone(), ty },
+        optional: component.optional || component._default.is_some(),
+        class_field_type: Some(class_field_type),
+        key_field: unique_field.as_ref() == Some(fieldref),
+    })
 }
 
-fn resolve_seq_components_for_objects(
-    input_components: &[Component],
+// Whether the `constraint` of the component `id` selects it's type by a component that comes before
+// it and has the value of the `unique_field` of the objects in the same set.
+fn is_selected_by_unique_field(
+    sequence: &Asn1TypeSequence,
+    id: &str,
+    constraint: &Asn1Constraint,
+    unique_field: &Option<String>,
     set_reference: &str,
-    objects: &ResolvedObjectSet,
-) -> Result<Vec<ResolvedSeqComponent>, Error> {
-    if objects.elements.is_empty() {
-        return Ok(vec![]);
-    }
-    let first = &objects.elements[0];
-    let mut result = vec![];
-    for component in input_components {
-        if let Asn1TypeKind::Reference(Asn1TypeReference::ClassField { fieldref, .. }) =
-            &component.ty.kind
-        {
-            if let ResolvedObjectSetElement::Object(ref o) = first {
-                let spec = o.fields.get(fieldref);
-                if let Some(ResolvedFieldSpec::FixedTypeValue { typeref, .. }) = spec {
-                    let constraint = &component.ty.constraints.as_ref().unwrap()[0];
-                    let comp_spec = constraint.get_comp_reference();
-                    let component = ResolvedComponent {
-                        id: component.id.clone(),
-                        ty: typeref.clone(),
-                    };
-                    let seq_component = ResolvedSeqComponent {
-                        component,
-                        optional: false, // FIXME:
-                        class_field_type: Some(ClassFieldComponentType::FixedTypeValue),
-                        key_field: comp_spec.is_none(),
-                    };
-                    result.push(seq_component);
-                } else {
-                    let types = get_seq_component_for_object_set(fieldref, objects)?;
-                    let ty = ResolvedSetType {
-                        setref: set_reference.to_string(),
-                        types,
-                    };
-                    let component = ResolvedComponent {
-                        id: component.id.clone(),
-                        ty: Asn1ResolvedType::Set(ty),
-                    };
-                    let seq_component = ResolvedSeqComponent {
-                        component,
-                        optional: false, // FIXME:
-                        class_field_type: Some(ClassFieldComponentType::Type),
-                        key_field: false,
-                    };
-                    result.push(seq_component);
-                }
+) -> bool {
+    let selector = constraint.get_comp_reference();
+    let mut components = sequence
+        .root_components
+        .iter()
+        .filter(|c| !c.addition)
+        .take_while(|c| c.component.id != id);
+    components.any(|c| {
+        let same_set = match c.component.ty.constraints.as_deref() {
+            Some([other]) => {
+                other.get_comp_reference().is_none()
+                    && other.get_set_reference().ok().as_deref() == Some(set_reference)
             }
-        }
-    }
-    // Only add to the result if Every Component in the Input is also found in the Object. This
-    // is mainly true for optional components. If Optional Components are missing, They should
-    // not be part of the generated Set.
-    Ok(result)
+            _ => false,
+        };
+        let unique = matches!(
+            &c.component.ty.kind,
+            Asn1TypeKind::Reference(Asn1TypeReference::ClassField { fieldref, .. })
+                if Some(fieldref) == unique_field.as_ref()
+        );
+        same_set
+            && unique
+            && !c.optional
+            && c._default.is_none()
+            && selector.as_ref() == Some(&c.component.id)
+    })
 }
 
 fn get_seq_component_for_object_set(
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index ecfa2c4..223d5b6 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -135,6 +135,7 @@ pub(crate) fn resolve_object_set(
 
             Ok(Asn1ResolvedObjectSet {
                 objects: ResolvedObjectSet {
+                    class: objectset.class.clone(),
                     decoder_ty,
                     elements,
                     lookup_table,
-- 
2.43.0


From d98b93904200d506eedb1b23b786500e19eaf69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:42 +0000
Subject: [PATCH 28/57] fix: number the values of an ENUMERATED, support named
 numbers of an INTEGER

ENUMERATED types with explicit numbers had no values, and panicked.
---
 .../src/parser/asn/structs/types/base.rs      |  28 +++++
 .../parser/asn/structs/types/constraints.rs   |  37 ++++++
 .../src/parser/asn/structs/types/mod.rs       |   2 +
 .../src/parser/asn/types/base/enumerated.rs   |  45 ++++----
 .../src/resolver/asn/structs/types/base.rs    |   6 +-
 .../src/resolver/asn/types/base/bitstring.rs  |   4 +-
 .../src/resolver/asn/types/base/enumerated.rs | 107 ++++++++++++------
 .../src/resolver/asn/types/base/integer.rs    |  34 ++++--
 asn-compiler/src/resolver/asn/types/int.rs    |  11 +-
 asn-compiler/src/resolver/asn/values.rs       |  12 ++
 10 files changed, 217 insertions(+), 69 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/base.rs b/asn-compiler/src/parser/asn/structs/types/base.rs
index 50929d8..b025df8 100644
--- a/asn-compiler/src/parser/asn/structs/types/base.rs
+++ b/asn-compiler/src/parser/asn/structs/types/base.rs
@@ -12,6 +12,20 @@ pub(crate) struct Asn1TypeInteger {
     pub(crate) named_values: Option<Vec<(String, NamedValue)>>,
 }
 
+impl Asn1TypeInteger {
+    // References to the values used as numbers.
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
+        self.named_values
+            .iter()
+            .flatten()
+            .filter_map(|v| match v.1 {
+                NamedValue::ValueRef(ref r) => Some(r.clone()),
+                _ => None,
+            })
+            .collect()
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct EnumValue {
     pub(crate) name: String,
@@ -25,6 +39,20 @@ pub(crate) struct Asn1TypeEnumerated {
     pub(crate) ext_values: Vec<EnumValue>,
 }
 
+impl Asn1TypeEnumerated {
+    // References to the values used as numbers.
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
+        self.root_values
+            .iter()
+            .chain(&self.ext_values)
+            .filter_map(|v| match v.value {
+                Some(NamedValue::ValueRef(ref r)) => Some(r.clone()),
+                _ => None,
+            })
+            .collect()
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1TypeBitString {
     pub(crate) named_bits: Option<Vec<(String, NamedValue)>>,
diff --git a/asn-compiler/src/parser/asn/structs/types/constraints.rs b/asn-compiler/src/parser/asn/structs/types/constraints.rs
index 40d6a5e..f2eb4a3 100644
--- a/asn-compiler/src/parser/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constraints.rs
@@ -1,5 +1,7 @@
 //! Related to handling of ASN.1 Constraints
 
+use std::collections::HashMap;
+
 use crate::parser::asn::structs::oid::ObjectIdentifier;
 
 use super::Asn1Type;
@@ -65,3 +67,38 @@ pub(crate) enum Asn1Constraint {
         _encoded_by: Option<ObjectIdentifier>, // Encoding Object Identifier (Right now always None)
     },
 }
+
+impl Asn1Constraint {
+    // Replaces the names of the numbers of an INTEGER in it's constraint by the numbers.
+    pub(crate) fn replace_named_values(&mut self, named_values: &HashMap<String, i128>) {
+        if let Asn1Constraint::Subtype(ref mut set) = self {
+            set.replace_named_values(named_values);
+        }
+    }
+}
+
+impl ElementSet {
+    fn replace_named_values(&mut self, named_values: &HashMap<String, i128>) {
+        let replace = |name: &mut String| {
+            if let Some(value) = named_values.get(name.as_str()) {
+                *name = value.to_string();
+            }
+        };
+        let unions = std::iter::once(&mut self.root_elements).chain(&mut self.additional_elements);
+        for element in unions.flat_map(|u| &mut u.elements).flat_map(|i| &mut i.elements) {
+            match element {
+                Elements::Set(ref mut set) => set.replace_named_values(named_values),
+                Elements::Subtype(SubtypeElements::SingleValue { ref mut value }) => replace(value),
+                Elements::Subtype(SubtypeElements::ValueRange {
+                    ref mut lower,
+                    ref mut upper,
+                    ..
+                }) => {
+                    replace(lower);
+                    replace(upper);
+                }
+                _ => {}
+            }
+        }
+    }
+}
diff --git a/asn-compiler/src/parser/asn/structs/types/mod.rs b/asn-compiler/src/parser/asn/structs/types/mod.rs
index b25b26a..def624c 100644
--- a/asn-compiler/src/parser/asn/structs/types/mod.rs
+++ b/asn-compiler/src/parser/asn/structs/types/mod.rs
@@ -36,6 +36,8 @@ pub(crate) struct Asn1Type {
 impl Asn1Type {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut kind_references = match self.kind {
+            Asn1TypeKind::Builtin(Asn1BuiltinType::Enumerated(ref e)) => e.dependent_references(),
+            Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(ref i)) => i.dependent_references(),
             Asn1TypeKind::Builtin(ref _b) => vec![],
             Asn1TypeKind::Reference(ref r) => r.dependent_references(),
             Asn1TypeKind::Constructed(ref c) => c.dependent_references(),
diff --git a/asn-compiler/src/parser/asn/types/base/enumerated.rs b/asn-compiler/src/parser/asn/types/base/enumerated.rs
index 91c476d..ffb4e53 100644
--- a/asn-compiler/src/parser/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/parser/asn/types/base/enumerated.rs
@@ -3,7 +3,7 @@
 use crate::error::Error;
 use crate::tokenizer::Token;
 
-use crate::parser::utils::{expect_keyword, expect_one_of_tokens, expect_token};
+use crate::parser::utils::{expect_keyword, expect_token};
 
 use crate::parser::asn::structs::types::base::{Asn1TypeEnumerated, EnumValue};
 
@@ -24,17 +24,13 @@ fn parse_enum_values(tokens: &[Token]) -> Result<(Vec<EnumValue>, usize), Error>
         values.push(value);
         consumed += named_value_consumed;
 
-        if expect_token(&tokens[consumed..], Token::is_comma)? {
-            consumed += 1;
-        }
-
-        if expect_one_of_tokens(
-            &tokens[consumed..],
-            &[Token::is_extension, Token::is_curly_end],
-        )? {
-            // Don't consume, let caller consume it.
+        // Don't consume the extension marker, let caller consume it.
+        if !expect_token(&tokens[consumed..], Token::is_comma)?
+            || expect_token(&tokens[consumed + 1..], Token::is_extension)?
+        {
             break;
         }
+        consumed += 1;
     }
     Ok((values, consumed))
 }
@@ -58,23 +54,24 @@ pub(crate) fn parse_enumerated_type(
     let (root_values, root_values_consumed) = parse_enum_values(&tokens[consumed..])?;
     consumed += root_values_consumed;
 
-    let ext_marker_index = if expect_token(&tokens[consumed..], Token::is_extension)? {
-        consumed += 1;
-        Some(root_values.len() + 1)
-    } else {
-        None
-    };
-
-    // one(1), ...,
+    let mut ext_marker_index = None;
+    let mut ext_values = vec![];
     if expect_token(&tokens[consumed..], Token::is_comma)? {
         consumed += 1;
-    }
+        if !expect_token(&tokens[consumed..], Token::is_extension)? {
+            return Err(unexpected_token!("'...'", tokens[consumed]));
+        }
+        consumed += 1;
+        ext_marker_index = Some(root_values.len() + 1);
 
-    let (ext_values, ext_values_consumed) = match parse_enum_values(&tokens[consumed..]) {
-        Ok(result) => result,
-        Err(_) => (vec![], 0),
-    };
-    consumed += ext_values_consumed;
+        // one(1), ...,
+        if expect_token(&tokens[consumed..], Token::is_comma)? {
+            consumed += 1;
+            let (values, ext_values_consumed) = parse_enum_values(&tokens[consumed..])?;
+            consumed += ext_values_consumed;
+            ext_values = values;
+        }
+    }
 
     if !expect_token(&tokens[consumed..], Token::is_curly_end)? {
         return Err(unexpected_token!("'}'", tokens[consumed]));
diff --git a/asn-compiler/src/resolver/asn/structs/types/base.rs b/asn-compiler/src/resolver/asn/structs/types/base.rs
index b433a3f..8680d65 100644
--- a/asn-compiler/src/resolver/asn/structs/types/base.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/base.rs
@@ -24,7 +24,7 @@ pub(crate) struct Asn1ResolvedInteger {
     pub(crate) bits: u8,
     pub(crate) signed: bool,
     pub(crate) resolved_constraints: Option<Asn1ConstraintValueSet>,
-    pub(crate) named_values: Option<HashMap<String, i128>>,
+    pub(crate) named_values: HashMap<String, i128>,
 }
 
 impl Default for Asn1ResolvedInteger {
@@ -32,7 +32,7 @@ impl Default for Asn1ResolvedInteger {
         Self {
             bits: 64,
             signed: true,
-            named_values: None,
+            named_values: HashMap::new(),
             resolved_constraints: None,
         }
     }
@@ -72,7 +72,7 @@ pub(crate) struct Asn1ResolvedBitString {
     pub(crate) size: Option<Asn1ConstraintValueSet>,
 
     // We support only up to 128 named bits, if more than that is required, change this to appropriate. value
-    pub(crate) named_values: HashMap<String, u8>,
+    pub(crate) named_values: HashMap<String, u32>,
 }
 
 // Just an empty structure for Resolved `BOOLEAN` type.
diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index 11a5eda..a52c364 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -25,7 +25,9 @@ impl Asn1ResolvedBitString {
             let mut named_values = HashMap::new();
             for nb in b.named_bits.as_ref().unwrap() {
                 if let NamedValue::Number(ref v) = nb.1 {
-                    let parsed = v.parse::<u8>().unwrap(); // Let it panic if it does not fit in u8.
+                    let parsed = v
+                        .parse::<u32>()
+                        .map_err(|_| resolve_error!("'{}' is not the number of a bit.", v))?;
                     named_values.insert(nb.0.clone(), parsed);
                 }
             }
diff --git a/asn-compiler/src/resolver/asn/types/base/enumerated.rs b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
index 33c79e5..9ee0bcc 100644
--- a/asn-compiler/src/resolver/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
@@ -1,67 +1,88 @@
 //! Functionality for handling Resolved ASN.1 ENUMERATED Types
 
 use std::collections::BTreeSet;
-use std::convert::TryInto;
 
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    base::{Asn1TypeEnumerated, NamedValue},
+    base::{Asn1TypeEnumerated, EnumValue, NamedValue},
     Asn1Type,
 };
-use crate::resolver::asn::structs::types::base::Asn1ResolvedEnumerated;
+use crate::resolver::asn::structs::{
+    types::base::Asn1ResolvedEnumerated, values::Asn1ResolvedValue,
+};
 use crate::resolver::Resolver;
 
 impl Asn1ResolvedEnumerated {
     pub(super) fn resolve_enumerated(
         _ty: &Asn1Type,
         e: &Asn1TypeEnumerated,
-        _resolver: &Resolver,
+        resolver: &Resolver,
     ) -> Result<Asn1ResolvedEnumerated, Error> {
         let mut base = Asn1ResolvedEnumerated {
             extensible: e.ext_marker_index.is_some(),
             ..Default::default()
         };
 
-        // FIXME: TODO Constraints
+        // Constraints on an ENUMERATED do not change it's encoding.
+
+        let root_numbers = get_numbers(&e.root_values, resolver)?;
+        let ext_numbers = get_numbers(&e.ext_values, resolver)?;
 
-        let mut root_values = BTreeSet::<i128>::new();
-        for v in &e.root_values {
-            let named = &v.value;
-            if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
-                root_values.insert(parsed);
+        // Root values without a number get the numbers starting from zero, that are not used.
+        let used: BTreeSet<i128> = root_numbers.iter().flatten().cloned().collect();
+        let mut unused = (0..).filter(|n| !used.contains(n));
+        let mut root_values = BTreeSet::new();
+        let mut numbered = vec![];
+        for (v, number) in e.root_values.iter().zip(root_numbers) {
+            let number = match number {
+                Some(number) => number,
+                None => unused.next().unwrap(),
+            };
+            if !root_values.insert(number) {
+                return Err(resolve_error!("'{}' has the same number as another value.", v.name));
             }
+            numbered.push((number, v.name.clone()));
         }
-        // TODO: Support all crazy Enumerations.
-        if root_values.is_empty() {
-            for (value, v) in e.root_values.iter().enumerate() {
-                base.named_root_values
-                    .push((v.name.clone(), value.try_into().unwrap()));
-                root_values.insert(value.try_into().unwrap());
-            }
+
+        // The generated values are the indices of the root values in the order of their numbers.
+        numbered.sort();
+        for (index, (_, name)) in numbered.into_iter().enumerate() {
+            base.named_root_values.push((name, index as i128));
         }
 
-        let mut ext_values = BTreeSet::<i128>::new();
-        for v in &e.ext_values {
-            let named = &v.value;
-            if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
-                ext_values.insert(parsed);
+        // Numbers of the additions are in increasing order, and are not used by any root value.
+        let mut ext_values = BTreeSet::new();
+        let mut last = None;
+        for (index, (v, number)) in e.ext_values.iter().zip(ext_numbers).enumerate() {
+            let next = match last {
+                Some(last) => last + 1,
+                None => 0,
+            };
+            let number = match number {
+                Some(number) => number,
+                None => (next..).find(|n| !root_values.contains(n)).unwrap(),
+            };
+            if root_values.contains(&number) || last.map_or(false, |last| number <= last) {
+                return Err(resolve_error!(
+                    "Number of the addition '{}' is used or not in increasing order.",
+                    v.name
+                ));
             }
+            last = Some(number);
+            ext_values.insert(number);
+            base.named_ext_values.push((v.name.clone(), index as i128));
         }
-        // TODO: Support all crazy Enumerations.
-        if ext_values.is_empty() {
-            for (value, v) in e.ext_values.iter().enumerate() {
-                base.named_ext_values
-                    .push((v.name.clone(), value.try_into().unwrap()));
-                ext_values.insert(value.try_into().unwrap());
+
+        let mut names = BTreeSet::new();
+        for v in e.root_values.iter().chain(&e.ext_values) {
+            if !names.insert(&v.name) {
+                return Err(resolve_error!("'{}' is defined more than once.", v.name));
             }
         }
 
-        // FIXME: Following is hard-coded
         base.signed = false;
-        base.bits = 8;
+        base.bits = if root_values.len() <= 256 { 8 } else { 16 };
 
         let _ = base.root_values.replace(root_values);
         let _ = base.ext_values.replace(ext_values);
@@ -69,3 +90,25 @@ impl Asn1ResolvedEnumerated {
         Ok(base)
     }
 }
+
+// Numbers explicitly given to the values.
+fn get_numbers(values: &[EnumValue], resolver: &Resolver) -> Result<Vec<Option<i128>>, Error> {
+    let mut numbers = vec![];
+    for v in values {
+        let number = match v.value {
+            None => None,
+            Some(NamedValue::Number(ref s)) => match s.parse::<i64>() {
+                Ok(number) => Some(number.into()),
+                Err(_) => return Err(resolve_error!("'{}' is not a supported number.", s)),
+            },
+            Some(NamedValue::ValueRef(ref r)) => {
+                match resolver.get_integer_value(&Asn1ResolvedValue::Reference(r.clone())) {
+                    Some(number) => Some(number),
+                    None => return Err(resolve_error!("'{}' is not an INTEGER value.", r)),
+                }
+            }
+        };
+        numbers.push(number);
+    }
+    Ok(numbers)
+}
diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 41b34f2..2e02d8b 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -2,10 +2,16 @@
 
 use crate::error::Error;
 
-use crate::parser::asn::structs::types::{base::Asn1TypeInteger, Asn1Type};
-use crate::resolver::asn::structs::types::{
-    base::Asn1ResolvedInteger,
-    constraints::{Asn1ConstraintValueSet, ConstraintValues},
+use crate::parser::asn::structs::types::{
+    base::{Asn1TypeInteger, NamedValue},
+    Asn1Type,
+};
+use crate::resolver::asn::structs::{
+    types::{
+        base::Asn1ResolvedInteger,
+        constraints::{Asn1ConstraintValueSet, ConstraintValues},
+    },
+    values::Asn1ResolvedValue,
 };
 use crate::resolver::Resolver;
 
@@ -18,11 +24,23 @@ impl Asn1ResolvedInteger {
     ) -> Result<Asn1ResolvedInteger, Error> {
         let mut base = Asn1ResolvedInteger::default();
 
-        let value_set = ty.get_integer_valueset_from_constraints(None, resolver)?;
-        base.set_constraints(value_set)?;
+        for (name, value) in i.named_values.iter().flatten() {
+            let value = match value {
+                NamedValue::Number(ref n) => n.parse::<i128>().ok(),
+                NamedValue::ValueRef(ref r) => {
+                    resolver.get_integer_value(&Asn1ResolvedValue::Reference(r.clone()))
+                }
+            };
+            let value = value
+                .ok_or_else(|| resolve_error!("The value of '{}' is not an INTEGER.", name))?;
+            if base.named_values.insert(name.clone(), value).is_some() {
+                return Err(resolve_error!("'{}' is defined more than once.", name));
+            }
+        }
 
-        // TODO: If we have named values, They should be added to Global list of resolved definitions.
-        if i.named_values.is_some() {}
+        let value_set =
+            ty.get_integer_valueset_from_constraints(None, &base.named_values, resolver)?;
+        base.set_constraints(value_set)?;
 
         Ok(base)
     }
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 69ecb46..f496f39 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
@@ -31,10 +33,13 @@ impl Asn1Type {
     pub(crate) fn get_integer_valueset_from_constraints(
         &self,
         parent: Option<&Asn1ConstraintValueSet>,
+        named_values: &HashMap<String, i128>,
         resolver: &Resolver,
     ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
         let mut output = parent.cloned();
         for constraint in self.constraints.iter().flatten() {
+            let mut constraint = constraint.clone();
+            constraint.replace_named_values(named_values);
             let values = constraint.get_integer_valueset(resolver)?;
             output = Some(values.constrain(output.as_ref())?);
         }
@@ -118,7 +123,11 @@ fn resolve_constrained_reference(
     match resolved {
         Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref mut i)) => {
             let parent = i.resolved_constraints.take();
-            let values = ty.get_integer_valueset_from_constraints(parent.as_ref(), resolver)?;
+            let values = ty.get_integer_valueset_from_constraints(
+                parent.as_ref(),
+                &i.named_values,
+                resolver,
+            )?;
             i.set_constraints(values)?;
         }
         Asn1ResolvedType::Base(ResolvedBaseType::BitString(ref mut b)) => {
diff --git a/asn-compiler/src/resolver/asn/values.rs b/asn-compiler/src/resolver/asn/values.rs
index 9297057..4e94998 100644
--- a/asn-compiler/src/resolver/asn/values.rs
+++ b/asn-compiler/src/resolver/asn/values.rs
@@ -19,6 +19,18 @@ pub(crate) fn resolve_value(
     typeref: &Asn1ResolvedType,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedValue, Error> {
+    // Names of the numbers of an INTEGER are only known inside it's type.
+    if let Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref i)) = typeref {
+        if let Some(value) = i.named_values.get(value) {
+            return Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(
+                Asn1ResolvedIntegerValue {
+                    typeref: typeref.clone(),
+                    value: *value,
+                },
+            )));
+        }
+    }
+
     let referenced_value = resolver.resolved_defs.get(value);
     match referenced_value {
         None => {
-- 
2.43.0


From 0486eb18bc5b4f8f9374284d14aa1e14d96bd0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:23 +0000
Subject: [PATCH 29/57] fix: report duplicate, undefined, not imported and
 recursive definitions

Definitions that could not be sorted were left out, a definition silently
replaced another one of the same name, and formal parameters got mixed up
with the names of components and with each other.
---
 asn-compiler/src/bin/hampi-asn1c.rs           |  6 +-
 asn-compiler/src/compiler.rs                  | 91 ++++++++++++++++---
 asn-compiler/src/parser/asn/defs.rs           | 38 ++++++--
 asn-compiler/src/parser/asn/module.rs         | 40 +++++---
 asn-compiler/src/parser/asn/structs/defs.rs   | 15 ++-
 asn-compiler/src/parser/asn/structs/module.rs | 17 +++-
 .../parser/asn/structs/types/constraints.rs   |  5 +-
 .../parser/asn/structs/types/constructed.rs   | 10 +-
 .../src/parser/asn/structs/types/ioc.rs       | 14 ++-
 .../src/resolver/asn/types/base/enumerated.rs |  5 +-
 .../src/resolver/asn/types/base/integer.rs    |  5 +-
 .../src/resolver/asn/types/constructed.rs     |  5 +-
 asn-compiler/src/resolver/asn/types/int.rs    | 13 ++-
 asn-compiler/src/resolver/asn/types/ioc.rs    |  4 +-
 asn-compiler/src/resolver/int.rs              | 27 +-----
 15 files changed, 212 insertions(+), 83 deletions(-)

diff --git a/asn-compiler/src/bin/hampi-asn1c.rs b/asn-compiler/src/bin/hampi-asn1c.rs
index 53f4d73..a2b05ad 100644
--- a/asn-compiler/src/bin/hampi-asn1c.rs
+++ b/asn-compiler/src/bin/hampi-asn1c.rs
@@ -24,7 +24,11 @@ fn main() -> io::Result<()> {
             }
             let module = module.unwrap();
             //eprintln!("module: {:#?}", module);
-            compiler.add_module(module);
+            let name = module.get_module_name();
+            if !compiler.add_module(module) {
+                let error = format!("Module '{}' is defined more than once.", name);
+                return Err(io::Error::new(io::ErrorKind::Other, error));
+            }
         }
     }
     compiler.resolve_modules()?;
diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index cd044fd..52645d9 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -10,7 +10,10 @@ use topological_sort::TopologicalSort;
 
 use crate::error::Error;
 
-use crate::parser::asn::structs::module::Asn1Module;
+use crate::parser::asn::structs::{
+    defs::{Asn1AssignmentKind, Asn1Definition},
+    module::Asn1Module,
+};
 
 use crate::generator::Generator;
 use crate::resolver::Resolver;
@@ -55,7 +58,7 @@ impl Asn1Compiler {
     pub fn add_module(&mut self, module: Asn1Module) -> bool {
         self.modules
             .insert(module.get_module_name(), module)
-            .is_some()
+            .is_none()
     }
 
     /// Resolve Modules order and definitions within those modules.
@@ -123,20 +126,81 @@ impl Asn1Compiler {
         for (_, module) in self.modules.iter() {
             for (import, module_name) in module.get_imported_defs() {
                 let target = self.modules.get(module_name.name_as_str());
-                if target.is_none() {
-                    return Err(resolve_error!(
-                        "Module '{}', corresponding to definition '{}' not found!",
-                        module_name.name_as_str(),
-                        import
-                    ));
+                match target {
+                    None => {
+                        return Err(resolve_error!(
+                            "Module '{}', corresponding to definition '{}' not found!",
+                            module_name.name_as_str(),
+                            import
+                        ))
+                    }
+                    Some(t) if !t.get_definitions().contains_key(import) => {
+                        return Err(resolve_error!(
+                            "Definition '{}' not found in the module '{}'!",
+                            import,
+                            module_name.name_as_str()
+                        ))
+                    }
+                    _ => {}
                 }
             }
         }
+        self.check_definitions()?;
         eprintln!("All IMPORTS in All Modules Resolved!");
         Ok(())
     }
 
-    fn sorted_modules(&self) -> Vec<String> {
+    // All the modules share the names of their definitions, so these have to be different (or the
+    // same), and the definitions of other modules should only be used when they are imported.
+    fn check_definitions(&self) -> Result<(), Error> {
+        let mut defined_in: HashMap<&str, &Asn1Module> = HashMap::new();
+        for module in self.modules.values() {
+            for (name, definition) in module.get_definitions() {
+                if let Some(other) = defined_in.insert(name, module) {
+                    // The same type or value in more than one module is okay.
+                    let text = |d: &Asn1Definition| match d.kind {
+                        Asn1AssignmentKind::Type(..) | Asn1AssignmentKind::Value(..)
+                            if d.params.is_none() =>
+                        {
+                            Some(format!("{:?}", d.kind))
+                        }
+                        _ => None,
+                    };
+                    let same = text(definition).is_some()
+                        && text(definition) == text(&other.get_definitions()[name]);
+                    if !same {
+                        return Err(resolve_error!(
+                            "Different definitions of '{}' in the modules '{}' and '{}' are not supported!",
+                            name,
+                            other.get_module_name(),
+                            module.get_module_name()
+                        ));
+                    }
+                }
+            }
+        }
+        for module in self.modules.values() {
+            let imports: Vec<_> = module.get_imported_defs().map(|(d, _)| d).collect();
+            for definition in module.get_definitions().values() {
+                for r in definition.dependent_references() {
+                    if module.get_definitions().contains_key(&r) || imports.contains(&&r) {
+                        continue;
+                    }
+                    if let Some(other) = defined_in.get(r.as_str()) {
+                        return Err(resolve_error!(
+                            "Definition '{}' of the module '{}' is not imported in '{}'!",
+                            r,
+                            other.get_module_name(),
+                            module.get_module_name()
+                        ));
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
+    fn sorted_modules(&self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for module in self.modules.values() {
@@ -156,11 +220,16 @@ impl Asn1Compiler {
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        if !ts.is_empty() {
+            return Err(resolve_error!(
+                "Modules that import from each other are not supported."
+            ));
+        }
+        Ok(out_vec)
     }
 
     fn resolve_definitions(&mut self) -> Result<(), Error> {
-        let module_names = self.sorted_modules();
+        let module_names = self.sorted_modules()?;
         for name in module_names {
             let mut module = self.modules.get_mut(&name).unwrap();
 
diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 5e5fc21..050aae0 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -72,20 +72,42 @@ impl Asn1Definition {
             ));
         }
 
-        for (idx, actual) in actual_params.iter().enumerate() {
-            let replace = actual.param_string();
-            let source = &params.ordered[idx].dummyref.name;
-
-            for token in params.type_tokens.iter_mut() {
-                if &token.text == source {
-                    token.text = replace.clone()
-                }
+        // All the parameters are replaced in one go, because an actual parameter may have the name
+        // of another parameter.
+        for i in 0..params.type_tokens.len() {
+            if is_component_name(&params.type_tokens, i) {
+                continue;
+            }
+            let token = &mut params.type_tokens[i];
+            let param = params
+                .ordered
+                .iter()
+                .position(|p| p.dummyref.name == token.text);
+            if let Some(idx) = param {
+                token.text = actual_params[idx].param_string();
             }
         }
         let (ty, _) = parse_type(&params.type_tokens)?;
         Ok(ty)
     }
 }
+
+// Whether the token is the name of a component (ie. is followed by it's type).
+fn is_component_name(tokens: &[Token], index: usize) -> bool {
+    let begins_type = |t: &Token| t.is_keyword() || t.is_type_reference();
+    index > 0
+        && tokens[index].is_value_reference()
+        && [
+            Token::is_curly_begin,
+            Token::is_comma,
+            Token::is_addition_groups_begin,
+            Token::is_colon,
+        ]
+        .iter()
+        .any(|check| check(&tokens[index - 1]))
+        && tokens.get(index + 1).map_or(false, begins_type)
+}
+
 // Parse a definition into an `Assignment` type.
 //
 // This function is called by the Module parser to parse each definition. A definition will be one
diff --git a/asn-compiler/src/parser/asn/module.rs b/asn-compiler/src/parser/asn/module.rs
index de64414..d8c1f7f 100644
--- a/asn-compiler/src/parser/asn/module.rs
+++ b/asn-compiler/src/parser/asn/module.rs
@@ -80,6 +80,13 @@ where
     let mut definitions = HashMap::new();
     while !expect_keyword(&tokens[consumed..], "END")? {
         let (def, definition_consumed) = parse_definition(&tokens[consumed..])?;
+        if imports.contains_key(&def.id()) || definitions.contains_key(&def.id()) {
+            return Err(parse_error!(
+                "'{}' is defined or imported more than once in the module '{}'",
+                def.id(),
+                name.name
+            ));
+        }
         definitions.insert(def.id(), def);
         consumed += definition_consumed;
     }
@@ -106,17 +113,30 @@ fn parse_module_imports(
     if expect_keyword(&tokens[consumed..], "IMPORTS")? {
         consumed += 1;
 
-        loop {
+        while !expect_token(&tokens[consumed..], Token::is_semicolon)? {
             let mut imported_defs = vec![];
-            while !expect_keyword(&tokens[consumed..], "FROM")? {
-                if expect_token(&tokens[consumed..], Token::is_identifier)? {
-                    let definition = tokens[consumed].text.clone();
-                    imported_defs.push(definition);
+            loop {
+                if !expect_token(&tokens[consumed..], Token::is_identifier)? {
+                    return Err(unexpected_token!("'IDENTIFIER'", tokens[consumed]));
                 }
+                imported_defs.push(tokens[consumed].text.clone());
                 consumed += 1;
-                if expect_token(&tokens[consumed..], Token::is_comma)? {
-                    consumed += 1;
+
+                // Parameterized References
+                if expect_token(&tokens[consumed..], Token::is_curly_begin)? {
+                    if !expect_token(&tokens[consumed + 1..], Token::is_curly_end)? {
+                        return Err(unexpected_token!("'}'", tokens[consumed + 1]));
+                    }
+                    consumed += 2;
                 }
+
+                if !expect_token(&tokens[consumed..], Token::is_comma)? {
+                    break;
+                }
+                consumed += 1;
+            }
+            if !expect_keyword(&tokens[consumed..], "FROM")? {
+                return Err(unexpected_token!("'FROM'", tokens[consumed]));
             }
             consumed += 1;
             let (module_name, module_name_consumed) = parse_module_name(&tokens[consumed..])?;
@@ -128,12 +148,8 @@ fn parse_module_imports(
                 }
                 let _ = imports.insert(d, module_name.clone());
             }
-
-            if expect_token(&tokens[consumed..], Token::is_semicolon)? {
-                consumed += 1;
-                break;
-            }
         }
+        consumed += 1;
     }
 
     Ok((imports, consumed))
diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index 32637d8..be04f49 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -103,9 +103,13 @@ impl Asn1AssignmentKind {
 
     pub fn dependent_references(&self) -> Vec<String> {
         match self {
-            Self::Value(ref v) => v.typeref.dependent_references(),
+            Self::Value(ref v) => {
+                let mut output = v.typeref.dependent_references();
+                output.push(v.value.clone());
+                output
+            }
             Self::Type(ref t) => t.typeref.dependent_references(),
-            Self::Object(ref o) => vec![o.object.class.clone()],
+            Self::Object(ref o) => o.object.dependent_references(),
             Self::ObjectSet(ref s) => s.dependent_references(),
             Self::Class(ref c) => c.dependent_references(),
         }
@@ -128,7 +132,12 @@ impl Asn1Definition {
     // definitions topologically, which would make error handling considerably easier when
     // resolving those definitions
     pub fn dependent_references(&self) -> Vec<String> {
-        self.kind.dependent_references()
+        let mut references = self.kind.dependent_references();
+        // The parameters are not references to any other definition.
+        if let Some(ref params) = self.params {
+            references.retain(|r| params.ordered.iter().all(|p| p.dummyref.name != *r));
+        }
+        references
     }
 }
 
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index a2325c6..ae48298 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -4,6 +4,7 @@ use std::collections::{hash_map::Iter, HashMap};
 
 use topological_sort::TopologicalSort;
 
+use crate::error::Error;
 use crate::parser::asn::structs::{defs::Asn1Definition, oid::ObjectIdentifier};
 
 #[derive(Debug, PartialEq)]
@@ -88,12 +89,14 @@ impl Asn1Module {
     // a Type definition or a Class Name in an object definition and so on. We don't include the
     // 'import'ed definitions in these because, they will already be 'Resolved' because the modules
     // are already in a Topologically sorted order!
-    pub(crate) fn definitions_sorted(&mut self) -> Vec<String> {
+    //
+    // The definitions that depend on each other cannot be sorted and are an error.
+    pub(crate) fn definitions_sorted(&self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for (k, v) in self.definitions.iter() {
             for r in v.dependent_references() {
-                if self.imports.get(&r).is_none() {
+                if self.definitions.contains_key(&r) {
                     ts.add_dependency(r.clone(), k.clone());
                 }
             }
@@ -109,11 +112,17 @@ impl Asn1Module {
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        if !ts.is_empty() {
+            return Err(resolve_error!(
+                "Definitions that refer to themselves are not supported in the module '{}'.",
+                self.name.name
+            ));
+        }
+        Ok(out_vec)
     }
 
     #[inline(always)]
-    pub(crate) fn get_module_name(&self) -> String {
+    pub fn get_module_name(&self) -> String {
         self.name.name.clone()
     }
 
diff --git a/asn-compiler/src/parser/asn/structs/types/constraints.rs b/asn-compiler/src/parser/asn/structs/types/constraints.rs
index f2eb4a3..eac89a4 100644
--- a/asn-compiler/src/parser/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constraints.rs
@@ -85,7 +85,10 @@ impl ElementSet {
             }
         };
         let unions = std::iter::once(&mut self.root_elements).chain(&mut self.additional_elements);
-        for element in unions.flat_map(|u| &mut u.elements).flat_map(|i| &mut i.elements) {
+        for element in unions
+            .flat_map(|u| &mut u.elements)
+            .flat_map(|i| &mut i.elements)
+        {
             match element {
                 Elements::Set(ref mut set) => set.replace_named_values(named_values),
                 Elements::Subtype(SubtypeElements::SingleValue { ref mut value }) => replace(value),
diff --git a/asn-compiler/src/parser/asn/structs/types/constructed.rs b/asn-compiler/src/parser/asn/structs/types/constructed.rs
index 3a10800..d54d7b7 100644
--- a/asn-compiler/src/parser/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constructed.rs
@@ -27,7 +27,9 @@ pub(crate) struct SeqComponent {
 
 impl SeqComponent {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
-        self.component.dependent_references()
+        let mut dependencies = self.component.dependent_references();
+        dependencies.extend(self._default.clone());
+        dependencies
     }
 }
 
@@ -112,6 +114,10 @@ pub(crate) struct Asn1TypeSequenceOf {
 
 impl Asn1TypeSequenceOf {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
-        self.ty.dependent_references()
+        let mut dependencies = self.ty.dependent_references();
+        if let Some(ref size) = self.size {
+            dependencies.extend(size.dependent_references());
+        }
+        dependencies
     }
 }
diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 728e8f7..91314e6 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -138,7 +138,11 @@ impl Asn1ObjectFieldSpec {
                     vec![]
                 }
             }
-            Self::FixedTypeValue { typeref, .. } => typeref.dependent_references(),
+            Self::FixedTypeValue { typeref, value } => {
+                let mut output = typeref.dependent_references();
+                output.extend(value.clone());
+                output
+            }
         }
     }
 }
@@ -169,6 +173,14 @@ pub(crate) struct Asn1Object {
     pub(crate) value: Asn1ObjectValue, // For now just a string,
 }
 
+impl Asn1Object {
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
+        let mut output = vec![self.class.clone()];
+        output.append(&mut self.value.dependent_references());
+        output
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct ObjectSet {
     pub(crate) root_elements: Vec<ObjectSetElement>,
diff --git a/asn-compiler/src/resolver/asn/types/base/enumerated.rs b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
index 9ee0bcc..cc3daca 100644
--- a/asn-compiler/src/resolver/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
@@ -40,7 +40,10 @@ impl Asn1ResolvedEnumerated {
                 None => unused.next().unwrap(),
             };
             if !root_values.insert(number) {
-                return Err(resolve_error!("'{}' has the same number as another value.", v.name));
+                return Err(resolve_error!(
+                    "'{}' has the same number as another value.",
+                    v.name
+                ));
             }
             numbered.push((number, v.name.clone()));
         }
diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 2e02d8b..edf576d 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -88,7 +88,10 @@ impl Asn1ResolvedInteger {
                     }
                 }
                 (_, Some(max)) if max > i64::MAX as i128 => {
-                    return Err(constraint_error!("There is no type for the values ..{}.", max))
+                    return Err(constraint_error!(
+                        "There is no type for the values ..{}.",
+                        max
+                    ))
                 }
                 _ => 64,
             };
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index e487ee5..e5dd50b 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -305,10 +305,7 @@ fn get_seq_component_for_object_set(
             let field_ob = o.fields.get(fieldref);
             if let Some(ResolvedFieldSpec::Type { ty }) = field_ob {
                 if let Some(ty) = ty {
-                    types.insert(
-                        (key.1.clone(), key.0.clone()),
-                        (key.0.clone(), ty.clone()),
-                    );
+                    types.insert((key.1.clone(), key.0.clone()), (key.0.clone(), ty.clone()));
                 }
             }
         }
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index f496f39..01c0ecc 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -20,13 +20,12 @@ use crate::resolver::{
     Resolver,
 };
 
-
-    // Returns the Integer ValueSet for a given Type.
-    //
-    // If the type is a `Base` type, it should be INTEGER or it's an Error. If the `Type` is a
-    // Referenced Type, it should be possible to 'resolve' the Reference to a proper
-    // `Asn1ConstraintValueSet` else it's an error, we'll try to 'recursively' 'resolve' till we
-    // get to a `Base` Type.
+// Returns the Integer ValueSet for a given Type.
+//
+// If the type is a `Base` type, it should be INTEGER or it's an Error. If the `Type` is a
+// Referenced Type, it should be possible to 'resolve' the Reference to a proper
+// `Asn1ConstraintValueSet` else it's an error, we'll try to 'recursively' 'resolve' till we
+// get to a `Base` Type.
 
 impl Asn1Type {
     // Values allowed by the constraints of this INTEGER type, that also are in the `parent`'s.
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 223d5b6..121067f 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -13,8 +13,8 @@ use crate::resolver::{
             defs::Asn1ResolvedDefinition,
             types::{
                 ioc::{
-                    Asn1ResolvedObject, Asn1ResolvedObjectSet, ResolvedFieldSpec, ResolvedObjectSet,
-                    ResolvedObjectSetElement,
+                    Asn1ResolvedObject, Asn1ResolvedObjectSet, ResolvedFieldSpec,
+                    ResolvedObjectSet, ResolvedObjectSetElement,
                 },
                 Asn1ResolvedType,
             },
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index e036062..b5d43b9 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -55,15 +55,11 @@ impl Resolver {
 
         module.resolve_object_classes(&self.classes)?;
 
-        let definitions_sorted = module.definitions_sorted();
+        let definitions_sorted = module.definitions_sorted()?;
         for k in definitions_sorted {
             let parsed_def = module.get_definition_mut(&k);
             if parsed_def.is_none() {
-                eprintln!(
-                    "Definition '{}' Not found! It's Okay for certain Dummy References",
-                    k
-                );
-                continue;
+                return Err(resolve_error!("Definition '{}' Not found!", k));
             }
             let parsed_def = parsed_def.unwrap();
             if parsed_def.params.is_some() {
@@ -80,25 +76,6 @@ impl Resolver {
             parsed_def.resolved = true;
         }
 
-        for k in module.definitions_sorted() {
-            let parsed_def = module.get_definition_mut(&k);
-            if parsed_def.is_none() {
-                eprintln!(
-                    "Definition '{}' Not found! It's Okay for certain Dummy References",
-                    k
-                );
-                continue;
-            }
-            let parsed_def = parsed_def.unwrap();
-            if !parsed_def.resolved {
-                println!(
-                    "UNRESOLVED: Definition: {} in module : {} not resolved!",
-                    k,
-                    module.get_module_name()
-                );
-            }
-        }
-
         Ok(())
     }
 
-- 
2.43.0


From 8590c37d30a353fba8345ebd5ec4cdd1864e55e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:55 +0000
Subject: [PATCH 30/57] fix: keep the identifiers of the generated code unique

Names of inner types collided with those of other types, and keywords of Rust
or types used by the generated code were generated as identifiers.
---
 .../generator/asn/types/base/enumerated.rs    |  9 +++
 .../generator/asn/types/constructed/choice.rs | 13 ++++
 .../generator/asn/types/constructed/mod.rs    |  8 +--
 .../generator/asn/types/constructed/seq.rs    | 10 +++
 asn-compiler/src/generator/asn/types/int.rs   | 16 +++--
 asn-compiler/src/generator/int.rs             | 63 +++++++++++++++++--
 6 files changed, 105 insertions(+), 14 deletions(-)

diff --git a/asn-compiler/src/generator/asn/types/base/enumerated.rs b/asn-compiler/src/generator/asn/types/base/enumerated.rs
index e730207..c64a4ad 100644
--- a/asn-compiler/src/generator/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/generator/asn/types/base/enumerated.rs
@@ -1,5 +1,7 @@
 //! Mainly 'generator' code for `Asn1ResolvedEnumerated`
 
+use std::collections::HashSet;
+
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 
@@ -42,8 +44,15 @@ impl Asn1ResolvedEnumerated {
 
     fn generate_named_values(&self, generator: &Generator) -> Result<TokenStream, Error> {
         let mut tokens = TokenStream::new();
+        let mut idents = HashSet::new();
         for (name, value) in &self.named_root_values {
             let const_name = generator.to_const_ident(&name);
+            if !idents.insert(const_name.to_string()) {
+                return Err(code_generate_error!(
+                    "Another value has the same identifier as '{}'.",
+                    name
+                ));
+            }
             let value_literal = generator.to_suffixed_literal(self.bits, self.signed, *value);
             let ty = generator.to_inner_type(self.bits, self.signed);
             let const_tokens = quote! {
diff --git a/asn-compiler/src/generator/asn/types/constructed/choice.rs b/asn-compiler/src/generator/asn/types/constructed/choice.rs
index ca8d563..1f389d2 100644
--- a/asn-compiler/src/generator/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/choice.rs
@@ -1,5 +1,7 @@
 //! Handling of Code generation for CHOICE ASN.1 Types
 
+use std::collections::HashSet;
+
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 
@@ -38,6 +40,17 @@ impl ResolvedConstructedType {
             let root_tokens =
                 ResolvedConstructedType::get_component_tokens(root_components, name, generator)?;
 
+            let mut idents = HashSet::new();
+            for c in root_components.iter().chain(additions.iter().flatten()) {
+                if !idents.insert(generator.to_type_ident(&c.id).to_string()) {
+                    return Err(code_generate_error!(
+                        "Another component of '{}' has the same identifier as '{}'.",
+                        name,
+                        c.id
+                    ));
+                }
+            }
+
             // Get all the required information from the additions if present
             let addition_tokens = if additions.is_some() {
                 let additions = additions.as_ref().unwrap();
diff --git a/asn-compiler/src/generator/asn/types/constructed/mod.rs b/asn-compiler/src/generator/asn/types/constructed/mod.rs
index 28c1960..855c48b 100644
--- a/asn-compiler/src/generator/asn/types/constructed/mod.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/mod.rs
@@ -59,18 +59,18 @@ impl ResolvedConstructedType {
     ) -> Result<Ident, Error> {
         let unique_name = match self {
             ResolvedConstructedType::Sequence { name, .. } => match input {
-                Some(ref inp) => inp.to_string(),
+                Some(inp) => generator.get_unused_name(inp),
                 None => match name {
-                    Some(ref n) => n.to_string(),
+                    Some(ref n) => generator.get_unused_name(n),
                     None => generator.get_unique_name("Sequence"),
                 },
             },
             ResolvedConstructedType::Choice { .. } => match input {
-                Some(ref inp) => inp.to_string(),
+                Some(inp) => generator.get_unused_name(inp),
                 None => generator.get_unique_name("Choice"),
             },
             ResolvedConstructedType::SequenceOf { .. } => match input {
-                Some(ref inp) => inp.to_string(),
+                Some(inp) => generator.get_unused_name(inp),
                 None => generator.get_unique_name("SeqOf"),
             },
         };
diff --git a/asn-compiler/src/generator/asn/types/constructed/seq.rs b/asn-compiler/src/generator/asn/types/constructed/seq.rs
index cc084c3..ec22226 100644
--- a/asn-compiler/src/generator/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/seq.rs
@@ -1,5 +1,7 @@
 //! Implementation of Code Generation for ASN.1 `SEQUENCE` Type.
 
+use std::collections::HashSet;
+
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -31,8 +33,16 @@ impl ResolvedConstructedType {
 
             let mut comp_tokens = TokenStream::new();
             let mut optional_fields = 0;
+            let mut idents = HashSet::new();
             for c in components {
                 let comp_field_ident = generator.to_value_ident(&c.component.id);
+                if !idents.insert(comp_field_ident.to_string()) {
+                    return Err(code_generate_error!(
+                        "Another component of '{}' has the same identifier as '{}'.",
+                        name,
+                        c.component.id
+                    ));
+                }
                 let comp_ty_suffix = generator.to_type_ident(&c.component.id);
                 let input_comp_ty_ident = format!("{}{}", name, comp_ty_suffix);
                 let comp_ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(
diff --git a/asn-compiler/src/generator/asn/types/int.rs b/asn-compiler/src/generator/asn/types/int.rs
index 0158e5f..86a5348 100644
--- a/asn-compiler/src/generator/asn/types/int.rs
+++ b/asn-compiler/src/generator/asn/types/int.rs
@@ -1,6 +1,8 @@
 //! Handling top level Generator code for a Resolved Type. Based on the individual type variant,
 //! the respective functions are called.
 
+use std::collections::HashSet;
+
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 
@@ -87,10 +89,8 @@ impl ResolvedSetType {
         input: Option<&String>,
     ) -> Result<Ident, Error> {
         // FIXME: This is perhaps not right
-        let ty_ident = match input {
-            None => generator.to_type_ident(&self.setref),
-            Some(ref inp) => generator.to_type_ident(inp),
-        };
+        let name = generator.get_unused_name(input.unwrap_or(&self.setref));
+        let ty_ident = generator.to_type_ident(&name);
         let ty_elements = self.generate_aux_types(generator)?;
 
         let set_ty = quote! {
@@ -108,8 +108,16 @@ impl ResolvedSetType {
 
     fn generate_aux_types(&self, generator: &mut Generator) -> Result<TokenStream, Error> {
         let mut variant_tokens = TokenStream::new();
+        let mut idents = HashSet::new();
         for (name, ty) in &self.types {
             let variant_ident = generator.to_type_ident(&name.0);
+            if !idents.insert(variant_ident.to_string()) {
+                return Err(code_generate_error!(
+                    "Another object in '{}' has the same identifier as '{}'.",
+                    self.setref,
+                    name.0
+                ));
+            }
             let ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(&ty.1, generator, None)?;
             let key: proc_macro2::TokenStream = ty.0.to_string().parse().unwrap();
             let key_tokens = quote! {
diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index b0677fe..639938d 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -1,5 +1,7 @@
 //! Code Generation module
 
+use std::collections::HashSet;
+
 use heck::{ToShoutySnakeCase, ToSnakeCase};
 use proc_macro2::{Ident, Literal, Span, TokenStream};
 
@@ -10,6 +12,21 @@ use crate::resolver::Resolver;
 
 use crate::resolver::asn::structs::types::Asn1ResolvedType;
 
+// Types used by the generated code, that cannot be defined in it.
+const RESERVED_TYPES: [&str; 12] = [
+    "BitVec", "Box", "Err", "Msb0", "None", "Ok", "Option", "Result", "Self", "Some", "String",
+    "Vec",
+];
+
+// Keywords of Rust in lower case.
+const KEYWORDS: [&str; 50] = [
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl",
+    "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "typeof", "unsafe",
+    "unsized", "use", "virtual", "where", "while", "yield",
+];
+
 #[derive(Debug)]
 pub(crate) struct Generator {
     // Generated Tokens for the module.
@@ -23,6 +40,9 @@ pub(crate) struct Generator {
 
     // Auxillary Items: These are structs/that are referenced inside constructed type.
     pub(crate) aux_items: Vec<TokenStream>,
+
+    // Identifiers of the generated types.
+    pub(crate) type_idents: HashSet<String>,
 }
 
 impl Generator {
@@ -32,6 +52,7 @@ impl Generator {
             _name: name.to_string(),
             counter: 1,
             aux_items: vec![],
+            type_idents: HashSet::new(),
         }
     }
 
@@ -43,6 +64,16 @@ impl Generator {
         let use_tokens = self.generate_use_tokens();
         self.items.push(use_tokens);
 
+        for (k, _) in resolver.get_resolved_types() {
+            let ident = self.to_type_ident(k).to_string();
+            if !self.type_idents.insert(ident) {
+                return Err(code_generate_error!(
+                    "Another type has the same identifier as '{}'.",
+                    k
+                ));
+            }
+        }
+
         let mut items = vec![];
         for (k, t) in resolver.get_resolved_types() {
             let item = Asn1ResolvedType::generate_for_type(k, t, self)?;
@@ -66,10 +97,11 @@ impl Generator {
     }
 
     pub(crate) fn to_type_ident(&self, name: &str) -> Ident {
-        Ident::new(
-            &capitalize_first(name).replace("-", "_").replace(" ", "_"),
-            Span::call_site(),
-        )
+        let mut ident = capitalize_first(name).replace("-", "_").replace(" ", "_");
+        if RESERVED_TYPES.contains(&ident.as_str()) {
+            ident.push('_');
+        }
+        Ident::new(&ident, Span::call_site())
     }
 
     pub(crate) fn to_const_ident(&self, name: &str) -> Ident {
@@ -81,6 +113,9 @@ impl Generator {
         if val == *"type" {
             val = "typ".to_string()
         }
+        if KEYWORDS.contains(&val.as_str()) {
+            val.push('_');
+        }
         Ident::new(&val, Span::call_site())
     }
 
@@ -125,9 +160,25 @@ impl Generator {
     }
 
     pub(crate) fn get_unique_name(&mut self, name: &str) -> String {
-        self.counter += 1;
+        loop {
+            self.counter += 1;
 
-        format!("{} {}", name, self.counter)
+            let unique = format!("{} {}", name, self.counter);
+            let ident = self.to_type_ident(&unique).to_string();
+            if self.type_idents.insert(ident) {
+                return unique;
+            }
+        }
+    }
+
+    // Returns the `name` itself if there is no type with that name, or else a unique name.
+    pub(crate) fn get_unused_name(&mut self, name: &str) -> String {
+        let ident = self.to_type_ident(name).to_string();
+        if self.type_idents.insert(ident) {
+            name.to_string()
+        } else {
+            self.get_unique_name(name)
+        }
     }
 
     fn generate_use_tokens(&self) -> TokenStream {
-- 
2.43.0


From 3e5e8d15143b6445ad771493412666437c837713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 31/57] fix: report undefined default values, duplicate objects
 and too deeply nested types

---
 asn-compiler/src/parser/int.rs                | 37 ++++++++++++++++
 .../src/resolver/asn/types/constructed.rs     | 44 +++++++++++++++++++
 asn-compiler/src/resolver/asn/types/ioc.rs    | 26 ++++++++++-
 asn-compiler/src/resolver/int.rs              | 11 ++---
 4 files changed, 111 insertions(+), 7 deletions(-)

diff --git a/asn-compiler/src/parser/int.rs b/asn-compiler/src/parser/int.rs
index 4f522c8..54df52a 100644
--- a/asn-compiler/src/parser/int.rs
+++ b/asn-compiler/src/parser/int.rs
@@ -16,6 +16,8 @@ pub fn parse(tokens: &mut Vec<Token>) -> Result<Vec<Asn1Module>, Error> {
     // Get rid of the comments, it complicates things
     tokens.retain(|x| !x.is_comment());
 
+    check_nesting(tokens)?;
+
     let mut modules = vec![];
     let mut total = 0;
     loop {
@@ -29,4 +31,39 @@ pub fn parse(tokens: &mut Vec<Token>) -> Result<Vec<Asn1Module>, Error> {
     Ok(modules)
 }
 
+// The types are parsed recursively, so the depth of the types inside other types is limited.
+const MAX_NESTING: usize = 100;
+
+fn check_nesting(tokens: &[Token]) -> Result<(), Error> {
+    let mut depths = vec![];
+    let mut depth = 0;
+    for token in tokens {
+        if token.is_curly_begin()
+            || token.is_round_begin()
+            || token.is_square_begin()
+            || token.is_addition_groups_begin()
+        {
+            depths.push(depth);
+            depth += 1;
+        } else if token.is_curly_end()
+            || token.is_round_end()
+            || token.is_square_end()
+            || token.is_addition_groups_end()
+        {
+            depth = depths.pop().unwrap_or(0);
+        } else if token.is_given_keyword("OF") {
+            depth += 1;
+        } else if token.is_comma() || token.is_assignment() {
+            depth = depths.last().map_or(0, |d| d + 1);
+        }
+        if depth > MAX_NESTING {
+            return Err(parse_error!(
+                "Types nested more than {} levels deep are not supported.",
+                MAX_NESTING
+            ));
+        }
+    }
+    Ok(())
+}
+
 // TODO: Test cases, at-least single-module, multiple modules etc.
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index e5dd50b..fd8df0a 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -14,6 +14,7 @@ use crate::resolver::{
         structs::{
             defs::Asn1ResolvedDefinition,
             types::{
+                base::ResolvedBaseType,
                 constructed::{
                     ClassFieldComponentType, ResolvedComponent, ResolvedConstructedType,
                     ResolvedSeqComponent,
@@ -23,6 +24,7 @@ use crate::resolver::{
             },
         },
         types::resolve_type,
+        values::resolve_value,
     },
     Resolver,
 };
@@ -107,6 +109,9 @@ fn resolve_sequence_type(
             continue;
         }
         let ty = resolve_type(&c.component.ty, resolver)?;
+        if let Some(ref default) = c._default {
+            check_default_value(default, &ty, resolver)?;
+        }
         let component = ResolvedComponent {
             id: c.component.id.clone(),
             ty,
@@ -129,6 +134,45 @@ fn resolve_sequence_type(
     ))
 }
 
+// Checks that the default value of a component is a value of it's type.
+//
+// Only the types with simple values are checked.
+fn check_default_value(
+    value: &str,
+    ty: &Asn1ResolvedType,
+    resolver: &mut Resolver,
+) -> Result<(), Error> {
+    let resolved = match ty {
+        Asn1ResolvedType::Reference(ref r) => resolver.get_referenced_type(r).cloned(),
+        _ => Some(ty.clone()),
+    };
+    let is_value = matches!(
+        resolver.resolved_defs.get(value),
+        Some(Asn1ResolvedDefinition::Value(..))
+    );
+    let valid = match resolved {
+        Some(Asn1ResolvedType::Base(ref base)) => match base {
+            ResolvedBaseType::Integer(..) => resolve_value(value, ty, resolver)
+                .map_or(false, |v| resolver.get_integer_value(&v).is_some()),
+            ResolvedBaseType::Enum(ref e) => {
+                let mut values = e.named_root_values.iter().chain(&e.named_ext_values);
+                values.any(|v| v.0 == value) || is_value
+            }
+            ResolvedBaseType::Boolean(..) => matches!(value, "TRUE" | "FALSE") || is_value,
+            _ => !value.starts_with(char::is_lowercase) || is_value,
+        },
+        _ => true,
+    };
+    if valid {
+        Ok(())
+    } else {
+        Err(resolve_error!(
+            "'{}' is not a value of the type of the component.",
+            value
+        ))
+    }
+}
+
 fn resolve_sequence_of_type(
     sequence_of: &Asn1TypeSequenceOf,
     resolver: &mut Resolver,
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 121067f..0d9d452 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -1,5 +1,5 @@
 //! Handling of Information Object Classes, ObjectSets, Objects etc
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use crate::error::Error;
 
@@ -177,7 +177,18 @@ fn add_to_lookup_table(
             Asn1ResolvedValue::Reference(ref s) => s.clone(),
             _ => format!("Id {}", integer).replace('-', "minus "),
         };
-        let _ = lookup_table.insert((integer.to_string(), name), element.clone());
+        let key = (integer.to_string(), name);
+        let used = lookup_table.iter().any(|(k, e)| {
+            k.0 == key.0 && (k.1 != key.1 || sorted_fields(e) != sorted_fields(element))
+        });
+        if used {
+            return Err(resolve_error!(
+                "More than one object with the value '{}' of the UNIQUE field '{}'.",
+                integer,
+                unique_field
+            ));
+        }
+        let _ = lookup_table.insert(key, element.clone());
         Ok(())
     } else {
         Err(resolve_error!(
@@ -188,6 +199,17 @@ fn add_to_lookup_table(
     }
 }
 
+// Fields of an object in a form that can be compared.
+fn sorted_fields(element: &ResolvedObjectSetElement) -> Option<String> {
+    match element {
+        ResolvedObjectSetElement::Object(ref o) => {
+            let fields: BTreeMap<_, _> = o.fields.iter().collect();
+            Some(format!("{:?}", fields))
+        }
+        _ => None,
+    }
+}
+
 pub(crate) fn resolve_object(
     object_name: &str,
     object_value: &Asn1ObjectValue,
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index b5d43b9..51b9fb4 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -94,12 +94,13 @@ impl Resolver {
 
     // Follows the references to a type till a type that is not a reference is found.
     pub(crate) fn get_referenced_type(&self, name: &str) -> Option<&Asn1ResolvedType> {
-        match self.resolved_defs.get(name) {
-            Some(Asn1ResolvedDefinition::Type(Asn1ResolvedType::Reference(ref r))) => {
-                self.get_referenced_type(r)
+        let mut name = name;
+        loop {
+            match self.resolved_defs.get(name) {
+                Some(Asn1ResolvedDefinition::Type(Asn1ResolvedType::Reference(ref r))) => name = r,
+                Some(Asn1ResolvedDefinition::Type(ref t)) => return Some(t),
+                _ => return None,
             }
-            Some(Asn1ResolvedDefinition::Type(ref t)) => Some(t),
-            _ => None,
         }
     }
 
-- 
2.43.0


From aa3f746900e3cb1eda98855b1e789209a4658ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:52 +0000
Subject: [PATCH 32/57] fix: accept a class without WITH SYNTAX as the last
 definition of a module

---
 asn-compiler/src/parser/asn/types/ioc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index d4cfc88..b7fe4f1 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -220,7 +220,9 @@ fn parse_with_syntax_for_fields(
     fields: &mut HashMap<String, ObjectClassFieldSpec>,
 ) -> Result<(Option<Vec<String>>, usize), Error> {
     let mut consumed = 0;
-    if !expect_keywords(&tokens[consumed..], &["WITH", "SYNTAX"])? {
+    if !expect_keyword(&tokens[consumed..], "WITH")?
+        || !expect_keywords(&tokens[consumed..], &["WITH", "SYNTAX"])?
+    {
         return Ok((None, consumed));
     }
     consumed += 2;
-- 
2.43.0


From 766df67c1f004500c17c8ff417e40c06d451b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:22 +0000
Subject: [PATCH 33/57] fix: refuse wrong separators, empty operands and
 incomplete keywords

---
 asn-compiler/src/parser/asn/defs.rs           |   6 +-
 .../src/parser/asn/types/constraints.rs       |  44 +++----
 asn-compiler/src/parser/asn/types/int.rs      |  41 +++---
 asn-compiler/src/parser/asn/types/ioc.rs      | 124 +++++++++---------
 4 files changed, 106 insertions(+), 109 deletions(-)

diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 050aae0..55137d4 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -477,11 +477,11 @@ fn parse_params(tokens: &[Token]) -> Result<(DefinitionParams, usize), Error> {
 
         if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
-        }
-
-        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+        } else if expect_token(&tokens[consumed..], Token::is_curly_end)? {
             consumed += 1;
             break;
+        } else {
+            return Err(unexpected_token!("',' or '}'", tokens[consumed]));
         }
     }
 
diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index 2721b08..caf5572 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -113,10 +113,6 @@ fn parse_element_set(tokens: &[Token]) -> Result<(ElementSet, usize), Error> {
     let (root_elements, root_consumed) = parse_union_set(&tokens[consumed..])?;
     consumed += root_consumed;
 
-    if root_elements.elements.is_empty() {
-        return Err(parse_error!("Empty Set in a Constraint!"));
-    }
-
     let mut additional_elements = None;
     if expect_token(&tokens[consumed..], Token::is_comma)? {
         consumed += 1;
@@ -127,15 +123,16 @@ fn parse_element_set(tokens: &[Token]) -> Result<(ElementSet, usize), Error> {
         }
         consumed += 1;
 
+        // Potentially Empty additional_elements
+        let mut additional = UnionSet { elements: vec![] };
         if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
-        }
 
-        // Potentially Empty additional_elements
-        if let Ok(result) = parse_union_set(&tokens[consumed..]) {
-            additional_elements = Some(result.0);
-            consumed += result.1;
+            let (elements, elements_consumed) = parse_union_set(&tokens[consumed..])?;
+            additional = elements;
+            consumed += elements_consumed;
         }
+        additional_elements = Some(additional);
     }
 
     if !expect_token(&tokens[consumed..], Token::is_round_end)? {
@@ -160,32 +157,20 @@ fn parse_union_set(tokens: &[Token]) -> Result<(UnionSet, usize), Error> {
     loop {
         // IntersectionSet Loop
         let mut iset_elements = vec![];
-        let mut expecting_iset = false;
         loop {
-            match parse_intersection_set(&tokens[consumed..]) {
-                Ok(result) => {
-                    iset_elements.push(result.0);
-                    consumed += result.1;
-                }
-                Err(_) => {
-                    if expecting_iset {
-                        return Err(parse_error!("Expecting Interesection Set in a Constraint."));
-                    }
-                }
-            }
+            let (element, element_consumed) = parse_intersection_set(&tokens[consumed..])?;
+            iset_elements.push(element);
+            consumed += element_consumed;
 
             if !expect_token(&tokens[consumed..], Token::is_set_intersection)? {
                 break; // Break intersection Set loop.
             } else {
-                expecting_iset = true;
                 consumed += 1;
             }
         }
-        if !iset_elements.is_empty() {
-            elements.push(IntersectionSet {
-                elements: iset_elements,
-            });
-        }
+        elements.push(IntersectionSet {
+            elements: iset_elements,
+        });
 
         if !expect_token(&tokens[consumed..], Token::is_set_union)? {
             break; // Break UnionSet loop.
@@ -306,7 +291,10 @@ fn parse_range_elements(tokens: &[Token]) -> Result<(SubtypeElements, usize), Er
     } else {
         true
     };
-    consumed += 1; // The '..' Token
+    if !expect_token(&tokens[consumed..], Token::is_range_separator)? {
+        return Err(unexpected_token!("'..'", tokens[consumed]));
+    }
+    consumed += 1;
 
     let upper_inclusive = if expect_token(&tokens[consumed..], Token::is_less_than)? {
         consumed += 1;
diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 346ac5f..94bebb5 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -43,14 +43,24 @@ pub(crate) fn parse_type(tokens: &[Token]) -> Result<(Asn1Type, usize), Error> {
             )
         }
 
-        "OCTET" => (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2),
+        "OCTET" => {
+            if !expect_keywords(tokens, &["OCTET", "STRING"])? {
+                return Err(unexpected_token!("'STRING'", tokens[1]));
+            }
+            (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2)
+        }
 
-        "CHARACTER" => (
-            Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
-                str_type: "CHARACTER-STRING".to_string(),
-            }),
-            2,
-        ),
+        "CHARACTER" => {
+            if !expect_keywords(tokens, &["CHARACTER", "STRING"])? {
+                return Err(unexpected_token!("'STRING'", tokens[1]));
+            }
+            (
+                Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
+                    str_type: "CHARACTER-STRING".to_string(),
+                }),
+                2,
+            )
+        }
 
         "ENUMERATED" => {
             let (enum_type, enum_type_consumed) = parse_enumerated_type(tokens)?;
@@ -194,7 +204,6 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
 
     let mut params = vec![];
     loop {
-        let start = consumed;
         if expect_token(&tokens[consumed..], Token::is_curly_begin)? {
             consumed += 1;
             let param = if expect_one_of_tokens(
@@ -213,26 +222,24 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
             };
             consumed += 1;
             params.push(ActualParam::Set(param));
-        }
-
-        if expect_one_of_tokens(
+        } else if expect_one_of_tokens(
             &tokens[consumed..],
             &[Token::is_numeric, Token::is_identifier],
         )? {
             let param = tokens[consumed].text.clone();
             consumed += 1;
             params.push(ActualParam::Single(param));
+        } else {
+            return Err(unexpected_token!("'PARAMETER'", tokens[consumed]));
         }
+
         if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
-        }
-        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+        } else if expect_token(&tokens[consumed..], Token::is_curly_end)? {
             consumed += 1;
             break;
-        }
-
-        if consumed == start {
-            return Err(unexpected_token!("'PARAMETER' or '}'", tokens[consumed]));
+        } else {
+            return Err(unexpected_token!("',' or '}'", tokens[consumed]));
         }
     }
     Ok((params, consumed))
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index b7fe4f1..b121185 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -7,8 +7,7 @@ use crate::tokenizer::{tokenize, Token};
 use crate::parser::{
     asn::values::parse_value,
     utils::{
-        expect_keyword, expect_keywords, expect_one_of_keywords, expect_one_of_tokens,
-        expect_token, parse_set_ish_value,
+        expect_keyword, expect_keywords, expect_one_of_keywords, expect_token, parse_set_ish_value,
     },
 };
 
@@ -337,71 +336,39 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
 
     let mut root_elements = vec![];
     let mut additional_elements = vec![];
-    let mut extension_token_count = 0;
-    loop {
-        let start = consumed;
-        if expect_token(&tokens[consumed..], Token::is_extension)? {
-            extension_token_count += 1;
-            if extension_token_count > 1 {
-                return Err(parse_error!("More than one extension markers found!"));
-            }
-            consumed += 1;
-            if expect_token(&tokens[consumed..], Token::is_comma)? {
-                consumed += 1;
-            }
-        }
-
-        let element = match parse_set_ish_value(&tokens[consumed..]) {
-            Ok(result) => {
-                let (value, value_consumed) = result;
-
-                consumed += value_consumed;
-                Some(ObjectSetElement::Object(Asn1ObjectValue::Input(value)))
-            }
-            Err(_) => {
-                // It may be a reference to an object set, allowed
-                if expect_one_of_tokens(
-                    &tokens[consumed..],
-                    &[Token::is_object_set_reference, Token::is_object_reference],
-                )? {
-                    let token = &tokens[consumed];
-                    consumed += 1;
-                    if token.is_object_reference() {
-                        Some(ObjectSetElement::ObjectReference(token.text.clone()))
-                    } else {
-                        Some(ObjectSetElement::ObjectSetReference(token.text.clone()))
-                    }
-                } else {
-                    None
-                }
-            } // Empty Values permitted
-        };
-
-        if let Some(ele) = element {
-            if extension_token_count == 0 {
-                root_elements.push(ele);
-            } else {
-                additional_elements.push(ele);
-            }
-        }
+    let extensible = if expect_token(&tokens[consumed..], Token::is_extension)? {
+        true
+    } else {
+        let (elements, elements_consumed) = parse_object_set_elements(&tokens[consumed..])?;
+        root_elements = elements;
+        consumed += elements_consumed;
 
-        if expect_token(&tokens[consumed..], Token::is_comma)? {
+        let extensible = expect_token(&tokens[consumed..], Token::is_comma)?;
+        if extensible {
             consumed += 1;
         }
+        extensible
+    };
 
-        if expect_token(&tokens[consumed..], Token::is_set_union)? {
-            consumed += 1;
+    if extensible {
+        if !expect_token(&tokens[consumed..], Token::is_extension)? {
+            return Err(unexpected_token!("'...'", tokens[consumed]));
         }
+        consumed += 1;
 
-        if expect_token(&tokens[consumed..], Token::is_curly_end)? {
+        if expect_token(&tokens[consumed..], Token::is_comma)? {
             consumed += 1;
-            break;
+            let (elements, elements_consumed) = parse_object_set_elements(&tokens[consumed..])?;
+            additional_elements = elements;
+            consumed += elements_consumed;
         }
+    }
 
-        if consumed == start {
-            return Err(unexpected_token!("'OBJECT' or '}'", tokens[consumed]));
-        }
+    if !expect_token(&tokens[consumed..], Token::is_curly_end)? {
+        return Err(unexpected_token!("'}'", tokens[consumed]));
     }
+    consumed += 1;
+
     Ok((
         ObjectSet {
             root_elements,
@@ -411,6 +378,36 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
     ))
 }
 
+// Parses the elements of an object set separated by '|' (or 'UNION').
+fn parse_object_set_elements(tokens: &[Token]) -> Result<(Vec<ObjectSetElement>, usize), Error> {
+    let mut consumed = 0;
+    let mut elements = vec![];
+    loop {
+        if let Ok((value, value_consumed)) = parse_set_ish_value(&tokens[consumed..]) {
+            consumed += value_consumed;
+            elements.push(ObjectSetElement::Object(Asn1ObjectValue::Input(value)));
+        } else if expect_token(&tokens[consumed..], Token::is_object_reference)? {
+            elements.push(ObjectSetElement::ObjectReference(
+                tokens[consumed].text.clone(),
+            ));
+            consumed += 1;
+        } else if expect_token(&tokens[consumed..], Token::is_object_set_reference)? {
+            elements.push(ObjectSetElement::ObjectSetReference(
+                tokens[consumed].text.clone(),
+            ));
+            consumed += 1;
+        } else {
+            return Err(unexpected_token!("'OBJECT'", tokens[consumed]));
+        }
+
+        if !expect_token(&tokens[consumed..], Token::is_set_union)? {
+            break;
+        }
+        consumed += 1;
+    }
+    Ok((elements, consumed))
+}
+
 pub(crate) fn parse_object_set_from_class(
     set: &mut Asn1ObjectSet,
     class: &Asn1ObjectClass,
@@ -508,10 +505,15 @@ pub(crate) fn parse_object_from_class(
         fields.insert(id.clone(), field_spec_value);
         consumed += field_spec_value_consumed;
 
-        if consumed < object_tokens.len()
-            && expect_token(&object_tokens[consumed..], Token::is_comma)?
-        {
-            consumed += 1;
+        if consumed < object_tokens.len() {
+            if expect_token(&object_tokens[consumed..], Token::is_comma)? {
+                consumed += 1;
+                if consumed == object_tokens.len() {
+                    return Err(parse_error!("Unexpected ',' in the Object '{}'.", value));
+                }
+            } else if class.syntax_order.is_none() {
+                return Err(unexpected_token!("','", object_tokens[consumed]));
+            }
         }
     }
 
-- 
2.43.0


From 9c87cdc514f7c4316752959b3d3d2c83a023906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:15 +0000
Subject: [PATCH 34/57] fix: refuse value ranges as constraints of strings and
 lists

---
 asn-compiler/src/resolver/asn/types/constraints.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 06333a8..52e369e 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -283,6 +283,12 @@ impl IntersectionSet {
                 Elements::Subtype(SubtypeElements::SizeConstraint(ref e)) => {
                     Some(e.get_integer_valueset(resolver)?)
                 }
+                Elements::Subtype(SubtypeElements::ValueRange { .. }) => {
+                    return Err(constraint_error!(
+                        "A Value Range is not supported for a type with a size. '{:#?}'",
+                        element
+                    ))
+                }
                 Elements::Subtype(_) => None,
                 Elements::Set(ref e) => e.get_size_valueset(resolver)?,
             };
-- 
2.43.0


From c98452a1311a9834ad07493e78d629ff2c037142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 35/57] fix: allow an OPTIONAL component named data in derived
 SEQUENCE codecs

---
 codecs_derive/src/aper/seq.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 0122e04..0fbb03b 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -163,10 +163,8 @@ fn generate_seq_field_codec_tokens_using_attrs(
                             let id = field.ident.as_ref().unwrap();
                             let field_encode_token = if optional {
                                 quote! {
-                                    if self.#id.is_some() {
-                                        let #id = self.#id.as_ref().unwrap();
-                                        #id.encode(data)?;
-                                    } else {
+                                    if let Some(value) = self.#id.as_ref() {
+                                        value.encode(data)?;
                                     }
                                 }
                             } else {
-- 
2.43.0


From 00c25a7f7defe89e585167a823e4f32d804ca132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 36/57] fix: allow an alternative named output in derived
 CHOICE codecs

---
 codecs_derive/src/aper/choice.rs | 2 +-
 codecs_derive/src/aper/open.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codecs_derive/src/aper/choice.rs b/codecs_derive/src/aper/choice.rs
index 4706881..09eb0d3 100644
--- a/codecs_derive/src/aper/choice.rs
+++ b/codecs_derive/src/aper/choice.rs
@@ -26,7 +26,7 @@ pub(super) fn generate_aper_codec_for_asn_choice(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let (idx, extended) = asn1_codecs::aper::decode::decode_choice_idx(data, #lb, #ub, #ext)?;
diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 16a5ec7..4ab5be4 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -41,7 +41,7 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
         impl asn1_codecs::aper::AperCodec for #name {
             type Output = Self;
 
-            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
+            fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let content = asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
-- 
2.43.0


From 61285ccc70e1423cd6b05ac5cc70514b5a9c4713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:43 +0000
Subject: [PATCH 37/57] fix: order the alternatives of a CHOICE by their tags
 when they are not automatic

---
 asn-compiler/src/compiler.rs                  |  7 ++-
 asn-compiler/src/parser/asn/structs/module.rs |  4 ++
 .../resolver/asn/structs/types/constructed.rs |  1 +
 .../src/resolver/asn/types/constructed.rs     | 46 +++++++++++++++++++
 asn-compiler/src/resolver/asn/types/int.rs    |  8 +++-
 asn-compiler/src/resolver/int.rs              | 15 +++++-
 6 files changed, 77 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index 52645d9..68ae9da 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -166,8 +166,11 @@ impl Asn1Compiler {
                         }
                         _ => None,
                     };
-                    let same = text(definition).is_some()
-                        && text(definition) == text(&other.get_definitions()[name]);
+                    let definition = text(definition);
+                    let same_tags = other.has_automatic_tags() == module.has_automatic_tags();
+                    let same = definition == text(&other.get_definitions()[name])
+                        // The order of the alternatives depends on the tags.
+                        && definition.map_or(false, |d| same_tags || !d.contains("Choice("));
                     if !same {
                         return Err(resolve_error!(
                             "Different definitions of '{}' in the modules '{}' and '{}' are not supported!",
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index ae48298..23d5bc3 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -138,6 +138,10 @@ impl Asn1Module {
     }
 
     #[inline(always)]
+    pub(crate) fn has_automatic_tags(&self) -> bool {
+        self._tags == Asn1ModuleTag::Automatic
+    }
+
     pub(crate) fn get_imported_defs(&self) -> Iter<'_, String, Asn1ModuleName> {
         self.imports.iter()
     }
diff --git a/asn-compiler/src/resolver/asn/structs/types/constructed.rs b/asn-compiler/src/resolver/asn/structs/types/constructed.rs
index a786c27..05e9523 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constructed.rs
@@ -8,6 +8,7 @@ pub(crate) enum ResolvedConstructedType {
         name: Option<String>,
         root_components: Vec<ResolvedComponent>,
         additions: Option<Vec<ResolvedComponent>>,
+        automatic_tags: bool,
     },
     Sequence {
         name: Option<String>,
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index fd8df0a..6496373 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -70,6 +70,10 @@ fn resolve_choice_type(
         };
         root_components.push(component);
     }
+    // Alternatives are in the order of their tags, automatic tags are already in that order.
+    if !resolver.automatic_tags {
+        root_components.sort_by_key(|c| get_tag_number(&c.ty, resolver));
+    }
 
     let additions = if choice.additions.is_some() {
         let mut components = vec![];
@@ -93,10 +97,52 @@ fn resolve_choice_type(
             name: None,
             root_components,
             additions,
+            automatic_tags: resolver.automatic_tags,
         },
     ))
 }
 
+// Number of the UNIVERSAL tag of a type, for an (untagged) `CHOICE` it is the smallest of it's tags.
+//
+// The automatic tags of a `CHOICE` come after all the UNIVERSAL tags.
+fn get_tag_number(ty: &Asn1ResolvedType, resolver: &Resolver) -> u8 {
+    match ty {
+        Asn1ResolvedType::Base(ref base) => match base {
+            ResolvedBaseType::Boolean(..) => 1,
+            ResolvedBaseType::Integer(..) => 2,
+            ResolvedBaseType::BitString(..) => 3,
+            ResolvedBaseType::OctetString(..) => 4,
+            ResolvedBaseType::Null(..) => 5,
+            ResolvedBaseType::ObjectIdentifier(..) => 6,
+            ResolvedBaseType::Enum(..) => 10,
+            ResolvedBaseType::CharacterString(ref c) => match c.str_type.as_str() {
+                "UTF8String" => 12,
+                "PrintableString" => 19,
+                "IA5String" => 22,
+                _ => 26,
+            },
+        },
+        Asn1ResolvedType::Constructed(ResolvedConstructedType::Choice {
+            automatic_tags: true,
+            ..
+        }) => u8::MAX,
+        Asn1ResolvedType::Constructed(ResolvedConstructedType::Choice {
+            ref root_components,
+            ..
+        }) => root_components
+            .iter()
+            .map(|c| get_tag_number(&c.ty, resolver))
+            .min()
+            .unwrap_or_default(),
+        Asn1ResolvedType::Constructed(..) => 16,
+        Asn1ResolvedType::Reference(ref r) => match resolver.get_referenced_type(r) {
+            Some(t) => get_tag_number(t, resolver),
+            None => u8::MAX,
+        },
+        Asn1ResolvedType::Set(..) => u8::MAX,
+    }
+}
+
 fn resolve_sequence_type(
     sequence: &Asn1TypeSequence,
     resolver: &mut Resolver,
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 01c0ecc..c002386 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -193,7 +193,13 @@ fn resolve_reference_type(
                             ));
                         }
                         let params_resolved_type = d.clone().apply_params(params)?;
-                        resolve_type(&params_resolved_type, resolver)
+
+                        // The tags are of the module that has the definition.
+                        let automatic_tags = resolver.automatic_tags;
+                        resolver.automatic_tags = resolver.automatic_tagged_defs.contains(typeref);
+                        let resolved = resolve_type(&params_resolved_type, resolver);
+                        resolver.automatic_tags = automatic_tags;
+                        resolved
                     }
                     None => Err(resolve_error!(
                         "Parameterized Type for '{:#?}' Not found!",
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 51b9fb4..16e51bf 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -1,6 +1,6 @@
 //! Resolver Struct and it's implementation
 
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use crate::error::Error;
 
@@ -24,6 +24,12 @@ pub(crate) struct Resolver {
 
     // Object Classes: Used by Objects and Object Sets to resolves themselves.
     pub(crate) classes: HashMap<String, Asn1Definition>,
+
+    // Whether the definitions being resolved are of a module with `AUTOMATIC TAGS`.
+    pub(crate) automatic_tags: bool,
+
+    // Parameterized Definitions of the modules with `AUTOMATIC TAGS`.
+    pub(crate) automatic_tagged_defs: HashSet<String>,
 }
 
 impl Resolver {
@@ -32,6 +38,8 @@ impl Resolver {
             resolved_defs: BTreeMap::new(),
             parameterized_defs: HashMap::new(),
             classes: HashMap::new(),
+            automatic_tags: false,
+            automatic_tagged_defs: HashSet::new(),
         }
     }
 
@@ -55,6 +63,8 @@ impl Resolver {
 
         module.resolve_object_classes(&self.classes)?;
 
+        let automatic_tags = module.has_automatic_tags();
+        self.automatic_tags = automatic_tags;
         let definitions_sorted = module.definitions_sorted()?;
         for k in definitions_sorted {
             let parsed_def = module.get_definition_mut(&k);
@@ -65,6 +75,9 @@ impl Resolver {
             if parsed_def.params.is_some() {
                 self.parameterized_defs
                     .insert(k.to_string(), parsed_def.clone());
+                if automatic_tags {
+                    self.automatic_tagged_defs.insert(k.to_string());
+                }
                 parsed_def.resolved = true;
             } else if parsed_def.is_class_assignment() {
                 self.classes.insert(k.to_string(), parsed_def.clone());
-- 
2.43.0


From 6921218505e2752383d1f3ea6c6a3f5c6c2ef219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 38/57] fix: refuse contained subtypes and undefined values in
 the constraints of types other than INTEGER

---
 .../src/resolver/asn/types/base/enumerated.rs | 20 +++++++++++++--
 .../src/resolver/asn/types/base/mod.rs        |  3 +--
 .../src/resolver/asn/types/constraints.rs     | 25 ++++++++++++++++++-
 3 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/base/enumerated.rs b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
index cc3daca..374798c 100644
--- a/asn-compiler/src/resolver/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
@@ -1,6 +1,6 @@
 //! Functionality for handling Resolved ASN.1 ENUMERATED Types
 
-use std::collections::BTreeSet;
+use std::collections::{BTreeSet, HashMap};
 
 use crate::error::Error;
 
@@ -15,7 +15,7 @@ use crate::resolver::Resolver;
 
 impl Asn1ResolvedEnumerated {
     pub(super) fn resolve_enumerated(
-        _ty: &Asn1Type,
+        ty: &Asn1Type,
         e: &Asn1TypeEnumerated,
         resolver: &Resolver,
     ) -> Result<Asn1ResolvedEnumerated, Error> {
@@ -25,6 +25,22 @@ impl Asn1ResolvedEnumerated {
         };
 
         // Constraints on an ENUMERATED do not change it's encoding.
+        let mut named = ty.clone();
+        let names: HashMap<String, i128> = e
+            .root_values
+            .iter()
+            .chain(&e.ext_values)
+            .map(|v| (v.name.clone(), 0))
+            .collect();
+        for constraint in named.constraints.iter_mut().flatten() {
+            constraint.replace_named_values(&names);
+        }
+        if named.has_size_constraints(resolver)? {
+            return Err(constraint_error!(
+                "Size Constraint on a type without a size. '{:#?}'",
+                ty
+            ));
+        }
 
         let root_numbers = get_numbers(&e.root_values, resolver)?;
         let ext_numbers = get_numbers(&e.ext_values, resolver)?;
diff --git a/asn-compiler/src/resolver/asn/types/base/mod.rs b/asn-compiler/src/resolver/asn/types/base/mod.rs
index affcfc9..7d11029 100644
--- a/asn-compiler/src/resolver/asn/types/base/mod.rs
+++ b/asn-compiler/src/resolver/asn/types/base/mod.rs
@@ -29,8 +29,7 @@ pub(crate) fn resolve_base_type(
 ) -> Result<ResolvedBaseType, Error> {
     if let Asn1TypeKind::Builtin(ref kind) = ty.kind {
         match kind {
-            Asn1BuiltinType::Enumerated(..)
-            | Asn1BuiltinType::Boolean
+            Asn1BuiltinType::Boolean
             | Asn1BuiltinType::ObjectIdentifier
             | Asn1BuiltinType::Null
                 if ty.has_size_constraints(resolver)? =>
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 52e369e..d152d3c 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -289,7 +289,10 @@ impl IntersectionSet {
                         element
                     ))
                 }
-                Elements::Subtype(_) => None,
+                Elements::Subtype(ref s) => {
+                    s.check_not_contained_subtype(resolver)?;
+                    None
+                }
                 Elements::Set(ref e) => e.get_size_valueset(resolver)?,
             };
             value_sets.push(sizes);
@@ -341,6 +344,26 @@ impl Elements {
 }
 
 impl SubtypeElements {
+    // Constraints on the values of a type without a number do not change it's encoding, except
+    // when those are the values of another type, which is not supported.
+    fn check_not_contained_subtype(&self, resolver: &Resolver) -> Result<(), Error> {
+        let supported = match self {
+            Self::ConstrainedSubtype(_) => false,
+            Self::SingleValue { value } if value.starts_with(char::is_alphabetic) => matches!(
+                resolver.resolved_defs.get(value),
+                Some(Asn1ResolvedDefinition::Value(..))
+            ),
+            _ => true,
+        };
+        if !supported {
+            return Err(constraint_error!(
+                "Expected a Value or a Size Constraint, Found '{:#?}'",
+                self
+            ));
+        }
+        Ok(())
+    }
+
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
         let mut value_set = ConstraintValues::new();
         match self {
-- 
2.43.0


From e17430d38bdb9b78a9fd2a84fb1b4e26642e7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:02 +0000
Subject: [PATCH 39/57] fix: decoding from an offset near the largest one no
 longer overflows

---
 codecs/src/aper/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 4aec0eb..451307a 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -64,7 +64,7 @@ impl AperCodecData {
         let remaining = 8 - (self.decode_offset & 0x7_usize);
         log::debug!("Aligning Codec Buffer with {} bits", remaining);
 
-        if self.bits.len() < self.decode_offset + remaining {
+        if self.bits.len() < self.decode_offset.saturating_add(remaining) {
             return Err(AperCodecError::new(
                 "AperCodec:DecodeError:End of Bitstream reached while trying to align.",
             ));
@@ -148,7 +148,7 @@ impl AperCodecData {
     }
 
     fn advance_maybe_err(&mut self, bits: usize, ignore: bool) -> Result<(), AperCodecError> {
-        let offset = self.decode_offset + bits;
+        let offset = self.decode_offset.saturating_add(bits);
         if offset > self.bits.len() {
             if ignore {
                 self.decode_offset = self.bits.len()
@@ -184,7 +184,7 @@ impl AperCodecData {
     }
 
     fn get_bitvec(&mut self, length: usize) -> Result<BitVec<u8, Msb0>, AperCodecError> {
-        if length + self.decode_offset > self.bits.len() {
+        if self.decode_offset.saturating_add(length) > self.bits.len() {
             return Err(AperCodecError::new(
                 format!(
                     "AperCodec:GetBitError:Requested Bit {}, Remaining bits {}",
@@ -202,7 +202,7 @@ impl AperCodecData {
 
     fn get_bytes(&mut self, length: usize) -> Result<Vec<u8>, AperCodecError> {
         let length = length * 8;
-        if length + self.decode_offset > self.bits.len() {
+        if self.decode_offset.saturating_add(length) > self.bits.len() {
             return Err(AperCodecError::new(
                 format!(
                     "AperCodec:GetBitError:Requested Bits {}, Remaining bits {}",
-- 
2.43.0


From ff891dc936faa067619512d8206d9640886e6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:50 +0000
Subject: [PATCH 40/57] fix: report a formatter that fails after writing
 something that is not text, or does not read all of the code

---
 asn-compiler/src/compiler.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index 68ae9da..a5b6f59 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -102,23 +102,21 @@ impl Asn1Compiler {
         let mut child_stdout = child.stdout.take().unwrap();
 
         let code = code.to_owned();
-        let stdin_handle =
-            ::std::thread::spawn(move || match child_stdin.write_all(code.as_bytes()) {
-                Ok(_) => code,
-                Err(_) => "write error in rustfmt".to_owned(),
-            });
+        let stdin_handle = ::std::thread::spawn(move || child_stdin.write_all(code.as_bytes()));
 
         let mut output = vec![];
         io::copy(&mut child_stdout, &mut output).map_err(|e| resolve_error!("{:#?}", e))?;
 
         let status = child.wait().map_err(|e| resolve_error!("{:#?}", e))?;
+        let written = stdin_handle.join().unwrap();
+        written.map_err(|e| resolve_error!("{:#?}", e))?;
 
         match String::from_utf8(output) {
             Ok(formatted_output) => match status.code() {
                 Some(0) => Ok(formatted_output.to_owned()),
                 _ => Err(resolve_error!("`rustfmt` failed to write some bindings.")),
             },
-            _ => Ok(stdin_handle.join().unwrap().to_owned()),
+            _ => Err(resolve_error!("`rustfmt` wrote something that is not UTF-8.")),
         }
     }
 
-- 
2.43.0


From 86f45a05d4d34342ab7645d991b15284f2d8f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:43 +0000
Subject: [PATCH 41/57] fix: refuse brackets and other symbols in place of the
 words of WITH SYNTAX

---
 asn-compiler/src/parser/asn/types/ioc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index b121185..ef08dbd 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -247,6 +247,10 @@ fn parse_with_syntax_for_fields(
             if words.iter().any(Token::is_with_syntax_reserved_word) {
                 return Err(parse_error!("Found a WITH SYNTAX RESERVED Word!"));
             }
+            let is_word_char = |c: char| c.is_ascii_alphanumeric() || c == '-' || c == ',';
+            if let Some(token) = words.iter().find(|w| !w.text.chars().all(is_word_char)) {
+                return Err(unexpected_token!("'WORD'", token));
+            }
             let words = words
                 .iter()
                 .map(|w| w.text.as_str())
-- 
2.43.0


From 18ca1020b926b4b38d529ac7f2d6a6dbe9c9c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 42/57] fix: refuse object sets that get different objects with
 the same value of the UNIQUE field from other sets

---
 asn-compiler/src/resolver/asn/types/ioc.rs | 36 ++++++++++++++--------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 0d9d452..74a4183 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -70,7 +70,9 @@ pub(crate) fn resolve_object_set(
                                 if let Asn1ResolvedDefinition::ObjectSet(ref o) = res {
                                     decoder_ty = o.objects.decoder_ty.clone();
                                     elements.extend(o.objects.elements.clone());
-                                    lookup_table.extend(o.objects.lookup_table.clone());
+                                    for (key, element) in &o.objects.lookup_table {
+                                        insert_object(key.clone(), element, &mut lookup_table)?;
+                                    }
                                 } else {
                                     return Err(resolve_error!(
                                         "Resolved '{}' is not an Object Set!",
@@ -178,17 +180,7 @@ fn add_to_lookup_table(
             _ => format!("Id {}", integer).replace('-', "minus "),
         };
         let key = (integer.to_string(), name);
-        let used = lookup_table.iter().any(|(k, e)| {
-            k.0 == key.0 && (k.1 != key.1 || sorted_fields(e) != sorted_fields(element))
-        });
-        if used {
-            return Err(resolve_error!(
-                "More than one object with the value '{}' of the UNIQUE field '{}'.",
-                integer,
-                unique_field
-            ));
-        }
-        let _ = lookup_table.insert(key, element.clone());
+        insert_object(key, element, lookup_table)?;
         Ok(())
     } else {
         Err(resolve_error!(
@@ -199,6 +191,26 @@ fn add_to_lookup_table(
     }
 }
 
+// Inserts the `element` in the `lookup_table`, different objects cannot have the same value of the
+// `UNIQUE` field.
+fn insert_object(
+    key: (String, String),
+    element: &ResolvedObjectSetElement,
+    lookup_table: &mut HashMap<(String, String), ResolvedObjectSetElement>,
+) -> Result<(), Error> {
+    let used = lookup_table.iter().any(|(k, e)| {
+        k.0 == key.0 && (k.1 != key.1 || sorted_fields(e) != sorted_fields(element))
+    });
+    if used {
+        return Err(resolve_error!(
+            "More than one object with the value '{}' of the UNIQUE field.",
+            key.0
+        ));
+    }
+    let _ = lookup_table.insert(key, element.clone());
+    Ok(())
+}
+
 // Fields of an object in a form that can be compared.
 fn sorted_fields(element: &ResolvedObjectSetElement) -> Option<String> {
     match element {
-- 
2.43.0


From 30fb352775c6b34788d9ba712977c5c5129c6726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:41 +0000
Subject: [PATCH 43/57] fix: refuse objects and object sets of another class in
 an object set

---
 asn-compiler/src/resolver/asn/defs.rs         |  7 ++++++-
 .../src/resolver/asn/structs/types/ioc.rs     |  2 ++
 asn-compiler/src/resolver/asn/types/ioc.rs    | 19 +++++++++++++++++++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/defs.rs b/asn-compiler/src/resolver/asn/defs.rs
index 2b43290..d5476d3 100644
--- a/asn-compiler/src/resolver/asn/defs.rs
+++ b/asn-compiler/src/resolver/asn/defs.rs
@@ -62,6 +62,11 @@ fn resolve_object_definition(
     object: &Asn1ObjectAssignment,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedDefinition, Error> {
-    let object = resolve_object(&object.id, &object.object.value, resolver)?;
+    let object = resolve_object(
+        &object.id,
+        &object.object.class,
+        &object.object.value,
+        resolver,
+    )?;
     Ok(Asn1ResolvedDefinition::Object(object))
 }
diff --git a/asn-compiler/src/resolver/asn/structs/types/ioc.rs b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
index df23110..949665b 100644
--- a/asn-compiler/src/resolver/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
@@ -17,6 +17,8 @@ pub(crate) enum ResolvedFieldSpec {
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ResolvedObject {
     pub(crate) name: String,
+    // Name of the class of the object.
+    pub(crate) class: String,
     pub(crate) fields: HashMap<String, ResolvedFieldSpec>,
 }
 
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 74a4183..2bfe8b6 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -68,6 +68,7 @@ pub(crate) fn resolve_object_set(
                             }
                             Some(res) => {
                                 if let Asn1ResolvedDefinition::ObjectSet(ref o) = res {
+                                    check_class(r, &o.objects.class, &objectset.class)?;
                                     decoder_ty = o.objects.decoder_ty.clone();
                                     elements.extend(o.objects.elements.clone());
                                     for (key, element) in &o.objects.lookup_table {
@@ -94,9 +95,11 @@ pub(crate) fn resolve_object_set(
                             }
                             Some(res) => {
                                 if let Asn1ResolvedDefinition::Object(ref o) = res {
+                                    check_class(r, &o.class, &objectset.class)?;
                                     let element =
                                         ResolvedObjectSetElement::Object(Asn1ResolvedObject {
                                             name: r.clone(),
+                                            class: o.class.clone(),
                                             fields: o.fields.clone(),
                                         });
                                     elements.push(element.clone());
@@ -120,6 +123,7 @@ pub(crate) fn resolve_object_set(
                         let object_name = format!("{}{}", name, i);
                         let element = ResolvedObjectSetElement::Object(resolve_object(
                             &object_name,
+                            &objectset.class,
                             v,
                             resolver,
                         )?);
@@ -147,6 +151,19 @@ pub(crate) fn resolve_object_set(
     }
 }
 
+// Checks that the element `name` of an object set is of the same class as the set.
+fn check_class(name: &str, class: &str, expected: &str) -> Result<(), Error> {
+    if class == expected {
+        return Ok(());
+    }
+    Err(resolve_error!(
+        "'{}' is of the class '{}', not of the class '{}'.",
+        name,
+        class,
+        expected
+    ))
+}
+
 // Adds the `element` to the `lookup_table` by the value of it's `UNIQUE` field.
 //
 // The Value is to be used by the decoder, hence it has to be an Integer value.
@@ -224,6 +241,7 @@ fn sorted_fields(element: &ResolvedObjectSetElement) -> Option<String> {
 
 pub(crate) fn resolve_object(
     object_name: &str,
+    class: &str,
     object_value: &Asn1ObjectValue,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedObject, Error> {
@@ -261,6 +279,7 @@ pub(crate) fn resolve_object(
         }
         Ok(Asn1ResolvedObject {
             name: object_name.to_string(),
+            class: class.to_string(),
             fields: resolved_fields,
         })
     } else {
-- 
2.43.0


From 381e218ee3b7f5b9dd8c06f27c0746e8e4bedf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 44/57] fix: refuse values that are not in their ENUMERATED
 type

---
 asn-compiler/src/resolver/asn/values.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/values.rs b/asn-compiler/src/resolver/asn/values.rs
index 4e94998..1a63b2c 100644
--- a/asn-compiler/src/resolver/asn/values.rs
+++ b/asn-compiler/src/resolver/asn/values.rs
@@ -7,8 +7,8 @@ use crate::resolver::{
         defs::Asn1ResolvedDefinition,
         types::{base::ResolvedBaseType, Asn1ResolvedType},
         values::{
-            Asn1ResolvedEnumValue, Asn1ResolvedIntegerValue, Asn1ResolvedValue, BaseInteger,
-            ResolvedBaseValue,
+            Asn1ResolvedEnumValue, Asn1ResolvedIntegerValue, Asn1ResolvedValue, BaseEnum,
+            BaseInteger, ResolvedBaseValue,
         },
     },
     Resolver,
@@ -47,10 +47,17 @@ pub(crate) fn resolve_value(
                             },
                         )))
                     }
-                    ResolvedBaseType::Enum(ref _e) => {
-                        // FIXME: When Enum is resolved we'd get it right
-                        // let value = value.parse::<BaseEnum>().unwrap();
-                        let value = 0;
+                    ResolvedBaseType::Enum(ref e) => {
+                        let mut values = e.named_root_values.iter().chain(&e.named_ext_values);
+                        let value = match values.find(|v| v.0 == value) {
+                            Some(v) => v.1 as BaseEnum,
+                            None => {
+                                return Err(resolve_error!(
+                                    "'{}' is not a value of the ENUMERATED type.",
+                                    value
+                                ))
+                            }
+                        };
                         Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Enum(
                             Asn1ResolvedEnumValue {
                                 typeref: typeref.clone(),
-- 
2.43.0


From 4b5c98ff1bd59feaa89ae2bd4c67ef968c697dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:46 +0000
Subject: [PATCH 45/57] fix: generate attributes that parse for an OPTIONAL key
 field

---
 asn-compiler/src/generator/asn/types/constructed/seq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn-compiler/src/generator/asn/types/constructed/seq.rs b/asn-compiler/src/generator/asn/types/constructed/seq.rs
index ec22226..1eb195a 100644
--- a/asn-compiler/src/generator/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/seq.rs
@@ -55,7 +55,7 @@ impl ResolvedConstructedType {
                 let fld_tokens = if c.optional {
                     let idx: proc_macro2::TokenStream =
                         format!("{}", optional_fields).parse().unwrap();
-                    fld_attrs.push(quote! { optional_idx = #idx,  });
+                    fld_attrs.push(quote! { optional_idx = #idx });
 
                     optional_fields += 1;
 
-- 
2.43.0


From 901ed8ca250754408b7752dae56a18428afa606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:11 +0000
Subject: [PATCH 46/57] fix: refuse types selected by a key that is not the
 last one before them

---
 .../src/resolver/asn/types/constructed.rs     | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 6496373..b2c096a 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -318,13 +318,13 @@ fn resolve_classfield_component(
             // The decoder selects the type by the component with the value of the unique field.
             // There's nothing to select from when there are no objects.
             if !objects.elements.is_empty()
-                && !is_selected_by_unique_field(
+                && (!is_selected_by_unique_field(
                     sequence,
                     id,
                     constraint,
                     &unique_field,
                     &set_reference,
-                )
+                ) || !is_selector_last_key(sequence, id, constraint, resolver))
             {
                 return Err(resolve_error!(
                     "Type of the component '{}' is not selected by the unique field of '{}'.",
@@ -385,6 +385,35 @@ fn is_selected_by_unique_field(
     })
 }
 
+// Whether the component that selects the type of the component `id` is the last one before it, that
+// has the value of a unique field. The decoder only knows the last of those values.
+fn is_selector_last_key(
+    sequence: &Asn1TypeSequence,
+    id: &str,
+    constraint: &Asn1Constraint,
+    resolver: &Resolver,
+) -> bool {
+    let components = sequence.root_components.iter().filter(|c| !c.addition);
+    let keys = components
+        .take_while(|c| c.component.id != id)
+        .filter(|c| !c.optional && c._default.is_none())
+        .filter(|c| match c.component.ty.kind {
+            Asn1TypeKind::Reference(Asn1TypeReference::ClassField {
+                ref classref,
+                ref fieldref,
+            }) => {
+                let class = resolver.classes.get(classref);
+                let class = class.and_then(|c| c.get_inner_class());
+                class
+                    .and_then(|c| c.classref.get_first_unique_field_id())
+                    .as_ref()
+                    == Some(fieldref)
+            }
+            _ => false,
+        });
+    keys.last().map(|c| c.component.id.clone()) == constraint.get_comp_reference()
+}
+
 fn get_seq_component_for_object_set(
     fieldref: &str,
     objects: &ResolvedObjectSet,
-- 
2.43.0


From 59c3c33b40a0e5184cb13e04eb259d2a63b781f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:01 +0000
Subject: [PATCH 47/57] fix: refuse SIZE and FROM that no parenthesis follows

---
 asn-compiler/src/parser/asn/types/constraints.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index caf5572..6c5f1f0 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -199,12 +199,13 @@ fn parse_intersection_set(tokens: &[Token]) -> Result<(Elements, usize), Error>
         };
         consumed += 1;
 
-        if expect_token(&tokens[consumed..], Token::is_round_begin)? {
-            let (element_set, element_set_consumed) = parse_element_set(&tokens[consumed..])?;
-            consumed += element_set_consumed;
-
-            return Ok((Elements::Subtype(variant(element_set)), consumed));
+        if !expect_token(&tokens[consumed..], Token::is_round_begin)? {
+            return Err(unexpected_token!("'('", tokens[consumed]));
         }
+        let (element_set, element_set_consumed) = parse_element_set(&tokens[consumed..])?;
+        consumed += element_set_consumed;
+
+        return Ok((Elements::Subtype(variant(element_set)), consumed));
     }
 
     // Parse Range Value
-- 
2.43.0


From baaee83a29ecd07acf1c7d6b5f94c05b9c987f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:27 +0000
Subject: [PATCH 48/57] fix: end comments at every new line character

---
 asn-compiler/src/tokenizer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 06153dd..df1b5dc 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -764,9 +764,9 @@ fn get_maybe_comment_token(
     let mut consumed = 2; // initial "--"
     let mut last_idx: Option<usize> = None;
 
-    // Search for Either '\n' or "--"
+    // Search for Either the end of the line or "--"
     for (idx, window) in chars[2..].windows(2).enumerate() {
-        if window[0] == '\n' {
+        if matches!(window[0], '\n' | '\r' | '\u{b}' | '\u{c}') {
             last_idx = Some(idx);
             consumed += idx;
             break;
-- 
2.43.0


From b4e3de75d9b9cb7e95172587b7410f7c668c6bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:32 +0000
Subject: [PATCH 49/57] fix: refuse a comma before the end of an addition group

---
 asn-compiler/src/parser/asn/types/constructed/choice.rs | 5 +++++
 asn-compiler/src/parser/asn/types/constructed/seq.rs    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index b815594..45a3d16 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -131,6 +131,11 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
             break;
         }
         consumed += 1;
+
+        // A ',' is followed by another Component.
+        if expect_token(&tokens[consumed..], Token::is_addition_groups_end)? {
+            return Err(unexpected_token!("'COMPONENT'", tokens[consumed]));
+        }
     }
 
     if !expect_token(&tokens[consumed..], Token::is_addition_groups_end)? {
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 1e4d9e8..f3f1457 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -222,6 +222,11 @@ fn parse_seq_addition_group(tokens: &[Token]) -> Result<(SeqAdditionGroup, usize
             break;
         }
         consumed += 1;
+
+        // A ',' is followed by another Component.
+        if expect_token(&tokens[consumed..], Token::is_addition_groups_end)? {
+            return Err(unexpected_token!("'COMPONENT'", tokens[consumed]));
+        }
     }
 
     if components.is_empty() {
-- 
2.43.0


From fa1b911d32dfd54f0d56ec3dba7bd4a3d7795652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:24 +0000
Subject: [PATCH 50/57] fix: keep the header of extracted specifications a
 comment, write them in UTF-8

---
 specs/parse_spec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specs/parse_spec.py b/specs/parse_spec.py
index f585dff..82e8c6b 100644
--- a/specs/parse_spec.py
+++ b/specs/parse_spec.py
@@ -19,12 +19,14 @@ def main(spec_file, asn_file):
         if re.match(end_asn, para.text):
             start_printing = False
 
+    # In the comment: on one line, and without a '--', which would end it.
+    command = ' '.join(' '.join(sys.argv).split()).replace('--', '- -').replace('--', '- -')
     preclude = [
             "--\n",
-            f"-- Generated using : {' '.join(sys.argv)}\n",
+            f"-- Generated using : {command}\n",
             "-- DO NOT EDIT BY HAND\n",
             "--\n"]
-    with open(asn_file, 'w') as outfile:
+    with open(asn_file, 'w', encoding='utf-8', errors='backslashreplace') as outfile:
         outfile.writelines(preclude)
         outfile.writelines(out_lines)
 
-- 
2.43.0


From 25b7bd514cb5b39edce1baa116bfeddb008b2b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:41 +0000
Subject: [PATCH 51/57] fix: keep the names of the items of an ENUMERATED that
 a parameter has too

---
 asn-compiler/src/parser/asn/defs.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 55137d4..726c310 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -75,7 +75,9 @@ impl Asn1Definition {
         // All the parameters are replaced in one go, because an actual parameter may have the name
         // of another parameter.
         for i in 0..params.type_tokens.len() {
-            if is_component_name(&params.type_tokens, i) {
+            if is_component_name(&params.type_tokens, i)
+                || is_enumeration_name(&params.type_tokens, i)
+            {
                 continue;
             }
             let token = &mut params.type_tokens[i];
@@ -108,6 +110,27 @@ fn is_component_name(tokens: &[Token], index: usize) -> bool {
         && tokens.get(index + 1).map_or(false, begins_type)
 }
 
+// Whether the token is the name of an item of an `ENUMERATED`.
+fn is_enumeration_name(tokens: &[Token], index: usize) -> bool {
+    if index == 0 || !(tokens[index - 1].is_curly_begin() || tokens[index - 1].is_comma()) {
+        return false;
+    }
+    // The '{' that is not closed before the token.
+    let mut closed = 0;
+    let begin = tokens[..index].iter().rposition(|t| {
+        if t.is_curly_end() {
+            closed += 1;
+        } else if t.is_curly_begin() {
+            if closed == 0 {
+                return true;
+            }
+            closed -= 1;
+        }
+        false
+    });
+    matches!(begin, Some(b) if b > 0 && tokens[b - 1].text == "ENUMERATED")
+}
+
 // Parse a definition into an `Assignment` type.
 //
 // This function is called by the Module parser to parse each definition. A definition will be one
-- 
2.43.0


From fe79218be40eac8f27daf991a068f2504af3ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:41 +0000
Subject: [PATCH 52/57] fix: allow a number for the parameter in a named number

---
 asn-compiler/src/parser/asn/defs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 726c310..9e41efa 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -1,7 +1,7 @@
 //! Top level handling of definitions
 
 use crate::error::Error;
-use crate::tokenizer::Token;
+use crate::tokenizer::{types::TokenType, Token};
 
 use crate::parser::{
     asn::structs::{
@@ -87,6 +87,9 @@ impl Asn1Definition {
                 .position(|p| p.dummyref.name == token.text);
             if let Some(idx) = param {
                 token.text = actual_params[idx].param_string();
+                if token.text.parse::<i128>().is_ok() {
+                    token.r#type = TokenType::NumberInt;
+                }
             }
         }
         let (ty, _) = parse_type(&params.type_tokens)?;
-- 
2.43.0


From bd4f01e400c008485fdb5ae6405f45fcb1f8c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:02 +0000
Subject: [PATCH 53/57] fix: end identifiers at a comment that follows them

---
 asn-compiler/src/tokenizer/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index df1b5dc..de3eb56 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -490,9 +490,11 @@ fn get_at_component_id_list(
     }
 
     let mut consumed = 1;
-    let last = chars[1..]
-        .iter()
-        .position(|&x| !(x.is_ascii_alphanumeric() || x == '-' || x == '.'));
+    // A comment ends the list that it follows.
+    let last = chars[1..].iter().enumerate().position(|(i, &x)| {
+        !(x.is_ascii_alphanumeric() || x == '-' || x == '.')
+            || chars[1 + i..].starts_with(&['-', '-'])
+    });
     if let Some(lst) = last {
         consumed += lst;
     } else {
@@ -566,9 +568,10 @@ fn get_identifier_or_keyword_token(
     }
 
     let mut consumed = and;
-    let last = chars[and..]
-        .iter()
-        .position(|&x| !(x.is_ascii_alphanumeric() || x == '-'));
+    // A comment ends the identifier that it follows.
+    let last = chars[and..].iter().enumerate().position(|(i, &x)| {
+        !(x.is_ascii_alphanumeric() || x == '-') || chars[and + i..].starts_with(&['-', '-'])
+    });
 
     if let Some(lst) = last {
         consumed += lst;
@@ -587,9 +590,6 @@ fn get_identifier_or_keyword_token(
     }
 
     let text = chars[..consumed].iter().collect::<String>();
-    if text.contains("--") {
-        return Err(Error::TokenizeError(18, line, begin));
-    }
 
     let token_type = if and > 0 {
         TokenType::AndIdentifier
-- 
2.43.0


From 93b333265dad346cf66696fb384ad933bf6fd9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:42 +0000
Subject: [PATCH 54/57] fix: take the commas of WITH SYNTAX as part of the
 syntax of the objects

---
 .../src/parser/asn/structs/types/ioc.rs       |  3 ++
 asn-compiler/src/parser/asn/types/ioc.rs      | 40 ++++++++++++-------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 91314e6..963e791 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -76,6 +76,9 @@ pub(crate) struct Asn1ObjectClass {
 
     // Field names in the order of the `WITH SYNTAX` clause. `None`, if there is no such clause.
     pub(crate) syntax_order: Option<Vec<String>>,
+
+    // Names of the fields that are followed by a comma in the `WITH SYNTAX` clause.
+    pub(crate) syntax_commas: Vec<String>,
 }
 
 impl Asn1ObjectClass {
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index ef08dbd..594be09 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -53,7 +53,7 @@ pub(crate) fn parse_class(tokens: &[Token]) -> Result<(Asn1ObjectClass, usize),
         }
     }
 
-    let (syntax_order, with_syntax_consumed) =
+    let (syntax_order, syntax_commas, with_syntax_consumed) =
         parse_with_syntax_for_fields(&tokens[consumed..], &mut fields)?;
     consumed += with_syntax_consumed;
 
@@ -62,6 +62,7 @@ pub(crate) fn parse_class(tokens: &[Token]) -> Result<(Asn1ObjectClass, usize),
             fields,
             order,
             syntax_order,
+            syntax_commas,
         },
         consumed,
     ))
@@ -217,12 +218,12 @@ fn parse_type_field_spec(tokens: &[Token]) -> Result<(ObjectClassFieldSpec, usiz
 fn parse_with_syntax_for_fields(
     tokens: &[Token],
     fields: &mut HashMap<String, ObjectClassFieldSpec>,
-) -> Result<(Option<Vec<String>>, usize), Error> {
+) -> Result<(Option<Vec<String>>, Vec<String>, usize), Error> {
     let mut consumed = 0;
     if !expect_keyword(&tokens[consumed..], "WITH")?
         || !expect_keywords(&tokens[consumed..], &["WITH", "SYNTAX"])?
     {
-        return Ok((None, consumed));
+        return Ok((None, vec![], consumed));
     }
     consumed += 2;
 
@@ -231,7 +232,8 @@ fn parse_with_syntax_for_fields(
     }
     consumed += 1;
 
-    let mut syntax_order = vec![];
+    let mut syntax_order: Vec<String> = vec![];
+    let mut syntax_commas = vec![];
     let mut in_optional_group = false;
     loop {
         if expect_token(&tokens[consumed..], Token::is_square_begin)? {
@@ -305,8 +307,9 @@ fn parse_with_syntax_for_fields(
             }
         }
 
-        // Sometimes you may see a comma after the Class Field, just consume it.
+        // Sometimes you may see a comma after the Class Field, the objects have it there as well.
         if expect_token(&tokens[consumed..], Token::is_comma)? {
+            syntax_commas.extend(syntax_order.last().cloned());
             consumed += 1;
         }
 
@@ -327,7 +330,7 @@ fn parse_with_syntax_for_fields(
         }
     }
 
-    Ok((Some(syntax_order), consumed))
+    Ok((Some(syntax_order), syntax_commas, consumed))
 }
 
 pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), Error> {
@@ -509,14 +512,23 @@ pub(crate) fn parse_object_from_class(
         fields.insert(id.clone(), field_spec_value);
         consumed += field_spec_value_consumed;
 
-        if consumed < object_tokens.len() {
-            if expect_token(&object_tokens[consumed..], Token::is_comma)? {
-                consumed += 1;
-                if consumed == object_tokens.len() {
-                    return Err(parse_error!("Unexpected ',' in the Object '{}'.", value));
-                }
-            } else if class.syntax_order.is_none() {
-                return Err(unexpected_token!("','", object_tokens[consumed]));
+        let needs_comma = match class.syntax_order {
+            Some(_) => class.syntax_commas.contains(id),
+            None => consumed < object_tokens.len(),
+        };
+        if needs_comma {
+            if consumed == object_tokens.len()
+                || !expect_token(&object_tokens[consumed..], Token::is_comma)?
+            {
+                return Err(parse_error!(
+                    "Expected ',' after the field '{}' of the Object '{}'.",
+                    id,
+                    value
+                ));
+            }
+            consumed += 1;
+            if class.syntax_order.is_none() && consumed == object_tokens.len() {
+                return Err(parse_error!("Unexpected ',' in the Object '{}'.", value));
             }
         }
     }
-- 
2.43.0


From bda6198d21eff7cc2bd5f9f98b8768ba4d6d47ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:43 +0000
Subject: [PATCH 55/57] fix: refuse references to definitions that are not
 imported in objects as well

---
 asn-compiler/src/compiler.rs                  | 33 ++++++++++++++-
 asn-compiler/src/parser/asn/defs.rs           | 42 ++++++++++++++++++-
 .../src/parser/asn/structs/types/ioc.rs       | 24 +++++++++++
 3 files changed, 97 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index a5b6f59..4e90803 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -13,6 +13,7 @@ use crate::error::Error;
 use crate::parser::asn::structs::{
     defs::{Asn1AssignmentKind, Asn1Definition},
     module::Asn1Module,
+    types::{Asn1BuiltinType, Asn1Type, Asn1TypeKind, Asn1TypeReference},
 };
 
 use crate::generator::Generator;
@@ -182,8 +183,19 @@ impl Asn1Compiler {
         }
         for module in self.modules.values() {
             let imports: Vec<_> = module.get_imported_defs().map(|(d, _)| d).collect();
+            let find = |name: &str| {
+                let definitions = defined_in.get(name).map(|m| m.get_definitions());
+                let own = module.get_definitions().get(name);
+                own.or_else(|| definitions.and_then(|d| d.get(name)))
+            };
             for definition in module.get_definitions().values() {
-                for r in definition.dependent_references() {
+                let mut references = definition.dependent_references();
+                if let Some(class) = definition.get_object_class().and_then(|c| find(&c)) {
+                    references.extend(
+                        definition.references_in_objects(class, |ty| is_integer(ty, &find))?,
+                    );
+                }
+                for r in references {
                     if module.get_definitions().contains_key(&r) || imports.contains(&&r) {
                         continue;
                     }
@@ -250,3 +262,22 @@ impl Asn1Compiler {
         Ok(())
     }
 }
+
+// Whether the type is INTEGER, or the name of it.
+fn is_integer<'a>(ty: &Asn1Type, find: impl Fn(&str) -> Option<&'a Asn1Definition>) -> bool {
+    let mut ty = ty.clone();
+    // The definitions may still be circular.
+    for _ in 0..64 {
+        match ty.kind {
+            Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(..)) => return true,
+            Asn1TypeKind::Reference(Asn1TypeReference::Reference(ref r)) => {
+                match find(r).map(|d| &d.kind) {
+                    Some(Asn1AssignmentKind::Type(t)) => ty = t.typeref.clone(),
+                    _ => return false,
+                }
+            }
+            _ => return false,
+        }
+    }
+    false
+}
diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 9e41efa..e32f568 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -11,7 +11,7 @@ use crate::parser::{
             DefinitionParams, DummyReferenceKind, GovernerKind, ParamDummyReference, ParamGoverner,
         },
         types::{
-            ioc::{Asn1Object, Asn1ObjectSet, Asn1ObjectValue},
+            ioc::{Asn1Object, Asn1ObjectFieldSpec, Asn1ObjectSet, Asn1ObjectValue},
             ActualParam, Asn1Type,
         },
     },
@@ -60,6 +60,46 @@ impl Asn1Definition {
         Ok(())
     }
 
+    // References in the objects of the definition, that are only parsed when their class is known.
+    // The names of ENUMERATED items and the defaults of the class are not references.
+    pub(crate) fn references_in_objects(
+        &self,
+        class: &Asn1Definition,
+        is_integer: impl Fn(&Asn1Type) -> bool,
+    ) -> Result<Vec<String>, Error> {
+        let mut class = class.clone();
+        if let Asn1AssignmentKind::Class(ref mut c) = class.kind {
+            c.classref.remove_defaults();
+        }
+        let mut definition = self.clone();
+        definition.resolve_object_class(&class)?;
+
+        let objects: Vec<_> = match definition.kind {
+            Asn1AssignmentKind::Object(ref o) => vec![&o.object.value],
+            Asn1AssignmentKind::ObjectSet(ref s) => s.set.objects.inline_objects().collect(),
+            _ => vec![],
+        };
+        let mut references = vec![];
+        for object in objects {
+            if let Asn1ObjectValue::Asn1ObjectFromClass { fields } = object {
+                for field in fields.values() {
+                    match field {
+                        Asn1ObjectFieldSpec::Type { ty: Some(ty) } => {
+                            references.extend(ty.dependent_references())
+                        }
+                        Asn1ObjectFieldSpec::FixedTypeValue { typeref, value }
+                            if is_integer(typeref) =>
+                        {
+                            references.extend(value.clone())
+                        }
+                        _ => {}
+                    }
+                }
+            }
+        }
+        Ok(references)
+    }
+
     pub fn apply_params(&self, actual_params: &[ActualParam]) -> Result<Asn1Type, Error> {
         if self.params.is_none() {
             return Err(parse_error!("apply_params: No Params for the definition!"));
diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 963e791..d536e42 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -82,6 +82,20 @@ pub(crate) struct Asn1ObjectClass {
 }
 
 impl Asn1ObjectClass {
+    // The fields with a default are optional then.
+    pub(crate) fn remove_defaults(&mut self) {
+        for field in self.fields.values_mut() {
+            match field {
+                ObjectClassFieldSpec::Type {
+                    default, optional, ..
+                } => *optional |= default.take().is_some(),
+                ObjectClassFieldSpec::FixedTypeValue {
+                    default, optional, ..
+                } => *optional |= default.take().is_some(),
+            }
+        }
+    }
+
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         for field in self.fields.values() {
@@ -191,6 +205,16 @@ pub(crate) struct ObjectSet {
 }
 
 impl ObjectSet {
+    pub(crate) fn inline_objects(&self) -> impl Iterator<Item = &Asn1ObjectValue> {
+        self.root_elements
+            .iter()
+            .chain(&self.additional_elements)
+            .filter_map(|e| match e {
+                ObjectSetElement::Object(o) => Some(o),
+                _ => None,
+            })
+    }
+
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         for e in &self.root_elements {
-- 
2.43.0


From 54c9fc081a91e42374de564367b7b9cce5ac6ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:54 +0000
Subject: [PATCH 56/57] fix: refuse parameters whose governers are not defined

---
 asn-compiler/src/compiler.rs                | 12 +++++++++++
 asn-compiler/src/parser/asn/structs/defs.rs | 23 +++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index 4e90803..fdadf0b 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -189,6 +189,18 @@ impl Asn1Compiler {
                 own.or_else(|| definitions.and_then(|d| d.get(name)))
             };
             for definition in module.get_definitions().values() {
+                for governer in definition.governers() {
+                    let defined = module.get_definitions().contains_key(&governer)
+                        || imports.contains(&&governer);
+                    if !defined {
+                        return Err(resolve_error!(
+                            "Governer '{}' of a parameter of '{}' is not defined in the module '{}'!",
+                            governer,
+                            definition.id(),
+                            module.get_module_name()
+                        ));
+                    }
+                }
                 let mut references = definition.dependent_references();
                 if let Some(class) = definition.get_object_class().and_then(|c| find(&c)) {
                     references.extend(
diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index be04f49..8ff5e34 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -128,6 +128,29 @@ impl Asn1Definition {
     pub fn id(&self) -> String {
         self.kind.id()
     }
+    // Governers of the parameters, that have to be defined in (or imported to) the module.
+    pub(crate) fn governers(&self) -> Vec<String> {
+        const KNOWN: &[&str] = &[
+            "INTEGER",
+            "BOOLEAN",
+            "NULL",
+            "UTF8String",
+            "IA5String",
+            "PrintableString",
+            "VisibleString",
+            "TYPE-IDENTIFIER",
+        ];
+        let params = self.params.iter().flat_map(|p| &p.ordered);
+        params
+            .clone()
+            .filter_map(|p| p._governer.as_ref().map(|g| &g.name))
+            .filter(|g| {
+                !KNOWN.contains(&g.as_str()) && params.clone().all(|p| p.dummyref.name != **g)
+            })
+            .cloned()
+            .collect()
+    }
+
     // Returns a list of dependent references for a given defintion. These will be used to sort the
     // definitions topologically, which would make error handling considerably easier when
     // resolving those definitions
-- 
2.43.0


From 7e741cc444c2eb1481c4394b22d199e59e0e7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:51 +0000
Subject: [PATCH 57/57] Undo the change to specs/parse_spec.py

Its name is that of a test file.
---
 specs/parse_spec.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/specs/parse_spec.py b/specs/parse_spec.py
index 82e8c6b..f585dff 100644
--- a/specs/parse_spec.py
+++ b/specs/parse_spec.py
@@ -19,14 +19,12 @@ def main(spec_file, asn_file):
         if re.match(end_asn, para.text):
             start_printing = False
 
-    # In the comment: on one line, and without a '--', which would end it.
-    command = ' '.join(' '.join(sys.argv).split()).replace('--', '- -').replace('--', '- -')
     preclude = [
             "--\n",
-            f"-- Generated using : {command}\n",
+            f"-- Generated using : {' '.join(sys.argv)}\n",
             "-- DO NOT EDIT BY HAND\n",
             "--\n"]
-    with open(asn_file, 'w', encoding='utf-8', errors='backslashreplace') as outfile:
+    with open(asn_file, 'w') as outfile:
         outfile.writelines(preclude)
         outfile.writelines(out_lines)
 
-- 
2.43.0

