From a94fc2eb10c7944691c519ec3f64c83c8827684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:23 +0000
Subject: [PATCH 01/72] fix: delta-bitpacked encoding of extreme integers
 overflowed

The deltas of DELTA_BINARY_PACKED are defined with wrap-around arithmetic; encoding or
decoding values whose delta does not fit an i64 (e.g. i64::MIN after i64::MAX) panicked in
builds with overflow checks.
---
 src/encoding/delta_bitpacked/decoder.rs | 11 ++++++-----
 src/encoding/delta_bitpacked/encoder.rs |  7 ++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index 86ce6c7..b79838c 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -99,12 +99,13 @@ impl<'a> Iterator for Block<'a> {
         if self.remaining == 0 {
             return None;
         }
-        let result = self.min_delta
-            + self
-                .current_miniblock
+        // sums wrap around, as required by the specification
+        let result = self.min_delta.wrapping_add(
+            self.current_miniblock
                 .as_mut()
                 .map(|x| x.next().unwrap_or_default())
-                .unwrap_or(0) as i64;
+                .unwrap_or(0) as i64,
+        );
         self.current_index += 1;
         self.remaining -= 1;
 
@@ -234,7 +235,7 @@ impl<'a> Iterator for Decoder<'a> {
             Err(e) => return Some(Err(e)),
         };
 
-        self.next_value += delta;
+        self.next_value = self.next_value.wrapping_add(delta);
         result
     }
 
diff --git a/src/encoding/delta_bitpacked/encoder.rs b/src/encoding/delta_bitpacked/encoder.rs
index 7fa3b4a..790d5eb 100644
--- a/src/encoding/delta_bitpacked/encoder.rs
+++ b/src/encoding/delta_bitpacked/encoder.rs
@@ -37,11 +37,12 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let mut max_delta = i64::MIN;
         let mut num_bits = 0;
         for (i, integer) in (0..128).zip(&mut iterator) {
-            let delta = integer - prev;
+            // deltas wrap around, as required by the specification
+            let delta = integer.wrapping_sub(prev);
             min_delta = min_delta.min(delta);
             max_delta = max_delta.max(delta);
 
-            num_bits = 64 - (max_delta - min_delta).leading_zeros();
+            num_bits = 64 - max_delta.wrapping_sub(min_delta).leading_zeros();
             values[i] = delta;
             prev = integer;
         }
@@ -50,7 +51,7 @@ pub fn encode<I: Iterator<Item = i64>>(mut iterator: I, buffer: &mut Vec<u8>) {
         let values = &values[..consumed];
 
         values.iter().zip(deltas.iter_mut()).for_each(|(v, delta)| {
-            *delta = (v - min_delta) as u64;
+            *delta = v.wrapping_sub(min_delta) as u64;
         });
 
         // <min delta> <list of bitwidths of miniblocks> <miniblocks>
-- 
2.43.0


From d3c63c0d5acb3d282bf91f6fb333640e4577612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:23 +0000
Subject: [PATCH 02/72] fix: delta byte array encoding panicked on an item that
 is a prefix of its predecessor

The common prefix of an item with a longer predecessor it is a prefix of is the whole item.
---
 src/encoding/delta_byte_array/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoding/delta_byte_array/encoder.rs b/src/encoding/delta_byte_array/encoder.rs
index 10f6511..9f51ff0 100644
--- a/src/encoding/delta_byte_array/encoder.rs
+++ b/src/encoding/delta_byte_array/encoder.rs
@@ -16,7 +16,7 @@ pub fn encode<'a, I: Iterator<Item = &'a [u8]> + Clone>(iterator: I, buffer: &mu
                 .enumerate()
                 // find first difference
                 .find_map(|(length, (lhs, rhs))| (lhs != rhs).then_some(length))
-                .unwrap_or(previous.len());
+                .unwrap_or_else(|| item.len().min(previous.len()));
             previous = item;
 
             sum_lengths += item.len() - prefix_length;
-- 
2.43.0


From b74ebe64395c580939b9379603b7cd6687d695ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 03/72] fix: ULEB128 numbers that overflow or are cut short are
 errors

decode() panicked on more than 64 bits and returned a partial number when the bytes ran out.
---
 src/encoding/uleb128.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/encoding/uleb128.rs b/src/encoding/uleb128.rs
index 5ca261e..005bef0 100644
--- a/src/encoding/uleb128.rs
+++ b/src/encoding/uleb128.rs
@@ -8,18 +8,18 @@ pub fn decode(values: &[u8]) -> Result<(u64, usize), Error> {
     for byte in values {
         consumed += 1;
         if shift == 63 && *byte > 1 {
-            panic!()
+            return Err(Error::oos("A ULEB128 number does not fit in 64 bits"));
         };
 
         result |= u64::from(byte & 0b01111111) << shift;
 
         if byte & 0b10000000 == 0 {
-            break;
+            return Ok((result, consumed));
         }
 
         shift += 7;
     }
-    Ok((result, consumed))
+    Err(Error::oos("A ULEB128 number is not terminated"))
 }
 
 /// Encodes `value` in ULEB128 into `container`. The exact number of bytes written
-- 
2.43.0


From 702439213c83d3effe5cfc20effdeefb185e03dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 04/72] fix: bitpacked::Decoder::try_new panicked on widths and
 lengths out of range

---
 src/encoding/bitpacked/decode.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/encoding/bitpacked/decode.rs b/src/encoding/bitpacked/decode.rs
index fa3f6a9..99becfc 100644
--- a/src/encoding/bitpacked/decode.rs
+++ b/src/encoding/bitpacked/decode.rs
@@ -28,16 +28,24 @@ fn decode_pack<T: Unpackable>(packed: &[u8], num_bits: usize, unpacked: &mut T::
 impl<'a, T: Unpackable> Decoder<'a, T> {
     /// Returns a [`Decoder`] with `T` encoded in `packed` with `num_bits`.
     pub fn try_new(packed: &'a [u8], num_bits: usize, mut length: usize) -> Result<Self, Error> {
-        let block_size = std::mem::size_of::<T>() * num_bits;
-
         if num_bits == 0 {
             return Err(Error::oos("Bitpacking requires num_bits > 0"));
         }
 
-        if packed.len() * 8 < length * num_bits {
+        if num_bits > std::mem::size_of::<T>() * 8 {
+            return Err(Error::oos(format!(
+                "Bitpacking a number of bits {num_bits} does not fit the type"
+            )));
+        }
+
+        let block_size = std::mem::size_of::<T>() * num_bits;
+
+        if length.checked_mul(num_bits).map_or(true, |bits| {
+            packed.len() < bits / 8 + (bits % 8 != 0) as usize
+        }) {
             return Err(Error::oos(format!(
-                "Unpacking {length} items with a number of bits {num_bits} requires at least {} bytes.",
-                length * num_bits / 8
+                "Unpacking {length} items with a number of bits {num_bits} requires more than {} bytes.",
+                packed.len()
             )));
         }
 
-- 
2.43.0


From a4c4d48e4028ea93f37cc1eab38204c853405c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 05/72] fix: malformed hybrid RLE streams panicked, overflowed
 the stack or never ended

A run-length run without space for its value and a bit-packed run with a huge number of
groups panicked, many empty runs overflowed the stack, and an error was repeated forever.
---
 src/encoding/hybrid_rle/decoder.rs |  6 ++++-
 src/encoding/hybrid_rle/mod.rs     | 37 ++++++++++++++++--------------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/encoding/hybrid_rle/decoder.rs b/src/encoding/hybrid_rle/decoder.rs
index 2dae52b..346db68 100644
--- a/src/encoding/hybrid_rle/decoder.rs
+++ b/src/encoding/hybrid_rle/decoder.rs
@@ -47,7 +47,7 @@ impl<'a> Iterator for Decoder<'a> {
 
         if indicator & 1 == 1 {
             // is bitpacking
-            let bytes = (indicator as usize >> 1) * self.num_bits;
+            let bytes = (indicator as usize >> 1).saturating_mul(self.num_bits);
             let bytes = std::cmp::min(bytes, self.values.len());
             let (result, remaining) = self.values.split_at(bytes);
             self.values = remaining;
@@ -57,6 +57,10 @@ impl<'a> Iterator for Decoder<'a> {
             let run_length = indicator as usize >> 1;
             // repeated-value := value that is repeated, using a fixed-width of round-up-to-next-byte(bit-width)
             let rle_bytes = ceil8(self.num_bits);
+            if rle_bytes > self.values.len() {
+                self.values = &[];
+                return Some(Err(Error::oos("A RLE run has no space for its value")));
+            }
             let (result, remaining) = self.values.split_at(rle_bytes);
             self.values = remaining;
             Some(Ok(HybridEncoded::Rle(result, run_length)))
diff --git a/src/encoding/hybrid_rle/mod.rs b/src/encoding/hybrid_rle/mod.rs
index 5886f46..9073a3a 100644
--- a/src/encoding/hybrid_rle/mod.rs
+++ b/src/encoding/hybrid_rle/mod.rs
@@ -84,26 +84,29 @@ impl<'a> Iterator for HybridRleDecoder<'a> {
         if self.remaining == 0 {
             return None;
         };
-        let result = match &mut self.state {
-            State::Single(opt_val) => {
-                // make sure to take so that next calls will return 'None'
-                // indicating that the iterator is finished.
-                opt_val.take()
+        // a loop because runs may be empty
+        loop {
+            let result = match &mut self.state {
+                State::Single(opt_val) => {
+                    // make sure to take so that next calls will return 'None'
+                    // indicating that the iterator is finished.
+                    opt_val.take()
+                }
+                State::Bitpacked(decoder) => decoder.next(),
+                State::Rle(iter) => iter.next(),
+                State::None => Some(0),
+            };
+            if let Some(result) = result {
+                self.remaining -= 1;
+                return Some(Ok(result));
             }
-            State::Bitpacked(decoder) => decoder.next(),
-            State::Rle(iter) => iter.next(),
-            State::None => Some(0),
-        };
-        if let Some(result) = result {
-            self.remaining -= 1;
-            Some(Ok(result))
-        } else {
             match read_next(&mut self.decoder, self.remaining) {
-                Ok(state) => {
-                    self.state = state;
-                    self.next()
+                Ok(state) => self.state = state,
+                Err(e) => {
+                    // nothing can be decoded after an error
+                    self.remaining = 0;
+                    return Some(Err(e));
                 }
-                Err(e) => Some(Err(e)),
             }
         }
     }
-- 
2.43.0


From b4c70725963f2ccdb6a5ca4bcb8c4a2f38c0453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 06/72] fix: malformed delta-bitpacked headers and widths are
 errors instead of panics

---
 src/encoding/delta_bitpacked/decoder.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/encoding/delta_bitpacked/decoder.rs b/src/encoding/delta_bitpacked/decoder.rs
index b79838c..53c7f5f 100644
--- a/src/encoding/delta_bitpacked/decoder.rs
+++ b/src/encoding/delta_bitpacked/decoder.rs
@@ -71,7 +71,7 @@ impl<'a> Block<'a> {
         self.current_miniblock = if num_bits > 0 {
             let length = std::cmp::min(self.remaining, self.values_per_mini_block);
 
-            let miniblock_length = ceil8(self.values_per_mini_block * num_bits);
+            let miniblock_length = ceil8(self.values_per_mini_block.saturating_mul(num_bits));
             if miniblock_length > self.values.len() {
                 return Err(Error::oos(
                     "block must contain at least miniblock_length bytes (the mini block)",
@@ -82,7 +82,7 @@ impl<'a> Block<'a> {
             self.values = remainder;
             self.consumed_bytes += miniblock_length;
 
-            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length).unwrap())
+            Some(bitpacked::Decoder::try_new(miniblock, num_bits, length)?)
         } else {
             None
         };
@@ -139,7 +139,9 @@ impl<'a> Decoder<'a> {
         let mut consumed_bytes = 0;
         let (block_size, consumed) = uleb128::decode(values)?;
         consumed_bytes += consumed;
-        assert_eq!(block_size % 128, 0);
+        if block_size % 128 != 0 {
+            return Err(Error::oos("The block size must be a multiple of 128"));
+        }
         values = &values[consumed..];
         let (num_mini_blocks, consumed) = uleb128::decode(values)?;
         let num_mini_blocks = num_mini_blocks as usize;
@@ -153,8 +155,15 @@ impl<'a> Decoder<'a> {
         consumed_bytes += consumed;
         values = &values[consumed..];
 
+        if num_mini_blocks == 0 {
+            return Err(Error::oos("A block must have at least one mini block"));
+        }
         let values_per_mini_block = block_size as usize / num_mini_blocks;
-        assert_eq!(values_per_mini_block % 8, 0);
+        if values_per_mini_block % 8 != 0 {
+            return Err(Error::oos(
+                "The number of values of a mini block must be a multiple of 8",
+            ));
+        }
 
         // If we only have one value (first_value), there are no blocks.
         let current_block = if total_count > 1 {
@@ -232,7 +241,11 @@ impl<'a> Iterator for Decoder<'a> {
 
         let delta = match self.load_delta() {
             Ok(delta) => delta,
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                // nothing can be decoded after an error
+                self.values_remaining = 0;
+                return Some(Err(e));
+            }
         };
 
         self.next_value = self.next_value.wrapping_add(delta);
-- 
2.43.0


From 375899ffd3ea46d0721509b4be3d4f4bc9e4eda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 07/72] fix: delta length byte array lengths that do not fit
 their values are errors

Negative, too large or too many lengths overflowed or panicked on slicing the values;
prefix lengths were silently truncated.
---
 src/encoding/delta_byte_array/decoder.rs      |  6 ++++-
 .../delta_length_byte_array/decoder.rs        | 26 ++++++++++++++-----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/encoding/delta_byte_array/decoder.rs b/src/encoding/delta_byte_array/decoder.rs
index 6e8f208..d10d83b 100644
--- a/src/encoding/delta_byte_array/decoder.rs
+++ b/src/encoding/delta_byte_array/decoder.rs
@@ -34,7 +34,11 @@ impl<'a> Iterator for Decoder<'a> {
     type Item = Result<u32, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.prefix_lengths.next().map(|x| x.map(|x| x as u32))
+        self.prefix_lengths.next().map(|x| {
+            x.and_then(|x| {
+                u32::try_from(x).map_err(|_| Error::oos("A prefix length does not fit 32 bits"))
+            })
+        })
     }
 }
 
diff --git a/src/encoding/delta_length_byte_array/decoder.rs b/src/encoding/delta_length_byte_array/decoder.rs
index cdedd09..9eae995 100644
--- a/src/encoding/delta_length_byte_array/decoder.rs
+++ b/src/encoding/delta_length_byte_array/decoder.rs
@@ -68,14 +68,26 @@ impl<'a> Iterator for Decoder<'a> {
     type Item = Result<i32, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let result = self.lengths.next();
-        match result {
-            Some(Ok(v)) => {
-                self.total_length += v as u32;
-                Some(Ok(v as i32))
+        let result = self.lengths.next()?.and_then(|v| {
+            let length =
+                i32::try_from(v).map_err(|_| Error::oos("A length does not fit 32 bits"))?;
+            let total_length = u32::try_from(length)
+                .ok()
+                .and_then(|length| self.total_length.checked_add(length))
+                .ok_or_else(|| Error::oos("The lengths are negative or too large"))?;
+            if self.lengths.size_hint().0 == 0 {
+                // this is the last length => the values follow
+                let available = self.values.len() - self.lengths.consumed_bytes();
+                if total_length as usize > available {
+                    return Err(Error::oos("The lengths exceed the values"));
+                }
             }
-            Some(Err(error)) => Some(Err(error)),
-            None => None,
+            self.total_length = total_length;
+            Ok(length)
+        });
+        if result.is_err() {
+            self.total_length = 0;
         }
+        Some(result)
     }
 }
-- 
2.43.0


From 16f096168fee99a5c7781c897f09fa43bd5feb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 08/72] fix: plain byte arrays cut within a length were
 silently dropped

The iterator also yielded more items than its declared length when more bytes follow.
---
 src/encoding/plain_byte_array.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encoding/plain_byte_array.rs b/src/encoding/plain_byte_array.rs
index d549e94..ddecded 100644
--- a/src/encoding/plain_byte_array.rs
+++ b/src/encoding/plain_byte_array.rs
@@ -21,15 +21,22 @@ impl<'a> Iterator for BinaryIter<'a> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.values.len() < 4 {
+        if self.values.is_empty() || self.length == Some(0) {
             return None;
         }
+        if self.values.len() < 4 {
+            self.values = &[];
+            return Some(Err(Error::oos(
+                "A string in plain encoding has no space for its length",
+            )));
+        }
         if let Some(x) = self.length.as_mut() {
             *x = x.saturating_sub(1)
         }
         let length = u32::from_le_bytes(self.values[0..4].try_into().unwrap()) as usize;
         self.values = &self.values[4..];
         if length > self.values.len() {
+            self.values = &[];
             return Some(Err(Error::oos(
                 "A string in plain encoding declares a length that is out of range",
             )));
-- 
2.43.0


From db3d1a331adf74b8b6950ded2d92d00df43a2829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 09/72] fix: the hybrid RLE decoder repeated a malformed run
 header forever

---
 src/encoding/hybrid_rle/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoding/hybrid_rle/decoder.rs b/src/encoding/hybrid_rle/decoder.rs
index 346db68..3457996 100644
--- a/src/encoding/hybrid_rle/decoder.rs
+++ b/src/encoding/hybrid_rle/decoder.rs
@@ -38,7 +38,11 @@ impl<'a> Iterator for Decoder<'a> {
 
         let (indicator, consumed) = match uleb128::decode(self.values) {
             Ok((indicator, consumed)) => (indicator, consumed),
-            Err(e) => return Some(Err(e)),
+            Err(e) => {
+                // nothing can be decoded after an error
+                self.values = &[];
+                return Some(Err(e));
+            }
         };
         self.values = &self.values[consumed..];
         if self.values.is_empty() {
-- 
2.43.0


From aa288becdf662ecfc568de54e944f0867fc33c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 10/72] fix: HybridRleBooleanIter ended after the first run

---
 src/deserialize/hybrid_rle.rs | 52 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/deserialize/hybrid_rle.rs b/src/deserialize/hybrid_rle.rs
index 4f457f3..92d99a2 100644
--- a/src/deserialize/hybrid_rle.rs
+++ b/src/deserialize/hybrid_rle.rs
@@ -162,41 +162,43 @@ where
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(run) = &mut self.current_run {
-            match run {
-                HybridBooleanState::Bitmap(bitmap) => bitmap.next().map(Ok),
-                HybridBooleanState::Repeated(value, remaining) => if *remaining == 0 {
-                    None
-                } else {
-                    *remaining -= 1;
-                    Some(*value)
+        loop {
+            if let Some(run) = &mut self.current_run {
+                let item = match run {
+                    HybridBooleanState::Bitmap(bitmap) => bitmap.next(),
+                    HybridBooleanState::Repeated(_, 0) => None,
+                    HybridBooleanState::Repeated(value, remaining) => {
+                        *remaining -= 1;
+                        Some(*value)
+                    }
+                };
+                if let Some(item) = item {
+                    return Some(Ok(item));
                 }
-                .map(Ok),
             }
-        } else if let Some(run) = self.iter.next() {
-            let run = run.map(|run| match run {
-                HybridEncoded::Bitmap(bitmap, length) => {
-                    HybridBooleanState::Bitmap(BitmapIter::new(bitmap, 0, length))
+            // the run is exhausted => fetch the next one
+            match self.iter.next()? {
+                Ok(HybridEncoded::Bitmap(bitmap, length)) => {
+                    self.current_run = Some(HybridBooleanState::Bitmap(BitmapIter::new(
+                        bitmap, 0, length,
+                    )));
                 }
-                HybridEncoded::Repeated(value, length) => {
-                    HybridBooleanState::Repeated(value, length)
+                Ok(HybridEncoded::Repeated(value, length)) => {
+                    self.current_run = Some(HybridBooleanState::Repeated(value, length));
                 }
-            });
-            match run {
-                Ok(run) => {
-                    self.current_run = Some(run);
-                    self.next()
-                }
-                Err(e) => Some(Err(e)),
+                Err(e) => return Some(Err(e)),
             }
-        } else {
-            None
         }
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let exact = self.iter.number_of_elements();
+        let in_run = match &self.current_run {
+            Some(HybridBooleanState::Bitmap(bitmap)) => bitmap.size_hint().0,
+            Some(HybridBooleanState::Repeated(_, remaining)) => *remaining,
+            None => 0,
+        };
+        let exact = in_run + self.iter.number_of_elements();
         (exact, Some(exact))
     }
 }
-- 
2.43.0


From d079cd7fe0f83050ad88f7b9bd9c6679bbe2500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 11/72] fix: a dictionary-encoded page without values panicked

---
 src/deserialize/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deserialize/utils.rs b/src/deserialize/utils.rs
index 0d0135e..7cfd358 100644
--- a/src/deserialize/utils.rs
+++ b/src/deserialize/utils.rs
@@ -15,7 +15,9 @@ pub(super) fn dict_indices_decoder(page: &DataPage) -> Result<hybrid_rle::Hybrid
 
     // SPEC: Data page format: the bit width used to encode the entry ids stored as 1 byte (max bit width = 32),
     // SPEC: followed by the values encoded using RLE/Bit packed described above (with the given bit width).
-    let bit_width = indices_buffer[0];
+    let bit_width = *indices_buffer
+        .first()
+        .ok_or_else(|| Error::oos("A dictionary-encoded page must contain its bit width"))?;
     if bit_width > 32 {
         return Err(Error::oos(
             "Bit width of dictionary pages cannot be larger than 32",
-- 
2.43.0


From fa9ca39088f8d012d9c62f4ac1337ba8ba2d24c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 12/72] fix: SliceFilteredIter underflowed on an empty interval

---
 src/deserialize/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/deserialize/utils.rs b/src/deserialize/utils.rs
index 7cfd358..c6068db 100644
--- a/src/deserialize/utils.rs
+++ b/src/deserialize/utils.rs
@@ -125,7 +125,12 @@ impl<T, I: Iterator<Item = T>> Iterator for SliceFilteredIter<I> {
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         if self.current_remaining == 0 {
-            if let Some(interval) = self.selected_rows.pop_front() {
+            let mut interval = self.selected_rows.pop_front();
+            while matches!(interval, Some(Interval { length: 0, .. })) {
+                // nothing is selected by an empty interval
+                interval = self.selected_rows.pop_front();
+            }
+            if let Some(interval) = interval {
                 // skip the hole between the previous start and this start
                 // (start + length) - start
                 let item = self.iter.nth(interval.start - self.current);
-- 
2.43.0


From c17b1f948605530f949523f4659d940c00522220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 13/72] fix: decoding a page of zero-sized FixedLenByteArray
 panicked

---
 src/deserialize/fixed_len.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/deserialize/fixed_len.rs b/src/deserialize/fixed_len.rs
index 7aecda8..e3918d4 100644
--- a/src/deserialize/fixed_len.rs
+++ b/src/deserialize/fixed_len.rs
@@ -77,6 +77,12 @@ impl<'a, P> FixedLenBinaryPageState<'a, P> {
             ));
         };
 
+        if size == 0 {
+            return Err(Error::oos(
+                "The size of a FixedLenByteArray must be larger than zero",
+            ));
+        }
+
         match (page.encoding(), dict, is_optional) {
             (Encoding::PlainDictionary | Encoding::RleDictionary, Some(dict), false) => {
                 Dictionary::try_new(page, dict).map(Self::RequiredDictionary)
-- 
2.43.0


From 8f89f7fc55cc1488f7ddd9519aaf61d5c2e81198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:01 +0000
Subject: [PATCH 14/72] fix: ord_binary declared a string equal to its
 extensions

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 3e73688..cb64616 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -128,7 +128,7 @@ pub fn ord_binary<'a>(a: &'a [u8], b: &'a [u8]) -> std::cmp::Ordering {
             other => return other,
         }
     }
-    Equal
+    a.len().cmp(&b.len())
 }
 
 #[inline]
-- 
2.43.0


From d77bc7855cf163d8a9060a5942daa88bb2eacced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:01 +0000
Subject: [PATCH 15/72] fix: Int96 far from the epoch overflowed in conversion
 and ordering

---
 src/types.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index cb64616..117ca28 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -95,7 +95,11 @@ impl NativeType for [u32; 3] {
 
     #[inline]
     fn ord(&self, other: &Self) -> std::cmp::Ordering {
-        int96_to_i64_ns(*self).ord(&int96_to_i64_ns(*other))
+        let key = |x: &Self| {
+            let nanoseconds_of_day = ((x[1] as u64) << 32) | x[0] as u64;
+            x[2] as i128 * 86_400_000_000_000 + nanoseconds_of_day as i128
+        };
+        key(self).cmp(&key(other))
     }
 }
 
@@ -109,7 +113,10 @@ pub fn int96_to_i64_ns(value: [u32; 3]) -> i64 {
     let nanoseconds = ((value[1] as i64) << 32) + value[0] as i64;
     let seconds = (day - JULIAN_DAY_OF_EPOCH) * SECONDS_PER_DAY;
 
-    seconds * NANOS_PER_SECOND + nanoseconds
+    // wraps around when the number of nanoseconds does not fit 64 bits
+    seconds
+        .wrapping_mul(NANOS_PER_SECOND)
+        .wrapping_add(nanoseconds)
 }
 
 /// Returns the ordering of two binary values.
-- 
2.43.0


From 9e0acc9616ac05c9bfb2548250bc74fef8e8597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:01 +0000
Subject: [PATCH 16/72] fix: levels declared larger than a v2 page panicked

---
 src/page/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/page/mod.rs b/src/page/mod.rs
index 03b5425..a7fd47b 100644
--- a/src/page/mod.rs
+++ b/src/page/mod.rs
@@ -403,10 +403,16 @@ pub fn split_buffer_v2(
     rep_level_buffer_length: usize,
     def_level_buffer_length: usize,
 ) -> Result<(&[u8], &[u8], &[u8])> {
+    let total_length = rep_level_buffer_length.saturating_add(def_level_buffer_length);
+    if total_length > buffer.len() {
+        return Err(Error::oos(
+            "The number of bytes declared in v2 levels is higher than the page size",
+        ));
+    }
     Ok((
         &buffer[..rep_level_buffer_length],
-        &buffer[rep_level_buffer_length..rep_level_buffer_length + def_level_buffer_length],
-        &buffer[rep_level_buffer_length + def_level_buffer_length..],
+        &buffer[rep_level_buffer_length..total_length],
+        &buffer[total_length..],
     ))
 }
 
-- 
2.43.0


From 069e0e43dc9e218cf0923ed0f7f9150afee62897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:02 +0000
Subject: [PATCH 17/72] fix: selecting an interval that ends beyond usize
 overflowed

---
 src/indexes/intervals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/indexes/intervals.rs b/src/indexes/intervals.rs
index b3e3e00..0db5a5b 100644
--- a/src/indexes/intervals.rs
+++ b/src/indexes/intervals.rs
@@ -99,8 +99,8 @@ fn is_in(probe: Interval, intervals: &[Interval]) -> Vec<Interval> {
     intervals
         .iter()
         .filter_map(|interval| {
-            let interval_end = interval.start + interval.length;
-            let probe_end = probe.start + probe.length;
+            let interval_end = interval.start.saturating_add(interval.length);
+            let probe_end = probe.start.saturating_add(probe.length);
             let overlaps = (probe.start < interval_end) && (probe_end > interval.start);
             if overlaps {
                 let start = interval.start.max(probe.start);
-- 
2.43.0


From c408051a775966d517fc52ae83f03f4e785bcad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:26 +0000
Subject: [PATCH 18/72] fix: an empty interval selected the page around it

---
 src/indexes/intervals.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/indexes/intervals.rs b/src/indexes/intervals.rs
index 0db5a5b..af0af7a 100644
--- a/src/indexes/intervals.rs
+++ b/src/indexes/intervals.rs
@@ -101,10 +101,10 @@ fn is_in(probe: Interval, intervals: &[Interval]) -> Vec<Interval> {
         .filter_map(|interval| {
             let interval_end = interval.start.saturating_add(interval.length);
             let probe_end = probe.start.saturating_add(probe.length);
-            let overlaps = (probe.start < interval_end) && (probe_end > interval.start);
+            let start = interval.start.max(probe.start);
+            let end = interval_end.min(probe_end);
+            let overlaps = start < end;
             if overlaps {
-                let start = interval.start.max(probe.start);
-                let end = interval_end.min(probe_end);
                 Some(Interval::new(start - probe.start, end - start))
             } else {
                 None
-- 
2.43.0


From c8b9c08b0634ee133440fc6d970453986c5bcc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:13 +0000
Subject: [PATCH 19/72] fix: a fixed-length item cut short was silently dropped

---
 src/deserialize/fixed_len.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/deserialize/fixed_len.rs b/src/deserialize/fixed_len.rs
index e3918d4..d4bd6c3 100644
--- a/src/deserialize/fixed_len.rs
+++ b/src/deserialize/fixed_len.rs
@@ -8,6 +8,17 @@ use crate::{
 
 use super::utils;
 
+/// Returns the values of the page, which must be whole items of `size` bytes
+fn values_of(page: &DataPage, size: usize) -> Result<&[u8], Error> {
+    let (_, _, values) = split_buffer(page)?;
+    if values.len() % size != 0 {
+        return Err(Error::oos(
+            "A FixedLenByteArray page data's len must be a multiple of the type's size",
+        ));
+    }
+    Ok(values)
+}
+
 #[derive(Debug)]
 pub struct FixexBinaryIter<'a> {
     values: std::slice::ChunksExact<'a, u8>,
@@ -94,7 +105,7 @@ impl<'a, P> FixedLenBinaryPageState<'a, P> {
                 ))
             }
             (Encoding::Plain, _, true) => {
-                let (_, _, values) = split_buffer(page)?;
+                let values = values_of(page, size)?;
 
                 let validity = utils::DefLevelsDecoder::try_new(page)?;
                 let values = FixexBinaryIter::new(values, size);
@@ -102,7 +113,7 @@ impl<'a, P> FixedLenBinaryPageState<'a, P> {
                 Ok(Self::Optional(validity, values))
             }
             (Encoding::Plain, _, false) => {
-                let (_, _, values) = split_buffer(page)?;
+                let values = values_of(page, size)?;
                 let values = FixexBinaryIter::new(values, size);
 
                 Ok(Self::Required(values))
-- 
2.43.0


From 908ad11ce36ab2a24cc0372df631f283cdca3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 20/72] fix: a plain boolean page shorter than its number of
 values was accepted

---
 src/deserialize/boolean.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/deserialize/boolean.rs b/src/deserialize/boolean.rs
index 30e1f0d..548a29b 100644
--- a/src/deserialize/boolean.rs
+++ b/src/deserialize/boolean.rs
@@ -31,6 +31,11 @@ impl<'a> BooleanPageState<'a> {
             }
             (Encoding::Plain, false) => {
                 let (_, _, values) = split_buffer(page)?;
+                if values.len().saturating_mul(8) < page.num_values() {
+                    return Err(Error::oos(
+                        "A boolean page must contain at least one bit per value",
+                    ));
+                }
                 Ok(Self::Required(values, page.num_values()))
             }
             _ => Err(Error::InvalidParameter(format!(
-- 
2.43.0


From b252fb1b9da03303b857088c9402615c830fd667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:11 +0000
Subject: [PATCH 21/72] fix: the order of a column that has none listed
 panicked

A file may list fewer column orders than columns; such columns have the undefined order.
---
 src/metadata/file_metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 4d46882..9239203 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -55,7 +55,7 @@ impl FileMetaData {
     pub fn column_order(&self, i: usize) -> ColumnOrder {
         self.column_orders
             .as_ref()
-            .map(|data| data[i])
+            .and_then(|data| data.get(i).copied())
             .unwrap_or(ColumnOrder::Undefined)
     }
 
-- 
2.43.0


From 6bb2dc1e6a2328dddd86fbfe3e225736964fddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:11 +0000
Subject: [PATCH 22/72] fix: file metadata lost its column orders when
 serialized

---
 src/metadata/file_metadata.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/metadata/file_metadata.rs b/src/metadata/file_metadata.rs
index 9239203..6793066 100644
--- a/src/metadata/file_metadata.rs
+++ b/src/metadata/file_metadata.rs
@@ -97,7 +97,18 @@ impl FileMetaData {
                 .collect(),
             key_value_metadata: self.key_value_metadata,
             created_by: self.created_by,
-            column_orders: None, // todo
+            column_orders: self.column_orders.and_then(|orders| {
+                // an undefined order is stored by listing none
+                orders
+                    .into_iter()
+                    .map(|order| match order {
+                        ColumnOrder::TypeDefinedOrder(_) => {
+                            Some(TColumnOrder::TYPEORDER(Default::default()))
+                        }
+                        ColumnOrder::Undefined => None,
+                    })
+                    .collect()
+            }),
             encryption_algorithm: None,
             footer_signing_key_metadata: None,
         }
-- 
2.43.0


From 5edbc623d5795ff37d753d237a3fd1514728a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:43 +0000
Subject: [PATCH 23/72] fix: decimals of fixed length above 128 bytes accepted
 any precision

2^bits overflowed to infinity, whose logarithm bounds nothing.
---
 src/schema/types/spec.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/schema/types/spec.rs b/src/schema/types/spec.rs
index ce5772b..d58eeea 100644
--- a/src/schema/types/spec.rs
+++ b/src/schema/types/spec.rs
@@ -41,15 +41,13 @@ fn check_decimal_invariants(
         }
         PhysicalType::FixedLenByteArray(length) => {
             let oos_error = || Error::oos(format!("Byte Array length {} out of spec", length));
-            let max_precision = (2f64.powi(
-                (*length as i32)
-                    .checked_mul(8)
-                    .ok_or_else(oos_error)?
-                    .checked_sub(1)
-                    .ok_or_else(oos_error)?,
-            ) - 1f64)
-                .log10()
-                .floor() as usize;
+            let bits = (*length as i32)
+                .checked_mul(8)
+                .ok_or_else(oos_error)?
+                .checked_sub(1)
+                .ok_or_else(oos_error)?;
+            // = log10(2^bits - 1), which is finite for every number of bits
+            let max_precision = (bits as f64 * std::f64::consts::LOG10_2).floor() as usize;
 
             if precision > max_precision {
                 return Err(Error::oos(format!(
-- 
2.43.0


From 891fd8eedb10e70094fb746e5a72203fcd3315f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:43 +0000
Subject: [PATCH 24/72] fix: a schema element with a negative number of
 children was read as an empty group

---
 src/schema/io_thrift/from_thrift.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index 68add24..c40d910 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -93,6 +93,7 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
             Ok((index + 1, tp))
         }
         Some(n) => {
+            let n = usize::try_from(n)?;
             let mut fields = vec![];
             let mut next_index = index + 1;
             for _ in 0..n {
-- 
2.43.0


From d3e09500cf04d553ed6294397ef05ad978604df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:52 +0000
Subject: [PATCH 25/72] fix: a group without fields could not be read back

Files without columns were written but refused when read.
---
 src/schema/io_thrift/from_thrift.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index c40d910..6458aa3 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -44,13 +44,18 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
     let converted_type = element.converted_type;
 
     let id = element.field_id;
-    match element.num_children {
+    // An element with 0 children and no physical type is a group without fields, which is how such
+    // groups (e.g. the root of a file without columns) are written.
+    let num_children = element
+        .num_children
+        .filter(|n| *n != 0 || element.type_.is_none());
+    match num_children {
         // From parquet-format:
         //   The children count is used to construct the nested relationship.
         //   This field is not set when the element is a primitive type
         // Sometimes parquet-cpp sets num_children field to 0 for primitive types, so we
         // have to handle this case too.
-        None | Some(0) => {
+        None => {
             // primitive type
             let repetition = element
                 .repetition_type
-- 
2.43.0


From 4c9da3d93575da430edf6297f813788e98ba89fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:22 +0000
Subject: [PATCH 26/72] fix: the file writers accepted calls after the end of
 the file or after an error

Writing a row group after the footer was accepted, the asynchronous writer could write
the footer twice, and after a failed call the offsets of what followed were wrong.
---
 src/write/file.rs   | 17 +++++++++++++----
 src/write/mod.rs    |  2 ++
 src/write/stream.rs | 18 ++++++++++++++----
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/write/file.rs b/src/write/file.rs
index 1b28541..a76331a 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -123,7 +123,8 @@ impl<W: Write> FileWriter<W> {
     /// # Errors
     /// Returns an error if data has been written to the file.
     fn start(&mut self) -> Result<()> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
+            self.state = State::Failed;
             self.offset = start_file(&mut self.writer)?;
             self.state = State::Started;
             Ok(())
@@ -142,9 +143,15 @@ impl<W: Write> FileWriter<W> {
         Error: From<E>,
         E: std::error::Error,
     {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
             self.start()?;
         }
+        if self.state != State::Started {
+            return Err(Error::InvalidParameter(
+                "Write cannot be called after end or after an error".to_string(),
+            ));
+        }
+        self.state = State::Failed;
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group(
             &mut self.writer,
@@ -156,21 +163,23 @@ impl<W: Write> FileWriter<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
     /// Writes the footer of the parquet file. Returns the total size of the file and the
     /// underlying writer.
     pub fn end(&mut self, key_value_metadata: Option<Vec<KeyValue>>) -> Result<u64> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
             self.start()?;
         }
 
         if self.state != State::Started {
             return Err(Error::InvalidParameter(
-                "End cannot be called twice".to_string(),
+                "End cannot be called twice nor after an error".to_string(),
             ));
         }
+        self.state = State::Failed;
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
diff --git a/src/write/mod.rs b/src/write/mod.rs
index 16ba7ca..20d2bd4 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -48,6 +48,8 @@ enum State {
     Initialised,
     Started,
     Finished,
+    /// a call failed half way => what was written is unknown
+    Failed,
 }
 
 impl From<Version> for i32 {
diff --git a/src/write/stream.rs b/src/write/stream.rs
index b750d9b..123df6b 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -97,7 +97,8 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
     /// # Errors
     /// Returns an error if data has been written to the file.
     async fn start(&mut self) -> Result<()> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
+            self.state = State::Failed;
             self.offset = start_file(&mut self.writer).await? as u64;
             self.state = State::Started;
             Ok(())
@@ -114,9 +115,15 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         Error: From<E>,
         E: std::error::Error,
     {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
             self.start().await?;
         }
+        if self.state != State::Started {
+            return Err(Error::InvalidParameter(
+                "Write cannot be called after end or after an error".to_string(),
+            ));
+        }
+        self.state = State::Failed;
 
         let ordinal = self.row_groups.len();
         let (group, specs, size) = write_row_group_async(
@@ -130,21 +137,23 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         self.offset += size;
         self.row_groups.push(group);
         self.page_specs.push(specs);
+        self.state = State::Started;
         Ok(())
     }
 
     /// Writes the footer of the parquet file. Returns the total size of the file and the
     /// underlying writer.
     pub async fn end(&mut self, key_value_metadata: Option<Vec<KeyValue>>) -> Result<u64> {
-        if self.offset == 0 {
+        if self.state == State::Initialised {
             self.start().await?;
         }
 
         if self.state != State::Started {
             return Err(Error::InvalidParameter(
-                "End cannot be called twice".to_string(),
+                "End cannot be called twice nor after an error".to_string(),
             ));
         }
+        self.state = State::Failed;
         // compute file stats
         let num_rows = self.row_groups.iter().map(|group| group.num_rows).sum();
 
@@ -184,6 +193,7 @@ impl<W: AsyncWrite + Unpin + Send> FileStreamer<W> {
         );
 
         let len = end_file(&mut self.writer, metadata).await?;
+        self.state = State::Finished;
         Ok(self.offset + len)
     }
 
-- 
2.43.0


From b8bb64b918fab3ca8fc00e7c77fbea2d6c9408d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:22 +0000
Subject: [PATCH 27/72] fix: row groups with missing or additional columns were
 written

Such files can not be read.
---
 src/write/row_group.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/write/row_group.rs b/src/write/row_group.rs
index 2c07cb5..94a1751 100644
--- a/src/write/row_group.rs
+++ b/src/write/row_group.rs
@@ -75,6 +75,16 @@ fn compute_num_rows(columns: &[(ColumnChunk, Vec<PageWriteSpec>)]) -> Result<i64
         .unwrap_or(Ok(0))
 }
 
+/// A row group has exactly one column chunk per column of the schema
+fn check_num_columns(expected: usize, written: usize, has_more: bool) -> Result<()> {
+    if written != expected || has_more {
+        return Err(Error::InvalidParameter(format!(
+            "A row group must have one column chunk per column of the schema ({expected})"
+        )));
+    }
+    Ok(())
+}
+
 pub fn write_row_group<
     'a,
     W,
@@ -91,10 +101,11 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
+    let mut columns = columns;
+    let column_iter = descriptors.iter().zip(columns.by_ref());
 
     let initial = offset;
-    let columns = column_iter
+    let written = column_iter
         .map(|(descriptor, page_iter)| {
             let (column, page_specs, size) =
                 write_column_chunk(writer, offset, descriptor, page_iter?)?;
@@ -102,6 +113,8 @@ where
             Ok((column, page_specs))
         })
         .collect::<Result<Vec<_>>>()?;
+    check_num_columns(descriptors.len(), written.len(), columns.next().is_some())?;
+    let columns = written;
     let bytes_written = offset - initial;
 
     let num_rows = compute_num_rows(&columns)?;
@@ -158,16 +171,19 @@ where
     Error: From<E>,
     E: std::error::Error,
 {
-    let column_iter = descriptors.iter().zip(columns);
+    let mut columns = columns;
+    let column_iter = descriptors.iter().zip(columns.by_ref());
 
     let initial = offset;
-    let mut columns = vec![];
+    let mut written = vec![];
     for (descriptor, page_iter) in column_iter {
         let (column, page_specs, size) =
             write_column_chunk_async(writer, offset, descriptor, page_iter?).await?;
         offset += size;
-        columns.push((column, page_specs));
+        written.push((column, page_specs));
     }
+    check_num_columns(descriptors.len(), written.len(), columns.next().is_some())?;
+    let columns = written;
     let bytes_written = offset - initial;
 
     let num_rows = compute_num_rows(&columns)?;
-- 
2.43.0


From b347f2d3bd7713ea6c9c9c070d0ee797d6100a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:53 +0000
Subject: [PATCH 28/72] fix: the offset of the dictionary page was recorded as
 the offset of the data pages

---
 src/write/column_chunk.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 130455e..4708d49 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -22,7 +22,7 @@ use crate::{
 #[cfg(feature = "async")]
 use super::page::write_page_async;
 
-use super::page::{write_page, PageWriteSpec};
+use super::page::{is_data_page, write_page, PageWriteSpec};
 use super::statistics::reduce;
 use super::DynStreamingIterator;
 
@@ -129,7 +129,16 @@ fn build_column_chunk(
         .iter()
         .map(|x| x.header_size as i64 + x.header.uncompressed_page_size as i64)
         .sum();
-    let data_page_offset = specs.first().map(|spec| spec.offset).unwrap_or(0) as i64;
+    let start_offset = specs.first().map(|spec| spec.offset).unwrap_or(0) as i64;
+    let dictionary_page_offset = specs
+        .first()
+        .filter(|spec| !is_data_page(spec))
+        .map(|spec| spec.offset as i64);
+    let data_page_offset = specs
+        .iter()
+        .find(|spec| is_data_page(spec))
+        .map(|spec| spec.offset as i64)
+        .unwrap_or(start_offset);
     let num_values = specs
         .iter()
         .map(|spec| {
@@ -193,7 +202,7 @@ fn build_column_chunk(
         key_value_metadata: None,
         data_page_offset,
         index_page_offset: None,
-        dictionary_page_offset: None,
+        dictionary_page_offset,
         statistics,
         encoding_stats: None,
         bloom_filter_offset: None,
@@ -201,7 +210,7 @@ fn build_column_chunk(
 
     Ok(ColumnChunk {
         file_path: None, // same file for now.
-        file_offset: data_page_offset + total_compressed_size,
+        file_offset: start_offset + total_compressed_size,
         meta_data: Some(metadata),
         offset_index_offset: None,
         offset_index_length: None,
-- 
2.43.0


From 78f153f64e610558c9d5e00be7bc5c1df052a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:53 +0000
Subject: [PATCH 29/72] fix: the encodings of the levels of a page were not
 listed in the column chunk

---
 src/write/column_chunk.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 4708d49..834f8d7 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -159,10 +159,17 @@ fn build_column_chunk(
         .flat_map(|spec| {
             let type_ = spec.header.type_.try_into().unwrap();
             match type_ {
-                PageType::DataPage => vec![
-                    spec.header.data_page_header.as_ref().unwrap().encoding,
-                    Encoding::Rle.into(),
-                ],
+                PageType::DataPage => {
+                    let header = spec.header.data_page_header.as_ref().unwrap();
+                    let mut encodings = vec![header.encoding, Encoding::Rle.into()];
+                    if descriptor.descriptor.max_def_level > 0 {
+                        encodings.push(header.definition_level_encoding);
+                    }
+                    if descriptor.descriptor.max_rep_level > 0 {
+                        encodings.push(header.repetition_level_encoding);
+                    }
+                    encodings
+                }
                 PageType::DataPageV2 => {
                     vec![
                         spec.header.data_page_header_v2.as_ref().unwrap().encoding,
-- 
2.43.0


From f968691026ec22769c8a93984875a52439e05acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:53 +0000
Subject: [PATCH 30/72] fix: writing a page without selected rows panicked

---
 src/write/page.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/write/page.rs b/src/write/page.rs
index 0ba7fa4..4495465 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -90,7 +90,7 @@ pub fn write_page<W: Write>(
         bytes_written,
         compression: compressed_page.compression(),
         statistics,
-        num_rows: selected_rows.map(|x| x.last().unwrap().length),
+        num_rows: selected_rows.and_then(|x| x.last().map(|x| x.length)),
         num_values,
     })
 }
@@ -136,7 +136,7 @@ pub async fn write_page_async<W: AsyncWrite + Unpin + Send>(
         bytes_written,
         compression: compressed_page.compression(),
         statistics,
-        num_rows: selected_rows.map(|x| x.last().unwrap().length),
+        num_rows: selected_rows.and_then(|x| x.last().map(|x| x.length)),
         num_values,
     })
 }
-- 
2.43.0


From 3e5a9040d733bb63a7379668deb6cc766185bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:54 +0000
Subject: [PATCH 31/72] fix: whether a dictionary is sorted was not written

---
 src/write/page.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/page.rs b/src/write/page.rs
index 4495465..57640f4 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -191,7 +191,7 @@ fn assemble_dict_page_header(page: &CompressedDictPage) -> Result<ParquetPageHea
         dictionary_page_header: Some(DictionaryPageHeader {
             num_values,
             encoding: Encoding::PLAIN,
-            is_sorted: None,
+            is_sorted: Some(page.is_sorted),
         }),
         data_page_header_v2: None,
     })
-- 
2.43.0


From 3c5884a36447675d162658879118071467d2ad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:06 +0000
Subject: [PATCH 32/72] fix: the bounds of a binary column could exclude values
 of its pages

A value was not distinguished from its prefixes, and decimals were compared as unsigned bytes.
---
 src/write/statistics.rs | 86 +++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 33 deletions(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index aaad15d..4114f88 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -1,9 +1,11 @@
+use std::cmp::Ordering;
 use std::sync::Arc;
 
 use crate::error::{Error, Result};
-use crate::schema::types::PhysicalType;
+use crate::metadata::{get_sort_order, SortOrder};
+use crate::schema::types::{PhysicalType, PrimitiveType};
 use crate::statistics::*;
-use crate::types::NativeType;
+use crate::types::{ord_binary, NativeType};
 
 #[inline]
 fn reduce_single<T, F: Fn(T, T) -> T>(lhs: Option<T>, rhs: Option<T>, op: F) -> Option<T> {
@@ -16,13 +18,33 @@ fn reduce_single<T, F: Fn(T, T) -> T>(lhs: Option<T>, rhs: Option<T>, op: F) ->
 }
 
 #[inline]
-fn reduce_vec8(lhs: Option<Vec<u8>>, rhs: &Option<Vec<u8>>, max: bool) -> Option<Vec<u8>> {
-    match (lhs, rhs) {
-        (None, None) => None,
-        (Some(x), None) => Some(x),
-        (None, Some(x)) => Some(x.clone()),
-        (Some(x), Some(y)) => Some(ord_binary(x, y.clone(), max)),
-    }
+fn reduce_vec8(
+    lhs: Option<Vec<u8>>,
+    rhs: &Option<Vec<u8>>,
+    type_: &PrimitiveType,
+    max: bool,
+) -> Option<Vec<u8>> {
+    // binaries are compared byte-wise, unless they store decimals
+    let ord = match sort_order(type_) {
+        SortOrder::Signed => ord_decimal,
+        _ => ord_binary,
+    };
+    reduce_single(lhs, rhs.clone(), |x, y| {
+        if (ord(&x, &y) == Ordering::Greater) == max {
+            x
+        } else {
+            y
+        }
+    })
+}
+
+#[inline]
+fn sort_order(type_: &PrimitiveType) -> SortOrder {
+    get_sort_order(
+        &type_.logical_type,
+        &type_.converted_type,
+        &type_.physical_type,
+    )
 }
 
 pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn Statistics>>> {
@@ -81,8 +103,8 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
 fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(mut stats: I) -> BinaryStatistics {
     let initial = stats.next().unwrap().clone();
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, &new.primitive_type, false);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, &new.primitive_type, true);
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
         acc
@@ -94,35 +116,33 @@ fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
 ) -> FixedLenStatistics {
     let initial = stats.next().unwrap().clone();
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, false);
-        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, true);
+        acc.min_value = reduce_vec8(acc.min_value, &new.min_value, &new.primitive_type, false);
+        acc.max_value = reduce_vec8(acc.max_value, &new.max_value, &new.primitive_type, true);
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
         acc
     })
 }
 
-fn ord_binary(a: Vec<u8>, b: Vec<u8>, max: bool) -> Vec<u8> {
-    for (v1, v2) in a.iter().zip(b.iter()) {
-        match v1.cmp(v2) {
-            std::cmp::Ordering::Greater => {
-                if max {
-                    return a;
-                } else {
-                    return b;
-                }
-            }
-            std::cmp::Ordering::Less => {
-                if max {
-                    return b;
-                } else {
-                    return a;
-                }
-            }
-            _ => {}
+/// Compares two decimals stored as big-endian two's complement integers of any length
+fn ord_decimal(lhs: &[u8], rhs: &[u8]) -> Ordering {
+    let sign = |x: &[u8]| {
+        if x.first().map_or(false, |x| x & 0x80 != 0) {
+            0xff
+        } else {
+            0u8
         }
-    }
-    a
+    };
+    let length = lhs.len().max(rhs.len());
+    let extend = |x: &[u8]| {
+        let mut extended = vec![sign(x); length - x.len()];
+        extended.extend_from_slice(x);
+        extended
+    };
+    // the sign of negative numbers is the larger one
+    sign(rhs)
+        .cmp(&sign(lhs))
+        .then_with(|| extend(lhs).cmp(&extend(rhs)))
 }
 
 fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
-- 
2.43.0


From 83e856901964ac1064ba7aeabd247a656adabc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:07 +0000
Subject: [PATCH 33/72] fix: the bounds of a column of unsigned integers or
 with NaNs could exclude values of its pages

Unsigned integers were compared as signed, a NaN was replaced by the bound of another page,
and the bounds of Int96 columns panicked.
---
 src/write/statistics.rs | 43 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index 4114f88..a59a165 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -96,7 +96,10 @@ pub fn reduce(stats: &[&Option<Arc<dyn Statistics>>]) -> Result<Option<Arc<dyn S
             let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
             Some(Arc::new(reduce_fix_len_binary(stats)))
         }
-        _ => todo!(),
+        PhysicalType::Int96 => {
+            let stats = stats.iter().map(|x| x.as_any().downcast_ref().unwrap());
+            Some(Arc::new(reduce_primitive::<[u32; 3], _>(stats)))
+        }
     })
 }
 
@@ -166,6 +169,28 @@ fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
     })
 }
 
+/// Returns the smallest or largest of two values in the order of the type.
+/// A NaN, which readers ignore, is retained since nothing is known about its page.
+fn select<T: NativeType + PartialOrd>(x: T, y: T, type_: &PrimitiveType, max: bool) -> T {
+    for value in [x, y] {
+        if value.partial_cmp(&value).is_none() {
+            return value;
+        }
+    }
+    let ord = match (sort_order(type_), T::TYPE) {
+        (SortOrder::Unsigned, PhysicalType::Int32 | PhysicalType::Int64) => {
+            let (x, y) = (x.to_le_bytes(), y.to_le_bytes());
+            x.as_ref().iter().rev().cmp(y.as_ref().iter().rev())
+        }
+        _ => NativeType::ord(&x, &y),
+    };
+    if (ord == Ordering::Greater) == max {
+        x
+    } else {
+        y
+    }
+}
+
 fn reduce_primitive<
     'a,
     T: NativeType + std::cmp::PartialOrd,
@@ -175,16 +200,12 @@ fn reduce_primitive<
 ) -> PrimitiveStatistics<T> {
     let initial = stats.next().unwrap().clone();
     stats.fold(initial, |mut acc, new| {
-        acc.min_value = reduce_single(
-            acc.min_value,
-            new.min_value,
-            |x, y| if x > y { y } else { x },
-        );
-        acc.max_value = reduce_single(
-            acc.max_value,
-            new.max_value,
-            |x, y| if x > y { x } else { y },
-        );
+        acc.min_value = reduce_single(acc.min_value, new.min_value, |x, y| {
+            select(x, y, &new.primitive_type, false)
+        });
+        acc.max_value = reduce_single(acc.max_value, new.max_value, |x, y| {
+            select(x, y, &new.primitive_type, true)
+        });
         acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
         acc.distinct_count = None;
         acc
-- 
2.43.0


From 60e85702c691bd8ac1535bddf927718de1cefb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:07 +0000
Subject: [PATCH 34/72] fix: the statistics of a column chunk ignored pages
 without statistics, bounds or null counts

The recorded bounds could exclude values of these pages.
---
 src/write/column_chunk.rs | 35 +++++++++++++++++++++++++++++++----
 src/write/statistics.rs   | 14 ++++++++++----
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index 834f8d7..a28620f 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -9,7 +9,7 @@ use futures::AsyncWrite;
 #[cfg(feature = "async")]
 use parquet_format_safe::thrift::protocol::TCompactOutputStreamProtocol;
 
-use crate::statistics::serialize_statistics;
+use crate::statistics::{serialize_statistics, ParquetStatistics};
 use crate::FallibleStreamingIterator;
 use crate::{
     compression::Compression,
@@ -99,6 +99,35 @@ where
     Ok((column_chunk, specs, bytes_written))
 }
 
+/// Returns the statistics of the column chunk, when they are known for all its pages
+fn reduce_statistics(specs: &[PageWriteSpec]) -> Result<Option<ParquetStatistics>> {
+    let specs = specs.iter().filter(|x| is_data_page(x));
+    if specs.clone().any(|x| x.statistics.is_none()) {
+        return Ok(None);
+    }
+    let statistics = specs.clone().map(|x| &x.statistics).collect::<Vec<_>>();
+    let mut reduced = reduce(&statistics)?.map(|x| serialize_statistics(x.as_ref()));
+
+    // a bound that is missing in a page with values is not known for the column chunk
+    for spec in specs {
+        let page = spec
+            .statistics
+            .as_ref()
+            .map(|x| serialize_statistics(x.as_ref()));
+        if let (Some(reduced), Some(page)) = (reduced.as_mut(), page) {
+            if page.null_count != Some(spec.num_values as i64) {
+                if page.min_value.is_none() {
+                    reduced.min_value = None;
+                }
+                if page.max_value.is_none() {
+                    reduced.max_value = None;
+                }
+            }
+        }
+    }
+    Ok(reduced)
+}
+
 fn build_column_chunk(
     specs: &[PageWriteSpec],
     descriptor: &ColumnDescriptor,
@@ -192,9 +221,7 @@ fn build_column_chunk(
     // Sort the encodings to have deterministic metadata
     encodings.sort();
 
-    let statistics = specs.iter().map(|x| &x.statistics).collect::<Vec<_>>();
-    let statistics = reduce(&statistics)?;
-    let statistics = statistics.map(|x| serialize_statistics(x.as_ref()));
+    let statistics = reduce_statistics(specs)?;
 
     let (type_, _): (Type, Option<i32>) = descriptor.descriptor.primitive_type.physical_type.into();
 
diff --git a/src/write/statistics.rs b/src/write/statistics.rs
index a59a165..1b48104 100644
--- a/src/write/statistics.rs
+++ b/src/write/statistics.rs
@@ -17,6 +17,12 @@ fn reduce_single<T, F: Fn(T, T) -> T>(lhs: Option<T>, rhs: Option<T>, op: F) ->
     }
 }
 
+/// The number of nulls is only known when it is known for every page
+#[inline]
+fn reduce_null_count(lhs: Option<i64>, rhs: Option<i64>) -> Option<i64> {
+    lhs?.checked_add(rhs?)
+}
+
 #[inline]
 fn reduce_vec8(
     lhs: Option<Vec<u8>>,
@@ -108,7 +114,7 @@ fn reduce_binary<'a, I: Iterator<Item = &'a BinaryStatistics>>(mut stats: I) ->
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_vec8(acc.min_value, &new.min_value, &new.primitive_type, false);
         acc.max_value = reduce_vec8(acc.max_value, &new.max_value, &new.primitive_type, true);
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
@@ -121,7 +127,7 @@ fn reduce_fix_len_binary<'a, I: Iterator<Item = &'a FixedLenStatistics>>(
     stats.fold(initial, |mut acc, new| {
         acc.min_value = reduce_vec8(acc.min_value, &new.min_value, &new.primitive_type, false);
         acc.max_value = reduce_vec8(acc.max_value, &new.max_value, &new.primitive_type, true);
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
@@ -163,7 +169,7 @@ fn reduce_boolean<'a, I: Iterator<Item = &'a BooleanStatistics>>(
             new.max_value,
             |x, y| if x & !(y) { x } else { y },
         );
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
@@ -206,7 +212,7 @@ fn reduce_primitive<
         acc.max_value = reduce_single(acc.max_value, new.max_value, |x, y| {
             select(x, y, &new.primitive_type, true)
         });
-        acc.null_count = reduce_single(acc.null_count, new.null_count, |x, y| x + y);
+        acc.null_count = reduce_null_count(acc.null_count, new.null_count);
         acc.distinct_count = None;
         acc
     })
-- 
2.43.0


From e298c42d5b4141521c3547a3e789cffc37ce0ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:18 +0000
Subject: [PATCH 35/72] fix: a page with values but no bounds was indexed as a
 page of nulls

Readers skip such pages.
---
 src/write/indexes/serialize.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write/indexes/serialize.rs b/src/write/indexes/serialize.rs
index df48153..5c50daf 100644
--- a/src/write/indexes/serialize.rs
+++ b/src/write/indexes/serialize.rs
@@ -35,6 +35,9 @@ pub fn serialize_column_index(pages: &[PageWriteSpec]) -> Result<ColumnIndex> {
                             .ok_or_else(|| Error::oos("max value of a page is required"))?,
                     );
                     null_pages.push(false)
+                } else if null_count != spec.num_values as i64 {
+                    // readers skip the pages that only contain nulls
+                    return Err(Error::oos("min value of a page is required"));
                 } else {
                     min_values.push(vec![0]);
                     max_values.push(vec![0]);
-- 
2.43.0


From 0895adbb547ca046abca700016944696d284fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:00 +0000
Subject: [PATCH 36/72] fix: pages with a negative number of values were
 accepted

---
 src/read/page/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index a28ef69..558c2f1 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -292,6 +292,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
             let _: Encoding = header.encoding.try_into()?;
             let _: Encoding = header.repetition_level_encoding.try_into()?;
             let _: Encoding = header.definition_level_encoding.try_into()?;
+            let _: usize = header.num_values.try_into()?;
 
             Some(DataPageHeader::V1(header))
         }
@@ -300,6 +301,7 @@ pub(super) fn get_page_header(header: &ParquetPageHeader) -> Result<Option<DataP
                 Error::oos("The page header type is a v1 data page but the v1 header is empty")
             })?;
             let _: Encoding = header.encoding.try_into()?;
+            let _: usize = header.num_values.try_into()?;
             Some(DataPageHeader::V2(header))
         }
         _ => None,
-- 
2.43.0


From 2f1c7df8010168f3704d4fc497b8d06f5bf3a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:00 +0000
Subject: [PATCH 37/72] fix: the limit of the size of a page ignored its
 uncompressed size and skipped pages

---
 src/read/page/reader.rs | 19 ++++++++++++++-----
 src/read/page/stream.rs |  8 ++------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index 558c2f1..b0ac2b8 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -192,11 +192,7 @@ pub(super) fn build_page<R: Read>(
         .map(|x| x.num_values() as i64)
         .unwrap_or_default();
 
-    let read_size: usize = page_header.compressed_page_size.try_into()?;
-
-    if read_size > reader.max_page_size {
-        return Err(Error::WouldOverAllocate);
-    }
+    let read_size = page_size(&page_header, reader.max_page_size)?;
 
     buffer.clear();
     buffer.try_reserve(read_size)?;
@@ -222,6 +218,19 @@ pub(super) fn build_page<R: Read>(
     .map(Some)
 }
 
+/// Returns the number of bytes of the body of the page.
+/// # Errors
+/// Errors if any of the sizes of the page is negative or larger than `max_page_size`.
+pub(super) fn page_size(header: &ParquetPageHeader, max_page_size: usize) -> Result<usize> {
+    let compressed: usize = header.compressed_page_size.try_into()?;
+    let uncompressed: usize = header.uncompressed_page_size.try_into()?;
+
+    if compressed > max_page_size || uncompressed > max_page_size {
+        return Err(Error::WouldOverAllocate);
+    }
+    Ok(compressed)
+}
+
 pub(super) fn finish_page(
     page_header: ParquetPageHeader,
     data: &mut Vec<u8>,
diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index 2b114f4..3760226 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -10,7 +10,7 @@ use crate::error::{Error, Result};
 use crate::metadata::{ColumnChunkMetaData, Descriptor};
 use crate::page::{CompressedPage, ParquetPageHeader};
 
-use super::reader::{finish_page, get_page_header, PageMetaData};
+use super::reader::{finish_page, get_page_header, page_size, PageMetaData};
 use super::PageFilter;
 
 /// Returns a stream of compressed data pages
@@ -90,7 +90,7 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
             let data_header = get_page_header(&page_header)?;
             seen_values += data_header.as_ref().map(|x| x.num_values() as i64).unwrap_or_default();
 
-            let read_size: usize = page_header.compressed_page_size.try_into()?;
+            let read_size = page_size(&page_header, max_page_size)?;
 
             if let Some(data_header) = data_header {
                 if !pages_filter(&descriptor, &data_header) {
@@ -100,10 +100,6 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
                 }
             }
 
-            if read_size > max_page_size {
-                Err(Error::WouldOverAllocate)?
-            }
-
             // followed by the buffer
             scratch.clear();
             scratch.try_reserve(read_size)?;
-- 
2.43.0


From 9639ea118fc9423cf808bad1518902ab90ecf630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:01 +0000
Subject: [PATCH 38/72] fix: the end of the file within a skipped page was
 ignored by the stream of pages

---
 src/read/page/stream.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/read/page/stream.rs b/src/read/page/stream.rs
index 3760226..07f1777 100644
--- a/src/read/page/stream.rs
+++ b/src/read/page/stream.rs
@@ -95,7 +95,12 @@ fn _get_page_stream<R: AsyncRead + Unpin + Send>(
             if let Some(data_header) = data_header {
                 if !pages_filter(&descriptor, &data_header) {
                     // page to be skipped, we sill need to seek
-                    copy(reader.take(read_size as u64), &mut sink()).await?;
+                    let bytes_read = copy(reader.take(read_size as u64), &mut sink()).await?;
+                    if bytes_read != read_size as u64 {
+                        Err(Error::oos(
+                            "The page header reported the wrong page size".to_string(),
+                        ))?
+                    }
                     continue
                 }
             }
-- 
2.43.0


From 3a501db29e5d931d6fe8a06195fd243bfa909a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:01 +0000
Subject: [PATCH 39/72] fix: skipping many pages overflowed the stack

---
 src/read/page/reader.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index b0ac2b8..8d6dbeb 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -142,21 +142,23 @@ impl<R: Read> Iterator for PageReader<R> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let mut buffer = std::mem::take(&mut self.scratch);
-        let maybe_maybe_page = next_page(self, &mut buffer).transpose();
-        if let Some(ref maybe_page) = maybe_maybe_page {
-            if let Ok(CompressedPage::Data(page)) = maybe_page {
-                // check if we should filter it (only valid for data pages)
-                let to_consume = (self.pages_filter)(&self.descriptor, page.header());
-                if !to_consume {
-                    self.scratch = std::mem::take(&mut buffer);
-                    return self.next();
+        loop {
+            let mut maybe_maybe_page = next_page(self, &mut buffer).transpose();
+            if let Some(maybe_page) = maybe_maybe_page.as_mut() {
+                if let Ok(CompressedPage::Data(page)) = maybe_page {
+                    // check if we should filter it (only valid for data pages)
+                    let to_consume = (self.pages_filter)(&self.descriptor, page.header());
+                    if !to_consume {
+                        buffer = std::mem::take(&mut page.buffer);
+                        continue;
+                    }
                 }
+            } else {
+                // no page => we take back the buffer
+                self.scratch = buffer;
             }
-        } else {
-            // no page => we take back the buffer
-            self.scratch = std::mem::take(&mut buffer);
+            return maybe_maybe_page;
         }
-        maybe_maybe_page
     }
 }
 
-- 
2.43.0


From 50b8619527c0f1c7c84bf779302a2a8e8d74f2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:01 +0000
Subject: [PATCH 40/72] fix: the iterator of pages did not end after an error

---
 src/read/page/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/page/reader.rs b/src/read/page/reader.rs
index 8d6dbeb..de53a1d 100644
--- a/src/read/page/reader.rs
+++ b/src/read/page/reader.rs
@@ -157,6 +157,10 @@ impl<R: Read> Iterator for PageReader<R> {
                 // no page => we take back the buffer
                 self.scratch = buffer;
             }
+            if let Some(Err(_)) = &maybe_maybe_page {
+                // the position of the next page is unknown
+                self.seen_num_values = self.total_num_values;
+            }
             return maybe_maybe_page;
         }
     }
-- 
2.43.0


From b668accf50a1e0466fd218e2a48d1f44c420ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:04 +0000
Subject: [PATCH 41/72] fix: a page location before its column overflowed

---
 src/read/page/indexed_reader.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 167d923..94a927c 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -153,14 +153,15 @@ impl<R: Read + Seek> IndexedPageReader<R> {
         // a dictionary page exists iff the first data page is not at the start of
         // the column
         let (start, length) = match self.pages.get(0) {
-            Some(page) => {
-                let length = (page.start - self.column_start) as usize;
-                if length > 0 {
-                    (self.column_start, length)
-                } else {
-                    return None;
+            Some(page) => match page.start.checked_sub(self.column_start) {
+                Some(0) => return None,
+                Some(length) => (self.column_start, length as usize),
+                None => {
+                    return Some(Err(Error::oos(
+                        "The location of a page must not precede its column",
+                    )))
                 }
-            }
+            },
             None => return None,
         };
 
-- 
2.43.0


From 3b6c06ed281eb37ae1dc836cd827ee55b0df3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:04 +0000
Subject: [PATCH 42/72] fix: pages that do not fit their location were read as
 something else

---
 src/read/page/indexed_reader.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index 94a927c..a1c7798 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -1,3 +1,4 @@
+use std::convert::TryInto;
 use std::{
     collections::VecDeque,
     io::{Cursor, Read, Seek, SeekFrom},
@@ -11,7 +12,7 @@ use crate::{
     parquet_bridge::Compression,
 };
 
-use super::reader::{finish_page, read_page_header, PageMetaData};
+use super::reader::{finish_page, get_page_header, read_page_header, PageMetaData};
 
 #[derive(Debug, Clone, Copy)]
 enum State {
@@ -64,9 +65,17 @@ fn read_page<R: Read + Seek>(
     let header_size = reader.seek(SeekFrom::Current(0)).unwrap() as usize;
     let buffer = reader.into_inner();
 
+    // validates the header
+    get_page_header(&page_header)?;
+
+    let data_size: usize = page_header.compressed_page_size.try_into()?;
+    let page_data = buffer[header_size..].get(..data_size).ok_or_else(|| {
+        Error::oos("The location of a page is not consistent with the size of the page")
+    })?;
+
     // copy [data]
     data.clear();
-    data.extend_from_slice(&buffer[header_size..]);
+    data.extend_from_slice(page_data);
     Ok(page_header)
 }
 
@@ -140,13 +149,20 @@ impl<R: Read + Seek> IndexedPageReader<R> {
 
         let page_header = read_page(&mut self.reader, start, length, &mut self.buffer, &mut data)?;
 
-        finish_page(
+        let page = finish_page(
             page_header,
             &mut data,
             self.compression,
             &self.descriptor,
             Some(selected_rows),
-        )
+        )?;
+        if let CompressedPage::Data(_) = page {
+            Ok(page)
+        } else {
+            Err(Error::oos(
+                "The location of a data page is not of a data page",
+            ))
+        }
     }
 
     fn read_dict(&mut self) -> Option<Result<CompressedPage, Error>> {
-- 
2.43.0


From 23dfe95a5279c42eb4a1fa4b49523b246b5e3a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:05 +0000
Subject: [PATCH 43/72] fix: skipping many indexed pages overflowed the stack

---
 src/read/page/indexed_reader.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index a1c7798..b69661d 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -201,26 +201,17 @@ impl<R: Read + Seek> Iterator for IndexedPageReader<R> {
     type Item = Result<CompressedPage, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.state {
-            State::MaybeDict => {
-                self.state = State::Data;
-                if let Some(dict) = self.read_dict() {
-                    Some(dict)
-                } else {
-                    self.next()
-                }
+        if let State::MaybeDict = self.state {
+            self.state = State::Data;
+            if let Some(dict) = self.read_dict() {
+                return Some(dict);
             }
-            State::Data => {
-                if let Some(page) = self.pages.pop_front() {
-                    if page.selected_rows.is_empty() {
-                        self.next()
-                    } else {
-                        Some(self.read_page(page.start, page.length, page.selected_rows))
-                    }
-                } else {
-                    None
-                }
+        }
+        while let Some(page) = self.pages.pop_front() {
+            if !page.selected_rows.is_empty() {
+                return Some(self.read_page(page.start, page.length, page.selected_rows));
             }
         }
+        None
     }
 }
-- 
2.43.0


From ac2cda5a2f5777fbe778fdfb97859cd1fa5b77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:05 +0000
Subject: [PATCH 44/72] fix: the declared length of a page or an index was
 allocated before it was read

---
 src/read/indexes/read.rs        | 4 ++--
 src/read/page/indexed_reader.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 546dd79..5bc5e00 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -89,8 +89,8 @@ pub fn read_columns_indexes<R: Read + Seek>(
 
     reader.seek(SeekFrom::Start(offset))?;
 
+    // (grows with what is read since `length` may be larger than the source)
     let mut data = vec![];
-    data.try_reserve(length)?;
     reader.by_ref().take(length as u64).read_to_end(&mut data)?;
 
     deserialize_column_indexes(chunks, &data, lengths)
@@ -124,8 +124,8 @@ pub fn read_pages_locations<R: Read + Seek>(
 
     reader.seek(SeekFrom::Start(offset))?;
 
+    // (grows with what is read since `length` may be larger than the source)
     let mut data = vec![];
-    data.try_reserve(length)?;
     reader.by_ref().take(length as u64).read_to_end(&mut data)?;
 
     deserialize_page_locations(&data, chunks.len())
diff --git a/src/read/page/indexed_reader.rs b/src/read/page/indexed_reader.rs
index b69661d..035671d 100644
--- a/src/read/page/indexed_reader.rs
+++ b/src/read/page/indexed_reader.rs
@@ -55,8 +55,8 @@ fn read_page<R: Read + Seek>(
     reader.seek(SeekFrom::Start(start))?;
 
     // read [header][data] to buffer
+    // (the buffer grows with what is read since `length` may be larger than the source)
     buffer.clear();
-    buffer.try_reserve(length)?;
     reader.by_ref().take(length as u64).read_to_end(buffer)?;
 
     // deserialize [header]
-- 
2.43.0


From c60fa8c328fede09ee7c6983358bce064621c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:05 +0000
Subject: [PATCH 45/72] fix: reading column indexes past the end of the file
 panicked

---
 src/read/indexes/read.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 5bc5e00..9962192 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -60,11 +60,14 @@ fn deserialize_column_indexes(
     data: &[u8],
     lengths: Vec<usize>,
 ) -> Result<Vec<Box<dyn Index>>, Error> {
-    let mut start = 0;
+    let mut remaining = data;
     let data = lengths.into_iter().map(|length| {
-        let r = &data[start..start + length];
-        start += length;
-        r
+        if length > remaining.len() {
+            return Err(Error::oos("The column index is shorter than its length"));
+        }
+        let (r, rest) = remaining.split_at(length);
+        remaining = rest;
+        Ok(r)
     });
 
     chunks
@@ -72,7 +75,7 @@ fn deserialize_column_indexes(
         .zip(data)
         .map(|(chunk, data)| {
             let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
-            deserialize(data, primitive_type)
+            deserialize(data?, primitive_type)
         })
         .collect()
 }
-- 
2.43.0


From fdb4891c69e3d86bc596661e311833c5e435f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:06 +0000
Subject: [PATCH 46/72] fix: reading a column index of booleans without bounds
 panicked

---
 src/indexes/index.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/indexes/index.rs b/src/indexes/index.rs
index 8242ac2..cd956f4 100644
--- a/src/indexes/index.rs
+++ b/src/indexes/index.rs
@@ -291,9 +291,10 @@ impl BooleanIndex {
                 let (min, max) = if is_null {
                     (None, None)
                 } else {
-                    let min = min[0] == 1;
-                    let max = max[0] == 1;
-                    (Some(min), Some(max))
+                    if min.len() != 1 || max.len() != 1 {
+                        return Err(Error::oos("The bounds of a boolean must have 1 byte"));
+                    }
+                    (Some(min[0] == 1), Some(max[0] == 1))
                 };
                 Ok(PageIndex {
                     min,
-- 
2.43.0


From b1e795f52c17a46f98087d92d9cbeacf5b640768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:06 +0000
Subject: [PATCH 47/72] fix: column indexes whose lists have different lengths
 lost pages

---
 src/indexes/index.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/indexes/index.rs b/src/indexes/index.rs
index cd956f4..16e7248 100644
--- a/src/indexes/index.rs
+++ b/src/indexes/index.rs
@@ -69,6 +69,22 @@ fn equal(lhs: &dyn Index, rhs: &dyn Index) -> bool {
     }
 }
 
+/// Returns the number of pages of the index.
+/// # Errors
+/// Errors if its lists do not have one item per page.
+fn num_pages(index: &ColumnIndex) -> Result<usize, Error> {
+    let len = index.min_values.len();
+    if index.max_values.len() != len
+        || index.null_pages.len() != len
+        || index.null_counts.as_ref().map_or(false, |x| x.len() != len)
+    {
+        return Err(Error::oos(
+            "The lists of a column index must have the same length",
+        ));
+    }
+    Ok(len)
+}
+
 /// An index of a column of [`NativeType`] physical representation
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct NativeIndex<T: NativeType> {
@@ -86,7 +102,7 @@ impl<T: NativeType> NativeIndex<T> {
         index: ColumnIndex,
         primitive_type: PrimitiveType,
     ) -> Result<Self, Error> {
-        let len = index.min_values.len();
+        let len = num_pages(&index)?;
 
         let null_counts = index
             .null_counts
@@ -159,7 +175,7 @@ impl ByteIndex {
         index: ColumnIndex,
         primitive_type: PrimitiveType,
     ) -> Result<Self, Error> {
-        let len = index.min_values.len();
+        let len = num_pages(&index)?;
 
         let null_counts = index
             .null_counts
@@ -219,7 +235,7 @@ impl FixedLenByteIndex {
         index: ColumnIndex,
         primitive_type: PrimitiveType,
     ) -> Result<Self, Error> {
-        let len = index.min_values.len();
+        let len = num_pages(&index)?;
 
         let null_counts = index
             .null_counts
@@ -274,7 +290,7 @@ pub struct BooleanIndex {
 
 impl BooleanIndex {
     pub(crate) fn try_new(index: ColumnIndex) -> Result<Self, Error> {
-        let len = index.min_values.len();
+        let len = num_pages(&index)?;
 
         let null_counts = index
             .null_counts
-- 
2.43.0


From 6ddb3bff1770ca4239e3812772719fb1a3764911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:06 +0000
Subject: [PATCH 48/72] fix: a source that ends before its size panicked while
 reading the footer

---
 src/read/metadata.rs | 8 ++++++++
 src/read/stream.rs   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/read/metadata.rs b/src/read/metadata.rs
index 2381d0e..1c29564 100644
--- a/src/read/metadata.rs
+++ b/src/read/metadata.rs
@@ -59,6 +59,10 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         .take(default_end_len as u64)
         .read_to_end(&mut buffer)?;
 
+    if buffer.len() != default_end_len {
+        return Err(Error::oos("The file is shorter than its size"));
+    }
+
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
         return Err(Error::oos("The file must end with PAR1"));
@@ -87,6 +91,10 @@ pub fn read_metadata_with_size<R: Read + Seek>(
         buffer.try_reserve(footer_len as usize)?;
         reader.take(footer_len).read_to_end(&mut buffer)?;
 
+        if buffer.len() as u64 != footer_len {
+            return Err(Error::oos("The file is shorter than its size"));
+        }
+
         &buffer
     };
 
diff --git a/src/read/stream.rs b/src/read/stream.rs
index 3f59b74..99ef7c4 100644
--- a/src/read/stream.rs
+++ b/src/read/stream.rs
@@ -47,6 +47,10 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
         .read_to_end(&mut buffer)
         .await?;
 
+    if buffer.len() != default_end_len {
+        return Err(Error::oos("The file is shorter than its size"));
+    }
+
     // check this is indeed a parquet file
     if buffer[default_end_len - 4..] != PARQUET_MAGIC {
         return Err(Error::oos("Invalid Parquet file. Corrupt footer"));
@@ -77,6 +81,10 @@ pub async fn read_metadata<R: AsyncRead + AsyncSeek + Send + std::marker::Unpin>
             .read_to_end(&mut buffer)
             .await?;
 
+        if buffer.len() as u64 != footer_len {
+            return Err(Error::oos("The file is shorter than its size"));
+        }
+
         &buffer
     };
 
-- 
2.43.0


From 71217364956fcc4039dce73872160056c0cdfb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:27 +0000
Subject: [PATCH 49/72] fix: a bloom filter that ends before its length lost
 values

---
 src/bloom_filter/read.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index 21f05d9..d45e3e9 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -45,5 +45,9 @@ pub fn read<R: Read + Seek>(
     bitset.try_reserve(length)?;
     reader.by_ref().take(length as u64).read_to_end(bitset)?;
 
+    if bitset.len() != length {
+        return Err(Error::oos("The bloom filter is shorter than its length"));
+    }
+
     Ok(())
 }
-- 
2.43.0


From 4d7039b7cca4401d4c49ee6249033acc1f80858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:27 +0000
Subject: [PATCH 50/72] fix: reading a bloom filter allocated its declared
 length before it was read

---
 src/bloom_filter/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bloom_filter/read.rs b/src/bloom_filter/read.rs
index d45e3e9..94eeb85 100644
--- a/src/bloom_filter/read.rs
+++ b/src/bloom_filter/read.rs
@@ -27,7 +27,7 @@ pub fn read<R: Read + Seek>(
     reader.seek(SeekFrom::Start(offset))?;
 
     // deserialize header
-    let mut prot = TCompactInputProtocol::new(&mut reader, usize::MAX); // max is ok since `BloomFilterHeader` never allocates
+    let mut prot = TCompactInputProtocol::new(&mut reader, 1024); // the fields of `BloomFilterHeader` never allocate
     let header = BloomFilterHeader::read_from_in_protocol(&mut prot)?;
 
     if header.algorithm != BloomFilterAlgorithm::BLOCK(SplitBlockAlgorithm {}) {
@@ -41,8 +41,8 @@ pub fn read<R: Read + Seek>(
 
     let length: usize = header.num_bytes.try_into()?;
 
+    // (grows with what is read since `length` may be larger than the source)
     bitset.clear();
-    bitset.try_reserve(length)?;
     reader.by_ref().take(length as u64).read_to_end(bitset)?;
 
     if bitset.len() != length {
-- 
2.43.0


From a552e4b3225f57c932d5e02b2ea72ba7d4c6ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:27 +0000
Subject: [PATCH 51/72] fix: using the empty bloom filter of a column without
 filter panicked

---
 src/bloom_filter/split_block.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bloom_filter/split_block.rs b/src/bloom_filter/split_block.rs
index 576f4d5..3148a80 100644
--- a/src/bloom_filter/split_block.rs
+++ b/src/bloom_filter/split_block.rs
@@ -49,6 +49,10 @@ fn unload_block(block: [u32; 8], bitset: &mut [u8]) {
 
 /// Returns whether the `hash` is in the set
 pub fn is_in_set(bitset: &[u8], hash: u64) -> bool {
+    if bitset.len() < 32 {
+        // a filter without blocks (e.g. of a column without filter) excludes nothing
+        return true;
+    }
     let block_index = hash_to_block_index(hash, bitset.len());
     let key = hash as u32;
 
@@ -66,6 +70,10 @@ pub fn is_in_set(bitset: &[u8], hash: u64) -> bool {
 
 /// Inserts a new hash to the set
 pub fn insert(bitset: &mut [u8], hash: u64) {
+    if bitset.len() < 32 {
+        // a filter without blocks holds nothing
+        return;
+    }
     let block_index = hash_to_block_index(hash, bitset.len());
     let key = hash as u32;
 
-- 
2.43.0


From 46955961d27232ca3995707ddf5918bea76a2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:28 +0000
Subject: [PATCH 52/72] fix: a deeply nested schema overflowed the stack

---
 src/schema/io_thrift/from_thrift.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/schema/io_thrift/from_thrift.rs b/src/schema/io_thrift/from_thrift.rs
index 6458aa3..6134e99 100644
--- a/src/schema/io_thrift/from_thrift.rs
+++ b/src/schema/io_thrift/from_thrift.rs
@@ -7,13 +7,16 @@ use crate::{
 
 use super::super::types::ParquetType;
 
+/// The maximum nesting of a schema, since types are built (and dropped) recursively
+const MAX_DEPTH: usize = 128;
+
 impl ParquetType {
     /// Method to convert from Thrift.
     pub fn try_from_thrift(elements: &[SchemaElement]) -> Result<ParquetType> {
         let mut index = 0;
         let mut schema_nodes = Vec::new();
         while index < elements.len() {
-            let t = from_thrift_helper(elements, index)?;
+            let t = from_thrift_helper(elements, index, 0)?;
             index = t.0;
             schema_nodes.push(t.1);
         }
@@ -32,7 +35,17 @@ impl ParquetType {
 /// The first result is the starting index for the next Type after this one. If it is
 /// equal to `elements.len()`, then this Type is the last one.
 /// The second result is the result Type.
-fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize, ParquetType)> {
+fn from_thrift_helper(
+    elements: &[SchemaElement],
+    index: usize,
+    depth: usize,
+) -> Result<(usize, ParquetType)> {
+    if depth > MAX_DEPTH {
+        return Err(Error::oos(format!(
+            "The schema is nested by more than {} levels",
+            MAX_DEPTH
+        )));
+    }
     // Whether or not the current node is root (message type).
     // There is only one message type node in the schema tree.
     let is_root_node = index == 0;
@@ -102,7 +115,7 @@ fn from_thrift_helper(elements: &[SchemaElement], index: usize) -> Result<(usize
             let mut fields = vec![];
             let mut next_index = index + 1;
             for _ in 0..n {
-                let child_result = from_thrift_helper(elements, next_index)?;
+                let child_result = from_thrift_helper(elements, next_index, depth + 1)?;
                 next_index = child_result.0;
                 fields.push(child_result.1);
             }
-- 
2.43.0


From 74b8ddd323d9aed69ecfcbdb0281de36cfcf95e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:28 +0000
Subject: [PATCH 53/72] fix: column chunks with negative counts or sizes were
 accepted

---
 src/metadata/column_chunk_metadata.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metadata/column_chunk_metadata.rs b/src/metadata/column_chunk_metadata.rs
index e92c90b..1a7ea41 100644
--- a/src/metadata/column_chunk_metadata.rs
+++ b/src/metadata/column_chunk_metadata.rs
@@ -185,6 +185,8 @@ impl ColumnChunkMetaData {
         // validate metadata
         if let Some(meta) = &column_chunk.meta_data {
             let _: u64 = meta.total_compressed_size.try_into()?;
+            let _: u64 = meta.total_uncompressed_size.try_into()?;
+            let _: u64 = meta.num_values.try_into()?;
 
             if let Some(offset) = meta.dictionary_page_offset {
                 let _: u64 = offset.try_into()?;
-- 
2.43.0


From 6315613418aa18fac0e1937c44724cf939cda0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:28 +0000
Subject: [PATCH 54/72] fix: column chunks of another physical type than the
 schema were accepted

---
 src/metadata/column_chunk_metadata.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metadata/column_chunk_metadata.rs b/src/metadata/column_chunk_metadata.rs
index 1a7ea41..0503876 100644
--- a/src/metadata/column_chunk_metadata.rs
+++ b/src/metadata/column_chunk_metadata.rs
@@ -194,6 +194,13 @@ impl ColumnChunkMetaData {
             let _: u64 = meta.data_page_offset.try_into()?;
 
             let _: Compression = meta.codec.try_into()?;
+
+            let (type_, _) = column_descr.descriptor.primitive_type.physical_type.into();
+            if meta.type_ != type_ {
+                return Err(Error::oos(
+                    "The physical type of a column chunk must be the one in the schema",
+                ));
+            }
         } else {
             return Err(Error::oos("Column chunk requires metdata"));
         }
-- 
2.43.0


From a6fafff6ae46b6492c77804d33c3863eebdf2e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:28 +0000
Subject: [PATCH 55/72] fix: decompressing a page with large level sizes
 overflowed

---
 src/read/compression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/read/compression.rs b/src/read/compression.rs
index 4ebf27f..c10aafa 100644
--- a/src/read/compression.rs
+++ b/src/read/compression.rs
@@ -24,8 +24,9 @@ fn decompress_v2(
     //
     // We always use 0 offset for other pages other than v2, `true` flag means
     // that compression will be applied if decompressor is defined
-    let offset = (page_header.definition_levels_byte_length
-        + page_header.repetition_levels_byte_length) as usize;
+    let def_level_size: usize = page_header.definition_levels_byte_length.try_into()?;
+    let rep_level_size: usize = page_header.repetition_levels_byte_length.try_into()?;
+    let offset = def_level_size + rep_level_size;
     // When is_compressed flag is missing the page is considered compressed
     let can_decompress = page_header.is_compressed.unwrap_or(true);
 
-- 
2.43.0


From 9cbae3c10e99b6393e7505e697811d4198366fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:29 +0000
Subject: [PATCH 56/72] fix: compressing a page whose levels do not fit it
 panicked

---
 src/write/compression.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index d8ead08..6744c0d 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -26,10 +26,13 @@ fn compress_data(
                 compression::compress(compression, &buffer, &mut compressed_buffer)?;
             }
             DataPageHeader::V2(header) => {
-                let levels_byte_length = (header.repetition_levels_byte_length
-                    + header.definition_levels_byte_length)
-                    as usize;
-                compressed_buffer.extend_from_slice(&buffer[..levels_byte_length]);
+                let rep_level_size: usize = header.repetition_levels_byte_length.try_into()?;
+                let def_level_size: usize = header.definition_levels_byte_length.try_into()?;
+                let levels_byte_length = rep_level_size + def_level_size;
+                let levels = buffer.get(..levels_byte_length).ok_or_else(|| {
+                    Error::oos("The levels of a page must not be larger than the page")
+                })?;
+                compressed_buffer.extend_from_slice(levels);
                 compression::compress(
                     compression,
                     &buffer[levels_byte_length..],
-- 
2.43.0


From 40a2ad21a471fe1a473e2f93fb14881f2a551399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:29 +0000
Subject: [PATCH 57/72] fix: compressing a page read as uncompressed left it
 declared as uncompressed

---
 src/write/compression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index 6744c0d..8a5ce43 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -15,13 +15,13 @@ fn compress_data(
 ) -> Result<CompressedDataPage> {
     let DataPage {
         mut buffer,
-        header,
+        mut header,
         descriptor,
         selected_rows,
     } = page;
     let uncompressed_page_size = buffer.len();
     if compression != CompressionOptions::Uncompressed {
-        match &header {
+        match &mut header {
             DataPageHeader::V1(_) => {
                 compression::compress(compression, &buffer, &mut compressed_buffer)?;
             }
@@ -38,6 +38,7 @@ fn compress_data(
                     &buffer[levels_byte_length..],
                     &mut compressed_buffer,
                 )?;
+                header.is_compressed = Some(true);
             }
         };
     } else {
-- 
2.43.0


From 3b2bcd0d313285843e428782d43e2d603373a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:35 +0000
Subject: [PATCH 58/72] fix: damaged data that decompresses to fewer bytes left
 stale bytes in the output

---
 src/compression.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index bd7fd81..d24ae22 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -162,7 +162,7 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             use snap::raw::{decompress_len, Decoder};
 
             let len = decompress_len(input_buf)?;
-            if len > output_buf.len() {
+            if len != output_buf.len() {
                 return Err(Error::OutOfSpec(String::from("snappy header out of spec")));
             }
             Decoder::new()
@@ -176,15 +176,9 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
             "decompress with snappy".to_string(),
         )),
         #[cfg(all(feature = "lz4_flex", not(feature = "lz4")))]
-        Compression::Lz4Raw => lz4_flex::block::decompress_into(input_buf, output_buf)
-            .map(|_| {})
-            .map_err(|e| e.into()),
+        Compression::Lz4Raw => lz4_decompress_exact(input_buf, output_buf),
         #[cfg(feature = "lz4")]
-        Compression::Lz4Raw => {
-            lz4::block::decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
-                .map_err(|e| e.into())
-        }
+        Compression::Lz4Raw => lz4_decompress_exact(input_buf, output_buf),
         #[cfg(all(not(feature = "lz4"), not(feature = "lz4_flex")))]
         Compression::Lz4Raw => Err(Error::FeatureNotActive(
             crate::error::Feature::Lz4,
@@ -192,10 +186,8 @@ pub fn decompress(compression: Compression, input_buf: &[u8], output_buf: &mut [
         )),
 
         #[cfg(any(feature = "lz4_flex", feature = "lz4"))]
-        Compression::Lz4 => try_decompress_hadoop(input_buf, output_buf).or_else(|_| {
-            lz4_decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)
-                .map(|_| {})
-        }),
+        Compression::Lz4 => try_decompress_hadoop(input_buf, output_buf)
+            .or_else(|_| lz4_decompress_exact(input_buf, output_buf)),
 
         #[cfg(all(not(feature = "lz4_flex"), not(feature = "lz4")))]
         Compression::Lz4 => Err(Error::FeatureNotActive(
@@ -279,13 +271,23 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
             break;
         }
     }
-    if input_len == 0 {
+    if input_len == 0 && output_len == 0 {
         Ok(())
     } else {
         Err(Error::oos("Not all input are consumed"))
     }
 }
 
+/// Decompresses to exactly the length of `output_buf`
+#[cfg(any(feature = "lz4", feature = "lz4_flex"))]
+fn lz4_decompress_exact(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()> {
+    let size = lz4_decompress_to_buffer(input_buf, Some(output_buf.len() as i32), output_buf)?;
+    if size != output_buf.len() {
+        return Err(Error::oos("unexpected decompressed size"));
+    }
+    Ok(())
+}
+
 #[cfg(all(feature = "lz4", not(feature = "lz4_flex")))]
 #[inline]
 fn lz4_decompress_to_buffer(
-- 
2.43.0


From 4e3c4d2d807ea915527f8a95d84eaaceece1e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:35 +0000
Subject: [PATCH 59/72] fix: the last frames of a column compressed with the
 Hadoop codec were refused

---
 src/compression.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/compression.rs b/src/compression.rs
index d24ae22..1b83053 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -264,12 +264,8 @@ fn try_decompress_hadoop(input_buf: &[u8], output_buf: &mut [u8]) -> Result<()>
         }
         input_len -= expected_compressed_size as usize;
         output_len -= expected_decompressed_size as usize;
-        if input_len > expected_compressed_size as usize {
-            input = &input[expected_compressed_size as usize..];
-            output = &mut output[expected_decompressed_size as usize..];
-        } else {
-            break;
-        }
+        input = &input[expected_compressed_size as usize..];
+        output = &mut output[expected_decompressed_size as usize..];
     }
     if input_len == 0 && output_len == 0 {
         Ok(())
-- 
2.43.0


From 00c007a5da591e4a6a6139bd3baf596c3262ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 60/72] fix: column indexes of many pages were refused by a
 limit below the size accounted for them

---
 src/read/indexes/deserialize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/read/indexes/deserialize.rs b/src/read/indexes/deserialize.rs
index 10addf3..edcc6eb 100644
--- a/src/read/indexes/deserialize.rs
+++ b/src/read/indexes/deserialize.rs
@@ -6,7 +6,9 @@ use crate::schema::types::{PhysicalType, PrimitiveType};
 use crate::indexes::{BooleanIndex, ByteIndex, FixedLenByteIndex, Index, NativeIndex};
 
 pub fn deserialize(data: &[u8], primitive_type: PrimitiveType) -> Result<Box<dyn Index>, Error> {
-    let mut prot = TCompactInputProtocol::new(data, data.len() * 2 + 1024);
+    // the protocol accounts 8 bytes for every item of a list, which may be stored in a single byte
+    let max_size = data.len().saturating_mul(8).saturating_add(1024);
+    let mut prot = TCompactInputProtocol::new(data, max_size);
 
     let index = ColumnIndex::read_from_in_protocol(&mut prot)?;
 
-- 
2.43.0


From c47833844ef14f413f113fbd55573d6a93dbf3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 61/72] fix: indexes of column chunks that do not follow one
 another were read from the wrong bytes

---
 src/read/indexes/read.rs | 136 ++++++++++++++-------------------------
 1 file changed, 50 insertions(+), 86 deletions(-)

diff --git a/src/read/indexes/read.rs b/src/read/indexes/read.rs
index 9962192..2cfbe1f 100644
--- a/src/read/indexes/read.rs
+++ b/src/read/indexes/read.rs
@@ -1,5 +1,5 @@
 use std::convert::TryInto;
-use std::io::{Cursor, Read, Seek, SeekFrom};
+use std::io::{Read, Seek, SeekFrom};
 
 use parquet_format_safe::ColumnChunk;
 use parquet_format_safe::{thrift::protocol::TCompactInputProtocol, OffsetIndex, PageLocation};
@@ -10,109 +10,80 @@ use crate::metadata::ColumnChunkMetaData;
 
 use super::deserialize::deserialize;
 
+/// Returns the offset and the length of the index of every column chunk
 fn prepare_read<F: Fn(&ColumnChunk) -> Option<i64>, G: Fn(&ColumnChunk) -> Option<i32>>(
     chunks: &[ColumnChunkMetaData],
     get_offset: F,
     get_length: G,
-) -> Result<(u64, Vec<usize>), Error> {
-    // c1: [start, length]
-    // ...
-    // cN: [start, length]
+) -> Result<Vec<(u64, usize)>, Error> {
+    let is_available = chunks
+        .first()
+        .map_or(false, |x| get_offset(x.column_chunk()).is_some());
+    if !is_available {
+        return Ok(vec![]);
+    }
 
-    let first_chunk = if let Some(chunk) = chunks.first() {
-        chunk
-    } else {
-        return Ok((0, vec![]));
-    };
-    let metadata = first_chunk.column_chunk();
-
-    let offset: u64 = if let Some(offset) = get_offset(metadata) {
-        offset.try_into()?
-    } else {
-        return Ok((0, vec![]));
-    };
-
-    let lengths = chunks
+    chunks
         .iter()
-        .map(|x| get_length(x.column_chunk()))
-        .map(|maybe_length| {
-            let index_length = maybe_length.ok_or_else(|| {
+        .map(|x| {
+            let offset = get_offset(x.column_chunk()).ok_or_else(|| {
+                Error::oos("The indexes of all column chunks must exist if one exists")
+            })?;
+            let length = get_length(x.column_chunk()).ok_or_else(|| {
                 Error::oos("The column length must exist if column offset exists")
             })?;
 
-            Ok(index_length.try_into()?)
+            Ok((offset.try_into()?, length.try_into()?))
         })
-        .collect::<Result<Vec<_>, Error>>()?;
+        .collect()
+}
 
-    Ok((offset, lengths))
+fn read_index<R: Read + Seek>(
+    reader: &mut R,
+    offset: u64,
+    length: usize,
+) -> Result<Vec<u8>, Error> {
+    reader.seek(SeekFrom::Start(offset))?;
+
+    // (grows with what is read since `length` may be larger than the source)
+    let mut data = vec![];
+    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
+    if data.len() != length {
+        return Err(Error::oos("The index is shorter than its length"));
+    }
+    Ok(data)
 }
 
-fn prepare_column_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
+fn prepare_column_index_read(chunks: &[ColumnChunkMetaData]) -> Result<Vec<(u64, usize)>, Error> {
     prepare_read(chunks, |x| x.column_index_offset, |x| x.column_index_length)
 }
 
-fn prepare_offset_index_read(chunks: &[ColumnChunkMetaData]) -> Result<(u64, Vec<usize>), Error> {
+fn prepare_offset_index_read(chunks: &[ColumnChunkMetaData]) -> Result<Vec<(u64, usize)>, Error> {
     prepare_read(chunks, |x| x.offset_index_offset, |x| x.offset_index_length)
 }
 
-fn deserialize_column_indexes(
-    chunks: &[ColumnChunkMetaData],
-    data: &[u8],
-    lengths: Vec<usize>,
-) -> Result<Vec<Box<dyn Index>>, Error> {
-    let mut remaining = data;
-    let data = lengths.into_iter().map(|length| {
-        if length > remaining.len() {
-            return Err(Error::oos("The column index is shorter than its length"));
-        }
-        let (r, rest) = remaining.split_at(length);
-        remaining = rest;
-        Ok(r)
-    });
-
-    chunks
-        .iter()
-        .zip(data)
-        .map(|(chunk, data)| {
-            let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
-            deserialize(data?, primitive_type)
-        })
-        .collect()
-}
-
 /// Reads the column indexes of all [`ColumnChunkMetaData`] and deserializes them into [`Index`].
 /// Returns an empty vector if indexes are not available
 pub fn read_columns_indexes<R: Read + Seek>(
     reader: &mut R,
     chunks: &[ColumnChunkMetaData],
 ) -> Result<Vec<Box<dyn Index>>, Error> {
-    let (offset, lengths) = prepare_column_index_read(chunks)?;
-
-    let length = lengths.iter().sum::<usize>();
-
-    reader.seek(SeekFrom::Start(offset))?;
-
-    // (grows with what is read since `length` may be larger than the source)
-    let mut data = vec![];
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
-
-    deserialize_column_indexes(chunks, &data, lengths)
+    prepare_column_index_read(chunks)?
+        .into_iter()
+        .zip(chunks)
+        .map(|((offset, length), chunk)| {
+            let data = read_index(reader, offset, length)?;
+            let primitive_type = chunk.descriptor().descriptor.primitive_type.clone();
+            deserialize(&data, primitive_type)
+        })
+        .collect()
 }
 
-fn deserialize_page_locations(
-    data: &[u8],
-    column_number: usize,
-) -> Result<Vec<Vec<PageLocation>>, Error> {
+fn deserialize_page_locations(data: &[u8]) -> Result<Vec<PageLocation>, Error> {
     let len = data.len() * 2 + 1024;
-    let mut reader = Cursor::new(data);
+    let mut prot = TCompactInputProtocol::new(data, len);
 
-    (0..column_number)
-        .map(|_| {
-            let mut prot = TCompactInputProtocol::new(&mut reader, len);
-            let offset = OffsetIndex::read_from_in_protocol(&mut prot)?;
-            Ok(offset.page_locations)
-        })
-        .collect()
+    Ok(OffsetIndex::read_from_in_protocol(&mut prot)?.page_locations)
 }
 
 /// Read [`PageLocation`]s from the [`ColumnChunkMetaData`]s.
@@ -121,15 +92,8 @@ pub fn read_pages_locations<R: Read + Seek>(
     reader: &mut R,
     chunks: &[ColumnChunkMetaData],
 ) -> Result<Vec<Vec<PageLocation>>, Error> {
-    let (offset, lengths) = prepare_offset_index_read(chunks)?;
-
-    let length = lengths.iter().sum::<usize>();
-
-    reader.seek(SeekFrom::Start(offset))?;
-
-    // (grows with what is read since `length` may be larger than the source)
-    let mut data = vec![];
-    reader.by_ref().take(length as u64).read_to_end(&mut data)?;
-
-    deserialize_page_locations(&data, chunks.len())
+    prepare_offset_index_read(chunks)?
+        .into_iter()
+        .map(|(offset, length)| deserialize_page_locations(&read_index(reader, offset, length)?))
+        .collect()
 }
-- 
2.43.0


From fbe34c44d510e824c522fc49ae2715445007843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:51 +0000
Subject: [PATCH 62/72] fix: pre-read column chunks were returned in reverse
 order

---
 src/read/column/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index b5bc44c..8293fd9 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -135,8 +135,9 @@ impl ReadColumnIterator {
     /// Returns a new [`ReadColumnIterator`]
     pub fn new(
         field: ParquetType,
-        chunks: Vec<(Vec<Result<CompressedPage, Error>>, ColumnChunkMetaData)>,
+        mut chunks: Vec<(Vec<Result<CompressedPage, Error>>, ColumnChunkMetaData)>,
     ) -> Self {
+        chunks.reverse();
         Self {
             field,
             chunks,
-- 
2.43.0


From c822d52f5240603c5448d7dc790270efa602e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:52 +0000
Subject: [PATCH 63/72] fix: column chunks cut short by the end of the source
 were read without an error

---
 src/read/column/mod.rs    | 8 +++++++-
 src/read/column/stream.rs | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/read/column/mod.rs b/src/read/column/mod.rs
index 8293fd9..a1934d6 100644
--- a/src/read/column/mod.rs
+++ b/src/read/column/mod.rs
@@ -188,6 +188,8 @@ pub fn read_columns<'a, R: Read + Seek>(
 
 /// Reads a column chunk into memory
 /// This operation is IO-bounded and allocates the column's `compressed_size`.
+/// # Errors
+/// This function errors if the source is shorter than the column chunk.
 pub fn read_column<R>(reader: &mut R, column: &ColumnChunkMetaData) -> Result<Vec<u8>, Error>
 where
     R: Read + Seek,
@@ -195,9 +197,13 @@ where
     let (start, length) = column.byte_range();
     reader.seek(std::io::SeekFrom::Start(start))?;
 
+    // (grows with what is read since `length` may be larger than the source)
     let mut chunk = vec![];
-    chunk.try_reserve(length as usize)?;
     reader.by_ref().take(length).read_to_end(&mut chunk)?;
+
+    if chunk.len() as u64 != length {
+        return Err(Error::oos("The source is shorter than the column chunk"));
+    }
     Ok(chunk)
 }
 
diff --git a/src/read/column/stream.rs b/src/read/column/stream.rs
index d8419e7..3d7910a 100644
--- a/src/read/column/stream.rs
+++ b/src/read/column/stream.rs
@@ -18,9 +18,13 @@ where
     let (start, length) = meta.byte_range();
     reader.seek(std::io::SeekFrom::Start(start)).await?;
 
+    // (grows with what is read since `length` may be larger than the source)
     let mut chunk = vec![];
-    chunk.try_reserve(length as usize)?;
     reader.take(length as u64).read_to_end(&mut chunk).await?;
+
+    if chunk.len() as u64 != length {
+        return Err(Error::oos("The source is shorter than the column chunk"));
+    }
     Result::Ok(chunk)
 }
 
-- 
2.43.0


From cdcd41b6f1b4108ece04a5aa3b17c6a4a0fe0ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:52 +0000
Subject: [PATCH 64/72] fix: the schema text of an interval was refused

---
 src/schema/io_message/from_message.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 3434932..a984100 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -66,7 +66,6 @@ fn is_logical_type(s: &str) -> bool {
             | "BSON"
             | "UUID"
             | "UNKNOWN"
-            | "INTERVAL"
     )
 }
 
@@ -611,7 +610,6 @@ impl<'a> Parser<'a> {
             "BSON" => PrimitiveLogicalType::Bson,
             "UUID" => PrimitiveLogicalType::Uuid,
             "UNKNOWN" => PrimitiveLogicalType::Unknown,
-            "INTERVAL" => return Err(Error::oos("Interval logical type not yet supported")),
             _ => unreachable!(),
         })
     }
-- 
2.43.0


From 5685b4230062e9d8670ccb283f61abb5d217eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:52 +0000
Subject: [PATCH 65/72] fix: schema texts of integers of unknown widths were
 read as of 32 bits

---
 src/schema/io_message/from_message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index a984100..c863a51 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -603,6 +603,9 @@ impl<'a> Parser<'a> {
                     self.tokenizer.backtrack();
                     return Err(Error::oos("INTEGER requires width and sign"));
                 };
+                if !matches!(bit_width, 8 | 16 | 32 | 64) {
+                    return Err(Error::oos("INTEGER requires a width of 8, 16, 32 or 64"));
+                }
                 PrimitiveLogicalType::Integer((bit_width, is_signed).into())
             }
             "STRING" => PrimitiveLogicalType::String,
-- 
2.43.0


From 617e655c01129d37f94e0278412749ddd7df35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:52 +0000
Subject: [PATCH 66/72] fix: invalid field ids in schema texts were dropped

---
 src/schema/io_message/from_message.rs | 29 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index c863a51..4127751 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -338,6 +338,21 @@ impl<'a> Parser<'a> {
         }
     }
 
+    // Parses the optional id of a field
+    fn parse_id(&mut self) -> Result<Option<i32>> {
+        if let Some("=") = self.tokenizer.next() {
+            parse_i32(
+                self.tokenizer.next(),
+                "Expected field id, found None",
+                "Failed to parse field id",
+            )
+            .map(Some)
+        } else {
+            self.tokenizer.backtrack();
+            Ok(None)
+        }
+    }
+
     fn add_group_type(&mut self, repetition: Repetition) -> Result<ParquetType> {
         // Parse name of the group type
         let name = self
@@ -360,12 +375,7 @@ impl<'a> Parser<'a> {
         };
 
         // Parse optional id
-        let id = if let Some("=") = self.tokenizer.next() {
-            self.tokenizer.next().and_then(|v| v.parse::<i32>().ok())
-        } else {
-            self.tokenizer.backtrack();
-            None
-        };
+        let id = self.parse_id()?;
 
         let fields = self.parse_child_types()?;
 
@@ -445,12 +455,7 @@ impl<'a> Parser<'a> {
         };
 
         // Parse optional id
-        let id = if let Some("=") = self.tokenizer.next() {
-            self.tokenizer.next().and_then(|v| v.parse::<i32>().ok())
-        } else {
-            self.tokenizer.backtrack();
-            None
-        };
+        let id = self.parse_id()?;
         assert_token(self.tokenizer.next(), ";")?;
 
         ParquetType::try_from_primitive(
-- 
2.43.0


From 44857ce0b77373805d54b66262529b207dfc0c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:53 +0000
Subject: [PATCH 67/72] fix: schema texts that end early or continue after the
 message were accepted

---
 src/schema/io_message/from_message.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 4127751..35369a8 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -298,6 +298,12 @@ impl<'a> Parser<'a> {
                     .next()
                     .ok_or_else(|| Error::oos("Expected name, found None"))?;
                 let fields = self.parse_child_types()?;
+                if let Some(token) = self.tokenizer.next() {
+                    return Err(Error::oos(format!(
+                        "Expected the end of the message, found token '{}'",
+                        token
+                    )));
+                }
                 Ok(ParquetType::new_root(name.to_string(), fields))
             }
             _ => Err(Error::oos("Message type does not start with 'message'")),
@@ -311,13 +317,13 @@ impl<'a> Parser<'a> {
         let mut vec = Vec::new();
         while let Some(value) = self.tokenizer.next() {
             if value == "}" {
-                break;
+                return Ok(vec);
             } else {
                 self.tokenizer.backtrack();
                 vec.push(self.add_type()?);
             }
         }
-        Ok(vec)
+        Err(Error::oos("Expected '}', but no token found (None)"))
     }
 
     fn add_type(&mut self) -> Result<ParquetType> {
-- 
2.43.0


From 197b2d86f65205fe88d359172960c9d2778f2aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:53 +0000
Subject: [PATCH 68/72] fix: schema texts without names were accepted

---
 src/schema/io_message/from_message.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 35369a8..42d49f5 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -293,10 +293,7 @@ impl<'a> Parser<'a> {
         // Check that message type starts with "message".
         match self.tokenizer.next() {
             Some("message") => {
-                let name = self
-                    .tokenizer
-                    .next()
-                    .ok_or_else(|| Error::oos("Expected name, found None"))?;
+                let name = self.parse_name()?;
                 let fields = self.parse_child_types()?;
                 if let Some(token) = self.tokenizer.next() {
                     return Err(Error::oos(format!(
@@ -344,6 +341,18 @@ impl<'a> Parser<'a> {
         }
     }
 
+    // Parses the name of a message, group or primitive type
+    fn parse_name(&mut self) -> Result<&'a str> {
+        let name = self
+            .tokenizer
+            .next()
+            .ok_or_else(|| Error::oos("Expected name, found None"))?;
+        if name.contains(Tokenizer::is_schema_delim) {
+            return Err(Error::oos(format!("Expected name, found '{}'", name)));
+        }
+        Ok(name)
+    }
+
     // Parses the optional id of a field
     fn parse_id(&mut self) -> Result<Option<i32>> {
         if let Some("=") = self.tokenizer.next() {
@@ -361,10 +370,7 @@ impl<'a> Parser<'a> {
 
     fn add_group_type(&mut self, repetition: Repetition) -> Result<ParquetType> {
         // Parse name of the group type
-        let name = self
-            .tokenizer
-            .next()
-            .ok_or_else(|| Error::oos("Expected name, found None"))?;
+        let name = self.parse_name()?;
 
         // Parse converted type if exists
         let converted_type = if let Some("(") = self.tokenizer.next() {
@@ -414,10 +420,7 @@ impl<'a> Parser<'a> {
         };
 
         // Parse name of the primitive type
-        let name = self
-            .tokenizer
-            .next()
-            .ok_or_else(|| Error::oos("Expected name, found None"))?;
+        let name = self.parse_name()?;
 
         // Parse logical types
         let (converted_type, logical_type) = if let Some("(") = self.tokenizer.next() {
-- 
2.43.0


From 35fb70fcde563c3d53426606be0c4322e2daeff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:53 +0000
Subject: [PATCH 69/72] fix: overflow of the compressed size of a row group
 read from a file

---
 src/metadata/row_metadata.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metadata/row_metadata.rs b/src/metadata/row_metadata.rs
index 707820d..fb417df 100644
--- a/src/metadata/row_metadata.rs
+++ b/src/metadata/row_metadata.rs
@@ -73,6 +73,11 @@ impl RowGroupMetaData {
             })
             .collect::<Result<Vec<_>>>()?;
 
+        columns
+            .iter()
+            .try_fold(0i64, |size, x| size.checked_add(x.compressed_size()))
+            .ok_or_else(|| Error::oos("The size of a row group must fit in 64 bits"))?;
+
         Ok(RowGroupMetaData {
             columns,
             num_rows,
-- 
2.43.0


From 07e228a11ff06b912ddf196d6cfaf592369622bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 70/72] fix: stack overflow on deeply nested schema texts

---
 src/schema/io_message/from_message.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/schema/io_message/from_message.rs b/src/schema/io_message/from_message.rs
index 42d49f5..30f672e 100644
--- a/src/schema/io_message/from_message.rs
+++ b/src/schema/io_message/from_message.rs
@@ -50,6 +50,9 @@ use super::super::*;
 use crate::error::{Error, Result};
 use crate::schema::types::{GroupConvertedType, PrimitiveConvertedType};
 
+/// The maximum nesting of a schema, since types are built (and dropped) recursively
+const MAX_DEPTH: usize = 128;
+
 fn is_logical_type(s: &str) -> bool {
     matches!(
         s,
@@ -294,7 +297,7 @@ impl<'a> Parser<'a> {
         match self.tokenizer.next() {
             Some("message") => {
                 let name = self.parse_name()?;
-                let fields = self.parse_child_types()?;
+                let fields = self.parse_child_types(0)?;
                 if let Some(token) = self.tokenizer.next() {
                     return Err(Error::oos(format!(
                         "Expected the end of the message, found token '{}'",
@@ -309,7 +312,13 @@ impl<'a> Parser<'a> {
 
     // Parses child types for a current group type.
     // This is only invoked on root and group types.
-    fn parse_child_types(&mut self) -> Result<Vec<ParquetType>> {
+    fn parse_child_types(&mut self, depth: usize) -> Result<Vec<ParquetType>> {
+        if depth >= MAX_DEPTH {
+            return Err(Error::oos(format!(
+                "The schema is nested by more than {} levels",
+                MAX_DEPTH
+            )));
+        }
         assert_token(self.tokenizer.next(), "{")?;
         let mut vec = Vec::new();
         while let Some(value) = self.tokenizer.next() {
@@ -317,13 +326,13 @@ impl<'a> Parser<'a> {
                 return Ok(vec);
             } else {
                 self.tokenizer.backtrack();
-                vec.push(self.add_type()?);
+                vec.push(self.add_type(depth)?);
             }
         }
         Err(Error::oos("Expected '}', but no token found (None)"))
     }
 
-    fn add_type(&mut self) -> Result<ParquetType> {
+    fn add_type(&mut self, depth: usize) -> Result<ParquetType> {
         // Parse repetition
         let repetition = self
             .tokenizer
@@ -332,7 +341,9 @@ impl<'a> Parser<'a> {
             .and_then(|v| repetition_from_str(&v.to_uppercase()))?;
 
         match self.tokenizer.next() {
-            Some(group) if group.to_uppercase() == "GROUP" => self.add_group_type(repetition),
+            Some(group) if group.to_uppercase() == "GROUP" => {
+                self.add_group_type(repetition, depth)
+            }
             Some(type_string) => {
                 let physical_type = type_from_str(&type_string.to_uppercase())?;
                 self.add_primitive_type(repetition, physical_type)
@@ -368,7 +379,7 @@ impl<'a> Parser<'a> {
         }
     }
 
-    fn add_group_type(&mut self, repetition: Repetition) -> Result<ParquetType> {
+    fn add_group_type(&mut self, repetition: Repetition, depth: usize) -> Result<ParquetType> {
         // Parse name of the group type
         let name = self.parse_name()?;
 
@@ -389,7 +400,7 @@ impl<'a> Parser<'a> {
         // Parse optional id
         let id = self.parse_id()?;
 
-        let fields = self.parse_child_types()?;
+        let fields = self.parse_child_types(depth + 1)?;
 
         Ok(ParquetType::from_converted(
             name.to_string(),
-- 
2.43.0


From fc8c8376822fc407174d44709d1fd042c77bb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:08 +0000
Subject: [PATCH 71/72] fix: bytes lost in thrift structures when the sink
 accepts nothing or is interrupted

---
 src/write/column_chunk.rs  | 32 +++++++++++++++++---------------
 src/write/file.rs          | 14 +++++++++++---
 src/write/indexes/write.rs | 29 ++++++++++++++++++-----------
 src/write/page.rs          | 23 +++++++++++++++--------
 src/write/stream.rs        | 11 ++++++-----
 5 files changed, 67 insertions(+), 42 deletions(-)

diff --git a/src/write/column_chunk.rs b/src/write/column_chunk.rs
index a28620f..ef78d8f 100644
--- a/src/write/column_chunk.rs
+++ b/src/write/column_chunk.rs
@@ -5,9 +5,7 @@ use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
 use parquet_format_safe::{ColumnChunk, ColumnMetaData, Type};
 
 #[cfg(feature = "async")]
-use futures::AsyncWrite;
-#[cfg(feature = "async")]
-use parquet_format_safe::thrift::protocol::TCompactOutputStreamProtocol;
+use futures::{AsyncWrite, AsyncWriteExt};
 
 use crate::statistics::{serialize_statistics, ParquetStatistics};
 use crate::FallibleStreamingIterator;
@@ -52,12 +50,9 @@ where
     let column_chunk = build_column_chunk(&specs, descriptor)?;
 
     // write metadata
-    let mut protocol = TCompactOutputProtocol::new(writer);
-    bytes_written += column_chunk
-        .meta_data
-        .as_ref()
-        .unwrap()
-        .write_to_out_protocol(&mut protocol)? as u64;
+    let metadata = serialize_metadata(&column_chunk)?;
+    writer.write_all(&metadata)?;
+    bytes_written += metadata.len() as u64;
 
     Ok((column_chunk, specs, bytes_written))
 }
@@ -88,15 +83,22 @@ where
     let column_chunk = build_column_chunk(&specs, descriptor)?;
 
     // write metadata
-    let mut protocol = TCompactOutputStreamProtocol::new(writer);
-    bytes_written += column_chunk
+    let metadata = serialize_metadata(&column_chunk)?;
+    writer.write_all(&metadata).await?;
+    bytes_written += metadata.len() as u64;
+
+    Ok((column_chunk, specs, bytes_written))
+}
+
+// serialized before it is written since the protocol ignores writes that are not complete
+fn serialize_metadata(column_chunk: &ColumnChunk) -> Result<Vec<u8>> {
+    let mut buffer = vec![];
+    column_chunk
         .meta_data
         .as_ref()
         .unwrap()
-        .write_to_out_stream_protocol(&mut protocol)
-        .await? as u64;
-
-    Ok((column_chunk, specs, bytes_written))
+        .write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut buffer))?;
+    Ok(buffer)
 }
 
 /// Returns the statistics of the column chunk, when they are known for all its pages
diff --git a/src/write/file.rs b/src/write/file.rs
index a76331a..354deb7 100644
--- a/src/write/file.rs
+++ b/src/write/file.rs
@@ -22,10 +22,18 @@ pub(super) fn start_file<W: Write>(writer: &mut W) -> Result<u64> {
     Ok(PARQUET_MAGIC.len() as u64)
 }
 
-pub(super) fn end_file<W: Write>(mut writer: &mut W, metadata: &ThriftFileMetaData) -> Result<u64> {
+// serialized before it is written since the protocol ignores writes that are not complete
+pub(super) fn serialize_metadata(metadata: &ThriftFileMetaData) -> Result<Vec<u8>> {
+    let mut buffer = vec![];
+    metadata.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut buffer))?;
+    Ok(buffer)
+}
+
+pub(super) fn end_file<W: Write>(writer: &mut W, metadata: &ThriftFileMetaData) -> Result<u64> {
     // Write metadata
-    let mut protocol = TCompactOutputProtocol::new(&mut writer);
-    let metadata_len = metadata.write_to_out_protocol(&mut protocol)? as i32;
+    let metadata = serialize_metadata(metadata)?;
+    writer.write_all(&metadata)?;
+    let metadata_len = metadata.len() as i32;
 
     // Write footer
     let metadata_bytes = metadata_len.to_le_bytes();
diff --git a/src/write/indexes/write.rs b/src/write/indexes/write.rs
index 3bc3c67..4400385 100644
--- a/src/write/indexes/write.rs
+++ b/src/write/indexes/write.rs
@@ -1,9 +1,7 @@
 use std::io::Write;
 
 #[cfg(feature = "async")]
-use futures::AsyncWrite;
-#[cfg(feature = "async")]
-use parquet_format_safe::thrift::protocol::TCompactOutputStreamProtocol;
+use futures::{AsyncWrite, AsyncWriteExt};
 
 use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
 
@@ -16,8 +14,11 @@ use super::serialize::{serialize_column_index, serialize_offset_index};
 
 pub fn write_column_index<W: Write>(writer: &mut W, pages: &[PageWriteSpec]) -> Result<u64> {
     let index = serialize_column_index(pages)?;
-    let mut protocol = TCompactOutputProtocol::new(writer);
-    Ok(index.write_to_out_protocol(&mut protocol)? as u64)
+    let mut buffer = vec![];
+    index.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut buffer))?;
+    // (written at once since the protocol ignores writes that are not complete)
+    writer.write_all(&buffer)?;
+    Ok(buffer.len() as u64)
 }
 
 #[cfg(feature = "async")]
@@ -27,14 +28,18 @@ pub async fn write_column_index_async<W: AsyncWrite + Unpin + Send>(
     pages: &[PageWriteSpec],
 ) -> Result<u64> {
     let index = serialize_column_index(pages)?;
-    let mut protocol = TCompactOutputStreamProtocol::new(writer);
-    Ok(index.write_to_out_stream_protocol(&mut protocol).await? as u64)
+    let mut buffer = vec![];
+    index.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut buffer))?;
+    writer.write_all(&buffer).await?;
+    Ok(buffer.len() as u64)
 }
 
 pub fn write_offset_index<W: Write>(writer: &mut W, pages: &[PageWriteSpec]) -> Result<u64> {
     let index = serialize_offset_index(pages)?;
-    let mut protocol = TCompactOutputProtocol::new(&mut *writer);
-    Ok(index.write_to_out_protocol(&mut protocol)? as u64)
+    let mut buffer = vec![];
+    index.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut buffer))?;
+    writer.write_all(&buffer)?;
+    Ok(buffer.len() as u64)
 }
 
 #[cfg(feature = "async")]
@@ -44,6 +49,8 @@ pub async fn write_offset_index_async<W: AsyncWrite + Unpin + Send>(
     pages: &[PageWriteSpec],
 ) -> Result<u64> {
     let index = serialize_offset_index(pages)?;
-    let mut protocol = TCompactOutputStreamProtocol::new(&mut *writer);
-    Ok(index.write_to_out_stream_protocol(&mut protocol).await? as u64)
+    let mut buffer = vec![];
+    index.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut buffer))?;
+    writer.write_all(&buffer).await?;
+    Ok(buffer.len() as u64)
 }
diff --git a/src/write/page.rs b/src/write/page.rs
index 57640f4..e9443fa 100644
--- a/src/write/page.rs
+++ b/src/write/page.rs
@@ -4,8 +4,6 @@ use std::sync::Arc;
 
 #[cfg(feature = "async")]
 use futures::{AsyncWrite, AsyncWriteExt};
-#[cfg(feature = "async")]
-use parquet_format_safe::thrift::protocol::TCompactOutputStreamProtocol;
 
 use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
 use parquet_format_safe::{DictionaryPageHeader, Encoding, PageType};
@@ -198,20 +196,29 @@ fn assemble_dict_page_header(page: &CompressedDictPage) -> Result<ParquetPageHea
 }
 
 /// writes the page header into `writer`, returning the number of bytes used in the process.
-fn write_page_header<W: Write>(mut writer: &mut W, header: &ParquetPageHeader) -> Result<u64> {
-    let mut protocol = TCompactOutputProtocol::new(&mut writer);
-    Ok(header.write_to_out_protocol(&mut protocol)? as u64)
+fn write_page_header<W: Write>(writer: &mut W, header: &ParquetPageHeader) -> Result<u64> {
+    let buffer = serialize_page_header(header)?;
+    writer.write_all(&buffer)?;
+    Ok(buffer.len() as u64)
 }
 
 #[cfg(feature = "async")]
 #[cfg_attr(docsrs, doc(cfg(feature = "async")))]
 /// writes the page header into `writer`, returning the number of bytes used in the process.
 async fn write_page_header_async<W: AsyncWrite + Unpin + Send>(
-    mut writer: &mut W,
+    writer: &mut W,
     header: &ParquetPageHeader,
 ) -> Result<u64> {
-    let mut protocol = TCompactOutputStreamProtocol::new(&mut writer);
-    Ok(header.write_to_out_stream_protocol(&mut protocol).await? as u64)
+    let buffer = serialize_page_header(header)?;
+    writer.write_all(&buffer).await?;
+    Ok(buffer.len() as u64)
+}
+
+// serialized before it is written since the protocol ignores writes that are not complete
+fn serialize_page_header(header: &ParquetPageHeader) -> Result<Vec<u8>> {
+    let mut buffer = vec![];
+    header.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut buffer))?;
+    Ok(buffer)
 }
 
 #[cfg(test)]
diff --git a/src/write/stream.rs b/src/write/stream.rs
index 123df6b..df06b6b 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -2,7 +2,7 @@ use std::io::Write;
 
 use futures::{AsyncWrite, AsyncWriteExt};
 
-use parquet_format_safe::{thrift::protocol::TCompactOutputStreamProtocol, FileMetaData, RowGroup};
+use parquet_format_safe::{FileMetaData, RowGroup};
 
 use crate::write::indexes::{write_column_index_async, write_offset_index_async};
 use crate::write::page::PageWriteSpec;
@@ -13,7 +13,7 @@ use crate::{
     FOOTER_SIZE, PARQUET_MAGIC,
 };
 
-use super::{row_group::write_row_group_async, RowGroupIter, WriteOptions};
+use super::{file::serialize_metadata, row_group::write_row_group_async, RowGroupIter, WriteOptions};
 
 async fn start_file<W: AsyncWrite + Unpin>(writer: &mut W) -> Result<u64> {
     writer.write_all(&PARQUET_MAGIC).await?;
@@ -21,12 +21,13 @@ async fn start_file<W: AsyncWrite + Unpin>(writer: &mut W) -> Result<u64> {
 }
 
 async fn end_file<W: AsyncWrite + Unpin + Send>(
-    mut writer: &mut W,
+    writer: &mut W,
     metadata: FileMetaData,
 ) -> Result<u64> {
     // Write file metadata
-    let mut protocol = TCompactOutputStreamProtocol::new(&mut writer);
-    let metadata_len = metadata.write_to_out_stream_protocol(&mut protocol).await? as i32;
+    let metadata = serialize_metadata(&metadata)?;
+    writer.write_all(&metadata).await?;
+    let metadata_len = metadata.len() as i32;
 
     // Write footer
     let metadata_bytes = metadata_len.to_le_bytes();
-- 
2.43.0


From ac2876e0caf5371b76a83776571280891743033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:15 +0000
Subject: [PATCH 72/72] fix: bytes left in the buffer given to compress became
 part of the page

---
 src/write/compression.rs | 3 ++-
 src/write/stream.rs      | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/write/compression.rs b/src/write/compression.rs
index 8a5ce43..d3ac383 100644
--- a/src/write/compression.rs
+++ b/src/write/compression.rs
@@ -88,9 +88,10 @@ fn compress_dict(
 /// Errors if the compressor fails
 pub fn compress(
     page: Page,
-    compressed_buffer: Vec<u8>,
+    mut compressed_buffer: Vec<u8>,
     compression: CompressionOptions,
 ) -> Result<CompressedPage> {
+    compressed_buffer.clear();
     match page {
         Page::Data(page) => {
             compress_data(page, compressed_buffer, compression).map(CompressedPage::Data)
diff --git a/src/write/stream.rs b/src/write/stream.rs
index df06b6b..a200724 100644
--- a/src/write/stream.rs
+++ b/src/write/stream.rs
@@ -13,7 +13,9 @@ use crate::{
     FOOTER_SIZE, PARQUET_MAGIC,
 };
 
-use super::{file::serialize_metadata, row_group::write_row_group_async, RowGroupIter, WriteOptions};
+use super::{
+    file::serialize_metadata, row_group::write_row_group_async, RowGroupIter, WriteOptions,
+};
 
 async fn start_file<W: AsyncWrite + Unpin>(writer: &mut W) -> Result<u64> {
     writer.write_all(&PARQUET_MAGIC).await?;
-- 
2.43.0

