From 245830715b720978aded817901be5c2c47b44a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 01/49] fix: do not wrap around in slice range checks for huge
 bits/refs

---
 src/cell/slice.rs | 60 ++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index 2749882..40a03fd 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -367,14 +367,20 @@ impl CellSliceRange {
 
     /// Returns true if the slice contains at least `bits` and `refs`.
     pub const fn has_remaining(&self, bits: u16, refs: u8) -> bool {
-        self.bits_start + bits <= self.bits_end && self.refs_start + refs <= self.refs_end
+        // NOTE: Widened, since `bits` and `refs` can be arbitrarily large.
+        self.bits_start as u32 + bits as u32 <= self.bits_end as u32
+            && self.refs_start as u16 + refs as u16 <= self.refs_end as u16
+    }
+
+    /// Returns true if there are at least `bits` starting from the `offset`
+    /// (relative to the bits window).
+    const fn has_remaining_at(&self, offset: u16, bits: u16) -> bool {
+        self.bits_start as u32 + offset as u32 + bits as u32 <= self.bits_end as u32
     }
 
     /// Tries to advance the start of data and refs windows.
     pub fn skip_first(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -385,9 +391,7 @@ impl CellSliceRange {
 
     /// Leaves only the first `bits` and `refs` in the slice.
     pub fn only_first(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -398,9 +402,7 @@ impl CellSliceRange {
 
     /// Removes the last `bits` and `refs` from the slice.
     pub fn skip_last(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -411,9 +413,7 @@ impl CellSliceRange {
 
     /// Leaves only the last `bits` and `refs` in the slice.
     pub fn only_last(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -426,9 +426,7 @@ impl CellSliceRange {
     /// of data and refs windows.
     #[must_use = "use `skip_first` if you don't need the result"]
     pub fn split_prefix(&mut self, bits: u16, refs: u8) -> Result<Self, Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -443,9 +441,7 @@ impl CellSliceRange {
     /// Returns the last `bits` and `refs` of the slice and shrinks the data and refs windows.
     #[must_use = "use `skip_last` if you don't need the result"]
     pub fn split_suffix(&mut self, bits: u16, refs: u8) -> Result<Self, Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -462,9 +458,9 @@ impl CellSliceRange {
     pub fn get_prefix(&self, bits: u16, refs: u8) -> Self {
         Self {
             bits_start: self.bits_start,
-            bits_end: std::cmp::min(self.bits_start + bits, self.bits_end),
+            bits_end: std::cmp::min(self.bits_start.saturating_add(bits), self.bits_end),
             refs_start: self.refs_start,
-            refs_end: std::cmp::min(self.refs_start + refs, self.refs_end),
+            refs_end: std::cmp::min(self.refs_start.saturating_add(refs), self.refs_end),
         }
     }
 
@@ -1161,7 +1157,7 @@ impl<'a> CellSlice<'a> {
 
     /// Tries to read the bit at the specified offset (relative to the current bits window).
     pub fn get_bit(&self, offset: u16) -> Result<bool, Error> {
-        if self.range.bits_start + offset < self.range.bits_end {
+        if self.range.has_remaining_at(offset, 1) {
             let index = self.range.bits_start + offset;
             if let Some(byte) = self.cell.data().get((index / 8) as usize) {
                 return Ok((byte >> (7 - index % 8)) & 1 != 0);
@@ -1196,7 +1192,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u16` starting from the `offset`.
     pub fn get_u16(&self, offset: u16) -> Result<u16, Error> {
-        if self.range.bits_start + offset + 16 <= self.range.bits_end {
+        if self.range.has_remaining_at(offset, 16) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1246,7 +1242,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u32` starting from the `offset`.
     pub fn get_u32(&self, offset: u16) -> Result<u32, Error> {
-        if self.range.bits_start + offset + 32 <= self.range.bits_end {
+        if self.range.has_remaining_at(offset, 32) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1296,7 +1292,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u64` starting from the `offset`.
     pub fn get_u64(&self, offset: u16) -> Result<u64, Error> {
-        if self.range.bits_start + offset + 64 <= self.range.bits_end {
+        if self.range.has_remaining_at(offset, 64) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1343,7 +1339,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u128` starting from the `offset`.
     pub fn get_u128(&self, offset: u16) -> Result<u128, Error> {
-        if self.range.bits_start + offset + 128 <= self.range.bits_end {
+        if self.range.has_remaining_at(offset, 128) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1386,7 +1382,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads 32 bytes starting from the `offset`.
     pub fn get_u256(&self, offset: u16) -> Result<HashBytes, Error> {
-        if self.range.bits_start + offset + 256 <= self.range.bits_end {
+        if self.range.has_remaining_at(offset, 256) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1452,7 +1448,7 @@ impl<'a> CellSlice<'a> {
             return Ok(0);
         }
 
-        if bits <= 8 && self.range.bits_start + offset + bits <= self.range.bits_end {
+        if bits <= 8 && self.range.has_remaining_at(offset, bits) {
             let index = self.range.bits_start + offset;
 
             let r = index % 8;
@@ -1506,7 +1502,7 @@ impl<'a> CellSlice<'a> {
             return Ok(0);
         }
 
-        if bits <= 64 && self.range.bits_start + offset + bits <= self.range.bits_end {
+        if bits <= 64 && self.range.has_remaining_at(offset, bits) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1742,7 +1738,7 @@ impl<'a> CellSlice<'a> {
 
     /// Returns a reference to the Nth child cell (relative to this slice's refs window).
     pub fn get_reference(&self, index: u8) -> Result<&'a DynCell, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             if let Some(cell) = self.cell.reference(self.range.refs_start + index) {
                 return Ok(cell);
             }
@@ -1752,7 +1748,7 @@ impl<'a> CellSlice<'a> {
 
     /// Returns the Nth child cell (relative to this slice's refs window).
     pub fn get_reference_cloned(&self, index: u8) -> Result<Cell, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             if let Some(cell) = self.cell.reference_cloned(self.range.refs_start + index) {
                 return Ok(cell);
             }
@@ -1763,7 +1759,7 @@ impl<'a> CellSlice<'a> {
     /// Tries to load the specified child cell as slice.
     /// Returns an error if the loaded cell is absent or is pruned.
     pub fn get_reference_as_slice(&self, index: u8) -> Result<CellSlice<'a>, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             let Some(cell) = self.cell.reference(self.range.refs_start + index) else {
                 return Err(Error::CellUnderflow);
             };
-- 
2.43.0


From 3cd365998e323c2b40f8a7bcc07c492be15a3988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 02/49] fix: respect the offset in the bounds check of
 CellSlice::get_raw

---
 src/cell/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index 40a03fd..73b7382 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -1641,7 +1641,7 @@ impl<'a> CellSlice<'a> {
             return Ok(&mut target[..0]);
         }
 
-        if self.range.bits_start + bits <= self.range.bits_end {
+        if self.range.has_remaining_at(offset, bits) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
-- 
2.43.0


From 076482f515ebbe045f4373e20de68d90aae29935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 03/49] fix: do not wrap around in builder capacity checks for
 huge bit lengths

---
 src/cell/builder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index ca5e90d..e1f9c2c 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -412,7 +412,7 @@ impl CellBuilder {
     /// Returns true if there is enough remaining capacity to fit `bits` and `refs`.
     #[inline]
     pub const fn has_capacity(&self, bits: u16, refs: u8) -> bool {
-        self.inner.bit_len + bits <= MAX_BIT_LEN
+        self.inner.has_capacity_bits(bits)
             && self.references.len() + refs as usize <= MAX_REF_COUNT
     }
 
@@ -852,7 +852,7 @@ impl CellDataBuilder {
     /// Returns true if there is enough remaining capacity to fit `bits`.
     #[inline]
     pub const fn has_capacity_bits(&self, bits: u16) -> bool {
-        self.bit_len + bits <= MAX_BIT_LEN
+        bits <= self.spare_capacity_bits()
     }
 
     /// Clears all data bits and sets the size in bits to 0.
@@ -894,7 +894,7 @@ impl CellDataBuilder {
     /// Tries to store the specified number of zero bits in the cell,
     /// returning `false` if there is not enough remaining capacity.
     pub fn store_zeros(&mut self, bits: u16) -> Result<(), Error> {
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.has_capacity_bits(bits) {
             self.bit_len += bits;
             Ok(())
         } else {
@@ -1052,7 +1052,7 @@ impl CellDataBuilder {
             return Ok(());
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.has_capacity_bits(bits) {
             bits = if let Some(offset) = bits.checked_sub(8) {
                 self.bit_len += offset;
                 8
@@ -1095,7 +1095,7 @@ impl CellDataBuilder {
             return Ok(());
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.has_capacity_bits(bits) {
             // Store zeros if bits is greater than 64
             bits = if let Some(offset) = bits.checked_sub(64) {
                 self.bit_len += offset;
@@ -1382,7 +1382,7 @@ impl CellDataBuilder {
             store_raw(data, bit_len, value, bits)
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if self.has_capacity_bits(bits) {
             let mut data = [0; 128];
             let mut bit_len = 0;
             ok!(store_raw_impl(&mut data, &mut bit_len, value, bits));
@@ -1408,8 +1408,8 @@ fn store_raw(
     value: &[u8],
     mut bits: u16,
 ) -> Result<(), Error> {
-    if *bit_len + bits <= MAX_BIT_LEN {
-        let max_bit_len = value.len().saturating_mul(8) as u16;
+    if bits <= MAX_BIT_LEN - *bit_len {
+        let max_bit_len = value.len().saturating_mul(8).min(u16::MAX as usize) as u16;
         bits = if let Some(offset) = bits.checked_sub(max_bit_len) {
             *bit_len += offset;
             max_bit_len
-- 
2.43.0


From b70b2eb0638b3f55fc34f684b1ff763af0a8e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 04/49] fix: order of signed values iteration when all keys
 share a prefix

---
 src/dict/raw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dict/raw.rs b/src/dict/raw.rs
index d9c64c9..bd750dd 100644
--- a/src/dict/raw.rs
+++ b/src/dict/raw.rs
@@ -1325,6 +1325,7 @@ impl<'a> RawValues<'a> {
             segments.push(ValuesSegment {
                 data,
                 remaining_bit_len: bit_len,
+                prefix_is_empty: false,
             });
         }
         Self {
@@ -1405,13 +1406,14 @@ impl<'a> Iterator for RawValues<'a> {
                         let remaining_bit_len = segment.remaining_bit_len;
                         let next_bit = (refs_offset != 0)
                             ^ reverse
-                            ^ (signed && is_root && segment.data.is_data_empty());
+                            ^ (signed && is_root && segment.prefix_is_empty);
                         let data = ok!(segment.data.cell().get_reference_as_slice(next_bit as u8));
                         segment.data.skip_first(0, 1).ok();
 
                         segments.push(ValuesSegment {
                             data,
                             remaining_bit_len,
+                            prefix_is_empty: false,
                         });
                         // SAFETY: we have just added a new element
                         break unsafe { segments.last_mut().unwrap_unchecked() };
@@ -1437,6 +1439,7 @@ impl<'a> Iterator for RawValues<'a> {
                         if segment.data.size_refs() < 2 {
                             return Err(Error::CellUnderflow);
                         }
+                        segment.prefix_is_empty = prefix.is_data_empty();
                         segment.remaining_bit_len = remaining - 1;
                         // Handle next segment
                         continue;
@@ -1457,6 +1460,7 @@ impl<'a> Iterator for RawValues<'a> {
 struct ValuesSegment<'a> {
     data: CellSlice<'a>,
     remaining_bit_len: u16,
+    prefix_is_empty: bool,
 }
 
 #[cfg(test)]
-- 
2.43.0


From 080d2b4d588649220328e0abee3d48be959d32d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 05/49] fix: parent cells of values yielded by a reversed or
 signed RawOwnedValues

---
 src/dict/raw.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dict/raw.rs b/src/dict/raw.rs
index bd750dd..fe720f7 100644
--- a/src/dict/raw.rs
+++ b/src/dict/raw.rs
@@ -1265,8 +1265,15 @@ impl Iterator for RawOwnedValues<'_> {
                 let parent = match self.inner.segments.last() {
                     Some(segment) => {
                         let refs_offset = segment.data.offset_refs();
-                        debug_assert!(refs_offset > 0);
-                        match segment.data.cell().reference_cloned(refs_offset - 1) {
+                        debug_assert!(refs_offset == 1 || refs_offset == 2);
+
+                        let next_bit = (refs_offset != 1)
+                            ^ self.inner.reversed
+                            ^ (self.inner.signed
+                                && self.inner.segments.len() == 1
+                                && segment.prefix_is_empty);
+
+                        match segment.data.cell().reference_cloned(next_bit as u8) {
                             Some(cell) => cell,
                             None => return Some(Err(self.inner.finish(Error::CellUnderflow))),
                         }
-- 
2.43.0


From 08484cb7f6495c86752e28edb4e6754728e843b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 06/49] fix: merging of dictionaries whose roots differ in
 size, and errors ignored while merging

---
 src/dict/ops/split_merge.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dict/ops/split_merge.rs b/src/dict/ops/split_merge.rs
index 923ad03..9959450 100644
--- a/src/dict/ops/split_merge.rs
+++ b/src/dict/ops/split_merge.rs
@@ -151,25 +151,23 @@ pub fn dict_merge(
             *left = Some(right.clone());
             return Ok(());
         }
-        (Some(left_cell), Some(right_cell)) => {
-            let bit_len = left_cell.bit_len();
-            if bit_len != right_cell.bit_len() && bit_len != key_bit_length {
-                return Err(Error::InvalidCell); // KEY LENGTH ERROR?
-            }
+        (Some(_), Some(_)) => {
+            let mut result = left.clone();
 
             let mut right_dict_iter = RawIter::new(right, key_bit_length);
-            while let Some(Ok((key, value))) = right_dict_iter.next() {
-                let current_bit_len = key.size_bits();
-
+            while let Some(entry) = right_dict_iter.next() {
+                let (key, value) = ok!(entry);
                 dict_insert(
-                    left,
+                    &mut result,
                     &mut key.as_data_slice(),
-                    current_bit_len,
+                    key_bit_length,
                     &value,
                     SetMode::Set,
                     context,
                 )?;
             }
+
+            *left = result;
         }
     }
     Ok(())
-- 
2.43.0


From 1926226e74330714b0576c7afd4e7ca00284be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:37 +0000
Subject: [PATCH 07/49] fix: debug assertion failed when writing a BOC with CRC
 to a writer

---
 src/boc/ser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/boc/ser.rs b/src/boc/ser.rs
index 6ed6a48..a0c4e1b 100644
--- a/src/boc/ser.rs
+++ b/src/boc/ser.rs
@@ -242,7 +242,9 @@ where
         debug_assert!(chunk.is_empty());
 
         if let Some(crc) = crc {
-            ok!(writer.write_all(&crc.to_le_bytes()));
+            let crc = crc.to_le_bytes();
+            ok!(writer.write_all(&crc));
+            total_size += crc.len() as u64;
         }
 
         debug_assert_eq!(total_size, header.total_size);
-- 
2.43.0


From 887ace4684339bb9f1ea7f3a9d826f38e99f6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:01 +0000
Subject: [PATCH 08/49] fix: wrong total cells size in BOC header encoded
 without hashes

---
 src/boc/ser.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/boc/ser.rs b/src/boc/ser.rs
index a0c4e1b..55bea98 100644
--- a/src/boc/ser.rs
+++ b/src/boc/ser.rs
@@ -46,6 +46,7 @@ pub struct BocHeader<'a, S = ahash::RandomState> {
     rev_indices: HashMap<&'a HashBytes, u32, S>,
     rev_cells: Vec<&'a DynCell>,
     total_data_size: u64,
+    total_hashes_size: u64,
     reference_count: u64,
     cell_count: u32,
     without_hashes: bool,
@@ -60,6 +61,7 @@ impl<S: BuildHasher + Default> Default for BocHeader<'_, S> {
             rev_indices: Default::default(),
             rev_cells: Default::default(),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -88,6 +90,7 @@ where
             rev_indices: HashMap::with_capacity_and_hasher(capacity, S::default()),
             rev_cells: Vec::with_capacity(capacity),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -129,6 +132,7 @@ where
             },
             root_rev_indices: Default::default(),
             total_data_size: 0,
+            total_hashes_size: 0,
             reference_count: 0,
             cell_count: 0,
             without_hashes: false,
@@ -167,6 +171,7 @@ where
         self.rev_indices.clear();
         self.rev_cells.clear();
         self.total_data_size = 0;
+        self.total_hashes_size = 0;
         self.reference_count = 0;
         self.cell_count = 0;
     }
@@ -298,7 +303,14 @@ where
 
         let ref_size = number_of_bytes_to_fit(self.cell_count as u64);
 
+        let hashes_size = if self.without_hashes {
+            0
+        } else {
+            self.total_hashes_size
+        };
+
         let total_cells_size = self.total_data_size
+            + hashes_size
             + (self.cell_count as u64 * 2) // all descriptor bytes
             + (ref_size as u64 * self.reference_count);
         let offset_size = number_of_bytes_to_fit(total_cells_size);
@@ -430,7 +442,8 @@ where
         self.rev_cells.push(cell);
 
         let descriptor = cell.descriptor();
-        self.total_data_size += descriptor.byte_len_full(self.without_hashes);
+        self.total_data_size += descriptor.byte_len() as u64;
+        self.total_hashes_size += descriptor.hashes_byte_len();
         self.reference_count += descriptor.reference_count() as u64;
         self.cell_count += 1;
     }
@@ -454,7 +467,8 @@ where
                 self.rev_cells.push(cell);
 
                 let descriptor = cell.descriptor();
-                self.total_data_size += descriptor.byte_len_full(self.without_hashes);
+                self.total_data_size += descriptor.byte_len() as u64;
+                self.total_hashes_size += descriptor.hashes_byte_len();
                 self.reference_count += descriptor.reference_count() as u64;
                 self.cell_count += 1;
 
@@ -465,12 +479,13 @@ where
 }
 
 impl CellDescriptor {
-    fn byte_len_full(self, without_hashes: bool) -> u64 {
-        let mut byte_len = self.byte_len() as u64;
-        if !without_hashes && self.store_hashes() {
-            byte_len += (self.level_mask().level() + 1) as u64 * (32 + 2);
+    /// Size of the stored hashes and depths in bytes.
+    fn hashes_byte_len(self) -> u64 {
+        if self.store_hashes() {
+            (self.level_mask().level() + 1) as u64 * (32 + 2)
+        } else {
+            0
         }
-        byte_len
     }
 }
 
-- 
2.43.0


From 4bef443a676ed284c5bf23cd888fe05a4909f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 09/49] fix: VarUint248 addition of values above 128 bits, and
 MIN

---
 src/num/varuint248.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index b798eb0..b951c8f 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -20,7 +20,7 @@ impl VarUint248 {
     pub const ONE: Self = Self([1, 0]);
 
     /// The smallest value that can be represented by this integer type.
-    pub const MIN: Self = Self::new(1);
+    pub const MIN: Self = Self::new(0);
 
     /// The largest value that can be represented by this integer type.
     pub const MAX: Self = Self::from_words(u128::MAX >> 8, u128::MAX);
@@ -461,7 +461,7 @@ impl std::ops::AddAssign<&Self> for VarUint248 {
     fn add_assign(&mut self, rhs: &Self) {
         let (lo, carry) = self.low().overflowing_add(*rhs.low());
         *self.low_mut() = lo;
-        *self.high_mut() = rhs
+        *self.high_mut() = self
             .high()
             .wrapping_add(carry as _)
             .wrapping_add(*rhs.high());
-- 
2.43.0


From cdcd4d353a0f729ca0bccdbb82996556fa6a90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:34 +0000
Subject: [PATCH 10/49] fix: SplitDepth accepts only 1..=30

---
 src/num/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num/mod.rs b/src/num/mod.rs
index d71246b..6b361a9 100644
--- a/src/num/mod.rs
+++ b/src/num/mod.rs
@@ -935,8 +935,8 @@ impl SplitDepth {
     #[inline]
     pub const fn new(value: u8) -> Result<Self, Error> {
         match NonZeroU8::new(value) {
-            Some(value) => Ok(Self(value)),
-            None => Err(Error::IntOverflow),
+            Some(bits) if value <= Self::MAX.0.get() => Ok(Self(bits)),
+            _ => Err(Error::IntOverflow),
         }
     }
 
-- 
2.43.0


From 0f471f21748835172983962351b215b4fbf30495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:36 +0000
Subject: [PATCH 11/49] fix: Merkle proofs of cells shared between different
 Merkle depths

---
 src/merkle/proof.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/merkle/proof.rs b/src/merkle/proof.rs
index fdd25d9..72c2ced 100644
--- a/src/merkle/proof.rs
+++ b/src/merkle/proof.rs
@@ -440,7 +440,8 @@ where
 struct BuilderImpl<'a, 'b, 'c: 'a> {
     root: &'a DynCell,
     filter: &'b dyn MerkleFilter,
-    cells: ahash::HashMap<&'a HashBytes, Cell>,
+    /// Processed cells by the representation hash and the Merkle depth of their parent.
+    cells: ahash::HashMap<(&'a HashBytes, u8), Cell>,
     pruned_branches: Option<&'b mut ahash::HashSet<&'a HashBytes>>,
     context: &'c dyn CellContext,
     allow_different_root: bool,
@@ -478,7 +479,8 @@ impl BuilderImpl<'_, '_, '_> {
                 // Process children if they are left
 
                 let child_repr_hash = child.repr_hash();
-                let child = if let Some(child) = self.cells.get(child_repr_hash) {
+                let child_key = (child_repr_hash, last.merkle_depth);
+                let child = if let Some(child) = self.cells.get(&child_key) {
                     // Reused processed cells
                     child.clone()
                 } else {
@@ -544,7 +546,9 @@ impl BuilderImpl<'_, '_, '_> {
                 let proof_cell = ok!(builder.build_ext(self.context));
 
                 // Save this cell as processed cell
-                self.cells.insert(cell.repr_hash(), proof_cell.clone());
+                let merkle_depth = last.merkle_depth - last.descriptor.is_merkle() as u8;
+                self.cells
+                    .insert((cell.repr_hash(), merkle_depth), proof_cell.clone());
 
                 match stack.last_mut() {
                     // Append this cell to the ancestor
-- 
2.43.0


From 7edef687d838e62e9a569d3bba2c44d14e59d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:26 +0000
Subject: [PATCH 12/49] fix: regular intermediate addresses take 7 bits (#<=
 96), not 8

---
 src/models/message/envelope.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/models/message/envelope.rs b/src/models/message/envelope.rs
index 53c9316..817a93c 100644
--- a/src/models/message/envelope.rs
+++ b/src/models/message/envelope.rs
@@ -113,9 +113,8 @@ impl<'a> Load<'a> for IntermediateAddr {
 }
 
 /// Destination prefix length whithin the same workchain.
-#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Store, Load)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
-#[tlb(validate_with = "Self::is_valid")]
 pub struct IntermediateAddrRegular {
     /// Destination address prefix length in bits.
     use_dest_bits: u8,
@@ -125,6 +124,9 @@ impl IntermediateAddrRegular {
     /// Full address prefix length in bits.
     pub const FULL_BITS: u8 = 96;
 
+    /// The number of data bits that this struct occupies (`#<= 96`).
+    const BITS: u16 = 7;
+
     /// Returns whether the address prefix length is valid.
     pub const fn is_valid(&self) -> bool {
         self.use_dest_bits <= Self::FULL_BITS
@@ -153,6 +155,22 @@ impl IntermediateAddrRegular {
     }
 }
 
+impl Store for IntermediateAddrRegular {
+    fn store_into(&self, builder: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
+        if unlikely(!self.is_valid()) {
+            return Err(Error::InvalidData);
+        }
+        builder.store_small_uint(self.use_dest_bits, Self::BITS)
+    }
+}
+
+impl<'a> Load<'a> for IntermediateAddrRegular {
+    fn load_from(slice: &mut CellSlice<'a>) -> Result<Self, Error> {
+        let use_dest_bits = ok!(slice.load_small_uint(Self::BITS));
+        Self::with_dest_bits(use_dest_bits).ok_or(Error::InvalidData)
+    }
+}
+
 /// Address prefix with a basic workchain id.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Load, Store)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
-- 
2.43.0


From bfcdcf3f6ede792e26e449c4e08c6b8f81be9611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:26 +0000
Subject: [PATCH 13/49] fix: internal message info size counts its tag bit

---
 src/models/message/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/message/mod.rs b/src/models/message/mod.rs
index 81119df..631b324 100644
--- a/src/models/message/mod.rs
+++ b/src/models/message/mod.rs
@@ -877,7 +877,7 @@ impl Default for IntMsgInfo {
 impl IntMsgInfo {
     /// Returns the number of data bits that this struct occupies.
     pub const fn bit_len(&self) -> u16 {
-        3 + self.src.bit_len()
+        4 + self.src.bit_len()
             + self.dst.bit_len()
             + self.value.bit_len()
             + self.ihr_fee.unwrap_bit_len()
@@ -973,7 +973,7 @@ impl Default for RelaxedIntMsgInfo {
 impl RelaxedIntMsgInfo {
     /// Returns the number of data bits that this struct occupies.
     pub const fn bit_len(&self) -> u16 {
-        3 + compute_opt_int_addr_bit_len(&self.src)
+        4 + compute_opt_int_addr_bit_len(&self.src)
             + self.dst.bit_len()
             + self.value.bit_len()
             + self.ihr_fee.unwrap_bit_len()
-- 
2.43.0


From f281f4da01ae31687f6a2fb3a4b7d5ed0df24bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 14/49] fix: storage usage of an account is computed instead of
 always overflowing

---
 src/models/account/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/account/mod.rs b/src/models/account/mod.rs
index 686c90b..f54ac9e 100644
--- a/src/models/account/mod.rs
+++ b/src/models/account/mod.rs
@@ -48,7 +48,7 @@ impl StorageUsed {
             bits: VarUint56::new(res.bit_count),
         };
 
-        if res.cells.is_valid() || !res.bits.is_valid() {
+        if !res.cells.is_valid() || !res.bits.is_valid() {
             return Err(Error::IntOverflow);
         }
 
-- 
2.43.0


From c1dbee1b257d908311122c70ad086a02f86e303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 15/49] fix: is_ancestor_of compares all bits of the ancestor
 prefix

---
 src/models/block/block_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/block/block_id.rs b/src/models/block/block_id.rs
index e2698e6..0964a17 100644
--- a/src/models/block/block_id.rs
+++ b/src/models/block/block_id.rs
@@ -316,7 +316,7 @@ impl ShardIdent {
         let ancestor_tag = self.prefix_tag();
         let shard_tag = shard.prefix_tag();
         ancestor_tag >= shard_tag
-            && ((self.prefix ^ shard.prefix) & (self.prefix_tag_mask() << 1)) == 0
+            && ((self.prefix ^ shard.prefix) & ((!ancestor_tag + 1) << 1)) == 0
     }
 
     /// Returns `true` if the current shard is the direct parent of the specified shard.
-- 
2.43.0


From 86f1b4f002e04514161c5f2c491e9149dbf19c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 16/49] fix: overlapping shards do not make a shards tree

---
 src/models/block/shard_hashes.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/models/block/shard_hashes.rs b/src/models/block/shard_hashes.rs
index 8a13927..b6c580b 100755
--- a/src/models/block/shard_hashes.rs
+++ b/src/models/block/shard_hashes.rs
@@ -202,7 +202,12 @@ impl WorkchainShardHashes {
 
         let first = ok!(read_shard(shards, cx));
         if first.0.is_full() {
-            return Ok(first.1);
+            // There must be no other shards
+            return if shards.next().is_none() {
+                Ok(first.1)
+            } else {
+                Err(Error::Unbalanced)
+            };
         }
 
         if first.0.is_right_child() {
@@ -239,7 +244,12 @@ impl WorkchainShardHashes {
 
                 // Break if parent shard is a root
                 if parent_shard.is_full() {
-                    return Ok(parent_cell);
+                    // All shards must be used
+                    return if stack.is_empty() && shards.next().is_none() {
+                        Ok(parent_cell)
+                    } else {
+                        Err(Error::Unbalanced)
+                    };
                 }
 
                 // Otherwise use parent shard as next child
-- 
2.43.0


From 8d1f2a1d1a1d17cc9df2aedb05538e5f76017a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:42 +0000
Subject: [PATCH 17/49] fix: a broken shards tree ends the iteration over all
 workchains

---
 src/models/block/shard_hashes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/block/shard_hashes.rs b/src/models/block/shard_hashes.rs
index b6c580b..adb22d4 100755
--- a/src/models/block/shard_hashes.rs
+++ b/src/models/block/shard_hashes.rs
@@ -721,7 +721,8 @@ impl<'a> Iterator for ShardsTreeRawIter<'a> {
             // Try to read next item from the current shards tree
             if let Some(iter) = &mut self.shard_hashes_iter {
                 match iter.next() {
-                    Some(next_item) => break Some(next_item),
+                    Some(Ok(next_item)) => break Some(Ok(next_item)),
+                    Some(Err(e)) => break Some(Err(self.finish(e))),
                     None => self.shard_hashes_iter = None,
                 }
             }
-- 
2.43.0


From ec71fc9ce38c1b328bed2da8489d67811dbcc6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 18/49] fix: a shards tree with an empty root is listed with an
 error

---
 src/models/block/shard_hashes.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/models/block/shard_hashes.rs b/src/models/block/shard_hashes.rs
index adb22d4..01c97f1 100755
--- a/src/models/block/shard_hashes.rs
+++ b/src/models/block/shard_hashes.rs
@@ -807,7 +807,7 @@ impl<'a> Iterator for WorkchainShardsTreeRawValuesIter<'a> {
 #[derive(Clone)]
 pub struct WorkchainShardsTreeRawIter<'a> {
     workchain: i32,
-    leaf: Option<CellSlice<'a>>,
+    leaf: Option<Result<CellSlice<'a>, Error>>,
     segments: Vec<IterSegment<'a>>,
     status: IterStatus,
 }
@@ -823,7 +823,15 @@ impl<'a> WorkchainShardsTreeRawIter<'a> {
 
             let is_fork = match slice.load_bit() {
                 Ok(bit) => bit,
-                Err(_) => break 'error IterStatus::Broken,
+                Err(e) => {
+                    // The first item will be an error
+                    return Self {
+                        workchain,
+                        leaf: Some(Err(e)),
+                        segments: Vec::new(),
+                        status: IterStatus::Valid,
+                    };
+                }
             };
 
             let mut result = Self {
@@ -839,7 +847,7 @@ impl<'a> WorkchainShardsTreeRawIter<'a> {
                     is_right: false,
                 });
             } else {
-                result.leaf = Some(slice);
+                result.leaf = Some(Ok(slice));
             }
 
             return result;
@@ -882,7 +890,8 @@ impl<'a> Iterator for WorkchainShardsTreeRawIter<'a> {
         }
 
         let leaf = match self.leaf.take() {
-            Some(leaf) => leaf,
+            Some(Ok(leaf)) => leaf,
+            Some(Err(e)) => return Some(Err(self.finish(e))),
             None => loop {
                 let segment = self.segments.last()?;
                 let mut slice = match segment.data.get_reference_as_slice(segment.is_right as u8) {
-- 
2.43.0


From 22d24ebaac76d0939a92208a7bad25d9acc39f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:37 +0000
Subject: [PATCH 19/49] fix: storage stats count the root cell against the
 limit

---
 src/cell/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index 5027ef7..6eef9ee 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -1670,6 +1670,10 @@ impl<'a> StorageStat<'a> {
             return true;
         }
 
+        if self.stats.cell_count >= self.limit as u64 {
+            return false;
+        }
+
         self.stats.bit_count += cell.bit_len() as u64;
         self.stats.cell_count += 1;
 
-- 
2.43.0


From 634bc3a4fa2e43dc517f6aa691534ee410c12c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 20/49] fix: keep the ADNL address when storing a validator
 with `mc_seqno_since`

---
 src/models/config/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index 694a0e9..d67cf82 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1431,7 +1431,7 @@ impl Store for ValidatorDescription {
         ok!(builder.store_u64(self.weight));
 
         let mut adnl = self.adnl_addr.as_ref();
-        if with_mc_seqno {
+        if with_mc_seqno && adnl.is_none() {
             adnl = Some(HashBytes::wrap(&[0; 32]));
         }
 
-- 
2.43.0


From 94f6428d9e6f429f2a03df04e9e877b0673f632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 21/49] fix: refuse to store a consensus config with more than
 255 round candidates

---
 src/models/config/params.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index d67cf82..8987d58 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1016,10 +1016,13 @@ impl ConsensusConfig {
 impl Store for ConsensusConfig {
     fn store_into(&self, builder: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
         let flags = self.new_catchain_ids as u8;
+        let Ok(round_candidates) = u8::try_from(self.round_candidates.get()) else {
+            return Err(Error::IntOverflow);
+        };
 
         ok!(builder.store_u8(Self::TAG_V2));
         ok!(builder.store_u8(flags));
-        ok!(builder.store_u8(self.round_candidates.get() as u8));
+        ok!(builder.store_u8(round_candidates));
         ok!(builder.store_u32(self.next_candidate_delay_ms));
         ok!(builder.store_u32(self.consensus_timeout_ms));
         ok!(builder.store_u32(self.fast_attempts));
-- 
2.43.0


From 21b4778257e6ef0cbe5f1bcb55286f6655d281b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 22/49] fix: validate split depths when loading a workchain
 description

---
 src/models/config/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index 8987d58..52460a6 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -202,7 +202,7 @@ impl<'a> Load<'a> for WorkchainDescription {
         };
 
         let basic = flags & 0b1000_0000_0000_0000 != 0;
-        if basic != result.format.is_basic() {
+        if basic != result.format.is_basic() || !result.is_valid() {
             return Err(Error::InvalidData);
         }
 
-- 
2.43.0


From a435aeabed26b32dd37d025a61775e1f1948bd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 23/49] fix: load value flow references in the order they are
 stored

The first reference holds the first part of the flow; fees_collected and
burned were loaded before it, so extra currencies in them took its place.
---
 src/models/block/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/block/mod.rs b/src/models/block/mod.rs
index ecf5e61..e3d4c5d 100755
--- a/src/models/block/mod.rs
+++ b/src/models/block/mod.rs
@@ -685,6 +685,8 @@ impl<'a> Load<'a> for ValueFlow {
             _ => return Err(Error::InvalidTag),
         };
 
+        let slice1 = &mut ok!(slice.load_reference_as_slice());
+
         let fees_collected = ok!(CurrencyCollection::load_from(slice));
         let burned = if with_burned {
             ok!(CurrencyCollection::load_from(slice))
@@ -692,7 +694,6 @@ impl<'a> Load<'a> for ValueFlow {
             CurrencyCollection::ZERO
         };
 
-        let slice1 = &mut ok!(slice.load_reference_as_slice());
         let slice2 = &mut ok!(slice.load_reference_as_slice());
 
         Ok(Self {
-- 
2.43.0


From dd62bd10a4fd9d43e8074665f7b84e5a43979209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:40 +0000
Subject: [PATCH 24/49] fix: end the iteration of output actions after an error

A list with trailing garbage made the iterator return errors forever.
---
 src/models/vm/out_actions.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/models/vm/out_actions.rs b/src/models/vm/out_actions.rs
index 87c11aa..d1eb866 100644
--- a/src/models/vm/out_actions.rs
+++ b/src/models/vm/out_actions.rs
@@ -21,10 +21,13 @@ impl Iterator for OutActionsRevIter<'_> {
     type Item = Result<OutAction, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let prev_cell = match self.slice.load_reference() {
+        // NOTE: An empty slice is left on errors so that they end the iteration.
+        let mut slice = std::mem::take(&mut self.slice);
+
+        let prev_cell = match slice.load_reference() {
             Ok(cell) => cell,
             Err(_) => {
-                return if self.slice.is_data_empty() && self.slice.is_refs_empty() {
+                return if slice.is_data_empty() && slice.is_refs_empty() {
                     None
                 } else {
                     Some(Err(Error::InvalidData))
@@ -32,7 +35,7 @@ impl Iterator for OutActionsRevIter<'_> {
             }
         };
 
-        let action = match OutAction::load_from(&mut self.slice) {
+        let action = match OutAction::load_from(&mut slice) {
             Ok(action) => action,
             Err(e) => return Some(Err(e)),
         };
-- 
2.43.0


From 0ee8fe009e855facd70f6008765abae4b6588af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:40 +0000
Subject: [PATCH 25/49] fix: do not count unknown bits in the size hint of
 capabilities

The iterator skips them, so the lower bound exceeded what it yields.
---
 src/models/global_version.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/global_version.rs b/src/models/global_version.rs
index 7aa96e0..3ac9e1b 100644
--- a/src/models/global_version.rs
+++ b/src/models/global_version.rs
@@ -18,6 +18,8 @@ macro_rules! decl_global_capability {
         ),*,}
 
         impl GlobalCapability {
+            const ALL: u64 = 0 $(| 1u64 << $descr)*;
+
             const fn from_bit_offset(bit_offset: u32) -> Option<Self> {
                 Some(match bit_offset {
                     $($descr => Self::$field),*,
@@ -476,7 +478,8 @@ impl Iterator for GlobalCapabilitiesIter {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.0.count_ones() as usize;
+        // NOTE: Unknown capabilities are skipped by the iterator.
+        let len = (self.0 & GlobalCapability::ALL).count_ones() as usize;
         (len, Some(len))
     }
 }
-- 
2.43.0


From c309af7b8792f25db38b5d79efb8ea28c9e5ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 26/49] fix: take only the allowed base64 alphabets when
 parsing addresses

---
 src/models/message/address.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/models/message/address.rs b/src/models/message/address.rs
index 470acc0..5636c52 100644
--- a/src/models/message/address.rs
+++ b/src/models/message/address.rs
@@ -281,6 +281,16 @@ impl StdAddr {
 
                 let base64_url = s.contains(['_', '-']);
 
+                // NOTE: Text without special symbols is the same in both encodings.
+                let allowed = if base64_url {
+                    format.allow_base64_url
+                } else {
+                    format.allow_base64 || !s.contains(['+', '/'])
+                };
+                if !allowed {
+                    return Err(ParseAddrError::BadFormat);
+                }
+
                 let Ok(36) = if base64_url {
                     BASE64_URL_SAFE
                 } else {
-- 
2.43.0


From 1ade08ca0792b88c292747483fb896efb50fcae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 27/49] fix: do not panic on multibyte characters when parsing
 hash bytes

---
 src/cell/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index 6eef9ee..71cc45c 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -808,7 +808,7 @@ impl FromStr for HashBytes {
                 }
             }
             66 => {
-                if let Err(e) = hex::decode_to_slice(&s[2..], &mut result.0) {
+                if let Err(e) = hex::decode_to_slice(&s.as_bytes()[2..], &mut result.0) {
                     return Err(ParseHashBytesError::InvalidHex(e));
                 }
             }
-- 
2.43.0


From fb1a952ed496ff3c4a8609d271256dbfdcd3ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 28/49] fix: require all 32 bytes when parsing base64 hash
 bytes

---
 src/cell/mod.rs | 10 +++++-----
 src/util.rs     |  8 +++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index 71cc45c..a1e90e5 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -813,11 +813,11 @@ impl FromStr for HashBytes {
                 }
             }
             #[cfg(feature = "base64")]
-            44 => {
-                if let Err(e) = crate::util::decode_base64_slice(s, &mut result.0) {
-                    return Err(ParseHashBytesError::InvalidBase64(e));
-                }
-            }
+            44 => match crate::util::decode_base64_slice(s, &mut result.0) {
+                Ok(32) => {}
+                Ok(_) => return Err(ParseHashBytesError::UnexpectedStringLength),
+                Err(e) => return Err(ParseHashBytesError::InvalidBase64(e)),
+            },
             _ => return Err(ParseHashBytesError::UnexpectedStringLength),
         }
         Ok(result)
diff --git a/src/util.rs b/src/util.rs
index 6c3b701..001cb00 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -140,15 +140,13 @@ pub(crate) fn decode_base64<T: AsRef<[u8]>>(data: T) -> Result<Vec<u8>, base64::
 pub(crate) fn decode_base64_slice<T: AsRef<[u8]>>(
     data: T,
     target: &mut [u8],
-) -> Result<(), base64::DecodeSliceError> {
+) -> Result<usize, base64::DecodeSliceError> {
     use base64::Engine;
     fn decode_base64_slice_impl(
         data: &[u8],
         target: &mut [u8],
-    ) -> Result<(), base64::DecodeSliceError> {
-        base64::engine::general_purpose::STANDARD
-            .decode_slice(data, target)
-            .map(|_| ())
+    ) -> Result<usize, base64::DecodeSliceError> {
+        base64::engine::general_purpose::STANDARD.decode_slice(data, target)
     }
     decode_base64_slice_impl(data.as_ref(), target)
 }
-- 
2.43.0


From 38df6ed540f8a660583e16c6b64b8397e90ff20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 29/49] fix: do not truncate the number of bits of huge
 integers

---
 src/cell/builder.rs |  4 +++-
 src/util.rs         | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index e1f9c2c..6919165 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -1290,7 +1290,9 @@ impl CellDataBuilder {
         x: &num_bigint::BigUint,
         len_bits: u16,
     ) -> Result<(), Error> {
-        let bits = x.bits() as u16;
+        use crate::util::BigIntExt;
+
+        let bits = x.bitsize(false);
         let bytes = bits.div_ceil(8);
         if bytes >= (1 << len_bits) {
             return Err(Error::IntOverflow);
diff --git a/src/util.rs b/src/util.rs
index 001cb00..f10fec9 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -21,7 +21,7 @@ pub trait BigIntExt {
 #[cfg(feature = "bigint")]
 impl BigIntExt for num_bigint::BigInt {
     fn bitsize(&self, signed: bool) -> u16 {
-        let mut bits = self.bits() as u16;
+        let mut bits = saturate_bits(self.bits());
         if signed {
             match self.sign() {
                 num_bigint::Sign::NoSign => bits,
@@ -50,7 +50,7 @@ impl BigIntExt for num_bigint::BigInt {
 #[cfg(feature = "bigint")]
 impl BigIntExt for num_bigint::BigUint {
     fn bitsize(&self, signed: bool) -> u16 {
-        let bits = self.bits() as u16;
+        let bits = saturate_bits(self.bits());
         bits + (signed && bits != 0) as u16
     }
 
@@ -59,6 +59,14 @@ impl BigIntExt for num_bigint::BigUint {
     }
 }
 
+/// Limits the number of bits so that it (with a sign bit, rounded up to bytes) fits into [`u16`].
+///
+/// NOTE: The limit is much greater than the maximum number of bits in a cell.
+#[cfg(feature = "bigint")]
+fn saturate_bits(bits: u64) -> u16 {
+    std::cmp::min(bits, u16::MAX as u64 - 8) as u16
+}
+
 /// Brings [unlikely](core::intrinsics::unlikely) to stable rust.
 #[inline(always)]
 pub(crate) const fn unlikely(b: bool) -> bool {
-- 
2.43.0


From d1eb7616c40dff6fd40bf37055c63ae6606be582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 30/49] fix: refuse variable length integers longer than a cell

---
 src/cell/slice.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index 73b7382..f891dde 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -4,7 +4,8 @@ use std::sync::Arc;
 
 use super::CellFamily;
 use crate::cell::{
-    Cell, CellTreeStats, CellType, DynCell, HashBytes, LevelMask, RefsIter, Size, StorageStat,
+    Cell, CellTreeStats, CellType, DynCell, HashBytes, LevelMask, MAX_BIT_LEN, RefsIter, Size,
+    StorageStat,
 };
 use crate::error::Error;
 use crate::util::{Bitstring, unlikely};
@@ -1619,15 +1620,25 @@ impl<'a> CellSlice<'a> {
         len_bits: u16,
         signed: bool,
     ) -> Result<num_bigint::BigInt, Error> {
-        let len = self.load_uint(len_bits)? as u16;
-        self.load_bigint(len * 8, signed)
+        let bits = self.load_var_int_bits(len_bits)?;
+        self.load_bigint(bits, signed)
     }
 
     /// Loads variable length unsigned int from the slice.
     #[cfg(feature = "bigint")]
     pub fn load_var_biguint(&mut self, len_bits: u16) -> Result<num_bigint::BigUint, Error> {
-        let len = self.load_uint(len_bits)? as u16;
-        self.load_biguint(len * 8)
+        let bits = self.load_var_int_bits(len_bits)?;
+        self.load_biguint(bits)
+    }
+
+    /// Loads the length of a variable length int and returns it in bits.
+    #[cfg(feature = "bigint")]
+    fn load_var_int_bits(&mut self, len_bits: u16) -> Result<u16, Error> {
+        let len = self.load_uint(len_bits)?;
+        if len > (MAX_BIT_LEN / 8) as u64 {
+            return Err(Error::CellUnderflow);
+        }
+        Ok(len as u16 * 8)
     }
 
     /// Reads the specified number of bits to the target starting from the `offset`.
-- 
2.43.0


From 4cd45f61a7f8b9e5d1d39f96c6b509b8226d9585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:26 +0000
Subject: [PATCH 31/49] fix: require one bit for fixed arrays in ABI values

---
 src/abi/value/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index 1b81a32..cc359d1 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -520,7 +520,7 @@ impl AbiSerializer {
             key_builder.clear_bits();
         }
 
-        let bits = 1 + if fixed_len { 1 } else { 32 };
+        let bits = 1 + if fixed_len { 0 } else { 32 };
         let refs = if self.version.use_max_size() {
             1
         } else {
-- 
2.43.0


From c6c50410c8a5b8e772c25e37f269fc63543b7284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:26 +0000
Subject: [PATCH 32/49] fix: do not require a reference for empty maps in older
 ABI versions

---
 src/abi/value/ser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index cc359d1..7f88335 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -574,7 +574,12 @@ impl AbiSerializer {
             key_builder.clear_bits();
         }
 
-        let target = self.require_builder(Size { bits: 1, refs: 1 });
+        let refs = if self.version.use_max_size() {
+            1
+        } else {
+            dict.is_some() as u8
+        };
+        let target = self.require_builder(Size { bits: 1, refs });
         dict.store_into(target, context)
     }
 
-- 
2.43.0


From e245649564e4a3df02c6f7c82588c317b398c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:53 +0000
Subject: [PATCH 33/49] fix: keep the sign bit of positive varint ABI values

---
 src/abi/value/ser.rs | 59 ++++++++------------------------------------
 1 file changed, 10 insertions(+), 49 deletions(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index 7f88335..13ecfde 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -1,7 +1,7 @@
 use std::collections::BTreeMap;
 use std::num::NonZeroU8;
 
-use num_bigint::{BigInt, BigUint, Sign};
+use num_bigint::{BigInt, BigUint};
 
 use crate::abi::{
     AbiHeader, AbiHeaderType, AbiType, AbiValue, AbiVersion, NamedAbiValue, PlainAbiType,
@@ -16,6 +16,7 @@ use crate::error::Error;
 use crate::models::IntAddr;
 use crate::num::Tokens;
 use crate::prelude::CellFamily;
+use crate::util::BigIntExt;
 
 impl NamedAbiValue {
     /// Tries to store multiple values into a new builder according to the specified ABI version.
@@ -111,10 +112,11 @@ impl AbiValue {
     }
 
     fn compute_exact_size_short(&self) -> Size {
-        fn compute_varuint_size(n: &NonZeroU8, value: &BigUint) -> Size {
+        fn compute_varuint_size(n: &NonZeroU8, bits: u16) -> Size {
             let value_bytes: u8 = n.get() - 1;
             let len_bits = (8 - value_bytes.leading_zeros()) as u16;
-            let value_bits = std::cmp::max(8, 8 * value.bits().div_ceil(8) as u16);
+            // NOTE: Values which do not fit will not be written.
+            let value_bits = 8 * bits.div_ceil(8).clamp(1, u8::MAX as u16);
             Size {
                 bits: len_bits + value_bits,
                 refs: 0,
@@ -123,8 +125,8 @@ impl AbiValue {
 
         match self {
             Self::Uint(n, _) | Self::Int(n, _) => Size { bits: *n, refs: 0 },
-            Self::VarUint(n, value) => compute_varuint_size(n, value),
-            Self::VarInt(n, value) => compute_varuint_size(n, value.magnitude()),
+            Self::VarUint(n, value) => compute_varuint_size(n, value.bitsize(false)),
+            Self::VarInt(n, value) => compute_varuint_size(n, value.bitsize(true)),
             Self::Bool(_) => Size { bits: 1, refs: 0 },
             Self::Cell(_)
             | Self::Bytes(_)
@@ -359,8 +361,8 @@ impl AbiSerializer {
         match value {
             AbiValue::Uint(n, value) => self.write_uint(*n, value),
             AbiValue::Int(n, value) => self.write_int(*n, value),
-            AbiValue::VarUint(n, value) => self.write_varint(*n, Sign::Plus, value),
-            AbiValue::VarInt(n, value) => self.write_varint(*n, value.sign(), value.magnitude()),
+            AbiValue::VarUint(n, value) => self.write_varint(*n, value.to_bytes_be()),
+            AbiValue::VarInt(n, value) => self.write_varint(*n, value.to_signed_bytes_be()),
             AbiValue::Bool(value) => self.write_bool(*value),
             AbiValue::Cell(value) => self.write_cell(value),
             AbiValue::Address(value) => self.write_address(value),
@@ -397,10 +399,7 @@ impl AbiSerializer {
         target.store_bigint(value, bits, true)
     }
 
-    fn write_varint(&mut self, size: NonZeroU8, sign: Sign, value: &BigUint) -> Result<(), Error> {
-        let is_negative = sign == Sign::Minus;
-        let bytes = to_signed_bytes_be(is_negative, value);
-
+    fn write_varint(&mut self, size: NonZeroU8, bytes: Vec<u8>) -> Result<(), Error> {
         let max_value_size = size.get() - 1;
         if bytes.len() > max_value_size as usize {
             return Err(Error::IntOverflow);
@@ -653,44 +652,6 @@ impl AbiSerializer {
     }
 }
 
-fn to_signed_bytes_be(is_negative: bool, value: &BigUint) -> Vec<u8> {
-    #[inline]
-    fn is_zero(value: &u8) -> bool {
-        *value == 0
-    }
-
-    #[inline]
-    pub fn twos_complement_le(digits: &mut [u8]) {
-        let mut carry = true;
-        for digit in digits {
-            *digit = !*digit;
-            if carry {
-                let (d, c) = digit.overflowing_add(1);
-                *digit = d;
-                carry = c;
-            }
-        }
-    }
-
-    fn negative_to_signed_bytes_be(value: &BigUint) -> Vec<u8> {
-        let mut bytes = value.to_bytes_le();
-        let last_byte = bytes.last().cloned().unwrap_or(0);
-        if last_byte > 0x7f && !(last_byte == 0x80 && bytes.iter().rev().skip(1).all(is_zero)) {
-            // msb used by magnitude, extend by 1 byte
-            bytes.push(0);
-        }
-        twos_complement_le(&mut bytes);
-        bytes.reverse();
-        bytes
-    }
-
-    if is_negative {
-        negative_to_signed_bytes_be(value)
-    } else {
-        value.to_bytes_be()
-    }
-}
-
 const fn fits_into_dict_leaf(key_bits: u16, value_bits: usize) -> bool {
     // NOTE: Label offset is calculated as 2 bits for tag + max ceil(log2(key_bits)).
     // However this might be incorrect as we have other parts of the label to store.
-- 
2.43.0


From 3ab8b3f167c66ab6dc0a3ad29b00044138142ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:13 +0000
Subject: [PATCH 34/49] fix: check the number and the indices of array items in
 ABI values

---
 src/abi/value/de.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/abi/value/de.rs b/src/abi/value/de.rs
index 1c79741..b7fc9d8 100644
--- a/src/abi/value/de.rs
+++ b/src/abi/value/de.rs
@@ -476,14 +476,27 @@ fn load_array_raw(
     ok!(preload_bits(1, slice));
     let dict = RawDict::<32>::load_from(slice)?;
 
-    let mut result = Vec::with_capacity(len);
-    for value in dict.values().take(len) {
-        let slice = &mut value?;
+    // NOTE: The length is not trusted, so the capacity is not reserved for it.
+    let mut result = Vec::new();
+    for (i, entry) in dict.iter().take(len).enumerate() {
+        let (key, mut slice) = entry?;
+        anyhow::ensure!(
+            key.as_data_slice().load_u32()? as usize == i,
+            AbiError::ArraySizeMismatch {
+                expected: len,
+                len: i,
+            }
+        );
+        let slice = &mut slice;
         let value = ok!(AbiValue::load_ext(ty, version, true, allow_partial, slice));
         ok!(AbiValue::check_remaining(slice, allow_partial));
         result.push(value);
     }
 
+    anyhow::ensure!(result.len() == len, AbiError::ArraySizeMismatch {
+        expected: len,
+        len: result.len()
+    });
     Ok(result)
 }
 
@@ -505,12 +518,7 @@ fn load_fixed_array(
     allow_partial: bool,
     slice: &mut CellSlice,
 ) -> Result<Vec<AbiValue>> {
-    let values = ok!(load_array_raw(ty, len, version, allow_partial, slice));
-    anyhow::ensure!(values.len() == len, AbiError::ArraySizeMismatch {
-        expected: len,
-        len: values.len()
-    });
-    Ok(values)
+    load_array_raw(ty, len, version, allow_partial, slice)
 }
 
 fn load_map(
-- 
2.43.0


From fe476f7711f5312740c7144e1b6bb0dd194799a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:24 +0000
Subject: [PATCH 35/49] fix: open the cells of large values of arrays and maps
 in ABI 1.x

---
 src/abi/value/de.rs  | 14 ++++++++++++++
 src/abi/value/ser.rs |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/abi/value/de.rs b/src/abi/value/de.rs
index b7fc9d8..c5d5426 100644
--- a/src/abi/value/de.rs
+++ b/src/abi/value/de.rs
@@ -6,6 +6,7 @@ use bytes::Bytes;
 use num_bigint::{BigInt, BigUint};
 
 use crate::abi::error::AbiError;
+use crate::abi::value::ser::fits_into_dict_leaf;
 use crate::abi::{
     AbiHeader, AbiHeaderType, AbiType, AbiValue, AbiVersion, NamedAbiType, NamedAbiValue,
     PlainAbiType, PlainAbiValue,
@@ -466,6 +467,17 @@ fn load_string(version: AbiVersion, last: bool, slice: &mut CellSlice) -> Result
     }
 }
 
+/// Opens the cell of the value which does not fit into a dictionary leaf.
+fn open_dict_value(key_bits: u16, ty: &AbiType, slice: &mut CellSlice) -> Result<()> {
+    if slice.is_data_empty()
+        && slice.size_refs() == 1
+        && !fits_into_dict_leaf(key_bits, ty.max_bits())
+    {
+        *slice = slice.load_reference_as_slice()?;
+    }
+    Ok(())
+}
+
 fn load_array_raw(
     ty: &AbiType,
     len: usize,
@@ -488,6 +500,7 @@ fn load_array_raw(
             }
         );
         let slice = &mut slice;
+        ok!(open_dict_value(32, ty, slice));
         let value = ok!(AbiValue::load_ext(ty, version, true, allow_partial, slice));
         ok!(AbiValue::check_remaining(slice, allow_partial));
         result.push(value);
@@ -537,6 +550,7 @@ fn load_map(
     for entry in dict::RawIter::new(&dict, key_bits) {
         let (key, mut slice) = entry?;
         let key = PlainAbiValue::load(key_ty, &mut key.as_data_slice())?;
+        ok!(open_dict_value(key_bits, value_ty, &mut slice));
         let value = ok!(AbiValue::load_ext(
             value_ty,
             version,
diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index 13ecfde..563f264 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -652,7 +652,7 @@ impl AbiSerializer {
     }
 }
 
-const fn fits_into_dict_leaf(key_bits: u16, value_bits: usize) -> bool {
+pub(crate) const fn fits_into_dict_leaf(key_bits: u16, value_bits: usize) -> bool {
     // NOTE: Label offset is calculated as 2 bits for tag + max ceil(log2(key_bits)).
     // However this might be incorrect as we have other parts of the label to store.
     const LABEL_OFFSET: usize = 12;
-- 
2.43.0


From 26b9a12d1d0d4962287a3806f46b48cc91acbe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:18 +0000
Subject: [PATCH 36/49] fix: keep the payload when signing ABI 1.x external
 messages

---
 src/abi/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index 637cb99..e00df78 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -1214,8 +1214,8 @@ impl UnsignedBody {
                 }
                 None => builder.store_bit_zero()?,
             }
-            builder.store_slice(self.payload.as_slice()?)?;
         }
+        builder.store_slice(self.payload.as_slice()?)?;
 
         builder.build().map_err(From::from)
     }
-- 
2.43.0


From 6ebcb44801b7e11b0be4fab479ddacd65e546de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:18 +0000
Subject: [PATCH 37/49] fix: write the id before the headers in ABI 1.x
 external messages

---
 src/abi/contract.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index e00df78..05f88cc 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -749,6 +749,11 @@ impl<'a> ExternalInput<'_, 'a> {
             .expire_at
             .unwrap_or((time / 1000) as u32 + DEFAULT_TIMEOUT_SEC);
 
+        // NOTE: The id goes before the headers in ABI 1.x.
+        if abi_version.major == 1 {
+            serializer.write_value(&input_id, context)?;
+        }
+
         for header in self.function.headers.as_ref() {
             serializer.write_header_value(&match header {
                 AbiHeaderType::Time => AbiHeader::Time(time),
@@ -759,7 +764,9 @@ impl<'a> ExternalInput<'_, 'a> {
             })?;
         }
 
-        serializer.write_value(&input_id, context)?;
+        if abi_version.major != 1 {
+            serializer.write_value(&input_id, context)?;
+        }
         serializer.write_tuple(self.tokens, context)?;
 
         let payload = serializer.finalize(context)?.build_ext(context)?;
-- 
2.43.0


From b90497b932ad63e0ea32f089532c9d9dc61ad373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:13 +0000
Subject: [PATCH 38/49] fix: do not overflow the default expiration time

---
 src/abi/contract.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index 05f88cc..65d145c 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -745,9 +745,11 @@ impl<'a> ExternalInput<'_, 'a> {
         }
 
         let time = self.time.unwrap_or_else(now_ms);
-        let expire_at = self
-            .expire_at
-            .unwrap_or((time / 1000) as u32 + DEFAULT_TIMEOUT_SEC);
+        let expire_at = self.expire_at.unwrap_or_else(|| {
+            u32::try_from(time / 1000)
+                .unwrap_or(u32::MAX)
+                .saturating_add(DEFAULT_TIMEOUT_SEC)
+        });
 
         // NOTE: The id goes before the headers in ABI 1.x.
         if abi_version.major == 1 {
-- 
2.43.0


From 645b191b5d46a1d8c5dc219128baad6c883c17e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:10 +0000
Subject: [PATCH 39/49] fix: do not reserve the empty signature twice in
 unsigned bodies

---
 src/abi/contract.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index 65d145c..f691a22 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -710,7 +710,7 @@ impl<'a> ExternalInput<'_, 'a> {
 
         let mut serializer = AbiSerializer::new(abi_version);
 
-        serializer.add_offset(if abi_version.major == 1 {
+        let mut offset = if abi_version.major == 1 {
             // Reserve reference for signature
             Size { bits: 0, refs: 1 }
         } else {
@@ -722,7 +722,13 @@ impl<'a> ExternalInput<'_, 'a> {
                 1 + 512
             };
             Size { bits, refs: 0 }
-        });
+        };
+        if !reserve_signature {
+            // An empty signature is written explicitly.
+            offset.refs -= (abi_version.major == 1) as u8;
+            offset.bits -= (abi_version.major != 1) as u16;
+        }
+        serializer.add_offset(offset);
 
         let input_id = AbiValue::uint(32, self.function.input_id);
 
-- 
2.43.0


From cad62163d2272fb8f85ff1cec6386a1d384f149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:39 +0000
Subject: [PATCH 40/49] fix: refuse texts of numbers above 248 bits in any
 radix

---
 src/num/varuint248.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index b951c8f..83339de 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -1272,7 +1272,8 @@ fn from_str_radix(
 
     let mut result = VarUint248::ZERO;
 
-    if radix <= 16 && digits.len() <= 64 {
+    // NOTE: 62 digits of any radix up to 16 always fit into 248 bits.
+    if radix <= 16 && digits.len() <= 62 {
         for &c in digits {
             result *= radix as u128;
             let Some(x) = (c as char).to_digit(radix) else {
-- 
2.43.0


From 23edca5ac16f7a6efb3b129369450bafea303211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 41/49] fix: write frozen account states as JSON

---
 src/models/account/mod.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/models/account/mod.rs b/src/models/account/mod.rs
index f54ac9e..34191ee 100644
--- a/src/models/account/mod.rs
+++ b/src/models/account/mod.rs
@@ -334,9 +334,31 @@ pub enum AccountState {
     /// Account exists and has been deployed.
     Active(StateInit),
     /// Account exists but has been frozen. Contains a hash of the last known [`StateInit`].
+    #[cfg_attr(feature = "serde", serde(with = "serde_frozen_state"))]
     Frozen(HashBytes),
 }
 
+#[cfg(feature = "serde")]
+mod serde_frozen_state {
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
+    use super::*;
+
+    // NOTE: Variants of internally tagged enums can only contain structs or maps.
+    #[derive(Serialize, Deserialize)]
+    struct FrozenState {
+        state_hash: HashBytes,
+    }
+
+    pub fn serialize<S: Serializer>(hash: &HashBytes, serializer: S) -> Result<S::Ok, S::Error> {
+        FrozenState { state_hash: *hash }.serialize(serializer)
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(deserializer: D) -> Result<HashBytes, D::Error> {
+        FrozenState::deserialize(deserializer).map(|state| state.state_hash)
+    }
+}
+
 impl AccountState {
     /// Returns an account status.
     pub fn status(&self) -> AccountStatus {
-- 
2.43.0


From 5c6b40b10963d755c380fd6ea8e32f8ab6b8abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:12 +0000
Subject: [PATCH 42/49] fix: read extra currencies inside of tagged enums from
 JSON

---
 src/models/currency.rs | 67 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/src/models/currency.rs b/src/models/currency.rs
index b560314..d3e6292 100644
--- a/src/models/currency.rs
+++ b/src/models/currency.rs
@@ -181,7 +181,72 @@ impl<'a> arbitrary::Arbitrary<'a> for CurrencyCollection {
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 #[must_use]
 #[repr(transparent)]
-pub struct ExtraCurrencyCollection(Dict<u32, VarUint248>);
+pub struct ExtraCurrencyCollection(
+    #[cfg_attr(
+        feature = "serde",
+        serde(deserialize_with = "deserialize_extra_currencies")
+    )]
+    Dict<u32, VarUint248>,
+);
+
+/// Reads currency ids either as numbers or as strings, because integer keys stay
+/// strings when a human-readable map is a part of an internally tagged enum.
+#[cfg(feature = "serde")]
+fn deserialize_extra_currencies<'de, D>(deserializer: D) -> Result<Dict<u32, VarUint248>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    use serde::Deserialize;
+    use serde::de::{Error, Unexpected, Visitor};
+
+    #[derive(PartialEq, Eq, Hash)]
+    struct CurrencyId(u32);
+
+    impl<'de> Deserialize<'de> for CurrencyId {
+        fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where
+            D: serde::Deserializer<'de>,
+        {
+            struct CurrencyIdVisitor;
+
+            impl Visitor<'_> for CurrencyIdVisitor {
+                type Value = CurrencyId;
+
+                fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                    f.write_str("a currency id")
+                }
+
+                fn visit_u64<E: Error>(self, v: u64) -> Result<Self::Value, E> {
+                    match v.try_into() {
+                        Ok(id) => Ok(CurrencyId(id)),
+                        Err(_) => Err(E::invalid_value(Unexpected::Unsigned(v), &self)),
+                    }
+                }
+
+                fn visit_str<E: Error>(self, v: &str) -> Result<Self::Value, E> {
+                    match v.parse() {
+                        Ok(id) => Ok(CurrencyId(id)),
+                        Err(_) => Err(E::invalid_value(Unexpected::Str(v), &self)),
+                    }
+                }
+            }
+
+            deserializer.deserialize_any(CurrencyIdVisitor)
+        }
+    }
+
+    if !deserializer.is_human_readable() {
+        return Dict::deserialize(deserializer);
+    }
+
+    let mut dict = Dict::new();
+    for (id, value) in ok!(ahash::HashMap::<CurrencyId, VarUint248>::deserialize(
+        deserializer
+    )) {
+        ok!(dict.set(id.0, value).map_err(Error::custom));
+    }
+    Ok(dict)
+}
 
 impl Default for ExtraCurrencyCollection {
     #[inline]
-- 
2.43.0


From 403c73e6a04fe5cf574dcb7245cdbc75f3625727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:09 +0000
Subject: [PATCH 43/49] fix: write the type of an external inbound message to
 JSON once

---
 src/models/message/in_message.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/models/message/in_message.rs b/src/models/message/in_message.rs
index d816575..f8820ab 100644
--- a/src/models/message/in_message.rs
+++ b/src/models/message/in_message.rs
@@ -246,7 +246,6 @@ impl<'a> Load<'a> for InMsg {
 /// Inbound external message.
 #[derive(Clone, Debug, Eq, PartialEq, Store, Load)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
-#[cfg_attr(feature = "serde", serde(tag = "ty"))]
 pub struct InMsgExternal {
     /// External message itself.
     #[cfg_attr(feature = "serde", serde(serialize_with = "Lazy::serialize_repr_hash"))]
-- 
2.43.0


From 3241c0579659c04c6e4d42190bb0fbb5a57851cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:36 +0000
Subject: [PATCH 44/49] fix: count the weight of a block signer once

---
 src/models/block/block_extra.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/models/block/block_extra.rs b/src/models/block/block_extra.rs
index e928557..bae527f 100755
--- a/src/models/block/block_extra.rs
+++ b/src/models/block/block_extra.rs
@@ -412,7 +412,7 @@ impl BlockSignatureExt for Dict<u16, BlockSignature> {
     fn check_signatures(&self, list: &[ValidatorDescription], data: &[u8]) -> Result<u64, Error> {
         // Collect nodes by short id
         let mut unique_nodes =
-            ahash::HashMap::<[u8; 32], &ValidatorDescription>::with_capacity_and_hasher(
+            ahash::HashMap::<[u8; 32], (&ValidatorDescription, bool)>::with_capacity_and_hasher(
                 list.len(),
                 Default::default(),
             );
@@ -421,17 +421,20 @@ impl BlockSignatureExt for Dict<u16, BlockSignature> {
             let node_id_short = tl_proto::hash(tycho_crypto::tl::PublicKey::Ed25519 {
                 key: node.public_key.as_ref(),
             });
-            unique_nodes.insert(node_id_short, node);
+            unique_nodes.insert(node_id_short, (node, false));
         }
 
         let mut weight = 0;
         for value in self.values() {
             let value = ok!(value);
-            if let Some(node) = unique_nodes.get(&value.node_id_short) {
+            if let Some((node, counted)) = unique_nodes.get_mut(value.node_id_short.as_array()) {
                 if !node.verify_signature(data, &value.signature) {
                     return Err(Error::InvalidSignature);
                 }
-                weight += node.weight;
+                // Each node must be counted only once
+                if !std::mem::replace(counted, true) {
+                    weight += node.weight;
+                }
             }
         }
 
-- 
2.43.0


From 0f089d2294aba330a5c72931d4d0d6148456ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:41 +0000
Subject: [PATCH 45/49] fix: do not count a reference to an absent state init

---
 src/models/message/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/message/mod.rs b/src/models/message/mod.rs
index 631b324..bf6a088 100644
--- a/src/models/message/mod.rs
+++ b/src/models/message/mod.rs
@@ -413,7 +413,7 @@ impl MessageLayout {
         let mut total = l.info;
 
         // Append init bits and refs
-        if self.init_to_cell {
+        if self.init_to_cell && init.is_some() {
             total.refs += 1;
         } else {
             total.bits += l.init.bits;
-- 
2.43.0


From d4b43574c697ae8a9b824ee7f1c8a0e2e5e82f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:47 +0000
Subject: [PATCH 46/49] fix: store external message infos which exactly fill a
 cell

---
 src/models/message/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/models/message/mod.rs b/src/models/message/mod.rs
index bf6a088..5b1313e 100644
--- a/src/models/message/mod.rs
+++ b/src/models/message/mod.rs
@@ -1057,7 +1057,8 @@ impl Store for ExtInMsgInfo {
         if !self.import_fee.is_valid() {
             return Err(Error::InvalidData);
         }
-        if !builder.has_capacity(self.bit_len(), 0) {
+        // `bit_len` includes the two bits of the tag, stored with `MsgInfo`.
+        if !builder.has_capacity(self.bit_len() - 2, 0) {
             return Err(Error::CellOverflow);
         }
         ok!(store_ext_addr(builder, context, &self.src));
@@ -1108,7 +1109,8 @@ impl Store for ExtOutMsgInfo {
         builder: &mut CellBuilder,
         context: &dyn CellContext,
     ) -> Result<(), Error> {
-        if !builder.has_capacity(self.bit_len(), 0) {
+        // `bit_len` includes the two bits of the tag, stored with `MsgInfo`.
+        if !builder.has_capacity(self.bit_len() - 2, 0) {
             return Err(Error::CellOverflow);
         }
         ok!(self.src.store_into(builder, context));
-- 
2.43.0


From c8c562a6ba57541c37c7028b57f9e4aa99e8dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:39 +0000
Subject: [PATCH 47/49] fix: name a limit by its path, so that no import is
 unused without bigint

---
 src/cell/slice.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index f891dde..7ba90d2 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -4,8 +4,7 @@ use std::sync::Arc;
 
 use super::CellFamily;
 use crate::cell::{
-    Cell, CellTreeStats, CellType, DynCell, HashBytes, LevelMask, MAX_BIT_LEN, RefsIter, Size,
-    StorageStat,
+    Cell, CellTreeStats, CellType, DynCell, HashBytes, LevelMask, RefsIter, Size, StorageStat,
 };
 use crate::error::Error;
 use crate::util::{Bitstring, unlikely};
@@ -1635,7 +1634,7 @@ impl<'a> CellSlice<'a> {
     #[cfg(feature = "bigint")]
     fn load_var_int_bits(&mut self, len_bits: u16) -> Result<u16, Error> {
         let len = self.load_uint(len_bits)?;
-        if len > (MAX_BIT_LEN / 8) as u64 {
+        if len > (crate::cell::MAX_BIT_LEN / 8) as u64 {
             return Err(Error::CellUnderflow);
         }
         Ok(len as u16 * 8)
-- 
2.43.0


From 7475728119e5307581b99cc6101c20e8df964312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:40 +0000
Subject: [PATCH 48/49] fix: return the resolved root when the last dict entry
 is removed

The range of the removed value is that of the cell the context resolved the
root to, but the root was returned as it is, so that the value of the only
entry could not be read when the root was a library reference.
---
 src/dict/ops/remove.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dict/ops/remove.rs b/src/dict/ops/remove.rs
index d00ea28..831d9be 100644
--- a/src/dict/ops/remove.rs
+++ b/src/dict/ops/remove.rs
@@ -34,7 +34,7 @@ pub fn dict_remove_owned(
         *dict = Some(ok!(rebuild_dict_from_stack(stack, leaf, context)));
         value
     } else {
-        let value = root.clone();
+        let value = ok!(context.load_cell(root.clone(), LoadMode::Resolve));
         *dict = None;
         value
     };
@@ -74,7 +74,7 @@ pub fn aug_dict_remove_owned(
         )));
         value
     } else {
-        let value = root.clone();
+        let value = ok!(context.load_cell(root.clone(), LoadMode::Resolve));
         *dict = None;
         value
     };
-- 
2.43.0


From 3a4832be41e0527d983c0d83b6477ede13d01a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:32 +0000
Subject: [PATCH 49/49] fix: return None for a processed cell index out of
 range

---
 src/boc/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/boc/de.rs b/src/boc/de.rs
index f0196ff..6715e73 100644
--- a/src/boc/de.rs
+++ b/src/boc/de.rs
@@ -301,7 +301,8 @@ pub struct ProcessedCells(SmallVec<[Cell; CELLS_ON_STACK]>);
 impl ProcessedCells {
     /// Returns a processed cell by index.
     pub fn get(&self, index: u32) -> Option<Cell> {
-        self.0.get(self.0.len() - index as usize - 1).cloned()
+        // NOTE: Cells are stored in reverse order.
+        self.0.iter().rev().nth(index as usize).cloned()
     }
 }
 
-- 
2.43.0

