From 2badfc36f28edbbf95c7fb2dbaaae55fbe693709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:16 +0000
Subject: [PATCH 01/30] fix: do not panic on a header value made of a single
 quote

---
 src/card.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/card.rs b/src/card.rs
index c8205bc..59c101e 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -174,9 +174,11 @@ impl TryFrom<&CardBuf> for Card {
 
 fn parse_extension(buf: &[u8; 80]) -> Result<Card, Error> {
     let (value, comment) = split_value_and_comment(&buf[10..])?;
-    if value.starts_with("'") && value.ends_with("'") {
-        let end = value.len() - 1;
-        let x = value[1..end].trim_ascii().parse()?;
+    let quoted = value
+        .strip_prefix('\'')
+        .and_then(|value| value.strip_suffix('\''));
+    if let Some(quoted) = quoted {
+        let x = quoted.trim_ascii().parse()?;
         Ok(Card::Xtension { x, comment })
     } else {
         let msg = format!("XTENSION value must be enclosed in single quotes, found: {value}");
@@ -275,7 +277,8 @@ fn parse_number(v: String, c: Option<String>) -> Result<Value, Error> {
 /// trimmed to one space.
 fn parse_string(s: String) -> Result<String, Error> {
     let start_quote = s.starts_with("'");
-    let end_quote = s.ends_with("'");
+    // a lone quote opens a string without closing it
+    let end_quote = s.ends_with("'") && (s.len() > 1 || !start_quote);
     let value: &str = match (start_quote, end_quote) {
         (true, true) => &s[1..s.len() - 1], // string enclosed in single quotes
         (false, false) => &s,               // comment string has no quotes
-- 
2.43.0


From 436eb9ace27939fa5c17e4ef0d57c7944a206c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:16 +0000
Subject: [PATCH 02/30] fix: find the unit in brackets when a space follows the
 comment separator

---
 src/card.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/card.rs b/src/card.rs
index 59c101e..ff5be0c 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -519,6 +519,8 @@ impl<'de> IntoDeserializer<'de, Error> for &'de Value {
 /// FITSv4 section 4.3.2. Units in comment fields
 fn parse_unit(comment: &Option<String>) -> Option<&str> {
     if let Some(c) = comment {
+        // comments usually keep the space that follows the `/` separator
+        let c = c.trim_start();
         if c.starts_with("[") {
             if let Some(i) = c.find("]") {
                 Some(&c[1..i])
-- 
2.43.0


From 57c3f443505e36c4fffd689dd4b62dea93eae4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:25 +0000
Subject: [PATCH 03/30] fix: compute the position of the next HDU when the
 reader is past the data unit

---
 src/fits.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fits.rs b/src/fits.rs
index 70e524e..d3e2ad4 100644
--- a/src/fits.rs
+++ b/src/fits.rs
@@ -64,15 +64,20 @@ where
         // an offset to get to a multiple of 2880 bytes
 
         // current seek position since the start of the stream
-        let cur_pos = self.reader.stream_position()? as usize;
-        let mut num_bytes_to_skip = self.num_bytes_in_cur_du - (cur_pos - self.pos_start_cur_du);
+        let cur_pos = self.reader.stream_position()?;
+        let mut next_hdu_pos = (self.pos_start_cur_du as u64)
+            .checked_add(self.num_bytes_in_cur_du as u64)
+            .filter(|&pos| pos <= i64::MAX as u64 - 2880)
+            .ok_or(Error::StaticError("The data unit size is too large"))?;
 
         let offset_in_2880_block = self.num_bytes_in_cur_du % 2880;
         let is_aligned_on_block = offset_in_2880_block == 0;
         if !is_aligned_on_block {
-            num_bytes_to_skip += 2880 - offset_in_2880_block;
+            next_hdu_pos += 2880 - offset_in_2880_block as u64;
         }
-        self.reader.seek_relative(num_bytes_to_skip as i64)?;
+        // The reader can be anywhere, including after the end of the data unit
+        self.reader
+            .seek_relative(next_hdu_pos as i64 - cur_pos as i64)?;
 
         Ok(())
     }
-- 
2.43.0


From 113e6059305bb164baef17e16b8cfa05705ce231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:23 +0000
Subject: [PATCH 04/30] fix: count the bytes of bit fields when checking NAXIS1
 of a binary table

---
 src/hdu/header/extension/bintable.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index a801ebd..10f4993 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -509,12 +509,10 @@ impl Xtension for BinTable {
             (naxis1 as usize) * (naxis2 as usize)
         };
 
-        let num_bits_per_row = tforms
-            .iter()
-            .map(|tform| tform.num_bits_field() as u64)
-            .sum::<u64>();
-
-        let num_bytes_per_row = num_bits_per_row >> 3;
+        // each field starts on a byte, even after a bit field that does not fill its last byte
+        let num_bytes_per_row = tforms.iter().fold(0_u64, |num_bytes, tform| {
+            num_bytes.saturating_add(tform.num_bytes_field() as u64)
+        });
         if num_bytes_per_row != naxis1 {
             return Err(Error::StaticError("BinTable NAXIS1 and TFORMS does not give the same amount of bytes the table should have per row."));
         }
-- 
2.43.0


From 1b6bffad6e790d8622cf7afb4225013baccadd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:44 +0000
Subject: [PATCH 05/30] fix: reject headers whose data unit size or number of
 fields is not representable

---
 src/hdu/header/extension/asciitable.rs |  9 +++++--
 src/hdu/header/extension/bintable.rs   | 35 ++++++++++++++++----------
 src/hdu/header/extension/image.rs      | 14 +++++++++--
 src/hdu/header/mod.rs                  |  8 +++++-
 4 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/hdu/header/extension/asciitable.rs b/src/hdu/header/extension/asciitable.rs
index d981f47..f1105db 100644
--- a/src/hdu/header/extension/asciitable.rs
+++ b/src/hdu/header/extension/asciitable.rs
@@ -115,6 +115,11 @@ impl Xtension for AsciiTable {
         let naxis1 = values.check_for_naxisi(1)?;
         let naxis2 = values.check_for_naxisi(2)?;
 
+        // The size of the data unit must be representable
+        if naxis1.checked_mul(naxis2).is_none() {
+            return Err(Error::StaticError("Ascii Table HDU is too large"));
+        }
+
         // PCOUNT
         let pcount = values.check_for_pcount()?;
         if pcount != 0 {
@@ -131,8 +136,8 @@ impl Xtension for AsciiTable {
         let tfields = values.check_for_tfields()?;
 
         // TFORMS
-        let mut tbcols = Vec::with_capacity(tfields);
-        let mut tforms = Vec::with_capacity(tfields);
+        let mut tbcols = Vec::new();
+        let mut tforms = Vec::new();
         for idx_field in 1..=tfields {
             let tbcol = match values.get_parsed(&format!("TBCOL{idx_field}")) {
                 Ok(tbcol) => tbcol,
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 10f4993..195c069 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -215,6 +215,15 @@ impl Xtension for BinTable {
             return Err(Error::StaticError("Ascii Table HDU must have GCOUNT = 1"));
         }
 
+        // The size of the data unit must be representable
+        if naxis1
+            .checked_mul(naxis2)
+            .and_then(|num_bytes| num_bytes.checked_add(pcount))
+            .is_none()
+        {
+            return Err(Error::StaticError("Binary Table HDU is too large"));
+        }
+
         // FIELDS
         let tfields = values.check_for_tfields()?;
 
@@ -288,8 +297,8 @@ impl Xtension for BinTable {
         // in the first row of the table, and the tile containing the last pixel in the image appears in the
         // last row of the binary table.
         let (z_naxisn, z_tilen) = if let Some(z_naxis) = z_naxis {
-            let mut z_naxisn = Vec::with_capacity(z_naxis);
-            let mut z_tilen = Vec::with_capacity(z_naxis);
+            let mut z_naxisn = Vec::new();
+            let mut z_tilen = Vec::new();
 
             for i in 1..=z_naxis {
                 let znaxisn = if let Ok(value) = values.get_parsed(&format!("ZNAXIS{i}")) {
@@ -766,17 +775,17 @@ pub(crate) enum ArrayDescriptorTy {
 impl TFormType {
     pub(crate) fn num_bits_field(&self) -> usize {
         match self {
-            TFormType::L { repeat_count } => repeat_count * L::BITS_SIZE, // Logical
-            TFormType::X { repeat_count } => repeat_count * X::BITS_SIZE, // Bit
-            TFormType::B { repeat_count } => repeat_count * B::BITS_SIZE, // Unsigned byte
-            TFormType::I { repeat_count } => repeat_count * I::BITS_SIZE, // 16-bit integer
-            TFormType::J { repeat_count } => repeat_count * J::BITS_SIZE, // 32-bit integer
-            TFormType::K { repeat_count } => repeat_count * K::BITS_SIZE, // 64-bit integer
-            TFormType::A { repeat_count } => repeat_count * A::BITS_SIZE, // Character
-            TFormType::E { repeat_count } => repeat_count * E::BITS_SIZE, // Single-precision floating point
-            TFormType::D { repeat_count } => repeat_count * D::BITS_SIZE, // Double-precision floating point
-            TFormType::C { repeat_count } => repeat_count * C::BITS_SIZE, // Single-precision complex
-            TFormType::M { repeat_count } => repeat_count * M::BITS_SIZE, // Double-precision complex
+            TFormType::L { repeat_count } => repeat_count.saturating_mul(L::BITS_SIZE), // Logical
+            TFormType::X { repeat_count } => repeat_count.saturating_mul(X::BITS_SIZE), // Bit
+            TFormType::B { repeat_count } => repeat_count.saturating_mul(B::BITS_SIZE), // Unsigned byte
+            TFormType::I { repeat_count } => repeat_count.saturating_mul(I::BITS_SIZE), // 16-bit integer
+            TFormType::J { repeat_count } => repeat_count.saturating_mul(J::BITS_SIZE), // 32-bit integer
+            TFormType::K { repeat_count } => repeat_count.saturating_mul(K::BITS_SIZE), // 64-bit integer
+            TFormType::A { repeat_count } => repeat_count.saturating_mul(A::BITS_SIZE), // Character
+            TFormType::E { repeat_count } => repeat_count.saturating_mul(E::BITS_SIZE), // Single-precision floating point
+            TFormType::D { repeat_count } => repeat_count.saturating_mul(D::BITS_SIZE), // Double-precision floating point
+            TFormType::C { repeat_count } => repeat_count.saturating_mul(C::BITS_SIZE), // Single-precision complex
+            TFormType::M { repeat_count } => repeat_count.saturating_mul(M::BITS_SIZE), // Double-precision complex
             TFormType::P { .. } => P::BITS_SIZE, // Array Descriptor (32-bit)
             TFormType::Q { .. } => Q::BITS_SIZE, // Array Descriptor (64-bit)
         }
diff --git a/src/hdu/header/extension/image.rs b/src/hdu/header/extension/image.rs
index 66ca7bc..6b963e7 100644
--- a/src/hdu/header/extension/image.rs
+++ b/src/hdu/header/extension/image.rs
@@ -28,7 +28,7 @@ impl Image {
 
     /// Get total number of pixels in the image
     pub fn get_num_pixels(&self) -> u64 {
-        if self.naxisn.is_empty() {
+        if self.naxisn.is_empty() || self.naxisn.contains(&0) {
             return 0;
         }
         self.naxisn.iter().product()
@@ -49,7 +49,17 @@ impl Xtension for Image {
         // The size of each NAXIS
         let naxisn = (1..=naxis)
             .map(|naxis_i| values.check_for_naxisi(naxis_i))
-            .collect::<Result<_, _>>()?;
+            .collect::<Result<Box<[u64]>, _>>()?;
+
+        // The size of the data unit must be representable
+        if !naxisn.contains(&0) {
+            naxisn
+                .iter()
+                .try_fold(bitpix.byte_size() as u64, |num_bytes, &n| {
+                    num_bytes.checked_mul(n)
+                })
+                .ok_or(Error::StaticError("Image HDU is too large"))?;
+        }
 
         Ok(Image { bitpix, naxisn })
     }
diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 69054d9..f15b59d 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -154,7 +154,13 @@ impl ValueMap {
     }
 
     fn check_for_tfields(&self) -> Result<usize, Error> {
-        self.get_parsed("TFIELDS")
+        let tfields = self.get_parsed("TFIELDS")?;
+        // FITSv4, sections 7.2.1 and 7.3.1: the maximum permissible value is 999
+        if tfields > 999 {
+            return Err(Error::StaticError("TFIELDS must not exceed 999"));
+        }
+
+        Ok(tfields)
     }
 }
 
-- 
2.43.0


From 28e089138a7a60dfd227839bb11a6f201ad42816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:44 +0000
Subject: [PATCH 06/30] fix: read the logical value F of a binary table as
 false

---
 src/hdu/data/bintable/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 64759f7..9e91585 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -484,7 +484,7 @@ where
 
                 let value = match ty {
                     VariableArrayTy::L => {
-                        let value = self.reader.read_u8().ok()? != 0;
+                        let value = self.reader.read_u8().ok()? == b'T';
                         *num_bytes_to_read -= L::BYTES_SIZE as u64;
                         DataValue::Logical {
                             value,
@@ -624,7 +624,7 @@ where
                             }
 
                             Some(DataValue::Logical {
-                                value: byte != 0,
+                                value: byte == b'T',
                                 column: ColumnId::Index(col_idx),
                                 idx,
                             }) // Determine the count idx inside the field
-- 
2.43.0


From debffc2f438ee32e18065d44d73e26b9fdf5320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:44 +0000
Subject: [PATCH 07/30] fix: read the exact number of bytes of bit fields and
 bit arrays

---
 src/hdu/data/bintable/data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 9e91585..cc6461e 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -405,7 +405,14 @@ where
                 // Go to the HEAP
                 self.reader.seek_relative(off)?;
 
-                let num_bytes_to_read = n_elems * t_byte_size;
+                // Bits are packed into bytes
+                let n_elems = match ty {
+                    VariableArrayTy::X => n_elems.div_ceil(8),
+                    _ => n_elems,
+                };
+                let num_bytes_to_read = n_elems
+                    .checked_mul(t_byte_size)
+                    .ok_or(Error::StaticError("The array is too large"))?;
                 self.state = DataReaderState::HEAP {
                     ty,
                     main_table_pos: pos,
@@ -635,7 +642,7 @@ where
                             self.byte_offset += X::BYTES_SIZE;
 
                             self.item_idx += 1;
-                            if self.item_idx == (*repeat_count / 8) + 1 {
+                            if self.item_idx == repeat_count.div_ceil(8) {
                                 self.seek_to_next_col().ok()?;
                             }
 
-- 
2.43.0


From 8293b83688e1295e71c520914409595057b6e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:44 +0000
Subject: [PATCH 08/30] fix: select no field, empty fields, and seek to a row
 in a binary table

---
 src/hdu/data/bintable/data.rs | 39 ++++++++++++++++++++++++-----------
 src/hdu/data/bintable/row.rs  |  3 ++-
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index cc6461e..08f19f5 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -210,7 +210,10 @@ impl<R> TableData<R> {
             })
             .collect();
 
-        let cols_idx = (0..(ctx.tforms.len())).collect();
+        // A field with a repeat count of 0 holds no value
+        let cols_idx = (0..(ctx.tforms.len()))
+            .filter(|&idx| ctx.tforms[idx].num_bytes_field() > 0)
+            .collect();
 
         let col_idx = 0;
         let item_idx = 0;
@@ -276,9 +279,13 @@ impl<R> TableData<R> {
                     }
                 }
             }
-        ).collect();
+        )
+        // A field with a repeat count of 0 holds no value
+        .filter(|&idx| self.ctx.tforms[idx].num_bytes_field() > 0)
+        .collect();
 
         self.cols_idx.sort_unstable();
+        self.cols_idx.dedup();
 
         // We must go to the first column at this point
         self.seek_to_first_col = true;
@@ -340,15 +347,24 @@ where
                 "The row index specified is > than the number of rows of the table",
             ))
         } else {
+            // if an array was being read from the heap, go back to the main table
+            self.jump_to_main_table()?;
+
             self.col_idx = 0;
             self.row_idx = idx;
             self.item_idx = 0;
+            self.seek_to_first_col = false;
+
+            let first_col_byte_offset = self
+                .cols_idx
+                .first()
+                .map_or(0, |&col_idx| self.col_byte_offsets[col_idx]);
 
             let new_byte_offset =
                 // go to the beginning of the idx-th row
                 (idx as i64) * (self.ctx.naxis1 as i64)
                 // go to the first column of that row
-                + (self.col_byte_offsets[self.cols_idx[0]] as i64);
+                + (first_col_byte_offset as i64);
 
             // Offset for moving from the current position to the new row position
             let off =
@@ -460,20 +476,19 @@ where
     type Item = DataValue;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // First get the column index in the main data table where the reader is
-        let col_idx = self.cols_idx[self.col_idx];
+        // There is no field to read or all the rows have been read
+        if self.cols_idx.is_empty() || self.row_idx >= self.ctx.naxis2 as usize {
+            return None;
+        }
 
         // a select fields has been done, we must offset to the first col
         if self.seek_to_first_col {
-            self.seek_to_first_col = false;
-
-            let off = self.col_byte_offsets[col_idx] as i64;
-            // seek to the next col location
-            self.reader.seek_relative(off).ok()?;
-            // update the byte offset as well
-            self.byte_offset += off as usize;
+            self.seek_to_row(self.row_idx).ok()?;
         }
 
+        // First get the column index in the main data table where the reader is
+        let col_idx = self.cols_idx[self.col_idx];
+
         match &mut self.state {
             DataReaderState::HEAP {
                 ty,
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index 90f8851..f8d5b88 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -13,7 +13,8 @@ pub struct TableRowData<R> {
 
 impl<R> TableRowData<R> {
     pub fn new(data: TableData<R>) -> Self {
-        Self { data, idx_row: 0 }
+        let idx_row = data.row_idx;
+        Self { data, idx_row }
     }
 
     pub fn get_ctx(&self) -> &BinTable {
-- 
2.43.0


From 3a4c71a67e29934381fa5b158895bfaf9208c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:14 +0000
Subject: [PATCH 09/30] fix: do not panic on empty or out of range variable
 length arrays

---
 src/hdu/data/bintable/data.rs | 47 +++++++++++++++++++++++++++--------
 src/hdu/data/bintable/row.rs  |  5 +++-
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 08f19f5..ca6ba67 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -407,13 +407,15 @@ where
             DataReaderState::HEAP { .. } => (),
             DataReaderState::MainTable => {
                 // Move to the HEAP
-                let off =
+                // from the beginning of the main table go to the beginning of the heap
+                // from the beginning of the heap go to the start of the array
+                let heap_off = (self.ctx.theap as u64)
+                    .checked_add(byte_offset)
+                    .filter(|&heap_off| heap_off <= i64::MAX as u64)
+                    .ok_or(Error::StaticError("The array is out of the heap"))?;
+                let off = heap_off as i64
                     // go back to the beginning of the main table data block
-                    - (self.byte_offset as i64)
-                    // from the beginning of the main table go to the beginning of the heap
-                    + self.ctx.theap as i64
-                    // from the beginning of the heap go to the start of the array
-                    + byte_offset as i64;
+                    - (self.byte_offset as i64);
 
                 // Get the current location used to go back to the main table
                 let pos = SeekFrom::Start(self.reader.stream_position()?);
@@ -476,6 +478,21 @@ where
     type Item = DataValue;
 
     fn next(&mut self) -> Option<Self::Item> {
+        loop {
+            if let Some(value) = self.next_value()? {
+                return Some(value);
+            }
+        }
+    }
+}
+
+impl<R> TableData<R>
+where
+    R: Read + Seek + Debug,
+{
+    /// Read the next value, it is `Some(None)` if the field that has been read
+    /// refers to an empty variable length array
+    pub(crate) fn next_value(&mut self) -> Option<Option<DataValue>> {
         // There is no field to read or all the rows have been read
         if self.cols_idx.is_empty() || self.row_idx >= self.ctx.naxis2 as usize {
             return None;
@@ -489,7 +506,7 @@ where
         // First get the column index in the main data table where the reader is
         let col_idx = self.cols_idx[self.col_idx];
 
-        match &mut self.state {
+        let value = match &mut self.state {
             DataReaderState::HEAP {
                 ty,
                 num_bytes_to_read,
@@ -825,7 +842,11 @@ where
 
                             self.byte_offset += P::BYTES_SIZE;
 
-                            if self.heap {
+                            if self.heap && num_elems == 0 {
+                                self.seek_to_next_col().ok()?;
+
+                                return Some(None);
+                            } else if self.heap {
                                 self.jump_to_heap(
                                     *ty,
                                     offset_byte as u64,
@@ -856,7 +877,11 @@ where
 
                             self.byte_offset += Q::BYTES_SIZE;
 
-                            if self.heap {
+                            if self.heap && num_elems == 0 {
+                                self.seek_to_next_col().ok()?;
+
+                                return Some(None);
+                            } else if self.heap {
                                 self.jump_to_heap(*ty, offset_byte, num_elems, *t_byte_size)
                                     .ok()?;
 
@@ -876,7 +901,9 @@ where
                     }
                 }
             }
-        }
+        };
+
+        value.map(Some)
     }
 }
 
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index f8d5b88..ba4a494 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -50,7 +50,10 @@ where
         let mut row_data = vec![];
 
         while self.data.row_idx == self.idx_row {
-            row_data.push(self.data.next()?);
+            // an empty variable length array does not hold any value
+            if let Some(value) = self.data.next_value()? {
+                row_data.push(value);
+            }
         }
 
         self.idx_row += 1;
-- 
2.43.0


From ec518c2d7eed270ce541582e84cafcc2baf8d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:52 +0000
Subject: [PATCH 10/30] fix: let RICE differences wrap around instead of
 overflowing

---
 src/hdu/data/bintable/tile_compressed/rice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/rice.rs b/src/hdu/data/bintable/tile_compressed/rice.rs
index b9a9fac..278635f 100644
--- a/src/hdu/data/bintable/tile_compressed/rice.rs
+++ b/src/hdu/data/bintable/tile_compressed/rice.rs
@@ -285,7 +285,7 @@ where
                             diff = !(diff >> 1);
                         }
 
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
@@ -342,7 +342,7 @@ where
                         } else {
                             diff = !(diff >> 1);
                         }
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
-- 
2.43.0


From 31450a988a26f4f1f85491be1ee6b8f154299992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:53 +0000
Subject: [PATCH 11/30] fix: do not panic when taking the raw bytes of a
 truncated data unit

---
 src/hdu/data/bintable/data.rs | 7 +++++--
 src/hdu/data/image.rs         | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index ca6ba67..bb74f1f 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -166,8 +166,11 @@ where
         let inner = self.reader.get_ref();
         let raw_bytes = inner.as_ref();
 
-        let s = self.start_pos as usize;
-        let e = s + (self.ctx.get_num_bytes_data_block() as usize);
+        // the file may be truncated
+        let s = raw_bytes.len().min(self.start_pos as usize);
+        let e = raw_bytes
+            .len()
+            .min(s.saturating_add(self.ctx.get_num_bytes_data_block() as usize));
         &raw_bytes[s..e]
     }
 }
diff --git a/src/hdu/data/image.rs b/src/hdu/data/image.rs
index 9b5ee0a..15a757c 100644
--- a/src/hdu/data/image.rs
+++ b/src/hdu/data/image.rs
@@ -96,8 +96,11 @@ where
         };
         let raw_bytes = inner.as_ref();
 
-        let s = self.start_pos as usize;
-        let e = s + (self.num_bytes_data_block as usize);
+        // the file may be truncated
+        let s = raw_bytes.len().min(self.start_pos as usize);
+        let e = raw_bytes
+            .len()
+            .min(s.saturating_add(self.num_bytes_data_block as usize));
         &raw_bytes[s..e]
     }
 }
-- 
2.43.0


From 165769e1921935e2f5f1bac798da7d1eec4fb173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:53 +0000
Subject: [PATCH 12/30] fix: check the SIMPLE keyword of the primary HDU in the
 async reader

---
 src/hdu/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hdu/mod.rs b/src/hdu/mod.rs
index 0d33c10..ec94d09 100644
--- a/src/hdu/mod.rs
+++ b/src/hdu/mod.rs
@@ -260,16 +260,21 @@ impl AsyncHDU {
         let cards = consume_cards_async(reader, &mut num_bytes_read).await?;
 
         // Check for SIMPLE keyword
-        let _name: String = "SIMPLE".to_owned();
         if let Card::Value {
-            name: _name,
+            name,
             value: Logical { value: true, .. },
             ..
         } = &cards[0]
         {
-            Ok(AsyncHDU::Primary(
-                async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
-            ))
+            if name == "SIMPLE" {
+                Ok(AsyncHDU::Primary(
+                    async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
+                ))
+            } else {
+                Err(Error::DynamicError(format!(
+                    "Invalid FITS file: expected `SIMPLE` keyword in first card, found `{name}`"
+                )))
+            }
         } else {
             Err(Error::StaticError("not a FITSv4 file"))
         }
-- 
2.43.0


From f482a78e1e9797a63cef3f4647ce951b85868bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:36 +0000
Subject: [PATCH 13/30] fix: do not return stale pixels after a tile that
 cannot be decompressed

---
 .../data/bintable/tile_compressed/pixels.rs   | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 9ed59ab..66ac2ec 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -192,8 +192,6 @@ where
 
             // Update the tile compressed currently decompressed
             let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
 
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
@@ -237,6 +235,9 @@ where
                 SeekFrom::Current(off),
             )
             .ok()?;
+
+            self.desc.n_pixels = num_pixels;
+            self.desc.remaining_pixels = num_pixels;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -292,8 +293,6 @@ where
 
             // Update the tile compressed currently decompressed
             let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
@@ -336,6 +335,9 @@ where
                 SeekFrom::Current(off),
             )
             .ok()?;
+
+            self.desc.n_pixels = num_pixels;
+            self.desc.remaining_pixels = num_pixels;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -398,8 +400,6 @@ where
 
             // Update the tile compressed currently decompressed
             let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
@@ -442,6 +442,9 @@ where
                 SeekFrom::Current(off),
             )
             .ok()?;
+
+            self.desc.n_pixels = num_pixels;
+            self.desc.remaining_pixels = num_pixels;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -516,8 +519,6 @@ where
 
             // Update the tile compressed currently decompressed
             let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
 
             let TileDesc {
                 keywords:
@@ -613,6 +614,9 @@ where
                 SeekFrom::Current(off),
             )
             .ok()?;
+
+            self.desc.n_pixels = num_pixels;
+            self.desc.remaining_pixels = num_pixels;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -694,8 +698,6 @@ where
 
             // Update the tile compressed currently decompressed
             let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
 
             let TileDesc {
                 keywords:
@@ -791,6 +793,9 @@ where
                 SeekFrom::Current(off),
             )
             .ok()?;
+
+            self.desc.n_pixels = num_pixels;
+            self.desc.remaining_pixels = num_pixels;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -856,9 +861,9 @@ where
         let old_pos = SeekFrom::Start(self.get_reader().stream_position()?);
 
         self.get_reader().seek(pos)?;
-        f(self)?;
+        let res = f(self);
         let _ = self.get_reader().seek(old_pos)?;
 
-        Ok(())
+        res
     }
 }
-- 
2.43.0


From 670782e22e6ad270bcfc5b737b32e63b25c63597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:05 +0000
Subject: [PATCH 14/30] fix: decompress the smaller tiles on the border of an
 image

---
 .../data/bintable/tile_compressed/pixels.rs   | 39 +++++++++++++++----
 src/hdu/header/extension/bintable.rs          | 16 ++++++++
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 66ac2ec..d2c1d34 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -52,7 +52,7 @@ where
     desc: TileDesc<K>,
 
     z_tile: Box<[usize]>,
-    //z_naxis: Box<[usize]>,
+    z_naxis: Box<[u64]>,
     z_cmp_type: ZCmpType,
     data_compressed_idx: usize,
 }
@@ -64,6 +64,25 @@ where
     fn get_reader(&mut self) -> &mut R {
         self.row_it.get_reader()
     }
+
+    /// Number of pixels in the tile stored in the n-th row
+    ///
+    /// The tiles found on the border of the image can be smaller
+    fn num_pixels_in_tile(&self, n: usize) -> u64 {
+        let mut n = n as u64;
+        self.z_naxis
+            .iter()
+            .zip(self.z_tile.iter())
+            .map(|(&naxis, &tile)| {
+                let tile = tile as u64;
+                let num_tiles = naxis.div_ceil(tile);
+                let idx = n % num_tiles;
+                n /= num_tiles;
+
+                tile.min(naxis - idx * tile)
+            })
+            .product()
+    }
 }
 
 impl<R, K> It<R, K>
@@ -78,6 +97,7 @@ where
         // This buffer is only used if tile compressed image in the gzip compression is to be found
         let TileCompressedImage {
             z_tilen,
+            z_naxisn,
             z_cmp_type,
             data_compressed_idx,
             ..
@@ -107,7 +127,7 @@ where
             desc,
 
             data_compressed_idx: *data_compressed_idx,
-            //z_naxis: z_naxisn.clone(),
+            z_naxis: z_naxisn.clone(),
             z_tile: z_tilen.clone(),
             z_cmp_type: *z_cmp_type,
         }
@@ -191,7 +211,7 @@ where
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
+            let num_pixels = self.num_pixels_in_tile(row_idx - 1);
 
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
@@ -207,6 +227,7 @@ where
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
+                    buf.resize(num_pixels as usize * std::mem::size_of::<u32>(), 0);
 
                     let reader = row_it.get_reader();
 
@@ -292,7 +313,7 @@ where
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
+            let num_pixels = self.num_pixels_in_tile(row_idx - 1);
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
@@ -307,6 +328,7 @@ where
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
+                    buf.resize(num_pixels as usize * std::mem::size_of::<u32>(), 0);
 
                     let reader = row_it.get_reader();
 
@@ -399,7 +421,7 @@ where
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
+            let num_pixels = self.num_pixels_in_tile(row_idx - 1);
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
@@ -414,6 +436,7 @@ where
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
+                    buf.resize(num_pixels as usize * std::mem::size_of::<u32>(), 0);
 
                     let reader = row_it.get_reader();
 
@@ -518,7 +541,7 @@ where
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
+            let num_pixels = self.num_pixels_in_tile(row_idx - 1);
 
             let TileDesc {
                 keywords:
@@ -586,6 +609,7 @@ where
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
+                    buf.resize(num_pixels as usize * std::mem::size_of::<u32>(), 0);
 
                     let reader = row_it.get_reader();
 
@@ -697,7 +721,7 @@ where
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
+            let num_pixels = self.num_pixels_in_tile(row_idx - 1);
 
             let TileDesc {
                 keywords:
@@ -765,6 +789,7 @@ where
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
+                    buf.resize(num_pixels as usize * std::mem::size_of::<u32>(), 0);
 
                     let reader = row_it.get_reader();
 
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 195c069..57b7e37 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -492,6 +492,18 @@ impl Xtension for BinTable {
                 data_compressed_idx,
             };
 
+            // Tiles cannot be empty and their number of pixels is limited
+            let valid_tiles = tile_compressed
+                .z_naxisn
+                .iter()
+                .zip(tile_compressed.z_tilen.iter())
+                .all(|(&naxis, &tile)| naxis > 0 && tile > 0)
+                && tile_compressed
+                    .z_tilen
+                    .iter()
+                    .try_fold(1_usize, |n, &tile| n.checked_mul(tile))
+                    .is_some_and(|n| n <= i32::MAX as usize);
+
             match (z_cmp_type, z_bitpix) {
                 (ZCmpType::Hcompress1, _) => {
                     warn!("Hcompress compression not supported");
@@ -501,6 +513,10 @@ impl Xtension for BinTable {
                     warn!("PLI0_1 compression not supported");
                     None
                 }
+                _ if !valid_tiles => {
+                    warn!("ZNAXISn and ZTILEn do not describe valid tiles. Tile compressed image discarded");
+                    None
+                }
                 (_, Bitpix::I64) => {
                     warn!("Only bitpix u8, i16, i32, f32, f64 are supported");
                     None
-- 
2.43.0


From ae0e81cf1c2192c7d83ec9cc012493f64dd6a8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:24 +0000
Subject: [PATCH 15/30] fix: reject tile compressed images whose fields cannot
 hold tiles or quantization parameters

---
 .../data/bintable/tile_compressed/pixels.rs   |  8 +++---
 src/hdu/header/extension/bintable.rs          | 28 +++++++++++++++++++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index d2c1d34..c33bf79 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -561,12 +561,12 @@ where
 
             *quantiz = match z_quantiz {
                 ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
+                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize) % 10000;
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither1 { i1 }
                 }
                 ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
+                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize) % 10000;
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither2 { i1 }
                 }
@@ -741,12 +741,12 @@ where
 
             *quantiz = match z_quantiz {
                 ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
+                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize) % 10000;
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither1 { i1 }
                 }
                 ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
+                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize) % 10000;
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither2 { i1 }
                 }
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 57b7e37..af84bce 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -492,6 +492,30 @@ impl Xtension for BinTable {
                 data_compressed_idx,
             };
 
+            // The compressed tiles must be stored in the heap and the quantization parameters
+            // must be numbers
+            let is_float = matches!(z_bitpix, Bitpix::F32 | Bitpix::F64);
+            let valid_fields = matches!(
+                tforms[data_compressed_idx],
+                TFormType::P { .. } | TFormType::Q { .. }
+            ) && (!is_float
+                || ["ZSCALE", "ZZERO"].iter().all(|ttype| {
+                    find_field_by_ttype(&ttypes, ttype).is_some_and(|idx| {
+                        matches!(
+                            tforms[idx],
+                            TFormType::E { repeat_count: 1 } | TFormType::D { repeat_count: 1 }
+                        )
+                    })
+                }) && find_field_by_ttype(&ttypes, "ZBLANK").is_none_or(|idx| {
+                    matches!(
+                        tforms[idx],
+                        TFormType::B { repeat_count: 1 }
+                            | TFormType::I { repeat_count: 1 }
+                            | TFormType::J { repeat_count: 1 }
+                            | TFormType::K { repeat_count: 1 }
+                    )
+                }));
+
             // Tiles cannot be empty and their number of pixels is limited
             let valid_tiles = tile_compressed
                 .z_naxisn
@@ -513,6 +537,10 @@ impl Xtension for BinTable {
                     warn!("PLI0_1 compression not supported");
                     None
                 }
+                _ if !valid_fields => {
+                    warn!("The fields of the tiles are not valid. Tile compressed image discarded");
+                    None
+                }
                 _ if !valid_tiles => {
                     warn!("ZNAXISn and ZTILEn do not describe valid tiles. Tile compressed image discarded");
                     None
-- 
2.43.0


From bf0619c676e2e532c2ef9f75676f839c66cbbe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:58 +0000
Subject: [PATCH 16/30] fix: do not overflow when computing the location of a
 tile in the heap

---
 .../data/bintable/tile_compressed/pixels.rs   | 66 ++++++-------------
 1 file changed, 21 insertions(+), 45 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index c33bf79..a2b3da7 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -10,6 +10,7 @@ use crate::error::Error;
 use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZCmpType, ZQuantiz};
 use crate::hdu::header::{Bitpix, Header};
 use crate::{TableData, TableRowData};
+use std::convert::TryFrom;
 use std::io::{Read, Seek, SeekFrom};
 
 #[derive(Debug)]
@@ -83,6 +84,21 @@ where
             })
             .product()
     }
+
+    /// Offset from the end of the row that has just been read to a tile stored in the heap
+    ///
+    /// * `byte_offset` - Position of the tile from the start of the heap
+    fn tile_offset(&self, byte_offset: u64) -> Option<i64> {
+        let ctx = self.row_it.get_ctx();
+        // from the beginning of the main table go to the beginning of the heap
+        // and from the beginning of the heap go to the start of the array
+        let off = i64::try_from((ctx.theap as u64).checked_add(byte_offset)?).ok()?;
+        // go back to the beginning of the main table data block
+        let row_idx = self.row_it.get_row_idx() as u64;
+        let main_data_table_offset = i64::try_from(row_idx * ctx.naxis1).ok()?;
+
+        Some(off - main_data_table_offset)
+    }
 }
 
 impl<R, K> It<R, K>
@@ -207,7 +223,6 @@ where
                 _ => unreachable!(),
             };
 
-            let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
@@ -216,14 +231,7 @@ where
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+            let off = self.tile_offset(byte_offset)?;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -309,7 +317,6 @@ where
                 _ => unreachable!(),
             };
 
-            let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
@@ -317,14 +324,7 @@ where
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+            let off = self.tile_offset(byte_offset)?;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -417,7 +417,6 @@ where
                 _ => unreachable!(),
             };
 
-            let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
@@ -425,14 +424,7 @@ where
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+            let off = self.tile_offset(byte_offset)?;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -537,7 +529,6 @@ where
                 _ => unreachable!(),
             };
 
-            let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
@@ -598,14 +589,7 @@ where
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+            let off = self.tile_offset(byte_offset)?;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -717,7 +701,6 @@ where
                 _ => unreachable!(),
             };
 
-            let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
@@ -778,14 +761,7 @@ where
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+            let off = self.tile_offset(byte_offset)?;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
-- 
2.43.0


From de90f9634a429b0644dcd34b7e38333bbf6ceb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:26 +0000
Subject: [PATCH 17/30] fix: find the fields of a tile in a row holding several
 values per field

---
 src/hdu/data/bintable/tile_compressed/mod.rs  | 22 +++++++++--------
 .../data/bintable/tile_compressed/pixels.rs   |  3 ++-
 src/hdu/header/extension/bintable.rs          | 24 +++++++++++++++++++
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index 7668cac..f05d7b2 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -40,11 +40,11 @@ where
 
 #[derive(Debug)]
 pub struct F32Keywords {
-    /// Idx column storing z_scale values for each tile
+    /// Idx among the values of a row of the z_scale value of each tile
     z_scale_idx: usize,
-    /// Idx column storing z_zero values for each tile
+    /// Idx among the values of a row of the z_zero value of each tile
     z_zero_idx: usize,
-    /// Idx column storing z_blank values for each tile
+    /// Idx among the values of a row of the z_blank value of each tile
     z_blank_idx: Option<usize>,
 
     /// Dither
@@ -66,11 +66,11 @@ pub struct F32Keywords {
 
 #[derive(Debug)]
 pub struct F64Keywords {
-    /// Idx column storing z_scale values for each tile
+    /// Idx among the values of a row of the z_scale value of each tile
     z_scale_idx: usize,
-    /// Idx column storing z_zero values for each tile
+    /// Idx among the values of a row of the z_zero value of each tile
     z_zero_idx: usize,
-    /// Idx column storing z_blank values for each tile
+    /// Idx among the values of a row of the z_blank value of each tile
     z_blank_idx: Option<usize>,
 
     /// Dither
@@ -175,13 +175,14 @@ impl Keywords for F32Keywords {
         } = config;
 
         let ctx = header.get_xtension();
-        let z_scale_idx = ctx.find_field_by_ttype("ZSCALE").unwrap();
-        let z_zero_idx = ctx.find_field_by_ttype("ZZERO").unwrap();
+        let z_scale_idx = ctx.first_value_idx(ctx.find_field_by_ttype("ZSCALE").unwrap());
+        let z_zero_idx = ctx.first_value_idx(ctx.find_field_by_ttype("ZZERO").unwrap());
 
         let mut z_blank = None;
         let z_blank_idx = ctx
             // Check for a field named ZBLANK
             .find_field_by_ttype("ZBLANK")
+            .map(|idx| ctx.first_value_idx(idx))
             .or_else(|| {
                 z_blank = header
                     .get_parsed("ZBLANK")
@@ -217,13 +218,14 @@ impl Keywords for F64Keywords {
         } = config;
 
         let ctx = header.get_xtension();
-        let z_scale_idx = ctx.find_field_by_ttype("ZSCALE").unwrap();
-        let z_zero_idx = ctx.find_field_by_ttype("ZZERO").unwrap();
+        let z_scale_idx = ctx.first_value_idx(ctx.find_field_by_ttype("ZSCALE").unwrap());
+        let z_zero_idx = ctx.first_value_idx(ctx.find_field_by_ttype("ZZERO").unwrap());
 
         let mut z_blank = None;
         let z_blank_idx = ctx
             // Check for a field named ZBLANK
             .find_field_by_ttype("ZBLANK")
+            .map(|idx| ctx.first_value_idx(idx))
             .or_else(|| {
                 z_blank = header
                     .get_parsed("ZBLANK")
diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index a2b3da7..b50be2f 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -55,6 +55,7 @@ where
     z_tile: Box<[usize]>,
     z_naxis: Box<[u64]>,
     z_cmp_type: ZCmpType,
+    /// Index of the compressed tile among the values of a row
     data_compressed_idx: usize,
 }
 
@@ -142,7 +143,7 @@ where
 
             desc,
 
-            data_compressed_idx: *data_compressed_idx,
+            data_compressed_idx: header.get_xtension().first_value_idx(*data_compressed_idx),
             z_naxis: z_naxisn.clone(),
             z_tile: z_tilen.clone(),
             z_cmp_type: *z_cmp_type,
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index af84bce..4461667 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -89,6 +89,30 @@ impl BinTable {
         find_field_by_ttype(&self.ttypes, ttype)
     }
 
+    /// Index of the first value of a field among the values of a row, when the variable length
+    /// arrays are not read from the heap
+    pub(crate) fn first_value_idx(&self, field_idx: usize) -> usize {
+        self.tforms
+            .iter()
+            .take(field_idx)
+            .map(|tform| match tform {
+                TFormType::L { repeat_count }
+                | TFormType::B { repeat_count }
+                | TFormType::I { repeat_count }
+                | TFormType::J { repeat_count }
+                | TFormType::K { repeat_count }
+                | TFormType::A { repeat_count }
+                | TFormType::E { repeat_count }
+                | TFormType::D { repeat_count }
+                | TFormType::C { repeat_count }
+                | TFormType::M { repeat_count } => *repeat_count,
+                // the bits are given byte by byte
+                TFormType::X { .. } => tform.num_bytes_field(),
+                TFormType::P { .. } | TFormType::Q { .. } => 1,
+            })
+            .sum()
+    }
+
     pub fn get_z_image(&self) -> &Option<TileCompressedImage> {
         &self.z_image
     }
-- 
2.43.0


From 6b6e3e80bac38d65973f807afdf054790ee76e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:08 +0000
Subject: [PATCH 18/30] fix: a CONTINUE record only continues a string it
 immediately follows

---
 src/hdu/header/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index f15b59d..58ef6fe 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -315,7 +315,8 @@ fn process_cards(cards: &[Card]) -> Result<ValueMap, Error> {
                 }
             }
             // TODO log skipped card at debug level
-            _ => ( /* NOOP */),
+            // FITS document 4.2.1.2: only a CONTINUE record that immediately follows continues a string
+            _ => kw = None,
         }
     }
     Err(Error::StaticError("Missing END card"))
-- 
2.43.0


From 4bba1e150bef0844dac016a1f63bd9c076d70ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:29 +0000
Subject: [PATCH 19/30] fix: keep the dithering sequence in step after an
 undefined pixel

---
 src/hdu/data/bintable/tile_compressed/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index f05d7b2..5a222c0 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -96,6 +96,13 @@ impl F64Keywords {
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
+                // the pixels that are not defined take a random value as well
+                if let Quantiz::SubtractiveDither1 { i1 } | Quantiz::SubtractiveDither2 { i1 } =
+                    &mut self.quantiz
+                {
+                    *i1 = (*i1 + 1) % N_RANDOM;
+                }
+
                 return f32::NAN;
             }
         }
@@ -133,6 +140,13 @@ impl F32Keywords {
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
+                // the pixels that are not defined take a random value as well
+                if let Quantiz::SubtractiveDither1 { i1 } | Quantiz::SubtractiveDither2 { i1 } =
+                    &mut self.quantiz
+                {
+                    *i1 = (*i1 + 1) % N_RANDOM;
+                }
+
                 return f32::NAN;
             }
         }
-- 
2.43.0


From bc4d8c05d7701da045765f09e17ea8e81afd999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:31 +0000
Subject: [PATCH 20/30] fix: read a keyword as an enumeration, so that ZQUANTIZ
 is recognized

---
 src/card.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/card.rs b/src/card.rs
index ff5be0c..bfedd67 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -498,9 +498,27 @@ impl<'de> Deserializer<'de> for &'de Value {
         }
     }
 
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        match self {
+            // a string names a unit variant
+            Value::String { value, comment: _ } => {
+                visitor.visit_enum(value.as_str().into_deserializer())
+            }
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit
-        seq tuple tuple_struct map struct enum identifier ignored_any
+        seq tuple tuple_struct map struct identifier ignored_any
         newtype_struct unit_struct
     }
 }
-- 
2.43.0


From 161ed3012a67ad97edf3862253eacfc6318bf9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:53 +0000
Subject: [PATCH 21/30] fix: end the asynchronous iteration for good once the
 last HDU has been read

---
 src/async_fits.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/async_fits.rs b/src/async_fits.rs
index 4b6d036..db05267 100644
--- a/src/async_fits.rs
+++ b/src/async_fits.rs
@@ -194,7 +194,12 @@ where
 
                     Poll::Ready(Some(Err(e)))
                 }
-                None => Poll::Ready(None),
+                None => {
+                    // the end has been reached, there is nothing to be read by future next calls
+                    self.error_parsing_encountered = true;
+
+                    Poll::Ready(None)
+                }
             }
         }
     }
-- 
2.43.0


From 6534a58eeead5afef878884c164e931859dd62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:34 +0000
Subject: [PATCH 22/30] fix: do not overflow when reading a value of a very
 large image

---
 src/hdu/data/iter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/iter.rs b/src/hdu/data/iter.rs
index ccea367..b622420 100644
--- a/src/hdu/data/iter.rs
+++ b/src/hdu/data/iter.rs
@@ -123,6 +123,7 @@ where
     }
 }
 
+use std::convert::TryFrom;
 use std::io::Seek;
 impl<R, T> It<R, T>
 where
@@ -139,8 +140,10 @@ where
             Err(Error::StaticError("Value to retrieve is out of bounds"))
         } else {
             // Get the position of the reader since the start of the stream
-            let t_bytes = std::mem::size_of::<T>() as i64;
-            let off = (idx as i64 - self.cur_idx as i64) * t_bytes;
+            let t_bytes = std::mem::size_of::<T>() as i128;
+            let off = (idx as i128 - self.cur_idx as i128) * t_bytes;
+            let off = i64::try_from(off)
+                .map_err(|_| Error::StaticError("Value to retrieve is out of bounds"))?;
 
             self.reader.seek_relative(off)?;
             self.cur_idx = idx;
-- 
2.43.0


From 1ca67b7a1c181ee7b2f623fb728c148e48c730f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:20 +0000
Subject: [PATCH 23/30] fix: go on safely after an array that cannot be reached

---
 src/hdu/data/bintable/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index bb74f1f..c87863d 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -335,7 +335,7 @@ where
 
         self.reader.seek_relative(off)?;
         // update the byte offset as well
-        self.byte_offset += off as usize;
+        self.byte_offset = (self.byte_offset as i64 + off) as usize;
 
         Ok(())
     }
-- 
2.43.0


From c5c02767f880954f2b23435dea5159dfc92dae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:20 +0000
Subject: [PATCH 24/30] fix: reject binary tables larger than the offsets that
 move the reader

---
 src/hdu/header/extension/bintable.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 4461667..1cae3d6 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -239,10 +239,12 @@ impl Xtension for BinTable {
             return Err(Error::StaticError("Ascii Table HDU must have GCOUNT = 1"));
         }
 
-        // The size of the data unit must be representable
+        // The size of the data unit must be representable and its bytes must be reachable
+        // by the (signed) offsets used to move the reader
         if naxis1
             .checked_mul(naxis2)
             .and_then(|num_bytes| num_bytes.checked_add(pcount))
+            .filter(|&num_bytes| num_bytes <= i64::MAX as u64)
             .is_none()
         {
             return Err(Error::StaticError("Binary Table HDU is too large"));
-- 
2.43.0


From 478dd54edfcac8bdca6ffb5f8edf56116d9cd216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:34 +0000
Subject: [PATCH 25/30] fix: count the leading zeros of a Rice code of any
 length

A code that starts with 2^28 zero bytes or more overflowed the counter.
---
 src/hdu/data/bintable/tile_compressed/rice.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/rice.rs b/src/hdu/data/bintable/tile_compressed/rice.rs
index 278635f..7ffcaa8 100644
--- a/src/hdu/data/bintable/tile_compressed/rice.rs
+++ b/src/hdu/data/bintable/tile_compressed/rice.rs
@@ -319,12 +319,15 @@ where
                 } => {
                     while j < buf.len() && i < imax {
                         /* count number of leading zeros */
+                        let mut nzero = 0u32;
                         while b == 0 {
-                            nbits += 8;
+                            nzero = nzero.wrapping_add(nbits as u32);
+                            nbits = 8;
                             b = self.reader.read_u8()? as u32;
                         }
-                        let nzero = nbits - NONZERO_COUNT[b as usize];
-                        nbits -= nzero + 1;
+                        let nlead = nbits - NONZERO_COUNT[b as usize];
+                        nzero = nzero.wrapping_add(nlead as u32);
+                        nbits -= nlead + 1;
                         /* flip the leading one-bit */
                         b ^= 1 << nbits;
                         /* get the FS trailing bits */
@@ -333,7 +336,7 @@ where
                             b = (b << 8) | (self.reader.read_u8()? as u32);
                             nbits += 8;
                         }
-                        let mut diff = ((nzero as u32) << fs) | (b >> nbits);
+                        let mut diff = (nzero << fs) | (b >> nbits);
                         b &= (1 << nbits) - 1;
 
                         /* undo mapping and differencing */
-- 
2.43.0


From 3952d8a8dd6185b86921268db21c348b6f6f2bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:34 +0000
Subject: [PATCH 26/30] fix: end of a Rice block in tiles of nearly 2^31 pixels

The sum of the index of a pixel and of the block size overflowed before it was
limited to the number of pixels.
---
 src/hdu/data/bintable/tile_compressed/rice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdu/data/bintable/tile_compressed/rice.rs b/src/hdu/data/bintable/tile_compressed/rice.rs
index 7ffcaa8..6713c04 100644
--- a/src/hdu/data/bintable/tile_compressed/rice.rs
+++ b/src/hdu/data/bintable/tile_compressed/rice.rs
@@ -188,7 +188,7 @@ where
 
                     b &= (1 << nbits) - 1;
                     /* loop over the next block */
-                    let imax = (i + self.nblock).min(self.nx);
+                    let imax = i + self.nblock.min(self.nx - i);
 
                     self.state = if fs < 0 {
                         RICEState::LowEntropyDecoding {
-- 
2.43.0


From dd46b9d1e10854df1117dc9cd49e8f3d19097057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:57 +0000
Subject: [PATCH 27/30] fix: start of the dithering sequence of a tile

Row numbers and ZDITHER0 both start at 1 and the sequence is indexed from 0: the
first tile of an image with ZDITHER0 = 1 starts from the first random number (FITS
standard, section 10.2.1), where the second one was taken.
---
 src/hdu/data/bintable/tile_compressed/pixels.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index b50be2f..5c721ad 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -553,12 +553,14 @@ where
 
             *quantiz = match z_quantiz {
                 ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize) % 10000;
+                    // row number and seed both start at 1, hence the 10000 - 1
+                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize + 9999) % 10000;
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither1 { i1 }
                 }
                 ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize) % 10000;
+                    // row number and seed both start at 1, hence the 10000 - 1
+                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize + 9999) % 10000;
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither2 { i1 }
                 }
@@ -725,12 +727,14 @@ where
 
             *quantiz = match z_quantiz {
                 ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize) % 10000;
+                    // row number and seed both start at 1, hence the 10000 - 1
+                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize + 9999) % 10000;
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither1 { i1 }
                 }
                 ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize) % 10000;
+                    // row number and seed both start at 1, hence the 10000 - 1
+                    let i0 = (row_idx - 1 + z_dither_0.rem_euclid(10000) as usize + 9999) % 10000;
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither2 { i1 }
                 }
-- 
2.43.0


From 0b00f37dfc3830c29233408b5b3b02d74f424b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:00 +0000
Subject: [PATCH 28/30] fix: block sizes of Rice coding that do not fit 8 bits

BLOCKSIZE values over 255 were read as the default of 32.
---
 src/hdu/header/extension/bintable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 1cae3d6..b7fd414 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -180,7 +180,7 @@ pub(crate) enum ZCmpType {
     Rice {
         /// The block size used should be recorded in the compressed image header with
         /// ZNAMEn = `BLOCKSIZE`
-        blocksize: u8,
+        blocksize: u16,
         /// The number of 8-bit bytes in each original pixel. Default value is 4 (32-bits)
         /// Should be recorded in the compressed image header with ZNAMEn = `BYTEPIX`
         bytepix: u8,
-- 
2.43.0


From fc46d1cca92137faae170019b0af697b82511be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:23 +0000
Subject: [PATCH 29/30] fix: array descriptors with a repeat count of 0

The field takes no byte in the row (FITS standard, section 7.3.5); a descriptor was
counted all the same, so that the table was refused.
---
 src/hdu/header/extension/bintable.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index b7fd414..0a5d05f 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -461,6 +461,9 @@ impl Xtension for BinTable {
                     'C' => TFormType::C { repeat_count },
                     // Double-precision complex
                     'M' => TFormType::M { repeat_count },
+                    // A repeat count of 0: there is no array descriptor, the field is empty
+                    'P' if repeat_count == 0 => TFormType::B { repeat_count },
+                    'Q' if repeat_count == 0 => TFormType::B { repeat_count },
                     // Array Descriptor 32-bit
                     'P' => {
                         let (t_byte_size, ty) = compute_ty_array_desc()?;
-- 
2.43.0


From cc6e273160cc0ee692ad1bbbcef9afffee3559e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:31 +0000
Subject: [PATCH 30/30] fix: a value that is not valid keeps its text

A text that starts like a number and is none (12-DEC-1998) was given with
every D replaced by E, from the attempt to read a D exponent.
---
 src/card.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/card.rs b/src/card.rs
index bfedd67..af5eacc 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -261,8 +261,8 @@ fn parse_number(v: String, c: Option<String>) -> Result<Value, Error> {
         })
     } else {
         // fallback to D as an exponent, cf. FITSv4, section 4.2.4 Real floating-point number
-        let v = v.replace('D', "E");
-        if let Ok(val) = v.parse::<f64>() {
+        // (an invalid value keeps its text)
+        if let Ok(val) = v.replace('D', "E").parse::<f64>() {
             Ok(Value::Float {
                 value: val,
                 comment: c,
-- 
2.43.0

