From a2ff691f5332ce58cc37fe8575248ade7564d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 01/44] fix: report malformed DeviceSQL strings instead of
 panicking

A short string header of 0x01 and a long string length below 4 underflowed
while parsing, and displaying ASCII content that is not valid UTF-8 panicked.
---
 src/pdb/string.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 321f3f7..b4e594c 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -150,11 +150,9 @@ impl fmt::Display for DeviceSQLString {
             | DeviceSQLStringImpl::Long {
                 content: LongBody::Ascii(content),
                 ..
-            } => {
-                f.write_str(std::str::from_utf8(content).expect(
-                    "internal invariant violated: ASCII/UTF-8 content expected to be valid",
-                ))
-            }
+                // NOTE: Content that was read from a file is not necessarily valid, and just like
+                // for UTF-16 below, invalid sequences are replaced here while into_string() is strict.
+            } => f.write_str(&String::from_utf8_lossy(content)),
             DeviceSQLStringImpl::Long {
                 content: LongBody::Isrc(null_str),
             } => {
@@ -220,8 +218,9 @@ enum DeviceSQLStringImpl {
         // To differentiate between the two variants, we test the LSB of the
         // first byte (`header` here, `flags` in Long). If its set, the
         // string being parsed is a of the ShortASCII kind, if its not, its
-        // the Long form.
-        #[br(temp, assert(header & 0b1 == 1))]
+        // the Long form. The encoded length includes the header byte itself,
+        // so it can never be zero.
+        #[br(temp, assert(header & 0b1 == 1 && header >> 1 != 0))]
         #[bw(calc = (((content.len() + 1) << 1) | 1) as u8)]
         header: u8,
 
@@ -235,7 +234,8 @@ enum DeviceSQLStringImpl {
         #[bw(calc = content.flags())]
         flags: u8,
 
-        #[br(temp)]
+        // The length includes the 4 bytes of flags, length and padding.
+        #[br(temp, assert(length >= 4))]
         #[bw(calc = content.byte_count().unwrap() + 4)]
         length: u16,
 
-- 
2.43.0


From bcd1037d6a7e5894f738ae0013ce8e8e8e3aee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 02/44] fix: refuse text whose UTF-16 form is too long for a
 DeviceSQL string

The length was only checked in UTF-8, so that writing the accepted string
overflowed the 16-bit length field.
---
 src/pdb/string.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index b4e594c..0f9318d 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -18,6 +18,8 @@ use std::{convert::TryInto, fmt, str::FromStr};
 use thiserror::Error;
 
 const MAX_SHORTSTR_SIZE: usize = ((u8::MAX >> 1) - 1) as usize;
+/// Size of the flags, length and padding in front of the body of a long string.
+const LONG_HEADER_SIZE: u16 = 4;
 
 /// Error Objects occurring when dealing with [DeviceSQLString]'s
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Error)]
@@ -75,11 +77,15 @@ impl DeviceSQLString {
                     content: LongBody::Ascii(string.as_bytes().to_owned()),
                 }))
             } else {
-                Ok(Self(DeviceSQLStringImpl::Long {
-                    // note: The DeviceSQL database may only support UCS-2 so
-                    // we might need to do some additional filtering here
-                    content: LongBody::Ucs2le(string.encode_utf16().collect()),
-                }))
+                // note: The DeviceSQL database may only support UCS-2 so
+                // we might need to do some additional filtering here
+                let content = LongBody::Ucs2le(string.encode_utf16().collect());
+                // The UTF-16 form can be almost twice as long as the UTF-8 form, and the header
+                // needs to fit as well.
+                if content.byte_count()? > u16::MAX - LONG_HEADER_SIZE {
+                    return Err(StringError::TooLong);
+                }
+                Ok(Self(DeviceSQLStringImpl::Long { content }))
             }
         } else {
             Err(StringError::TooLong)
-- 
2.43.0


From a497a3246c8a56d3fe6f5363203c22f4473338b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 03/44] fix: refuse ISRCs that contain the string terminator

---
 src/pdb/string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 0f9318d..d1e58e1 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -20,6 +20,8 @@ use thiserror::Error;
 const MAX_SHORTSTR_SIZE: usize = ((u8::MAX >> 1) - 1) as usize;
 /// Size of the flags, length and padding in front of the body of a long string.
 const LONG_HEADER_SIZE: u16 = 4;
+/// Number of characters in an ISRC.
+const ISRC_SIZE: usize = 12;
 
 /// Error Objects occurring when dealing with [DeviceSQLString]'s
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Error)]
@@ -104,7 +106,7 @@ impl DeviceSQLString {
         }
         // basic validation taken from
         // https://isrc.ifpi.org/downloads/ISRC_Bulletin-2015-01.pdf
-        if string.len() != 12 || !string.is_ascii() {
+        if string.len() != ISRC_SIZE || !string.is_ascii() || string.contains('\0') {
             return Err(StringError::InvalidISRC);
         }
         Ok(Self(DeviceSQLStringImpl::Long {
-- 
2.43.0


From ac76627b958e5c087d046004ab52fcc22094d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 04/44] fix: do not read UTF-16 text starting with byte 0x03 as
 an ISRC
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Text such as "ăbc" is stored with 0x03 as the first byte of its UTF-16 body,
which was taken for the ISRC marker: the text was cut at the next NUL byte
and changed when written back.
---
 src/pdb/string.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index d1e58e1..f395b0a 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -13,7 +13,7 @@
 
 use super::PageHeapObject;
 use crate::pdb::offset_array::OffsetArrayItemAlignment;
-use binrw::binrw;
+use binrw::{binrw, BinResult};
 use std::{convert::TryInto, fmt, str::FromStr};
 use thiserror::Error;
 
@@ -261,9 +261,15 @@ enum LongBody {
     // instead of the stricter ISRC
 
     // ISRC strings are a bug/flaw in pioneers implementation, this is technically
-    // a semi-dirty workaround
+    // a semi-dirty workaround. UTF-16 text can start with a 0x3 byte as well (e.g. "ă"),
+    // hence only accept what either has the size of an ISRC or can't be UTF-16.
     #[br(pre_assert(flags == 0x90))]
-    Isrc(#[brw(magic = 0x3u8)] binrw::NullString),
+    #[br(pre_assert(usize::from(len) == ISRC_SIZE + 2 || len % 2 == 1))]
+    Isrc(
+        #[brw(magic = 0x3u8)]
+        #[br(parse_with = parse_isrc, args(len - 1))]
+        binrw::NullString,
+    ),
     #[br(pre_assert(flags == 0x40))]
     Ascii(#[br(count = usize::from(len))] Vec<u8>),
     #[br(pre_assert(flags == 0x90))]
@@ -271,6 +277,23 @@ enum LongBody {
     Ucs2le(#[br(count = usize::from(len / 2))] Vec<u16>),
 }
 
+/// Parse ASCII text that is terminated by the only NUL byte at the end of its `size` bytes.
+#[binrw::parser(reader)]
+fn parse_isrc(size: u16) -> BinResult<binrw::NullString> {
+    let pos = reader.stream_position()?;
+    let mut bytes = vec![0; size.into()];
+    reader.read_exact(&mut bytes)?;
+    match bytes.split_last() {
+        Some((0, text)) if text.is_ascii() && !text.contains(&0) => {
+            Ok(binrw::NullString(text.to_vec()))
+        }
+        _ => Err(binrw::Error::AssertFail {
+            pos,
+            message: "not a NUL-terminated ISRC".to_string(),
+        }),
+    }
+}
+
 impl LongBody {
     pub fn byte_count(&self) -> Result<u16, StringError> {
         match self {
-- 
2.43.0


From 1aa64c9b606c676e126eadb09b6be344b948a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 05/44] fix: report page number 0 as not present instead of
 underflowing

---
 src/pdb/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index d87d81b..8b62eaa 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -102,10 +102,10 @@ impl<R: Read + Seek> Database<R> {
 
     /// Loads a page into memory.
     pub fn load_page(&mut self, index: PageIndex) -> RekordcrateResult<&mut Page> {
-        let page_entry = self
-            .content
-            .pages
-            .get_mut(index.0 as usize - 1)
+        // Page 0 is occupied by the file header.
+        let page_entry = (index.0 as usize)
+            .checked_sub(1)
+            .and_then(|slot| self.content.pages.get_mut(slot))
             .ok_or_else(|| RekordcrateError::PageNotPresent(index))?;
         if let LazyPage::NotLoaded = page_entry {
             let page = read_page(
-- 
2.43.0


From 063d533fd9b39118585131e362ab10e42d0c4cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 06/44] fix: do not let I/O errors and neighbouring pages leak
 into parsed pages

---
 src/pdb/io.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 8b62eaa..8c2f137 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -22,7 +22,7 @@ use super::*;
 use crate::util::{RekordcrateError, RekordcrateResult, TableIndex};
 use binrw::{binrw, io::SeekFrom, BinRead, BinResult, BinWrite, Endian};
 use fallible_iterator::{FallibleIterator, IteratorExt};
-use std::io::{Read, Seek, Write};
+use std::io::{Cursor, Read, Seek, Write};
 
 /// A lazily loaded PDB database.
 #[binrw]
@@ -75,7 +75,14 @@ fn read_page<IO: Read + Seek>(
     let endian = Endian::Little;
     let page_offset = SeekFrom::Start(page_index.offset(page_size));
     io.seek(page_offset).map_err(binrw::Error::Io)?;
-    let page = Page::read_options(io, endian, (page_size, db_type))?;
+    // Fetch the whole page before parsing it. The parser treats a failing read like a mismatch
+    // where it tries alternatives, so parsing directly from `io` could turn an I/O error into a
+    // different but seemingly valid page. It also must not stray into other pages.
+    let mut bytes = Vec::new();
+    io.take(page_size.into())
+        .read_to_end(&mut bytes)
+        .map_err(binrw::Error::Io)?;
+    let page = Page::read_options(&mut Cursor::new(bytes), endian, (page_size, db_type))?;
     Ok(page)
 }
 
-- 
2.43.0


From 5504c6df8c2f2b414702c9ecc286980e3457f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 07/44] fix: validate the PDB page size and bound the page list
 by the file size

---
 src/pdb/io.rs  | 49 +++++++++++++++++++++++++++++++++++++++++++------
 src/pdb/mod.rs | 11 +++++++++--
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 8c2f137..c700950 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -27,7 +27,7 @@ use std::io::{Cursor, Read, Seek, Write};
 /// A lazily loaded PDB database.
 #[binrw]
 #[brw(little)]
-#[br(import(db_type: DatabaseType))]
+#[br(import(db_type: DatabaseType, num_pages: usize))]
 #[derive(Debug, PartialEq)]
 struct LazyDatabase {
     /// The PDB header.
@@ -35,7 +35,7 @@ struct LazyDatabase {
     #[bw(pad_size_to = header.page_size as usize)]
     header: Header,
     /// The pages of the database, initially not loaded.
-    #[br(calc = vec![LazyPage::NotLoaded; header.next_unused_page.0.saturating_sub(1) as usize])]
+    #[br(calc = vec![LazyPage::NotLoaded; num_pages])]
     #[bw(args(header.page_size))]
     pages: Vec<LazyPage>,
 }
@@ -66,6 +66,45 @@ impl BinWrite for LazyPage {
     }
 }
 
+/// Reads the file header, without loading any of the pages.
+fn read_database<IO: Read + Seek>(
+    io: &mut IO,
+    db_type: DatabaseType,
+) -> RekordcrateResult<LazyDatabase> {
+    let endian = Endian::Little;
+    let file_size = io.seek(SeekFrom::End(0))?;
+    io.seek(SeekFrom::Start(0))?;
+
+    // The file header fills the first page, so the page size is needed to read it completely.
+    let mut bytes = vec![0; size_of::<[u32; 4]>()];
+    io.read_exact(&mut bytes)?;
+    let mut cursor = Cursor::new(&bytes);
+    let [_magic, page_size, _num_tables, next_unused_page] =
+        <[u32; 4]>::read_options(&mut cursor, endian, ())?;
+    if page_size < Page::MIN_BINARY_SIZE {
+        return Err(RekordcrateError::IntegrityError("page size is too small"));
+    }
+    if u64::from(page_size) > file_size {
+        return Err(RekordcrateError::IntegrityError(
+            "page size is larger than the file",
+        ));
+    }
+    let header_size = bytes.len();
+    bytes.resize(page_size as usize, 0);
+    io.read_exact(&mut bytes[header_size..])?;
+
+    // Pages cannot be located past the end of the file, whatever the header says.
+    let num_pages = u64::from(next_unused_page)
+        .min(file_size.div_ceil(page_size.into()))
+        .saturating_sub(1);
+    LazyDatabase::read_options(
+        &mut Cursor::new(bytes),
+        endian,
+        (db_type, num_pages as usize),
+    )
+    .map_err(Into::into)
+}
+
 fn read_page<IO: Read + Seek>(
     io: &mut IO,
     page_index: PageIndex,
@@ -98,8 +137,7 @@ impl<R: Read + Seek> Database<R> {
     /// Opens a PDB database without writing back to disk.
     /// Still allows modifying data in memory.
     pub fn open_non_persistent(mut io: R, db_type: DatabaseType) -> RekordcrateResult<Self> {
-        let endian = Endian::Little;
-        let content = LazyDatabase::read_options(&mut io, endian, (db_type,))?;
+        let content = read_database(&mut io, db_type)?;
         Ok(Self {
             io,
             db_type,
@@ -207,8 +245,7 @@ impl<R: Read + Seek> Database<R> {
 impl<RW: Read + Write + Seek> Database<RW> {
     /// Opens a PDB database for reading and writing.
     pub fn open(mut io: RW, db_type: DatabaseType) -> RekordcrateResult<Self> {
-        let endian = Endian::Little;
-        let content = LazyDatabase::read_options(&mut io, endian, (db_type,))?;
+        let content = read_database(&mut io, db_type)?;
         Ok(Self {
             io,
             db_type,
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index f2786b7..d58ec49 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -375,9 +375,12 @@ pub struct IndexPageContent {
 }
 
 impl IndexPageContent {
+    // The last 20 bytes in an index page are zeros.
+    const TRAILER_SIZE: u32 = 20;
+
     fn total_entries(page_size: u32) -> usize {
-        // The last 20 bytes in an index page are zeros.
-        let entries_space = page_size - PageHeader::BINARY_SIZE - IndexPageHeader::BINARY_SIZE - 20;
+        let entries_space =
+            page_size - PageHeader::BINARY_SIZE - IndexPageHeader::BINARY_SIZE - Self::TRAILER_SIZE;
         (entries_space / IndexEntry::BINARY_SIZE)
             .try_into()
             .unwrap()
@@ -564,6 +567,10 @@ pub struct Page {
 }
 
 impl Page {
+    /// Size of the smallest page that can hold the headers of both kinds of pages.
+    pub(crate) const MIN_BINARY_SIZE: u32 =
+        PageHeader::BINARY_SIZE + IndexPageHeader::BINARY_SIZE + IndexPageContent::TRAILER_SIZE;
+
     /// Allocate space for a new row in the page heap and return a function to
     /// insert the row at the allocated offset. Returns `None` if there is
     /// insufficient free space in the page.
-- 
2.43.0


From 05c110ad23b617ba7fe92d6eb7f138449f65d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 08/44] fix: report rows of the wrong type as an error instead
 of panicking

---
 src/pdb/io.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index c700950..7436e41 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -224,9 +224,12 @@ impl<R: Read + Seek> Database<R> {
                     .into_fallible()
                     .map_err(|_: core::convert::Infallible| unreachable!()))
             })
-            // The parsed row type is determined from the page type, so if we find an unexpected
-            // variant then there is a code bug (not simply a corrupt DB).
-            .map(|row| Ok(row.as_variant_mut().expect("unexpected row type"))))
+            // The parsed row type is determined by the type of the page, which differs from the
+            // type of the table in a corrupt DB.
+            .map(|row| {
+                row.as_variant_mut()
+                    .ok_or(RekordcrateError::IntegrityError("unexpected row type"))
+            }))
     }
 
     /// Returns a reference to the PDB header.
-- 
2.43.0


From db19f30c5e8a934006f2655a689dc0d2e93e50be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 09/44] fix: refuse row allocations whose size overflows
 instead of panicking

---
 src/pdb/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index d58ec49..214316a 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -582,16 +582,17 @@ impl Page {
             PageContent::Index(_) => None,
             PageContent::Data(ref mut dpc) => {
                 // Always align rows to 4 bytes.
-                let bytes = bytes.next_multiple_of(4);
+                let bytes = bytes.checked_next_multiple_of(4)?;
 
                 // Assume the upper bound of required space.
-                let required_bytes = bytes + RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE;
+                let required_bytes =
+                    bytes.checked_add(RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE)?;
                 if self.header.free_size < required_bytes {
                     return None;
                 }
 
                 let offset = self.header.used_size;
-                self.header.used_size += bytes;
+                self.header.used_size = offset.checked_add(bytes)?;
                 self.header.free_size -= bytes;
                 let row_counts = &mut self.header.packed_row_counts;
                 row_counts.increment_num_rows();
-- 
2.43.0


From ff2c58bce227050a4602e19e38a5c7976ea7afb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 10/44] fix: refuse row allocations beyond what the page row
 counters can hold

---
 src/pdb/bitfields.rs | 8 ++++++++
 src/pdb/mod.rs       | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/pdb/bitfields.rs b/src/pdb/bitfields.rs
index 7b93471..c45229e 100644
--- a/src/pdb/bitfields.rs
+++ b/src/pdb/bitfields.rs
@@ -35,6 +35,9 @@ impl Default for PackedRowCounts {
 }
 
 impl PackedRowCounts {
+    const MAX_NUM_ROWS: u16 = (1 << 13) - 1;
+    const MAX_NUM_ROWS_VALID: u16 = (1 << 11) - 1;
+
     /// Create a `PackedRowCounts` assuming all rows in the page are valid,
     /// e.g. when we are serializing a page without any deleted rows.
     pub fn from_all_valid(num_rows: usize) -> Self {
@@ -59,6 +62,11 @@ impl PackedRowCounts {
         Some((rgi, rsi))
     }
 
+    /// Returns `true` if another row can be counted.
+    pub(crate) fn has_room(&self) -> bool {
+        self.num_rows() < Self::MAX_NUM_ROWS && self.num_rows_valid() < Self::MAX_NUM_ROWS_VALID
+    }
+
     /// Increment the number of rows e.g. when we allocate a row in the page.
     pub(crate) fn increment_num_rows(&mut self) {
         self.set_num_rows(self.num_rows() + 1);
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 214316a..cf69205 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -590,6 +590,9 @@ impl Page {
                 if self.header.free_size < required_bytes {
                     return None;
                 }
+                if !self.header.packed_row_counts.has_room() {
+                    return None;
+                }
 
                 let offset = self.header.used_size;
                 self.header.used_size = offset.checked_add(bytes)?;
-- 
2.43.0


From 25a32799784b74be62672c42bcd3568c13129a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 11/44] fix: refuse page indices that do not fit into an index
 entry

---
 src/pdb/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index cf69205..7ca0d2e 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -266,7 +266,9 @@ impl TryFrom<(PageIndex, u8)> for IndexEntry {
         if index_flags & 0b111 != index_flags {
             return Err(PdbError::InvalidIndexFlags(index_flags));
         }
-        Ok(Self((page_index.0 << 3) | (index_flags & 0b111) as u32))
+        // Page indices read from a file can be any 32-bit value.
+        let PageIndex(page_index) = PageIndex::try_from(page_index.0)?;
+        Ok(Self((page_index << 3) | (index_flags & 0b111) as u32))
     }
 }
 
-- 
2.43.0


From c3fbda66f43097f3cdc449a133806c5474b8d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 12/44] fix: do not panic when printing index entries without a
 valid page index

---
 src/pdb/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 7ca0d2e..f7290a9 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -306,11 +306,13 @@ impl fmt::Debug for IndexEntry {
                 .field("is_empty", &self.is_empty())
                 .finish()
         } else {
-            f.debug_struct("IndexEntry")
-                .field("is_empty", &self.is_empty())
-                .field("page_index", &self.page_index().unwrap())
-                .field("index_flags", &self.index_flags())
-                .finish()
+            let mut debug = f.debug_struct("IndexEntry");
+            debug.field("is_empty", &self.is_empty());
+            match self.page_index() {
+                Ok(page_index) => debug.field("page_index", &page_index),
+                Err(error) => debug.field("page_index", &error),
+            };
+            debug.field("index_flags", &self.index_flags()).finish()
         }
     }
 }
-- 
2.43.0


From 4ccc785b6623ade3c213488853c5980c8f4b9a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:42 +0000
Subject: [PATCH 13/44] fix: refuse index pages with more entries than fit, or
 a wrong entry count

---
 src/pdb/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index f7290a9..4235ed2 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -366,6 +366,11 @@ pub struct IndexPageContent {
 
     /// The index entries.
     #[br(count = header.num_entries)]
+    #[bw(assert(
+        entries.len() == usize::from(header.num_entries)
+            && entries.len() <= Self::total_entries(page_size),
+        "index page cannot hold {} entries (num_entries {})", entries.len(), header.num_entries
+    ))]
     pub entries: Vec<IndexEntry>,
 
     // Write empty entries to pad out the rest of the page, except the last
@@ -442,6 +447,10 @@ pub enum PageContent {
     ),
     /// The page is an index page.
     #[br(pre_assert(header.page_flags.is_index_page()))]
+    #[br(assert(
+        self_0.entries.len() <= IndexPageContent::total_entries(page_size),
+        "index page cannot hold {} entries", self_0.entries.len()
+    ))]
     Index(#[bw(args { page_size })] IndexPageContent),
 }
 
-- 
2.43.0


From 33e57b65e4145dd3ed68cb4053209d420ac8cee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 14/44] fix: keep the XOR key in step with short reads and
 writes

---
 src/xor.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/xor.rs b/src/xor.rs
index aff09f5..c7aa720 100644
--- a/src/xor.rs
+++ b/src/xor.rs
@@ -39,7 +39,8 @@ impl<R: Read> Read for XorStream<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
         let bytes_read = self.stream.read(buf)?;
 
-        for byte in buf {
+        // Only advance the key by the bytes that were actually read (short reads are allowed).
+        for byte in &mut buf[..bytes_read] {
             let key_byte = self.key.next().unwrap_or(0);
             *byte ^= key_byte;
         }
@@ -52,13 +53,16 @@ impl<W: Write> Write for XorStream<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
         let encrypted_buffer: Vec<u8> = buf
             .iter()
-            .map(|x| {
-                let key_byte = self.key.next().unwrap_or(0);
-                x ^ key_byte
-            })
+            .zip(self.key.clone())
+            .map(|(x, key_byte)| x ^ key_byte)
             .collect();
 
-        self.stream.write(&encrypted_buffer)
+        // Only advance the key by the bytes that were actually written (short writes are allowed).
+        let bytes_written = self.stream.write(&encrypted_buffer)?;
+        for _ in 0..bytes_written {
+            self.key.next();
+        }
+        Ok(bytes_written)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From a0254467d61f736f8ac4037aa412a74b17f67960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 15/44] fix: refuse impossible ANLZ section sizes instead of
 overflowing

---
 src/anlz.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 2b25ba2..1ab1190 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -118,8 +118,10 @@ pub struct Header {
     /// Kind of content in this item.
     pub kind: ContentKind,
     /// Length of the header data (including `kind`, `size` and `total_size`).
+    #[br(assert(size >= 12, "header size {size} is too small"))]
     pub size: u32,
     /// Length of the section (including the header).
+    #[br(assert(total_size >= size, "section size {total_size} is smaller than its header"))]
     pub total_size: u32,
 }
 
@@ -898,7 +900,7 @@ pub struct WaveformDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries)== header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
@@ -926,7 +928,7 @@ pub struct WaveformColorPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -950,7 +952,7 @@ pub struct WaveformColorDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -977,7 +979,7 @@ pub struct Waveform3BandPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Waveform preview column data.
     #[br(count = len_entries)]
@@ -999,7 +1001,7 @@ pub struct Waveform3BandDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
@@ -1026,7 +1028,7 @@ pub struct SongStructure {
     len_entry_bytes: u32,
     /// Number of entries in this section.
     #[br(temp)]
-    #[br(assert((len_entry_bytes * (len_entries as u32)) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(u32::from(len_entries)) == Some(header.content_size())))]
     #[bw(calc = data.phrases.len() as u16)]
     len_entries: u16,
     /// Indicates if the remaining parts of the song structure section are encrypted.
@@ -1077,7 +1079,7 @@ impl SongStructureData {
     /// Returns an iterator over the key bytes (RB6+).
     fn get_key(len_entries: u16) -> impl Iterator<Item = u8> {
         Self::KEY_DATA.into_iter().map(move |x: u8| -> u8 {
-            let value = u16::from(x) + len_entries;
+            let value = u16::from(x).wrapping_add(len_entries);
             (value % 256) as u8
         })
     }
-- 
2.43.0


From eb4e29060329a5ed37e13d8b91ee23485224c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 16/44] fix: do not allocate memory for cue comments beyond the
 end of the file

---
 src/anlz.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 1ab1190..a5afd60 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -294,12 +294,14 @@ impl BinRead for LenPrefixedWideString {
         _args: Self::Args<'_>,
     ) -> BinResult<Self> {
         let len: u32 = u32::read_options(reader, endian, ())?;
-        let len = len as usize;
         if len == 0 {
             return Ok(Self(String::new()));
         }
-        let mut bytes = vec![0u8; len];
-        reader.read_exact(&mut bytes)?;
+        // Do not allocate memory for data that the file does not contain.
+        let mut bytes = Vec::new();
+        if reader.take(len.into()).read_to_end(&mut bytes)? < len as usize {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
         let code_units: Vec<u16> = bytes
             .chunks_exact(2)
             .map(|c| u16::from_be_bytes([c[0], c[1]]))
-- 
2.43.0


From b560d996c54ae4bfa8d2987753b0d2e1749366f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 17/44] fix: find the end of extended cues from the stored
 comment size

---
 src/anlz.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index a5afd60..22c2807 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -343,6 +343,7 @@ impl BinWrite for LenPrefixedWideString {
 #[binrw]
 #[derive(Debug, PartialEq, Eq)]
 #[brw(big)]
+#[br(stream = r)]
 pub struct ExtendedCue {
     /// Cue entry header.
     pub header: Header,
@@ -379,9 +380,17 @@ pub struct ExtendedCue {
     pub loop_numerator: u16,
     /// Represents the loop size denominator (if this is a quantized loop).
     pub loop_denominator: u16,
+    /// Position of the comment, needed to tell its stored size.
+    #[br(temp, try_calc = r.stream_position())]
+    #[bw(ignore)]
+    comment_start: u64,
     /// An UTF-16BE encoded string with a leading `u32` length prefix and a
     /// trailing NUL (`0x0000`).
     pub comment: LenPrefixedWideString,
+    /// Position of the data after the comment.
+    #[br(temp, try_calc = r.stream_position())]
+    #[bw(ignore)]
+    comment_end: u64,
     /// Rekordbox hotcue color index.
     ///
     /// | Value  | Color                       |
@@ -470,7 +479,10 @@ pub struct ExtendedCue {
     ///
     /// Per the Kaitai spec, the entry may contain extra data beyond the known fields;
     /// any remaining bytes are captured here.
-    #[br(count = header.total_size.saturating_sub(68 + comment.byte_len()) as usize)]
+    ///
+    /// The size of the comment is taken from the file, as it may be stored differently from how it
+    /// would be written (e.g. an empty comment with a terminator).
+    #[br(count = u64::from(header.total_size).saturating_sub(64 + (comment_end - comment_start)))]
     pub trailing: Vec<u8>,
 }
 
-- 
2.43.0


From 268fcd354ca5a632f290cb45d3c12c12b79188db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 18/44] fix: write cue comments with the size they were stored
 with

---
 src/anlz.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/anlz.rs b/src/anlz.rs
index 22c2807..e5989f9 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -263,6 +263,26 @@ impl LenPrefixedWideString {
             (self.0.encode_utf16().count() as u32 + 1) * 2
         }
     }
+
+    /// Write the string with the given encoded size (excluding the length prefix) if that size can
+    /// hold it, otherwise with the size it needs.
+    ///
+    /// This retains strings that were stored without or with more than one terminator.
+    fn write_sized<W: Write + Seek>(
+        &self,
+        writer: &mut W,
+        endian: Endian,
+        size: Option<u32>,
+    ) -> BinResult<()> {
+        let mut bytes: Vec<u8> = self.0.encode_utf16().flat_map(u16::to_be_bytes).collect();
+        let size = size
+            .filter(|size| size % 2 == 0 && *size as usize >= bytes.len())
+            .unwrap_or_else(|| self.byte_len());
+        bytes.resize(size as usize, 0);
+        size.write_options(writer, endian, ())?;
+        writer.write_all(&bytes)?;
+        Ok(())
+    }
 }
 
 impl From<String> for LenPrefixedWideString {
@@ -386,6 +406,7 @@ pub struct ExtendedCue {
     comment_start: u64,
     /// An UTF-16BE encoded string with a leading `u32` length prefix and a
     /// trailing NUL (`0x0000`).
+    #[bw(args_raw(header.total_size.checked_sub(68 + trailing.len() as u32)), write_with = LenPrefixedWideString::write_sized)]
     pub comment: LenPrefixedWideString,
     /// Position of the data after the comment.
     #[br(temp, try_calc = r.stream_position())]
-- 
2.43.0


From 4fcdae91931abd45e06481ff52d54ee97f15e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:09 +0000
Subject: [PATCH 19/44] fix: do not take I/O errors for an unknown kind of ANLZ
 section

---
 src/anlz.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/anlz.rs b/src/anlz.rs
index e5989f9..9d23bae 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -110,12 +110,26 @@ pub enum ContentKind {
     Unknown([u8; 4]),
 }
 
+impl ContentKind {
+    /// Read the whole magic before matching it, so that an I/O error while trying one of the
+    /// variants is not mistaken for an unknown kind.
+    fn read_buffered<R: Read + Seek>(
+        reader: &mut R,
+        endian: Endian,
+        (): (),
+    ) -> BinResult<ContentKind> {
+        let magic = <[u8; 4]>::read_options(reader, endian, ())?;
+        Self::read_options(&mut binrw::io::Cursor::new(magic), endian, ())
+    }
+}
+
 /// Header of a section that contains type and size information.
 #[binrw]
 #[derive(Debug, PartialEq, Eq, Clone)]
 #[brw(big)]
 pub struct Header {
     /// Kind of content in this item.
+    #[br(parse_with = ContentKind::read_buffered)]
     pub kind: ContentKind,
     /// Length of the header data (including `kind`, `size` and `total_size`).
     #[br(assert(size >= 12, "header size {size} is too small"))]
-- 
2.43.0


From 8c65a3a71de6ce85999beec936c36bb77e9594a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:19 +0000
Subject: [PATCH 20/44] fix: read the height of tiny waveform preview columns
 from the low bits

---
 src/anlz.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 9d23bae..3031620 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -557,10 +557,10 @@ impl Default for TinyWaveformPreviewColumn {
 #[br(big, map = Self::from_bytes)]
 #[bw(big, map = |x: &TinyWaveformPreviewColumn| x.into_bytes())]
 pub struct TinyWaveformPreviewColumn {
-    #[allow(dead_code)]
-    unused: B4,
     /// Height of the Column in pixels.
     pub height: B4,
+    #[allow(dead_code)]
+    unused: B4,
 }
 
 /// Single Column value in a Waveform Color Preview.
-- 
2.43.0


From 20406e5e8111bb2cba3a1f867800964a9a1f7e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:24 +0000
Subject: [PATCH 21/44] fix: read color waveform columns as big-endian bit
 fields

---
 src/anlz.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 3031620..6cddd33 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -597,20 +597,21 @@ impl Default for WaveformColorDetailColumn {
 /// <https://djl-analysis.deepsymmetry.org/rekordbox-export-analysis/anlz.html#color-detail>
 #[bitfield]
 #[derive(BinRead, BinWrite, Debug, PartialEq, Eq, Clone, Copy)]
-#[br(map = Self::from_bytes)]
-#[bw(big, map = |x: &WaveformColorDetailColumn| x.into_bytes())]
+#[br(big, map = |x: u16| Self::from_bytes(x.to_le_bytes()))]
+#[bw(big, map = |x: &WaveformColorDetailColumn| u16::from_le_bytes(x.into_bytes()))]
 pub struct WaveformColorDetailColumn {
-    /// Red color component.
-    pub red: B3,
-    /// Green color component.
-    pub green: B3,
-    /// Blue color component.
-    pub blue: B3,
-    /// Height of the column.
-    pub height: B5,
+    // The fields are listed from the least to the most significant bit.
     /// Unknown field
     #[allow(dead_code)]
     unknown: B2,
+    /// Height of the column.
+    pub height: B5,
+    /// Blue color component.
+    pub blue: B3,
+    /// Green color component.
+    pub green: B3,
+    /// Red color component.
+    pub red: B3,
 }
 
 /// Single Column value in a Waveform 3-Band Preview.
-- 
2.43.0


From 16a9d7881444aff475ba5f1c75eed02a1ae8f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 22/44] fix: do not allocate memory for ANLZ section data
 beyond the end of the file

---
 src/anlz.rs | 20 ++++++++++----------
 src/util.rs | 16 ++++++++++++++++
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 6cddd33..3e22f29 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -26,7 +26,10 @@
 
 #![allow(clippy::must_use_candidate)]
 
-use crate::{util::ColorIndex, xor::XorStream};
+use crate::{
+    util::{parse_bytes, ColorIndex},
+    xor::XorStream,
+};
 use binrw::{
     binrw,
     io::{Read, Seek, Write},
@@ -332,10 +335,7 @@ impl BinRead for LenPrefixedWideString {
             return Ok(Self(String::new()));
         }
         // Do not allocate memory for data that the file does not contain.
-        let mut bytes = Vec::new();
-        if reader.take(len.into()).read_to_end(&mut bytes)? < len as usize {
-            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
-        }
+        let bytes = parse_bytes(reader, endian, (len.into(),))?;
         let code_units: Vec<u16> = bytes
             .chunks_exact(2)
             .map(|c| u16::from_be_bytes([c[0], c[1]]))
@@ -517,7 +517,7 @@ pub struct ExtendedCue {
     ///
     /// The size of the comment is taken from the file, as it may be stored differently from how it
     /// would be written (e.g. an empty comment with a terminator).
-    #[br(count = u64::from(header.total_size).saturating_sub(64 + (comment_end - comment_start)))]
+    #[br(parse_with = parse_bytes, args(u64::from(header.total_size).saturating_sub(64 + (comment_end - comment_start))))]
     pub trailing: Vec<u8>,
 }
 
@@ -897,7 +897,7 @@ pub struct VBR {
     /// Unknown field.
     unknown1: u32,
     /// Unknown data.
-    #[br(count = header.content_size())]
+    #[br(parse_with = parse_bytes, args(header.content_size().into()))]
     unknown2: Vec<u8>,
 }
 
@@ -1187,10 +1187,10 @@ impl SongStructureData {
 #[br(import(header: Header))]
 pub struct Unknown {
     /// Unknown header data.
-    #[br(count = header.remaining_size())]
+    #[br(parse_with = parse_bytes, args(header.remaining_size().into()))]
     header_data: Vec<u8>,
     /// Unknown content data.
-    #[br(count = header.content_size())]
+    #[br(parse_with = parse_bytes, args(header.content_size().into()))]
     content_data: Vec<u8>,
 }
 
@@ -1217,7 +1217,7 @@ pub struct ANLZ {
     #[br(assert(header.kind == ContentKind::File))]
     pub header: Header,
     /// The header data.
-    #[br(count = header.remaining_size())]
+    #[br(parse_with = parse_bytes, args(header.remaining_size().into()))]
     pub header_data: Vec<u8>,
     /// The content sections.
     #[br(parse_with = Self::parse_sections, args(header.content_size()))]
diff --git a/src/util.rs b/src/util.rs
index 2cf4f5c..2859c90 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -142,6 +142,22 @@ pub enum FileType {
     Other(u16),
 }
 
+/// Parses exactly `count` bytes.
+///
+/// In contrast to a `count` directive, this never allocates much more memory than there is data,
+/// so it can be used with untrusted sizes.
+pub(crate) fn parse_bytes<Reader: Read + Seek>(
+    reader: &mut Reader,
+    _endian: Endian,
+    (count,): (u64,),
+) -> BinResult<Vec<u8>> {
+    let mut bytes = Vec::new();
+    if (reader.take(count).read_to_end(&mut bytes)? as u64) < count {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 /// Parses a sequence of values with `BinRead` from the offsets provided by the iterator.
 pub(crate) fn parse_at_offsets<Offset, Value, T, Args, It, Reader>(
     it: It,
-- 
2.43.0


From fc97df21661b9231ab949914f678397ecb00d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 23/44] fix: show the label of simplified Chinese for that
 language

---
 src/setting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setting.rs b/src/setting.rs
index 335f274..49d78ab 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -854,8 +854,8 @@ pub enum Language {
     #[display("한국어")]
     Korean,
     /// Named "简体中文" in the Rekordbox preferences.
-    ChineseSimplified,
     #[display("简体中文")]
+    ChineseSimplified,
     /// Named "繁體中文" in the Rekordbox preferences.
     #[display("繁體中文")]
     ChineseTraditional,
-- 
2.43.0


From 0382a8fb8ac0f69e41c17d7dfa46953269ea0711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:42 +0000
Subject: [PATCH 24/44] fix: use the version strings of Rekordbox 6.6.1 in
 default settings

---
 src/setting.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/setting.rs b/src/setting.rs
index 49d78ab..ad3ccdc 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -52,6 +52,16 @@ pub struct Setting {
     #[brw(pad_size_to = 0x20, assert(software.len() <= (0x20 - 1)))]
     pub software: NullString,
     /// Some kind of version number.
+    ///
+    /// The value seems to depend on the kind of file (and for `DEVSETTING.DAT` on the version of
+    /// Rekordbox):
+    ///
+    /// | File               | Value   |
+    /// | ------------------ | ------- |
+    /// | `DEVSETTING.DAT`   | `6.6.1` |
+    /// | `DJMMYSETTING.DAT` | `1.000` |
+    /// | `MYSETTING.DAT`    | `0.001` |
+    /// | `MYSETTING2.DAT`   | `0.001` |
     #[brw(pad_size_to = 0x20, assert(version.len() <= (0x20 - 1)))]
     pub version: NullString,
     /// Size of the `data` data in bytes.
@@ -79,13 +89,17 @@ pub struct Setting {
 }
 
 impl Setting {
-    /// Create a new object containing with the given brand string and data.
+    /// Create a new object containing with the given brand and version strings and data.
     #[must_use]
-    fn default_with_brand_and_data(brand: NullString, data: SettingData) -> Self {
+    fn default_with_brand_version_and_data(
+        brand: NullString,
+        version: NullString,
+        data: SettingData,
+    ) -> Self {
         Self {
             brand,
             software: "rekordbox".into(),
-            version: "6.6.1".into(),
+            version,
             data,
         }
     }
@@ -93,8 +107,9 @@ impl Setting {
     /// Create a new object containing the default values of a `DEVSETTING.DAT` file.
     #[must_use]
     pub fn default_devsetting() -> Self {
-        Self::default_with_brand_and_data(
+        Self::default_with_brand_version_and_data(
             "PIONEER DJ".into(),
+            "6.6.1".into(),
             SettingData::DevSetting(DevSetting::default()),
         )
     }
@@ -102,8 +117,9 @@ impl Setting {
     /// Create a new object containing the default values of a `DJMMYSETTING.DAT` file.
     #[must_use]
     pub fn default_djmmysetting() -> Self {
-        Self::default_with_brand_and_data(
+        Self::default_with_brand_version_and_data(
             "PioneerDJ".into(),
+            "1.000".into(),
             SettingData::DJMMySetting(DJMMySetting::default()),
         )
     }
@@ -111,8 +127,9 @@ impl Setting {
     /// Create a new object containing the default values of a `MYSETTING.DAT` file.
     #[must_use]
     pub fn default_mysetting() -> Self {
-        Self::default_with_brand_and_data(
+        Self::default_with_brand_version_and_data(
             "PIONEER".into(),
+            "0.001".into(),
             SettingData::MySetting(MySetting::default()),
         )
     }
@@ -120,8 +137,9 @@ impl Setting {
     /// Create a new object containing the default values of a `MYSETTING2.DAT` file.
     #[must_use]
     pub fn default_mysetting2() -> Self {
-        Self::default_with_brand_and_data(
+        Self::default_with_brand_version_and_data(
             "PIONEER".into(),
+            "0.001".into(),
             SettingData::MySetting2(MySetting2::default()),
         )
     }
-- 
2.43.0


From 0e6d62b07147bfa33dbfdead2254fbe53f94a03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 25/44] fix: refuse settings strings that contain their
 terminator

---
 src/setting.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/setting.rs b/src/setting.rs
index ad3ccdc..bfa09fa 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -47,9 +47,11 @@ pub struct Setting {
     /// | `MYSETTING.DAT`    | `PIONEER`    |
     /// | `MYSETTING2.DAT`   | `PIONEER`    |
     #[brw(pad_size_to = 0x20, assert(brand.len() <= (0x20 - 1)))]
+    #[bw(assert(!brand.contains(&0)))]
     pub brand: NullString,
     /// Name of the software ("rekordbox").
     #[brw(pad_size_to = 0x20, assert(software.len() <= (0x20 - 1)))]
+    #[bw(assert(!software.contains(&0)))]
     pub software: NullString,
     /// Some kind of version number.
     ///
@@ -63,6 +65,7 @@ pub struct Setting {
     /// | `MYSETTING.DAT`    | `0.001` |
     /// | `MYSETTING2.DAT`   | `0.001` |
     #[brw(pad_size_to = 0x20, assert(version.len() <= (0x20 - 1)))]
+    #[bw(assert(!version.contains(&0)))]
     pub version: NullString,
     /// Size of the `data` data in bytes.
     #[br(temp)]
-- 
2.43.0


From 33789591a9798671cdb27670154dcc819948990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 26/44] fix: omit absent track attributes when writing XML

---
 src/xml.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 0f5d07d..26c2f43 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -82,57 +82,70 @@ pub struct Track {
 
     /// Name of track
     #[serde(rename = "@Name")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub name: Option<String>,
 
     /// Name of artist
     #[serde(rename = "@Artist")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub artist: Option<String>,
 
     /// Name of composer (or producer)
     #[serde(rename = "@Composer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub composer: Option<String>,
 
     /// Name of Album
     #[serde(rename = "@Album")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub album: Option<String>,
 
     /// Name of goupe
     #[serde(rename = "@Grouping")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub grouping: Option<String>,
 
     /// Name of genre
     #[serde(rename = "@Genre")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub genre: Option<String>,
 
     /// Type of audio file
     #[serde(rename = "@Kind")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub kind: Option<String>,
 
     /// Size of audio file
     /// Unit : Octet
     #[serde(rename = "@Size")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub size: Option<i64>,
 
     /// Duration of track
     /// Unit : Second (without decimal numbers)
     #[serde(rename = "@TotalTime")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub totaltime: Option<f64>,
 
     /// Order number of the disc of the album
     #[serde(rename = "@DiscNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub discnumber: Option<i32>,
 
     /// Order number of the track in the album
     #[serde(rename = "@TrackNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tracknumber: Option<i32>,
 
     /// Year of release
     #[serde(rename = "@Year")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub year: Option<i32>,
 
     /// Value of average BPM
     /// Unit : Second (with decimal numbers)
     #[serde(rename = "@AverageBpm")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub averagebpm: Option<f64>,
 
     /// Date of last modification
@@ -150,19 +163,23 @@ pub struct Track {
     /// Encoding bit rate
     /// Unit : Kbps
     #[serde(rename = "@BitRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub bitrate: Option<i32>,
 
     /// Frequency of sampling
     /// Unit : Hertz
     #[serde(rename = "@SampleRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub samplerate: Option<f64>,
 
     /// Comments
     #[serde(rename = "@Comments")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub comments: Option<String>,
 
     /// Play count of the track
     #[serde(rename = "@PlayCount")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub playcount: Option<i32>,
 
     /// Date of last playing
@@ -174,6 +191,7 @@ pub struct Track {
     /// Rating of the track
     /// 0 star = "@0", 1 star = "51", 2 stars = "102", 3 stars = "153", 4 stars = "204", 5 stars = "255"
     #[serde(rename = "@Rating")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub rating: Option<i32>, // TODO: Use StarRating type here
 
     /// Location of the file
@@ -183,18 +201,22 @@ pub struct Track {
 
     /// Name of remixer
     #[serde(rename = "@Remixer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub remixer: Option<String>,
 
     /// Tonality (Kind of musical key)
     #[serde(rename = "@Tonality")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tonality: Option<String>,
 
     /// Name of record label
     #[serde(rename = "@Label")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub label: Option<String>,
 
     /// Name of mix
     #[serde(rename = "@Mix")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub mix: Option<String>,
 
     /// Colour for track grouping
-- 
2.43.0


From 85f9a8edf00831df81166f8b0b7835b098f5215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:28 +0000
Subject: [PATCH 27/44] fix: write the type attribute of the root playlist
 folder to XML

---
 src/xml.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 26c2f43..5148958 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -324,9 +324,25 @@ pub struct PositionMark {
 pub struct Playlists {
     /// The root node of all playlists.
     #[serde(rename = "NODE")]
+    #[serde(serialize_with = "serialize_root_node")]
     pub node: PlaylistFolderNode,
 }
 
+/// Serialize the root node with its `Type` attribute, like all other folder nodes.
+fn serialize_root_node<S>(node: &PlaylistFolderNode, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    #[derive(Serialize)]
+    #[serde(tag = "@Type")]
+    enum RootNode<'a> {
+        #[serde(rename = "0")]
+        Folder(&'a PlaylistFolderNode),
+    }
+
+    RootNode::Folder(node).serialize(serializer)
+}
+
 /// The type of a playlist node.
 #[derive(Debug, PartialEq, Clone, Serialize)]
 #[serde(tag = "@Type")]
-- 
2.43.0


From 5312225362744b0f06681836d67ebd4065fd154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:20 +0000
Subject: [PATCH 28/44] fix: read empty XML collections, folders and playlists

---
 src/xml.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 5148958..a1745ec 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -69,6 +69,7 @@ pub struct Collection {
 
     /// Track entries of collection.
     #[serde(rename = "TRACK")]
+    #[serde(default)]
     pub track: Vec<Track>,
 }
 
@@ -403,6 +404,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     #[derive(serde::Deserialize)]
                                     struct Nodes {
                                         #[serde(rename = "NODE")]
+                                        #[serde(default)]
                                         content: Vec<PlaylistGenericNode>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -422,6 +424,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     #[derive(serde::Deserialize)]
                                     struct Tracks {
                                         #[serde(rename = "TRACK")]
+                                        #[serde(default)]
                                         content: Vec<PlaylistTrack>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -479,6 +482,7 @@ pub struct PlaylistFolderNode {
     // can just take the number of elements in the `tracks` vector instead.
     /// Nodes
     #[serde(rename = "NODE")]
+    #[serde(default)]
     pub nodes: Vec<PlaylistGenericNode>,
 }
 
-- 
2.43.0


From b949f2cc9f4a01f3be9274a3c8bca963d1a932c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:53 +0000
Subject: [PATCH 29/44] fix: refuse XML playlist folders that are nested too
 deeply

---
 src/xml.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index a1745ec..9f2ebb0 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -18,6 +18,7 @@
 type NaiveDate = String; //Replace with "use chrono::naive::NaiveDate;"
 use serde::{de::Error, ser::Serializer, Deserialize, Serialize};
 use std::borrow::Cow;
+use std::cell::Cell;
 
 /// The XML root element of a rekordbox XML file.
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
@@ -357,11 +358,43 @@ pub enum PlaylistGenericNode {
     Playlist(PlaylistPlaylistNode),
 }
 
+/// Maximum depth of nested playlist folders accepted when reading a document.
+const MAX_FOLDER_DEPTH: usize = 128;
+
+thread_local! {
+    /// Number of nested playlist nodes that are currently being deserialized.
+    static NODE_DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Counts a playlist node as being deserialized for as long as this value lives.
+struct NodeDepthGuard;
+
+impl NodeDepthGuard {
+    /// Enter another playlist node, unless nodes are nested too deeply already.
+    fn enter() -> Option<Self> {
+        NODE_DEPTH.with(|depth| {
+            (depth.get() < MAX_FOLDER_DEPTH).then(|| {
+                depth.set(depth.get() + 1);
+                Self
+            })
+        })
+    }
+}
+
+impl Drop for NodeDepthGuard {
+    fn drop(&mut self) {
+        NODE_DEPTH.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
 impl<'de> Deserialize<'de> for PlaylistGenericNode {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
         D: serde::Deserializer<'de>,
     {
+        let _guard = NodeDepthGuard::enter()
+            .ok_or_else(|| D::Error::custom("playlist folders are nested too deeply"))?;
+
         struct PlaylistGenericNodeVisitor;
 
         impl<'de> serde::de::Visitor<'de> for PlaylistGenericNodeVisitor {
-- 
2.43.0


From bfe4944ebbacf5f7e3a64763f6d8d39b15979298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:56 +0000
Subject: [PATCH 30/44] fix: do not expand cyclic or duplicate playlist nodes
 over and over again

---
 src/device.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index f7250fa..daa5e1f 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -521,6 +521,9 @@ pub struct Playlist {
     pub name: String,
 }
 
+/// Maximum depth of nested playlist folders.
+const MAX_PLAYLIST_DEPTH: usize = 128;
+
 /// Get playlist tree.
 pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<PlaylistNode>> {
     let mut playlists: HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>> = HashMap::new();
@@ -533,33 +536,41 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
         Ok(())
     })?;
 
+    // Takes the children of every node out of the map when they are visited, so that cycles and
+    // duplicate IDs in the database cannot expand the same nodes over and over again.
     fn get_child_nodes(
-        playlists: &HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
+        playlists: &mut HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
         id: PlaylistTreeNodeId,
-    ) -> impl Iterator<Item = crate::Result<PlaylistNode>> + '_ {
+        depth: usize,
+    ) -> crate::Result<Vec<PlaylistNode>> {
+        if depth > MAX_PLAYLIST_DEPTH {
+            return Err(crate::Error::IntegrityError(
+                "playlist folders are nested too deeply",
+            ));
+        }
         playlists
-            .get(&id)
+            .remove(&id)
             .into_iter()
-            .flat_map(|nodes| nodes.iter())
+            .flatten()
             .map(|node| -> crate::Result<PlaylistNode> {
                 let child_node = if node.is_folder() {
                     let folder = PlaylistFolder {
                         id: node.id,
-                        name: node.name.clone().into_string()?,
-                        children: get_child_nodes(playlists, node.id)
-                            .collect::<crate::Result<Vec<PlaylistNode>>>()?,
+                        name: node.name.into_string()?,
+                        children: get_child_nodes(playlists, node.id, depth + 1)?,
                     };
                     PlaylistNode::Folder(folder)
                 } else {
                     let playlist = Playlist {
                         id: node.id,
-                        name: node.name.clone().into_string()?,
+                        name: node.name.into_string()?,
                     };
                     PlaylistNode::Playlist(playlist)
                 };
                 Ok(child_node)
             })
+            .collect()
     }
 
-    get_child_nodes(&playlists, PlaylistTreeNodeId(0)).collect::<crate::Result<Vec<PlaylistNode>>>()
+    get_child_nodes(&mut playlists, PlaylistTreeNodeId(0), 0)
 }
-- 
2.43.0


From 50f6588c1c74b2120b10d437df2febbe7f08aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 31/44] fix: list cyclic or duplicate playlist nodes only once

---
 src/main.rs | 53 +++++++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 818a014..ff91ae0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -85,6 +85,9 @@ enum Commands {
     },
 }
 
+/// Maximum depth of nested playlist folders.
+const MAX_PLAYLIST_DEPTH: usize = 128;
+
 fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
     use rekordcrate::pdb::{PlaylistTreeNode, PlaylistTreeNodeId};
     use std::collections::{BTreeMap, HashMap};
@@ -147,45 +150,47 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         };
         println!("{} - {}", artist.offsets.name, track.offsets.title)
     }
+    // Takes the children of every node out of the tree when they are printed, so that cycles and
+    // duplicate IDs in the database cannot expand the same nodes over and over again.
     fn print_children_of(
-        tree: &HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
+        tree: &mut HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
         tree_entries: &HashMap<PlaylistTreeNodeId, BTreeMap<u32, TrackId>>,
         artists: &HashMap<ArtistId, Artist>,
         tracks: &HashMap<TrackId, Track>,
         id: PlaylistTreeNodeId,
         level: usize,
-    ) {
-        tree.get(&id)
-            .iter()
-            .flat_map(|nodes| nodes.iter())
-            .for_each(|node| {
-                let indentation = "    ".repeat(level);
-                println!(
-                    "{}{} {}",
-                    indentation,
-                    if node.is_folder() { "🗀" } else { "🗎" },
-                    node.name,
-                );
-                if let Some(playlist_tracks) = tree_entries.get(&node.id) {
-                    for (index, track_id) in playlist_tracks.iter() {
-                        print!("{}  ♫ {}: ", indentation, index);
-                        print_track(track_id, artists, tracks);
-                    }
+    ) -> rekordcrate::Result<()> {
+        if level > MAX_PLAYLIST_DEPTH {
+            return Err(rekordcrate::Error::IntegrityError(
+                "playlist folders are nested too deeply",
+            ));
+        }
+        tree.remove(&id).into_iter().flatten().try_for_each(|node| {
+            let indentation = "    ".repeat(level);
+            println!(
+                "{}{} {}",
+                indentation,
+                if node.is_folder() { "🗀" } else { "🗎" },
+                node.name,
+            );
+            if let Some(playlist_tracks) = tree_entries.get(&node.id) {
+                for (index, track_id) in playlist_tracks.iter() {
+                    print!("{}  ♫ {}: ", indentation, index);
+                    print_track(track_id, artists, tracks);
                 }
-                print_children_of(tree, tree_entries, artists, tracks, node.id, level + 1);
-            });
+            }
+            print_children_of(tree, tree_entries, artists, tracks, node.id, level + 1)
+        })
     }
 
     print_children_of(
-        &playlist_tree,
+        &mut playlist_tree,
         &playlist_entries,
         &artists,
         &tracks,
         PlaylistTreeNodeId(0),
         0,
-    );
-
-    Ok(())
+    )
 }
 
 fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
-- 
2.43.0


From 7275141c6eeb3cf3abe358da6a9938ce8737d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:10 +0000
Subject: [PATCH 32/44] fix: export every playlist to a file of its own inside
 the output directory

---
 src/main.rs | 114 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 88 insertions(+), 26 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ff91ae0..89116d6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -196,7 +196,7 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
 fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     use rekordcrate::device::{Playlist, PlaylistNode};
     use rekordcrate::DeviceExportLoader;
-    use std::collections::HashMap;
+    use std::collections::{HashMap, HashSet};
     use std::io::Write;
 
     let loader = DeviceExportLoader::new(path.into());
@@ -221,41 +221,103 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         .map(|track| Ok((track.id, track.offsets.file_path.clone().into_string()?)))
         .collect::<HashMap<_, _>>()?;
 
+    /// Turn a name from the database into a single path component.
+    fn path_component(name: &str) -> String {
+        // Leaves room for a number and the extension within the usual limit of 255 bytes.
+        const MAX_LEN: usize = 200;
+
+        let mut component = name.replace(['/', '\\', '\0'], "_");
+        while component.len() > MAX_LEN {
+            component.pop();
+        }
+        match component.as_str() {
+            "" | "." | ".." => format!("_{component}"),
+            _ => component,
+        }
+    }
+
+    /// Paths that were already assigned to exported playlists and their folders.
+    #[derive(Default)]
+    struct UsedPaths {
+        folders: HashSet<PathBuf>,
+        playlists: HashSet<PathBuf>,
+        next_numbers: HashMap<PathBuf, u64>,
+    }
+
+    impl UsedPaths {
+        /// Get the path of a folder. Folders of the same name share their path.
+        fn add_folder(&mut self, path: &Path, name: &str) -> PathBuf {
+            let name = path_component(name);
+            let mut folder_path = path.join(&name);
+            for i in 2.. {
+                if !self.playlists.contains(&folder_path) {
+                    break;
+                }
+                folder_path = path.join(format!("{name} ({i})"));
+            }
+            self.folders.insert(folder_path.clone());
+            folder_path
+        }
+
+        /// Get the path of a playlist file, which differs from those of all other playlists.
+        fn add_playlist(&mut self, path: &Path, name: &str) -> PathBuf {
+            let name = path_component(name);
+            let mut playlist_path = path.join(format!("{name}.m3u"));
+            let next_number = self.next_numbers.entry(playlist_path.clone()).or_insert(2);
+            while self.playlists.contains(&playlist_path) || self.folders.contains(&playlist_path) {
+                playlist_path = path.join(format!("{name} ({next_number}).m3u"));
+                *next_number += 1;
+            }
+            self.playlists.insert(playlist_path.clone());
+            playlist_path
+        }
+    }
+
     fn walk_tree(
         node: PlaylistNode,
         path: &Path,
-        visit: &impl Fn(Playlist, &Path) -> rekordcrate::Result<()>,
+        used_paths: &mut UsedPaths,
+        visit: &impl Fn(Playlist, &Path, &mut UsedPaths) -> rekordcrate::Result<()>,
     ) -> rekordcrate::Result<()> {
         match node {
-            PlaylistNode::Folder(folder) => folder
-                .children
-                .into_iter()
-                .try_for_each(|child| walk_tree(child, &path.join(&folder.name), visit)),
-            PlaylistNode::Playlist(playlist) => visit(playlist, path),
+            PlaylistNode::Folder(folder) => {
+                let path = used_paths.add_folder(path, &folder.name);
+                folder
+                    .children
+                    .into_iter()
+                    .try_for_each(|child| walk_tree(child, &path, used_paths, visit))
+            }
+            PlaylistNode::Playlist(playlist) => visit(playlist, path, used_paths),
         }
     }
 
+    let mut used_paths = UsedPaths::default();
     playlists.into_iter().try_for_each(|node| {
-        walk_tree(node, output_dir, &|playlist, path| {
-            std::fs::create_dir_all(path)?;
-            let playlist_path = path.join(format!("{}.m3u", playlist.name));
-
-            println!("{}", playlist_path.display());
-            let mut file = File::create(playlist_path)?;
-            if let Some(entries) = playlist_entries.get(&playlist.id) {
-                for track in entries.values().filter_map(|track_id| tracks.get(track_id)) {
-                    writeln!(
-                        &mut file,
-                        "{}",
-                        export_path
-                            .canonicalize()?
-                            .join(track.strip_prefix('/').unwrap_or(track))
-                            .display(),
-                    )?;
+        walk_tree(
+            node,
+            output_dir,
+            &mut used_paths,
+            &|playlist, path, used_paths| {
+                std::fs::create_dir_all(path)?;
+                let playlist_path = used_paths.add_playlist(path, &playlist.name);
+
+                println!("{}", playlist_path.display());
+                let mut file = File::create(playlist_path)?;
+                if let Some(entries) = playlist_entries.get(&playlist.id) {
+                    for track in entries.values().filter_map(|track_id| tracks.get(track_id)) {
+                        writeln!(
+                            &mut file,
+                            "{}",
+                            export_path
+                                .canonicalize()?
+                                .join(track.strip_prefix('/').unwrap_or(track))
+                                .display(),
+                        )?;
+                    }
                 }
-            }
-            Ok(())
-        })
+                Ok(())
+            },
+        )
     })?;
 
     Ok(())
-- 
2.43.0


From 8717073be14cda6919396001172074ce1aa4f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:47 +0000
Subject: [PATCH 33/44] fix: keep all tracks of playlists with repeated entry
 indices

---
 src/main.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 89116d6..68b6287 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -96,7 +96,8 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
     let mut db = Database::open_non_persistent(reader, DatabaseType::Plain)?;
 
     let mut playlist_tree: HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>> = HashMap::new();
-    let mut playlist_entries: HashMap<PlaylistTreeNodeId, BTreeMap<u32, TrackId>> = HashMap::new();
+    let mut playlist_entries: HashMap<PlaylistTreeNodeId, BTreeMap<u32, Vec<TrackId>>> =
+        HashMap::new();
     let mut artists: HashMap<ArtistId, Artist> = HashMap::new();
     let mut tracks: HashMap<TrackId, Track> = HashMap::new();
 
@@ -122,7 +123,9 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         playlist_entries
             .entry(entry.playlist_id)
             .or_default()
-            .insert(entry.entry_index, entry.track_id);
+            .entry(entry.entry_index)
+            .or_default()
+            .push(entry.track_id);
         Ok(())
     })?;
 
@@ -154,7 +157,7 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
     // duplicate IDs in the database cannot expand the same nodes over and over again.
     fn print_children_of(
         tree: &mut HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
-        tree_entries: &HashMap<PlaylistTreeNodeId, BTreeMap<u32, TrackId>>,
+        tree_entries: &HashMap<PlaylistTreeNodeId, BTreeMap<u32, Vec<TrackId>>>,
         artists: &HashMap<ArtistId, Artist>,
         tracks: &HashMap<TrackId, Track>,
         id: PlaylistTreeNodeId,
@@ -174,9 +177,11 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
                 node.name,
             );
             if let Some(playlist_tracks) = tree_entries.get(&node.id) {
-                for (index, track_id) in playlist_tracks.iter() {
-                    print!("{}  ♫ {}: ", indentation, index);
-                    print_track(track_id, artists, tracks);
+                for (index, track_ids) in playlist_tracks.iter() {
+                    for track_id in track_ids {
+                        print!("{}  ♫ {}: ", indentation, index);
+                        print_track(track_id, artists, tracks);
+                    }
                 }
             }
             print_children_of(tree, tree_entries, artists, tracks, node.id, level + 1)
@@ -208,10 +213,14 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         .iter_rows::<PlaylistEntry>()?
         .map(|entry| Ok((entry.playlist_id, (entry.entry_index, entry.track_id))))
         .fold(
-            HashMap::<PlaylistTreeNodeId, BTreeMap<u32, TrackId>>::new(),
+            HashMap::<PlaylistTreeNodeId, BTreeMap<u32, Vec<TrackId>>>::new(),
             |mut acc, (playlist_id, entry)| {
                 // BTreeMap keeps entries sorted by their index in the playlist.
-                acc.entry(playlist_id).or_default().insert(entry.0, entry.1);
+                acc.entry(playlist_id)
+                    .or_default()
+                    .entry(entry.0)
+                    .or_default()
+                    .push(entry.1);
                 Ok(acc)
             },
         )?;
@@ -304,7 +313,11 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
                 println!("{}", playlist_path.display());
                 let mut file = File::create(playlist_path)?;
                 if let Some(entries) = playlist_entries.get(&playlist.id) {
-                    for track in entries.values().filter_map(|track_id| tracks.get(track_id)) {
+                    for track in entries
+                        .values()
+                        .flatten()
+                        .filter_map(|track_id| tracks.get(track_id))
+                    {
                         writeln!(
                             &mut file,
                             "{}",
-- 
2.43.0


From f4cb74238603fb494ff3f791036379ea0e7daf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:05 +0000
Subject: [PATCH 34/44] fix: report malformed XML documents as an error instead
 of panicking

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 68b6287..e4ce1ae 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -412,7 +412,8 @@ fn dump_setting(path: &Path, setting_type: SettingType) -> rekordcrate::Result<(
 fn dump_xml(path: &Path) -> rekordcrate::Result<()> {
     let file = File::open(path)?;
     let reader = std::io::BufReader::new(file);
-    let document: Document = quick_xml::de::from_reader(reader).expect("failed to deserialize XML");
+    let document: Document = quick_xml::de::from_reader(reader)
+        .map_err(|err| std::io::Error::new(std::io::ErrorKind::InvalidData, err))?;
     println!("{:#?}", document);
 
     Ok(())
-- 
2.43.0


From b0d7f3febbc5d276d4f23e4085ef947f6194e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:42 +0000
Subject: [PATCH 35/44] fix: limit how far overlapping rows and strings can
 expand a page

Rows and strings of a page are located by offsets, so a corrupt page of a few hundred
kilobytes could refer to the same bytes over and over again and expand to gigabytes.
---
 src/pdb/io.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 7436e41..a46f427 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -121,10 +121,55 @@ fn read_page<IO: Read + Seek>(
     io.take(page_size.into())
         .read_to_end(&mut bytes)
         .map_err(binrw::Error::Io)?;
-    let page = Page::read_options(&mut Cursor::new(bytes), endian, (page_size, db_type))?;
+    let mut reader = PageReader::new(bytes);
+    let page = Page::read_options(&mut reader, endian, (page_size, db_type))?;
     Ok(page)
 }
 
+/// Reader over the bytes of a single page that limits how often they can be read.
+///
+/// The rows of a page and the strings of a row are located by offsets, so a corrupt page can
+/// refer to the same bytes over and over again and expand to many times its size.
+struct PageReader {
+    bytes: Cursor<Vec<u8>>,
+    /// Number of bytes that may still be read.
+    budget: usize,
+}
+
+impl PageReader {
+    /// How often each byte may be read on average. Well-formed pages stay far below that.
+    const MAX_READS_PER_BYTE: usize = 16;
+
+    fn new(bytes: Vec<u8>) -> Self {
+        let budget = bytes.len().saturating_mul(Self::MAX_READS_PER_BYTE);
+        Self {
+            bytes: Cursor::new(bytes),
+            budget,
+        }
+    }
+}
+
+impl Read for PageReader {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        let count = self.bytes.read(buf)?;
+        if count > self.budget {
+            self.budget = 0;
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "rows of the page refer to the same bytes too often",
+            ));
+        }
+        self.budget -= count;
+        Ok(count)
+    }
+}
+
+impl Seek for PageReader {
+    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
+        self.bytes.seek(pos)
+    }
+}
+
 /// A PDB database opened for reading or writing.
 #[derive(Debug)]
 pub struct Database<IO> {
-- 
2.43.0


From 697c12323ee71ae106195ecdc1e36a55f49cc5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 36/44] fix: stop writing offset array items after the first
 error

The remaining strings of a row were still written after a failed seek, at whatever position
the file was at, overwriting other parts of the page. Saving again did not repair them.
---
 src/util.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 2859c90..c0be10c 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -233,15 +233,10 @@ pub(crate) trait ArrayPolyfills<T, const N: usize> {
 
 impl<T, const N: usize> ArrayPolyfills<T, N> for [T; N] {
     fn try_map_polyfill<U, E>(self, f: impl FnMut(T) -> Result<U, E>) -> Result<[U; N], E> {
-        let results = self.map(f);
-        let has_error = results.iter().any(|r| r.is_err());
-        if has_error {
-            return Err(results.into_iter().find_map(|r| r.err()).unwrap());
-        }
-        Ok(results.map(|r| match r {
-            Ok(v) => v,
-            Err(_) => unreachable!(),
-        }))
+        // Stops at the first error, because the closures have side effects: after a failed seek
+        // the remaining items must not be written anywhere.
+        let results = self.into_iter().map(f).collect::<Result<Vec<U>, E>>()?;
+        Ok(results.try_into().unwrap_or_else(|_| unreachable!()))
     }
 
     fn zip_polyfill<U>(self, other: [U; N]) -> [(T, U); N] {
-- 
2.43.0


From 8a79bd6216163842a0f60da6ebae8cf3fab69c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 37/44] fix: flush the underlying IO when saving a database

Otherwise saving through a buffering IO reports success before the data has arrived, and
errors are lost.
---
 src/pdb/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index a46f427..63af27f 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -306,6 +306,8 @@ impl<RW: Read + Write + Seek> Database<RW> {
         let endian = Endian::Little;
         self.io.seek(SeekFrom::Start(0))?;
         self.content.write_options(&mut self.io, endian, ())?;
+        // The IO may buffer what was written and only report failures when it is flushed.
+        self.io.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From fad8f3b7c9be5f212e402eca8fa25953edb8650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 38/44] fix: do not take a failing read for an absent parent id

---
 src/pdb/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdb/ext.rs b/src/pdb/ext.rs
index 14490ff..4009800 100644
--- a/src/pdb/ext.rs
+++ b/src/pdb/ext.rs
@@ -44,7 +44,7 @@ impl PageHeapObject for TagId {
 #[brw(little)]
 /// A possibly absent parent ID. If the ID is zero (None), then there is no parent.
 pub struct ParentId(
-    #[br(try)] // failing to parse is fine, since then its just non-zero
+    #[br(map = |x: u32| NonZero::new(x))]
     #[bw(map = |&x| x.map_or(0, |v| v.get()))]
     pub Option<NonZero<u32>>,
 );
-- 
2.43.0


From de0c0c7d0a847bdc4cbba006095e07a37a0528a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 39/44] fix: do not take a failing read of an ISRC for a UTF-16
 string

---
 src/pdb/string.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index f395b0a..022a793 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -248,7 +248,7 @@ enum DeviceSQLStringImpl {
         length: u16,
 
         #[brw(magic(0u8))] // padding
-        #[br(args(flags, length - 4))]
+        #[br(parse_with = parse_long_body, args(flags, length - 4))]
         content: LongBody,
     },
 }
@@ -277,6 +277,26 @@ enum LongBody {
     Ucs2le(#[br(count = usize::from(len / 2))] Vec<u16>),
 }
 
+/// Parse the `len` bytes of a long string.
+///
+/// They are read before the possible encodings are tried, so that a failing read is not taken for
+/// a different encoding.
+#[binrw::parser(reader, endian)]
+fn parse_long_body(flags: u8, len: u16) -> BinResult<LongBody> {
+    let pos = reader.stream_position()?;
+    let mut bytes = vec![0; len.into()];
+    reader.read_exact(&mut bytes)?;
+    <LongBody as binrw::BinRead>::read_options(
+        &mut binrw::io::Cursor::new(bytes),
+        endian,
+        (flags, len),
+    )
+    .map_err(|_| binrw::Error::AssertFail {
+        pos,
+        message: "invalid long string".to_string(),
+    })
+}
+
 /// Parse ASCII text that is terminated by the only NUL byte at the end of its `size` bytes.
 #[binrw::parser(reader)]
 fn parse_isrc(size: u16) -> BinResult<binrw::NullString> {
-- 
2.43.0


From e9c3fc7a006ebfe733a8c4430b16f959d6738475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:52 +0000
Subject: [PATCH 40/44] fix: do not take a failing read for an unknown page
 type, file type or visibility

The fallback variants were tried after any error, including I/O errors.
---
 src/pdb/mod.rs | 33 +++++++++++++++++++++++++++++----
 src/util.rs    | 29 +++++++++++++++++++++++------
 2 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 4235ed2..ce24b68 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -71,17 +71,29 @@ pub enum DatabaseType {
 #[derive(Debug, PartialEq, Eq, Clone, Copy)]
 #[brw(little)]
 #[br(import(db_type: DatabaseType))]
+#[br(map = |value: u32| Self::from_value(value, db_type))]
 pub enum PageType {
-    #[br(pre_assert(db_type == DatabaseType::Plain))]
     /// Pagetypes present in `export.pdb` files.
     Plain(PlainPageType),
-    #[br(pre_assert(db_type == DatabaseType::Ext))]
     /// Pagetypes present in `exportExt.pdb` files.
     Ext(ExtPageType),
     /// Unknown page type.
     Unknown(u32),
 }
 
+impl PageType {
+    /// Matches a value that has been read already, so that a failing read is not taken for an
+    /// unknown page type.
+    fn from_value(value: u32, db_type: DatabaseType) -> Self {
+        let mut bytes = std::io::Cursor::new(value.to_le_bytes());
+        match db_type {
+            DatabaseType::Plain => PlainPageType::read(&mut bytes).map(Self::Plain),
+            DatabaseType::Ext => ExtPageType::read(&mut bytes).map(Self::Ext),
+        }
+        .unwrap_or(Self::Unknown(value))
+    }
+}
+
 /// The type of pages found inside a `Table` of export.pdb files.
 #[binrw]
 #[derive(Debug, PartialEq, Eq, Clone, Copy)]
@@ -1890,17 +1902,30 @@ impl PageHeapObject for Track {
 #[binrw]
 #[derive(Debug, PartialEq, Eq, Clone, Copy)]
 #[brw(little)]
+#[br(map = Self::from_value)]
 pub enum MenuVisibility {
     /// The menu is visible.
-    #[brw(magic = 0x00u8)]
+    #[bw(magic = 0x00u8)]
     Visible,
     /// The menu is hidden.
-    #[brw(magic = 0x01u8)]
+    #[bw(magic = 0x01u8)]
     Hidden,
     /// Unknown visibility flag.
     Unknown(u8),
 }
 
+impl MenuVisibility {
+    /// Matches a value that has been read already, so that a failing read is not taken for an
+    /// unknown flag.
+    fn from_value(value: u8) -> Self {
+        match value {
+            0x00 => Self::Visible,
+            0x01 => Self::Hidden,
+            other => Self::Unknown(other),
+        }
+    }
+}
+
 impl PageHeapObject for MenuVisibility {
     type Args<'a> = ();
     fn heap_bytes_required(&self, _: ()) -> u16 {
diff --git a/src/util.rs b/src/util.rs
index c0be10c..5de62a6 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -119,29 +119,46 @@ pub enum ColorIndex {
 /// Track file type.
 #[binrw]
 #[derive(Debug, PartialEq, Eq, Clone)]
+#[br(map = Self::from_value)]
 pub enum FileType {
     /// Unknown file type.
-    #[brw(magic = 0x0u16)]
+    #[bw(magic = 0x0u16)]
     Unknown,
     /// MP3.
-    #[brw(magic = 0x1u16)]
+    #[bw(magic = 0x1u16)]
     Mp3,
     /// M4A.
-    #[brw(magic = 0x4u16)]
+    #[bw(magic = 0x4u16)]
     M4a,
     /// FLAC.
-    #[brw(magic = 0x5u16)]
+    #[bw(magic = 0x5u16)]
     Flac,
     /// WAV.
-    #[brw(magic = 0xbu16)]
+    #[bw(magic = 0xbu16)]
     Wav,
     /// AIFF.
-    #[brw(magic = 0xcu16)]
+    #[bw(magic = 0xcu16)]
     Aiff,
     /// Value that we haven't seen before.
     Other(u16),
 }
 
+impl FileType {
+    /// Matches a value that has been read already, so that a failing read is not taken for a
+    /// different file type.
+    fn from_value(value: u16) -> Self {
+        match value {
+            0x0 => Self::Unknown,
+            0x1 => Self::Mp3,
+            0x4 => Self::M4a,
+            0x5 => Self::Flac,
+            0xb => Self::Wav,
+            0xc => Self::Aiff,
+            other => Self::Other(other),
+        }
+    }
+}
+
 /// Parses exactly `count` bytes.
 ///
 /// In contrast to a `count` directive, this never allocates much more memory than there is data,
-- 
2.43.0


From 74b798b1221059f23272abaaadbdae4dd71f31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 41/44] fix: refuse to write cue lists with more cues than
 their count can express

The number of cues is stored in 16 bits and wrapped silently, so the written
file could not be read back.
---
 src/anlz.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 3e22f29..78c83ec 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -843,7 +843,7 @@ pub struct CueList {
     unknown: u16,
     /// Number of cues.
     #[br(temp)]
-    #[bw(calc = cues.len() as u16)]
+    #[bw(try_calc = u16::try_from(cues.len()))]
     len_cues: u16,
     /// Unknown field.
     memory_count: u32,
@@ -863,7 +863,7 @@ pub struct ExtendedCueList {
     pub list_type: CueListType,
     /// Number of cues.
     #[br(temp)]
-    #[bw(calc = cues.len() as u16)]
+    #[bw(try_calc = u16::try_from(cues.len()))]
     len_cues: u16,
     /// Unknown field
     #[br(assert(unknown == 0))]
-- 
2.43.0


From ae0b4c7215598acc6496df6ef9950e21828e9962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:34 +0000
Subject: [PATCH 42/44] fix: refuse to save pages in which rows would overwrite
 each other

---
 src/pdb/io.rs | 80 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 79 insertions(+), 1 deletion(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 63af27f..5d1e232 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -61,11 +61,89 @@ impl BinWrite for LazyPage {
                 writer.seek(SeekFrom::Current(page_size as i64))?;
                 Ok(())
             }
-            LazyPage::Loaded(page) => page.write_options(writer, endian, (page_size,)),
+            LazyPage::Loaded(page) => {
+                let mut image = PageImage::new(page_size);
+                page.write_options(&mut image, endian, (page_size,))?;
+                image.copy_to(writer)?;
+                Ok(())
+            }
         }
     }
 }
 
+/// Bytes of a single page that are about to be saved.
+///
+/// Rows and strings are written to the offsets where they have been stored, so one that has grown
+/// would overwrite its neighbors or even the following page. This refuses to do so.
+struct PageImage {
+    page_size: u64,
+    position: u64,
+    bytes: Vec<Option<u8>>,
+}
+
+impl PageImage {
+    fn new(page_size: u32) -> Self {
+        Self {
+            page_size: page_size.into(),
+            position: 0,
+            bytes: Vec::new(),
+        }
+    }
+
+    /// Copies the written bytes to the current position, leaving all others as they are.
+    fn copy_to<W: Write + Seek>(&self, writer: &mut W) -> std::io::Result<()> {
+        let start = writer.stream_position()?;
+        for chunk in self.bytes.chunk_by(|a, b| a.is_some() == b.is_some()) {
+            if chunk[0].is_some() {
+                let bytes: Vec<u8> = chunk.iter().copied().flatten().collect();
+                writer.write_all(&bytes)?;
+            } else {
+                writer.seek(SeekFrom::Current(chunk.len() as i64))?;
+            }
+        }
+        writer.seek(SeekFrom::Start(start + self.page_size))?;
+        Ok(())
+    }
+}
+
+impl Write for PageImage {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        let refused = |message| std::io::Error::new(std::io::ErrorKind::InvalidData, message);
+        let end = self.position.saturating_add(buf.len() as u64);
+        if end > self.page_size {
+            return Err(refused("content does not fit into the page"));
+        }
+        let (start, end) = (self.position as usize, end as usize);
+        if self.bytes.len() < end {
+            self.bytes.resize(end, None);
+        }
+        for (old, new) in self.bytes[start..end].iter_mut().zip(buf) {
+            if old.is_some_and(|old| old != *new) {
+                return Err(refused("rows of the page would overwrite each other"));
+            }
+            *old = Some(*new);
+        }
+        self.position = end as u64;
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        Ok(())
+    }
+}
+
+impl Seek for PageImage {
+    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
+        let base = match pos {
+            SeekFrom::Start(position) => Some(position),
+            SeekFrom::Current(offset) => self.position.checked_add_signed(offset),
+            SeekFrom::End(offset) => self.page_size.checked_add_signed(offset),
+        };
+        self.position = base.ok_or(std::io::ErrorKind::InvalidInput)?;
+        Ok(self.position)
+    }
+}
+
 /// Reads the file header, without loading any of the pages.
 fn read_database<IO: Read + Seek>(
     io: &mut IO,
-- 
2.43.0


From c00be22a66ce7dc18a6de2965009fb3332d0be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 43/44] fix: keep the rest of the header page when saving and
 do not let tables outgrow it

---
 src/pdb/io.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 5d1e232..74349e1 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -32,7 +32,7 @@ use std::io::{Cursor, Read, Seek, Write};
 struct LazyDatabase {
     /// The PDB header.
     #[br(args(db_type))]
-    #[bw(pad_size_to = header.page_size as usize)]
+    #[bw(write_with = write_page, args(header.page_size, Default::default()))]
     header: Header,
     /// The pages of the database, initially not loaded.
     #[br(calc = vec![LazyPage::NotLoaded; num_pages])]
@@ -61,16 +61,24 @@ impl BinWrite for LazyPage {
                 writer.seek(SeekFrom::Current(page_size as i64))?;
                 Ok(())
             }
-            LazyPage::Loaded(page) => {
-                let mut image = PageImage::new(page_size);
-                page.write_options(&mut image, endian, (page_size,))?;
-                image.copy_to(writer)?;
-                Ok(())
-            }
+            LazyPage::Loaded(page) => write_page(page, writer, endian, (page_size, (page_size,))),
         }
     }
 }
 
+/// Writes the content of a single page, which must not exceed it, and moves on to the next page.
+fn write_page<T: BinWrite, W: Write + Seek>(
+    content: &T,
+    writer: &mut W,
+    endian: Endian,
+    (page_size, args): (u32, T::Args<'_>),
+) -> BinResult<()> {
+    let mut image = PageImage::new(page_size);
+    content.write_options(&mut image, endian, args)?;
+    image.copy_to(writer)?;
+    Ok(())
+}
+
 /// Bytes of a single page that are about to be saved.
 ///
 /// Rows and strings are written to the offsets where they have been stored, so one that has grown
-- 
2.43.0


From cac1ba1cfc7fa6a7515aad270caa7c3cc15ccebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:02 +0000
Subject: [PATCH 44/44] fix: refuse to save a list of tables that does not
 match their number

---
 src/pdb/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index ce24b68..2e6ef3d 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -233,7 +233,7 @@ pub struct Header {
     #[brw(magic = 0u32)]
     /// Each table is a linked list of pages containing rows of a particular type.
     #[br(count = num_tables, args {inner: (db_type,)})]
-    #[bw(args(db_type))]
+    #[bw(args(db_type), assert(tables.len() == *num_tables as usize, "num_tables {} does not match table count {}", num_tables, tables.len()))]
     pub tables: Vec<Table>,
 }
 
-- 
2.43.0

