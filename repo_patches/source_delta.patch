From fbc1422012f8b77e1242ff8cc00145177d8cfa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 1/9] fix: report a truncated header size, header or blob as an
 error

BlobReader took 1 to 3 trailing bytes, and an I/O error of kind
UnexpectedEof, for the regular end of the stream, and accepted a header or
blob that was cut off between two protobuf fields.
---
 src/blob.rs | 54 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/blob.rs b/src/blob.rs
index 92f7328..2096d5f 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -1,7 +1,9 @@
 //! Read and decode blobs
 
 use crate::block::{HeaderBlock, PrimitiveBlock};
-use crate::error::{new_blob_error, new_error, new_protobuf_error, BlobError, ErrorKind, Result};
+use crate::error::{
+    new_blob_error, new_error, new_protobuf_error, BlobError, Error, ErrorKind, Result,
+};
 use crate::proto::fileformat;
 use byteorder::ReadBytesExt;
 use protobuf::Message;
@@ -187,23 +189,28 @@ impl<R: Read + Send> BlobReader<R> {
     }
 
     fn read_blob_header(&mut self) -> Option<Result<fileformat::BlobHeader>> {
-        let header_size: u64 = match self.reader.read_u32::<byteorder::BigEndian>() {
+        // The stream may only end in front of a header size, not inside of it.
+        let first_byte = match self.reader.by_ref().bytes().next() {
+            Some(result) => result,
+            None => {
+                self.offset = None;
+                return None;
+            }
+        };
+
+        let header_size: u64 = match first_byte.and_then(|byte| {
+            (&[byte][..])
+                .chain(self.reader.by_ref())
+                .read_u32::<byteorder::BigEndian>()
+        }) {
             Ok(n) => {
                 self.offset = self.offset.map(|x| ByteOffset(x.0 + 4));
                 u64::from(n)
             }
-            Err(e) => {
+            Err(_) => {
                 self.offset = None;
-                return match e.kind() {
-                    ::std::io::ErrorKind::UnexpectedEof => {
-                        //TODO This also accepts corrupted files in the case of 1-3 available bytes
-                        None
-                    }
-                    _ => {
-                        self.last_blob_ok = false;
-                        Some(Err(new_blob_error(BlobError::InvalidHeaderSize)))
-                    }
-                };
+                self.last_blob_ok = false;
+                return Some(Err(new_blob_error(BlobError::InvalidHeaderSize)));
             }
         };
 
@@ -224,6 +231,12 @@ impl<R: Read + Send> BlobReader<R> {
             }
         };
 
+        if reader.limit() > 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(truncated_error("content too short for header")));
+        }
+
         self.offset = self.offset.map(|x| ByteOffset(x.0 + header_size));
 
         Some(Ok(header))
@@ -286,6 +299,12 @@ impl<R: Read + Send> Iterator for BlobReader<R> {
             }
         };
 
+        if reader.limit() > 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(truncated_error("content too short for block data")));
+        }
+
         self.offset = self
             .offset
             .map(|x| ByteOffset(x.0 + header.datasize() as u64));
@@ -452,6 +471,15 @@ impl BlobReader<BufReader<File>> {
     }
 }
 
+/// The stream ended before all announced bytes could be read. A protobuf message that was cut off
+/// between two fields can still be parsed, so this is not always noticed by the parser.
+fn truncated_error(message: &'static str) -> Error {
+    new_error(ErrorKind::Io(::std::io::Error::new(
+        ::std::io::ErrorKind::UnexpectedEof,
+        message,
+    )))
+}
+
 pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
     if blob.has_raw() {
         let size = blob.raw().len() as u64;
-- 
2.43.0


From 9533fe728ba9d58b2b6d4bdb72d8a24c2549c9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 2/9] fix: reject blob headers with a negative blob size

A negative size overflowed in BlobReader::next and MmapBlobReader::next and
made next_header_skip_blob seek backwards, possibly forever.
---
 src/blob.rs      | 14 ++++++++++++++
 src/mmap_blob.rs |  7 ++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/blob.rs b/src/blob.rs
index 2096d5f..914a94d 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -237,6 +237,12 @@ impl<R: Read + Send> BlobReader<R> {
             return Some(Err(truncated_error("content too short for header")));
         }
 
+        if header.datasize() < 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(negative_size_error()));
+        }
+
         self.offset = self.offset.map(|x| ByteOffset(x.0 + header_size));
 
         Some(Ok(header))
@@ -480,6 +486,14 @@ fn truncated_error(message: &'static str) -> Error {
     )))
 }
 
+/// A blob header announces a blob of negative size.
+pub(crate) fn negative_size_error() -> Error {
+    new_error(ErrorKind::Io(::std::io::Error::new(
+        ::std::io::ErrorKind::InvalidData,
+        "blob size is negative",
+    )))
+}
+
 pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
     if blob.has_raw() {
         let size = blob.raw().len() as u64;
diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index e07c733..016ba1b 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -1,7 +1,7 @@
 //! Iterate over blobs from a memory map
 
 use self::fileformat::BlobHeader;
-use crate::blob::{decode_blob, BlobDecode, BlobType, ByteOffset};
+use crate::blob::{decode_blob, negative_size_error, BlobDecode, BlobType, ByteOffset};
 use crate::block::{HeaderBlock, PrimitiveBlock};
 use crate::error::{new_blob_error, new_protobuf_error, BlobError, Result};
 use crate::proto::{fileformat, osmformat};
@@ -219,6 +219,11 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             }
         };
 
+        if header.datasize() < 0 {
+            self.last_blob_ok = false;
+            return Some(Err(negative_size_error()));
+        }
+
         let data_size = header.datasize() as usize;
         let chunk_size = 4 + header_size + data_size;
 
-- 
2.43.0


From d3e3ea945ee1478029eaf62357ee5bd316387aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 3/9] fix: end the iteration when a memory map was seeked past
 its end

MmapBlobReader::next panicked there.
---
 src/mmap_blob.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index 016ba1b..367e383 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -182,7 +182,8 @@ impl<'a> Iterator for MmapBlobReader<'a> {
     type Item = Result<MmapBlob<'a>>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let slice = &self.mmap.as_slice()[self.offset..];
+        // The offset may have been moved past the end by `seek`.
+        let slice = self.mmap.as_slice().get(self.offset..).unwrap_or(&[]);
 
         match slice.len() {
             0 => return None,
-- 
2.43.0


From a32e76cc8bee6ead4d248dd8055017ac56c1e857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 4/9] fix: end the memory map iteration after an error

MmapBlobReader recorded that there was an error, but never looked at it and
repeated the same error forever.
---
 src/mmap_blob.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index 367e383..95c6834 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -175,6 +175,7 @@ impl MmapBlobReader<'_> {
     /// ```
     pub fn seek(&mut self, pos: ByteOffset) {
         self.offset = pos.0 as usize;
+        self.last_blob_ok = true;
     }
 }
 
@@ -182,6 +183,11 @@ impl<'a> Iterator for MmapBlobReader<'a> {
     type Item = Result<MmapBlob<'a>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Stop iteration if there was an error.
+        if !self.last_blob_ok {
+            return None;
+        }
+
         // The offset may have been moved past the end by `seek`.
         let slice = self.mmap.as_slice().get(self.offset..).unwrap_or(&[]);
 
-- 
2.43.0


From 3829b3e99fc45e52df12b566321c4d621a660eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 5/9] fix: let a BlobReader be used again after seeking away
 from an error

The error flag was never reset, so that after one error seek, seek_raw and
blob_from_offset could not lead to any blob any more.
---
 src/blob.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 914a94d..348336a 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -401,6 +401,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(SeekFrom::Start(pos.0)) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(())
             }
             Err(e) => {
@@ -415,6 +416,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(pos) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(offset)
             }
             Err(e) => {
-- 
2.43.0


From 9ba5413d10e7d10a9f8ac3fb042788b45a56c726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 6/9] fix: do not keep the incomplete index of a failed
 create_index

A later operation took it for the index of the whole file.
---
 src/indexed.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/indexed.rs b/src/indexed.rs
index 8168326..e1157ef 100644
--- a/src/indexed.rs
+++ b/src/indexed.rs
@@ -151,6 +151,8 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
         // Seek to the beginning of the reader.
         self.reader.seek(ByteOffset(0))?;
 
+        // Do not keep an incomplete index if there is an error.
+        let mut index = vec![];
         while let Some(result) = self.reader.next_header_skip_blob() {
             let (header, offset) = result?;
             // Reader is seekable, so offset should be Some(ByteOffset)
@@ -161,12 +163,13 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
                 BlobType::Unknown(_) => SimpleBlobType::Unknown,
             };
 
-            self.index.push(BlobInfo {
+            index.push(BlobInfo {
                 offset,
                 blob_type,
                 id_ranges: None,
             });
         }
+        self.index = index;
 
         Ok(())
     }
-- 
2.43.0


From fda761294e64835a66f49ae9e533e2441874081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 7/9] fix: reject compressed blobs with content of 32 MiB or
 more

The content was silently cut off at 32 MiB, and accepted if the cut happened
to be between two protobuf fields.
---
 src/blob.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/blob.rs b/src/blob.rs
index 348336a..0cb1969 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -506,7 +506,15 @@ pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
         }
     } else if blob.has_zlib_data() {
         let mut decoder = ZlibDecoder::new(blob.zlib_data()).take(MAX_BLOB_MESSAGE_SIZE);
-        T::parse_from_reader(&mut decoder).map_err(|e| new_protobuf_error(e, "blob zlib data"))
+        let message =
+            T::parse_from_reader(&mut decoder).map_err(|e| new_protobuf_error(e, "blob zlib data"));
+        if decoder.limit() == 0 {
+            // There may be more data, the message must not be taken for complete.
+            return Err(new_blob_error(BlobError::MessageTooBig {
+                size: MAX_BLOB_MESSAGE_SIZE,
+            }));
+        }
+        message
     } else {
         Err(new_blob_error(BlobError::Empty))
     }
-- 
2.43.0


From 13a61a77e23d93d027d56ffeda8a22e9a441f96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:27 +0000
Subject: [PATCH 8/9] fix: do not panic on undefined relation member types

Iterating over the members of a relation panicked if the file contains a
member type other than the three defined ones.
---
 src/elements.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/elements.rs b/src/elements.rs
index 9d52e10..7085282 100644
--- a/src/elements.rs
+++ b/src/elements.rs
@@ -430,9 +430,9 @@ pub enum RelMemberType {
     Relation,
 }
 
-impl From<EnumOrUnknown<MemberType>> for RelMemberType {
-    fn from(rmt: EnumOrUnknown<MemberType>) -> RelMemberType {
-        match rmt.unwrap() {
+impl From<MemberType> for RelMemberType {
+    fn from(rmt: MemberType) -> RelMemberType {
+        match rmt {
             MemberType::NODE => RelMemberType::Node,
             MemberType::WAY => RelMemberType::Way,
             MemberType::RELATION => RelMemberType::Relation,
@@ -491,12 +491,14 @@ impl<'a> Iterator for RelMemberIter<'a> {
             self.member_types.next(),
         ) {
             (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
+                // Just like invalid tags, an undefined member type ends the iteration.
+                let member_type = member_type.enum_value().ok()?;
                 self.current_member_id += *mem_id_delta;
                 Some(RelMember {
                     block: self.block,
                     role_sid: *role_sid,
                     member_id: self.current_member_id,
-                    member_type: RelMemberType::from(*member_type),
+                    member_type: RelMemberType::from(member_type),
                 })
             }
             _ => None,
-- 
2.43.0


From 550b0d21c8bee093d46fe5deac2cc545bbc0b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 9/9] fix: do not overflow on extreme coordinates, ids and
 timestamps

Sums of deltas and scaled values panicked in debug builds if a file contains
extreme values. Like release builds did already, wrap around in all builds.
---
 src/dense.rs    | 25 +++++++++++++++----------
 src/elements.rs | 32 +++++++++++++++++++++++---------
 2 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/dense.rs b/src/dense.rs
index 577e327..7702c62 100644
--- a/src/dense.rs
+++ b/src/dense.rs
@@ -39,7 +39,9 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.lat
+        self.block
+            .lat_offset()
+            .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.lat))
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -54,7 +56,9 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.lon
+        self.block
+            .lon_offset()
+            .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.lon))
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -146,9 +150,9 @@ impl<'a> Iterator for DenseNodeIter<'a> {
             self.info_iter.as_mut().and_then(|iter| iter.next()),
         ) {
             (Some(did), Some(dlat), Some(dlon), info) => {
-                self.cid += *did;
-                self.clat += *dlat;
-                self.clon += *dlon;
+                self.cid = self.cid.wrapping_add(*did);
+                self.clat = self.clat.wrapping_add(*dlat);
+                self.clon = self.clon.wrapping_add(*dlon);
 
                 let start_index = self.keys_vals_index;
                 let mut end_index = start_index;
@@ -223,7 +227,8 @@ impl<'a> DenseNodeInfo<'a> {
 
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> i64 {
-        self.timestamp * i64::from(self.block.date_granularity())
+        self.timestamp
+            .wrapping_mul(i64::from(self.block.date_granularity()))
     }
 
     /// Returns the visibility status of an element. This is only relevant if the PBF file contains
@@ -296,10 +301,10 @@ impl<'a> Iterator for DenseNodeInfoIter<'a> {
                 Some(duser_sid),
                 visible_opt,
             ) => {
-                self.ctimestamp += *dtimestamp;
-                self.cchangeset += *dchangeset;
-                self.cuid += *duid;
-                self.cuser_sid += *duser_sid;
+                self.ctimestamp = self.ctimestamp.wrapping_add(*dtimestamp);
+                self.cchangeset = self.cchangeset.wrapping_add(*dchangeset);
+                self.cuid = self.cuid.wrapping_add(*duid);
+                self.cuser_sid = self.cuser_sid.wrapping_add(*duser_sid);
                 Some(DenseNodeInfo {
                     block: self.block,
                     version,
diff --git a/src/elements.rs b/src/elements.rs
index 7085282..1513962 100644
--- a/src/elements.rs
+++ b/src/elements.rs
@@ -87,7 +87,9 @@ impl<'a> Node<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.osmnode.lat()
+        self.block
+            .lat_offset()
+            .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.osmnode.lat()))
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -102,7 +104,9 @@ impl<'a> Node<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.osmnode.lon()
+        self.block
+            .lon_offset()
+            .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.osmnode.lon()))
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -335,7 +339,7 @@ impl Iterator for WayRefIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.deltas.next() {
             Some(&d) => {
-                self.current += d;
+                self.current = self.current.wrapping_add(d);
                 Some(self.current)
             }
             None => None,
@@ -404,11 +408,17 @@ impl Iterator for WayNodeLocationsIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match (self.dlats.next(), self.dlons.next()) {
             (Some(&dlat), Some(&dlon)) => {
-                self.clat += dlat;
-                self.clon += dlon;
+                self.clat = self.clat.wrapping_add(dlat);
+                self.clon = self.clon.wrapping_add(dlon);
                 Some(WayNodeLocation {
-                    lat: self.block.lat_offset() + i64::from(self.block.granularity()) * self.clat,
-                    lon: self.block.lon_offset() + i64::from(self.block.granularity()) * self.clon,
+                    lat: self
+                        .block
+                        .lat_offset()
+                        .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.clat)),
+                    lon: self
+                        .block
+                        .lon_offset()
+                        .wrapping_add(i64::from(self.block.granularity()).wrapping_mul(self.clon)),
                 })
             }
             _ => None,
@@ -493,7 +503,7 @@ impl<'a> Iterator for RelMemberIter<'a> {
             (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
                 // Just like invalid tags, an undefined member type ends the iteration.
                 let member_type = member_type.enum_value().ok()?;
-                self.current_member_id += *mem_id_delta;
+                self.current_member_id = self.current_member_id.wrapping_add(*mem_id_delta);
                 Some(RelMember {
                     block: self.block,
                     role_sid: *role_sid,
@@ -585,7 +595,11 @@ impl<'a> Info<'a> {
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> Option<i64> {
         if self.info.has_timestamp() {
-            Some(self.info.timestamp() * i64::from(self.block.date_granularity()))
+            Some(
+                self.info
+                    .timestamp()
+                    .wrapping_mul(i64::from(self.block.date_granularity())),
+            )
         } else {
             None
         }
-- 
2.43.0

