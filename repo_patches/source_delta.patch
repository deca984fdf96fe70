From 2ed436fddbd57def28bd9ce73cebc15c86f5e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 01/18] fix: dd_dlt: write all bytes of a message and report a
 failing last flush

write() may accept only a part of the bytes or be interrupted; the rest was
silently dropped. Bytes still buffered at the end were lost without an error
if the output failed then.
---
 dd_dlt/src/main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index ec4950d..2bfeece 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -47,15 +47,17 @@ fn main() -> Result<(), std::io::Error> {
                 appid.try_into().expect("app id incorrect")
         );
 
-        io::stdout().write(sh.as_bytes())?;
-        io::stdout().write(h.as_bytes())?;
+        io::stdout().write_all(sh.as_bytes())?;
+        io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write(U32::from(count * 100).as_bytes())?;
-        io::stdout().write(eh.as_bytes())?;
-        io::stdout().write(buf.as_bytes())?;
+        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(eh.as_bytes())?;
+        io::stdout().write_all(buf.as_bytes())?;
 
         count += 1;
     }
+    // stdout is buffered: errors of the last write must not get lost at exit
+    io::stdout().flush()?;
     eprintln!("wrote {} DLT messages with payload size={}b", count, payload_size);
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From 8bda6f905bf1b3bb8a7c68ffc6a1db40645b29d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 02/18] fix: dd_dlt: report input errors instead of treating
 them as end of input

---
 dd_dlt/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index 2bfeece..eed4499 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -27,7 +27,8 @@ fn main() -> Result<(), std::io::Error> {
     loop {
         match io::stdin().lock().read_exact(&mut buf) {
             Ok(_) => (),
-            _ => {break;}
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {break;}
+            Err(e) => return Err(e),
         };
 
         // DltStorageHeader
-- 
2.43.0


From 91457685ee373a5091c0663fe2fd24f5f4c0573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 03/18] fix: dd_dlt: refuse payload sizes that do not fit in a
 DLT message

A size of 0 produced messages without end, a size above 65517 overflowed the
length field.
---
 dd_dlt/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index eed4499..86c7fcd 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -16,9 +16,11 @@ fn main() -> Result<(), std::io::Error> {
     let ecuid = args[1].as_bytes();
     let appid = args[2].as_bytes();
 
+    // the length field covers the headers, too
+    const MAX_PAYLOAD_SIZE: u16 = u16::MAX - (4 + 10 + 4);
     let payload_size: u16 = match args[3].parse::<u16>() {
-        Ok(val) => val,
-        Err(_) => panic!("wrong parameter"),
+        Ok(val) if val > 0 && val <= MAX_PAYLOAD_SIZE => val,
+        _ => panic!("wrong parameter"),
     };
 
     let mut buf = vec![0u8; payload_size as usize];
-- 
2.43.0


From 0a38b2ea8c49e75eb216390aa7ab8ec9692d2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 04/18] fix: DltBuffer::read_file: return read errors

A failing read yielded a buffer with a part of the file only.
---
 rapiddlt/src/dltbuffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index 7eac240..6e8ba1d 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -16,7 +16,7 @@ impl DltBuffer {
         let file = File::open(filename)?;
         let mut rdr = BufReader::new(file);
         let mut buf: Vec<u8> = vec![];
-        let _ = rdr.read_to_end(&mut buf);
+        rdr.read_to_end(&mut buf)?;
         Ok(DltBuffer::Read(buf))
     }
     pub fn len(&self) -> usize {
-- 
2.43.0


From 7d17b51f1955294b8af4210f6e4380428c8a171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 05/18] fix: DltBuffer::mmap_file: open empty files like
 read_file does

---
 rapiddlt/src/dltbuffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index 6e8ba1d..6d89183 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -9,6 +9,10 @@ pub enum DltBuffer {
 impl DltBuffer {
     pub fn mmap_file (filename: &str) -> Result<Self,io::Error> {
         let file = File::open(filename)?;
+        if file.metadata()?.len() == 0 {
+            // an empty mapping is not possible
+            return Ok(DltBuffer::Read(vec![]));
+        }
         let mmap = unsafe { MmapOptions::new().map(&file)? };
         Ok(DltBuffer::Mmap(mmap))
     }
-- 
2.43.0


From 8b47b134a54f6d9cb8163c36688cd525bc6235ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 06/18] fix: ReadFallbackIterator: resume behind a marker
 without a readable value

---
 matchit/src/searchable/readfallbackit.rs | 47 +++++++++---------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index 90e0836..fe04ab1 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,38 +45,25 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        if self.offset + T::marker().len() >= self.bytes.len() {
-            return None
-        }
-        if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
-            // a valid T at offset
-            match T::try_read_valid_marker(&self.bytes[self.offset..]) {
-                Some((bytes_read, val)) => {
-                    let _off = self.offset;
-                    self.offset += bytes_read;
-                    Some((_off, val))
-                },
-                None => {
-                    None
-                }
-            }
-        } else {
-                // no valid T at offset, searching for a marker
-                match search_marker::<T>(&self.bytes[self.offset..]) {
-                    Some(position) => {
-                        if position == 0 {
-                            // a match with offset = 0 indicates a slice starting with a valid marker
-                            // without containing a valid result
-                            None
-                        } else {
-                            self.offset += position;
-                            self.next()
-                        }
-                    }
-                    None => {
-                        None
+        while self.offset.saturating_add(T::marker().len()) < self.bytes.len() {
+            if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
+                match T::try_read_valid_marker(&self.bytes[self.offset..]) {
+                    // a valid T at offset
+                    Some((bytes_read, val)) => {
+                        let _off = self.offset;
+                        self.offset += bytes_read;
+                        return Some((_off, val))
                     },
+                    // a marker without a valid T, resuming the search behind it
+                    None => {
+                        self.offset += 1;
+                    }
                 }
+            } else {
+                // no valid T at offset, searching for a marker
+                self.offset += search_marker::<T>(&self.bytes[self.offset..])?;
+            }
         }
+        None
     }
 }
-- 
2.43.0


From 6b1fb73881100131ecfe9ac6a36f627315d8919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 07/18] fix: DltEntry: fields of messages shorter than their
 headers are absent

---
 rapiddlt/src/dlt_v1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 68d285d..a2de903 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -345,7 +345,7 @@ impl<'bytes> DltEntry<'bytes> {
     #[inline(always)]
     pub fn ecu_id(&self) -> Option<u32> {
         if self.header.header_type.is_with_ecu_id() {
-            Some(U32::ref_from_prefix(&self.tail[..4])?.get())
+            Some(U32::ref_from_prefix(self.tail)?.get())
         } else {
             None
         }
@@ -385,7 +385,7 @@ impl<'bytes> DltEntry<'bytes> {
         if self.header.header_type.is_with_timestamp() {
             offset += 4;
         }
-        DltExtendedHeader::ref_from_prefix(&self.tail[offset..])
+        DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)
     }
 
     #[inline(always)]
@@ -401,7 +401,7 @@ impl<'bytes> DltEntry<'bytes> {
             offset += 4;
         }
         if self.header.header_type.is_extended_header() {
-            DltExtendedHeader::ref_from_prefix(&self.tail[offset..])?;
+            DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)?;
             offset += DltExtendedHeader::size();
         }
         if offset > self.tail.len() {
-- 
2.43.0


From 964c06c760ed5af3d7f2012816fd44a9dc5929a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 08/18] fix: ripdlt: do not panic on messages whose fields are
 missing or not UTF-8

---
 ripdlt/src/main.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ripdlt/src/main.rs b/ripdlt/src/main.rs
index edfe799..a391250 100644
--- a/ripdlt/src/main.rs
+++ b/ripdlt/src/main.rs
@@ -106,7 +106,7 @@ fn count_hello_world(mmap: &[u8]) -> usize {
 
     let it = dltit(mmap);
 
-    let predicate = |a: &DltStorageEntry<'_>| finder.find_iter(a.dlt.payload().expect("needs to be a valid DLT")).next().is_some();
+    let predicate = |a: &DltStorageEntry<'_>| a.dlt.payload().map_or(false, |p| finder.find(p).is_some());
     let result = it
         .filter(predicate)
         .count();
@@ -153,7 +153,7 @@ fn mstp_info_histogram(mmap: DltBuffer) -> BTreeMap<(bool, Option<DltMessageType
     let it = dltit(mmap.as_slice());
 
     it
-        .filter(|dlt| dlt.dlt.header.header_type.is_extended_header())
+        .filter(|dlt| dlt.dlt.extended_header().is_some())
         .split(|dlt|  dlt.dlt.extended_header().unwrap().msin.info(), |_| Generator::count() )
 }
 
@@ -164,7 +164,7 @@ fn lifecycle_splitit(mmap: DltBuffer) -> BTreeMap<[u8;4],  (BTreeMap<u32, usize>
     let mapping = |r: &(DltStorageEntry<'_>,DltStorageEntry<'_>)| (r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap()) / 10000;
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .split(
             |a: &DltStorageEntry<'_>| a.storage_header.ecu,
             |_| Generator::fork(
@@ -227,7 +227,7 @@ fn lifecycle_histogram(mmap: DltBuffer) -> BTreeMap<usize, usize> {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| a.dlt.ecu_id() == b.dlt.ecu_id() && b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .map(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap())
     ;
@@ -265,7 +265,7 @@ fn lifecycle_iter(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .groupby(predicate)
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
     ;
@@ -281,7 +281,7 @@ fn lifecycle_itertools(mmap: &[u8]) -> usize {
     let predicate = |a: &DltStorageEntry<'_>, b: &DltStorageEntry<'_>| b.dlt.timestamp() >= a.dlt.timestamp();
 
     let result = it
-        .filter(|e| e.dlt.header.header_type.is_with_timestamp())
+        .filter(|e| e.dlt.timestamp().is_some())
         .tuple_windows()
         .filter( |(a,b) |(predicate)(a,b))
         .filter(|r| r.1.dlt.timestamp().unwrap() - r.0.dlt.timestamp().unwrap() >= MIN_TIME_DMS)
@@ -321,19 +321,19 @@ fn main() {
         "split_lifecycles" =>{
             println!("Distribution of lifecycle durations:");
             for (k,v) in lifecycle_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in timestamp_splitit(mmap.as_slice()) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "par_split_timestamp" =>{
             println!("Durations of periods where DLT storage header timestamps are continuous:");
             for (k,v) in par_timestamp_splitit(mmap) {
-                println!("{} #lifecycles: {:?}", String::from_utf8(k.to_vec()).unwrap(), v);
+                println!("{} #lifecycles: {:?}", String::from_utf8_lossy(&k), v);
             }
         },
         "histogram_timestamp" =>{
-- 
2.43.0


From 28c11e33544380bbd29e0f9d1c1cd4e01860989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 09/18] fix: DltStorageEntry::max_len: count the storage header

---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index a2de903..4b3c9d1 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -331,7 +331,7 @@ impl<'bytes> FromBytesReadableTrait<'bytes> for DltStorageEntry<'bytes> {
     }
 
     fn max_len() -> usize {
-        u16::MAX as usize
+        u16::MAX as usize + mem::size_of::<DltStorageHeader>()
     }
 }
 
-- 
2.43.0


From 8fcd225a607c9d580aeee6a89ff120e5ea925f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 10/18] fix: ContainedBySearch: find exactly the value that
 contains the range, in linear time

---
 matchit/src/lib.rs | 69 +++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index 753bb5a..a9230ea 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -6,7 +6,7 @@ pub mod readit;
 
 use std::{marker::PhantomData};
 
-use memchr::memmem::Finder;
+use memchr::memmem::{Finder, FinderRev};
 use searchable::SearchableMarkerTrait;
 
 pub type WithOffset<T> = (usize, T);
@@ -55,7 +55,7 @@ where
 }
 
 /// Stores a ``memchr::memmem::Finder`` for searching ``T::marker()`` patterns.
-pub struct ContainedBySearch<T>(Finder<'static>, PhantomData<T>);
+pub struct ContainedBySearch<T>(Finder<'static>, FinderRev<'static>, PhantomData<T>);
 
 impl<'bytes, T> ContainedBySearch<T> 
 where
@@ -63,47 +63,52 @@ where
 {
     /// Initializes a ``memchr::memmem::Finder`` for searching ``T::marker()`` patterns.
     pub fn new() -> Self {
-        Self(Finder::new(T::marker()), PhantomData)
+        Self(Finder::new(T::marker()), FinderRev::new(T::marker()), PhantomData)
     }
 
-    /// Recursively searches for a valid ``T``that contains the slice ``(payload.0 .. payload.1)``.
-    /// 
-    /// Let's assume ``T(payload)`` denotes that ``payload`` is contained by ``T``.
-    /// If a valid ``T0(payload)`` is found, the algorithm makes sure this is in turn not
-    /// contained by a previous ``T1(T0(payload))``.
-    /// This validity check is performed recursively until no containing ``T_n(...(T1(payload))`` 
-    /// is found anymore.
+    /// Searches for a valid ``T`` that contains the slice ``(payload.0 .. payload.1)``.
+    ///
+    /// A valid ``T`` that is in turn contained by a previous ``T`` does not count: the search goes
+    /// back to a position which no ``T`` spans over, and reads forward from there.
     #[inline(always)]
     pub fn contained_by(&self, bytes: &'bytes [u8], payload: (usize, usize)) -> Option<(usize, T)> 
     {
-        if payload.0 >= bytes.len() || payload.1 >= bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
+        if payload.0 >= bytes.len() || payload.1 > bytes.len() || payload.0 >= payload.1 {
             return None
         }
-        
-        // go back max payload size
-        let backwards_offset = match payload.0.checked_sub(T::max_len()) {
-            Some(val) => val,
-            None => 0,
-        };
-        
-        let iter = self.0.find_iter(&bytes[backwards_offset..]);
-        
-        for candidate_idx in iter.map(|x| x + backwards_offset) {
-            if candidate_idx >= payload.0 {
-                return None
-            }
-            if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
 
-                // needs to contain payload.1
-                if candidate_idx + container.len() >= payload.1 {
-                    // recursively check whether the current container is contained in another container
-                    return match self.contained_by(bytes, (candidate_idx, candidate_idx + T::marker().len())) {
-                        Some(_) => continue,
-                        None => Some((candidate_idx, container)),
-                    };
+        // the end of a marker which starts before idx
+        let marker_end = |idx: usize| bytes.len().min(idx + T::marker().len() - 1);
+
+        // go back until no T spans over pos, none of them is longer than the maximum size
+        let mut pos = payload.0;
+        let mut candidate_idx = payload.0;
+        loop {
+            let start = pos.saturating_sub(T::max_len());
+            candidate_idx = match self.1.rfind(&bytes[start..marker_end(candidate_idx)]) {
+                Some(idx) => start + idx,
+                None => break,
+            };
+            if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
+                if candidate_idx + container.len() > pos {
+                    pos = candidate_idx;
                 }
             }
         }
+
+        // go forward to the T that contains payload
+        while pos < payload.0 {
+            pos += self.0.find(&bytes[pos..marker_end(payload.0)])?;
+            pos += match T::try_read(&bytes[pos..]) {
+                Some((_, container)) => {
+                    if pos + container.len() >= payload.1 {
+                        return Some((pos, container))
+                    }
+                    container.len()
+                },
+                None => 1,
+            };
+        }
         None
     }
 }
-- 
2.43.0


From cc56e1044b450a44c441955bda6e4f933d79292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 11/18] fix: partition_from: lose no data and respect values
 larger than a partition

---
 matchit/src/lib.rs | 47 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index a9230ea..598a78d 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -119,40 +119,31 @@ where
 pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [u8], num: usize) -> Vec<&'bytes [u8]> {
     let mut result: Vec<&[u8]> = vec![];
 
-    let size = bytes.len() / num;
-    let mut candidate = (0, size);
+    // every partition takes at least one byte
+    let size = (bytes.len() / num).max(1);
+    let mut start = 0;
 
     let search = ContainedBySearch::<T>::new();
-    loop {
-        // out of bounds checks: canidates may not exceed ``bytes`` slice and
-        if candidate.0 > bytes.len() || candidate.1 > bytes.len() {
-            break;
-        }
-        candidate.1 = match search.contained_by(bytes, (candidate.1, candidate.1+1)) {
-            Some((container ,_)) => {
-                // in ~99 percent of the cases, candidate.1 points to a valid T.
-                container
-            },
-            None => {
-                // if no containing T was found, candidate.1 points to invalid raw data,
-                // which is a valid split between two partitions. 
-                candidate.1
-            },
+    while start < bytes.len() {
+        let candidate = start + size;
+
+        let split = match search.contained_by(bytes, (candidate, candidate+1)) {
+            // in ~99 percent of the cases, candidate points to a valid T.
+            Some((container, _)) if container > start => container,
+            // T is larger than a partition, which ends behind it
+            Some((container, t)) => container + t.len(),
+            // if no containing T was found, candidate points to invalid raw data,
+            // which is a valid split between two partitions. 
+            None => candidate,
         };
-        
-        // candidate.1 may not point to a container that is part of another partition
-        if candidate.0 >= candidate.1 {
-            break;
-        }
 
         // store result and check for the next candidate for a split
-        if candidate.1 + size /4 >= bytes.len() {
-            result.push(&bytes[candidate.0..]);
-            break;                
-        } else {
-            result.push(&bytes[candidate.0..candidate.1]);
-            candidate = (candidate.1, candidate.1 + size);    
+        if split + size /4 >= bytes.len() {
+            result.push(&bytes[start..]);
+            break;
         }
+        result.push(&bytes[start..split]);
+        start = split;
     }
 
     result
-- 
2.43.0


From 09a83b5ba9a8f87cec5f85fffd30001be6272bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 12/18] fix: SearchIterator, RevSearchIterator: end, and do not
 recurse on markers without a readable value

---
 matchit/src/searchable/searchit.rs | 68 ++++++++++++------------------
 1 file changed, 26 insertions(+), 42 deletions(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index e543534..99ed601 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -31,14 +31,18 @@ impl<'bytes, T> SearchIterator<'bytes, T>
 
     #[inline(always)]
     pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let mut candidate = self.finder.find(&bytes[offset..])?;
-        candidate += offset;
+        let mut offset = offset;
+        while offset < bytes.len() {
+            let mut candidate = self.finder.find(&bytes[offset..])?;
+            candidate += offset;
 
-        let (_, t) = T::try_read_valid_marker(&bytes[candidate..])?;
-        Some((candidate, t))
+            if let Some((_, t)) = T::try_read_valid_marker(&bytes[candidate..]) {
+                return Some((candidate, t))
+            }
+            // a marker without a valid T, resuming the search behind it
+            offset = candidate + 1;
+        }
+        None
     }
 }
 
@@ -51,19 +55,9 @@ impl<'bytes, T> Iterator for SearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset + t.len();
-                Some((offset, t))
-            }
-            None => {
-                self.offset += T::marker().len();
-                if self.offset >= self.bytes.len() {
-                    return None
-                }
-                self.next()
-            }
-        }
+        let (offset, t) = self.search(self.bytes, self.offset)?;
+        self.offset = offset + t.len();
+        Some((offset, t))
     }
 }
 
@@ -81,13 +75,16 @@ impl<'bytes, T> RevSearchIterator<'bytes, T>
 
     #[inline(always)]
     pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
-        if offset > bytes.len() || offset == usize::MAX {
-            return None
-        }
-        let candidate = self.finder.rfind(&bytes[..offset])?;
+        let mut offset = offset.min(bytes.len());
+        loop {
+            let candidate = self.finder.rfind(&bytes[..offset])?;
 
-        let (_, t) = T::try_read_valid_marker(&bytes[candidate..])?;
-        Some((candidate, t))
+            if let Some((_, t)) = T::try_read_valid_marker(&bytes[candidate..]) {
+                return Some((candidate, t))
+            }
+            // a marker without a valid T, resuming the search before it
+            offset = candidate + T::marker().len() - 1;
+        }
     }
 }
 
@@ -107,22 +104,9 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset;
-                Some((self.offset, t))
-            }
-            None => {
-                match self.offset.checked_sub(T::marker().len()) {
-                    Some(sub) => self.offset = sub,
-                    None => self.offset = usize::MAX,
-                };
-                if self.offset == usize::MAX {
-                    return None
-                }
-                self.next()
-            }
-        }
+        let (offset, t) = self.search(self.bytes, self.offset)?;
+        self.offset = offset;
+        Some((self.offset, t))
     }
 }
 
-- 
2.43.0


From 226bc62ebce3732bc42fd1010372a45b6b1b3fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 13/18] fix: GrepIterator: report exactly the values that
 include a match

---
 matchit/src/searchable/grepit.rs | 65 +++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 27 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index a23914d..4c8ca45 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -3,7 +3,40 @@ use std::marker::PhantomData;
 use regex::bytes::Regex;
 use crate::{TIterator, WithOffset};
 
-use super::{searchit::RevSearchIterator, SearchableMarkerTrait};
+use super::{searchit::RevSearchIterator, search_last_marker, search_marker, SearchableMarkerTrait};
+
+/// Searches for the first ``T`` that includes a match of ``finder`` which starts at or behind ``offset``.
+/// Returns the offset of ``T``, ``T``, and the start of the first match which does not exceed ``T``.
+#[inline(always)]
+fn search_match<'bytes, T>(finder: &Regex, bytes: &'bytes [u8], offset: usize) -> Option<(usize, T, usize)>
+where
+    T: SearchableMarkerTrait<'bytes>
+{
+    let mut offset = offset;
+    while offset < bytes.len() {
+        let start = finder.find_at(bytes, offset)?.start();
+
+        let candidate = search_last_marker::<T>(&bytes[..start])
+            .and_then(|candidate| Some((candidate, T::try_read_valid_marker(&bytes[candidate..])?.1)));
+
+        match candidate {
+            Some((candidate, val)) if start < candidate + val.len() => {
+                let end = candidate + val.len();
+                // the match may exceed T although there is a shorter one that does not
+                if let Some(found) = finder.find_at(&bytes[..end], start) {
+                    return Some((candidate, val, found.start()))
+                }
+                offset = end;
+            },
+            _ => {
+                // match not included, resuming the search in the next T
+                let next = start.saturating_sub(T::marker().len() - 1);
+                offset = next + search_marker::<T>(&bytes[next..])? + T::marker().len();
+            },
+        }
+    }
+    None
+}
 
 #[derive(Debug)]
 pub struct GrepIterator<'bytes, T>
@@ -11,8 +44,7 @@ pub struct GrepIterator<'bytes, T>
     offset : usize,
     bytes: &'bytes [u8],
     phantom: PhantomData<T>, // used to declare type parameter T, which is used in the iterator trait implementation
-    finder: Regex<>,
-    iter: RevSearchIterator<'bytes, T>
+    finder: Regex<>
 }
 
 impl<'bytes, T>  GrepIterator<'bytes, T>
@@ -21,8 +53,7 @@ where
 {
     pub fn new(pattern: &str, bytes: &'bytes [u8], offset: usize) -> GrepIterator<'bytes, T> {
         GrepIterator { offset, bytes, phantom: PhantomData,
-            finder: Regex::new(pattern).unwrap(),
-            iter: RevSearchIterator::<T>::new(bytes, offset)
+            finder: Regex::new(pattern).unwrap()
         }
     }
 }
@@ -32,28 +63,8 @@ impl<'bytes, T> GrepIterator<'bytes, T>
 {
     #[inline(always)]
     pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let foundit = self.finder.find_at(bytes, offset)?.range();
-
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
-                    // match not included
-                    self.search(bytes, foundit.end)
-                } else {
-                    Some((_off, val))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
-                }
-                self.search(bytes, foundit.end)
-            },
-        }
-
+        let (offset, val, _) = search_match::<T>(&self.finder, bytes, offset)?;
+        Some((offset, val))
     }
 }
 
-- 
2.43.0


From 8336aa43979ddf414139b06b981756637ee9f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 14/18] fix: RegExMatcherIterator: report each value once, with
 the first match it includes

---
 matchit/src/searchable/grepit.rs | 55 ++++++++++++++------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index 4c8ca45..1d109c5 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -1,9 +1,9 @@
 use std::marker::PhantomData;
 
 use regex::bytes::Regex;
-use crate::{TIterator, WithOffset};
+use crate::WithOffset;
 
-use super::{searchit::RevSearchIterator, search_last_marker, search_marker, SearchableMarkerTrait};
+use super::{search_last_marker, search_marker, SearchableMarkerTrait};
 
 /// Searches for the first ``T`` that includes a match of ``finder`` which starts at or behind ``offset``.
 /// Returns the offset of ``T``, ``T``, and the start of the first match which does not exceed ``T``.
@@ -91,8 +91,7 @@ pub struct RegExMatcherIterator<'bytes, T>
     offset : usize,
     bytes: &'bytes [u8],
     phantom: PhantomData<T>, // used to declare type parameter T, which is used in the iterator trait implementation
-    finder: Regex<>,
-    iter: RevSearchIterator<'bytes, T>
+    finder: Regex<>
 }
 
 impl<'bytes, T>  RegExMatcherIterator<'bytes, T>
@@ -101,8 +100,7 @@ where
 {
     pub fn new(pattern: &str, bytes: &'bytes [u8], offset: usize) -> RegExMatcherIterator<'bytes, T> {
         RegExMatcherIterator {offset, bytes, phantom: PhantomData,
-            finder: Regex::new(pattern).unwrap(),
-            iter: RevSearchIterator::<T>::new(bytes, offset)
+            finder: Regex::new(pattern).unwrap()
         }
     }
 }
@@ -112,29 +110,24 @@ where
 {
     #[inline(always)]
     pub fn capture(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<(usize,usize)>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let mut locs = self.finder.capture_locations();
-        let captures = self.finder.captures_read_at(&mut locs, bytes, offset)?;
-
-        let foundit = captures.range();
+        let (offset, _, range) = self.capture_match(bytes, offset)?;
+        Some((offset, range))
+    }
 
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
-                    // match not included
-                    self.capture(bytes, foundit.end)
-                } else {
-                    Some((_off, locs.get(1)?))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
-                }
-                self.capture(bytes, foundit.end)
-            },
+    /// Returns the offset of ``T``, the offset behind ``T`` and the range of the first capture group.
+    #[inline(always)]
+    fn capture_match(&self, bytes: &'bytes [u8], offset: usize) -> Option<(usize, usize, (usize,usize))> {
+        let mut offset = offset;
+        let mut locs = self.finder.capture_locations();
+        loop {
+            let (candidate, val, start) = search_match::<T>(&self.finder, bytes, offset)?;
+            let end = candidate + val.len();
+            self.finder.captures_read_at(&mut locs, &bytes[..end], start)?;
+            if let Some(range) = locs.get(1) {
+                return Some((candidate, end, range))
+            }
+            // the capture group is not part of the match
+            offset = end;
         }
     }
 }
@@ -147,12 +140,12 @@ where
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        let (offset, val) = self.capture(self.bytes, self.offset)?;
+        let (offset, end, range) = self.capture_match(self.bytes, self.offset)?;
 
         // we need to go at the end of a DLT entry in order
         // not to emit the same DLT entry twice
-        self.offset = offset + val.1;
+        self.offset = end;
 
-        Some((offset, val))
+        Some((offset, range))
     }
 }
-- 
2.43.0


From b70f9c306f821a7c8cf77b897d07bebbd2a1f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 15/18] fix: MessageType: encode the message type and read all
 bits of its info

---
 rapiddlt/src/dlt_v1.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 4b3c9d1..941cfa7 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -204,7 +204,7 @@ pub enum DltControlMessageTypeInfo {
 enum DltMessageInfoMask {
     Verbose = 0x1,
     MessageType = 0x7 << 1,
-    MessageTypeInfo = 0x15 << 4,
+    MessageTypeInfo = 0xf << 4,
 }
 
 #[derive(AsBytes,FromBytes,FromZeroes)]
@@ -239,19 +239,19 @@ impl MessageType {
         }
         match typ {
             DltMessageType::DltTypeLog(mtin) => {
-                msin |= ((DltMessageType::DltTypeLog as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x0 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeAppTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeAppTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x1 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeNwTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeNwTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x2 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeControl(mtin) => {
-                msin |= ((DltMessageType::DltTypeControl as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x3 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
         }
-- 
2.43.0


From 9071d87ca850c818ab6e3122fa0d0ef699add74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 16/18] fix: GroupBy: continue with the next value if the
 previous one is in no group

---
 matchit/src/generator/groupby.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index f1fc265..841d7e8 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -47,6 +47,7 @@ where
                     self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(Some((prev.clone(), prev.clone())))
                 } else {
+                    self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(None)
                 }
             },
-- 
2.43.0


From 5eb3d6036499b109963c6507282e6a48ca98b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 17/18] fix: Merge: merge a merged value with the others

---
 matchit/src/generator/groupby.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index 841d7e8..ab1d39b 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -126,21 +126,13 @@ where
 
     #[inline(always)]
     fn adapt(&mut self, next: Self::Input) -> ControlFlow<(), Option<Self::Output>> {
-        let mut consumed = None;
-
-        for (_, prev) in self.2.iter() {
-            let ret = (self.0)(prev, &next);
-            if let Some(val) = ret {
-                consumed = Some((prev.clone(), val));
-                break;
-            }
-        }
-        if let Some((prev, val)) = consumed {
+        let mut next = next;
+        // a merged value may in turn be merged with another one
+        while let Some((prev, val)) = self.2.values().find_map(|prev| Some((prev.clone(), (self.0)(prev, &next)?))) {
             self.2.remove(&(self.1)(&prev));
-            self.2.insert((self.1)(&val), val);
-        } else {
-            self.2.insert((self.1)(&next), next);
+            next = val;
         }
+        self.2.insert((self.1)(&next), next);
         ControlFlow::Continue(None)
     }
 }
-- 
2.43.0


From 131247e442f84654af5e46b2423a687a1936f959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:14 +0000
Subject: [PATCH 18/18] fix: read a record that consists of its marker only at
 the end of the data

---
 matchit/src/searchable/readfallbackit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index fe04ab1..88c214c 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,7 +45,7 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        while self.offset.saturating_add(T::marker().len()) < self.bytes.len() {
+        while self.offset.saturating_add(T::marker().len()) <= self.bytes.len() {
             if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
                 match T::try_read_valid_marker(&self.bytes[self.offset..]) {
                     // a valid T at offset
-- 
2.43.0

