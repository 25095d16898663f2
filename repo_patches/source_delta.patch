From 173296eae0877ce742657c751ba2d34f1450505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 01/38] fix: ByteData::is_empty reports an empty external value
 as empty

---
 src/bytedata.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index cf853eb..6133a58 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -491,7 +491,17 @@ impl<'a> ByteData<'a> {
             }
             .is_empty(),
             #[cfg(feature = "alloc")]
-            Kind::External => false,
+            // SAFETY: External state has been checked.
+            Kind::External => {
+                unsafe {
+                    core::mem::transmute::<
+                        &core::mem::ManuallyDrop<crate::external::ExtBytes>,
+                        &crate::external::ExtBytes,
+                    >(&self.external)
+                }
+                .len()
+                    == 0
+            }
         }
     }
 
-- 
2.43.0


From 8bccfdcc9b5cad5c96231db87abfa3d2ee79064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 02/38] fix: keep the chunk count when appending a queue whose
 chambered chunk fits its first node

---
 src/queue/linked_root.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 91962b3..892cb48 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -272,8 +272,9 @@ impl<'a> LinkedRoot<'a> {
             other.count -= 1;
             // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
             if let Some(fst) = unsafe { other.first.as_mut() } {
-                if let Err(val) = fst.data.push_front(chamber) {
-                    self.push_back(val);
+                match fst.data.push_front(chamber) {
+                    Ok(()) => other.count += 1,
+                    Err(val) => self.push_back(val),
                 }
             } else {
                 self.push_back(chamber);
-- 
2.43.0


From a14aea71165c039c2e0b6ba52f8ec81e0a34233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 03/38] fix: extending a ByteQueue with text updates its length

---
 src/queue/byte_queue.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 8fbdb8d..df4dde5 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -699,7 +699,7 @@ impl<'a> Extend<crate::StringData<'a>> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = crate::StringData<'a>>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(i.into_bytedata());
+            self.push_back(i.into_bytedata());
         }
     }
 }
@@ -708,7 +708,7 @@ impl<'a> Extend<&'a str> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = &'a str>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_borrowed(i.as_bytes()));
+            self.push_back(ByteData::from_borrowed(i.as_bytes()));
         }
     }
 }
@@ -720,7 +720,7 @@ impl Extend<alloc::string::String> for ByteQueue<'_> {
     #[inline]
     fn extend<T: IntoIterator<Item = alloc::string::String>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_owned(i.into_bytes()));
+            self.push_back(ByteData::from_owned(i.into_bytes()));
         }
     }
 }
-- 
2.43.0


From 9a503e42a7e175a046d39b90ff6399318f275cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 04/38] fix: queue substring search and splitting across chunks

find_slice could miss or misplace a match and never return on a partial match;
split_on did not step over the separator and mixed up the reported positions.
---
 src/queue/byte_queue.rs | 132 ++++++++++++++--------------------------
 src/queue/split.rs      |  62 +++++--------------
 2 files changed, 59 insertions(+), 135 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index df4dde5..fe5c6a3 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -281,101 +281,57 @@ impl<'a> ByteQueue<'a> {
         self.find_slice_after(data, 0)
     }
 
-    /// Check if the queue contains a certain byte sequence and return its starting position.
-    #[inline]
+    /// Check if the queue contains a certain byte sequence at or after `start` and return its starting position.
+    #[allow(clippy::missing_inline_in_public_items)]
     #[must_use]
     pub fn find_slice_after(&self, data: &[u8], start: usize) -> Option<usize> {
-        self.find_slice_pos(data, 0, start, start)
-            .map(|(av, _, _)| av)
-    }
-
-    /// Check if the queue contains a certain byte sequence and return its starting position.
-    #[inline]
-    pub(crate) fn find_slice_pos(
-        &self,
-        data: &[u8],
-        start_chunk: usize,
-        start_offset: usize,
-        start_byte: usize,
-    ) -> Option<(usize, usize, usize)> {
-        if data.is_empty() {
-            return Some((0, 0, 0));
+        let last = self.remain.checked_sub(data.len())?;
+        if start > last {
+            return None;
         }
-        self.find_slice_pos_nonempty(data, start_chunk, start_offset, start_byte)
-    }
-
-    /// Check if the queue contains a certain byte sequence and return its starting position.
-    fn find_slice_pos_nonempty(
-        &self,
-        data: &[u8],
-        mut start_chunk: usize,
-        mut start_offset: usize,
-        mut start_byte: usize,
-    ) -> Option<(usize, usize, usize)> {
-        debug_assert!(!data.is_empty(), "data is empty");
-        // the first byte in the sequence to match possible sequences
-        let first_byte = data[0];
-
-        'outer: loop {
-            let mut chunks = self.chunks().skip(start_chunk);
-            let mut sect = chunks.next()?;
-            let len = sect.len();
-            if start_offset >= len {
-                start_offset -= len;
-                start_chunk += 1;
-                continue;
-            }
-            let marked_byte = loop {
-                let sl = &sect.as_slice()[start_offset..];
-                let Some(av) = sl.iter().position(|x| *x == first_byte) else {
-                    sect = match chunks.next() {
-                        Some(vv) => vv,
-                        _ => return None,
-                    };
-                    start_offset = 0;
-                    start_chunk += 1;
-                    continue;
-                };
-                start_offset += av;
-                start_byte += av;
-                break start_byte;
-            };
-            let marked_chunk = start_chunk;
-            let marked_offset = start_offset;
-            let mut found_in = false;
-            let mut skipped_bytes = 0;
-            let data = data.iter().skip(1);
-            let mut sl = sect.as_slice()[(start_offset + 1)..].iter();
-            for av in data {
-                let bv = loop {
-                    let nxt = sl.next();
-                    let Some(bv) = nxt else {
-                        sect = match chunks.next() {
-                            Some(vv) => vv,
-                            _ => return None,
-                        };
-                        sl = sect.as_slice().iter();
-                        continue;
-                    };
-                    break *bv;
+        let Some((first_byte, tail)) = data.split_first() else {
+            return Some(start);
+        };
+        let mut chunk_start = 0;
+        for (index, chunk) in self.chunks().enumerate() {
+            let chunk = chunk.as_slice();
+            let chunk_end = chunk_start + chunk.len();
+            let mut at = core::cmp::max(start, chunk_start);
+            while at < chunk_end {
+                let rest = &chunk[at - chunk_start..];
+                let Some(skipped) = rest.iter().position(|x| x == first_byte) else {
+                    break;
                 };
-                if !found_in && bv == first_byte {
-                    found_in = true;
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
-                    start_offset -= 1;
+                at += skipped;
+                if at > last {
+                    return None;
                 }
-                if bv == *av {
-                    skipped_bytes += 1;
-                    continue;
-                }
-                if !found_in {
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
+                if self.continues_with(index, &rest[skipped + 1..], tail) {
+                    return Some(at);
                 }
-                continue 'outer;
+                at += 1;
             }
-            return Some((marked_byte, marked_chunk, marked_offset));
+            chunk_start = chunk_end;
+        }
+        None
+    }
+
+    /// Check if `head`, the end of the chunk at `index`, and the chunks after it starts with the byte sequence.
+    fn continues_with<'b>(&'b self, index: usize, mut head: &'b [u8], mut data: &[u8]) -> bool {
+        let mut chunks = self.chunks().skip(index + 1);
+        loop {
+            let len = core::cmp::min(head.len(), data.len());
+            if head[..len] != data[..len] {
+                return false;
+            }
+            data = &data[len..];
+            if data.is_empty() {
+                return true;
+            }
+            let Some(chunk) = chunks.next() else {
+                return false;
+            };
+            head = chunk.as_slice();
         }
     }
 
diff --git a/src/queue/split.rs b/src/queue/split.rs
index 4eedbdf..fe5110f 100644
--- a/src/queue/split.rs
+++ b/src/queue/split.rs
@@ -3,8 +3,6 @@
 pub struct SplitOn<'a, 'b> {
     queue: &'b super::ByteQueue<'a>,
     needle: &'b [u8],
-    start_chunk: usize,
-    start_offset: usize,
     start_byte: usize,
     max: usize,
     done: bool,
@@ -16,8 +14,6 @@ impl<'a, 'b> SplitOn<'a, 'b> {
         Self {
             queue,
             needle,
-            start_chunk: 0,
-            start_offset: 0,
             start_byte: 0,
             max,
             done,
@@ -30,48 +26,6 @@ impl<'a> Iterator for SplitOn<'a, '_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        fn inner<'a>(this: &mut SplitOn<'a, '_>) -> super::ByteQueue<'a> {
-            let val = this.queue.find_slice_pos(
-                this.needle,
-                this.start_chunk,
-                this.start_offset,
-                this.start_byte,
-            );
-            if let Some((chunk, offset, byte)) = val {
-                let mut chunks = this.queue.chunks().skip(this.start_chunk);
-                let new_q = if this.start_chunk == chunk {
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    super::ByteQueue::with_item(chunk_next.sliced(this.start_offset..offset))
-                } else {
-                    let mut new_q = super::ByteQueue::new();
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    new_q.push_back(chunk_next.sliced(this.start_offset..));
-                    for chunkdata in chunks.take(chunk - this.start_chunk - 1) {
-                        new_q.push_back(chunkdata.clone());
-                    }
-                    if offset != 0 {
-                        chunks = this.queue.chunks().skip(chunk);
-                        #[allow(clippy::unwrap_used)]
-                        let chunk_nexter = chunks.next().unwrap();
-                        new_q.push_back(chunk_nexter.sliced(..offset));
-                    }
-                    new_q
-                };
-                this.start_chunk = chunk;
-                this.start_offset = offset;
-                this.start_byte = byte;
-                if this.max != 0 {
-                    this.max -= 1;
-                }
-                new_q
-            } else {
-                this.done = true;
-                this.queue.slice(this.start_byte..)
-            }
-        }
-
         if self.done {
             return None;
         }
@@ -83,7 +37,21 @@ impl<'a> Iterator for SplitOn<'a, '_> {
             self.done = true;
             return Some(self.queue.slice(self.start_byte..));
         }
-        Some(inner(self))
+        let found = if self.needle.is_empty() {
+            None
+        } else {
+            self.queue.find_slice_after(self.needle, self.start_byte)
+        };
+        let Some(found) = found else {
+            self.done = true;
+            return Some(self.queue.slice(self.start_byte..));
+        };
+        let item = self.queue.slice(self.start_byte..found);
+        self.start_byte = found + self.needle.len();
+        if self.max != 0 {
+            self.max -= 1;
+        }
+        Some(item)
     }
 
     #[inline]
-- 
2.43.0


From a59acb086262e70b86b98a0e9899c2b37caa73b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 05/38] fix: ByteData::split_on steps over the separator
 instead of yielding empty items forever

---
 src/bytedata.rs | 43 +++++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 6133a58..b9dfaf0 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -856,49 +856,40 @@ impl<'a> ByteData<'a> {
         Ok(self.split_at(aa))
     }
 
-    /// Split the `ByteData` at the first occurrence of the given byte sequence.
+    /// Split the `ByteData` on every occurrence of the given byte sequence.
+    /// The needle is not part of the resulting items. An empty value has no items and an empty needle is never found.
     #[inline]
     pub fn split_on<'b>(self, needle: &'b [u8]) -> impl Iterator<Item = ByteData<'a>> + Send + 'b
     where
         'a: 'b,
     {
-        struct It<'a, 'b>(ByteData<'a>, &'b [u8], bool);
+        struct It<'a, 'b>(Option<ByteData<'a>>, &'b [u8]);
         impl<'a> Iterator for It<'a, '_> {
             type Item = ByteData<'a>;
 
             fn next(&mut self) -> Option<Self::Item> {
-                if self.0.is_empty() {
-                    return None;
+                let mut data = self.0.take()?;
+                if self.1.is_empty() {
+                    return Some(data);
                 }
-                let aa = if let Some((aa, _)) =
-                    crate::const_split_once_bytes(self.0.as_slice(), self.1)
-                {
-                    aa.len()
-                } else {
-                    return Some(core::mem::replace(&mut self.0, ByteData::empty()));
+                let Some(position) = crate::const_find_bytes(data.as_slice(), self.1) else {
+                    return Some(data);
                 };
-                if aa == 0 && self.2 {
-                    self.2 = false;
-                    return Some(ByteData::empty());
-                }
-                self.2 = false;
-                let aa = self.0.take_bytes(aa);
-                Some(aa)
+                let item = data.take_bytes(position);
+                data.make_sliced(self.1.len()..);
+                self.0 = Some(data);
+                Some(item)
             }
 
             fn size_hint(&self) -> (usize, Option<usize>) {
-                if self.0.is_empty() {
-                    (0, Some(0))
-                } else if self.0.len() < self.1.len() {
-                    (1, Some(1))
-                } else if self.0.len() < self.1.len() * 2 {
-                    (1, Some(2))
-                } else {
-                    (1, None)
+                match (&self.0, self.1.len()) {
+                    (None, _) => (0, Some(0)),
+                    (Some(_), 0) => (1, Some(1)),
+                    (Some(data), len) => (1, Some(data.len() / len + 1)),
                 }
             }
         }
-        It(self, needle, true)
+        It(if self.is_empty() { None } else { Some(self) }, needle)
     }
 }
 
-- 
2.43.0


From e5484be15fc454014472e48aea79f004b586635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 06/38] fix: StringData::take_line takes the newline with the
 line, as documented

---
 src/stringdata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stringdata.rs b/src/stringdata.rs
index d434ee9..6c5cae8 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -367,8 +367,8 @@ impl<'a> StringData<'a> {
         let Some(position) = self.as_str().find('\n') else {
             return core::mem::replace(self, Self::empty());
         };
-        let av = self.sliced(0..position);
-        self.make_sliced(position..);
+        let av = self.sliced(0..=position);
+        self.make_sliced(position + 1..);
         av
     }
 
-- 
2.43.0


From 564b544b20430797525bae295af7240388db40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 07/38] fix: reject ranges whose bounds overflow or are
 inverted

Bounds next to usize::MAX wrapped around in builds without overflow checks, so that
SharedBytes and ByteChunk handed out views outside of their storage, and an inverted
range was accepted by SharedBytes::into_sliced_range and make_sliced_range.
---
 src/byte_chunk.rs       | 12 ++++++------
 src/external.rs         |  8 ++++----
 src/queue/byte_queue.rs |  2 +-
 src/shared_bytes.rs     | 20 +++++++++++---------
 src/stringdata.rs       |  4 ++--
 5 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/byte_chunk.rs b/src/byte_chunk.rs
index cabffe3..db6fc9a 100644
--- a/src/byte_chunk.rs
+++ b/src/byte_chunk.rs
@@ -129,11 +129,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -151,11 +151,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -171,11 +171,11 @@ impl ByteChunk {
     ) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
diff --git a/src/external.rs b/src/external.rs
index ed01151..ca8a499 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -242,11 +242,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&st) => st,
-            core::ops::Bound::Excluded(&st) => st + 1,
+            core::ops::Bound::Excluded(&st) => st.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
@@ -275,11 +275,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index fe5c6a3..0c448e9 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -180,7 +180,7 @@ impl<'a> ByteQueue<'a> {
         };
         let start = match range.start_bound() {
             core::ops::Bound::Included(vv) => *vv,
-            core::ops::Bound::Excluded(vv) => *vv + 1,
+            core::ops::Bound::Excluded(vv) => vv.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         assert!(
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index d2b9553..0214d9c 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -255,7 +255,7 @@ impl SharedBytes {
             "SharedBytes::sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::sliced: offset + len out of bounds"
         );
         if len == 0 {
@@ -288,11 +288,11 @@ impl SharedBytes {
     pub fn sliced_range<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
@@ -314,7 +314,7 @@ impl SharedBytes {
             "SharedBytes::into_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::into_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -335,7 +335,7 @@ impl SharedBytes {
             "SharedBytes::make_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::make_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -354,14 +354,15 @@ impl SharedBytes {
     pub fn into_sliced_range<R: RangeBounds<usize>>(self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::into_sliced_range: end < start");
         self.into_sliced(start, end - start)
     }
 
@@ -375,14 +376,15 @@ impl SharedBytes {
     pub fn make_sliced_range<R: RangeBounds<usize>>(&mut self, range: R) -> &mut Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::make_sliced_range: end < start");
         self.make_sliced(start, end - start)
     }
 
diff --git a/src/stringdata.rs b/src/stringdata.rs
index 6c5cae8..a677f27 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -284,11 +284,11 @@ impl<'a> StringData<'a> {
         let by = self.data.as_slice();
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 36b7cbea24d13874db171fdb4722099d2eb0ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 08/38] fix: OwnedByteIter::take keeps the right part of the
 chunk it cuts

---
 src/queue/byte_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 9005032..576684c 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -186,7 +186,7 @@ impl<'a> OwnedByteIter<'a> {
             if self.len() >= n {
                 continue;
             }
-            av.make_sliced(..av.len() - n);
+            av.make_sliced(..n - self.len());
             self.inner.push_back(av);
             break;
         }
-- 
2.43.0


From fa211c961c578ce9a08f25a454bff191ecccdf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 09/38] fix: ByteIter::skip with a huge count after a previous
 skip

---
 src/queue/byte_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 576684c..9a6f7d8 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -26,7 +26,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     #[inline]
     #[must_use]
     pub const fn skip(mut self, n: usize) -> Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
@@ -38,7 +38,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     /// Skip the next `n` bytes.
     #[inline]
     pub(crate) fn skip_mut(&mut self, n: usize) -> &mut Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
-- 
2.43.0


From 9f911be4e726a4cf2d4418185b71cbf3f714c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 10/38] fix: StringQueue::slice refuses an empty range inside
 of a character

---
 src/queue/string_queue.rs | 45 ++++-----------------------------------
 1 file changed, 4 insertions(+), 41 deletions(-)

diff --git a/src/queue/string_queue.rs b/src/queue/string_queue.rs
index 4fce109..5d46496 100644
--- a/src/queue/string_queue.rs
+++ b/src/queue/string_queue.rs
@@ -155,51 +155,14 @@ impl<'a> StringQueue<'a> {
     ///
     /// # Panics
     ///
-    /// Panics if the range boundary is invalid UTF-8.
+    /// Panics if the range is out of bounds or a boundary falls in the middle of a multi-byte UTF-8 character.
     #[inline]
     #[must_use]
     pub fn slice<R: core::ops::RangeBounds<usize>>(&self, range: R) -> Self {
-        fn inner(slic: ByteQueue<'_>) -> StringQueue<'_> {
-            #[allow(clippy::expect_used)]
-            let front = slic.front().expect("not empty");
-            assert!(
-                front[0] & 0b1100_0000 != 0b1000_0000,
-                "StringQueue: Invalid UTF-8 start in range"
-            );
-            #[allow(clippy::expect_used)]
-            let by = slic.back().expect("not empty");
-            let end_byte = by[by.len() - 1];
-            assert!(
-                end_byte & 0b1100_0000 != 0b1100_0000,
-                "StringQueue: Invalid UTF-8 end in range"
-            );
-            if end_byte & 0b1100_0000 == 0b1000_0000 {
-                // compute backwards to find the start of the char to see if the number of bytes is correct
-                let mut i = by.len() - 2;
-                while by[i] & 0b1100_0000 == 0b1000_0000 {
-                    i -= 1;
-                }
-                let char_len = by.len() - i;
-                assert!(
-                    !(char_len == 2 && by[i] & 0b1110_0000 != 0b1100_0000),
-                    "StringQueue: Invalid UTF-8 end in range"
-                );
-                assert!(
-                    !(char_len == 3 && by[i] & 0b1111_0000 != 0b1110_0000),
-                    "StringQueue: Invalid UTF-8 end in range"
-                );
-                assert!(
-                    !(char_len == 4 && by[i] & 0b1111_1000 != 0b1111_0000),
-                    "StringQueue: Invalid UTF-8 end in range"
-                );
-            }
-            StringQueue { queue: slic }
-        }
-        let slic = self.queue.slice(range);
-        if slic.is_empty() {
-            return Self::new();
+        let (start, end) = self.check_range(range);
+        Self {
+            queue: self.queue.slice(start..end),
         }
-        inner(slic)
     }
 
     /// Iterates over each character in the queue.
-- 
2.43.0


From 5a1947f1c6158123e09e6d548523e1312966fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 11/38] fix: SharedBytesBuilder::truncate with a length above
 u32::MAX is a no-op

---
 src/shared_bytes_builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index f6f01bb..36d3cab 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -285,10 +285,10 @@ impl SharedBytesBuilder {
         if self.len == 0 {
             return;
         }
-        #[allow(clippy::cast_possible_truncation)]
-        let data_off = SharedBytesMeta::compute_start_offset(self.align).saturating_add(len as u32);
-        if self.off > data_off {
-            self.off = data_off;
+        if len < self.len() {
+            #[allow(clippy::cast_possible_truncation)]
+            let len = len as u32;
+            self.off = SharedBytesMeta::compute_start_offset(self.align) + len;
         }
     }
 
-- 
2.43.0


From f12f12f73daeddde9a73896d8dc3af8ce8044b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 12/38] fix: SharedBytesBuilder::reserve refuses more than a
 block can hold instead of reserving less

---
 src/shared_bytes_builder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 36d3cab..0394a23 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -154,13 +154,21 @@ impl SharedBytesBuilder {
     }
 
     /// Reserves capacity for at least `additional` more bytes to be written to the buffer.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the capacity becomes too large.
     #[inline]
     pub fn reserve(&mut self, additional: usize) {
         let off = self.off as usize;
-        if off == 0xFFFF_FFFF || additional == 0 {
+        if additional == 0 {
             return;
         }
         let new_off = off.saturating_add(additional);
+        assert!(
+            new_off <= 0xFFFF_FFFF,
+            "SharedBytesBuilder::reserve: capacity too large"
+        );
         let new_len = if new_off >= 0x0000_8000 {
             (new_off & 0xFFFF_8000)
                 .saturating_add(0x0000_8000)
-- 
2.43.0


From 57e9245582469b39127420d468ae60b7ddb1ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:36 +0000
Subject: [PATCH 13/38] fix: SharedBytesBuilder::with_aligned_capacity honours
 the requested alignment

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 0394a23..36fb1e7 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -107,12 +107,12 @@ impl SharedBytesBuilder {
             return Self::with_alignment(alignment);
         }
         assert!(alignment <= 512, "SharedBytesBuilder::with_aligned_capacity: alignment must be less than or equal to 512");
-        let align = Self::cap_check(cap, core::mem::align_of::<SharedBytesMeta>());
         let align2 = alignment.next_power_of_two();
         assert!(
             align2 == alignment,
             "SharedBytesBuilder::with_aligned_capacity: alignment must be a power of two"
         );
+        let align = Self::cap_check(cap, alignment);
         #[allow(clippy::cast_possible_truncation)]
         let cap = cap as u32;
         Self::with_capacity_u32(cap, align)
-- 
2.43.0


From bc63d5d330a8eb6eaba8d6796256c27a561835b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 14/38] fix: SharedBytesBuilder::apply_borrowed_buf advances
 the length instead of the allocated size

---
 src/shared_bytes_builder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 36fb1e7..0a64d0c 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -633,9 +633,15 @@ impl SharedBytesBuilder {
             core::io::BorrowedBuf::from(data)
         };
         let ret = fun(&mut bb);
+        let len = bb.len();
+        assert!(
+            len <= self.capacity() - self.len(),
+            "SharedBytesBuilder::apply_borrowed_buf: filled length exceeds reserved capacity"
+        );
         #[allow(clippy::cast_possible_truncation)]
-        let len = bb.len() as u32;
-        self.len += len;
+        {
+            self.off += len as u32;
+        };
         ret
     }
 }
-- 
2.43.0


From 7d2904ac11fa9b3478c21378be9aa0753fa75ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 15/38] fix: turning a shared SharedBytes of large alignment
 into a builder no longer panics

---
 src/shared_bytes.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 0214d9c..db44f96 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -569,7 +569,12 @@ impl From<SharedBytes> for SharedBytesBuilder {
                 dat: dataptr,
             }
         } else {
-            let mut ret = Self::with_alignment(align);
+            let mut ret = Self {
+                len: 0,
+                off: SharedBytesMeta::compute_start_offset(align),
+                dat: core::ptr::null_mut(),
+                align,
+            };
             ret.extend_from_slice(dat.as_slice());
             ret
         }
-- 
2.43.0


From 5f7153b9424ec0b93a08f920f27b648ebafc4fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 16/38] fix: turning a foreign buffer into a vector or mutable
 buffer releases its share of the block

---
 src/bytes_1/shared_bytes.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 2b186a7..c1fe4cf 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -8,6 +8,18 @@ use ::bytes_1 as bytes;
 
 use crate::SharedBytes;
 
+#[cfg(not(feature = "bytes_1_safe"))]
+/// Gives up one reference to the block, releasing it with the last one.
+unsafe fn release(data: &AtomicPtr<()>) {
+    let p = data.load(Ordering::Relaxed) as *mut u8;
+    let meta = &*(p as *const crate::SharedBytesMeta);
+    if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
+        return;
+    }
+    let layout = alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
+    alloc::alloc::dealloc(p, layout);
+}
+
 #[cfg(not(feature = "bytes_1_safe"))]
 /// A vtable compatible with bytes::Vtable.
 static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
@@ -23,25 +35,21 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         }
         .into_bytes()
     },
-    to_vec: |_data, ptr, len| {
-        if len == 0 {
-            return Vec::new();
-        }
+    to_vec: |data, ptr, len| {
         let mut vec = Vec::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            release(data);
         }
         vec
     },
-    to_mut: |_data, ptr, len| {
-        if len == 0 {
-            return bytes::BytesMut::new();
-        }
+    to_mut: |data, ptr, len| {
         let mut vec = bytes::BytesMut::with_capacity(len);
         unsafe {
             core::ptr::copy_nonoverlapping(ptr, vec.as_mut_ptr(), len);
             vec.set_len(len);
+            release(data);
         }
         vec
     },
@@ -50,16 +58,7 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         let meta = &*(p as *const crate::SharedBytesMeta);
         meta.refcnt.load(Ordering::Relaxed) == 1
     },
-    drop: |data, _ptr, _len| unsafe {
-        let p = data.load(Ordering::Relaxed) as *mut u8;
-        let meta = &*(p as *const crate::SharedBytesMeta);
-        if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
-            return;
-        }
-        let layout =
-            alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
-        alloc::alloc::dealloc(p, layout);
-    },
+    drop: |data, _ptr, _len| unsafe { release(data) },
 };
 
 #[cfg(feature = "bytes_1_safe")]
-- 
2.43.0


From 19601d654762bdd44e525d67b3a47d7c7a5e9abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 17/38] fix: equal byte queues hash equally, however they are
 chunked

---
 src/queue/byte_queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 0c448e9..383ad2f 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -851,8 +851,12 @@ impl Eq for ByteQueue<'_> {}
 impl core::hash::Hash for ByteQueue<'_> {
     #[inline]
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+        // byte by byte, as equal queues may be cut into different chunks
+        state.write_usize(self.len());
         for chunk in self.chunks() {
-            chunk.as_slice().hash(state);
+            for byte in chunk.as_slice() {
+                state.write_u8(*byte);
+            }
         }
     }
 }
-- 
2.43.0


From 18a158f72f0c7ea8bf17ee96c6e8d03ba35064a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 18/38] fix: reading byte data or shared bytes into a longer
 buffer fills its front instead of panicking

---
 src/std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index 2731f71..a4ce064 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -44,7 +44,7 @@ impl Read for ByteData<'_> {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len..);
         Ok(len)
     }
@@ -111,7 +111,7 @@ impl Read for SharedBytes {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len, self.len() - len);
         Ok(len)
     }
-- 
2.43.0


From 3502a8f03e654a7beeec50299c281084618db072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 19/38] fix: vectored reads never copy more than what is left

---
 src/std.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std.rs b/src/std.rs
index a4ce064..e6fe767 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -28,7 +28,7 @@ fn read_vectored_inner(mut slic: *const u8, len: usize, bufs: &mut [IoSliceMut<'
             continue;
         }
 
-        let blen = buf.len().min(len);
+        let blen = buf.len().min(left);
         // SAFETY: we know that the buffer is large enough as we checked it before
         unsafe { core::ptr::copy_nonoverlapping(slic, buf.as_mut_ptr(), blen) };
         // SAFETY: the pointer gets moved by `blen` which is guaranteed to be in bounds
-- 
2.43.0


From 4b9326f7c381faf882a5c6454534c2f596f6dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:56 +0000
Subject: [PATCH 20/38] fix: collecting ByteData from an iterator does not
 reserve a quarter of a loose upper bound

---
 src/bytedata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index b9dfaf0..7e60576 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -1226,7 +1226,8 @@ impl FromIterator<u8> for ByteData<'_> {
     fn from_iter<T: IntoIterator<Item = u8>>(iter: T) -> Self {
         let iter = iter.into_iter();
         let siz = match iter.size_hint() {
-            (min, Some(siz)) => min + (siz.saturating_sub(min) >> 2_u8),
+            // the upper bound may be far off, so only reserve a limited amount because of it
+            (min, Some(siz)) => min + (siz.saturating_sub(min) >> 2_u8).min(1024),
             (siz, None) => siz,
         };
         let mut dat = crate::shared_bytes_builder::SharedBytesBuilder::with_capacity(siz);
-- 
2.43.0


From 1f1825b382022985f182400d456124bdaf773c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 21/38] fix: const_utf8_char_next reads the continuation bytes
 that follow the first byte

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ce74d1c..507d1af 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -553,12 +553,12 @@ pub const fn const_utf8_char_next(data: &[u8]) -> (u32, u32) {
     } else {
         return (0, 0);
     };
-    if data.len() < len {
+    if data.len() < len - 1 {
         return (0, 0);
     }
     let mut i = 1;
     while i < len {
-        let byte = data[i];
+        let byte = data[i - 1];
         if byte & 0b1100_0000 != 0b1000_0000 {
             return (0, 0);
         }
-- 
2.43.0


From 55377664a9ef4d8a364b10efa8ebd0166cc3c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 22/38] fix: the UTF-8 decoders reject overlong encodings,
 surrogates and out of range values

---
 src/char_indicies.rs | 8 ++++----
 src/lib.rs           | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/char_indicies.rs b/src/char_indicies.rs
index 865180b..429521c 100644
--- a/src/char_indicies.rs
+++ b/src/char_indicies.rs
@@ -81,10 +81,10 @@ impl<'a> Utf8CharIndices<'a> {
                 i += 1;
             }
 
-            if let Some(char) = core::char::from_u32(char) {
-                Ok((char, width))
-            } else {
-                Err(width)
+            match core::char::from_u32(char) {
+                // an overlong encoding is not a valid one
+                Some(char) if char.len_utf8() == width as usize => Ok((char, width)),
+                _ => Err(width),
             }
         }
 
diff --git a/src/lib.rs b/src/lib.rs
index 507d1af..368f0cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -565,6 +565,11 @@ pub const fn const_utf8_char_next(data: &[u8]) -> (u32, u32) {
         value = (value << 6_u8) | (byte & 0b0011_1111) as u32;
         i += 1;
     }
+    // an overlong encoding, a surrogate, or out of range
+    match core::char::from_u32(value) {
+        Some(ch) if ch.len_utf8() == len => {}
+        _ => return (0, 0),
+    }
     #[allow(clippy::cast_possible_truncation)]
     (value, len as u32)
 }
-- 
2.43.0


From 3bc070043d3b1aa13170d91343926bb82398c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 23/38] fix: const_slice_str accepts an empty range at the end

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 368f0cb..a261733 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -380,7 +380,7 @@ pub const fn const_slice_str(data: &'_ str, range: core::ops::Range<usize>) -> S
     if start > end || end > data.len() {
         return StrSliceResult::OutOfBounds;
     }
-    if start != 0 && data[start] & 0b1100_0000 == 0b1000_0000 {
+    if start != data.len() && data[start] & 0b1100_0000 == 0b1000_0000 {
         return StrSliceResult::InvalidUtf8;
     }
     if end != data.len() && data[end] & 0b1100_0000 == 0b1000_0000 {
-- 
2.43.0


From 79ea579bcbd01e29516675e6e465645287b613e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 24/38] fix: displaying a StringQueue pads and truncates the
 text as a whole, not every chunk

---
 src/queue/string_queue.rs | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/queue/string_queue.rs b/src/queue/string_queue.rs
index 5d46496..baf3cbe 100644
--- a/src/queue/string_queue.rs
+++ b/src/queue/string_queue.rs
@@ -501,8 +501,42 @@ impl core::fmt::Display for crate::StringQueue<'_> {
     #[inline]
     #[allow(clippy::min_ident_chars)]
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+        /// Pad and truncate the text as a whole, as `Formatter::pad` does for a `str`.
+        fn pad(this: &StringQueue<'_>, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
+            let max = f.precision().unwrap_or(usize::MAX);
+            let fill = f.fill();
+            let padding = f.width().map_or(0, |width| {
+                width.saturating_sub(this.chars().take(max).count())
+            });
+            let before = match f.align() {
+                Some(core::fmt::Alignment::Right) => padding,
+                Some(core::fmt::Alignment::Center) => padding >> 1_u8,
+                Some(core::fmt::Alignment::Left) | None => 0,
+            };
+            for _ in 0..before {
+                core::fmt::Write::write_char(f, fill)?;
+            }
+            let mut left = max;
+            for chunk in this.chunks() {
+                let chunk = chunk.as_str();
+                if let Some((end, _)) = chunk.char_indices().nth(left) {
+                    f.write_str(&chunk[..end])?;
+                    break;
+                }
+                f.write_str(chunk)?;
+                left -= chunk.chars().count();
+            }
+            for _ in before..padding {
+                core::fmt::Write::write_char(f, fill)?;
+            }
+            Ok(())
+        }
+
+        if f.width().is_some() || f.precision().is_some() {
+            return pad(self, f);
+        }
         for chunk in self.chunks() {
-            core::fmt::Display::fmt(chunk, f)?;
+            f.write_str(chunk.as_str())?;
         }
         Ok(())
     }
-- 
2.43.0


From 70f0d5fd1c10c239134c3c137195e9b5dd123b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 25/38] fix: split_at_position1 and its complete form fail with
 a recoverable error, as nom's own inputs do

---
 src/nom_7/bytedata.rs    | 4 ++--
 src/nom_7/bytequeue.rs   | 4 ++--
 src/nom_7/stringdata.rs  | 4 ++--
 src/nom_7/stringqueue.rs | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 93b5719..709e31f 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -214,7 +214,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -253,7 +253,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index e9d8469..17c4c92 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -277,7 +277,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
@@ -310,7 +310,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index fe9114e..e9a81b0 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -254,7 +254,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -291,7 +291,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 3be4e80..50b1609 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -261,7 +261,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
@@ -302,7 +302,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
-- 
2.43.0


From 8c51fb49155419546c04c6531df2a5458b8d8085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 26/38] fix: split_at_position1_complete of an empty input is
 an error

---
 src/nom_7/bytedata.rs    | 3 +++
 src/nom_7/bytequeue.rs   | 3 +++
 src/nom_7/stringdata.rs  | 3 +++
 src/nom_7/stringqueue.rs | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 709e31f..44b00c1 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -258,6 +258,9 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index 17c4c92..c479a28 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -309,6 +309,9 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
         P: Fn(Self::Item) -> bool,
     {
         match self.find_byte(predicate) {
+            None if self.is_empty() => {
+                Err(nom::Err::Error(E::from_error_kind(self.clone(), e)))
+            }
             None => Ok((Self::new(), self.clone())),
             Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index e9a81b0..6f4ef33 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -296,6 +296,9 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 50b1609..2b7bce9 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -301,6 +301,9 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .find(|&(_, ch)| predicate(ch))
             .map(|(i, _)| i);
         match a {
+            None if self.is_empty() => {
+                Err(nom::Err::Error(E::from_error_kind(self.clone(), e)))
+            }
             None => Ok((Self::new(), self.clone())),
             Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
-- 
2.43.0


From d5a13d6aa9df6c6a84e8bb7ac4c8508f32d7b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 27/38] fix: the hex dump of a queue is the one nom gives for
 its bytes

---
 src/nom_7/bytequeue.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index c479a28..ae07c51 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -180,17 +180,8 @@ impl nom::HexDisplay for crate::ByteQueue<'_> {
 
     #[inline]
     fn to_hex_from(&self, chunk_size: usize, from: usize) -> alloc::string::String {
-        use core::fmt::Write;
-        let len = self.len() - from;
-        #[allow(clippy::integer_division)]
-        let mut st = alloc::string::String::with_capacity((len << 1) + 1 + (len / chunk_size));
-        for (i, chunk) in self.bytes().skip(from).enumerate() {
-            if i % chunk_size == 0 {
-                st.push('\n');
-            }
-            write!(st, "{chunk:02x}").unwrap();
-        }
-        st
+        let bytes: alloc::vec::Vec<u8> = self.bytes().collect();
+        nom::HexDisplay::to_hex_from(bytes.as_slice(), chunk_size, from)
     }
 }
 
-- 
2.43.0


From 3a86250c2a089dd433dc14f7e2ff9e0893d00ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:33 +0000
Subject: [PATCH 28/38] fix: iter_indices of a text input gives byte offsets

---
 src/nom_7/mod.rs         | 9 +++++++++
 src/nom_7/stringdata.rs  | 5 +++--
 src/nom_7/stringqueue.rs | 5 +++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/nom_7/mod.rs b/src/nom_7/mod.rs
index 99a944b..7a54c7f 100644
--- a/src/nom_7/mod.rs
+++ b/src/nom_7/mod.rs
@@ -6,5 +6,14 @@ mod bytequeue;
 #[cfg(feature = "queue")]
 mod stringqueue;
 
+/// Pairs a character with its byte offset, as kept in `offset`.
+#[inline]
+#[allow(clippy::unnecessary_wraps)]
+fn char_offset(offset: &mut usize, ch: char) -> Option<(usize, char)> {
+    let at = *offset;
+    *offset += ch.len_utf8();
+    Some((at, ch))
+}
+
 #[cfg(test)]
 mod tests;
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index 6f4ef33..3f74987 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -176,12 +176,13 @@ impl nom::HexDisplay for crate::StringData<'_> {
 
 impl nom::InputIter for crate::StringData<'_> {
     type Item = char;
-    type Iter = core::iter::Enumerate<Self>;
+    type Iter =
+        core::iter::Scan<Self, usize, fn(&mut usize, char) -> Option<(usize, char)>>;
     type IterElem = Self;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone())
+        Iterator::scan(self.clone(), 0, super::char_offset)
     }
 
     #[inline]
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 2b7bce9..c8687b5 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -172,12 +172,13 @@ impl nom::HexDisplay for crate::StringQueue<'_> {
 
 impl<'a> nom::InputIter for crate::StringQueue<'a> {
     type Item = char;
-    type Iter = core::iter::Enumerate<crate::queue::OwnedCharIter<'a>>;
+    type Iter =
+        core::iter::Scan<crate::queue::OwnedCharIter<'a>, usize, fn(&mut usize, char) -> Option<(usize, char)>>;
     type IterElem = crate::queue::OwnedCharIter<'a>;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone().into_chars())
+        Iterator::scan(self.clone().into_chars(), 0, super::char_offset)
     }
 
     #[inline]
-- 
2.43.0


From b88e975d6e0787c5da64642a85eb089fa314dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 29/38] fix: positions in a text queue are byte offsets, counts
 are characters, as in nom's text input

---
 src/nom_7/stringqueue.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index c8687b5..cb41131 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -191,15 +191,24 @@ impl<'a> nom::InputIter for crate::StringQueue<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.chars().position(predicate)
+        self.chars_indecies()
+            .find(|&(_, ch)| predicate(ch))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Result<usize, nom::Needed> {
-        if self.len() >= count {
-            Ok(count)
+        let mut left = count;
+        for (i, _) in self.chars_indecies() {
+            if left == 0 {
+                return Ok(i);
+            }
+            left -= 1;
+        }
+        if left == 0 {
+            Ok(self.len())
         } else {
-            Err(nom::Needed::new(count - self.len()))
+            Err(nom::Needed::Unknown)
         }
     }
 }
-- 
2.43.0


From 4ec4dbf077b6d047fa2f9abafc9e86c45afea566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:13 +0000
Subject: [PATCH 30/38] fix: deserializing SharedBytes asks for an owned
 buffer, so that its size is not limited by the format's scratch space

---
 src/serde_1/shared_bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde_1/shared_bytes.rs b/src/serde_1/shared_bytes.rs
index f5be801..d853de4 100644
--- a/src/serde_1/shared_bytes.rs
+++ b/src/serde_1/shared_bytes.rs
@@ -42,6 +42,6 @@ impl serde::de::Visitor<'_> for ByteDataVisitor {
 impl<'de> serde::de::Deserialize<'de> for SharedBytes {
     #[inline]
     fn deserialize<D: serde::de::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        deserializer.deserialize_bytes(ByteDataVisitor)
+        deserializer.deserialize_byte_buf(ByteDataVisitor)
     }
 }
-- 
2.43.0


From 53370bbd571ee7d115fcb2551d3c3b0359b5588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:13 +0000
Subject: [PATCH 31/38] fix: byte data reads back from formats that write bytes
 as a sequence, such as JSON

---
 src/serde_1/bytedata.rs     | 14 +++++++++++++-
 src/serde_1/mod.rs          | 13 +++++++++++++
 src/serde_1/shared_bytes.rs |  7 ++++++-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/serde_1/bytedata.rs b/src/serde_1/bytedata.rs
index 0bad6f7..84c2e46 100644
--- a/src/serde_1/bytedata.rs
+++ b/src/serde_1/bytedata.rs
@@ -92,7 +92,7 @@ impl<'de> serde::de::DeserializeSeed<'de> for StaticByteDataVisitor {
     }
 }
 
-impl serde::de::Visitor<'_> for StaticByteDataVisitor {
+impl<'de> serde::de::Visitor<'de> for StaticByteDataVisitor {
     type Value = ByteData<'static>;
 
     #[inline]
@@ -124,6 +124,12 @@ impl serde::de::Visitor<'_> for StaticByteDataVisitor {
     fn visit_byte_buf<E: serde::de::Error>(self, v: alloc::vec::Vec<u8>) -> Result<Self::Value, E> {
         Ok(ByteData::from_owned(v))
     }
+
+    #[cfg(feature = "alloc")]
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::seq_bytes(seq).map(ByteData::from_owned)
+    }
 }
 
 struct ByteDataVisitor;
@@ -166,6 +172,12 @@ impl<'de> serde::de::Visitor<'de> for ByteDataVisitor {
     fn visit_byte_buf<E: serde::de::Error>(self, v: alloc::vec::Vec<u8>) -> Result<Self::Value, E> {
         Ok(ByteData::from_owned(v))
     }
+
+    #[cfg(feature = "alloc")]
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::seq_bytes(seq).map(ByteData::from_owned)
+    }
 }
 
 /// Deserialize a byte sequence to a borrowed `ByteData` using `serde`.
diff --git a/src/serde_1/mod.rs b/src/serde_1/mod.rs
index 983bdac..ae3b82c 100644
--- a/src/serde_1/mod.rs
+++ b/src/serde_1/mod.rs
@@ -6,6 +6,19 @@ mod stringdata;
 #[cfg(feature = "alloc")]
 mod shared_bytes;
 
+/// Collects the bytes of a sequence, the form byte data has in formats without a byte type.
+#[cfg(feature = "alloc")]
+fn seq_bytes<'de, A: serde::de::SeqAccess<'de>>(
+    mut seq: A,
+) -> Result<alloc::vec::Vec<u8>, A::Error> {
+    let len = seq.size_hint().unwrap_or(0).min(4096);
+    let mut vec = alloc::vec::Vec::with_capacity(len);
+    while let Some(value) = seq.next_element::<u8>()? {
+        vec.push(value);
+    }
+    Ok(vec)
+}
+
 struct OptVisit<V>(V);
 
 impl<
diff --git a/src/serde_1/shared_bytes.rs b/src/serde_1/shared_bytes.rs
index d853de4..12f6278 100644
--- a/src/serde_1/shared_bytes.rs
+++ b/src/serde_1/shared_bytes.rs
@@ -13,7 +13,7 @@ impl serde::ser::Serialize for SharedBytes {
 
 struct ByteDataVisitor;
 
-impl serde::de::Visitor<'_> for ByteDataVisitor {
+impl<'de> serde::de::Visitor<'de> for ByteDataVisitor {
     type Value = SharedBytes;
 
     #[inline]
@@ -35,6 +35,11 @@ impl serde::de::Visitor<'_> for ByteDataVisitor {
     {
         Ok(v.into())
     }
+
+    #[inline]
+    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, seq: A) -> Result<Self::Value, A::Error> {
+        super::seq_bytes(seq).map(Into::into)
+    }
 }
 
 #[cfg_attr(docsrs, doc(cfg(feature = "alloc")))]
-- 
2.43.0


From 052b02c0caa8851271a5456780b03402e144aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:18 +0000
Subject: [PATCH 32/38] fix: arbitrary_take_rest of text ends with its input
 instead of adding NULs without end

---
 src/arbitrary_1/stringdata.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arbitrary_1/stringdata.rs b/src/arbitrary_1/stringdata.rs
index 8e93ad4..35b805f 100644
--- a/src/arbitrary_1/stringdata.rs
+++ b/src/arbitrary_1/stringdata.rs
@@ -89,7 +89,8 @@ impl<'a> Arbitrary<'a> for StringData<'a> {
             &Choice::Chunk => {
                 let mut buf = [0_u8; 18];
                 let mut len = 0;
-                while let Ok(ch) = <char as Arbitrary>::arbitrary(&mut u) {
+                while !u.is_empty() {
+                    let ch = <char as Arbitrary>::arbitrary(&mut u)?;
                     let encoded = ch.encode_utf8(&mut buf[len..]);
                     let new_len = len + encoded.len();
                     if new_len < 14 {
@@ -107,7 +108,8 @@ impl<'a> Arbitrary<'a> for StringData<'a> {
             #[cfg(feature = "alloc")]
             &Choice::Shared => {
                 let mut buffer = crate::SharedBytesBuilder::new();
-                while let Ok(ch) = <char as Arbitrary>::arbitrary(&mut u) {
+                while !u.is_empty() {
+                    let ch = <char as Arbitrary>::arbitrary(&mut u)?;
                     buffer.reserve(4);
                     buffer.apply_unfilled(|buf| {
                         // SAFETY: The bytes may be uninitialized, but we are about to fill them.
-- 
2.43.0


From 47dacbbf160c13fe4b524334239e61b9f26ffaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:43 +0000
Subject: [PATCH 33/38] hook: model-checking builds (cfg bytedata_mc) take
 their atomics from mccore

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a261733..eb2aab4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -134,6 +134,10 @@
     unreachable_pub
 )]
 
+// Model checking only: `core` with atomics that report to an explorer.
+#[cfg(bytedata_mc)]
+extern crate mccore as core;
+
 #[cfg(feature = "alloc")]
 extern crate alloc;
 
-- 
2.43.0


From 801dc4f31556a48e87196d9ff4c22290164a7303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:30 +0000
Subject: [PATCH 34/38] fix: the last handle releases or reuses the storage
 only after every other handle's use of it

---
 src/bytes_1/shared_bytes.rs | 4 ++--
 src/external.rs             | 4 ++--
 src/shared_bytes.rs         | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index c1fe4cf..00eb796 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -13,7 +13,7 @@ use crate::SharedBytes;
 unsafe fn release(data: &AtomicPtr<()>) {
     let p = data.load(Ordering::Relaxed) as *mut u8;
     let meta = &*(p as *const crate::SharedBytesMeta);
-    if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
+    if meta.refcnt.fetch_sub(1, Ordering::AcqRel) != 1 {
         return;
     }
     let layout = alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
@@ -56,7 +56,7 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
     is_unique: |data| unsafe {
         let p = data.load(Ordering::Relaxed);
         let meta = &*(p as *const crate::SharedBytesMeta);
-        meta.refcnt.load(Ordering::Relaxed) == 1
+        meta.refcnt.load(Ordering::Acquire) == 1
     },
     drop: |data, _ptr, _len| unsafe { release(data) },
 };
diff --git a/src/external.rs b/src/external.rs
index ca8a499..45bccf1 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -361,7 +361,7 @@ impl ExtBytes {
         // SAFETY: `ExtBytesRef.data` is a valid pointer to `ExtBytesWrapper`.
         let ee = unsafe { &*dd.data };
         if ee.kind != core::any::TypeId::of::<T>()
-            || ee.ref_count.load(core::sync::atomic::Ordering::Relaxed) != 1
+            || ee.ref_count.load(core::sync::atomic::Ordering::Acquire) != 1
         {
             return Err(self);
         }
@@ -400,7 +400,7 @@ impl Drop for ExtBytes {
         let header = unsafe { &*ext_ref.data };
         let ref_count = header
             .ref_count
-            .fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
+            .fetch_sub(1, core::sync::atomic::Ordering::AcqRel);
         if ref_count == 1 {
             if let Some(drop) = header.drop {
                 let mut offset = core::mem::size_of::<ExtBytesWrapper>();
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index db44f96..4148a37 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -195,7 +195,7 @@ impl SharedBytes {
         let meta = dat.cast::<SharedBytesMeta>();
         // SAFETY: `meta` is a valid pointer.
         let meta = unsafe { &*meta };
-        meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1
+        meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1
     }
 
     /// Returns the bytes as a slice.
@@ -437,7 +437,7 @@ impl Drop for SharedBytes {
             // SAFETY: `dat` should point to a `SharedBytesMeta`.
             let meta = unsafe { &*dat.cast::<SharedBytesMeta>() };
             let refcnt = &meta.refcnt;
-            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Relaxed) == 1 {
+            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::AcqRel) == 1 {
                 #[allow(clippy::unwrap_used)]
                 let layout =
                     core::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
@@ -543,7 +543,7 @@ impl From<SharedBytes> for SharedBytesBuilder {
         #[allow(clippy::cast_ptr_alignment)]
         let meta = unsafe { &*dat_dat.cast::<SharedBytesMeta>() };
         let align = meta.align();
-        if meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1 {
+        if meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1 {
             let len = meta.len;
             let dat_len = dat.len;
             let dataptr = dat_dat.cast_mut();
-- 
2.43.0


From aadaa188ef79ed8b92d51d564e2addd96c27516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:00 +0000
Subject: [PATCH 35/38] Revert "hook: model-checking builds (cfg bytedata_mc)
 take their atomics from mccore"

This reverts commit 47dacbbf160c13fe4b524334239e61b9f26ffaf4.
---
 src/lib.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index eb2aab4..a261733 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -134,10 +134,6 @@
     unreachable_pub
 )]
 
-// Model checking only: `core` with atomics that report to an explorer.
-#[cfg(bytedata_mc)]
-extern crate mccore as core;
-
 #[cfg(feature = "alloc")]
 extern crate alloc;
 
-- 
2.43.0


From ca85e4b7cceec70d68a3958a0401cde00ce5568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 36/38] fix: a push refused by a full queue leaves the length
 as it was

---
 src/queue/byte_queue.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 383ad2f..0193fa5 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -60,8 +60,9 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        self.remain += data.len();
+        let len = data.len();
         self.queue.push_back(data);
+        self.remain += len;
     }
 
     /// Prepend bytes into the queue.
@@ -71,8 +72,9 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        self.remain += data.len();
+        let len = data.len();
         self.queue.push_front(data);
+        self.remain += len;
     }
 
     /// Remove bytes from the front of the queue.
-- 
2.43.0


From 6def103610844423701890a3d144697b080b2314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 37/38] fix: a fixed-capacity queue made from an empty item has
 no chunk

---
 src/queue/linked_root.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 892cb48..88b7d22 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -36,9 +36,10 @@ impl<'a> LinkedRoot<'a> {
 
     #[inline]
     pub(super) const fn with_item(item: ByteData<'a>) -> Self {
-        Self {
-            data: super::linked_node_data::LinkedNodeData::with_item(item),
-        }
+        let len = if item.is_empty() { 0 } else { 1 };
+        let mut data = super::linked_node_data::LinkedNodeData::with_item(item);
+        data.len = len;
+        Self { data }
     }
 
     #[inline]
-- 
2.43.0


From 1297967dc9cf63680a526f26228eab69b15be5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 38/38] fix: serde support compiles without alloc

---
 src/serde_1/bytedata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_1/bytedata.rs b/src/serde_1/bytedata.rs
index 84c2e46..317146a 100644
--- a/src/serde_1/bytedata.rs
+++ b/src/serde_1/bytedata.rs
@@ -87,7 +87,7 @@ impl<'de> serde::de::DeserializeSeed<'de> for StaticByteDataVisitor {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(self)
+            deserializer.deserialize_bytes(self)
         }
     }
 }
@@ -205,7 +205,7 @@ impl<'de: 'a, 'a> serde::de::Deserialize<'de> for ByteData<'a> {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(ByteDataVisitor)
+            deserializer.deserialize_bytes(ByteDataVisitor)
         }
     }
 }
-- 
2.43.0

