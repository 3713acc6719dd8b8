From 785ef52c3a882d3f0e7a71021e0aadde18dc02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 1/8] fix: count all collected entries in Context::collect

The running count was only advanced by 1 regardless of `n`, so the
max_collect limit could be exceeded by callers passing n > 1.
---
 src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 6cee4ac..6a6f4fa 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -327,7 +327,7 @@ impl<'a> Context<'a> {
         if self.config.max_collect - self.stats.collected.get() < n {
             Err(Error::MaxCollectExceeded(self.to_string()))
         } else {
-            self.stats.collected.set(self.stats.collected.get() + 1);
+            self.stats.collected.set(self.stats.collected.get() + n);
             Ok(())
         }
     }
-- 
2.43.0


From 1042394be3f08a5a793a85d7c6ccbb25d9cddcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 2/8] fix: report repeated macro-declared fields as occurring
 too many times

---
 src/sugar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sugar.rs b/src/sugar.rs
index 2521a05..a5d3e7e 100644
--- a/src/sugar.rs
+++ b/src/sugar.rs
@@ -531,7 +531,7 @@ macro_rules! fourleaf_retrofit {
                              field: &mut $crate::stream::Field<R>)
                              -> $crate::de::Result<()> {
             if accum.is_some() {
-                return Err($crate::de::Error::FieldOccursTooFewTimes(
+                return Err($crate::de::Error::FieldOccursTooManyTimes(
                     context.to_string(), 1));
             }
 
-- 
2.43.0


From 604c183d69e027f1a9896c8bd495f30bab57150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 3/8] fix: don't panic when slicing a cursor positioned past
 its end

Seeking within a blob whose declared length exceeds the data leaves the
cursor past the end of its buffer; slice(), slice_mut() and ext_slice()
then panicked instead of returning TruncatedBlob.
---
 src/io.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index b2e0387..d73a815 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -9,6 +9,7 @@
 
 //! Specialised adapters for doing IO.
 
+use std::cmp::min;
 use std::io::{self, BufRead, Read, Seek, Write};
 
 /// A simple wrapper around `io::Cursor` which exposes `AsRef<[u8]>` and
@@ -56,16 +57,19 @@ impl<T : AsRef<[u8]>> Seek for TransparentCursor<T> {
 impl<T : AsRef<[u8]>> AsRef<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_ref(&self) -> &[u8] {
-        let pos = self.0.position() as usize;
-        &self.0.get_ref().as_ref()[pos..]
+        let pos = self.0.position();
+        let buf = self.0.get_ref().as_ref();
+        &buf[min(pos, buf.len() as u64) as usize..]
     }
 }
 
 impl<T : AsMut<[u8]>> AsMut<[u8]> for TransparentCursor<T> {
     #[inline]
     fn as_mut(&mut self) -> &mut [u8] {
-        let pos = self.0.position() as usize;
-        &mut self.0.get_mut().as_mut()[pos..]
+        let pos = self.0.position();
+        let buf = self.0.get_mut().as_mut();
+        let start = min(pos, buf.len() as u64) as usize;
+        &mut buf[start..]
     }
 }
 
@@ -84,7 +88,7 @@ impl<'a> AsExtBytes<'a> for &'a [u8] {
 impl<'a> AsExtBytes<'a> for io::Cursor<&'a [u8]> {
     fn as_ext_bytes(&mut self) -> &'a [u8] {
         let buf: &'a [u8] = *self.get_ref();
-        &buf[(self.position() as usize)..]
+        &buf[min(self.position(), buf.len() as u64) as usize..]
     }
 }
 
-- 
2.43.0


From aeaaab5aa0915bc280898c7806d0ddc879695e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 4/8] fix: don't overflow when seeking a blob by i64::MIN

---
 src/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index 4aa2031..bbd3f95 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1320,13 +1320,13 @@ impl<'d, R : Seek + 'd> Seek for Blob<'d, R> {
             },
             io::SeekFrom::End(off) => {
                 check!(off <= 0);
-                let off = (-off) as u64;
+                let off = off.wrapping_neg() as u64;
                 check!(off <= self.len);
                 self.start_pos() + (self.len - off)
             },
             io::SeekFrom::Current(off) => {
                 if off < 0 {
-                    let off = (-off) as u64;
+                    let off = off.wrapping_neg() as u64;
                     check!(off <= self.inner_pos());
                     self.stream_pos() - off
                 } else {
-- 
2.43.0


From a1932a4df62c3d16b79c8e2c7b7483da2557d2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 5/8] fix: fail reading a blob fully if the input ends inside
 it

read_fully() silently returned the available prefix of a truncated blob
as if it were the full value.
---
 src/stream.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index bbd3f95..f125bf6 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -1164,6 +1164,9 @@ impl<'d, R : 'd> Blob<'d, R> {
 
         let mut ret = Vec::new();
         self.read_to_end(&mut ret)?;
+        if self.remaining() > 0 {
+            return Err(Error::TruncatedBlob(self.remaining()));
+        }
         Ok(ret)
     }
 
-- 
2.43.0


From 8bfff6c384449a4a11df451acf3a9347dcae5b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 6/8] fix: detect truncated blobs when skipping by seeking

Seeking past EOF usually succeeds, so with graceful_eof an unread blob
whose data was cut off looked like a clean end of the document.
---
 src/stream.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/stream.rs b/src/stream.rs
index f125bf6..f476bbd 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -384,9 +384,13 @@ impl<R> Stream<R> {
         } else {
             // Otherwise, try to seek directly.
             self.check_advance_pos(n)?;
-            if seek(&mut self.inner, io::SeekFrom::Current(n as i64)).is_ok() {
-                self.pos += n;
-                Ok(n)
+            //
+            // Seeking past the end of the input generally succeeds, so the
+            // last byte is always actually read to detect truncated blobs.
+            if n > 0 && seek(&mut self.inner,
+                             io::SeekFrom::Current(n as i64 - 1)).is_ok() {
+                self.pos += n - 1;
+                Ok(n - 1 + self.skip_by_discard(1)?)
             } else {
                 // If seeking failed (maybe the underlying file descriptor isn't
                 // actually seekable?), fall back to read+discard.
-- 
2.43.0


From f6005d6f52204f0287a1645071fd194bd4fdb7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 7/8] fix: refuse dynamic blobs whose header would overflow the
 position

---
 src/stream.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stream.rs b/src/stream.rs
index f476bbd..b1c21c6 100644
--- a/src/stream.rs
+++ b/src/stream.rs
@@ -902,6 +902,11 @@ impl<R> Stream<R> {
     fn write_desc_with_blob_dynamic(&mut self, desc: wire::ParsedDescriptor)
                                     -> Result<Blob<R>>
     where R : Write + Seek {
+        // 10 bytes length + 1 byte tag
+        const OVERHEAD: u64 = 11;
+
+        self.commit()?;
+        self.check_advance_pos(OVERHEAD)?;
         self.write_desc(desc)?;
         let len = u64::MAX - self.pos - 10;
         wire::encode_fixed_u64(&mut self.track(false), len)?;
-- 
2.43.0


From b342e58bf3b17cf69b9f836ad3ae6f1fb50a837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 8/8] fix: accept the body form of () when unknown fields are
 rejected

to_vec(&()) writes the unit as a field with tag 1, but deserialising a
() body treated every field as unknown, so values such as () and
Result<(), E> did not round-trip with ignore_unknown_fields = false.
---
 src/de.rs | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 6a6f4fa..3997722 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -1377,7 +1377,47 @@ macro_rules! des_tuple {
     } }
 }
 
-des_tuple!();
+// Unlike the other tuples, `()` is serialised with the default
+// `serialize_body` and so is nested within a field when found in that context.
+impl<R : Read, STYLE> Deserialize<R, STYLE> for () {
+    type Accum = Option<()>;
+
+    fn deserialize_body(context: &Context, stream: &mut stream::Stream<R>)
+                        -> Result<()> {
+        Ok(des_struct_body! {
+            (context, stream); (top.unwrap_or(()));
+            1: top: Option<()>,
+        })
+    }
+
+    fn deserialize_field(accum: &mut Option<()>, context: &Context,
+                         field: &mut stream::Field<R>)
+                         -> Result<()> {
+        if accum.is_some() {
+            return Err(Error::FieldOccursTooManyTimes(
+                context.to_string(), 1));
+        }
+
+        *accum = Some(
+            <Self as Deserialize<R, STYLE>>
+                ::deserialize_element(context, field)?);
+        Ok(())
+    }
+
+    fn deserialize_element(context: &Context, field: &mut stream::Field<R>)
+                           -> Result<()> {
+        let stream = field.value.to_struct().context(context)?;
+        Ok(des_struct_body! {
+            (context, stream); (());
+        })
+    }
+
+    fn finish(accum: Option<()>, context: &Context) -> Result<()> {
+        accum.ok_or_else(|| Error::RequiredFieldMissing(
+            context.to_string()))
+    }
+}
+
 des_tuple!(1: field_0: F0);
 des_tuple!(1: field_0: F0, 2: field_1: F1);
 des_tuple!(1: field_0: F0, 2: field_1: F1, 3: field_2: F2);
-- 
2.43.0

