From d0e30ff49d48f06c831a4228077bbead8dd3c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 01/11] fix: write_byte lost the byte when the sink accepted
 nothing or was interrupted

It called write once and took Ok(0) for success; use write_all, as for
every other primitive.
---
 src/thrift/protocol/compact_stream_write.rs | 3 ++-
 src/thrift/protocol/compact_write.rs        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index d842eee..ea9d69b 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -273,6 +273,7 @@ where
     //
 
     async fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).await.map_err(From::from)
+        self.transport.write_all(&[b]).await?;
+        Ok(1)
     }
 }
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index 906d579..f8330e1 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -244,7 +244,8 @@ where
     //
 
     fn write_byte(&mut self, b: u8) -> Result<usize> {
-        self.transport.write(&[b]).map_err(From::from)
+        self.transport.write_all(&[b])?;
+        Ok(1)
     }
 }
 
-- 
2.43.0


From 3229b3f6f2510267c112d204161efa9cfd6c8874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 02/11] fix: asynchronous write_map_begin did not count the
 bytes of the map size

---
 src/thrift/protocol/compact_stream_write.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index ea9d69b..b1e549a 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -244,7 +244,7 @@ where
         if identifier.size == 0 {
             self.write_byte(0).await
         } else {
-            self.transport.write_varint_async(identifier.size).await?;
+            let mut written = self.transport.write_varint_async(identifier.size).await?;
 
             let key_type = identifier
                 .key_type
@@ -257,7 +257,8 @@ where
             let val_type_byte = collection_type_to_u8(val_type);
 
             let map_type_header = key_type_byte | val_type_byte;
-            self.write_byte(map_type_header).await
+            written += self.write_byte(map_type_header).await?;
+            Ok(written)
         }
     }
 
-- 
2.43.0


From b69189259ebcfd021563bb3fa2532a03843048d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 03/11] fix: asynchronous read_struct_begin did not count
 against the byte budget

The synchronous reader counts its field id stack entry; nested structs were
unlimited in the asynchronous one, and the two disagreed on what fits.
---
 src/thrift/protocol/compact_stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index 25e26be..f5f8afb 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -123,6 +123,7 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
     }
 
     async fn read_struct_begin(&mut self) -> Result<Option<TStructIdentifier>> {
+        self.update_remaining::<i16>(1)?;
         self.read_field_id_stack.push(self.last_read_field_id);
         self.last_read_field_id = 0;
         Ok(None)
-- 
2.43.0


From 5e839b197429ac9a82c32dfba5424311287d1eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 04/11] fix: overflow in the field id delta of
 write_field_header

Two ids more than i16::MAX apart panicked with overflow checks on, and
without them could be written in the short form.
---
 src/thrift/protocol/compact_stream_write.rs | 3 ++-
 src/thrift/protocol/compact_write.rs        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/compact_stream_write.rs b/src/thrift/protocol/compact_stream_write.rs
index b1e549a..593fe2b 100644
--- a/src/thrift/protocol/compact_stream_write.rs
+++ b/src/thrift/protocol/compact_stream_write.rs
@@ -51,7 +51,8 @@ where
     async fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        // in i32: the difference of two field ids need not fit i16
+        let field_delta = field_id as i32 - self.last_write_field_id as i32;
         if field_delta > 0 && field_delta < 15 {
             written += self
                 .write_byte(((field_delta as u8) << 4) | field_type)
diff --git a/src/thrift/protocol/compact_write.rs b/src/thrift/protocol/compact_write.rs
index f8330e1..45ff59f 100644
--- a/src/thrift/protocol/compact_write.rs
+++ b/src/thrift/protocol/compact_write.rs
@@ -45,7 +45,8 @@ where
     fn write_field_header(&mut self, field_type: u8, field_id: i16) -> Result<usize> {
         let mut written = 0;
 
-        let field_delta = field_id - self.last_write_field_id;
+        // in i32: the difference of two field ids need not fit i16
+        let field_delta = field_id as i32 - self.last_write_field_id as i32;
         if field_delta > 0 && field_delta < 15 {
             written += self.write_byte(((field_delta as u8) << 4) | field_type)?;
         } else {
-- 
2.43.0


From 81baf434b1c9ca1867d7c39f6e5f6a6bcc767a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 05/11] fix: read_bytes returned a short array at the end of
 the input

A byte array or string cut off by the end of the source was returned as if
complete.
---
 src/thrift/protocol/compact.rs        | 3 +++
 src/thrift/protocol/compact_stream.rs | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/thrift/protocol/compact.rs b/src/thrift/protocol/compact.rs
index ec6b329..2690032 100644
--- a/src/thrift/protocol/compact.rs
+++ b/src/thrift/protocol/compact.rs
@@ -223,6 +223,9 @@ where
             .by_ref()
             .take(len.try_into()?)
             .read_to_end(&mut buf)?;
+        if buf.len() < len as usize {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 
diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index f5f8afb..b9521eb 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -1,4 +1,5 @@
 use std::convert::{From, TryFrom, TryInto};
+use std::io;
 
 use async_trait::async_trait;
 #[cfg(feature = "async")]
@@ -217,6 +218,9 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
             .take(len.try_into()?)
             .read_to_end(&mut buf)
             .await?;
+        if buf.len() < len as usize {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 
-- 
2.43.0


From 329c8cf94e5b9170f30929f32405142d5d9d923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 06/11] fix: skipping a binary field failed unless it was valid
 UTF-8

binary and string have the same wire type, so an unknown binary field made
reading the whole value fail.
---
 src/thrift/protocol/mod.rs    | 3 ++-
 src/thrift/protocol/stream.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index 168aedd..c470999 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -162,7 +162,8 @@ pub trait TInputProtocol: Sized {
             TType::I32 => self.read_i32().map(|_| ()),
             TType::I64 => self.read_i64().map(|_| ()),
             TType::Double => self.read_double().map(|_| ()),
-            TType::String => self.read_string().map(|_| ()),
+            // strings and binary share a type: not necessarily UTF-8
+            TType::String => self.read_bytes().map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin()?;
                 loop {
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index ee04bd2..6b2cdeb 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -148,7 +148,8 @@ pub trait TInputStreamProtocol: Send + Sized {
             TType::I32 => self.read_i32().await.map(|_| ()),
             TType::I64 => self.read_i64().await.map(|_| ()),
             TType::Double => self.read_double().await.map(|_| ()),
-            TType::String => self.read_string().await.map(|_| ()),
+            // strings and binary share a type: not necessarily UTF-8
+            TType::String => self.read_bytes().await.map(|_| ()),
             TType::Struct => {
                 self.read_struct_begin().await?;
                 loop {
-- 
2.43.0


From 7281366bdf1f9409497ae36f1471f110f26c5e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 07/11] fix: read_list aborted when the declared list could not
 be allocated

Reserve fallibly, as read_bytes does.
---
 src/thrift/protocol/mod.rs    | 3 ++-
 src/thrift/protocol/stream.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index c470999..fe4b2ef 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -212,7 +212,8 @@ pub trait TInputProtocol: Sized {
 
     fn read_list<P: ReadThrift>(&mut self) -> crate::thrift::Result<Vec<P>> {
         let list_ident = self.read_list_begin()?;
-        let mut val: Vec<P> = Vec::with_capacity(list_ident.size as usize);
+        let mut val: Vec<P> = Vec::new();
+        val.try_reserve(list_ident.size as usize)?;
         for _ in 0..list_ident.size {
             val.push(P::read_from_in_protocol(self)?);
         }
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index 6b2cdeb..ccd179c 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -118,7 +118,8 @@ pub trait TInputStreamProtocol: Send + Sized {
 
     async fn read_list<P: AsyncReadThrift>(&mut self) -> crate::thrift::Result<Vec<P>> {
         let list_ident = self.read_list_begin().await?;
-        let mut val: Vec<P> = Vec::with_capacity(list_ident.size as usize);
+        let mut val: Vec<P> = Vec::new();
+        val.try_reserve(list_ident.size as usize)?;
         for _ in 0..list_ident.size {
             val.push(P::stream_from_in_protocol(self).await?);
         }
-- 
2.43.0


From c7c7f7c50a3bfe6181b7eaabf444740e8078c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 08/11] fix: read_varint failed when the source was interrupted

Retry, as read_exact and read_to_end do.
---
 src/thrift/varint/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/thrift/varint/decode.rs b/src/thrift/varint/decode.rs
index ae032af..1dd23be 100644
--- a/src/thrift/varint/decode.rs
+++ b/src/thrift/varint/decode.rs
@@ -257,7 +257,10 @@ impl<R: io::Read> VarIntReader for R {
         let mut p = VarIntProcessor::new::<VI>();
 
         while !p.finished() {
-            let read = self.read(&mut buf)?;
+            let read = match self.read(&mut buf) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                read => read?,
+            };
 
             // EOF
             if read == 0 && p.i == 0 {
-- 
2.43.0


From 3b29a494ef0574787d284b3581f5c5ec31925a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 09/11] fix: lists of booleans as other implementations write
 them were refused

The compact protocol specification allows both 1 and 2 as the element type of
booleans, and writers that follow its earlier revision encode false as 0.
---
 src/thrift/protocol/compact.rs        | 4 ++--
 src/thrift/protocol/compact_stream.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/thrift/protocol/compact.rs b/src/thrift/protocol/compact.rs
index 2690032..6422f58 100644
--- a/src/thrift/protocol/compact.rs
+++ b/src/thrift/protocol/compact.rs
@@ -202,7 +202,7 @@ where
                 let b = self.read_byte()?;
                 match b {
                     0x01 => Ok(true),
-                    0x02 => Ok(false),
+                    0x00 | 0x02 => Ok(false),
                     unkn => Err(Error::Protocol(ProtocolError {
                         kind: ProtocolErrorKind::InvalidData,
                         message: format!("cannot convert {} into bool", unkn),
@@ -314,7 +314,7 @@ where
 
 pub(super) fn collection_u8_to_type(b: u8) -> Result<TType> {
     match b {
-        0x01 => Ok(TType::Bool),
+        0x01 | 0x02 => Ok(TType::Bool),
         o => u8_to_type(o),
     }
 }
diff --git a/src/thrift/protocol/compact_stream.rs b/src/thrift/protocol/compact_stream.rs
index b9521eb..d3c5b1d 100644
--- a/src/thrift/protocol/compact_stream.rs
+++ b/src/thrift/protocol/compact_stream.rs
@@ -197,7 +197,7 @@ impl<R: VarIntAsyncReader + AsyncRead + Unpin + Send> TInputStreamProtocol
                 let b = self.read_byte().await?;
                 match b {
                     0x01 => Ok(true),
-                    0x02 => Ok(false),
+                    0x00 | 0x02 => Ok(false),
                     unkn => Err(Error::Protocol(ProtocolError {
                         kind: ProtocolErrorKind::InvalidData,
                         message: format!("cannot convert {} into bool", unkn),
-- 
2.43.0


From 1d318cf664cab774c7da01ec2d25fdae47c7b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:28 +0000
Subject: [PATCH 10/11] fix: end skipped fields of nested structs

Skipping a struct began every field of it but ended none, which a
protocol whose fields have an end on the wire cannot follow.
---
 src/thrift/protocol/mod.rs    | 1 +
 src/thrift/protocol/stream.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/thrift/protocol/mod.rs b/src/thrift/protocol/mod.rs
index fe4b2ef..79897d1 100644
--- a/src/thrift/protocol/mod.rs
+++ b/src/thrift/protocol/mod.rs
@@ -172,6 +172,7 @@ pub trait TInputProtocol: Sized {
                         break;
                     }
                     self.skip_till_depth(field_ident.field_type, depth - 1)?;
+                    self.read_field_end()?;
                 }
                 self.read_struct_end()
             }
diff --git a/src/thrift/protocol/stream.rs b/src/thrift/protocol/stream.rs
index ccd179c..f7cf8b1 100644
--- a/src/thrift/protocol/stream.rs
+++ b/src/thrift/protocol/stream.rs
@@ -160,6 +160,7 @@ pub trait TInputStreamProtocol: Send + Sized {
                     }
                     self.skip_till_depth(field_ident.field_type, depth - 1)
                         .await?;
+                    self.read_field_end().await?;
                 }
                 self.read_struct_end().await
             }
-- 
2.43.0


From b8cd903a889b8ea830805e8e4f3e40b6a701b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 11/11] fix: end unknown fields of application errors

Like the known fields: every field begun is ended.
---
 src/thrift/errors.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thrift/errors.rs b/src/thrift/errors.rs
index 4ba78fd..61c0f5c 100644
--- a/src/thrift/errors.rs
+++ b/src/thrift/errors.rs
@@ -112,6 +112,7 @@ impl Error {
                 }
                 _ => {
                     i.skip(field_ident.field_type)?;
+                    i.read_field_end()?;
                 }
             }
         }
-- 
2.43.0

