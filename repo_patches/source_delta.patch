From d5c238caa7752695c1b048d0c126be353da28f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 1/8] fix: json: decode surrogate pairs in string escapes

---
 ser-write-json/src/de.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 6fb1043..319dfce 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -742,10 +742,15 @@ impl<'de, P> Deserializer<'de, P> {
                                 // let code = u32::from_str_radix(s, 16)?;
                                 let code = self.input.get(index+1..index+5).ok_or(Error::UnexpectedEof)?
                                            .try_into().unwrap();
-                                let code = parse_uuuu(code).ok_or(Error::InvalidEscapeSequence)?;
+                                let mut code = parse_uuuu(code).ok_or(Error::InvalidEscapeSequence)?;
+                                index += 5;
+                                if let 0xD800..=0xDBFF = code { /* the first of a surrogate pair */
+                                    let low = self.parse_low_surrogate(index)?;
+                                    code = 0x1_0000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+                                    index += 6;
+                                }
                                 let ch = char::from_u32(code).ok_or(Error::InvalidUnicodeCodePoint)?;
                                 dest += ch.encode_utf8(&mut self.input[dest..]).len();
-                                index += 5;
                                 start = index;
                             }
                             Some(..) => break Err(Error::InvalidEscapeSequence),
@@ -763,6 +768,21 @@ impl<'de, P> Deserializer<'de, P> {
         }
     }
 
+    /// Parse an escaped low surrogate: `\uDC00` - `\uDFFF` at the given input index.
+    fn parse_low_surrogate(&self, index: usize) -> Result<u32> {
+        for (i, expect) in [RS, UU].into_iter().enumerate() {
+            if expect != *self.input.get(index + i).ok_or(Error::UnexpectedEof)? {
+                return Err(Error::InvalidUnicodeCodePoint)
+            }
+        }
+        let code = self.input.get(index+2..index+6).ok_or(Error::UnexpectedEof)?
+                   .try_into().unwrap();
+        match parse_uuuu(code).ok_or(Error::InvalidEscapeSequence)? {
+            low@0xDC00..=0xDFFF => Ok(low),
+            _ => Err(Error::InvalidUnicodeCodePoint)
+        }
+    }
+
     /// Parse a string as pairs of hexadecimal nibbles until a closing `'"'` is found.
     /// Return decoded in-place binary data on success.
     ///
-- 
2.43.0


From 2f6d9ecd5904e32c08f0c7fbeebfc3ad9f69e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 2/8] fix: json: self-describing integers beyond 64 bits decode
 as floats

---
 ser-write-json/src/de.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 319dfce..8b76fbf 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -604,10 +604,16 @@ impl<'de, P> Deserializer<'de, P> {
             AnyNumber::Float(AnyFloat::from_str(s)?)
         }
         else if is_negative {
-            AnyNumber::NegInt(i64::from_str(s)?)
+            match i64::from_str(s) {
+                Ok(num) => AnyNumber::NegInt(num),
+                Err(_) => AnyNumber::Float(AnyFloat::from_str(s)?) /* not a 64-bit integer */
+            }
         }
         else {
-            AnyNumber::PosInt(u64::from_str(s)?)
+            match u64::from_str(s) {
+                Ok(num) => AnyNumber::PosInt(num),
+                Err(_) => AnyNumber::Float(AnyFloat::from_str(s)?) /* not a 64-bit integer */
+            }
         };
         self.eat_some(input.len());
         Ok(num)
-- 
2.43.0


From 70cf62df1be774639b0ad0577f733f1f0f54ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 3/8] fix: json: newtype structs as object keys keep their
 inner type

---
 ser-write-json/src/de.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 8b76fbf..a9df32b 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -1471,9 +1471,19 @@ impl<'de, 'a, P> de::Deserializer<'de> for MapKey<'a, 'de, P>
 
     forward_to_deserialize_any! {
         i128 u128 f32 f64 string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
+        bytes byte_buf option unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value>
+        where V: Visitor<'de>
+    {
+        visitor.visit_newtype_struct(self)
+    }
 }
 
 struct UnitVariantAccess<'a, 'de, P> {
-- 
2.43.0


From 6e2cd71ccd538eeeb0f61e4ca746e2c9388672de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 4/8] fix: json: eat_whitespace past the end of input is
 UnexpectedEof, not a panic

---
 ser-write-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index a9df32b..bd1627a 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -423,7 +423,7 @@ impl<'de, P> Deserializer<'de, P> {
     /// are no more unparsed characters remaining in the input slice.
     pub fn eat_whitespace(&mut self) -> Result<u8> {
         let index = self.index;
-        self.input[index..].iter()
+        self.input.get(index..).unwrap_or_default().iter()
         .position(|&b| !matches!(b, SP|T_|N_|R_))
         .map(|pos| {
             self.index = index + pos;
-- 
2.43.0


From 7c3d3c01ea25b35de89385be9ff3047bb934f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 5/8] fix: msgpack: eat_message does not recurse

---
 ser-write-msgpack/src/de.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index f906d6b..f3a8dca 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -357,6 +357,16 @@ impl<'de> Deserializer<'de> {
     /// Return `Ok(())` on success or `Err(Error::UnexpectedEof)` if there was not enough data
     /// to fully decode a MessagePack item.
     pub fn eat_message(&mut self) -> Result<()> {
+        let mut pending: usize = 1;
+        while let Some(rest) = pending.checked_sub(1) {
+            // more messages than the input could ever hold
+            pending = rest.checked_add(self.eat_message_head()?).ok_or(Error::UnexpectedEof)?;
+        }
+        Ok(())
+    }
+
+    /// Consume a single MessagePack message, except messages nested in it. Return the number of those.
+    fn eat_message_head(&mut self) -> Result<usize> {
         use MsgType::*;
         let mtyp = match self.fetch()? {
             NIL|
@@ -401,26 +411,11 @@ impl<'de> Deserializer<'de> {
                     return Err(Error::UnexpectedEof)
                 }
                 self.index = index;
+                Ok(0)
             }
-            Array(len) => self.eat_seq_items(len)?,
-            Map(len) => self.eat_map_items(len)?
+            Array(len) => Ok(len),
+            Map(len) => len.checked_mul(2).ok_or(Error::UnexpectedEof)
         }
-        Ok(())
-    }
-
-    fn eat_seq_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-        }
-        Ok(())
-    }
-
-    fn eat_map_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-            self.eat_message()?;
-        }
-        Ok(())
     }
 
 }
-- 
2.43.0


From 09a1dc0767caa943251807f9bed49232a24a819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 6/8] fix: msgpack: no_std collect_str detects a shorter second
 formatting

---
 ser-write-msgpack/src/ser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index 650c822..a669a2c 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -569,7 +569,9 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
         let StringLenCounter(len) = col;
         write_str_len(&mut self.output, len)?;
         let mut col = StringCollector::new(len, &mut self.output);
-        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)
+        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        // the same number of bytes as established above
+        if col.len == 0 { Ok(()) } else { Err(Error::FormatError) }
     }
 }
 
-- 
2.43.0


From a7755daec24054cc4a570428fd637db3823a0e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:57 +0000
Subject: [PATCH 7/8] fix: json: parse_token_content with the cursor far beyond
 the input

The sum of the cursor and the token size overflowed: a panic in debug builds
instead of Error::UnexpectedEof.
---
 ser-write-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index bd1627a..61fde08 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -565,7 +565,7 @@ impl<'de, P> Deserializer<'de, P> {
     /// Example tokens: `b"null"`, `b"true"`, `b"false"`.
     pub fn parse_token_content(&mut self, token: &[u8]) -> Result<()> {
         let size = token.len();
-        if let Some(slice) = self.input.get(self.index..self.index+size) {
+        if let Some(slice) = self.input.get(self.index..).and_then(|input| input.get(..size)) {
             if slice == token {
                 self.eat_some(size);
                 Ok(())
-- 
2.43.0


From 391b1cfa4e839acf3ff1b763217d1b5aee835a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:57 +0000
Subject: [PATCH 8/8] fix: msgpack: skipping items of almost 4 GiB on 32-bit
 targets

The announced length was added to the cursor without checks: on targets with
a 32-bit usize the sum overflowed, which is a panic in debug builds, and in
release builds moved the cursor backwards and accepted a truncated message.
---
 ser-write-msgpack/src/de.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index f3a8dca..79d8192 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -383,7 +383,7 @@ impl<'de> Deserializer<'de> {
             BIN_32|STR_32 => Single(self.fetch_u32()?.try_into()?),
             EXT_8 => Single(1usize + usize::from(self.fetch_u8()?)),
             EXT_16 => Single(1usize + usize::from(self.fetch_u16()?)),
-            EXT_32 => Single(1usize + usize::try_from(self.fetch_u32()?)?),
+            EXT_32 => Single(usize::try_from(self.fetch_u32()?)?.checked_add(1).ok_or(Error::UnexpectedEof)?),
             FLOAT_32 => Single(4),
             FLOAT_64 => Single(8),
             UINT_8 => Single(1),
@@ -406,11 +406,10 @@ impl<'de> Deserializer<'de> {
         };
         match mtyp {
             Single(len) => {
-                let index = self.index + len;
-                if index > self.input.len() {
+                if len > self.remaining_len() {
                     return Err(Error::UnexpectedEof)
                 }
-                self.index = index;
+                self.eat_some(len);
                 Ok(0)
             }
             Array(len) => Ok(len),
-- 
2.43.0

