From ba4695847c4ad2a2ff165b71e6facecf2fc25dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 01/14] fix: Pool::get returns an error for an index equal to
 the length

The encoded length is one more than the number of slots, so looking up
index == len() indexed past the end of the vector and panicked.
---
 src/basic/constpool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 9861e95..3dcfb1f 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -349,7 +349,7 @@ impl Pool {
     /// If the index is 0 or greater than the size of the pool, an error is returned.
     pub fn get(&self, index: u16) -> Result<&Item> {
         // bounds checking
-        if index != 0 && index <= self.len() {
+        if index != 0 && index < self.len() {
             if let Some(ref item) = self.by_index[index as usize - 1] {
                 return Ok(item);
             }
-- 
2.43.0


From 68c0adf19f803d00e55f9397dbcc5f6748eb58dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 02/14] fix: PoolIter yields the index under which get finds
 the item

The yielded index was one too high, and overflowed for a full pool.
---
 src/basic/constpool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 3dcfb1f..4702274 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -448,10 +448,10 @@ impl<'a> Iterator for PoolIter<'a> {
     type Item = (u16, &'a Item);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.index += 1;
         if let Some(rc_item) = self.iter.next() {
+            self.index += 1;
             if let Some(ref item) = *rc_item {
-                Some((self.index + 1, item))
+                Some((self.index, item))
             } else {
                 self.next()
             }
-- 
2.43.0


From 20dd8a7fc26152aa3a7decfc2bf6c9fa56e7aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 03/14] fix: Pool::push refuses only what does not fit

A long or double pushed at length 65534 overflowed the length, and an
item which is already present was refused by a full pool.
---
 src/basic/constpool.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 4702274..6f9f3b1 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -392,11 +392,14 @@ impl Pool {
 
     /// Pushes an item on the pool.
     pub fn push(&mut self, item: Item) -> Result<u16> {
-        if self.len() == u16::max_value() {
+        let double = item.is_double();
+
+        // an item which is already in the pool takes no additional space
+        let max_length = u16::max_value() - if double { 2 } else { 1 };
+        if self.len() > max_length && !self.by_entry.contains_key(&item) {
             return Err(Error::CPTooLarge);
         }
 
-        let double = item.is_double();
         let length = &mut self.length;
 
         let rc_item = Rc::new(item);
-- 
2.43.0


From 60528ca2c171b9214af4f4ee718129cc8588533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 04/14] fix: Pool::default is an empty pool of encoded length 1

The derived implementation had length 0, so the first item got index 0
and could never be looked up.
---
 src/basic/constpool.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 6f9f3b1..8f8abd5 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -309,7 +309,6 @@ pub enum ReferenceKind {
 /// A `Vec` and a `HashMap` is used internally to have fast lookups by index and value.
 /// To connect both, `Rc`s are used.
 /// As a result, we will have a little overhead, but this should be negligible.
-#[derive(Default)]
 pub struct Pool {
     length: u16,
     by_index: Vec<Option<Rc<Item>>>,
@@ -440,6 +439,12 @@ impl Pool {
 //    }
 //}
 
+impl Default for Pool {
+    fn default() -> Self {
+        Pool::new()
+    }
+}
+
 /// Iterates over all the elements in the constant pool
 /// It basically is a filter with a different name
 pub struct PoolIter<'a> {
-- 
2.43.0


From 51500128d9d66d23d0d030b252f93cf6a637539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 05/14] fix: constants keep the index they have in the class
 file

A long or double advanced the index by one only, and a repeated constant
was merged with the first one, which shifted all following indices.
---
 src/basic/constpool.rs  | 22 ++++++++++++++++++++++
 src/basic/parser/mod.rs |  5 +++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 8f8abd5..57e8929 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -422,6 +422,28 @@ impl Pool {
         }))
     }
 
+    /// Appends an item to the pool, even if an equal item is already in it.
+    /// Pushing such an item still returns the first index.
+    pub(super) fn append(&mut self, item: Item) -> Result<u16> {
+        let double = item.is_double();
+        let index = self.length;
+        let length = match index.checked_add(if double { 2 } else { 1 }) {
+            Some(length) => length,
+            None => return Err(Error::CPTooLarge),
+        };
+
+        let rc_item = Rc::new(item);
+        self.by_index.push(Some(Rc::clone(&rc_item)));
+        if double {
+            // long and double take an additional space
+            self.by_index.push(None);
+        }
+        self.by_entry.entry(rc_item).or_insert(index);
+        self.length = length;
+
+        Ok(index)
+    }
+
     pub fn iter(&self) -> PoolIter {
         PoolIter {
             iter: self.by_index.iter(),
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index f620734..df22f4b 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -156,8 +156,9 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
             _ => return Err(Error::InvalidCPItem(index)),
         };
 
-        pool.push(item)?;
-        index += 1;
+        // equal items keep their own index, long and double take two
+        pool.append(item)?;
+        index = pool.len();
     }
 
     Ok(pool)
-- 
2.43.0


From 1183e3f19c3293a6935b0b074c27a2ea8bf6c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 06/14] fix: recognise the EnclosingMethod attribute by its
 real name

---
 src/basic/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index df22f4b..aca9f45 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -229,7 +229,7 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
                 Attribute::ConstantValue(index)
             }
             "Deprecated" => Attribute::Deprecated,
-            "EnclosingMethods" => parse_enclosing_method(&mut attr_decoder)?,
+            "EnclosingMethod" => parse_enclosing_method(&mut attr_decoder)?,
             "Exceptions" => parse_exceptions(&mut attr_decoder)?,
             "InnerClasses" => parse_inner_classes(&mut attr_decoder)?,
             "LineNumberTable" => parse_line_number_table(&mut attr_decoder)?,
-- 
2.43.0


From c5947a6721ad26c62c2dd61984ea30b3b848ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 07/14] fix: reserve space for bootstrap arguments by their own
 count

---
 src/basic/parser/class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/class.rs b/src/basic/parser/class.rs
index a9f39e0..0d8a972 100644
--- a/src/basic/parser/class.rs
+++ b/src/basic/parser/class.rs
@@ -7,8 +7,8 @@ pub fn parse_bootstrap_methods(decoder: &mut Decoder) -> Result<Attribute> {
     let mut bootstrap_methods = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let method_ref = decoder.read_u16()?;
-        let mut arguments = Vec::with_capacity(count as usize);
         let count = decoder.read_u16()?;
+        let mut arguments = Vec::with_capacity(count as usize);
         for _ in 0..count {
             arguments.push(decoder.read_u16()?);
         }
-- 
2.43.0


From 29f5985318400f9a8ed1a24d55d1d58dea62fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 08/14] fix: tableswitch does not overflow or reserve space by
 an untrusted range

---
 src/basic/parser/code.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 8227f42..c3b1ca0 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -248,8 +248,9 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             let low = decoder.read_i32()?;
             let high = decoder.read_i32()?;
 
-            let mut offsets = Vec::with_capacity((high - low + 1) as usize);
-            for _ in low..(high + 1) {
+            // the range is not trusted, so no space is reserved in advance
+            let mut offsets = Vec::new();
+            for _ in i64::from(low)..(i64::from(high) + 1) {
                 offsets.push(decoder.read_i32()?);
             }
 
-- 
2.43.0


From 40a32d99faea5a66918a015741aeb5e405c2ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 09/14] fix: wide astore has opcode 0x3A

---
 src/basic/parser/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index c3b1ca0..8168409 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -330,7 +330,7 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             0x37 => LStore(decoder.read_u16()?),
             0x38 => FStore(decoder.read_u16()?),
             0x39 => DStore(decoder.read_u16()?),
-            0x40 => AStore(decoder.read_u16()?),
+            0x3A => AStore(decoder.read_u16()?),
             0x84 => {
                 let index = decoder.read_u16()?;
                 let value = decoder.read_i16()?;
-- 
2.43.0


From 145d69a4b85a153254a364ae03cc4d04ccf9f80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 10/14] fix: MethodParameters has an 8-bit count

---
 src/basic/parser/method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/method.rs b/src/basic/parser/method.rs
index 01ca8a6..22333a7 100644
--- a/src/basic/parser/method.rs
+++ b/src/basic/parser/method.rs
@@ -155,7 +155,7 @@ fn parse_verification_type(decoder: &mut Decoder) -> Result<VerificationType> {
 
 /// Parses the `MethodParameters` attribute.
 pub fn parse_method_parameters(decoder: &mut Decoder) -> Result<Attribute> {
-    let count = decoder.read_u16()?;
+    let count = decoder.read_u8()?;
     let mut params = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let name = decoder.read_u16()?;
-- 
2.43.0


From 64023b1144f4bc1bdf969dadbc2b68f590f883f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 11/14] fix: local variable targets have a 16-bit table length

---
 src/basic/parser/annotation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index b4bfced..d7717dd 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -155,7 +155,7 @@ fn parse_target_type(decoder: &mut Decoder) -> Result<TargetType> {
 
 /// Parses the local variables of a local variable target type
 fn parse_local_variable(decoder: &mut Decoder) -> Result<Vec<LocalVariableTarget>> {
-    let length = decoder.read_u8()?;
+    let length = decoder.read_u16()?;
     let mut table = Vec::with_capacity(length as usize);
 
     for _ in 0..length {
-- 
2.43.0


From e94a701de76abba290e72ff3ee9fb576126f16e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 12/14] fix: MODULE and MANDATED are the single bit 0x8000

---
 src/basic/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/tree.rs b/src/basic/tree.rs
index ff92693..2c7e173 100644
--- a/src/basic/tree.rs
+++ b/src/basic/tree.rs
@@ -110,8 +110,8 @@ bitflags! {
         const SYNTHETIC    = 0b0001_0000_0000_0000;
         const ANNOTATION   = 0b0010_0000_0000_0000;
         const ENUM         = 0b0100_0000_0000_0000;
-        const MODULE       = 0b1000_0000_0000_0001;
-        const MANDATED     = 0b1000_0000_0000_0001;
+        const MODULE       = 0b1000_0000_0000_0000;
+        const MANDATED     = 0b1000_0000_0000_0000;
     }
 }
 
-- 
2.43.0


From 0e07c5d8e69ff430e6573daefa5d06a2b28ec9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 13/14] fix: reject invalid continuation bytes and unpaired
 surrogates

Continuation bytes were masked without looking at their upper bits, and
the three bytes after a high surrogate were taken as a low surrogate
whatever they were.
---
 src/basic/parser/decode.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 8029079..60d2ce3 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -123,20 +123,24 @@ impl<'a> Decoder<'a> {
             } else if r1 >= 0xC0 && r1 < 0xE0 && i >= 2 {
                 // 2 bytes
                 i -= 2;
-                let r2 = u32::from(self.read_u8()?);
+                let r2 = u32::from(self.read_continuation()?);
                 (r1 & 0x1F) << 6 | (r2 & 0x3F)
             } else if r1 >= 0xE0 && r1 < 0xF0 && i >= 3 {
                 i -= 3;
-                let r2 = u32::from(self.read_u8()?);
-                let r3 = u32::from(self.read_u8()?);
+                let r2 = u32::from(self.read_continuation()?);
+                let r3 = u32::from(self.read_continuation()?);
                 if r1 == 0xED && r2 >= 0xA0 && r2 <= 0xAF {
                     if i >= 3 {
                         i -= 3;
 
-                        self.read_u8()?;
-                        let r5 = u32::from(self.read_u8()?);
-                        let r6 = u32::from(self.read_u8()?);
-                        // r1 and r4 can be ignored
+                        let r4 = self.read_u8()?;
+                        let r5 = u32::from(self.read_continuation()?);
+                        let r6 = u32::from(self.read_continuation()?);
+                        // a high surrogate has to be followed by a low surrogate
+                        if r4 != 0xED || r5 < 0xB0 {
+                            return Err(Error::InvalidUTF8);
+                        }
+                        // the value of r1 and r4 can be ignored
                         0x1_0000 + ((r2 & 0x0F) << 16) + ((r3 & 0x3F) << 10) + ((r5 & 0x0F) << 6)
                             + (r6 & 0x3F)
                     } else {
@@ -158,6 +162,16 @@ impl<'a> Decoder<'a> {
         Ok(out)
     }
 
+    /// Reads a continuation byte of a modified UTF-8 sequence, which is of the form 10xxxxxx.
+    fn read_continuation(&mut self) -> Result<u8> {
+        let byte = self.read_u8()?;
+        if byte & 0xC0 == 0x80 {
+            Ok(byte)
+        } else {
+            Err(Error::InvalidUTF8)
+        }
+    }
+
     /// Checks for bounds
     fn check(&self, location: usize) -> Result<()> {
         if location <= self.limit {
-- 
2.43.0


From e7b5846db08e288498e03d76b6e4b20ac3173ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 14/14] fix: limit the depth of nested attributes and element
 values

Both were parsed recursively without a bound, so a crafted class file
overflowed the stack.
---
 src/basic/parser/annotation.rs | 19 ++++++++++++-------
 src/basic/parser/code.rs       |  8 ++++++--
 src/basic/parser/mod.rs        | 26 +++++++++++++++++++-------
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index d7717dd..997c946 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -15,7 +15,7 @@ pub fn parse_annotations(decoder: &mut Decoder) -> Result<Vec<Annotation>> {
     let count = decoder.read_u16()?;
     let mut annotations = Vec::with_capacity(count as usize);
     for _ in 0..count {
-        annotations.push(parse_annotation(decoder)?);
+        annotations.push(parse_annotation(decoder, 0)?);
     }
     Ok(annotations)
 }
@@ -31,14 +31,14 @@ pub fn parse_type_annotations(decoder: &mut Decoder) -> Result<Vec<TypeAnnotatio
 }
 
 /// Reads a single annotation.
-fn parse_annotation(decoder: &mut Decoder) -> Result<Annotation> {
+fn parse_annotation(decoder: &mut Decoder, depth: usize) -> Result<Annotation> {
     let type_index = decoder.read_u16()?;
     let count = decoder.read_u16()?;
     let mut element_value_pairs = Vec::with_capacity(count as usize);
 
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
-        element_value_pairs.push((name_index, parse_element_value(decoder)?));
+        element_value_pairs.push((name_index, parse_element_value(decoder, depth)?));
     }
 
     Ok(Annotation {
@@ -47,8 +47,12 @@ fn parse_annotation(decoder: &mut Decoder) -> Result<Annotation> {
     })
 }
 
-/// Reads an element value.
-pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
+/// Reads an element value, which is nested in `depth` other element values.
+pub fn parse_element_value(decoder: &mut Decoder, depth: usize) -> Result<ElementValue> {
+    if depth > MAX_DEPTH {
+        return Err(Error::LimitExceeded);
+    }
+
     let tag = decoder.read_u8()?;
 
     match tag {
@@ -72,13 +76,14 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
         }
         b'@' => Ok(ElementValue::Annotation(Box::new(parse_annotation(
             decoder,
+            depth + 1,
         )?))),
         b'[' => {
             let count = decoder.read_u16()?;
             let mut element_values = Vec::with_capacity(count as usize);
 
             for _ in 0..count {
-                element_values.push(parse_element_value(decoder)?);
+                element_values.push(parse_element_value(decoder, depth + 1)?);
             }
 
             Ok(ElementValue::Array(element_values))
@@ -92,7 +97,7 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
 fn parse_type_annotation(decoder: &mut Decoder) -> Result<TypeAnnotation> {
     let target_type = parse_target_type(decoder)?;
     let target_path = parse_type_path(decoder)?;
-    let annotation = parse_annotation(decoder)?;
+    let annotation = parse_annotation(decoder, 0)?;
     Ok(TypeAnnotation {
         target_type,
         target_path,
diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 8168409..649ae91 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -4,7 +4,11 @@ use super::*;
 use self::decode::Decoder;
 
 /// Parses the code attribute
-pub fn parse_code(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Attribute> {
+pub fn parse_code(
+    decoder: &mut Decoder,
+    constant_pool: &Pool,
+    depth: usize,
+) -> Result<Attribute> {
     let max_stack = decoder.read_u16()?;
     let max_locals = decoder.read_u16()?;
 
@@ -49,7 +53,7 @@ pub fn parse_code(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Attribu
         });
     }
 
-    let attributes = parse_attributes(decoder, constant_pool)?;
+    let attributes = parse_attributes(decoder, constant_pool, depth + 1)?;
 
     Ok(Attribute::Code {
         max_stack,
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index aca9f45..2ed3c90 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -17,6 +17,10 @@ use self::decode::Decoder;
 /// The first 4 bytes of every java class file
 const MAGIC: &[u8] = &[0xCA, 0xFE, 0xBA, 0xBE];
 
+/// The maximum depth of nested attributes or element values,
+/// which protects the stack from malicious class files
+const MAX_DEPTH: usize = 64;
+
 /// Parses the class file, which is represented as a byte array.
 /// The constant pool and the class is returned, if no error occurred.
 pub fn parse(input: &[u8]) -> Result<(Pool, Class)> {
@@ -48,7 +52,7 @@ pub fn parse(input: &[u8]) -> Result<(Pool, Class)> {
 
     let fields = parse_fields(&mut decoder, &constant_pool)?;
     let methods = parse_methods(&mut decoder, &constant_pool)?;
-    let attributes = parse_attributes(&mut decoder, &constant_pool)?;
+    let attributes = parse_attributes(&mut decoder, &constant_pool, 0)?;
 
     let class = Class {
         minor_version,
@@ -172,7 +176,7 @@ fn parse_fields(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Field
         let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
         let name = decoder.read_u16()?;
         let desc = decoder.read_u16()?;
-        let attributes = parse_attributes(decoder, constant_pool)?;
+        let attributes = parse_attributes(decoder, constant_pool, 0)?;
 
         fields.push(Field {
             access_flags,
@@ -193,7 +197,7 @@ fn parse_methods(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Meth
         let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
         let name = decoder.read_u16()?;
         let desc = decoder.read_u16()?;
-        let attributes = parse_attributes(decoder, constant_pool)?;
+        let attributes = parse_attributes(decoder, constant_pool, 0)?;
 
         fields.push(Method {
             access_flags,
@@ -206,8 +210,16 @@ fn parse_methods(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Meth
     Ok(fields)
 }
 
-/// Parses all attributes
-fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Attribute>> {
+/// Parses all attributes, which are nested in `depth` other attributes
+fn parse_attributes(
+    decoder: &mut Decoder,
+    constant_pool: &Pool,
+    depth: usize,
+) -> Result<Vec<Attribute>> {
+    if depth > MAX_DEPTH {
+        return Err(Error::LimitExceeded);
+    }
+
     let count = decoder.read_u16()?;
     let mut attributes = Vec::with_capacity(count as usize);
     for _ in 0..count {
@@ -220,10 +232,10 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
 
         let attribute = match name.as_ref() {
             "AnnotationDefault" => {
-                Attribute::AnnotationDefault(parse_element_value(&mut attr_decoder)?)
+                Attribute::AnnotationDefault(parse_element_value(&mut attr_decoder, 0)?)
             }
             "BootstrapMethods" => parse_bootstrap_methods(&mut attr_decoder)?,
-            "Code" => parse_code(&mut attr_decoder, constant_pool)?,
+            "Code" => parse_code(&mut attr_decoder, constant_pool, depth)?,
             "ConstantValue" => {
                 let index = attr_decoder.read_u16()?;
                 Attribute::ConstantValue(index)
-- 
2.43.0

