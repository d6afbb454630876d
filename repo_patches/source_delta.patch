From dcb5ba2ac74d8372f8deec4c9a525ef2feb68337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 01/16] fix: default constant pool starts like a new one

---
 src/basic/constpool.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 9861e95..c031625 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -309,13 +309,18 @@ pub enum ReferenceKind {
 /// A `Vec` and a `HashMap` is used internally to have fast lookups by index and value.
 /// To connect both, `Rc`s are used.
 /// As a result, we will have a little overhead, but this should be negligible.
-#[derive(Default)]
 pub struct Pool {
     length: u16,
     by_index: Vec<Option<Rc<Item>>>,
     by_entry: HashMap<Rc<Item>, u16>,
 }
 
+impl Default for Pool {
+    fn default() -> Self {
+        Pool::new()
+    }
+}
+
 impl Pool {
     pub fn new() -> Self {
         Pool {
-- 
2.43.0


From e5f57a2445b9ef8730c6746604f16d220fb7583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 02/16] fix: Pool::get fails instead of panicking at the
 encoded length

---
 src/basic/constpool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index c031625..331a528 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -354,7 +354,7 @@ impl Pool {
     /// If the index is 0 or greater than the size of the pool, an error is returned.
     pub fn get(&self, index: u16) -> Result<&Item> {
         // bounds checking
-        if index != 0 && index <= self.len() {
+        if index != 0 && index < self.len() {
             if let Some(ref item) = self.by_index[index as usize - 1] {
                 return Ok(item);
             }
-- 
2.43.0


From 9da0fecec0ba463d536f29300c456454dbbcfca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 03/16] fix: Pool::push refuses exactly what does not fit

---
 src/basic/constpool.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 331a528..26ef2d0 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -397,11 +397,17 @@ impl Pool {
 
     /// Pushes an item on the pool.
     pub fn push(&mut self, item: Item) -> Result<u16> {
-        if self.len() == u16::max_value() {
-            return Err(Error::CPTooLarge);
+        // an item which is already in the pool does not need any space
+        if let Some(&index) = self.by_entry.get(&item) {
+            return Ok(index);
         }
 
         let double = item.is_double();
+        let space = if double { 2 } else { 1 };
+        if self.len() > u16::max_value() - space {
+            return Err(Error::CPTooLarge);
+        }
+
         let length = &mut self.length;
 
         let rc_item = Rc::new(item);
-- 
2.43.0


From dfdb50e8a0f2d425abd4efb39038841ab3dfc591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 04/16] fix: PoolIter yields the index of each item and can be
 polled after the end

---
 src/basic/constpool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index 26ef2d0..e2f0377 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -459,10 +459,10 @@ impl<'a> Iterator for PoolIter<'a> {
     type Item = (u16, &'a Item);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.index += 1;
         if let Some(rc_item) = self.iter.next() {
+            self.index += 1;
             if let Some(ref item) = *rc_item {
-                Some((self.index + 1, item))
+                Some((self.index, item))
             } else {
                 self.next()
             }
-- 
2.43.0


From 0dad653dadc95b4acc152f78b214a07e5a4cbf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 05/16] fix: equal constants of a class file keep their own
 indices

---
 src/basic/constpool.rs  | 31 +++++++++++++++----------------
 src/basic/parser/mod.rs |  2 +-
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/basic/constpool.rs b/src/basic/constpool.rs
index e2f0377..53e78c4 100644
--- a/src/basic/constpool.rs
+++ b/src/basic/constpool.rs
@@ -402,33 +402,32 @@ impl Pool {
             return Ok(index);
         }
 
+        self.append(item)
+    }
+
+    /// Appends an item to the pool, even if an equal one is already part of it.
+    /// Pushing such an item returns the index of its first occurrence.
+    pub(crate) fn append(&mut self, item: Item) -> Result<u16> {
         let double = item.is_double();
         let space = if double { 2 } else { 1 };
         if self.len() > u16::max_value() - space {
             return Err(Error::CPTooLarge);
         }
 
-        let length = &mut self.length;
-
         let rc_item = Rc::new(item);
         let rc_item1 = Rc::clone(&rc_item);
 
-        let by_index = &mut self.by_index;
+        self.by_index.push(Some(rc_item1));
 
-        // check if in pool, if not insert it
-        Ok(*self.by_entry.entry(rc_item).or_insert_with(move || {
-            by_index.push(Some(Rc::clone(&rc_item1)));
+        let prev_length = self.length;
+        if double {
+            // long and double take an additional space
+            self.by_index.push(None);
+        }
+        self.length += space;
 
-            let prev_length = *length;
-            if double {
-                // long and double take an additional space
-                by_index.push(None);
-                *length += 2;
-            } else {
-                *length += 1;
-            }
-            prev_length
-        }))
+        self.by_entry.entry(rc_item).or_insert(prev_length);
+        Ok(prev_length)
     }
 
     pub fn iter(&self) -> PoolIter {
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index f620734..28ebc50 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -156,7 +156,7 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
             _ => return Err(Error::InvalidCPItem(index)),
         };
 
-        pool.push(item)?;
+        pool.append(item)?;
         index += 1;
     }
 
-- 
2.43.0


From 52a05067f6cd292f6c823c52fad751fc3428355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 06/16] fix: long and double constants take two indices when
 parsing

---
 src/basic/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 28ebc50..3e69bd0 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -157,7 +157,8 @@ fn read_constant_pool(decoder: &mut Decoder) -> Result<Pool> {
         };
 
         pool.append(item)?;
-        index += 1;
+        // long and double take an additional space
+        index = pool.len();
     }
 
     Ok(pool)
-- 
2.43.0


From 8e812e9f08f473a772b730204d7f699dc443c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 07/16] fix: recognise the EnclosingMethod attribute

---
 src/basic/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index 3e69bd0..a2f44c3 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -229,7 +229,7 @@ fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<A
                 Attribute::ConstantValue(index)
             }
             "Deprecated" => Attribute::Deprecated,
-            "EnclosingMethods" => parse_enclosing_method(&mut attr_decoder)?,
+            "EnclosingMethod" => parse_enclosing_method(&mut attr_decoder)?,
             "Exceptions" => parse_exceptions(&mut attr_decoder)?,
             "InnerClasses" => parse_inner_classes(&mut attr_decoder)?,
             "LineNumberTable" => parse_line_number_table(&mut attr_decoder)?,
-- 
2.43.0


From a30d12218e920c1e40f9f736ec6e55305e67db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 08/16] fix: MethodParameters has a one byte count

---
 src/basic/parser/method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/method.rs b/src/basic/parser/method.rs
index 01ca8a6..22333a7 100644
--- a/src/basic/parser/method.rs
+++ b/src/basic/parser/method.rs
@@ -155,7 +155,7 @@ fn parse_verification_type(decoder: &mut Decoder) -> Result<VerificationType> {
 
 /// Parses the `MethodParameters` attribute.
 pub fn parse_method_parameters(decoder: &mut Decoder) -> Result<Attribute> {
-    let count = decoder.read_u16()?;
+    let count = decoder.read_u8()?;
     let mut params = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let name = decoder.read_u16()?;
-- 
2.43.0


From 30f4e845bc2f1b37ebb0c50db4cfdc4c45794236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 09/16] fix: local variable targets have a two byte table
 length

---
 src/basic/parser/annotation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index b4bfced..d7717dd 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -155,7 +155,7 @@ fn parse_target_type(decoder: &mut Decoder) -> Result<TargetType> {
 
 /// Parses the local variables of a local variable target type
 fn parse_local_variable(decoder: &mut Decoder) -> Result<Vec<LocalVariableTarget>> {
-    let length = decoder.read_u8()?;
+    let length = decoder.read_u16()?;
     let mut table = Vec::with_capacity(length as usize);
 
     for _ in 0..length {
-- 
2.43.0


From e5f472a965d1bb2a7cc6b492c4f0b44f0291bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 10/16] fix: wide astore is 0x3A

---
 src/basic/parser/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 8227f42..3cd6517 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -329,7 +329,7 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             0x37 => LStore(decoder.read_u16()?),
             0x38 => FStore(decoder.read_u16()?),
             0x39 => DStore(decoder.read_u16()?),
-            0x40 => AStore(decoder.read_u16()?),
+            0x3A => AStore(decoder.read_u16()?),
             0x84 => {
                 let index = decoder.read_u16()?;
                 let value = decoder.read_i16()?;
-- 
2.43.0


From 2c31749a1dfda2f47f7fb9dec74262a247df989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 11/16] fix: reject reversed tableswitch bounds and do not
 trust their distance

---
 src/basic/parser/code.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/basic/parser/code.rs b/src/basic/parser/code.rs
index 3cd6517..62dac80 100644
--- a/src/basic/parser/code.rs
+++ b/src/basic/parser/code.rs
@@ -248,8 +248,13 @@ fn parse_instruction(decoder: &mut Decoder, at: u32) -> Result<(u32, Instruction
             let low = decoder.read_i32()?;
             let high = decoder.read_i32()?;
 
-            let mut offsets = Vec::with_capacity((high - low + 1) as usize);
-            for _ in low..(high + 1) {
+            if high < low {
+                return Err(Error::InvalidInstruction { op_code, at });
+            }
+
+            // the bounds may be anything, so do not allocate before reading
+            let mut offsets = Vec::new();
+            for _ in low..=high {
                 offsets.push(decoder.read_i32()?);
             }
 
-- 
2.43.0


From f1716d859beb5033b673688eb3376c204eed5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 12/16] fix: reject malformed continuation bytes and unpaired
 surrogates

---
 src/basic/parser/decode.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 8029079..256c8d5 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -123,20 +123,23 @@ impl<'a> Decoder<'a> {
             } else if r1 >= 0xC0 && r1 < 0xE0 && i >= 2 {
                 // 2 bytes
                 i -= 2;
-                let r2 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
                 (r1 & 0x1F) << 6 | (r2 & 0x3F)
             } else if r1 >= 0xE0 && r1 < 0xF0 && i >= 3 {
                 i -= 3;
-                let r2 = u32::from(self.read_u8()?);
-                let r3 = u32::from(self.read_u8()?);
+                let r2 = self.read_continuation()?;
+                let r3 = self.read_continuation()?;
                 if r1 == 0xED && r2 >= 0xA0 && r2 <= 0xAF {
                     if i >= 3 {
                         i -= 3;
 
-                        self.read_u8()?;
-                        let r5 = u32::from(self.read_u8()?);
-                        let r6 = u32::from(self.read_u8()?);
-                        // r1 and r4 can be ignored
+                        let r4 = u32::from(self.read_u8()?);
+                        let r5 = self.read_continuation()?;
+                        let r6 = self.read_continuation()?;
+                        // only a low surrogate may follow a high one
+                        if r4 != 0xED || r5 < 0xB0 {
+                            return Err(Error::InvalidUTF8);
+                        }
                         0x1_0000 + ((r2 & 0x0F) << 16) + ((r3 & 0x3F) << 10) + ((r5 & 0x0F) << 6)
                             + (r6 & 0x3F)
                     } else {
@@ -158,6 +161,16 @@ impl<'a> Decoder<'a> {
         Ok(out)
     }
 
+    /// Reads a byte of a modified UTF-8 character other than its first one.
+    fn read_continuation(&mut self) -> Result<u32> {
+        let byte = self.read_u8()?;
+        if byte & 0xC0 == 0x80 {
+            Ok(u32::from(byte))
+        } else {
+            Err(Error::InvalidUTF8)
+        }
+    }
+
     /// Checks for bounds
     fn check(&self, location: usize) -> Result<()> {
         if location <= self.limit {
-- 
2.43.0


From 4fd8a2da8497c8e44cb75f768f945945ac61a925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 13/16] fix: MODULE and MANDATED do not include the public bit

---
 src/basic/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basic/tree.rs b/src/basic/tree.rs
index ff92693..2c7e173 100644
--- a/src/basic/tree.rs
+++ b/src/basic/tree.rs
@@ -110,8 +110,8 @@ bitflags! {
         const SYNTHETIC    = 0b0001_0000_0000_0000;
         const ANNOTATION   = 0b0010_0000_0000_0000;
         const ENUM         = 0b0100_0000_0000_0000;
-        const MODULE       = 0b1000_0000_0000_0001;
-        const MANDATED     = 0b1000_0000_0000_0001;
+        const MODULE       = 0b1000_0000_0000_0000;
+        const MANDATED     = 0b1000_0000_0000_0000;
     }
 }
 
-- 
2.43.0


From acf443be3300bc35f5911df90a60040614c02788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:39 +0000
Subject: [PATCH 14/16] fix: limit how deep attributes and element values can
 be nested

---
 src/basic/parser/annotation.rs |  2 ++
 src/basic/parser/decode.rs     | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index d7717dd..a4ad80f 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -49,6 +49,8 @@ fn parse_annotation(decoder: &mut Decoder) -> Result<Annotation> {
 
 /// Reads an element value.
 pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
+    // element values can contain element values
+    let decoder = &mut decoder.nest()?;
     let tag = decoder.read_u8()?;
 
     match tag {
diff --git a/src/basic/parser/decode.rs b/src/basic/parser/decode.rs
index 256c8d5..b027436 100644
--- a/src/basic/parser/decode.rs
+++ b/src/basic/parser/decode.rs
@@ -9,8 +9,13 @@ pub struct Decoder<'a> {
     bytes: &'a [u8],
     cursor: &'a mut usize,
     limit: usize,
+    depth: usize,
 }
 
+/// How many limits and element values can be nested.
+/// They are read recursively, so this must not be up to the input.
+const MAX_DEPTH: usize = 128;
+
 impl<'a> Decoder<'a> {
     /// Creates a new decoder,
     /// the cursor has to be a mutable pointer to support limits without copying
@@ -19,6 +24,7 @@ impl<'a> Decoder<'a> {
             bytes,
             cursor,
             limit: bytes.len(),
+            depth: 0,
         }
     }
 
@@ -26,10 +32,23 @@ impl<'a> Decoder<'a> {
     pub fn limit(&mut self, to: usize) -> Result<Decoder> {
         let end = *self.cursor + to;
         self.check(end)?;
+        let mut decoder = self.nest()?;
+        decoder.limit = end;
+        Ok(decoder)
+    }
+
+    /// Returns a decoder with the same limit, for reading a nested structure.
+    /// If the structures are nested too deep, an error is returned.
+    pub fn nest(&mut self) -> Result<Decoder> {
+        if self.depth == MAX_DEPTH {
+            return Err(Error::LimitExceeded);
+        }
+
         Ok(Decoder {
             bytes: self.bytes,
             cursor: self.cursor,
-            limit: end,
+            limit: self.limit,
+            depth: self.depth + 1,
         })
     }
 
-- 
2.43.0


From 692069962fbb3cdb0306c403d788372c8dd3aed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 15/16] fix: size the arguments of bootstrap methods by their
 own count

---
 src/basic/parser/class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basic/parser/class.rs b/src/basic/parser/class.rs
index a9f39e0..0d8a972 100644
--- a/src/basic/parser/class.rs
+++ b/src/basic/parser/class.rs
@@ -7,8 +7,8 @@ pub fn parse_bootstrap_methods(decoder: &mut Decoder) -> Result<Attribute> {
     let mut bootstrap_methods = Vec::with_capacity(count as usize);
     for _ in 0..count {
         let method_ref = decoder.read_u16()?;
-        let mut arguments = Vec::with_capacity(count as usize);
         let count = decoder.read_u16()?;
+        let mut arguments = Vec::with_capacity(count as usize);
         for _ in 0..count {
             arguments.push(decoder.read_u16()?);
         }
-- 
2.43.0


From d2da7473ca7d140494d6cfb97019d8d19d45b321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 16/16] fix: do not reserve memory for nested counts before
 there is content

---
 src/basic/parser/annotation.rs | 5 +++--
 src/basic/parser/mod.rs        | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/basic/parser/annotation.rs b/src/basic/parser/annotation.rs
index a4ad80f..63af320 100644
--- a/src/basic/parser/annotation.rs
+++ b/src/basic/parser/annotation.rs
@@ -34,7 +34,8 @@ pub fn parse_type_annotations(decoder: &mut Decoder) -> Result<Vec<TypeAnnotatio
 fn parse_annotation(decoder: &mut Decoder) -> Result<Annotation> {
     let type_index = decoder.read_u16()?;
     let count = decoder.read_u16()?;
-    let mut element_value_pairs = Vec::with_capacity(count as usize);
+    // annotations are nested, so memory is not reserved before there is content for it
+    let mut element_value_pairs = Vec::new();
 
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
@@ -77,7 +78,7 @@ pub fn parse_element_value(decoder: &mut Decoder) -> Result<ElementValue> {
         )?))),
         b'[' => {
             let count = decoder.read_u16()?;
-            let mut element_values = Vec::with_capacity(count as usize);
+            let mut element_values = Vec::new();
 
             for _ in 0..count {
                 element_values.push(parse_element_value(decoder)?);
diff --git a/src/basic/parser/mod.rs b/src/basic/parser/mod.rs
index a2f44c3..110b2f4 100644
--- a/src/basic/parser/mod.rs
+++ b/src/basic/parser/mod.rs
@@ -209,7 +209,8 @@ fn parse_methods(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Meth
 /// Parses all attributes
 fn parse_attributes(decoder: &mut Decoder, constant_pool: &Pool) -> Result<Vec<Attribute>> {
     let count = decoder.read_u16()?;
-    let mut attributes = Vec::with_capacity(count as usize);
+    // attributes are nested, so memory is not reserved before there is content for it
+    let mut attributes = Vec::new();
     for _ in 0..count {
         let name_index = decoder.read_u16()?;
         let name = constant_pool.get_utf8(name_index)?;
-- 
2.43.0

