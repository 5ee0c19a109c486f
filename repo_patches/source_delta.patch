From 645effd5639eaf5eb76a15c561ebb3cb4411bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 1/9] fix: check switch table sizes against the code length
 before using them

The size of a tableswitch was computed in 32-bit arithmetic, which overflows
for wide ranges, and both switch instructions allocated room for as many
entries as the instruction claims to have.
---
 src/bytecode.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index b9758e2..498c0ff 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -500,13 +500,19 @@ fn read_opcodes<'a>(
                 if low > high {
                     fail!("The low value must be less than or equal to the high value in tableswitch at index {}", ix - 4);
                 }
-                let jump_count = match usize::try_from(high - low + 1) {
+                let jump_count = match usize::try_from(i64::from(high) - i64::from(low) + 1) {
                     Ok(n) => n,
                     _ => fail!(
                         "Unable to convert range to usize in tableswitch at index {}",
                         ix - 4
                     ),
                 };
+                if jump_count > (code.len() - ix) / 4 {
+                    fail!(
+                        "Unexpected end of stream reading tableswitch at index {}",
+                        ix
+                    );
+                }
                 let mut jumps = Vec::with_capacity(jump_count);
                 for _ in 0..jump_count {
                     jumps.push(read_u4(code, &mut ix)? as JumpOffset);
@@ -536,6 +542,12 @@ fn read_opcodes<'a>(
                         ix - 4
                     ),
                 };
+                if pair_count > (code.len() - ix) / 8 {
+                    fail!(
+                        "Unexpected end of stream reading lookupswitch at index {}",
+                        ix
+                    );
+                }
                 let mut match_offsets = Vec::with_capacity(pair_count);
                 for _ in 0..pair_count {
                     let match_part = read_u4(code, &mut ix)? as i32;
-- 
2.43.0


From 100eecfac3dff7ab1c8e2e6872ef65c2159ffaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 2/9] fix: reject jump offsets that overflow instead of
 panicking

---
 src/bytecode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 498c0ff..18a36c8 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -249,8 +249,10 @@ impl<'a> ByteCode<'a> {
     }
 
     fn validate_jump(&self, source_offset: i32, jump: JumpOffset) -> Result<(), ParseError> {
-        let target_offset = usize::try_from(source_offset + jump)
-            .map_err(|_| err!("Invalid destination after applying jump"))?;
+        let target_offset = source_offset
+            .checked_add(jump)
+            .and_then(|target| usize::try_from(target).ok())
+            .ok_or_else(|| err!("Invalid destination after applying jump"))?;
         if self.get_opcode_index(target_offset).is_none() {
             fail!("Invalid opcode offset after applying jump");
         }
-- 
2.43.0


From 1fad13f28f47e1b8c8e7f2b6e2a35bfbdbbac460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 3/9] fix: do not follow NameAndType chains when validating
 method descriptors

The descriptor of a NameAndType entry must be a Utf8 entry. Following another
NameAndType entry recursed without bound on reference cycles (and deadlocked
with the threadsafe feature).
---
 src/constant_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 3721b02..487711a 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -384,7 +384,13 @@ impl<'a> ConstantPoolEntry<'a> {
 
     fn validate_method_descriptor(&self) -> Result<(), ParseError> {
         match self {
-            ConstantPoolEntry::NameAndType(_, y) => peel!(y).validate_method_descriptor(),
+            ConstantPoolEntry::NameAndType(_, y) => {
+                if is_method_descriptor(peel!(y).str()?) {
+                    Ok(())
+                } else {
+                    fail!("Invalid method descriptor")
+                }
+            }
             _ => {
                 if is_method_descriptor(self.str()?) {
                     Ok(())
-- 
2.43.0


From af31fe15ffe67d1c38dc0df58870ccb204a15894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 4/9] fix: release the entries of a constant pool that fails
 validation

Reference cycles between the entries were leaked, and dropping a long chain
of references could overflow the stack.
---
 src/constant_pool.rs | 52 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 487711a..4dde13c 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -81,6 +81,7 @@ trait CafeCellDeref<'a> {
         cp_index: usize,
         pool: &[CafeRc<ConstantPoolEntry<'a>>],
     ) -> Result<(), ParseError>;
+    fn unresolve(&self);
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError>;
 }
 
@@ -96,6 +97,14 @@ impl<'a> CafeCellDeref<'a> for CafeCell<ConstantPoolRef<'a>> {
         return self.lock().unwrap().deref_mut().resolve(cp_index, pool);
     }
 
+    fn unresolve(&self) {
+        #[cfg(not(feature = "threadsafe"))]
+        let mut cp_ref = self.borrow_mut();
+        #[cfg(feature = "threadsafe")]
+        let mut cp_ref = self.lock().unwrap();
+        *cp_ref = ConstantPoolRef::Unresolved(0);
+    }
+
     fn ensure_type(&self, allowed: ConstantPoolEntryTypes) -> Result<(), ParseError> {
         peel!(self).ensure_type(allowed)
     }
@@ -207,6 +216,37 @@ impl<'a> ConstantPoolEntry<'a> {
         }
     }
 
+    /// Drops the references to other entries.
+    fn unresolve(&self) {
+        match self {
+            ConstantPoolEntry::Zero
+            | ConstantPoolEntry::Utf8(_)
+            | ConstantPoolEntry::Utf8Bytes(_)
+            | ConstantPoolEntry::Integer(_)
+            | ConstantPoolEntry::Float(_)
+            | ConstantPoolEntry::Long(_)
+            | ConstantPoolEntry::Double(_)
+            | ConstantPoolEntry::Unused => (),
+
+            ConstantPoolEntry::ClassInfo(x)
+            | ConstantPoolEntry::String(x)
+            | ConstantPoolEntry::MethodHandle(_, x)
+            | ConstantPoolEntry::MethodType(x)
+            | ConstantPoolEntry::Dynamic(_, x)
+            | ConstantPoolEntry::InvokeDynamic(_, x)
+            | ConstantPoolEntry::ModuleInfo(x)
+            | ConstantPoolEntry::PackageInfo(x) => x.unresolve(),
+
+            ConstantPoolEntry::FieldRef(x, y)
+            | ConstantPoolEntry::MethodRef(x, y)
+            | ConstantPoolEntry::InterfaceMethodRef(x, y)
+            | ConstantPoolEntry::NameAndType(x, y) => {
+                x.unresolve();
+                y.unresolve();
+            }
+        }
+    }
+
     fn get_type(&self) -> ConstantPoolEntryTypes {
         match self {
             ConstantPoolEntry::Zero => ConstantPoolEntryTypes::ZERO,
@@ -700,8 +740,16 @@ pub(crate) fn read_constant_pool<'a>(
             constant_pool.push(CafeRc::new(ConstantPoolEntry::Unused));
         }
     }
-    resolve_constant_pool(&constant_pool)?;
-    validate_constant_pool(&constant_pool, major_version)?;
+    if let Err(e) = resolve_constant_pool(&constant_pool)
+        .and_then(|()| validate_constant_pool(&constant_pool, major_version))
+    {
+        // The entries of an invalid pool may refer to each other in cycles, which would
+        // never be freed, or in long chains, which would be freed recursively.
+        for cp_entry in &constant_pool {
+            cp_entry.unresolve();
+        }
+        return Err(e);
+    }
     Ok(constant_pool)
 }
 
-- 
2.43.0


From dffa23692ca37a0a2335a8adb9fc99f177c1e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 5/9] fix: limit the nesting depth of annotation values

Reading them recurses once per level, so a small malformed file could
overflow the stack.
---
 src/attributes.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index c320f57..170c7bd 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -357,6 +357,10 @@ pub struct AttributeInfo<'a> {
     pub data: AttributeData<'a>,
 }
 
+// Annotation values and attributes are read recursively; this limits how deeply they can be
+// nested in each other, so that malformed data cannot exhaust the stack.
+const MAX_NESTING_DEPTH: usize = 64;
+
 fn ensure_length(length: usize, expected: usize) -> Result<(), ParseError> {
     if length != expected {
         fail!("Unexpected length {}", length);
@@ -648,7 +652,11 @@ fn read_annotation_element_value<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<AnnotationElementValue<'a>, ParseError> {
+    if depth > MAX_NESTING_DEPTH {
+        fail!("Annotation values are nested too deeply");
+    }
     let value = match read_u1(bytes, ix)? as char {
         'B' => AnnotationElementValue::ByteConstant(read_cp_integer(bytes, ix, pool)?),
         'C' => AnnotationElementValue::CharConstant(read_cp_integer(bytes, ix, pool)?),
@@ -676,13 +684,15 @@ fn read_annotation_element_value<'a>(
             }
             AnnotationElementValue::ClassLiteral { class_name }
         }
-        '@' => AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool)?),
+        '@' => {
+            AnnotationElementValue::AnnotationValue(read_annotation(bytes, ix, pool, depth + 1)?)
+        }
         '[' => {
             let count = read_u2(bytes, ix)?;
             let mut array_values = Vec::with_capacity(count.into());
             for i in 0..count {
                 array_values.push(
-                    read_annotation_element_value(bytes, ix, pool)
+                    read_annotation_element_value(bytes, ix, pool, depth + 1)
                         .map_err(|e| err!(e, "array index {}", i))?,
                 );
             }
@@ -697,6 +707,7 @@ fn read_annotation<'a>(
     bytes: &'a [u8],
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    depth: usize,
 ) -> Result<Annotation<'a>, ParseError> {
     let type_descriptor = read_cp_utf8(bytes, ix, pool)
         .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
@@ -705,7 +716,7 @@ fn read_annotation<'a>(
     let mut elements = Vec::with_capacity(element_count.into());
     for i in 0..element_count {
         let name = read_cp_utf8(bytes, ix, pool).map_err(|e| err!(e, "name of element {}", i))?;
-        let value = read_annotation_element_value(bytes, ix, pool)
+        let value = read_annotation_element_value(bytes, ix, pool, depth)
             .map_err(|e| err!(e, "value of element {}", i))?;
         elements.push(AnnotationElement { name, value });
     }
@@ -724,7 +735,7 @@ fn read_annotation_data<'a>(
     let mut annotations = Vec::with_capacity(count.into());
     for i in 0..count {
         annotations
-            .push(read_annotation(bytes, ix, pool).map_err(|e| err!(e, "annotation {}", i))?);
+            .push(read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "annotation {}", i))?);
     }
     Ok(annotations)
 }
@@ -741,7 +752,7 @@ fn read_parameter_annotation_data<'a>(
         let mut annotations = Vec::with_capacity(annotation_count.into());
         for j in 0..annotation_count {
             annotations.push(
-                read_annotation(bytes, ix, pool)
+                read_annotation(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "annotation {} of parameter {}", j, i))?,
             );
         }
@@ -826,7 +837,7 @@ fn read_type_annotation_data<'a>(
             });
         }
         let annotation =
-            read_annotation(bytes, ix, pool).map_err(|e| err!(e, "type annotation {}", i))?;
+            read_annotation(bytes, ix, pool, 0).map_err(|e| err!(e, "type annotation {}", i))?;
         annotations.push(TypeAnnotation {
             target_type,
             target_path,
@@ -1183,7 +1194,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::RuntimeInvisibleTypeAnnotations(annotation_data)
             }
             "AnnotationDefault" => {
-                let element_value = read_annotation_element_value(bytes, ix, pool)
+                let element_value = read_annotation_element_value(bytes, ix, pool, 0)
                     .map_err(|e| err!(e, "AnnotationDefault attribute {}", i))?;
                 AttributeData::AnnotationDefault(element_value)
             }
-- 
2.43.0


From 6ddcdb82af363ac30ec01f32d9470b81cefea2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 6/9] fix: limit the nesting depth of Code and Record
 attributes

Their own attributes are read recursively, so a malformed file could overflow
the stack.
---
 src/attributes.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/attributes.rs b/src/attributes.rs
index 170c7bd..541171d 100644
--- a/src/attributes.rs
+++ b/src/attributes.rs
@@ -373,6 +373,7 @@ fn read_code_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<CodeData<'a>, ParseError> {
     let max_stack = read_u2(bytes, ix)?;
     let max_locals = read_u2(bytes, ix)?;
@@ -400,8 +401,8 @@ fn read_code_data<'a>(
             catch_type,
         });
     }
-    let code_attributes =
-        read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "code attribute"))?;
+    let code_attributes = read_nested_attributes(bytes, ix, pool, opts, depth + 1)
+        .map_err(|e| err!(e, "code attribute"))?;
     let bytecode = if opts.parse_bytecode {
         Some(ByteCode::from(code, pool).map_err(|e| err!(e, "bytecode"))?)
     } else {
@@ -1037,6 +1038,7 @@ fn read_record_data<'a>(
     ix: &mut usize,
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
+    depth: usize,
 ) -> Result<Vec<RecordComponentEntry<'a>>, ParseError> {
     let count = read_u2(bytes, ix)?;
     let mut components = Vec::with_capacity(count.into());
@@ -1048,8 +1050,8 @@ fn read_record_data<'a>(
         let descriptor = read_cp_utf8(bytes, ix, pool)
             .and_then(|descriptor| parse_field_descriptor(&descriptor, 0))
             .map_err(|e| err!(e, "descriptor of entry {}", i))?;
-        let attributes =
-            read_attributes(bytes, ix, pool, opts).map_err(|e| err!(e, "entry {}", i))?;
+        let attributes = read_nested_attributes(bytes, ix, pool, opts, depth + 1)
+            .map_err(|e| err!(e, "entry {}", i))?;
         components.push(RecordComponentEntry {
             name,
             descriptor,
@@ -1065,6 +1067,19 @@ pub(crate) fn read_attributes<'a>(
     pool: &[CafeRc<ConstantPoolEntry<'a>>],
     opts: &ParseOptions,
 ) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    read_nested_attributes(bytes, ix, pool, opts, 0)
+}
+
+fn read_nested_attributes<'a>(
+    bytes: &'a [u8],
+    ix: &mut usize,
+    pool: &[CafeRc<ConstantPoolEntry<'a>>],
+    opts: &ParseOptions,
+    depth: usize,
+) -> Result<Vec<AttributeInfo<'a>>, ParseError> {
+    if depth > MAX_NESTING_DEPTH {
+        fail!("Attributes are nested too deeply");
+    }
     let count = read_u2(bytes, ix)?;
     let mut attributes = Vec::with_capacity(count.into());
     for i in 0..count {
@@ -1087,7 +1102,7 @@ pub(crate) fn read_attributes<'a>(
                 )
             }
             "Code" => {
-                let code_data = read_code_data(bytes, ix, pool, opts)
+                let code_data = read_code_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Code attribute {}", i))?;
                 AttributeData::Code(code_data)
             }
@@ -1241,7 +1256,7 @@ pub(crate) fn read_attributes<'a>(
                 AttributeData::PermittedSubclasses(permitted_subclasses_data)
             }
             "Record" => {
-                let record_data = read_record_data(bytes, ix, pool, opts)
+                let record_data = read_record_data(bytes, ix, pool, opts, depth)
                     .map_err(|e| err!(e, "Record attribute {}", i))?;
                 AttributeData::Record(record_data)
             }
-- 
2.43.0


From 8d850dd8bfb48bef5453fe6d5d2c296e33d7f1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 7/9] fix: reject trailing data after field and method
 descriptors

Descriptors such as "Istuff" or "()Istuff" were accepted wherever the length
of the parsed descriptor was not compared to that of the string.
---
 src/descriptors.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index eadf427..fac324c 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -161,9 +161,22 @@ impl fmt::Display for FieldDescriptor<'_> {
     }
 }
 
+// Parse the field descriptor that makes up all the data from the given index on.
+// Returns an error if that is not exactly one field descriptor.
+pub(crate) fn parse_field_descriptor<'a>(
+    data: &Cow<'a, str>,
+    index: usize,
+) -> Result<FieldDescriptor<'a>, ParseError> {
+    let desc = parse_field_descriptor_prefix(data, index)?;
+    if data.len() != index + desc.byte_len() {
+        fail!("Unexpected data following field descriptor");
+    }
+    Ok(desc)
+}
+
 // Parse the field descriptor at the start of the given data, and ignores anything
 // following. Returns an error if the data don't start with a field descriptor.
-pub(crate) fn parse_field_descriptor<'a>(
+fn parse_field_descriptor_prefix<'a>(
     data: &Cow<'a, str>,
     index: usize,
 ) -> Result<FieldDescriptor<'a>, ParseError> {
@@ -275,7 +288,7 @@ pub(crate) fn parse_method_descriptor<'a>(
         if bytes.len() > index && bytes[index] == b')' {
             break;
         }
-        let parameter = parse_field_descriptor(data, index)?;
+        let parameter = parse_field_descriptor_prefix(data, index)?;
         index += parameter.byte_len();
         parameters.push(parameter);
     }
-- 
2.43.0


From c9fb41214e81e77d7cf32e61758509da456e7b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 8/9] fix: reject class names with an empty last segment

---
 src/descriptors.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/descriptors.rs b/src/descriptors.rs
index fac324c..0586558 100644
--- a/src/descriptors.rs
+++ b/src/descriptors.rs
@@ -20,6 +20,9 @@ fn parse_unqualified_segment(data: &str) -> Result<(&str, Option<char>), ParseEr
             _ => (),
         };
     }
+    if data.is_empty() {
+        fail!("Unexpected end of unqualified segment");
+    }
     Ok((data, None))
 }
 
-- 
2.43.0


From fa9d734982360843b8639998e0d1624d0fec3079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 9/9] fix: reject NameAndType entries whose descriptor is not
 valid UTF-8

They passed validation, and panicked when the constant pool was iterated or
an EnclosingMethod attribute referred to them.
---
 src/constant_pool.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/constant_pool.rs b/src/constant_pool.rs
index 4dde13c..0b6ec64 100644
--- a/src/constant_pool.rs
+++ b/src/constant_pool.rs
@@ -691,6 +691,12 @@ fn validate_constant_pool(
     for (i, cp_entry) in constant_pool.iter().enumerate() {
         cp_entry
             .validate(major_version)
+            .and_then(|()| match cp_entry.deref() {
+                // A NameAndType entry is exposed with its descriptor as a string, even if no
+                // other entry refers to it
+                ConstantPoolEntry::NameAndType(_, y) => peel!(y).str().map(|_| ()),
+                _ => Ok(()),
+            })
             .map_err(|e| err!(e, "constant pool entry {}", i))?;
     }
     Ok(())
-- 
2.43.0

