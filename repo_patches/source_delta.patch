From 4a40177c95c6cb5c5cfb6d10f6d6390955e793e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 01/32] fix: put the file identifier after the root offset

finish(root, Some(ident)) stored the identifier in bytes 0..4 and the root
offset in bytes 4..8, so such buffers could not be read by anyone.
---
 crates/planus/src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/planus/src/builder.rs b/crates/planus/src/builder.rs
index 4c111d7..933eca1 100644
--- a/crates/planus/src/builder.rs
+++ b/crates/planus/src/builder.rs
@@ -263,8 +263,9 @@ impl Builder {
                 8,
                 <Offset<T> as Primitive>::ALIGNMENT_MASK.max(self.alignment_mask),
             ) as u32;
-            self.write(&(offset - 4 - root.offset).to_le_bytes());
+            // The buffer is written from the back: the root offset comes first in the result
             self.write(&file_identifier);
+            self.write(&(offset - root.offset).to_le_bytes());
         } else {
             let offset = self.prepare_write(
                 4,
-- 
2.43.0


From 2641d7deb0993fc1258f90335c1f8cdea622697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 02/32] fix: keep the sign of float default values

The sign of a float literal was dropped, so a field declared with
"= -0.25" got the default 0.25.
---
 .../src/intermediate_language/translation.rs         | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 48d0049..1aa102a 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -364,7 +364,7 @@ impl<'a> Translator<'a> {
     fn translate_float(
         &self,
         _span: Span,
-        _is_negative: bool,
+        is_negative: bool,
         v: &str,
         type_: &ast::FloatType,
     ) -> Option<FloatLiteral> {
@@ -373,8 +373,14 @@ impl<'a> Translator<'a> {
         // TODO error messages
         // TODO: hex parsing and other formats
         Some(match type_ {
-            ast::FloatType::F32 => F32(v.parse().unwrap()),
-            ast::FloatType::F64 => F64(v.parse().unwrap()),
+            ast::FloatType::F32 => {
+                let v: f32 = v.parse().unwrap();
+                F32(if is_negative { -v } else { v })
+            }
+            ast::FloatType::F64 => {
+                let v: f64 = v.parse().unwrap();
+                F64(if is_negative { -v } else { v })
+            }
         })
     }
 
-- 
2.43.0


From 9799b4f2c045b015ec5ba3aa1275b33393ee0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 03/32] fix: align the elements of vectors that are written
 from arrays

The length and the elements were written as one block aligned for the
elements, so 8-byte aligned elements ended up at 4 modulo 8.
---
 crates/planus/src/impls/array.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/planus/src/impls/array.rs b/crates/planus/src/impls/array.rs
index 49d3024..5547d50 100644
--- a/crates/planus/src/impls/array.rs
+++ b/crates/planus/src/impls/array.rs
@@ -1,6 +1,6 @@
 use core::mem::MaybeUninit;
 
-use crate::{builder::Builder, traits::*, Cursor, Offset, UnionVectorOffset};
+use crate::{builder::Builder, traits::*, Offset, UnionVectorOffset};
 
 impl<T, P, const N: usize> WriteAsOffset<[P]> for [T; N]
 where
@@ -16,22 +16,24 @@ where
         //       https://github.com/rust-lang/rust/issues/80908
         let tmp =
             unsafe { (&tmp as *const [MaybeUninit<T::Value>; N] as *const [T::Value; N]).read() };
+        // The elements and the length are written separately, since it is the elements
+        // that have to be aligned to `P::ALIGNMENT`.
         unsafe {
             builder.write_with(
-                4 + T::STRIDE.checked_mul(self.len()).unwrap(),
-                P::ALIGNMENT_MASK.max(3),
+                T::STRIDE.checked_mul(self.len()).unwrap(),
+                P::ALIGNMENT_MASK.max(u32::ALIGNMENT_MASK),
                 |buffer_position, bytes| {
-                    let bytes = bytes.as_mut_ptr();
-
-                    (self.len() as u32).write(
-                        Cursor::new(&mut *(bytes as *mut [MaybeUninit<u8>; 4])),
-                        buffer_position,
-                    );
-
-                    T::write_values(&tmp, bytes.add(4), buffer_position - 4);
+                    T::write_values(&tmp, bytes.as_mut_ptr(), buffer_position);
                 },
             )
         };
+        // SAFETY: The inner closure always initializes the entire buffer, because it calls `copy_from_slice` with an array of len 4
+        unsafe {
+            builder.write_with(4, 0, |_buffer_position, bytes| {
+                let len = (self.len() as u32).to_le_bytes().map(MaybeUninit::new);
+                bytes.copy_from_slice(&len);
+            });
+        }
         builder.current_offset()
     }
 }
-- 
2.43.0


From a7e942e0b61a982a3aec5d3c7e367841d1e865ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 04/32] fix: report a union vector that lacks its tags or
 values instead of panicking

---
 crates/planus/src/table_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/planus/src/table_reader.rs b/crates/planus/src/table_reader.rs
index 981ca94..5a7e4e7 100644
--- a/crates/planus/src/table_reader.rs
+++ b/crates/planus/src/table_reader.rs
@@ -163,7 +163,8 @@ impl<'buf> Table<'buf> {
             let values_offset = u16::from_le_bytes(offset[2..].try_into().unwrap()) as usize;
             match (tags_offset, values_offset) {
                 (0, 0) => Ok(None),
-                (0, _) | (_, 0) => todo!(),
+                // One half of the union vector is there without the other one
+                (0, _) | (_, 0) => Err(make_error(ErrorKind::MissingRequired)),
                 (tags_offset, values_offset) => Ok(Some(
                     T::from_buffer(self.object, tags_offset, values_offset).map_err(make_error)?,
                 )),
-- 
2.43.0


From 2c5259895028be4cedad994735f93dce5ac12388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 05/32] fix: one byte per tag in the debug check of union
 vectors

---
 crates/planus/src/union_vectors/union_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/union_vectors/union_vector.rs b/crates/planus/src/union_vectors/union_vector.rs
index 82749cd..e677306 100644
--- a/crates/planus/src/union_vectors/union_vector.rs
+++ b/crates/planus/src/union_vectors/union_vector.rs
@@ -420,7 +420,7 @@ impl<'buf, T: VectorReadUnion<'buf>> UnionVectorIndex<'buf, T> for usize {
     #[inline]
     unsafe fn get_unchecked(self, vector: UnionVector<'buf, T>) -> Self::Output {
         debug_assert!(self < vector.len);
-        debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.tags.len());
+        debug_assert!(vector.len <= vector.tags.len());
         debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.values.len());
         let tag = *vector.tags.buffer.get_unchecked(self);
         <T as VectorReadUnion>::from_buffer(vector.values, tag, 4 * self)
-- 
2.43.0


From 76c7ca9ae586cc506eea6e5dfb1b459f6057bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 06/32] fix: read a union as absent if its tag is NONE and the
 vtable ends after the tag

---
 crates/planus/src/table_reader.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/planus/src/table_reader.rs b/crates/planus/src/table_reader.rs
index 5a7e4e7..30f6f21 100644
--- a/crates/planus/src/table_reader.rs
+++ b/crates/planus/src/table_reader.rs
@@ -114,14 +114,20 @@ impl<'buf> Table<'buf> {
             } else {
                 Ok(None)
             }
-        } else if self.vtable.len() <= 2 * vtable_offset {
-            Ok(None)
-        } else {
+        } else if let Some(offset) = self.vtable.get(2 * vtable_offset..2 * (vtable_offset + 1)) {
+            // The vtable ends after the tag. Writers are free to store the tag of a union
+            // that is not there and to leave out the empty slots at the end of a vtable
+            let tag_offset = u16::from_le_bytes(offset.try_into().unwrap()) as usize;
+            if tag_offset != 0 && matches!(u8::from_buffer(self.object, tag_offset), Ok(0)) {
+                return Ok(None);
+            }
             Err(make_error(ErrorKind::InvalidVtableLength {
                 // The slice does not contain the vtable or objects
                 // size, but they are included for the error message
                 length: self.vtable.len() as u16 + 4,
             }))
+        } else {
+            Ok(None)
         }
     }
 
-- 
2.43.0


From feda6267d9c66a6d9e1e42860b29c409d16f2794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 07/32] fix: draw the inspector in small windows without
 panicking

---
 crates/planus-inspector/src/lib.rs |  3 ++-
 crates/planus-inspector/src/ui.rs  | 10 +++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/planus-inspector/src/lib.rs b/crates/planus-inspector/src/lib.rs
index 7ae8af6..7be6fb1 100644
--- a/crates/planus-inspector/src/lib.rs
+++ b/crates/planus-inspector/src/lib.rs
@@ -73,7 +73,8 @@ impl HexViewState {
     }
 
     pub fn update_for_area(&mut self, buffer_len: usize, byte_index: usize, area: Rect) {
-        let remaining_width = area.width as usize - self.max_offset_hex_digits - 2;
+        let remaining_width =
+            (area.width as usize).saturating_sub(self.max_offset_hex_digits + 2);
         let eight_groups = (remaining_width + 1) / 25;
         self.line_size = eight_groups * 8;
 
diff --git a/crates/planus-inspector/src/ui.rs b/crates/planus-inspector/src/ui.rs
index 88f0101..99b1ecb 100644
--- a/crates/planus-inspector/src/ui.rs
+++ b/crates/planus-inspector/src/ui.rs
@@ -270,7 +270,11 @@ impl<'a> ViewState<'a> {
         let block = block(is_active, " Object view ", OUTER_AREA_STYLE);
         let inner_area = block.inner(area);
 
-        if let Some(info_view_data) = &mut self.info_view_data {
+        if let Some(info_view_data) = self
+            .info_view_data
+            .as_mut()
+            .filter(|_| inner_area.height != 0)
+        {
             if area.height <= 4 {
                 info_view_data.first_line_shown = info_view_data.first_line_shown.clamp(
                     (info_view_data.lines.index() + 1).saturating_sub(inner_area.height as usize),
@@ -644,7 +648,7 @@ impl Widget for ObjectViewWidget<'_> {
 
             inner_area.width = (inner_area.width as usize).min(selected_line.object_width) as u16;
             inner_area.height = (inner_area.height as usize)
-                .min(last_selected_line - first_selected_line + 1)
+                .min((last_selected_line + 1).saturating_sub(first_selected_line))
                 as u16;
 
             buf.set_style(inner_area, INNER_AREA_STYLE);
@@ -667,7 +671,7 @@ impl Widget for ObjectViewWidget<'_> {
                     area.left() + line.indentation as u16,
                     area.top() + line_index as u16,
                     &line.line,
-                    area.width as usize - line.indentation,
+                    (area.width as usize).saturating_sub(line.indentation),
                     style,
                 );
 
-- 
2.43.0


From 65b8214adfb85724137ddca534b3b6584a3d11af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 08/32] fix: going to an empty offset in the inspector panicked

---
 crates/planus-inspector/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/planus-inspector/src/lib.rs b/crates/planus-inspector/src/lib.rs
index 7be6fb1..1d54afe 100644
--- a/crates/planus-inspector/src/lib.rs
+++ b/crates/planus-inspector/src/lib.rs
@@ -635,7 +635,9 @@ impl<'a> Inspector<'a> {
                     input.push(c.to_ascii_lowercase());
                 }
                 KeyCode::Enter => {
-                    let addr = usize::from_str_radix(input, 16).unwrap();
+                    let Ok(addr) = usize::from_str_radix(input, 16) else {
+                        return None;
+                    };
                     self.view_stack.push(self.view_state.clone());
                     self.update_byte_pos(addr);
                     self.active_window = ActiveWindow::HexView;
-- 
2.43.0


From 4b684defca564ee3c30af46660a76ee6846a03f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 09/32] fix: typing a c into a dialog of the inspector changed
 the view behind it

---
 crates/planus-inspector/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus-inspector/src/lib.rs b/crates/planus-inspector/src/lib.rs
index 1d54afe..b1cebc0 100644
--- a/crates/planus-inspector/src/lib.rs
+++ b/crates/planus-inspector/src/lib.rs
@@ -449,7 +449,7 @@ impl<'a> Inspector<'a> {
                 self.should_quit = true;
                 false
             }
-            KeyCode::Char('c') => {
+            KeyCode::Char('c') if self.modal.is_none() => {
                 if let Some(info_view_data) = &mut self.view_state.info_view_data {
                     info_view_data.set_interpretation_index(
                         &self.object_mapping,
-- 
2.43.0


From cd3fc87e2be917ae2039d89c4ee318aea6de8d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 10/32] fix: inspecting buffers from a newer version of the
 schema panicked

---
 crates/planus-buffer-inspection/src/children.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/children.rs b/crates/planus-buffer-inspection/src/children.rs
index f0f6d50..1169f64 100644
--- a/crates/planus-buffer-inspection/src/children.rs
+++ b/crates/planus-buffer-inspection/src/children.rs
@@ -111,8 +111,12 @@ impl<'a> Children<'a> for TableObject {
             if offset == 0 {
                 continue;
             }
-            let (field_name, _field_decl, is_union_tag) =
-                decl.get_field_for_vtable_index(i as u32).unwrap();
+            let Some((field_name, _field_decl, is_union_tag)) =
+                decl.get_field_for_vtable_index(i as u32)
+            else {
+                // A field from a newer version of the schema
+                continue;
+            };
             let field_name = if is_union_tag {
                 Cow::Owned(format!("union_key[{field_name}]"))
             } else {
-- 
2.43.0


From a624cf4d902437f08609bf66324cc9c6b0ca33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 11/32] fix: inspecting a struct in a union panicked

---
 crates/planus-buffer-inspection/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index 92b1e9d..0c1284f 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -219,6 +219,7 @@ pub struct OffsetObject<'a> {
 pub enum OffsetObjectKind<'a> {
     VTable(DeclarationIndex),
     Table(DeclarationIndex),
+    Struct(DeclarationIndex),
     Vector(&'a Type),
     UnionVectorTags {
         declaration: DeclarationIndex,
@@ -383,6 +384,10 @@ impl<'a> OffsetObject<'a> {
                 offset,
                 declaration,
             })),
+            OffsetObjectKind::Struct(declaration) => Ok(Object::Struct(StructObject {
+                offset,
+                declaration,
+            })),
             OffsetObjectKind::Vector(type_) => Ok(Object::Vector(VectorObject { offset, type_ })),
             OffsetObjectKind::UnionVector {
                 declaration,
@@ -416,6 +421,9 @@ impl<'a> OffsetObject<'a> {
             OffsetObjectKind::Table(index) => {
                 Cow::Owned(format!("&table {}", declarations.get_declaration(index).0))
             }
+            OffsetObjectKind::Struct(index) => {
+                Cow::Owned(format!("&struct {}", declarations.get_declaration(index).0))
+            }
             OffsetObjectKind::Vector(type_) => {
                 Cow::Owned(format!("&[{}]", declarations.format_type_kind(&type_.kind)))
             }
@@ -637,6 +645,9 @@ impl UnionObject {
                     TypeKind::Table(index) => OffsetObjectKind::Table(*index),
                     TypeKind::Vector(type_) => OffsetObjectKind::Vector(type_),
                     TypeKind::String => OffsetObjectKind::String,
+                    TypeKind::SimpleType(SimpleType::Struct(index)) => {
+                        OffsetObjectKind::Struct(*index)
+                    }
                     TypeKind::Array(_, _) | TypeKind::SimpleType(_) | TypeKind::Union(_) => {
                         panic!("Inconsistent declarations")
                     }
-- 
2.43.0


From 9806e09731d94663f51c31baac5d7dad2f26ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 12/32] fix: inspecting an explicit NONE tag of a union
 underflowed

---
 crates/planus-buffer-inspection/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/lib.rs b/crates/planus-buffer-inspection/src/lib.rs
index 0c1284f..0f779ad 100644
--- a/crates/planus-buffer-inspection/src/lib.rs
+++ b/crates/planus-buffer-inspection/src/lib.rs
@@ -279,10 +279,8 @@ impl UnionTagObject {
         buffer: &InspectableFlatbuffer<'a>,
     ) -> Result<Option<(&'a str, &'a UnionVariant)>> {
         let decl = self.resolve_declaration(buffer);
-        if let Some((k, v)) = decl
-            .variants
-            .get_index(self.tag_value(buffer)? as usize - 1)
-        {
+        let index = (self.tag_value(buffer)? as usize).checked_sub(1);
+        if let Some((k, v)) = index.and_then(|index| decl.variants.get_index(index)) {
             Ok(Some((k, v)))
         } else {
             Ok(None)
@@ -670,7 +668,8 @@ impl UnionObject {
         buffer: &InspectableFlatbuffer<'a>,
     ) -> Result<Option<(&'a str, &'a UnionVariant)>> {
         let decl = self.resolve_declaration(buffer);
-        if let Some((k, v)) = decl.variants.get_index(self.tag as usize - 1) {
+        let index = (self.tag as usize).checked_sub(1);
+        if let Some((k, v)) = index.and_then(|index| decl.variants.get_index(index)) {
             Ok(Some((k, v)))
         } else {
             Ok(None)
-- 
2.43.0


From c5737e1dcaabdbd824e903eaaf79d65729207d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 13/32] fix: name the slots of a vtable by the schema in the
 inspector

The entries were named by counting the declared fields, which is wrong after
a union (it has two slots) and for tables with explicit ids; the name of a
slot beyond the fields of a table underflowed.
---
 crates/planus-buffer-inspection/src/children.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/children.rs b/crates/planus-buffer-inspection/src/children.rs
index 1169f64..03ccff2 100644
--- a/crates/planus-buffer-inspection/src/children.rs
+++ b/crates/planus-buffer-inspection/src/children.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 
-use planus_types::{ast::IntegerType, intermediate::TypeKind};
+use planus_types::ast::IntegerType;
 
 use crate::{
     object_info::DeclarationInfo, ArrayObject, BoolObject, ByteIndex, EnumObject, FloatObject,
@@ -70,18 +70,14 @@ impl<'a> Children<'a> for VTableObject {
                 1 => callback(Some(Cow::Borrowed("#table_size")), object),
                 n => {
                     let n = n - 2;
-                    if let Some((k, v)) = decl.fields.get_index(n) {
-                        if matches!(v.type_.kind, TypeKind::Union(_)) {
+                    if let Some((k, v, is_union_tag)) = decl.get_field_for_vtable_index(n as u32) {
+                        if is_union_tag {
                             callback(Some(Cow::Owned(format!("offset[union_tag[{k}]]"))), object)
+                        } else if v.type_.kind.is_type_with_tag() {
+                            callback(Some(Cow::Owned(format!("offset[union[{k}]]"))), object)
                         } else {
                             callback(Some(Cow::Owned(format!("offset[{k}]"))), object)
                         }
-                    } else if let Some((k, _v)) = decl
-                        .fields
-                        .get_index(n - 1)
-                        .filter(|(_k, v)| matches!(v.type_.kind, TypeKind::Union(_)))
-                    {
-                        callback(Some(Cow::Owned(format!("offset[union[{k}]]"))), object)
                     } else {
                         callback(Some(Cow::Owned(format!("offset[{n}]"))), object)
                     }
-- 
2.43.0


From 96f249da27c473fbc7cb9edc84cef24d07e9cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 14/32] fix: planus format panicked on a file it could not read

---
 crates/planus-translation/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/lib.rs b/crates/planus-translation/src/lib.rs
index 10c8779..543b870 100644
--- a/crates/planus-translation/src/lib.rs
+++ b/crates/planus-translation/src/lib.rs
@@ -25,7 +25,7 @@ pub use intermediate_language::{translate_files, translate_files_with_options};
 
 pub fn format_file(path: &impl AsRef<Path>, ignore_errors: bool) -> Option<String> {
     let mut ctx = ctx::Ctx::default();
-    let file_id = ctx.add_file(path, []).unwrap();
+    let file_id = ctx.add_file(path, [])?;
     if let Some(parsed) = ctx.parse_file(file_id) {
         if ctx.has_errors() && !ignore_errors {
             None
-- 
2.43.0


From 41fd589b400c60a8768c447d7b4e871f0ee9c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 15/32] fix: planus format panicked if standard output failed

---
 crates/planus-cli/src/app/format.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/planus-cli/src/app/format.rs b/crates/planus-cli/src/app/format.rs
index dba0f5e..3465f63 100644
--- a/crates/planus-cli/src/app/format.rs
+++ b/crates/planus-cli/src/app/format.rs
@@ -1,4 +1,4 @@
-use std::{path::PathBuf, process::ExitCode};
+use std::{io::Write, path::PathBuf, process::ExitCode};
 
 use clap::{Parser, ValueHint};
 use color_eyre::Result;
@@ -18,7 +18,9 @@ pub struct Command {
 impl Command {
     pub fn run(self, _options: super::AppOptions) -> Result<ExitCode> {
         if let Some(out) = format_file(&self.file, self.ignore_errors) {
-            println!("{out}");
+            let mut stdout = std::io::stdout().lock();
+            writeln!(stdout, "{out}")?;
+            stdout.flush()?;
             Ok(ExitCode::SUCCESS)
         } else {
             Ok(ExitCode::FAILURE)
-- 
2.43.0


From 88b8273b93998a670444fd2af71c8214559978e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 16/32] fix: planus generate-completions panicked if standard
 output failed

---
 crates/planus-cli/src/app/gen_completions.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/planus-cli/src/app/gen_completions.rs b/crates/planus-cli/src/app/gen_completions.rs
index 15a1e1f..be428ae 100644
--- a/crates/planus-cli/src/app/gen_completions.rs
+++ b/crates/planus-cli/src/app/gen_completions.rs
@@ -1,4 +1,4 @@
-use std::process::ExitCode;
+use std::{io::Write, process::ExitCode};
 
 use clap::{CommandFactory, Parser};
 use clap_complete::{generate, Shell};
@@ -15,12 +15,13 @@ pub struct Command {
 
 impl Command {
     pub fn run(self, _options: super::AppOptions) -> Result<ExitCode> {
-        generate(
-            self.shell,
-            &mut super::App::command(),
-            "planus",
-            &mut std::io::stdout(),
-        );
+        // generate() panics if its output fails, so only let it write to memory
+        let mut out = Vec::new();
+        generate(self.shell, &mut super::App::command(), "planus", &mut out);
+
+        let mut stdout = std::io::stdout().lock();
+        stdout.write_all(&out)?;
+        stdout.flush()?;
         Ok(ExitCode::SUCCESS)
     }
 }
-- 
2.43.0


From 54cbfcda51f47098f2ec55bfc6b81170ff0160d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 17/32] fix: planus rust hung if rustfmt filled its output
 before reading all of its input

---
 crates/planus-codegen/src/rust/mod.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index bc91782..0620a26 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -1077,16 +1077,22 @@ pub fn format_string(s: &str, max_width: Option<u64>) -> eyre::Result<String> {
         .spawn()
         .wrap_err("Unable to spawn rustfmt. Perhaps it is not installed?")?;
 
-    {
-        let child_stdin = child.stdin.as_mut().unwrap();
-        child_stdin
-            .write_all(s.as_bytes())
-            .wrap_err("Unable to write the file to rustfmt")?;
-    }
+    // The input is written from another thread, since rustfmt can fill its output pipes before
+    // it has read all of it.
+    let mut child_stdin = child.stdin.take().unwrap();
+    let (written, output) = std::thread::scope(|scope| {
+        let writer = std::thread::Builder::new()
+            .spawn_scoped(scope, move || child_stdin.write_all(s.as_bytes()))?;
+        let output = child.wait_with_output();
+        Ok::<_, std::io::Error>((writer.join().unwrap(), output))
+    })
+    .wrap_err("Unable to write the file to rustfmt")?;
 
-    let output = child
-        .wait_with_output()
-        .wrap_err("Unable to get the formatted file back from rustfmt")?;
+    let output = output.wrap_err("Unable to get the formatted file back from rustfmt")?;
+    // If rustfmt failed, then that is why it did not read its input.
+    if output.status.success() {
+        written.wrap_err("Unable to write the file to rustfmt")?;
+    }
 
     match (output.status.success(), output.stderr.is_empty()) {
         (true, true) => Ok(String::from_utf8_lossy(&output.stdout).into_owned()),
-- 
2.43.0


From d2644dbbdbfdb9429bcbbbfc13d5ddab07295ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 18/32] fix: overlapping declarations made planus panic

---
 .../src/intermediate_language/translation.rs                 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 1aa102a..202aaa1 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -88,6 +88,7 @@ impl<'a> Translator<'a> {
             .extend(schema.docstrings.locations.iter().cloned());
         namespace.docstrings.default_docstring = default_docstring_for_namespace(&namespace_path);
 
+        let mut added = Vec::new();
         for decl in schema.type_declarations.values() {
             let name = self.ctx.resolve_identifier(decl.identifier.value);
             match self
@@ -112,10 +113,12 @@ impl<'a> Translator<'a> {
                         .declaration_ids
                         .insert(name, DeclarationIndex(entry.index()));
                     entry.insert(decl.clone());
+                    added.push(decl);
                 }
             }
         }
-        for decl in schema.type_declarations.values() {
+        // There is one description for each entry of `ast_declarations`.
+        for decl in added {
             self.descriptions.push(match &decl.kind {
                 ast::TypeDeclarationKind::Table(_) => TypeDescription::Table,
                 ast::TypeDeclarationKind::Struct(_) => TypeDescription::Struct {
-- 
2.43.0


From a965cfd8ac2238799767fbcd49cae02bf05b01f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 19/32] fix: huge field ids made planus panic

---
 .../src/intermediate_language/translation.rs         | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 202aaa1..3226875 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -43,6 +43,9 @@ enum TypeDescription {
 //  3) do topological sort of all structs to get sizes
 //  4) use this information to update all sizes
 
+/// The size of a vtable, which is four bytes plus two for each field, has to fit in an `u16`
+const MAX_FIELD_ID: u32 = (u16::MAX as u32 - 4) / 2 - 1;
+
 fn default_docstring_for_namespace(path: &AbsolutePath) -> String {
     if path == &AbsolutePath::ROOT_PATH {
         "The root namespace".to_string()
@@ -912,7 +915,14 @@ impl<'a> Translator<'a> {
                         *is_negative,
                         value,
                     ) {
-                        if type_.kind.is_type_with_tag() {
+                        if new_index > MAX_FIELD_ID {
+                            self.ctx.emit_error(
+                                ErrorKind::MISC_SEMANTIC_ERROR,
+                                [Label::primary(current_file_id, *span)],
+                                Some(&format!("Ids of fields cannot exceed {MAX_FIELD_ID}")),
+                            );
+                            *has_id_error = true;
+                        } else if type_.kind.is_type_with_tag() {
                             if new_index > 0 {
                                 // The specification says that the id assignment for unions specifies the second
                                 // of the two IDs, while we use the first in our code
-- 
2.43.0


From 496221ca7b8126a9f97e1b7add388c93502a43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 20/32] fix: structs of 4 GiB and more made planus panic

---
 .../src/intermediate_language/translation.rs  | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 3226875..3566a03 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1369,11 +1369,25 @@ impl<'a> Translator<'a> {
             }};
         }
 
-        fn round_up(value: u32, alignment: u32) -> u32 {
-            value.div_ceil(alignment) * alignment
+        macro_rules! check_size {
+            ($size:expr) => {
+                match $size {
+                    Some(size) => size,
+                    None => {
+                        let (ast_decl, _ast_kind) = get_ast_decl!();
+                        self.ctx.emit_error(
+                            ErrorKind::MISC_SEMANTIC_ERROR,
+                            [Label::primary(ast_decl.file_id, ast_decl.definition_span)],
+                            Some("Struct is too big"),
+                        );
+                        parents.pop();
+                        return None;
+                    }
+                }
+            };
         }
 
-        let mut offset = 0;
+        let mut offset = 0u32;
         let mut max_alignment = 1;
         let mut max_alignment_span = None;
         for field_id in 0..get_struct_decl!().fields.len() {
@@ -1401,8 +1415,9 @@ impl<'a> Translator<'a> {
                 | SimpleType::Float(FloatType::F64) => (8, 8),
             };
 
+            offset = check_size!(offset.checked_next_multiple_of(cur_alignment));
+            let next_offset = check_size!(offset.checked_add(cur_size));
             let (_ast_decl, ast_kind) = get_ast_decl!();
-            offset = round_up(offset, cur_alignment);
             let decl = get_struct_decl!();
             decl.fields[field_id].offset = offset;
             decl.fields[field_id].size = cur_size;
@@ -1410,7 +1425,7 @@ impl<'a> Translator<'a> {
                 decl.fields[field_id - 1].padding_after_field =
                     offset - decl.fields[field_id - 1].offset - decl.fields[field_id - 1].size;
             }
-            offset += cur_size;
+            offset = next_offset;
             if max_alignment_span.is_none() || max_alignment < cur_alignment {
                 max_alignment_span = Some(ast_kind.fields[field_id].type_.span);
                 max_alignment = cur_alignment;
@@ -1443,7 +1458,7 @@ impl<'a> Translator<'a> {
             }
         }
 
-        offset = round_up(offset, max_alignment);
+        offset = check_size!(offset.checked_next_multiple_of(max_alignment));
         let decl = get_struct_decl!();
         if let Some((_, last_field)) = decl.fields.last_mut() {
             last_field.padding_after_field = offset - last_field.offset - last_field.size;
-- 
2.43.0


From cf047a84fd7713d5a505d6e87f19bd1a3e5f0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 21/32] fix: planus view left the terminal in raw mode or on
 the alternate screen if setting it up or restoring it failed

---
 crates/planus-inspector/src/app.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/crates/planus-inspector/src/app.rs b/crates/planus-inspector/src/app.rs
index d69277c..7fcd954 100644
--- a/crates/planus-inspector/src/app.rs
+++ b/crates/planus-inspector/src/app.rs
@@ -1,4 +1,4 @@
-use std::{io, ops::DerefMut, path::Path, process::ExitCode};
+use std::{io, path::Path, process::ExitCode};
 
 use color_eyre::Result;
 use crossterm::{
@@ -73,13 +73,6 @@ pub fn run_app(
         DeclarationIndex(root_table_index),
     );
 
-    // setup terminal
-    enable_raw_mode()?;
-    let mut stdout = io::stdout();
-    execute!(stdout, EnterAlternateScreen)?;
-    let backend = CrosstermBackend::new(stdout);
-    let mut terminal = Terminal::new(backend)?;
-
     // Fix terminal on panic while preserving the message
     let hook = std::panic::take_hook();
     std::panic::set_hook(Box::new(move |x| {
@@ -89,10 +82,11 @@ pub fn run_app(
     }));
 
     // create app and run it
-    let res = run_inspector(&mut terminal, inspector);
+    enable_raw_mode()?;
+    let res = run_in_alternate_screen(inspector);
 
     // Cleanup and display errors if any
-    cleanup_terminal(terminal.backend_mut().deref_mut())?;
+    cleanup_terminal(&mut io::stdout())?;
 
     if let Err(err) = res {
         println!("{err:?}");
@@ -102,8 +96,17 @@ pub fn run_app(
     }
 }
 
+fn run_in_alternate_screen(inspector: Inspector) -> io::Result<()> {
+    let mut stdout = io::stdout();
+    execute!(stdout, EnterAlternateScreen)?;
+    let backend = CrosstermBackend::new(stdout);
+    let mut terminal = Terminal::new(backend)?;
+    run_inspector(&mut terminal, inspector)
+}
+
 fn cleanup_terminal(stdout: &mut impl std::io::Write) -> Result<()> {
-    disable_raw_mode()?;
+    let raw_mode = disable_raw_mode();
     execute!(stdout, LeaveAlternateScreen, Show)?;
+    raw_mode?;
     Ok(())
 }
-- 
2.43.0


From 9aa53ae5504db885efa38cc7c301a99fc1708203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 22/32] fix: the preview in the inspector panicked if the
 selected line was above what it showed

---
 crates/planus-inspector/src/ui.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/planus-inspector/src/ui.rs b/crates/planus-inspector/src/ui.rs
index 99b1ecb..b80a1d6 100644
--- a/crates/planus-inspector/src/ui.rs
+++ b/crates/planus-inspector/src/ui.rs
@@ -638,17 +638,17 @@ impl Widget for ObjectViewWidget<'_> {
                 .start_line_index
                 .max(info_view_data.first_line_shown)
                 - info_view_data.first_line_shown;
-            let last_selected_line = selected_line
-                .end_line_index
-                .min(info_view_data.first_line_shown + area.height as usize - 1)
-                - info_view_data.first_line_shown;
+            // The selected line is not always visible, e.g. in previews
+            let selected_lines_end = (selected_line.end_line_index + 1)
+                .min(info_view_data.first_line_shown + area.height as usize)
+                .saturating_sub(info_view_data.first_line_shown);
             inner_area.y += first_selected_line as u16;
             inner_area.height =
                 (inner_area.height as usize).saturating_sub(first_selected_line) as u16;
 
             inner_area.width = (inner_area.width as usize).min(selected_line.object_width) as u16;
             inner_area.height = (inner_area.height as usize)
-                .min((last_selected_line + 1).saturating_sub(first_selected_line))
+                .min(selected_lines_end.saturating_sub(first_selected_line))
                 as u16;
 
             buf.set_style(inner_area, INNER_AREA_STYLE);
-- 
2.43.0


From a0f8337195fbde0fd821651ddf85ea7d588f5637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 23/32] fix: the interpretations dialog of the inspector drew
 below its frame, and panicked at the end of the screen

---
 crates/planus-inspector/src/ui.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/planus-inspector/src/ui.rs b/crates/planus-inspector/src/ui.rs
index b80a1d6..e6404d2 100644
--- a/crates/planus-inspector/src/ui.rs
+++ b/crates/planus-inspector/src/ui.rs
@@ -777,7 +777,19 @@ impl Widget for TreeStateWidget<'_, '_> {
             return;
         }
 
-        for (i, line) in self.tree_state.lines.iter().enumerate() {
+        // Scroll if there is no room for all lines, so that the selected one is visible
+        let height = area.height as usize;
+        let first_line = (self.tree_state.lines.index() + 1).saturating_sub(height);
+
+        for (row, (i, line)) in self
+            .tree_state
+            .lines
+            .iter()
+            .enumerate()
+            .skip(first_line)
+            .take(height)
+            .enumerate()
+        {
             let style = if i == self.tree_state.lines.index() {
                 CURSOR_STYLE
             } else {
@@ -792,7 +804,7 @@ impl Widget for TreeStateWidget<'_, '_> {
 
             buf.set_stringn(
                 area.left() + 2 * line.indent_level as u16,
-                area.top() + i as u16,
+                area.top() + row as u16,
                 format!("{}{suffix}", line.node.text),
                 area.width as usize - line.indent_level,
                 style,
-- 
2.43.0


From e0589e6273271437efd793b84234c8baa94d2bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 24/32] fix: numbers with separators were dropped silently, and
 hex numbers as default of a float field made planus panic

---
 .../src/intermediate_language/translation.rs  | 44 +++++++++++++------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 3566a03..c47a11c 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -333,6 +333,8 @@ impl<'a> Translator<'a> {
                 b'0'..=b'9' => c - b'0',
                 b'a'..=b'f' if base == 16 => c - b'a' + 0xa,
                 b'A'..=b'F' if base == 16 => c - b'A' + 0xa,
+                // Integers can be written with separators
+                b'_' => continue,
                 _ => {
                     // TODO error message
                     // Can it even happen?
@@ -369,25 +371,39 @@ impl<'a> Translator<'a> {
 
     fn translate_float(
         &self,
-        _span: Span,
+        file_id: FileId,
+        span: Span,
         is_negative: bool,
         v: &str,
         type_: &ast::FloatType,
     ) -> Option<FloatLiteral> {
         use FloatLiteral::*;
 
-        // TODO error messages
-        // TODO: hex parsing and other formats
-        Some(match type_ {
-            ast::FloatType::F32 => {
-                let v: f32 = v.parse().unwrap();
-                F32(if is_negative { -v } else { v })
-            }
-            ast::FloatType::F64 => {
-                let v: f64 = v.parse().unwrap();
-                F64(if is_negative { -v } else { v })
-            }
-        })
+        // Integers can be written with separators
+        let digits = v.replace('_', "");
+        let hex = digits
+            .strip_prefix("0x")
+            .and_then(|v| u64::from_str_radix(v, 16).ok());
+
+        // TODO: hex floats and other formats
+        let result = match type_ {
+            ast::FloatType::F32 => hex
+                .map(|v| v as f32)
+                .or_else(|| digits.parse().ok())
+                .map(|v| F32(if is_negative { -v } else { v })),
+            ast::FloatType::F64 => hex
+                .map(|v| v as f64)
+                .or_else(|| digits.parse().ok())
+                .map(|v| F64(if is_negative { -v } else { v })),
+        };
+        if result.is_none() {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_PARSE_ERROR,
+                [Label::primary(file_id, span)],
+                Some("Floating point literals of this form are not supported"),
+            );
+        }
+        result
     }
 
     fn translate_literal(
@@ -451,7 +467,7 @@ impl<'a> Translator<'a> {
                 | LiteralKind::Integer { is_negative, value },
                 SimpleType(Float(type_)),
             ) => self
-                .translate_float(literal.span, *is_negative, value, type_)
+                .translate_float(current_file_id, literal.span, *is_negative, value, type_)
                 .map(Literal::Float),
             (LiteralKind::String(s), String) => Some(Literal::String(s.clone())),
             (LiteralKind::List(literals), Vector(type_)) => {
-- 
2.43.0


From 87e37281d8776cd60e002733f825bccd1fcdbd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 25/32] fix: nan and inf as default of a float field made code
 that does not compile

---
 crates/planus-codegen/src/rust/mod.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index 0620a26..1f5adff 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -10,7 +10,9 @@ use eyre::Context;
 use heck::{ToSnakeCase, ToUpperCamelCase};
 use planus_types::{
     ast::{FloatType, IntegerType},
-    intermediate::{self, AbsolutePath, AssignMode, DeclarationIndex, Literal, TableFieldTagKind},
+    intermediate::{
+        self, AbsolutePath, AssignMode, DeclarationIndex, FloatLiteral, Literal, TableFieldTagKind,
+    },
 };
 
 use super::backend::{
@@ -863,7 +865,8 @@ impl Backend for RustBackend {
                         read_type = vtable_type.clone();
                         owned_type = vtable_type.clone();
                         create_trait = format!("WriteAsDefault<{owned_type}, {owned_type}>");
-                        impl_default_code = format!("{lit}").into();
+                        let lit = float_literal(lit);
+                        impl_default_code = lit.clone().into();
                         serialize_default = Some(format!("&{lit}").into());
                         deserialize_default = Some(impl_default_code.clone());
                     }
@@ -1045,6 +1048,23 @@ fn float_type(type_: &FloatType) -> &'static str {
     }
 }
 
+fn float_literal(lit: &FloatLiteral) -> String {
+    let (type_, value) = match *lit {
+        FloatLiteral::F32(v) => ("f32", f64::from(v)),
+        FloatLiteral::F64(v) => ("f64", v),
+    };
+    // These have no literals in rust
+    if value.is_nan() {
+        format!("{type_}::NAN")
+    } else if value == f64::INFINITY {
+        format!("{type_}::INFINITY")
+    } else if value == f64::NEG_INFINITY {
+        format!("{type_}::NEG_INFINITY")
+    } else {
+        lit.to_string()
+    }
+}
+
 pub fn format_string(s: &str, max_width: Option<u64>) -> eyre::Result<String> {
     // Probe rustfmt up front so a missing binary yields a clear error.
     let version_status = Command::new("rustfmt")
-- 
2.43.0


From 196648d42622d5f38284fed15c784fcd126c3658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 26/32] fix: declarations and namespaces whose names became the
 same name in rust made code that does not compile

---
 crates/planus-codegen/src/backend.rs          |  2 +-
 .../planus-codegen/src/backend_translation.rs | 28 +++++++++++++------
 crates/planus-codegen/src/rust/mod.rs         |  3 +-
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/crates/planus-codegen/src/backend.rs b/crates/planus-codegen/src/backend.rs
index b30dae7..becda27 100644
--- a/crates/planus-codegen/src/backend.rs
+++ b/crates/planus-codegen/src/backend.rs
@@ -21,7 +21,7 @@ pub struct NamespaceNames<'a, 'keywords> {
 
 pub struct DeclarationNames<'a, 'keywords> {
     pub _global_names: &'a mut Names<'keywords>,
-    pub _namespace_names: &'a mut Names<'keywords>,
+    pub namespace_names: &'a mut Names<'keywords>,
     pub declaration_names: &'a mut Names<'keywords>,
 }
 
diff --git a/crates/planus-codegen/src/backend_translation.rs b/crates/planus-codegen/src/backend_translation.rs
index bd36a66..792d6b4 100644
--- a/crates/planus-codegen/src/backend_translation.rs
+++ b/crates/planus-codegen/src/backend_translation.rs
@@ -418,12 +418,22 @@ pub fn run_backend<B: ?Sized + Backend>(
     let translated_namespaces = declarations
         .namespaces
         .iter()
-        .zip(&mut namespace_names)
-        .map(|((namespace_name, namespace), namespace_names)| {
+        .enumerate()
+        .map(|(namespace_id, (namespace_name, namespace))| {
+            // The name of a namespace belongs to its parent
+            let parent_id = namespace_name
+                .0
+                .split_last()
+                .and_then(|(_, parent)| {
+                    declarations
+                        .namespaces
+                        .get_index_of(&AbsolutePath(parent.to_vec()))
+                })
+                .unwrap_or(namespace_id);
             backend.generate_namespace(
                 &mut NamespaceNames {
                     _global_names: global_names,
-                    namespace_names,
+                    namespace_names: &mut namespace_names[parent_id],
                 },
                 namespace_name,
                 namespace,
@@ -442,7 +452,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_table(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -456,7 +466,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_struct(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -470,7 +480,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_enum(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -484,7 +494,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_union(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -528,7 +538,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                                 &mut DeclarationTranslationContext {
                                     declaration_names: DeclarationNames {
                                         _global_names: global_names,
-                                        _namespace_names: namespace_names,
+                                        namespace_names,
                                         declaration_names,
                                     },
                                     translated_namespaces: &translated_namespaces,
@@ -557,7 +567,7 @@ pub fn run_backend<B: ?Sized + Backend>(
         let mut translation_context = DeclarationTranslationContext {
             declaration_names: DeclarationNames {
                 _global_names: global_names,
-                _namespace_names: namespace_names,
+                namespace_names,
                 declaration_names,
             },
             translated_namespaces: &translated_namespaces,
diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index 1f5adff..ee8f1a5 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -130,9 +130,10 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 }
 
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
+    // Types live next to the other types in their namespace
     let name = path.to_upper_camel_case().into();
     declaration_names
-        .declaration_names
+        .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
         .into()
 }
-- 
2.43.0


From 73fb620297f8ff3a6ce162d3e15b624f7ae651fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 27/32] fix: variants of a union were lost if their types had
 the same name in different namespaces

---
 .../src/intermediate_language/translation.rs  | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index c47a11c..d5135cf 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1274,6 +1274,13 @@ impl<'a> Translator<'a> {
             );
         }
 
+        let mut names: HashSet<String> = decl
+            .variants
+            .values()
+            .filter_map(|variant| variant.ident.as_ref())
+            .map(|ident| self.ctx.resolve_identifier(ident.value))
+            .collect();
+
         let variants = decl
             .variants
             .values()
@@ -1289,10 +1296,22 @@ impl<'a> Translator<'a> {
                 let name = if let Some(ident) = variant.ident {
                     self.ctx.resolve_identifier(ident.value)
                 } else {
-                    // TODO: make sure this is unique
                     match &variant.type_.kind {
                         ast::TypeKind::Path(p) => {
-                            self.ctx.resolve_identifier(*p.parts.last().unwrap())
+                            let parts: Vec<String> = p
+                                .parts
+                                .iter()
+                                .map(|part| self.ctx.resolve_identifier(*part))
+                                .collect();
+                            let mut name = parts.last().unwrap().clone();
+                            if names.contains(&name) {
+                                // Types in different namespaces can have the same name
+                                name = parts.join("_");
+                            }
+                            while !names.insert(name.clone()) {
+                                name.push('_');
+                            }
+                            name
                         }
                         _ => String::default(),
                     }
-- 
2.43.0


From d8e03b2b1048b6a4ce3494eb2fd54a5990902868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 28/32] fix: tables with more than 65535 bytes of inline data
 were written with wrong offsets

---
 crates/planus/src/table_writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/planus/src/table_writer.rs b/crates/planus/src/table_writer.rs
index 4293a93..089e12f 100644
--- a/crates/planus/src/table_writer.rs
+++ b/crates/planus/src/table_writer.rs
@@ -53,6 +53,11 @@ impl<const VTABLE_MAX_BYTES: usize> TableWriter<VTABLE_MAX_BYTES> {
             0,
             (self.vtable_size as u16).to_le_bytes(),
         );
+        // The offsets in a vtable have 16 bits
+        assert!(
+            self.object_size <= u16::MAX as usize,
+            "Tables cannot have more than 65535 bytes of inline data"
+        );
         write_array(
             &mut self.vtable_buffer,
             2,
-- 
2.43.0


From 1a0d4b86201950cc15157b1a8fecef0cfb5d0fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 29/32] fix: carriage returns in doc comments, and line breaks
 in names of files, made code that does not compile

---
 crates/planus-types/src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/planus-types/src/ast.rs b/crates/planus-types/src/ast.rs
index 42f1ac5..4961358 100644
--- a/crates/planus-types/src/ast.rs
+++ b/crates/planus-types/src/ast.rs
@@ -599,5 +599,7 @@ impl Docstrings {
                     .into_iter()
                     .flatten(),
             )
+            // A line of a file that is not from Unix can have further line breaks
+            .flat_map(|line| line.strip_suffix('\r').unwrap_or(line).split(['\r', '\n']))
     }
 }
-- 
2.43.0


From 398860c244910f4c5fa07ce94bf9e859221925e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 30/32] fix: planus view overflowed the stack on deeply nested
 buffers

---
 .../src/object_mapping.rs                     | 80 ++++++++++++-------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/crates/planus-buffer-inspection/src/object_mapping.rs b/crates/planus-buffer-inspection/src/object_mapping.rs
index 55f26bb..d66e3dc 100644
--- a/crates/planus-buffer-inspection/src/object_mapping.rs
+++ b/crates/planus-buffer-inspection/src/object_mapping.rs
@@ -1,4 +1,4 @@
-use std::borrow::Cow;
+use std::{borrow::Cow, collections::HashSet};
 
 use indexmap::IndexMap;
 use planus_types::intermediate::{DeclarationIndex, DeclarationKind};
@@ -270,41 +270,33 @@ impl<'a> ObjectMapping<'a> {
 
 #[derive(Default)]
 struct ObjectMappingBuilder<'a> {
+    started: HashSet<Object<'a>>,
     root_objects: IndexMap<Object<'a>, (ByteIndex, ByteIndex)>,
     root_intervals: Vec<rust_lapper::Interval<ByteIndex, ObjectIndex>>,
 }
 
-impl<'a> ObjectMappingBuilder<'a> {
-    fn process_root_object(&mut self, current: Object<'a>, buffer: &InspectableFlatbuffer<'a>) {
-        if self.root_objects.contains_key(&current) {
-            return;
-        }
+struct PendingObject<'a> {
+    object: Object<'a>,
+    range: (ByteIndex, ByteIndex),
+    targets: std::vec::IntoIter<Object<'a>>,
+}
 
-        if let Object::Offset(offset_object) = current {
-            if let Ok(inner) = offset_object.follow_offset(buffer) {
-                self.process_root_object(inner, buffer);
-            }
+impl<'a> PendingObject<'a> {
+    fn new(object: Object<'a>, buffer: &InspectableFlatbuffer<'a>) -> Self {
+        let mut range = object.byterange(buffer);
+        let mut targets = Vec::new();
+        Self::process_child_object(object, &mut range, &mut targets, buffer);
+        Self {
+            object,
+            range,
+            targets: targets.into_iter(),
         }
-
-        let mut range = current.byterange(buffer);
-
-        current.children(buffer, |child_name, child| {
-            std::mem::drop(child_name);
-            self.process_child_object(child, &mut range, buffer);
-        });
-        let (index, old) = self.root_objects.insert_full(current, range);
-        assert!(old.is_none());
-        self.root_intervals.push(rust_lapper::Interval {
-            start: range.0,
-            stop: range.1,
-            val: index,
-        });
     }
 
     fn process_child_object(
-        &mut self,
         current: Object<'a>,
-        range: &mut (u32, u32),
+        range: &mut (ByteIndex, ByteIndex),
+        targets: &mut Vec<Object<'a>>,
         buffer: &InspectableFlatbuffer<'a>,
     ) {
         let crange = current.byterange(buffer);
@@ -313,13 +305,45 @@ impl<'a> ObjectMappingBuilder<'a> {
 
         if let Object::Offset(offset_object) = current {
             if let Ok(inner) = offset_object.follow_offset(buffer) {
-                self.process_root_object(inner, buffer);
+                targets.push(inner);
             }
         }
 
         current.children(buffer, |child_name, child| {
             std::mem::drop(child_name);
-            self.process_child_object(child, range, buffer);
+            Self::process_child_object(child, range, targets, buffer);
         });
     }
 }
+
+impl<'a> ObjectMappingBuilder<'a> {
+    fn process_root_object(&mut self, root: Object<'a>, buffer: &InspectableFlatbuffer<'a>) {
+        // Objects can be nested so deeply that following all offsets recursively would
+        // overflow the stack
+        let mut pending = Vec::new();
+        let mut next = Some(root);
+
+        loop {
+            if let Some(object) = next.take() {
+                if self.started.insert(object) {
+                    pending.push(PendingObject::new(object, buffer));
+                }
+            }
+
+            let Some(last) = pending.last_mut() else {
+                break;
+            };
+            next = last.targets.next();
+            if next.is_none() {
+                let (index, old) = self.root_objects.insert_full(last.object, last.range);
+                assert!(old.is_none());
+                self.root_intervals.push(rust_lapper::Interval {
+                    start: last.range.0,
+                    stop: last.range.1,
+                    val: index,
+                });
+                pending.pop();
+            }
+        }
+    }
+}
-- 
2.43.0


From d2b0c833d11858e03a9b9ccf0240045b7551a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 31/32] fix: buffers beyond 4 GiB, and tables more than 2 GiB
 away from a shared vtable, were written with wrong offsets

---
 crates/planus/src/builder.rs      | 9 ++++++++-
 crates/planus/src/table_writer.rs | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/planus/src/builder.rs b/crates/planus/src/builder.rs
index 933eca1..8350e6b 100644
--- a/crates/planus/src/builder.rs
+++ b/crates/planus/src/builder.rs
@@ -151,6 +151,13 @@ impl Builder {
 
         let delayed_bytes = self.delayed_bytes.wrapping_sub(size) & self.alignment_mask;
         let needed_padding = delayed_bytes & alignment_mask;
+        // The offsets in a buffer have 32 bits
+        let offset = self
+            .len()
+            .checked_add(needed_padding)
+            .and_then(|offset| offset.checked_add(size))
+            .filter(|offset| u32::try_from(*offset).is_ok())
+            .expect("Buffers cannot have more than 4 GiB of data");
         self.delayed_bytes = delayed_bytes.wrapping_sub(needed_padding);
         self.alignment_mask |= alignment_mask;
         self.inner.reserve(size.wrapping_add(needed_padding));
@@ -165,7 +172,7 @@ impl Builder {
             self.missing_bytes = size;
         }
 
-        self.len() + size
+        offset
     }
 
     #[doc(hidden)]
diff --git a/crates/planus/src/table_writer.rs b/crates/planus/src/table_writer.rs
index 089e12f..31d457a 100644
--- a/crates/planus/src/table_writer.rs
+++ b/crates/planus/src/table_writer.rs
@@ -74,7 +74,8 @@ impl<const VTABLE_MAX_BYTES: usize> TableWriter<VTABLE_MAX_BYTES> {
             },
         );
         builder.write_with(4, 0, |buffer_position, bytes| {
-            let len = (vtable_offset as i32 - buffer_position as i32)
+            let len = i32::try_from(vtable_offset as i64 - i64::from(buffer_position))
+                .expect("Tables cannot be more than 2 GiB away from their vtables")
                 .to_le_bytes()
                 .map(MaybeUninit::new);
             bytes.copy_from_slice(&len);
-- 
2.43.0


From 590198cf0d85a525bbc6b3405d0baa59feebc6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:48 +0000
Subject: [PATCH 32/32] fix: unions with more than 255 variants made code that
 does not compile

---
 .../src/intermediate_language/translation.rs        | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index d5135cf..bec10b4 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -46,6 +46,9 @@ enum TypeDescription {
 /// The size of a vtable, which is four bytes plus two for each field, has to fit in an `u16`
 const MAX_FIELD_ID: u32 = (u16::MAX as u32 - 4) / 2 - 1;
 
+/// The tag of a union is an `u8`, and zero stands for the absence of a value
+const MAX_UNION_VARIANTS: usize = u8::MAX as usize;
+
 fn default_docstring_for_namespace(path: &AbsolutePath) -> String {
     if path == &AbsolutePath::ROOT_PATH {
         "The root namespace".to_string()
@@ -1274,6 +1277,16 @@ impl<'a> Translator<'a> {
             );
         }
 
+        if let Some(variant) = decl.variants.values().nth(MAX_UNION_VARIANTS) {
+            self.ctx.emit_error(
+                ErrorKind::MISC_SEMANTIC_ERROR,
+                [Label::primary(current_file_id, variant.span)],
+                Some(&format!(
+                    "Unions cannot have more than {MAX_UNION_VARIANTS} variants"
+                )),
+            );
+        }
+
         let mut names: HashSet<String> = decl
             .variants
             .values()
-- 
2.43.0

