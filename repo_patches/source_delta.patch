From a21c372136e21f97ab32bad80f10d426cb1d26f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 01/42] fix: generate the default case of choices

The field of a choice's default case was silently dropped: the visitor never
visited it, and the generator could not have generated compilable code for it.
---
 .../zserio-rs-build/src/internal/generator/zchoice.rs  |  6 +++---
 crates/zserio-rs-build/src/internal/visitor.rs         | 10 +++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 826b178..66f5e1f 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -180,7 +180,7 @@ pub fn generate_choice_match_construct(
         code_gen_fn.line("},");
     }
     if let Some(default_case) = &zchoice.default_case {
-        code_gen_fn.line("_ => (");
+        code_gen_fn.line("_ => {");
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
@@ -189,7 +189,7 @@ pub fn generate_choice_match_construct(
                 type_generator,
                 code_gen_fn,
                 &field.borrow(),
-                false,
+                packed,
                 default_field.is_packable,
             );
             f(
@@ -200,7 +200,7 @@ pub fn generate_choice_match_construct(
                 packed,
             );
         }
-        code_gen_fn.line("),");
+        code_gen_fn.line("},");
     } else {
         code_gen_fn.line("_ => (),");
     }
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index b8cc798..7e95aa9 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -548,7 +548,15 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             };
         }
 
-        // TODO visit the default type
+        // Visit the default case, if there is one.
+        if let Some(choice_default_ctx) = ctx.choiceDefault() {
+            match self.visit_choiceDefault(&choice_default_ctx) {
+                ZserioTreeReturnType::ChoiceCase(choice_case) => {
+                    choice.default_case = Some(choice_case)
+                }
+                _ => panic!("choice default case type mismatch"),
+            };
+        }
 
         // Visit all functions defined for this choice.
         for function_ctx in ctx.functionDefinition_all() {
-- 
2.43.0


From 1681441675601bd64988f0c70c1a56a8cbcee8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 02/42] fix: borrow optional bytes and extern fields when
 encoding

Neither type is Copy, so generated code for optional bytes or extern fields did not compile.
---
 .../zserio-rs-build/src/internal/generator/encode.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 1f9775c..7250669 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -115,11 +115,11 @@ pub fn requires_borrowing(field: &Field, native_type: &FundamentalZserioTypeRefe
     if !native_type.fundamental_type.is_builtin {
         return true;
     }
-    // for the native core types, strings make sense to pass by reference.
-    if native_type.fundamental_type.name == "string" {
-        return true;
-    }
-    false
+    // for the native core types, strings and buffers make sense to pass by reference.
+    matches!(
+        native_type.fundamental_type.name.as_str(),
+        "string" | "bytes" | "extern"
+    )
 }
 
 pub fn encode_field(
-- 
2.43.0


From bc88a951919e5861ce1ceb0ba6de7c707ccf98cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 03/42] fix: allow enumeration items that are called ERROR

Self::Error was ambiguous in the generated TryFrom implementation.
---
 crates/zserio-rs-build/src/internal/generator/zenum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zenum.rs b/crates/zserio-rs-build/src/internal/generator/zenum.rs
index 7ad0bf0..b41ed7a 100644
--- a/crates/zserio-rs-build/src/internal/generator/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zenum.rs
@@ -65,7 +65,7 @@ pub fn generate_enum(
     tryfrom_impl.associate_type("Error", "zserio::ZserioError");
     let from_int_fn = tryfrom_impl.new_fn("try_from");
     from_int_fn.arg("v", "i64");
-    from_int_fn.ret("Result<Self, Self::Error>");
+    from_int_fn.ret("Result<Self, <Self as TryFrom<i64>>::Error>");
     from_int_fn.line("match v {");
 
     let mut enum_value = 0;
-- 
2.43.0


From 3cbe4c310479d059b65a06a79ecac0da7e3b5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 04/42] fix: encode and decode the minimum value of varint

---
 crates/zserio/src/ztype/varint_bitsize.rs | 10 ++++++----
 crates/zserio/src/ztype/varint_decode.rs  |  4 ++++
 crates/zserio/src/ztype/varint_encode.rs  |  5 +++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/varint_bitsize.rs b/crates/zserio/src/ztype/varint_bitsize.rs
index bafd68f..bfeea72 100644
--- a/crates/zserio/src/ztype/varint_bitsize.rs
+++ b/crates/zserio/src/ztype/varint_bitsize.rs
@@ -16,12 +16,14 @@ pub fn varint_bitsize(v: i64) -> Result<u8> {
     signed_bitsize(v, 9)
 }
 
-pub fn signed_bitsize(mut v: i64, max_bytes: u8) -> Result<u8> {
-    if v < 0 {
-        v = -v
+pub fn signed_bitsize(v: i64, max_bytes: u8) -> Result<u8> {
+    if v == i64::MIN && max_bytes == 9 {
+        // varint stores the minimum value as a negative zero.
+        return Ok(8);
     }
+    let v = v.unsigned_abs();
 
-    let mut max: i64 = (1 << 6) - 1;
+    let mut max: u64 = (1 << 6) - 1;
 
     let mut bytes = 1;
     loop {
diff --git a/crates/zserio/src/ztype/varint_decode.rs b/crates/zserio/src/ztype/varint_decode.rs
index 3dbd4fb..80d45f8 100644
--- a/crates/zserio/src/ztype/varint_decode.rs
+++ b/crates/zserio/src/ztype/varint_decode.rs
@@ -37,6 +37,10 @@ fn read_sized_int(reader: &mut BitReader, bit_length: u8) -> Result<i64> {
         value = (value << 8) | (b as i64);
     }
     if is_negative {
+        if value == 0 && bit_length == 9 {
+            // varint stores the minimum value as a negative zero.
+            return Ok(i64::MIN);
+        }
         value = -value;
     }
     Ok(value)
diff --git a/crates/zserio/src/ztype/varint_encode.rs b/crates/zserio/src/ztype/varint_encode.rs
index 8f590de..af0be7f 100644
--- a/crates/zserio/src/ztype/varint_encode.rs
+++ b/crates/zserio/src/ztype/varint_encode.rs
@@ -19,10 +19,11 @@ pub fn write_varint(writer: &mut BitWriter, v: i64) -> Result<()> {
 }
 
 pub fn write_varint_type(writer: &mut BitWriter, v: i64, max_bytes: u8) -> Result<()> {
-    let abs_value = if v < 0 { -v as u64 } else { v as u64 };
-
     let needed_bytes = signed_bitsize(v, max_bytes)? / 8;
 
+    // varint stores the minimum value as a negative zero.
+    let abs_value = if v == i64::MIN { 0 } else { v.unsigned_abs() };
+
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
         let mut b: u64 = 0x0;
-- 
2.43.0


From 2c7986df355de710e141ad9762edd8f4261dab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 05/42] fix: leave packed arrays of types without delta packing
 unpacked

---
 .../src/internal/generator/packed_contexts.rs              | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs b/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
index 75ed0e8..b8fe795 100644
--- a/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
+++ b/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
@@ -37,12 +37,10 @@ impl FieldDetails {
 
         // confirm if the field can be packed. even in packed mode, some fields
         // may not use packing, for example if they are offset fields.
-        // arrays can always be packed.
         let is_packable = is_delta_packable(
             symbol_scope,
             field.field_type.as_ref(),
             field.is_offset_field,
-            field.array.is_some(),
         );
         FieldDetails {
             field: field_rc.clone(),
@@ -74,15 +72,10 @@ pub fn is_delta_packable(
     model_scope: &ModelScope,
     zserio_type: &TypeReference,
     is_offset_field: bool,
-    is_array: bool,
 ) -> bool {
     if is_offset_field {
         return false;
     }
-    if is_array {
-        // arrays can always be packed, unless overridden by being used as offsets.
-        return true;
-    }
     let fundamental_type = get_fundamental_type(zserio_type, model_scope);
     if fundamental_type.fundamental_type.is_builtin {
         return matches!(
-- 
2.43.0


From 7c86d71933796efba5848d43348e815189c59718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 06/42] fix: align offset targets after the presence bit of
 optional fields

---
 .../src/internal/generator/bitsize.rs         | 30 ++++++++--------
 .../src/internal/generator/decode.rs          | 34 +++++++++----------
 .../src/internal/generator/encode.rs          | 34 +++++++++----------
 3 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 7771ade..6a89336 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -136,6 +136,21 @@ pub fn bitsize_field(
         ));
     }
 
+    if field.is_optional {
+        function.line("end_position += 1;");
+        // If the type is a marshaller, take it by reference.
+        let mut borrow_symbol = String::from("");
+        if requires_borrowing(&field, &field_details.native_type) {
+            borrow_symbol = "&".into();
+        }
+
+        function.line(format!(
+            "if let Some(x) = {}{} {{",
+            borrow_symbol, field_name
+        ));
+        field_name = "x".into();
+    }
+
     // Check if there is an offset set for this field.
     let mut gen_offset_expression = String::new();
     let mut use_indexed_offset = false;
@@ -153,21 +168,6 @@ pub fn bitsize_field(
         }
     }
 
-    if field.is_optional {
-        function.line("end_position += 1;");
-        // If the type is a marshaller, take it by reference.
-        let mut borrow_symbol = String::from("");
-        if requires_borrowing(&field, &field_details.native_type) {
-            borrow_symbol = "&".into();
-        }
-
-        function.line(format!(
-            "if let Some(x) = {}{} {{",
-            borrow_symbol, field_name
-        ));
-        field_name = "x".into();
-    }
-
     if field.array.is_some() {
         let array_type_name = array_type_name(&field.name);
         let mut index_offset = String::from("None::<&Vec<u32>>");
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index a74477d..636e47e 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -146,23 +146,6 @@ pub fn decode_field(
         ));
     }
 
-    // Check if there is an offset set for this field.
-    let mut gen_offset_expression = String::new();
-    let mut use_indexed_offset = false;
-    if let Some(offset) = &field.offset {
-        let offset_expr = &offset.borrow();
-        use_indexed_offset = does_expression_contains_index_operator(offset_expr);
-        gen_offset_expression = generate_expression(
-            &extract_indexed_offset_expression(offset_expr),
-            type_generator,
-            scope,
-        );
-
-        if !use_indexed_offset {
-            function.line("ztype::align_reader(reader, 8)?;");
-        }
-    }
-
     if field.is_optional {
         function.line("let present = reader.read_bool()?;");
         function.line("if present {");
@@ -181,6 +164,23 @@ pub fn decode_field(
         rvalue_field_name = "optional_value".into();
     }
 
+    // Check if there is an offset set for this field.
+    let mut gen_offset_expression = String::new();
+    let mut use_indexed_offset = false;
+    if let Some(offset) = &field.offset {
+        let offset_expr = &offset.borrow();
+        use_indexed_offset = does_expression_contains_index_operator(offset_expr);
+        gen_offset_expression = generate_expression(
+            &extract_indexed_offset_expression(offset_expr),
+            type_generator,
+            scope,
+        );
+
+        if !use_indexed_offset {
+            function.line("ztype::align_reader(reader, 8)?;");
+        }
+    }
+
     let has_type_parameters = !field_details
         .native_type
         .fundamental_type
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 7250669..7d439f0 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -148,23 +148,6 @@ pub fn encode_field(
         ));
     }
 
-    // Check if there is an offset set for this field.
-    let mut gen_offset_expression = String::new();
-    let mut use_indexed_offset = false;
-    if let Some(offset) = &field.offset {
-        let offset_expr = &offset.borrow();
-        use_indexed_offset = does_expression_contains_index_operator(offset_expr);
-        gen_offset_expression = generate_expression(
-            &extract_indexed_offset_expression(offset_expr),
-            type_generator,
-            scope,
-        );
-
-        if !use_indexed_offset {
-            function.line("ztype::align_writer(writer, 8)?;".to_string());
-        }
-    }
-
     let mut field_is_borrowed = false;
     if field.is_optional {
         // If the type is a marshaller, take it by reference.
@@ -183,6 +166,23 @@ pub fn encode_field(
         field_name = "x".into();
     }
 
+    // Check if there is an offset set for this field.
+    let mut gen_offset_expression = String::new();
+    let mut use_indexed_offset = false;
+    if let Some(offset) = &field.offset {
+        let offset_expr = &offset.borrow();
+        use_indexed_offset = does_expression_contains_index_operator(offset_expr);
+        gen_offset_expression = generate_expression(
+            &extract_indexed_offset_expression(offset_expr),
+            type_generator,
+            scope,
+        );
+
+        if !use_indexed_offset {
+            function.line("ztype::align_writer(writer, 8)?;".to_string());
+        }
+    }
+
     // Parameter check: by design decision, the objects passed to the encoding
     // part are not mutable. As such, we cannot pass the parameters here ourselves.
     // We can, however, ensure, that the parameters were correctly set, and trigger
-- 
2.43.0


From 13381e44604967a57a221aeffcf1d6ae7f5b25d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 07/42] fix: report invalid union selectors as errors when
 decoding

---
 .../src/internal/generator/zunion.rs               | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 723482e..9aebc79 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -194,6 +194,16 @@ pub fn generate_union_match_construct(
     code_gen_fn.line("}");
 }
 
+/// Generates a check which rejects selector values that do not belong to the union.
+fn generate_selector_check(code_gen_fn: &mut Function, union: &ZUnion) {
+    code_gen_fn.line(format!("if selector >= {} {{", union.fields.len()));
+    code_gen_fn.line(format!(
+        "return Err(zserio::ZserioError::DataError(format!(\"invalid selector for {}: {{selector}}\")));",
+        TypeGenerator::to_rust_type_name(&union.name)
+    ));
+    code_gen_fn.line("}");
+}
+
 fn generate_zserio_read(
     symbol_scope: &ModelScope,
     type_generator: &mut TypeGenerator,
@@ -205,8 +215,10 @@ fn generate_zserio_read(
     zserio_read_fn.arg_mut_self();
     zserio_read_fn.arg("reader", "&mut BitReader");
     zserio_read_fn.ret("Result<()>");
+    zserio_read_fn.line("let selector = ztype::read_varsize(reader)?;");
+    generate_selector_check(zserio_read_fn, union);
     zserio_read_fn.line(format!(
-        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?);",
+        "self.union_selector = {}Selector::from_u32(selector);",
         rust_type_name
     ));
 
-- 
2.43.0


From 230e852726366ddd08dca7702fb836299b5ebe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 08/42] fix: pack the selector and the fields of unions in
 packed arrays

---
 .../src/internal/generator/zunion.rs          | 59 +++++++++++++++++--
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 9aebc79..d5920a0 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -5,13 +5,20 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
     bitsize::bitsize_field, decode::decode_field, encode::encode_field,
-    file_generator::write_to_file, function::generate_function, packed_contexts::FieldDetails,
+    file_generator::write_to_file, function::generate_function,
+    packed_contexts::generate_init_packed_context_for_field,
+    packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::convert_to_union_selector_name, types::TypeGenerator,
 };
 use codegen::{Function, Scope, Struct};
 
 use std::path::Path;
 
+// The code to access the delta context of the union selector, which is the first child of the
+// packing context node of a union.
+const SELECTOR_CONTEXT: &str = "context_node.children[0].context.as_mut().unwrap()";
+const SELECTOR_ARRAY_TRAIT: &str = "ztype::array_traits::VarSizeArrayTrait {}";
+
 pub fn generate_struct_member_for_field(
     type_generator: &mut TypeGenerator,
     gen_struct: &mut Struct,
@@ -127,11 +134,40 @@ pub fn generate_union(
     // Generate the packed contexts.
     let create_packing_context_fn = union_impl.new_fn("zserio_create_packing_context");
     create_packing_context_fn.arg("context_node", "&mut PackingContextNode");
+    create_packing_context_fn.line("let mut selector_node = PackingContextNode::new();");
+    create_packing_context_fn.line("selector_node.context = Some(DeltaContext::new());");
+    create_packing_context_fn.line("context_node.children.push(selector_node);");
+    for (field_index, field) in zunion.fields.iter().enumerate() {
+        let field_details =
+            FieldDetails::from_field(field, field_index + 1, symbol_scope, type_generator);
+        generate_packed_context_for_field(create_packing_context_fn, &field_details);
+    }
 
     let init_packing_context_fn = union_impl.new_fn("zserio_init_packing_context");
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
+    init_packing_context_fn.line(format!(
+        "{SELECTOR_CONTEXT}.init(&{SELECTOR_ARRAY_TRAIT}, &(self.union_selector as u32))?;"
+    ));
+    init_packing_context_fn.line("match &self.union_selector {");
+    for (field_index, field) in zunion.fields.iter().enumerate() {
+        init_packing_context_fn.line(format!(
+            "{}::{} => {{",
+            selector_type_name,
+            convert_to_union_selector_name(&field.borrow().name)
+        ));
+        let field_details =
+            FieldDetails::from_field(field, field_index + 1, symbol_scope, type_generator);
+        generate_init_packed_context_for_field(
+            symbol_scope,
+            type_generator,
+            init_packing_context_fn,
+            &field_details,
+        );
+        init_packing_context_fn.line("},");
+    }
+    init_packing_context_fn.line("}");
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -166,14 +202,14 @@ pub fn generate_union_match_construct(
     let selector_type_name = format!("{}Selector", &rust_type_name);
 
     code_gen_fn.line("match &self.union_selector {");
-    for (context_node_index, field) in zunion.fields.iter().enumerate() {
+    for (field_index, field) in zunion.fields.iter().enumerate() {
         code_gen_fn.line(format!(
             "{}::{} => {{",
             selector_type_name,
             convert_to_union_selector_name(&field.borrow().name)
         ));
         let field_details =
-            FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
+            FieldDetails::from_field(field, field_index + 1, symbol_scope, type_generator);
         instantiate_zserio_array(
             symbol_scope,
             type_generator,
@@ -237,6 +273,15 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
+    zserio_read_packed_fn.line("let mut selector = 0_u32;");
+    zserio_read_packed_fn.line(format!(
+        "{SELECTOR_CONTEXT}.read(&{SELECTOR_ARRAY_TRAIT}, reader, &mut selector)?;"
+    ));
+    generate_selector_check(zserio_read_packed_fn, union);
+    zserio_read_packed_fn.line(format!(
+        "self.union_selector = {}Selector::from_u32(selector);",
+        rust_type_name
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -274,8 +319,9 @@ fn generate_zserio_write(
     zserio_write_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_write_packed_fn.arg("writer", "&mut BitWriter");
     zserio_write_packed_fn.ret("Result<()>");
-    zserio_write_packed_fn
-        .line("ztype::write_varsize(writer, self.union_selector as u32)?;".to_string());
+    zserio_write_packed_fn.line(format!(
+        "{SELECTOR_CONTEXT}.write(&{SELECTOR_ARRAY_TRAIT}, writer, &(self.union_selector as u32))?;"
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -315,6 +361,9 @@ fn generate_zserio_bitsize(
     bitsize_packed_fn.arg("context_node", "&mut PackingContextNode");
     bitsize_packed_fn.arg("bit_position", "u64");
     bitsize_packed_fn.line("let mut end_position = bit_position;");
+    bitsize_packed_fn.line(format!(
+        "end_position += {SELECTOR_CONTEXT}.bitsize_of(&{SELECTOR_ARRAY_TRAIT}, end_position, &(self.union_selector as u32))?;"
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
-- 
2.43.0


From 21a39baac2d065791b887b8f064a9dbd17da4c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 09/42] fix: do not overflow when delta packing values far
 apart

---
 .../zserio/src/ztype/array_traits/delta_context.rs   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 1dfce53..deaa3d3 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -51,7 +51,13 @@ impl DeltaContext {
             self.first_element_size = self.unpacked_size;
         } else if self.max_bit_number <= MAX_BIT_NUMBER_LIMIT {
             self.is_packed = true;
-            let delta = self.previous_element.abs_diff(array_trait.to_u64(element));
+            // The element may be signed or unsigned: the larger one of both distances ensures
+            // that the delta can be represented for either of them.
+            let value = array_trait.to_u64(element);
+            let delta = self
+                .previous_element
+                .abs_diff(value)
+                .max((self.previous_element as i64).abs_diff(value as i64));
             let max_bit_number = bit_length(delta);
             if max_bit_number > self.max_bit_number {
                 self.max_bit_number = max_bit_number;
@@ -59,7 +65,7 @@ impl DeltaContext {
                     self.is_packed = false;
                 }
             }
-            self.previous_element = array_trait.to_u64(element);
+            self.previous_element = value;
         }
         Ok(())
     }
@@ -103,7 +109,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let delta = read_signed_bits(reader, self.max_bit_number + 1)?;
-            self.previous_element = (self.previous_element as i64 + delta) as u64;
+            self.previous_element = (self.previous_element as i64).wrapping_add(delta) as u64;
         }
         *value = array_traits.from_u64(self.previous_element);
         Ok(())
-- 
2.43.0


From 5bed833373daee78b0789cf7833375fe12445850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 10/42] fix: report truncated strings, extern values and
 packing descriptors as errors

---
 .../src/ztype/array_traits/delta_context.rs   | 23 ++++++++-----------
 crates/zserio/src/ztype/extern_type.rs        |  4 +---
 crates/zserio/src/ztype/string_decode.rs      |  2 +-
 3 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index deaa3d3..3bc1a34 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -101,7 +101,7 @@ impl DeltaContext {
     ) -> Result<()> {
         if !self.processing_started {
             self.processing_started = true;
-            self.read_descriptor(reader);
+            self.read_descriptor(reader)?;
             return self.read_unpacked(array_traits, reader, value);
         }
         if !self.is_packed {
@@ -145,7 +145,7 @@ impl DeltaContext {
             self.processing_started = true;
             self.finish_init();
 
-            self.write_descriptor(writer);
+            self.write_descriptor(writer)?;
             return self.write_unpacked(array_traits, writer, element);
         }
         if !self.is_packed {
@@ -168,14 +168,13 @@ impl DeltaContext {
         1
     }
 
-    fn read_descriptor(&mut self, reader: &mut BitReader) {
-        self.is_packed = reader
-            .read_bool()
-            .expect("failed to read if the context is packed");
+    fn read_descriptor(&mut self, reader: &mut BitReader) -> Result<()> {
+        self.is_packed = reader.read_bool()?;
         if self.is_packed {
             // read how many bits are used for the delta encoding of each element
-            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS).unwrap() as u8;
+            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS)? as u8;
         }
+        Ok(())
     }
 
     fn read_unpacked<T>(
@@ -189,14 +188,12 @@ impl DeltaContext {
         Ok(())
     }
 
-    fn write_descriptor(&self, writer: &mut BitWriter) {
-        writer
-            .write_bool(self.is_packed)
-            .expect("failed to write bool");
+    fn write_descriptor(&self, writer: &mut BitWriter) -> Result<()> {
+        writer.write_bool(self.is_packed)?;
         if self.is_packed {
-            ztype::write_unsigned_bits(writer, self.max_bit_number as u64, MAX_BIT_NUMBER_BITS)
-                .unwrap();
+            ztype::write_unsigned_bits(writer, self.max_bit_number as u64, MAX_BIT_NUMBER_BITS)?;
         }
+        Ok(())
     }
 
     fn write_unpacked<T>(
diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index d04ac91..3bc38f2 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -40,9 +40,7 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
     let mut extern_bytes = read_bytes(bit_reader, num_of_full_bytes)?;
     if remaining_bits != 0 {
-        let mut last_byte = bit_reader
-            .read_u8(remaining_bits)
-            .expect("failed to read last bits");
+        let mut last_byte = bit_reader.read_u8(remaining_bits)?;
         let bit_shift = 8 - remaining_bits;
         last_byte <<= bit_shift;
         extern_bytes.push(last_byte);
diff --git a/crates/zserio/src/ztype/string_decode.rs b/crates/zserio/src/ztype/string_decode.rs
index 438d3a0..e35ab45 100644
--- a/crates/zserio/src/ztype/string_decode.rs
+++ b/crates/zserio/src/ztype/string_decode.rs
@@ -7,7 +7,7 @@ use crate::ztype::varuint_decode::read_varsize;
 
 pub fn read_string(reader: &mut BitReader) -> Result<String> {
     // zserio first writes the string length as a varsize uint
-    let str_len = read_varsize(reader).map(|v| v as usize).unwrap();
+    let str_len = read_varsize(reader)? as usize;
 
     if reader.remaining() < (str_len as u64 * 8) {
         return Err(ZserioError::IoError(std::io::Error::new(
-- 
2.43.0


From 59aa20d171c4aa4ebc1fc09f8dc70a1bad91bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 11/42] fix: report varuint and varsize values out of range as
 errors

---
 crates/zserio/src/ztype/varuint_encode.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index e8d422b..852c3c3 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::unsigned_bitsize;
 use rust_bitwriter::BitWriter;
 
@@ -22,12 +22,14 @@ pub fn write_varuint(writer: &mut BitWriter, v: u64) -> Result<()> {
 
 // write_varsize writes a zserio varsize value to the bitstream.
 pub fn write_varsize(writer: &mut BitWriter, v: u32) -> Result<()> {
-    assert!(v <= MAX_VARSIZE);
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     write_varuint_type(writer, v as u64, 5)
 }
 
 pub fn write_varuint_type(writer: &mut BitWriter, v: u64, max_bytes: u8) -> Result<()> {
-    let needed_bytes = unsigned_bitsize(v, max_bytes).unwrap() / 8;
+    let needed_bytes = unsigned_bitsize(v, max_bytes)? / 8;
 
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
-- 
2.43.0


From 4e1ceb92f67e395aa515846442b3d95b9416678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 12/42] fix: reset fields that are absent when decoding into a
 used object

---
 .../src/internal/generator/decode.rs          | 13 ++++++++++++
 .../src/internal/generator/zchoice.rs         | 21 ++++++++++++++++---
 .../src/internal/generator/zunion.rs          | 20 ++++++++++++++++--
 3 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index 636e47e..987341c 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -112,6 +112,14 @@ pub fn decode_type(
     }
 }
 
+/// Generates the code to set a field to its default value.
+pub fn generate_field_reset(function: &mut Function, field_details: &FieldDetails) {
+    function.line(format!(
+        "self.{} = Default::default();",
+        field_details.field_name
+    ));
+}
+
 pub fn decode_field(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
@@ -127,6 +135,11 @@ pub fn decode_field(
     let mut field_type = raw_field_type.clone();
 
     function.line(format!("// read {} field", field_details.field_name));
+    // Fields which may not be present in the data must not keep earlier contents.
+    if field.is_optional || field.optional_clause.is_some() {
+        generate_field_reset(function, field_details);
+    }
+
     // Check if the field uses an optional clause
     if let Some(optional_clause) = &field.optional_clause {
         function.line(format!(
diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 66f5e1f..6fdb197 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -7,8 +7,9 @@ use crate::internal::ast::zchoice::ZChoice;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::{
     array::instantiate_zserio_array, bitsize::bitsize_field, decode::decode_field,
-    encode::encode_field, expression::generate_expression, file_generator::write_to_file,
-    function::generate_function, packed_contexts::generate_init_packed_context_for_field,
+    decode::generate_field_reset, encode::encode_field, expression::generate_expression,
+    file_generator::write_to_file, function::generate_function,
+    packed_contexts::generate_init_packed_context_for_field,
     packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::TypeGenerator,
     zstruct::generate_struct_member_for_field,
@@ -86,7 +87,13 @@ pub fn generate_choice(
     let choice_impl = codegen_scope.new_impl(&rust_type_name);
     choice_impl.impl_trait("ztype::ZserioPackableObject");
 
-    generate_zserio_read(symbol_scope, type_generator, choice_impl, zchoice);
+    generate_zserio_read(
+        symbol_scope,
+        type_generator,
+        choice_impl,
+        zchoice,
+        &field_details,
+    );
     generate_zserio_write(symbol_scope, type_generator, choice_impl, zchoice);
     generate_zserio_bitsize(symbol_scope, type_generator, choice_impl, zchoice);
 
@@ -212,11 +219,16 @@ fn generate_zserio_read(
     type_generator: &mut TypeGenerator,
     struct_impl: &mut codegen::Impl,
     choice: &ZChoice,
+    field_details: &[FieldDetails],
 ) {
     let zserio_read_fn = struct_impl.new_fn("zserio_read");
     zserio_read_fn.arg_mut_self();
     zserio_read_fn.arg("reader", "&mut BitReader");
     zserio_read_fn.ret("Result<()>");
+    // Only the selected case is read: the others must not keep earlier contents.
+    for field in field_details {
+        generate_field_reset(zserio_read_fn, field);
+    }
 
     generate_choice_match_construct(
         symbol_scope,
@@ -233,6 +245,9 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
+    for field in field_details {
+        generate_field_reset(zserio_read_packed_fn, field);
+    }
     generate_choice_match_construct(
         symbol_scope,
         type_generator,
diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index d5920a0..5e4b75b 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -4,8 +4,8 @@ use crate::internal::ast::zunion::ZUnion;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
-    bitsize::bitsize_field, decode::decode_field, encode::encode_field,
-    file_generator::write_to_file, function::generate_function,
+    bitsize::bitsize_field, decode::decode_field, decode::generate_field_reset,
+    encode::encode_field, file_generator::write_to_file, function::generate_function,
     packed_contexts::generate_init_packed_context_for_field,
     packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::convert_to_union_selector_name, types::TypeGenerator,
@@ -240,6 +240,20 @@ fn generate_selector_check(code_gen_fn: &mut Function, union: &ZUnion) {
     code_gen_fn.line("}");
 }
 
+/// Only the selected field of a union is read: the others must not keep earlier contents.
+fn generate_fields_reset(
+    symbol_scope: &ModelScope,
+    type_generator: &mut TypeGenerator,
+    code_gen_fn: &mut Function,
+    union: &ZUnion,
+) {
+    for (field_index, field) in union.fields.iter().enumerate() {
+        let field_details =
+            FieldDetails::from_field(field, field_index + 1, symbol_scope, type_generator);
+        generate_field_reset(code_gen_fn, &field_details);
+    }
+}
+
 fn generate_zserio_read(
     symbol_scope: &ModelScope,
     type_generator: &mut TypeGenerator,
@@ -253,6 +267,7 @@ fn generate_zserio_read(
     zserio_read_fn.ret("Result<()>");
     zserio_read_fn.line("let selector = ztype::read_varsize(reader)?;");
     generate_selector_check(zserio_read_fn, union);
+    generate_fields_reset(symbol_scope, type_generator, zserio_read_fn, union);
     zserio_read_fn.line(format!(
         "self.union_selector = {}Selector::from_u32(selector);",
         rust_type_name
@@ -278,6 +293,7 @@ fn generate_zserio_read(
         "{SELECTOR_CONTEXT}.read(&{SELECTOR_ARRAY_TRAIT}, reader, &mut selector)?;"
     ));
     generate_selector_check(zserio_read_packed_fn, union);
+    generate_fields_reset(symbol_scope, type_generator, zserio_read_packed_fn, union);
     zserio_read_packed_fn.line(format!(
         "self.union_selector = {}Selector::from_u32(selector);",
         rust_type_name
-- 
2.43.0


From f84c947da19f9607bed495a63ee5b04acbc719dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 13/42] fix: report bit lengths of more than 64 bits as errors

---
 crates/zserio/src/ztype/bits_decode.rs | 10 +++++++---
 crates/zserio/src/ztype/bits_encode.rs | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/bits_decode.rs b/crates/zserio/src/ztype/bits_decode.rs
index 9870e3d..46ef1ad 100644
--- a/crates/zserio/src/ztype/bits_decode.rs
+++ b/crates/zserio/src/ztype/bits_decode.rs
@@ -1,16 +1,20 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use bitreader::BitReader;
 
 pub fn read_unsigned_bits(reader: &mut BitReader, bits: u8) -> Result<u64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot read more than 64 bits".into(),
+        ));
     }
     Ok(reader.read_u64(bits)?)
 }
 
 pub fn read_signed_bits(reader: &mut BitReader, bits: u8) -> Result<i64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot read more than 64 bits".into(),
+        ));
     }
     Ok(reader.read_i64(bits)?)
 }
diff --git a/crates/zserio/src/ztype/bits_encode.rs b/crates/zserio/src/ztype/bits_encode.rs
index 537ffc6..e886a35 100644
--- a/crates/zserio/src/ztype/bits_encode.rs
+++ b/crates/zserio/src/ztype/bits_encode.rs
@@ -1,16 +1,20 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use rust_bitwriter::BitWriter;
 
 pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<()> {
     if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot write more than 64 bits".into(),
+        ));
     }
     Ok(writer.write_u64(v, bits)?)
 }
 
 pub fn write_signed_bits(writer: &mut BitWriter, v: i64, bits: u8) -> Result<()> {
     if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot write more than 64 bits".into(),
+        ));
     }
     Ok(writer.write_i64(v, bits)?)
 }
-- 
2.43.0


From de2ca9ba0502f7ebc73b42cbea27e393af56c228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 14/42] fix: report varsize values out of range as errors when
 decoding

---
 crates/zserio/src/ztype/varuint_decode.rs | 10 ++++++++--
 crates/zserio/src/ztype/varuint_encode.rs |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/zserio/src/ztype/varuint_decode.rs b/crates/zserio/src/ztype/varuint_decode.rs
index e06d1c9..8009269 100644
--- a/crates/zserio/src/ztype/varuint_decode.rs
+++ b/crates/zserio/src/ztype/varuint_decode.rs
@@ -1,8 +1,14 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
+use crate::ztype::varuint_encode::MAX_VARSIZE;
 use bitreader::BitReader;
 
 pub fn read_varsize(reader: &mut BitReader) -> Result<u32> {
-    read_sized_uint(reader, 5).map(|v| v as u32)
+    // The encoding offers 36 bits, a varsize has 31.
+    let value = read_sized_uint(reader, 5)?;
+    if value > MAX_VARSIZE as u64 {
+        return Err(ZserioError::DataDoesNotFit);
+    }
+    Ok(value as u32)
 }
 
 pub fn read_varuint16(reader: &mut BitReader) -> Result<u16> {
diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index 852c3c3..fedef02 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -2,7 +2,7 @@ use crate::error::{Result, ZserioError};
 use crate::ztype::unsigned_bitsize;
 use rust_bitwriter::BitWriter;
 
-const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
+pub(crate) const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
 
 pub fn write_varuint16(writer: &mut BitWriter, v: u16) -> Result<()> {
     write_varuint_type(writer, v as u64, 2)
-- 
2.43.0


From b27f9a8fda2a3fe845bacd746c31e84123e016ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 15/42] fix: refuse schema trees that declare a package in more
 than one file

The second file silently replaced the first one, and which one came second
depended on the order in which the file system lists the directory.
---
 crates/zserio-rs-build/src/internal/model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index bb0af7e..d217509 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -42,7 +42,11 @@ impl Model {
             file_name = file_name.to_ascii_lowercase();
             if file_name.ends_with(".zs") || file_name.ends_with(".zserio") {
                 let package = package_from_file(&path);
-                packages.insert(package.name.clone(), package);
+                let name = package.name.clone();
+                if packages.insert(name.clone(), package).is_some() {
+                    // Keeping one of them would silently drop the definitions of the other.
+                    panic!("package {:?} is defined in more than one file", name);
+                }
             }
         }
         Model {
-- 
2.43.0


From c12f436436781b0fa59027baefebd627858e4825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:48 +0000
Subject: [PATCH 16/42] fix: refuse schema files with syntax errors

The lexer and the parser recover from errors and only print them, so bindings
were generated from whatever part of the file had been understood.
---
 .../src/internal/model/package.rs             | 47 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/model/package.rs b/crates/zserio-rs-build/src/internal/model/package.rs
index c0eecb3..8390e59 100644
--- a/crates/zserio-rs-build/src/internal/model/package.rs
+++ b/crates/zserio-rs-build/src/internal/model/package.rs
@@ -4,19 +4,62 @@ use crate::internal::parser::gen::zserioparser::ZserioParser;
 use crate::internal::visitor::Visitor;
 use crate::internal::visitor::ZserioTreeReturnType;
 use antlr_rust::common_token_stream::CommonTokenStream;
+use antlr_rust::error_listener::ErrorListener;
+use antlr_rust::errors::ANTLRError;
+use antlr_rust::int_stream::IntStream;
+use antlr_rust::parser::Parser;
+use antlr_rust::recognizer::Recognizer;
+use antlr_rust::token::{Token, TOKEN_DEFAULT_CHANNEL};
+use antlr_rust::token_factory::TokenFactory;
+use antlr_rust::token_stream::TokenStream;
 use antlr_rust::tree::ParseTreeVisitorCompat;
 use antlr_rust::InputStream;
+use std::cell::Cell;
 use std::path::Path;
+use std::rc::Rc;
 
 use std::fs;
 
+/// Counts the errors found by the lexer or the parser. Both try to recover from errors,
+/// and carry on with an incomplete syntax tree.
+struct SyntaxErrorCounter(Rc<Cell<usize>>);
+
+impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for SyntaxErrorCounter {
+    fn syntax_error(
+        &self,
+        _recognizer: &T,
+        _offending_symbol: Option<&<T::TF as TokenFactory<'a>>::Inner>,
+        _line: isize,
+        _column: isize,
+        _msg: &str,
+        _error: Option<&ANTLRError>,
+    ) {
+        self.0.set(self.0.get() + 1);
+    }
+}
+
 /// Loads a zserio package from a file.
 pub fn package_from_file(path: &Path) -> ZPackage {
     let contents = fs::read_to_string(path).expect("failed to read file");
-    let lexer = ZserioLexer::new(InputStream::new(&*contents));
-    let mut parser = ZserioParser::new(CommonTokenStream::new(lexer));
+    let syntax_errors = Rc::new(Cell::new(0));
+    let mut lexer = ZserioLexer::new(InputStream::new(&*contents));
+    lexer.add_error_listener(Box::new(SyntaxErrorCounter(syntax_errors.clone())));
+    let mut tokens = CommonTokenStream::new(lexer);
+    // The token stream starts with the first token, even if that is a comment.
+    if tokens.lt(1).unwrap().get_channel() != TOKEN_DEFAULT_CHANNEL {
+        tokens.consume();
+    }
+    let mut parser = ZserioParser::new(tokens);
+    parser.add_error_listener(Box::new(SyntaxErrorCounter(syntax_errors.clone())));
 
     let root = parser.packageDeclaration().unwrap(); //.expect("package declaration failed");
+    if syntax_errors.get() != 0 {
+        panic!(
+            "{:?} contains {} syntax error(s)",
+            path,
+            syntax_errors.get()
+        );
+    }
     let x = ZserioTreeReturnType::Str("".into());
     let result = Visitor(x).visit(&*root);
 
-- 
2.43.0


From 39faf90e27ad6770121e296542425bade2105d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:47 +0000
Subject: [PATCH 17/42] fix: give different template instantiations different
 names

T<bit:4> and T<bit:7>, or T<U<uint8>> and T<U<string>>, shared one name. Only
the first one was generated, and used in place of the others.
---
 .../src/internal/compiler/template_instantiation.rs        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index a429423..b54f31e 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -75,7 +75,12 @@ pub fn instantiate_type(
 fn generate_instantiated_name(type_reference: &TypeReference) -> String {
     let mut new_name = type_reference.name.clone();
     for template_arg in &type_reference.template_arguments {
-        new_name += template_arg.name.as_str();
+        // The name must tell apart all instantiations of a template, so it must contain everything
+        // that makes a difference: nested template arguments, and the size of bit fields.
+        new_name += generate_instantiated_name(template_arg).as_str();
+        if template_arg.bits != 0 {
+            new_name += template_arg.bits.to_string().as_str();
+        }
     }
     new_name
 }
-- 
2.43.0


From ddc7defc83f27156194dab77e07e96d4a5bb8a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 18/42] fix: refuse definitions that replace each other

Definitions of the same name, or of names that map to the same Rust module,
silently replaced one another, in an order that depended on the hash seed.
---
 .../src/internal/generator/package.rs          |  7 +++++++
 crates/zserio-rs-build/src/internal/visitor.rs | 18 +++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/package.rs b/crates/zserio-rs-build/src/internal/generator/package.rs
index 8fa410a..e23495d 100644
--- a/crates/zserio-rs-build/src/internal/generator/package.rs
+++ b/crates/zserio-rs-build/src/internal/generator/package.rs
@@ -162,6 +162,13 @@ pub fn generate_package(
 
     // Sort module names so our output is in a predictable order.
     module_names.sort_unstable();
+    if let Some(names) = module_names.windows(2).find(|names| names[0] == names[1]) {
+        // The file of one definition replaced the file of the other.
+        panic!(
+            "more than one definition in package {:?} belongs in module {:?}",
+            package_name, names[0]
+        );
+    }
     for module_name in &module_names {
         mod_file_content += format!("pub mod {module_name};\n").as_str();
     }
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 7e95aa9..2f5e89c 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -183,11 +183,19 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
                         match ve {
                             ZserioTreeReturnType::Structure(s) => {
                                 let name = s.name.clone();
-                                package.structs.insert(name, Rc::new(RefCell::new(*s)));
+                                let previous =
+                                    package.structs.insert(name, Rc::new(RefCell::new(*s)));
+                                if let Some(previous) = previous {
+                                    panic!("{:?} is defined twice", previous.borrow().name);
+                                }
                             }
                             ZserioTreeReturnType::Choice(c) => {
                                 let name = c.name.clone();
-                                package.zchoices.insert(name, Rc::new(RefCell::new(*c)));
+                                let previous =
+                                    package.zchoices.insert(name, Rc::new(RefCell::new(*c)));
+                                if let Some(previous) = previous {
+                                    panic!("{:?} is defined twice", previous.borrow().name);
+                                }
                             }
                             ZserioTreeReturnType::Enumeration(e) => {
                                 package.enums.push(Rc::new(RefCell::new(*e)))
@@ -197,7 +205,11 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
                             }
                             ZserioTreeReturnType::Union(u) => {
                                 let name = u.name.clone();
-                                package.zunions.insert(name, Rc::new(RefCell::new(*u)));
+                                let previous =
+                                    package.zunions.insert(name, Rc::new(RefCell::new(*u)));
+                                if let Some(previous) = previous {
+                                    panic!("{:?} is defined twice", previous.borrow().name);
+                                }
                             }
                             ZserioTreeReturnType::Subtype(s) => {
                                 package.subtypes.push(Rc::new(RefCell::new(*s)))
-- 
2.43.0


From 8d1856072d6585698df507601b44c64977786167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:01 +0000
Subject: [PATCH 19/42] fix: refuse packages that share a Rust module

Their files silently replaced one another, in an order that depended on the
hash seed.
---
 .../zserio-rs-build/src/internal/generator/model.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/model.rs b/crates/zserio-rs-build/src/internal/generator/model.rs
index 29a612b..f174f16 100644
--- a/crates/zserio-rs-build/src/internal/generator/model.rs
+++ b/crates/zserio-rs-build/src/internal/generator/model.rs
@@ -2,12 +2,25 @@ use crate::internal::generator::mod_file::generate_top_level_mod_file;
 use crate::internal::generator::package::generate_package;
 use crate::internal::generator::types::TypeGenerator;
 use crate::internal::model::Model;
+use itertools::Itertools;
 use log::info;
 use std::path::Path;
 
 pub fn generate_model(model: &mut Model, package_directory: &Path, root_package: &str) {
     let mut type_generator = TypeGenerator::new(root_package.to_owned());
 
+    let module_path = |package: &&String| {
+        package
+            .split('.')
+            .map(TypeGenerator::to_rust_module_name)
+            .join(".")
+    };
+    let mut shared_modules = model.packages.keys().duplicates_by(module_path);
+    if let Some(package) = shared_modules.next() {
+        // The files of one package would replace the files of the other.
+        panic!("more than one package belongs in the module of {package:?}");
+    }
+
     let scope = &mut model.scope;
     // Generate the rust interface files for all packages.
     for package in model.packages.values() {
-- 
2.43.0


From 0693871e89e731348812bd518ed2e8b47daf92c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:05 +0000
Subject: [PATCH 20/42] fix: refuse different template instantiations of the
 same name

P<A, BC> and P<AB, C>, or T<uint8> and a type named Tuint8, silently replaced
one another, in an order that depended on the hash seed.
---
 .../src/internal/ast/package.rs               |  3 ++
 .../compiler/template_instantiation.rs        | 44 +++++++++++++++++++
 .../zserio-rs-build/src/internal/visitor.rs   |  1 +
 3 files changed, 48 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/package.rs b/crates/zserio-rs-build/src/internal/ast/package.rs
index 048451f..ae40322 100644
--- a/crates/zserio-rs-build/src/internal/ast/package.rs
+++ b/crates/zserio-rs-build/src/internal/ast/package.rs
@@ -29,4 +29,7 @@ pub struct ZPackage {
     pub subtypes: Vec<Rc<RefCell<Subtype>>>,
     pub instantiated_types: Vec<Rc<RefCell<InstantiateType>>>,
     pub bitmask_types: Vec<Rc<RefCell<ZBitmaskType>>>,
+
+    /// The instantiated templates by their name, with a description of the instantiation.
+    pub template_instantiations: HashMap<String, String>,
 }
diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index b54f31e..529ac07 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -36,6 +36,26 @@ pub fn instantiate_type(
         new_type_name = generate_instantiated_name(zserio_type);
     }
 
+    // The same name may be used only for the same instantiation of the same template.
+    let origin = describe_type(pkg, scope, zserio_type);
+    let is_defined = pkg.structs.contains_key(&new_type_name)
+        || pkg.zchoices.contains_key(&new_type_name)
+        || pkg.zunions.contains_key(&new_type_name);
+    match pkg.template_instantiations.get(&new_type_name) {
+        Some(known_origin) if *known_origin != origin => panic!(
+            "{:?} is the name of both {} and {}",
+            new_type_name, known_origin, origin
+        ),
+        None if is_defined => panic!(
+            "{:?} is the name of both a defined type and {}",
+            new_type_name, origin
+        ),
+        _ => {
+            pkg.template_instantiations
+                .insert(new_type_name.clone(), origin);
+        }
+    }
+
     let symbol = scope.resolve_symbol(&zserio_type.name, true);
     match symbol.symbol {
         Symbol::Struct(s) => {
@@ -72,6 +92,30 @@ pub fn instantiate_type(
     }
 }
 
+/// Describes a type reference, such that two references to the same type have the same description.
+fn describe_type(pkg: &ZPackage, scope: &ModelScope, zserio_type: &TypeReference) -> String {
+    if zserio_type.is_builtin {
+        return format!("{}:{}", zserio_type.name, zserio_type.bits);
+    }
+    if zserio_type.template_arguments.is_empty() {
+        // This may be the name of an instantiated template.
+        if let Some(origin) = pkg.template_instantiations.get(&zserio_type.name) {
+            return origin.clone();
+        }
+    }
+    let template_arguments: Vec<String> = zserio_type
+        .template_arguments
+        .iter()
+        .map(|template_argument| describe_type(pkg, scope, template_argument))
+        .collect();
+    format!(
+        "{}.{}<{}>",
+        scope.resolve_symbol(&zserio_type.name, true).package,
+        zserio_type.name,
+        template_arguments.join(",")
+    )
+}
+
 fn generate_instantiated_name(type_reference: &TypeReference) -> String {
     let mut new_name = type_reference.name.clone();
     for template_arg in &type_reference.template_arguments {
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 2f5e89c..d0f5cdd 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -173,6 +173,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             subtypes: vec![],
             instantiated_types: vec![],
             bitmask_types: vec![],
+            template_instantiations: HashMap::new(),
         });
 
         for directive in ctx.languageDirective_all() {
-- 
2.43.0


From 7a5fd0400219892f78e3a7b4fbce4870ca2d6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 21/42] fix: report missing symbols when packages import each
 other

---
 .../zserio-rs-build/src/internal/compiler/symbol_scope.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 0bbb258..9fce741 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -16,7 +16,7 @@ use crate::internal::ast::{
 };
 
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
 /// This enum is used to cover any possible type of symbols.
@@ -124,11 +124,17 @@ impl ModelScope {
             imports_to_process.push(reference);
         }
 
+        // Packages may import each other, search each of them only once.
+        let mut searched_packages = HashSet::from([package_scope.name.clone()]);
+
         while !imports_to_process.is_empty() {
             let mut new_imports_to_process = vec![];
 
             for import in imports_to_process {
                 let package_name = import.package_dir.join(".");
+                if !searched_packages.insert(package_name.clone()) {
+                    continue;
+                }
                 let imported_package = self
                     .package_scopes
                     .get(&package_name)
-- 
2.43.0


From 01b73ad4bd8dadc6dd9b55a663ce9063ab721d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 22/42] fix: instantiate templates in a fixed order of the
 packages

---
 crates/zserio-rs-build/src/internal/model.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index d217509..c5b7db7 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -136,7 +136,12 @@ impl Model {
 
     pub fn instantiate_templates(&mut self) {
         let scope = &mut self.scope;
-        for pkg in self.packages.values_mut() {
+
+        // The order of a HashMap is different in every run. Always use the same order, because the
+        // templates a package instantiates are visible in the packages that come after it.
+        let mut packages: Vec<&mut ZPackage> = self.packages.values_mut().collect();
+        packages.sort_by(|a, b| a.name.cmp(&b.name));
+        for pkg in packages {
             scope.scope_stack.push(ScopeLocation {
                 package: pkg.name.clone(),
                 import_symbol: None,
@@ -148,7 +153,7 @@ impl Model {
             // be modified.
             let type_instantiations = pkg.instantiated_types.clone();
             for rc_instantiation in &type_instantiations {
-                let instantiation = rc_instantiation.as_ref().borrow_mut();
+                let instantiation = rc_instantiation.as_ref().borrow();
                 instantiate_type(
                     pkg,
                     scope,
-- 
2.43.0


From d7cf85fe110b912c2a782118f3949831a0426945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 23/42] fix: accept template arguments that another package
 instantiates

---
 .../src/internal/ast/package.rs               | 11 ++++++
 .../src/internal/compiler/symbol_scope.rs     | 16 ++++++--
 .../compiler/template_instantiation.rs        | 39 ++++++++++++-------
 3 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/package.rs b/crates/zserio-rs-build/src/internal/ast/package.rs
index ae40322..550bf13 100644
--- a/crates/zserio-rs-build/src/internal/ast/package.rs
+++ b/crates/zserio-rs-build/src/internal/ast/package.rs
@@ -33,3 +33,14 @@ pub struct ZPackage {
     /// The instantiated templates by their name, with a description of the instantiation.
     pub template_instantiations: HashMap<String, String>,
 }
+
+impl ZPackage {
+    /// Whether the package instantiates a template under this name.
+    pub fn has_instantiation(&self, name: &str) -> bool {
+        self.template_instantiations.contains_key(name)
+            || self
+                .instantiated_types
+                .iter()
+                .any(|instantiation| instantiation.borrow().name == name)
+    }
+}
diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 9fce741..d5859f6 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -108,6 +108,16 @@ impl ModelScope {
         name: &String,
         ignore_symbol_local_scopes: bool,
     ) -> SymbolReference {
+        self.find_symbol(name, ignore_symbol_local_scopes)
+            .unwrap_or_else(|| panic!("symbol not found: {:?}", name))
+    }
+
+    /// Searches for a symbol in the current package and its imports.
+    pub fn find_symbol(
+        &self,
+        name: &String,
+        ignore_symbol_local_scopes: bool,
+    ) -> Option<SymbolReference> {
         let evaluation_scope = self.scope_stack.last().unwrap();
         let package_scope = self.package_scopes.get(&evaluation_scope.package).unwrap();
 
@@ -115,7 +125,7 @@ impl ModelScope {
         if let Some(symbol) =
             package_scope.resolve_symbol(name, ignore_symbol_local_scopes, evaluation_scope)
         {
-            return symbol;
+            return Some(symbol);
         }
 
         // Try to find the symbol in the imported packages.
@@ -148,7 +158,7 @@ impl ModelScope {
                         symbol_name: None,
                     },
                 ) {
-                    return symbol;
+                    return Some(symbol);
                 }
 
                 // If the symbol was not found in one of the current imports,
@@ -162,7 +172,7 @@ impl ModelScope {
         }
         // If this line is reached, the symbol lookup has failed, and the symbol
         // was not found anywhere.
-        panic!("symbol not found: {:?}", name);
+        None
     }
 }
 
diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index 529ac07..6235097 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -37,7 +37,7 @@ pub fn instantiate_type(
     }
 
     // The same name may be used only for the same instantiation of the same template.
-    let origin = describe_type(pkg, scope, zserio_type);
+    let origin = describe_instantiation(pkg, scope, zserio_type);
     let is_defined = pkg.structs.contains_key(&new_type_name)
         || pkg.zchoices.contains_key(&new_type_name)
         || pkg.zunions.contains_key(&new_type_name);
@@ -92,21 +92,34 @@ pub fn instantiate_type(
     }
 }
 
-/// Describes a type reference, such that two references to the same type have the same description.
-fn describe_type(pkg: &ZPackage, scope: &ModelScope, zserio_type: &TypeReference) -> String {
-    if zserio_type.is_builtin {
-        return format!("{}:{}", zserio_type.name, zserio_type.bits);
-    }
-    if zserio_type.template_arguments.is_empty() {
-        // This may be the name of an instantiated template.
-        if let Some(origin) = pkg.template_instantiations.get(&zserio_type.name) {
-            return origin.clone();
-        }
-    }
+/// Describes the instantiation of a template, such that two references to the same instantiation
+/// have the same description within a package.
+fn describe_instantiation(
+    pkg: &ZPackage,
+    scope: &ModelScope,
+    zserio_type: &TypeReference,
+) -> String {
     let template_arguments: Vec<String> = zserio_type
         .template_arguments
         .iter()
-        .map(|template_argument| describe_type(pkg, scope, template_argument))
+        .map(|argument| {
+            if argument.is_builtin {
+                return format!("{}:{}", argument.name, argument.bits);
+            }
+            let package = if !argument.template_arguments.is_empty() {
+                pkg.name.clone()
+            } else if !argument.package.is_empty() {
+                argument.package.clone()
+            } else if pkg.has_instantiation(&argument.name) {
+                pkg.name.clone()
+            } else {
+                // Templates that other packages instantiate may not be known yet.
+                scope
+                    .find_symbol(&argument.name, true)
+                    .map_or(String::new(), |symbol| symbol.package)
+            };
+            format!("{}.{}", package, generate_instantiated_name(argument))
+        })
         .collect();
     format!(
         "{}.{}<{}>",
-- 
2.43.0


From f33d98115edccc958ccfcffb03c3d1499ec7653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:25 +0000
Subject: [PATCH 24/42] fix: refuse imports of unknown packages

---
 crates/zserio-rs-build/src/internal/model.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index c5b7db7..6270518 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -67,6 +67,8 @@ impl Model {
     /// Currently, this function will panic if there is an error
     /// during any of the above steps.
     pub fn evaluate(&mut self) {
+        self.check_imports();
+
         self.scope = ModelScope::build_scope(&self.packages);
 
         // evaluate templates
@@ -79,6 +81,21 @@ impl Model {
         self.evaluate_package();
     }
 
+    /// Checks that all imported packages exist. Otherwise a missing file would go unnoticed.
+    fn check_imports(&self) {
+        for package in self.packages.values() {
+            for import in &package.imports {
+                let imported_package = import.package_dir.join(".");
+                if !self.packages.contains_key(&imported_package) {
+                    panic!(
+                        "package {:?} imports the unknown package {:?}",
+                        package.name, imported_package
+                    );
+                }
+            }
+        }
+    }
+
     pub fn resolve_types(&mut self) {
         let scope = &mut self.scope;
         for pkg in self.packages.values_mut() {
-- 
2.43.0


From 87d0aa5cddb3721995d23512397fcfe96b8fe08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 25/42] fix: keep arguments of parameterized types together in
 the generated code

The generated assertions and casts did not put parentheses around the
argument, so that 'Type(a && b > 0)' did not compile, and 'Type(a == b)'
or 'Type(a + b)' were evaluated in the wrong order.
---
 .../zserio-rs-build/src/internal/generator/decode.rs | 12 ++++++------
 .../zserio-rs-build/src/internal/generator/encode.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index 987341c..2b91c5f 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -253,7 +253,7 @@ pub fn decode_field(
                     requires_cloning = ".clone()".into();
                 }
                 let mut rvalue = format!(
-                    "{}{}",
+                    "({}){}",
                     generate_expression(&type_argument, type_generator, scope),
                     requires_cloning
                 );
@@ -264,7 +264,7 @@ pub fn decode_field(
                     &type_argument,
                 ) {
                     rvalue = format!(
-                        "{} as {}",
+                        "({}) as {}",
                         rvalue,
                         type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                     );
@@ -356,7 +356,7 @@ pub fn decode_field(
                     requires_cloning = ".clone()".into();
                 }
                 let mut rvalue = format!(
-                    "{}{}",
+                    "({}){}",
                     generate_expression(&type_argument, type_generator, scope),
                     requires_cloning
                 );
@@ -366,7 +366,7 @@ pub fn decode_field(
                     &type_argument,
                 ) {
                     rvalue = format!(
-                        "{} as {}",
+                        "({}) as {}",
                         rvalue,
                         type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                     );
@@ -401,7 +401,7 @@ pub fn decode_field(
                         requires_cloning = ".clone()".into();
                     }
                     let mut rvalue = format!(
-                        "{}{}",
+                        "({}){}",
                         generate_expression(&type_argument, type_generator, scope),
                         requires_cloning
                     );
@@ -411,7 +411,7 @@ pub fn decode_field(
                         &type_argument,
                     ) {
                         rvalue = format!(
-                            "{} as {}",
+                            "({}) as {}",
                             rvalue,
                             type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                         );
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 7d439f0..ae327db 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -247,13 +247,13 @@ pub fn encode_field(
                 &type_argument,
             ) {
                 rvalue = format!(
-                    "{} as {}",
+                    "({}) as {}",
                     rvalue,
                     type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                 );
             }
             function.line(format!(
-                "assert!({}.{} == {});",
+                "assert!({}.{} == ({}));",
                 &element_name,
                 TypeGenerator::convert_field_name(&type_parameter.borrow().name),
                 rvalue,
-- 
2.43.0


From 2161c6f08b56ec65c2a137e7c097a6f88313f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 26/42] fix: evaluate integer expressions without overflowing

The generated code evaluated integer expressions with the types of the
fields, so that 'uint8 values[a + b]' panicked (or wrapped) when the sum
did not fit into 8 bits, and divided by zero when reading such data.
Evaluate them with 64 bits, and compare integers by their values.
---
 .../ast/evaluate_mixing_native_types.rs       | 125 ++++------------
 .../src/internal/ast/expression.rs            |  23 ++-
 .../src/internal/generator/expression.rs      | 133 +++++++++++++++---
 .../src/internal/generator/zconst.rs          |  17 ++-
 4 files changed, 167 insertions(+), 131 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index ddd2e72..23a5d99 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -28,118 +28,45 @@ pub fn evaluate_mixing_float_types(
     }
 }
 
-fn get_integer_rank(integer_type: &TypeReference) -> u8 {
-    // if the bit length is dynamic, always assume 64bits
-    if integer_type.length_expression.is_some() {
-        return 64;
-    }
-    if integer_type.bits != 0 {
-        return integer_type.bits;
-    }
-    match integer_type.name.as_str() {
-        "int8" => 8,
-        "int16" => 16,
-        "int32" => 32,
-        "int64" => 64,
-        "varint16" => 15,
-        "varint32" => 29,
-        "varint64" => 57,
-        "varint" => 64,
-        "uint8" => 8,
-        "uint16" => 16,
-        "uint32" => 32,
-        "varuint16" => 15,
-        "varuint32" => 29,
-        "varuint64" => 57,
-        "varsize" => 31,
-        "varuint" => 64,
-        _ => panic!("unexpected integer type {:?}", integer_type),
-    }
-}
-
-pub fn is_signed(int_type_name: &str) -> bool {
-    match int_type_name {
-        "int8" => true,
-        "int16" => true,
-        "int32" => true,
-        "int64" => true,
-        "varint16" => true,
-        "varint32" => true,
-        "varint64" => true,
-        "varint" => true,
-        "uint8" => false,
-        "uint16" => false,
-        "uint32" => false,
-        "varuint16" => false,
-        "varuint32" => false,
-        "varuint64" => false,
-        "varsize" => false,
-        "varuint" => false,
-        _ => panic!("unexpected integer type {:?}", int_type_name),
-    }
-}
-
-pub fn convert_to_unsigned(int_type_name: &str) -> String {
-    match int_type_name {
-        "int8" => "uint8".into(),
-        "int16" => "uint16".into(),
-        "int32" => "uint32".into(),
-        "int64" => "uint64".into(),
-        "varint16" => "varuint16".into(),
-        "varint32" => "varuint32".into(),
-        "varint64" => "varuint64".into(),
-        "varint" => "varuint".into(),
-        _ => panic!("unexpected signed integer type {:?}", int_type_name),
+/// Integer expressions are evaluated with 64 bits, as the result may not fit into the types of
+/// the operands. They are signed, unless an operand is an unsigned 64-bit value.
+/// Expressions of literals have no type.
+pub fn evaluate_mixing_integer_types(
+    type1: &Option<TypeReference>,
+    type2: &Option<TypeReference>,
+) -> Option<TypeReference> {
+    let is_unsigned_64bit = |native_type: &TypeReference| match native_type.name.as_str() {
+        "uint64" | "varuint" => true,
+        "bit" => native_type.bits == 64,
+        _ => false,
+    };
+    if type1.is_none() && type2.is_none() {
+        return None;
     }
+    let is_unsigned = [type1, type2].into_iter().flatten().any(is_unsigned_64bit);
+    Some(TypeReference::new_native_type(if is_unsigned {
+        "uint64"
+    } else {
+        "int64"
+    }))
 }
 
-pub fn evaluate_mixing_integer_types(
+/// Evaluates the type of an expression which has the value of one of its operands.
+pub fn evaluate_mixing_types(
     type1: &Option<TypeReference>,
     type2: &Option<TypeReference>,
 ) -> Option<TypeReference> {
-    // For now, we use the same logic as C++ when mixing integer types:
-    // Mixing signed/unsigned values of the same type (in the sequence of int16, int32, int64),
-    // the unsigned type will win.
-    // Mixing different ranks result in the higher rank being used.
     match (type1, type2) {
         (Some(t1), Some(t2)) => {
-            // If both types are set, check if they are the same type.
             if compare_native_types(t1, t2) {
                 return type1.clone();
             }
-
-            // Check if there is a mix in signed/unsigned. If yes, the final
-            // type will be a unsigned type (like C++, unsigned wins).
-            let t1_is_signed = is_signed(t1.name.as_str());
-            let t2_is_signed = is_signed(t2.name.as_str());
-            let result_is_signed = t1_is_signed && t2_is_signed;
-
-            // Pick the higher rank.
-            let t1_rank = get_integer_rank(t1);
-            let t2_rank = get_integer_rank(t2);
-
-            if t1_rank > t2_rank {
-                if t1_is_signed == result_is_signed {
-                    // type 1 wins
-                    return Some(t1.clone());
-                }
-                // t1 rank wins, but t2 sign wins
-                let mut result_type = t1.clone();
-                result_type.name = convert_to_unsigned(result_type.name.as_str());
-                return Some(result_type);
-            }
-            if t2_is_signed == result_is_signed {
-                // type 2 wins
-                return Some(t2.clone());
+            if t1.name.starts_with("float") || t2.name.starts_with("float") {
+                return evaluate_mixing_float_types(type1, type2);
             }
-            // t2 rank wins, but t1 sign wins
-            let mut result_type = t2.clone();
-            result_type.name = convert_to_unsigned(result_type.name.as_str());
-            Some(result_type)
+            evaluate_mixing_integer_types(type1, type2)
         }
-        // Handle cases such as "u16Var + 12"
         (Some(_), None) => type1.clone(),
-        (None, Some(_)) => type2.clone(),
-        (None, None) => None,
+        (None, _) => type2.clone(),
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 49933ba..bddbeae 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -1,7 +1,7 @@
 use crate::internal::ast::zbitmask::ZBitmaskType;
 
 use crate::internal::ast::evaluate_mixing_native_types::{
-    evaluate_mixing_float_types, evaluate_mixing_integer_types,
+    evaluate_mixing_float_types, evaluate_mixing_integer_types, evaluate_mixing_types,
 };
 use crate::internal::ast::zenum::ZEnum;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
@@ -342,7 +342,13 @@ impl Expression {
                 match op1.result_type {
                     ExpressionType::Integer(value) => match self.expression_type {
                         PLUS => self.result_type = ExpressionType::Integer(value),
-                        MINUS => self.result_type = ExpressionType::Integer(-value),
+                        MINUS => {
+                            self.result_type = ExpressionType::Integer(-value);
+                            // The negative value does not fit into an unsigned type.
+                            if op1.native_type.is_some() {
+                                self.native_type = Some(TypeReference::new_native_type("int64"));
+                            }
+                        }
                         _ => panic!("unexpected unary integer expression"),
                     },
                     ExpressionType::Float(value) => match self.expression_type {
@@ -526,7 +532,7 @@ impl Expression {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
                     self.result_type = ExpressionType::Integer(!value);
-                    self.native_type.clone_from(&op1.native_type);
+                    self.native_type = evaluate_mixing_integer_types(&op1.native_type, &None);
                 }
                 _ => {
                     panic!("bitwise negation expression can only be applied to integer expressions")
@@ -549,6 +555,8 @@ impl Expression {
                         _ => panic!("unexpected bitwise expression"),
                     };
                     self.result_type = ExpressionType::Integer(result);
+                    self.native_type =
+                        evaluate_mixing_integer_types(&op1.native_type, &op2.native_type);
                 }
                 (ExpressionType::BitMask(_), ExpressionType::Integer(_))
                 | (ExpressionType::Integer(_), ExpressionType::BitMask(_))
@@ -586,6 +594,10 @@ impl Expression {
     fn evaluate_ternary_expression(&mut self) {
         match self.operand1.as_ref().unwrap().result_type {
             ExpressionType::Bool(condition) => {
+                self.native_type = evaluate_mixing_types(
+                    &self.operand2.as_ref().unwrap().native_type,
+                    &self.operand3.as_ref().unwrap().native_type,
+                );
                 if condition {
                     let op2 = self.operand2.as_ref().unwrap();
                     self.result_type.clone_from(&op2.result_type);
@@ -685,10 +697,7 @@ fn type_reference_to_expression_type(
             || type_ref.name.starts_with("uint")
             || type_ref.name.starts_with("varint")
         {
-            (
-                ExpressionType::Integer(0),
-                Some(TypeReference::new_native_type(type_ref.name.as_str())),
-            )
+            (ExpressionType::Integer(0), Some(type_ref.clone()))
         } else {
             panic!("failed to determine builtin type reference type");
         }
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index b46d8c3..ed5661d 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -3,6 +3,7 @@ use crate::internal::ast::expression::{
 };
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
+use crate::internal::generator::casts::expression_requires_cast;
 use crate::internal::generator::types::{convert_to_enum_field_name, TypeGenerator};
 use crate::internal::parser::gen::zserioparser::{
     AND, BANG, BINARY_LITERAL, BOOL_LITERAL, DECIMAL_LITERAL, DIVIDE, DOT, DOUBLE_LITERAL, EQ,
@@ -73,15 +74,30 @@ fn generate_unary_arithmetic_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
-    format!(
-        "{}{}",
-        match expression.expression_type {
-            PLUS => "+",
-            MINUS => "-",
-            _ => panic!("unexpected unary arithmetic expression operator"),
+    let op1 = generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
+    match expression.expression_type {
+        PLUS => op1,
+        MINUS => match get_integer_type(expression, type_generator) {
+            Some(rust_type) => format!("(({op1}) as {rust_type}).wrapping_neg()"),
+            None => format!("-{op1}"),
         },
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-    )
+        _ => panic!("unexpected unary arithmetic expression operator"),
+    }
+}
+
+/// The rust type of integer expressions, unless they consist of literals only.
+fn get_integer_type(expression: &Expression, type_generator: &mut TypeGenerator) -> Option<String> {
+    match (&expression.result_type, &expression.native_type) {
+        (ExpressionType::Integer(_), Some(native_type)) => {
+            Some(type_generator.ztype_to_rust_type(native_type))
+        }
+        _ => None,
+    }
+}
+
+/// Resolves the result of a checked operation, in a way that may also be used for constants.
+fn some_or_zero(checked_operation: String) -> String {
+    format!("(match {checked_operation} {{ Some(value) => value, None => 0 }})")
 }
 
 fn generate_arithmetic_expression(
@@ -95,6 +111,25 @@ fn generate_arithmetic_expression(
         return generate_unary_arithmetic_expression(expression, type_generator, scope);
     }
 
+    // The result of an integer expression may not fit into its type, and divisors may be zero.
+    // The values may have been read from damaged data, so this must not panic.
+    if let Some(rust_type) = get_integer_type(expression, type_generator) {
+        let op1 = generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
+        let op2 = generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope);
+        let (op1, op2) = (
+            format!("(({op1}) as {rust_type})"),
+            format!("(({op2}) as {rust_type})"),
+        );
+        return match expression.expression_type {
+            PLUS => format!("{op1}.wrapping_add({op2})"),
+            MINUS => format!("{op1}.wrapping_sub({op2})"),
+            MULTIPLY => format!("{op1}.wrapping_mul({op2})"),
+            DIVIDE => some_or_zero(format!("{op1}.checked_div({op2})")),
+            MODULO => some_or_zero(format!("{op1}.checked_rem({op2})")),
+            _ => panic!("unexpected arithmetic expression operator"),
+        };
+    }
+
     // Check if casts are required
     let mut op1 = generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
     let mut op2 = generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope);
@@ -262,7 +297,7 @@ fn generate_valueof_expression(
     };
 
     format!(
-        "{}{} as {}",
+        "({}{} as {})",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         bitmask_suffix,
         type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type),
@@ -286,7 +321,7 @@ fn generate_numbits_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "(zserio::numbits({}) as u32)",
+        "(zserio::numbits(({}) as u64) as u32)",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
     )
 }
@@ -345,11 +380,41 @@ if {} {{
     {}
 }}",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand3.as_ref().unwrap(), type_generator, scope),
+        generate_ternary_operand(
+            expression,
+            expression.operand2.as_ref().unwrap(),
+            type_generator,
+            scope
+        ),
+        generate_ternary_operand(
+            expression,
+            expression.operand3.as_ref().unwrap(),
+            type_generator,
+            scope
+        ),
     )
 }
 
+/// Generates one of the values of a ternary expression, which must both have the same type.
+fn generate_ternary_operand(
+    expression: &Expression,
+    operand: &Expression,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let generated_code = generate_expression(operand, type_generator, scope);
+    match &expression.native_type {
+        Some(native_type) if expression_requires_cast(native_type, type_generator, operand) => {
+            format!(
+                "(({}) as {})",
+                generated_code,
+                type_generator.ztype_to_rust_type(native_type)
+            )
+        }
+        _ => generated_code,
+    }
+}
+
 fn generate_logical_negation(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
@@ -366,10 +431,11 @@ fn generate_bitwise_negation(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
-    format!(
-        "~{}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
-    )
+    let op1 = generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
+    match get_integer_type(expression, type_generator) {
+        Some(rust_type) => format!("!(({op1}) as {rust_type})"),
+        None => format!("!{op1}"),
+    }
 }
 
 fn generate_bitwise_expression(
@@ -377,9 +443,20 @@ fn generate_bitwise_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let mut op1 = generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
+    let mut op2 = generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope);
+    if let Some(rust_type) = get_integer_type(expression, type_generator) {
+        op1 = format!("(({op1}) as {rust_type})");
+        // Shifting by more bits than there are must not panic.
+        match expression.expression_type {
+            LSHIFT => return some_or_zero(format!("{op1}.checked_shl(({op2}) as u32)")),
+            RSHIFT => return some_or_zero(format!("{op1}.checked_shr(({op2}) as u32)")),
+            _ => op2 = format!("(({op2}) as {rust_type})"),
+        }
+    }
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        op1,
         match expression.expression_type {
             AND => "&",
             OR => "|",
@@ -388,7 +465,7 @@ fn generate_bitwise_expression(
             RSHIFT => ">>",
             _ => panic!("unexpected bitwise expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        op2,
     )
 }
 
@@ -414,9 +491,25 @@ fn generate_comparison_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let operand1 = expression.operand1.as_ref().unwrap();
+    let operand2 = expression.operand2.as_ref().unwrap();
+    let mut op1 = generate_expression(operand1, type_generator, scope);
+    let mut op2 = generate_expression(operand2, type_generator, scope);
+
+    // Integers of different types are compared with a type that holds all of their values.
+    if let (Some(rust_type1), Some(rust_type2)) = (
+        get_integer_type(operand1, type_generator),
+        get_integer_type(operand2, type_generator),
+    ) {
+        if rust_type1 != rust_type2 {
+            op1 = format!("(({op1}) as i128)");
+            op2 = format!("(({op2}) as i128)");
+        }
+    }
+
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        op1,
         match expression.expression_type {
             EQ => "==",
             LE => "<=",
@@ -426,7 +519,7 @@ fn generate_comparison_expression(
             NE => "!=",
             _ => panic!("unexpected comparison expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        op2,
     )
 }
 
diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index ce8eeff..8a4f8e9 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -1,6 +1,7 @@
 use crate::internal::ast::zconst::ZConst;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::generator::casts::expression_requires_cast;
 use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::file_generator::write_to_file;
 use crate::internal::generator::preamble::add_standard_imports;
@@ -40,15 +41,21 @@ pub fn generate_constant(
         "&str".clone_into(&mut field_type);
     }
 
+    let value_expression = zconst.value_expression.borrow();
+    let mut value = generate_expression(&value_expression, type_generator, symbol_scope);
+    if expression_requires_cast(
+        &fundamental_type.fundamental_type,
+        type_generator,
+        &value_expression,
+    ) {
+        value = format!("({value}) as {field_type}");
+    }
+
     file_content += format!(
         "pub const {}: {} = {};\n",
         to_rust_constant_name(&zconst.name),
         field_type,
-        generate_expression(
-            &zconst.value_expression.borrow(),
-            type_generator,
-            symbol_scope
-        ),
+        value,
     )
     .as_str();
 
-- 
2.43.0


From a3410408c69866d77f3c74d7ef607edcccc7cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 27/42] fix: give every instantiation of a template expressions
 of its own

The instantiations shared the expressions of functions, conditions, array lengths and
arguments, so their types were those of whichever instantiation was evaluated first. Type
parameters of choices that are template parameters were not instantiated at all.
---
 .../compiler/template_instantiation.rs        | 85 +++++++++++++++----
 1 file changed, 70 insertions(+), 15 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index 6235097..da3080f 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -1,5 +1,5 @@
 use crate::internal::ast::expression::Expression;
-use crate::internal::ast::field::Field;
+use crate::internal::ast::field::{Array, Field};
 use crate::internal::ast::package::ZPackage;
 use crate::internal::ast::parameter::Parameter;
 use crate::internal::ast::type_reference::TypeReference;
@@ -142,6 +142,55 @@ fn generate_instantiated_name(type_reference: &TypeReference) -> String {
     new_name
 }
 
+/// Copies an expression of a template. Every instantiation needs its own expressions, because
+/// their types depend on the template arguments.
+fn copy_expression(expression: &Rc<RefCell<Expression>>) -> Rc<RefCell<Expression>> {
+    Rc::new(RefCell::new(expression.borrow().clone()))
+}
+
+fn copy_type_reference(type_reference: &TypeReference) -> TypeReference {
+    TypeReference {
+        template_arguments: type_reference
+            .template_arguments
+            .iter()
+            .map(copy_type_reference)
+            .collect(),
+        type_arguments: type_reference
+            .type_arguments
+            .iter()
+            .map(copy_expression)
+            .collect(),
+        length_expression: type_reference
+            .length_expression
+            .as_ref()
+            .map(copy_expression),
+        ..type_reference.clone()
+    }
+}
+
+fn copy_field(field: &Field) -> Field {
+    Field {
+        field_type: Box::new(copy_type_reference(&field.field_type)),
+        initializer: field.initializer.as_ref().map(copy_expression),
+        offset: field.offset.as_ref().map(copy_expression),
+        constraint: field.constraint.as_ref().map(copy_expression),
+        optional_clause: field.optional_clause.as_ref().map(copy_expression),
+        array: field.array.as_ref().map(|array| Array {
+            array_length_expression: array.array_length_expression.as_ref().map(copy_expression),
+            ..array.clone()
+        }),
+        ..field.clone()
+    }
+}
+
+fn copy_function(function: &ZFunction) -> ZFunction {
+    ZFunction {
+        name: function.name.clone(),
+        result: copy_expression(&function.result),
+        return_type: Box::new(copy_type_reference(&function.return_type)),
+    }
+}
+
 fn instantiate_struct(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
@@ -233,13 +282,13 @@ fn instantiate_struct(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: copy_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_struct
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(copy_function(&function))));
         }
     }
 
@@ -299,7 +348,7 @@ fn instantiate_choice(
         name: instantiated_name.clone(),
         template_parameters: vec![],
         type_parameters: vec![],
-        selector_expression: z_choice.selector_expression.clone(),
+        selector_expression: copy_expression(&z_choice.selector_expression),
         cases: vec![],
         default_case: None,
         functions: vec![],
@@ -308,7 +357,7 @@ fn instantiate_choice(
     // Instantiate the choice fields
     for case in &z_choice.cases {
         instantiated_choice.cases.push(ZChoiceCase {
-            conditions: case.conditions.clone(),
+            conditions: case.conditions.iter().map(copy_expression).collect(),
             field: {
                 if let Some(field) = &case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
@@ -326,7 +375,11 @@ fn instantiate_choice(
     // Instantiate the default field, if present
     if let Some(default_case) = &z_choice.default_case {
         instantiated_choice.default_case = Option::from(ZChoiceCase {
-            conditions: default_case.conditions.clone(),
+            conditions: default_case
+                .conditions
+                .iter()
+                .map(copy_expression)
+                .collect(),
             field: {
                 if let Some(field) = &default_case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
@@ -346,14 +399,14 @@ fn instantiate_choice(
     for rc_param in &z_choice.type_parameters {
         // Check if the parameter is a templated type
         let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.name) {
+        if instantiated_types.contains_key(&param.zserio_type.name) {
             // The parameter is a templated type, so replace the parameter
             // type by a reference to the newly instantiated type.
             instantiated_choice
                 .type_parameters
                 .push(Rc::new(RefCell::new(Parameter {
                     name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.name].clone()),
+                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
                 })));
         } else {
             // The parameter is not templated, and is not affected by template instantiation.
@@ -372,13 +425,13 @@ fn instantiate_choice(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: copy_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_choice
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(copy_function(&function))));
         }
     }
     // Add the newly added choice to the package.
@@ -483,13 +536,13 @@ fn instantiate_union(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: copy_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_union
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(copy_function(&function))));
         }
     }
 
@@ -508,7 +561,7 @@ pub fn instantiate_field(
     field: &Field,
     instantiated_types: &HashMap<String, TypeReference>,
 ) -> Field {
-    let mut new_field = field.clone();
+    let mut new_field = copy_field(field);
     if !new_field.field_type.template_arguments.is_empty() {
         // The field type is not a template type itself, but by itself is a template,
         // which is using the template type in its template parameters.
@@ -536,10 +589,12 @@ pub fn instantiate_field(
     if instantiated_types.contains_key(&field.field_type.name) {
         new_field.field_type = Box::from(instantiated_types[&field.field_type.name].clone());
         // copy the parameters, if set
-        new_field
+        new_field.field_type.type_arguments = field
             .field_type
             .type_arguments
-            .clone_from(&field.field_type.type_arguments);
+            .iter()
+            .map(copy_expression)
+            .collect();
     }
     new_field
 }
-- 
2.43.0


From e9f3f8e950807117c59424e3d588a2baf7c0ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 28/42] fix: refuse implicit arrays instead of treating them as
 auto arrays

An implicit array has no length in the data, so what was read and written for it was not
what other zserio implementations read and write.
---
 crates/zserio-rs-build/src/internal/visitor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index d0f5cdd..f25fda1 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -621,6 +621,9 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
         // check if the field is an array
         let mut array: Option<Array> = None;
         if let Some(rc_arr_ctx) = ctx.fieldArrayRange() {
+            if ctx.IMPLICIT().is_some() {
+                panic!("field {field_name:?}: implicit arrays are not supported");
+            }
             let mut array_length_exp = None;
             if let Some(array_length_expression_ctx) = rc_arr_ctx.expression() {
                 match self.visit(&*array_length_expression_ctx) {
-- 
2.43.0


From 7c92c85d4e9f61dddae45dfabd44775c9df3bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 29/42] fix: accept parameters that are NaN when writing

NaNs, and objects that hold them, are not equal to themselves, so the check of the parameters
panicked although they had been passed correctly.
---
 .../src/internal/generator/encode.rs          | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index ae327db..d184267 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -1,4 +1,5 @@
 use crate::internal::ast::field::Field;
+use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::initialize_array_trait;
@@ -252,11 +253,26 @@ pub fn encode_field(
                     type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                 );
             }
-            function.line(format!(
-                "assert!({}.{} == ({}));",
+            let parameter = format!(
+                "{}.{}",
                 &element_name,
                 TypeGenerator::convert_field_name(&type_parameter.borrow().name),
-                rvalue,
+            );
+            // NaNs, and the objects that hold them, are not even equal to themselves.
+            let parameter_type = type_parameter.borrow().zserio_type.clone();
+            let rust_type = type_generator.ztype_to_rust_type(&parameter_type);
+            let both_unequal_to_themselves = if rust_type == "f32" || rust_type == "f64" {
+                format!(" || ({parameter}.is_nan() && {rust_type}::is_nan({rvalue}))")
+            } else if !get_fundamental_type(&parameter_type, scope)
+                .fundamental_type
+                .is_builtin
+            {
+                format!(" || ({parameter}.ne(&{parameter}) && ({rvalue}).ne(&({rvalue})))")
+            } else {
+                String::new()
+            };
+            function.line(format!(
+                "assert!({parameter} == ({rvalue}){both_unequal_to_themselves});"
             ));
         }
 
-- 
2.43.0


From ef91debce295e4147a252ab6305d7349f6392a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 30/42] fix: array elements and @index in expressions

The bindings did not compile, as the index was no usize, and elements had no type. Indexes
read from damaged data panicked.
---
 .../zserio-rs-build/src/internal/ast/expression.rs   | 12 ++++++++++--
 .../src/internal/generator/expression.rs             |  5 +++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index bddbeae..b9457d2 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -159,9 +159,16 @@ impl Expression {
             Some(op1) => {
                 match &op1.result_type {
                     ExpressionType::Compound => {}
-                    ExpressionType::Integer(_) => {} // for @index expressions in offset
-                    _ => panic!("unexpected array expression index type"),
+                    ExpressionType::Function(_) | ExpressionType::Other => {
+                        panic!("unexpected array expression index type")
+                    }
+                    // the type of an array is the one of its elements
+                    element_type => {
+                        self.result_type = element_type.clone();
+                        self.native_type.clone_from(&op1.native_type);
+                    }
                 }
+                self.fully_resolved = false;
             }
             _ => panic!("array element requires an operand to be set"),
         }
@@ -616,6 +623,7 @@ impl Expression {
 
     fn evaluate_index_expression(&mut self) {
         self.result_type = ExpressionType::Integer(0);
+        self.native_type = Some(TypeReference::new_native_type("varsize"));
         self.fully_resolved = false;
     }
 
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index ed5661d..cd5dcd4 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -205,8 +205,9 @@ fn generate_bracketed_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    // The index may have been read from damaged data, so this must not panic.
     format!(
-        "{}[{}]",
+        "{}.get(({}) as usize).cloned().unwrap_or_default()",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
     )
@@ -563,5 +564,5 @@ fn generate_literal_expression(expression: &Expression) -> String {
 fn generate_index_operator() -> String {
     // Make sure this variable name matches the one used in encode/decode code generators
     // where the parameters are passed.
-    "param_index".into()
+    "(param_index as u32)".into()
 }
-- 
2.43.0


From 0b156f106dd70290b327e5d1a50e29fe9a3cfcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 31/42] fix: mixed types and literals in float expressions

The bindings did not compile if floats of different types were compared, if integer literals
were used as floats, or if float literals had no fraction. Literals were rounded to 32 bits
before comparing them with a float32.
---
 .../src/internal/generator/casts.rs           |  9 +++-
 .../src/internal/generator/expression.rs      | 41 +++++++++++++++----
 .../zserio-rs-build/src/internal/visitor.rs   |  6 +++
 3 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/casts.rs b/crates/zserio-rs-build/src/internal/generator/casts.rs
index d13505c..929104e 100644
--- a/crates/zserio-rs-build/src/internal/generator/casts.rs
+++ b/crates/zserio-rs-build/src/internal/generator/casts.rs
@@ -21,7 +21,14 @@ pub fn expression_requires_cast(
         ExpressionType::Integer(_) | ExpressionType::BitMask(_) | ExpressionType::Float(_) => {
             match &expression.native_type {
                 Some(native_type) => requires_cast(target_type, native_type, type_generator),
-                None => false,
+                // integer literals adapt to every integer type, but not to floats
+                None => {
+                    matches!(expression.result_type, ExpressionType::Integer(_))
+                        && matches!(
+                            type_generator.ztype_to_rust_type(target_type).as_str(),
+                            "f32" | "f64"
+                        )
+                }
             }
         }
         _ => false,
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index cd5dcd4..1dbe541 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -95,6 +95,26 @@ fn get_integer_type(expression: &Expression, type_generator: &mut TypeGenerator)
     }
 }
 
+/// The rust type of float expressions.
+fn get_float_type(expression: &Expression, type_generator: &mut TypeGenerator) -> Option<String> {
+    match (&expression.result_type, &expression.native_type) {
+        (ExpressionType::Float(_), Some(native_type)) => {
+            Some(type_generator.ztype_to_rust_type(native_type))
+        }
+        _ => None,
+    }
+}
+
+/// The rust type of an operand of float expressions.
+fn get_number_type(operand: &Expression, type_generator: &mut TypeGenerator) -> Option<String> {
+    match (&operand.result_type, &operand.native_type) {
+        (_, Some(native_type)) => Some(type_generator.ztype_to_rust_type(native_type)),
+        // integer literals adapt to every integer type, but not to floats
+        (ExpressionType::Integer(_), None) => Some("i32".into()),
+        _ => None,
+    }
+}
+
 /// Resolves the result of a checked operation, in a way that may also be used for constants.
 fn some_or_zero(checked_operation: String) -> String {
     format!("(match {checked_operation} {{ Some(value) => value, None => 0 }})")
@@ -152,12 +172,10 @@ fn generate_arithmetic_expression(
         ExpressionType::Integer(_) | ExpressionType::BitMask(_) | ExpressionType::Float(_) => {
             if let Some(native_type) = &expression.native_type {
                 expression_type = Some(type_generator.ztype_to_rust_type(native_type));
-                if let Some(op1_native_type) = &expression.operand1.as_ref().unwrap().native_type {
-                    op1_rust_type = Some(type_generator.ztype_to_rust_type(op1_native_type));
-                }
-                if let Some(op2_native_type) = &expression.operand2.as_ref().unwrap().native_type {
-                    op2_rust_type = Some(type_generator.ztype_to_rust_type(op2_native_type));
-                }
+                op1_rust_type =
+                    get_number_type(expression.operand1.as_ref().unwrap(), type_generator);
+                op2_rust_type =
+                    get_number_type(expression.operand2.as_ref().unwrap(), type_generator);
             }
         }
         ExpressionType::String(_) => {
@@ -507,6 +525,15 @@ fn generate_comparison_expression(
             op2 = format!("(({op2}) as i128)");
         }
     }
+    if let (Some(rust_type1), Some(rust_type2)) = (
+        get_float_type(operand1, type_generator),
+        get_float_type(operand2, type_generator),
+    ) {
+        if rust_type1 != rust_type2 {
+            op1 = format!("(({op1}) as f64)");
+            op2 = format!("(({op2}) as f64)");
+        }
+    }
 
     format!(
         "{} {} {}",
@@ -541,7 +568,7 @@ fn generate_literal_expression(expression: &Expression) -> String {
         DECIMAL_LITERAL => i32::to_string(&int_value),
         HEXADECIMAL_LITERAL => format!("{int_value:#x}"),
         OCTAL_LITERAL => format!("{int_value:#o}"),
-        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{}", &float_value),
+        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{:?}", &float_value),
         BOOL_LITERAL => {
             if bool_value {
                 String::from("true")
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index f25fda1..f163bca 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -1006,6 +1006,12 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             _ if literal_ctx.STRING_LITERAL().is_some() => {
                 Some(TypeReference::new_native_type("string"))
             }
+            _ if literal_ctx.FLOAT_LITERAL().is_some() => {
+                Some(TypeReference::new_native_type("float32"))
+            }
+            _ if literal_ctx.DOUBLE_LITERAL().is_some() => {
+                Some(TypeReference::new_native_type("float64"))
+            }
             _ => None,
         };
 
-- 
2.43.0


From 36dd55e56b9cfa761dfc308a4cc73ffc6b13bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 32/42] fix: own the strings and objects that expressions
 evaluate to

The bindings did not compile if functions return strings or compound types, if conditional
expressions have such operands, or if string literals are arguments of types.
---
 .../src/internal/generator/decode.rs          | 26 ++++++++++---------
 .../src/internal/generator/expression.rs      |  7 ++++-
 .../src/internal/generator/function.rs        | 14 ++++++----
 3 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index 2b91c5f..f65ce5f 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -1,3 +1,4 @@
+use crate::internal::ast::expression::{Expression, ExpressionType};
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::casts::expression_requires_cast;
@@ -120,6 +121,16 @@ pub fn generate_field_reset(function: &mut Function, field_details: &FieldDetail
     ));
 }
 
+/// Returns how the value of a type argument becomes one that the parameter can own.
+fn clone_argument(type_argument: &Expression) -> &'static str {
+    match type_argument.result_type {
+        // string literals and constants are no owned strings
+        ExpressionType::String(_) => ".to_string()",
+        _ if type_argument.fully_resolved => "",
+        _ => ".clone()",
+    }
+}
+
 pub fn decode_field(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
@@ -248,10 +259,7 @@ pub fn decode_field(
                 let type_argument = type_argument_rc.borrow();
 
                 let type_parameter = &type_parameters[param_index];
-                let mut requires_cloning = String::from("");
-                if !type_argument.fully_resolved {
-                    requires_cloning = ".clone()".into();
-                }
+                let requires_cloning = clone_argument(&type_argument);
                 let mut rvalue = format!(
                     "({}){}",
                     generate_expression(&type_argument, type_generator, scope),
@@ -351,10 +359,7 @@ pub fn decode_field(
                     continue;
                 }
                 let type_parameter = &type_parameters[param_index];
-                let mut requires_cloning = String::from("");
-                if !type_argument.fully_resolved {
-                    requires_cloning = ".clone()".into();
-                }
+                let requires_cloning = clone_argument(&type_argument);
                 let mut rvalue = format!(
                     "({}){}",
                     generate_expression(&type_argument, type_generator, scope),
@@ -396,10 +401,7 @@ pub fn decode_field(
                         continue;
                     }
                     let type_parameter = &type_parameters[param_index];
-                    let mut requires_cloning = String::from("");
-                    if !type_argument.fully_resolved {
-                        requires_cloning = ".clone()".into();
-                    }
+                    let requires_cloning = clone_argument(&type_argument);
                     let mut rvalue = format!(
                         "({}){}",
                         generate_expression(&type_argument, type_generator, scope),
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 1dbe541..565c004 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -430,7 +430,12 @@ fn generate_ternary_operand(
                 type_generator.ztype_to_rust_type(native_type)
             )
         }
-        _ => generated_code,
+        // these can not be moved out of the object they belong to
+        _ => match operand.result_type {
+            ExpressionType::String(_) => format!("({generated_code}).to_string()"),
+            ExpressionType::Compound => format!("({generated_code}).clone()"),
+            _ => generated_code,
+        },
     }
 }
 
diff --git a/crates/zserio-rs-build/src/internal/generator/function.rs b/crates/zserio-rs-build/src/internal/generator/function.rs
index 005a28f..c0e978a 100644
--- a/crates/zserio-rs-build/src/internal/generator/function.rs
+++ b/crates/zserio-rs-build/src/internal/generator/function.rs
@@ -1,3 +1,4 @@
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zfunction::ZFunction;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::expression::generate_expression;
@@ -23,17 +24,20 @@ pub fn generate_function(
     fn_gen_scope.arg_ref_self();
     fn_gen_scope.vis("pub");
 
-    if zserio_function.return_type.is_builtin
-        && zserio_function.return_type.name == "string"
-        && !zserio_function.result.as_ref().borrow().fully_resolved
-    {
+    let clone_function = match zserio_function.result.as_ref().borrow().result_type {
+        ExpressionType::String(_) => "to_string",
+        ExpressionType::Compound => "clone",
+        _ => "",
+    };
+    if !clone_function.is_empty() {
         fn_gen_scope.line(format!(
-            "{}.clone()",
+            "({}).{}()",
             generate_expression(
                 &zserio_function.result.as_ref().borrow(),
                 type_generator,
                 scope
             ),
+            clone_function,
         ));
     } else {
         // Generate the function content.
-- 
2.43.0


From 30e90daa8c7a24178394633b25ebe1df311a7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 33/42] fix: fields of array elements in expressions

Elements have the type of the array, whatever type that is.
---
 .../src/internal/ast/expression.rs               | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index b9457d2..b9173ff 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -157,17 +157,13 @@ impl Expression {
     fn evaluate_array_element(&mut self, _scope: &mut ModelScope) {
         match &self.operand1 {
             Some(op1) => {
-                match &op1.result_type {
-                    ExpressionType::Compound => {}
-                    ExpressionType::Function(_) | ExpressionType::Other => {
-                        panic!("unexpected array expression index type")
-                    }
-                    // the type of an array is the one of its elements
-                    element_type => {
-                        self.result_type = element_type.clone();
-                        self.native_type.clone_from(&op1.native_type);
-                    }
+                if let ExpressionType::Function(_) | ExpressionType::Other = &op1.result_type {
+                    panic!("unexpected array expression index type");
                 }
+                // the type of an array is the one of its elements
+                self.result_type = op1.result_type.clone();
+                self.native_type.clone_from(&op1.native_type);
+                self.symbol.clone_from(&op1.symbol);
                 self.fully_resolved = false;
             }
             _ => panic!("array element requires an operand to be set"),
-- 
2.43.0


From fb96fb0ac469717262211092ddaf06b91a075abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 34/42] fix: bitmask values of several bits

Values without a number continued with a shifted value instead of the next free bit, and values
with bits that are lower than those of the previous value were refused.
---
 .../src/internal/ast/zbitmask.rs              | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
index 158afeb..7b481b7 100644
--- a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
@@ -2,6 +2,7 @@ use super::type_reference::TypeReference;
 use crate::internal::ast::expression::{Expression, ExpressionType};
 use crate::internal::compiler::symbol_scope::{ModelScope, PackageScope, Symbol};
 use std::cell::RefCell;
+use std::collections::HashSet;
 use std::rc::Rc;
 
 #[derive(Debug)]
@@ -37,6 +38,7 @@ impl ZBitmaskType {
     /// Evaluates all expressions within this bitmask type.
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
         let mut bitmask_value = 1u64;
+        let mut known_values = HashSet::new();
         for value in &mut self.values {
             // Check if the bitmask value has a value hard-coded.
             // If yes, use the value from the expression.
@@ -48,19 +50,18 @@ impl ZBitmaskType {
                     ExpressionType::Integer(v) => v as u64,
                     _ => panic!("only integer bitmask values are supported"),
                 };
-                if expr_bitmask_value < bitmask_value && expr_bitmask_value != 0 {
-                    panic!("expression redefines bitmask value");
-                }
                 bitmask_value = expr_bitmask_value;
             }
+            // Values may consist of several bits, and may have any order.
+            if !known_values.insert(bitmask_value) {
+                panic!("expression redefines bitmask value");
+            }
             value.value = bitmask_value;
 
-            // Pick the next bit for the next bitmask value.
-            if bitmask_value == 0 {
-                bitmask_value = 1;
-            } else {
-                bitmask_value <<= 1;
-            }
+            // Pick the bit above all bits of this value for the next bitmask value.
+            bitmask_value = 1u64
+                .checked_shl(64 - bitmask_value.leading_zeros())
+                .unwrap_or(0);
         }
         self.zserio_type.evaluate(scope);
     }
-- 
2.43.0


From 4f98986aecba9c1a5d86a9daafdffadea680fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 35/42] fix: let only the selected case of a choice decide how
 it is packed

The contexts of all cases were initialized, with whatever the fields of the other cases hold. The
same contents were packed in different ways, and wider than necessary.
---
 .../src/internal/generator/zchoice.rs         | 82 ++++++++++---------
 1 file changed, 44 insertions(+), 38 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 6fdb197..c7442aa 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -108,14 +108,14 @@ pub fn generate_choice(
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
-    for field in &field_details {
-        generate_init_packed_context_for_field(
-            symbol_scope,
-            type_generator,
-            init_packing_context_fn,
-            field,
-        );
-    }
+    // Only the selected case is written: the others must not influence how it is packed.
+    generate_choice_match(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zchoice,
+        &generate_init_packed_context_for_field,
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -145,6 +145,40 @@ pub fn generate_choice_match_construct(
     zchoice: &ZChoice,
     packed: bool,
     f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
+) {
+    generate_choice_match(
+        symbol_scope,
+        type_generator,
+        code_gen_fn,
+        zchoice,
+        &|symbol_scope, type_generator, code_gen_fn, field_details| {
+            instantiate_zserio_array(
+                symbol_scope,
+                type_generator,
+                code_gen_fn,
+                &field_details.field.borrow(),
+                packed,
+                field_details.is_packable,
+            );
+            f(
+                symbol_scope,
+                type_generator,
+                code_gen_fn,
+                field_details,
+                packed,
+            );
+        },
+    );
+}
+
+/// Generates a match expression for the selector, with the code that `f` generates for the field
+/// of each case.
+fn generate_choice_match(
+    symbol_scope: &ModelScope,
+    type_generator: &mut TypeGenerator,
+    code_gen_fn: &mut Function,
+    zchoice: &ZChoice,
+    f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails),
 ) {
     let selector_name =
         TypeGenerator::convert_field_name(&zchoice.selector_expression.as_ref().borrow().text);
@@ -167,22 +201,8 @@ pub fn generate_choice_match_construct(
         if let Some(field) = &case.field {
             let field_details =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-            instantiate_zserio_array(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field.borrow(),
-                packed,
-                field_details.is_packable,
-            );
             context_node_index += 1;
-            f(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field_details,
-                packed,
-            );
+            f(symbol_scope, type_generator, code_gen_fn, &field_details);
         }
         code_gen_fn.line("},");
     }
@@ -191,21 +211,7 @@ pub fn generate_choice_match_construct(
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-            instantiate_zserio_array(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field.borrow(),
-                packed,
-                default_field.is_packable,
-            );
-            f(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &default_field,
-                packed,
-            );
+            f(symbol_scope, type_generator, code_gen_fn, &default_field);
         }
         code_gen_fn.line("},");
     } else {
-- 
2.43.0


From a7eab90206276f564ab511847410231f73a1c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 36/42] fix: count the default case among the fields of a
 choice

Elements of arrays of parameterized choices that consist of a default case only were generated
without their field.
---
 .../src/internal/generator/pass_parameters.rs            | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
index 4d3458c..03d32bf 100644
--- a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
+++ b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
@@ -26,7 +26,9 @@ pub fn number_of_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
     match symbol.symbol {
         Symbol::Choice(zchoice) => {
             let zchoice = zchoice.borrow();
-            zchoice.cases.len() + zchoice.type_parameters.len()
+            zchoice.cases.len()
+                + zchoice.default_case.iter().count()
+                + zchoice.type_parameters.len()
         }
         Symbol::Struct(zstruct) => {
             let zstruct = zstruct.borrow();
@@ -46,7 +48,10 @@ pub fn number_of_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
 pub fn number_of_data_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
     let symbol = scope.get_symbol(type_ref);
     match symbol.symbol {
-        Symbol::Choice(zchoice) => zchoice.borrow().cases.len(),
+        Symbol::Choice(zchoice) => {
+            let zchoice = zchoice.borrow();
+            zchoice.cases.len() + zchoice.default_case.iter().count()
+        }
         Symbol::Struct(zstruct) => zstruct.borrow().fields.len(),
         Symbol::Union(zunion) => zunion.borrow().fields.len(),
         _ => 0,
-- 
2.43.0


From ad33b148f0637a06450c9c35ea416d2d2d1c7134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 37/42] fix: optional fields in expressions

Bindings of expressions that use an optional field did not compile.
---
 .../src/internal/generator/expression.rs      | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 565c004..a975e15 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -1,6 +1,7 @@
 use crate::internal::ast::expression::{
     EvaluationState, Expression, ExpressionFlag, ExpressionType,
 };
+use crate::internal::ast::field::Field;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
 use crate::internal::generator::casts::expression_requires_cast;
@@ -284,7 +285,11 @@ fn generate_dot_expression(
                 }
                 _ => panic!("failed to generate right side of field dot expression"),
             };
-            format!("{}.{}", &left_operand, right_side,)
+            let field_path = format!("{}.{}", &left_operand, right_side,);
+            match expression.symbol.as_ref().map(|x| &x.symbol) {
+                Some(Symbol::Field(f)) => generate_field_value(field_path, &f.borrow()),
+                _ => field_path,
+            }
         }
         _ => panic!("unsupported dot expression {:?}", op1),
     }
@@ -354,9 +359,12 @@ fn generate_identifier_expression(
     // check for early returns, where no full type addressing is needed.
     match &symbol_ref.symbol {
         Symbol::Field(f) => {
-            return format!(
-                "self.{}",
-                TypeGenerator::convert_field_name(&f.borrow().name),
+            return generate_field_value(
+                format!(
+                    "self.{}",
+                    TypeGenerator::convert_field_name(&f.borrow().name)
+                ),
+                &f.borrow(),
             );
         }
         Symbol::Parameter(p) => {
@@ -386,6 +394,15 @@ fn generate_identifier_expression(
     type_generator.get_full_module_path(&symbol_ref.package, &rust_symbol_name)
 }
 
+/// Generates access to the value of a field, which has a default value if it is optional and not set.
+fn generate_field_value(field_path: String, field: &Field) -> String {
+    if field.is_optional {
+        format!("(*{field_path}.as_ref().unwrap_or(&Default::default()))")
+    } else {
+        field_path
+    }
+}
+
 fn generate_ternary_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
-- 
2.43.0


From 2a353117832427016e9548f11b232e5fbfe726c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 38/42] fix: report values that do not fit into the bits of
 their field

They were written truncated to that number of bits, and the call reported success.
---
 crates/zserio/src/ztype/bits_encode.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/zserio/src/ztype/bits_encode.rs b/crates/zserio/src/ztype/bits_encode.rs
index e886a35..67dd915 100644
--- a/crates/zserio/src/ztype/bits_encode.rs
+++ b/crates/zserio/src/ztype/bits_encode.rs
@@ -7,6 +7,9 @@ pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<(
             "cannot write more than 64 bits".into(),
         ));
     }
+    if v.checked_shr(bits.into()).unwrap_or(0) != 0 {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     Ok(writer.write_u64(v, bits)?)
 }
 
@@ -16,6 +19,14 @@ pub fn write_signed_bits(writer: &mut BitWriter, v: i64, bits: u8) -> Result<()>
             "cannot write more than 64 bits".into(),
         ));
     }
+    // All bits above the sign bit must be copies of it.
+    let fits = match bits {
+        0 => v == 0,
+        _ => matches!(v >> (bits - 1), 0 | -1),
+    };
+    if !fits {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     Ok(writer.write_i64(v, bits)?)
 }
 
-- 
2.43.0


From 1fc965ba7d460facd66e963096cdb7d7ab85520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 39/42] fix: do not write bytes and extern data of another
 length than declared

The blob of a bytes field was written completely whatever length was written before it, so
that the fields behind it could not be read. The last bits of an extern field came from the
last byte of a blob that is longer than its bit size.
---
 crates/zserio/src/ztype/bytes_type.rs  |  7 ++++++-
 crates/zserio/src/ztype/extern_type.rs | 13 ++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/bytes_type.rs b/crates/zserio/src/ztype/bytes_type.rs
index c7d2b85..cfa686a 100644
--- a/crates/zserio/src/ztype/bytes_type.rs
+++ b/crates/zserio/src/ztype/bytes_type.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::reader::read_bytes;
 use crate::ztype::writer::write_bytes;
 use crate::ztype::{read_varsize, varsize_bitsize, write_varsize};
@@ -22,6 +22,11 @@ pub fn read_bytes_type(bit_reader: &mut BitReader) -> Result<BytesType> {
 
 /// Writes a zserio bytes type to a bitstream.
 pub fn write_bytes_type(bit_writer: &mut BitWriter, bytes_type: &BytesType) -> Result<()> {
+    if bytes_type.data_blob.len() != bytes_type.byte_size as usize {
+        return Err(ZserioError::DataError(
+            "the length of bytes data does not match its byte size".into(),
+        ));
+    }
     write_varsize(bit_writer, bytes_type.byte_size)?;
     write_bytes(bit_writer, &bytes_type.data_blob)?;
     Ok(())
diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index 3bc38f2..6a6b379 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -56,12 +56,15 @@ pub fn write_extern_type(bit_writer: &mut BitWriter, extern_type: &ExternType) -
     write_varsize(bit_writer, extern_type.bit_size)?;
     let num_of_full_bytes = (extern_type.bit_size / 8) as usize;
     let remaining_bits = (extern_type.bit_size % 8) as u8;
-    write_bytes(
-        bit_writer,
-        &extern_type.data_blob[0..num_of_full_bytes].to_vec(),
-    )?;
+    let data_blob = extern_type
+        .data_blob
+        .get(..extern_type.bit_size.div_ceil(8) as usize)
+        .ok_or(ZserioError::DataError(
+            "the data blob for extern is too short".into(),
+        ))?;
+    write_bytes(bit_writer, &data_blob[0..num_of_full_bytes].to_vec())?;
     if remaining_bits != 0 {
-        let mut last_byte = *extern_type.data_blob.last().ok_or(ZserioError::DataError(
+        let mut last_byte = *data_blob.last().ok_or(ZserioError::DataError(
             "last byte for extern is missing".into(),
         ))?;
         let bit_shift = 8 - remaining_bits;
-- 
2.43.0


From c6b2c4531b3f63f9e6328682408c30f17d671334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 40/42] fix: report arrays and strings of 4 Gi elements or more

Their lengths were truncated to 32 bits and written as another length.
---
 crates/zserio/src/ztype/array.rs         | 5 +++--
 crates/zserio/src/ztype/string_encode.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/zserio/src/ztype/array.rs b/crates/zserio/src/ztype/array.rs
index f9de41c..fafe582 100644
--- a/crates/zserio/src/ztype/array.rs
+++ b/crates/zserio/src/ztype/array.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::array_traits::array_trait::ArrayTrait;
 use crate::ztype::read_varsize;
 use crate::ztype::varsize_bitsize;
@@ -60,7 +60,8 @@ impl<T> Array<T> {
             assert_eq!(expected_array_len, data.len());
         } else {
             // for auto arrays, write the length of the array
-            write_varsize(writer, data.len() as u32)?;
+            let length = u32::try_from(data.len()).or(Err(ZserioError::DataDoesNotFit))?;
+            write_varsize(writer, length)?;
         }
 
         if data.is_empty() {
diff --git a/crates/zserio/src/ztype/string_encode.rs b/crates/zserio/src/ztype/string_encode.rs
index 65b3346..9d6d7cd 100644
--- a/crates/zserio/src/ztype/string_encode.rs
+++ b/crates/zserio/src/ztype/string_encode.rs
@@ -1,6 +1,6 @@
 use rust_bitwriter::BitWriter;
 
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::unsigned_bitsize;
 
 use super::varuint_encode::write_varsize;
@@ -8,7 +8,8 @@ use super::varuint_encode::write_varsize;
 pub fn write_string(writer: &mut BitWriter, s: &str) -> Result<()> {
     let string_bytes = s.as_bytes();
 
-    write_varsize(writer, string_bytes.len() as u32)?;
+    let length = u32::try_from(string_bytes.len()).or(Err(ZserioError::DataDoesNotFit))?;
+    write_varsize(writer, length)?;
 
     for string_byte in string_bytes {
         writer.write_u8(*string_byte, 8)?;
-- 
2.43.0


From 84f660685c114bfb15a5b6ecd540e9fc1171142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 41/42] fix: report bit fields wider than 255 bits

---
 crates/zserio-rs-build/src/internal/generator/array.rs  | 2 +-
 crates/zserio-rs-build/src/internal/generator/decode.rs | 2 +-
 crates/zserio-rs-build/src/internal/generator/encode.rs | 2 +-
 crates/zserio/src/ztype/bits_decode.rs                  | 6 ++++++
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/array.rs b/crates/zserio-rs-build/src/internal/generator/array.rs
index bb35417..6521ba3 100644
--- a/crates/zserio-rs-build/src/internal/generator/array.rs
+++ b/crates/zserio-rs-build/src/internal/generator/array.rs
@@ -62,7 +62,7 @@ pub fn initialize_array_trait(
         // Initialize the signed/unsigned bitfield array traits
         if let Some(length_expression) = &zserio_type.length_expression {
             code_str += format!(
-                "num_bits: ({}) as u8,\n",
+                "num_bits: ztype::bit_width({}),\n",
                 generate_expression(&length_expression.borrow(), type_generator, scope)
             )
             .as_str();
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index f65ce5f..b69e6e3 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -83,7 +83,7 @@ pub fn decode_type(
                         if let Some(native_type) = &bit_length_expression.borrow().native_type {
                             if native_type.name != "uint8" {
                                 length_expression_string =
-                                    format!("({}) as u8", length_expression_string);
+                                    format!("ztype::bit_width({})", length_expression_string);
                             }
                         }
                         length_expression_string
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index d184267..c655b3c 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -73,7 +73,7 @@ pub fn encode_type(
                     if let Some(native_type) = &bit_length_expression.borrow().native_type {
                         if native_type.name != "uint8" {
                             length_expression_string =
-                                format!("({}) as u8", length_expression_string);
+                                format!("ztype::bit_width({})", length_expression_string);
                         }
                     }
                     length_expression_string
diff --git a/crates/zserio/src/ztype/bits_decode.rs b/crates/zserio/src/ztype/bits_decode.rs
index 46ef1ad..4c8777c 100644
--- a/crates/zserio/src/ztype/bits_decode.rs
+++ b/crates/zserio/src/ztype/bits_decode.rs
@@ -45,3 +45,9 @@ pub fn read_int16(reader: &mut BitReader) -> Result<i16> {
 pub fn read_int8(reader: &mut BitReader) -> Result<i8> {
     Ok(reader.read_i8(8)?)
 }
+
+/// The width of a field in bits. A width no field can have does not turn into another
+/// one, reading and writing such a field reports it.
+pub fn bit_width<T: TryInto<u8>>(bits: T) -> u8 {
+    bits.try_into().unwrap_or(u8::MAX)
+}
-- 
2.43.0


From 66f9a7f6fbab101f783d61a8f0e5d929702187bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 42/42] fix: constants of several strings

---
 .../src/internal/generator/zconst.rs          | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index 8a4f8e9..ee80932 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -1,6 +1,7 @@
+use crate::internal::ast::expression::{Expression, ExpressionType};
 use crate::internal::ast::zconst::ZConst;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
-use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
 use crate::internal::generator::casts::expression_requires_cast;
 use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::file_generator::write_to_file;
@@ -8,8 +9,28 @@ use crate::internal::generator::preamble::add_standard_imports;
 use crate::internal::generator::{types::to_rust_constant_name, types::TypeGenerator};
 use std::path::Path;
 
+use crate::internal::parser::gen::zserioparser::{LPAREN, PLUS, STRING_LITERAL};
 use codegen::Scope;
 
+/// The text of an expression of string literals and string constants.
+fn constant_string(expression: &Expression) -> Option<String> {
+    if let Some(reference) = &expression.symbol {
+        return match &reference.symbol {
+            Symbol::Const(zconst) => constant_string(&zconst.borrow().value_expression.borrow()),
+            _ => None,
+        };
+    }
+    match (&expression.result_type, expression.expression_type) {
+        (ExpressionType::String(text), STRING_LITERAL) => Some(text.clone()),
+        (_, LPAREN) => constant_string(expression.operand1.as_ref()?),
+        (ExpressionType::String(_), PLUS) => Some(
+            constant_string(expression.operand1.as_ref()?)?
+                + &constant_string(expression.operand2.as_ref()?)?,
+        ),
+        _ => None,
+    }
+}
+
 pub fn generate_constant(
     symbol_scope: &ModelScope,
     type_generator: &mut TypeGenerator,
@@ -50,6 +71,12 @@ pub fn generate_constant(
     ) {
         value = format!("({value}) as {field_type}");
     }
+    // Rust cannot concatenate strings in a constant.
+    if value_expression.expression_type == PLUS {
+        if let Some(text) = constant_string(&value_expression) {
+            value = format!("\"{text}\"");
+        }
+    }
 
     file_content += format!(
         "pub const {}: {} = {};\n",
-- 
2.43.0

