From d481aa5e1a5508f097868efb72dbc2bb6b455ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 01/42] fix: verify links inside of inlined schemas

---
 opg/src/models.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index a761c3e..24a657b 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -1045,7 +1045,8 @@ impl ModelReference {
     fn traverse<'a>(&'a self, mut cx: TraverseContext<'a>) -> Result<(), &'a str> {
         match &self {
             ModelReference::Link(ref link) => cx.check(link),
-            _ => Ok(()),
+            ModelReference::Inline(model) => model.traverse(cx),
+            ModelReference::Any => Ok(()),
         }
     }
 }
-- 
2.43.0


From bcb9c61aead209a0ee7747952c0bf08b05dcb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 02/42] fix: endless recursion when mentioning recursive types

---
 opg/src/models.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 24a657b..9a9e67d 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -540,6 +540,13 @@ impl Components {
         let reference = M::select_reference(self, inline, params);
         if let ModelReference::Link(link) = &reference {
             if !self.schemas.contains_key(link) {
+                // Reserve name, so that recursive types will not be described endlessly
+                let stub = Model {
+                    description: None,
+                    data: ModelData::OneOf(ModelOneOf::default()),
+                };
+                self.schemas.insert(link.to_owned(), stub);
+
                 let structure = M::get_schema(self);
                 self.schemas.insert(link.to_owned(), structure);
             }
-- 
2.43.0


From 49712b6f531a5df5f49b91a2efb162b011b4a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 03/42] fix: describe content of adjacently tagged struct
 variants as objects

---
 opg_derive/src/opg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index b77129c..18dce53 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -213,7 +213,7 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| variant.attrs.inline || field.attrs.inline,
                     )),
-                    StructStyle::Struct => inline_reference(tuple_model(
+                    StructStyle::Struct => inline_reference(object_model(
                         false,
                         &variant.attrs.description,
                         &variant.fields,
-- 
2.43.0


From fc5b25dd227c6de0e6856eff310e876624c4034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 04/42] fix: omit skipped fields of tuple structs and tuple
 variants

---
 opg_derive/src/opg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 18dce53..64c0a7b 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -594,6 +594,7 @@ where
 {
     let data = fields
         .iter()
+        .filter(|field| !field.attrs.skip_serializing)
         .map(|field| {
             field_model_reference(
                 ContextParams::from(&field.attrs),
-- 
2.43.0


From f668375e99a74bc555704586e1ea25809fe7e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 05/42] fix: nullable attribute of newtype struct was ignored

---
 opg_derive/src/opg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 64c0a7b..491ed5d 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -875,6 +875,7 @@ impl<'a> ContextParams<'a> {
     {
         let other = other.into();
         self.description = self.description.or(other.description);
+        self.nullable = self.nullable.or(other.nullable);
         self.format = self.format.or(other.format);
         self.example = self.example.or(other.example);
         self
-- 
2.43.0


From f5a6762f71feed0ed5bfba1ee4bc1e647f720796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 06/42] fix: describe one-element tuples as arrays

---
 opg/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/lib.rs b/opg/src/lib.rs
index 41d1b77..4ba08a8 100644
--- a/opg/src/lib.rs
+++ b/opg/src/lib.rs
@@ -53,7 +53,7 @@ impl_opg_model!(generic_simple(?Sized): std::cell::RefCell<T>);
 
 impl_opg_model!(generic_simple(nullable): Option<T>);
 
-impl_opg_model!(generic_simple: (T,));
+impl_opg_model!(generic_array: (T,));
 
 impl_opg_model!(generic_tuple: (T1, T2));
 impl_opg_model!(generic_tuple: (T1, T2, T3));
-- 
2.43.0


From 760c6d157e5bc2b2d4d47b61e336e100cd89883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 07/42] fix: omit missing request body description instead of
 writing null

---
 opg/src/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 9a9e67d..d1e825b 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -346,6 +346,7 @@ impl Serialize for RequestBody {
         struct RequestBodyHelper<'a> {
             #[serde(skip_serializing_if = "is_false")]
             required: bool,
+            #[serde(skip_serializing_if = "Option::is_none")]
             description: &'a Option<String>,
             content: ResponseContent<'a>,
         }
-- 
2.43.0


From 9d9b5dcdfbd994120914939ac840336362d75103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 08/42] fix: paths of callbacks with literal name were lost

---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 3657741..a2395c8 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -606,9 +606,9 @@ macro_rules! describe_api {
     };
     (@opg_path_value_body_properties $result:ident $description:ident $required:ident $schema:ident $(,)?) => {};
 
-    (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($operations:tt)* }, $($other:tt)*) => {
+    (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($paths:tt)* }, $($other:tt)*) => {
         let mut callback_object = CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($other)*,);
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
-- 
2.43.0


From b13d03751fca2f06891144bc33d62ba85d756a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 09/42] fix: callbacks in describe_api! required CallbackObject
 to be in scope

---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index a2395c8..d65a42a 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -607,14 +607,14 @@ macro_rules! describe_api {
     (@opg_path_value_body_properties $result:ident $description:ident $required:ident $schema:ident $(,)?) => {};
 
     (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($paths:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
+        let mut callback_object = $crate::models::CallbackObject::default();
         $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
     };
     (@opg_path_value_callbacks $result:ident $context:ident $callback:ident: { $($paths:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
+        let mut callback_object = $crate::models::CallbackObject::default();
         $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
         $context.callbacks.insert(stringify!($callback).to_owned(), callback_object);
 
-- 
2.43.0


From 010d4e2320d16b421a85cbb433fda6b4997caef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 10/42] fix: security requirement roles failed to compile

---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index d65a42a..b44620a 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -585,10 +585,10 @@ macro_rules! describe_api {
 
 
     (@opg_path_value_security_item $result:ident $context:ident $security:literal$([$($role:literal),*])?) => {
-        $context.insert($security.to_owned(), vec![$($($role),*)?])
+        $context.insert($security.to_owned(), vec![$($($role.to_owned()),*)?])
     };
     (@opg_path_value_security_item $result:ident $context:ident $security:ident$([$($role:literal),*])?) => {
-        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role),*)?])
+        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role.to_owned()),*)?])
     };
 
 
-- 
2.43.0


From 797e1e7e40f9af882daead9ca54d38478cae4e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:02 +0000
Subject: [PATCH 11/42] fix: security schemes declared by variable failed to
 compile

---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index b44620a..7ba3c7f 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -370,7 +370,7 @@ macro_rules! describe_api {
         $crate::describe_api!(@opg_security_scheme $result $($schemes)*,)
     };
     (@opg_security_scheme $result:ident $scheme:ident, $($other:tt)*) => {
-        $result.components.security_schemes.insert(stringity!($scheme).to_owned(), $scheme);
+        $result.components.security_schemes.insert(stringify!($scheme).to_owned(), $scheme.clone().into());
         $crate::describe_api!(@opg_security_scheme $result $($other)*)
     };
     (@opg_security_scheme $result:ident (http $name:literal): {$($properties:tt)+}, $($other:tt)*) => {
-- 
2.43.0


From c6ac01a8e5d8949df9578ba70df277ef354a9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 12/42] fix: failed merge left object partially merged

---
 opg/src/models.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index d1e825b..e701ddc 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -974,6 +974,15 @@ impl ModelObject {
 
     /// Merge other object into self
     pub fn merge(&mut self, another: ModelObject) -> Result<(), ModelMergeError> {
+        // Check conflicts beforehand, so that failed merge doesn't change anything
+        if another
+            .properties
+            .keys()
+            .any(|property| self.properties.contains_key(property))
+        {
+            return Err(ModelMergeError);
+        }
+
         another
             .properties
             .into_iter()
-- 
2.43.0


From 2fac113a82af7eb373db4d51b9916b2724b8429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 13/42] fix: optional reference made shared schema nullable or
 lost null

Schema of `Option<T>` was registered under the name of `T` if it was mentioned
before `T` itself, which made it nullable for all other usages. In the opposite
order nothing documented that `null` is possible.
---
 opg/src/macros.rs | 14 +++++++++-----
 opg/src/models.rs | 25 +++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 7ba3c7f..daf7620 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -170,15 +170,19 @@ macro_rules! impl_opg_model (
             T: $crate::OpgModel$(+ ?$sized)?,
         {
             fn get_schema(cx: &mut $crate::Components) -> $crate::Model {
-                <T as $crate::OpgModel>::get_schema_with_params(cx, &$crate::ContextParams {
-                    nullable: Some(true),
-                    ..Default::default()
-                })
+                let reference = cx.mention_schema::<T>(false, &Default::default());
+                reference.into_nullable()
             }
 
             #[inline]
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
-                <T as $crate::OpgModel>::type_name()
+                None
+            }
+
+            #[inline]
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                let reference = cx.mention_schema::<T>(inline, &Default::default());
+                $crate::ModelReference::Inline(reference.into_nullable().apply_params(params))
             }
         }
     };
diff --git a/opg/src/models.rs b/opg/src/models.rs
index e701ddc..460b2ff 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -1058,6 +1058,31 @@ where
 }
 
 impl ModelReference {
+    /// Get model which allows `null` in addition to the values of this reference
+    pub fn into_nullable(self) -> Model {
+        match self {
+            ModelReference::Inline(Model {
+                description,
+                data: ModelData::Single(mut data),
+            }) => {
+                data.nullable = true;
+                Model {
+                    description,
+                    data: ModelData::Single(data),
+                }
+            }
+            reference => {
+                let null = <()>::get_schema(&mut Components::new());
+                Model {
+                    description: None,
+                    data: ModelData::OneOf(ModelOneOf {
+                        one_of: vec![reference, ModelReference::Inline(null)],
+                    }),
+                }
+            }
+        }
+    }
+
     /// Check links
     fn traverse<'a>(&'a self, mut cx: TraverseContext<'a>) -> Result<(), &'a str> {
         match &self {
-- 
2.43.0


From e6309dbfd43e012f351fdd9c3cf175dda6908126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 14/42] fix: inline attribute of newtype variant field was
 ignored

---
 opg_derive/src/opg.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 491ed5d..6a30dd4 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -159,7 +159,11 @@ fn serialize_untagged_enum(
                 let field = &variant.fields[0];
                 let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                field_model_reference(context_params, field, variant.attrs.inline)
+                field_model_reference(
+                    context_params,
+                    field,
+                    variant.attrs.inline || field.attrs.inline,
+                )
             }
             StructStyle::Struct => inline_reference(object_model(
                 false,
@@ -205,7 +209,11 @@ fn serialize_adjacent_tagged_enum(
                         let field = &variant.fields[0];
                         let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                        field_model_reference(context_params, field, variant.attrs.inline)
+                        field_model_reference(
+                            context_params,
+                            field,
+                            variant.attrs.inline || field.attrs.inline,
+                        )
                     }
                     StructStyle::Tuple => inline_reference(tuple_model(
                         false,
@@ -330,7 +338,7 @@ fn serialize_external_tagged_enum(
                         field_model_reference(
                             context_params,
                             field,
-                            variant.attrs.inline,
+                            variant.attrs.inline || field.attrs.inline,
                         )
                     },
                     StructStyle::Tuple => {
-- 
2.43.0


From 9fc366d1b3dc216a68fe6ba5b5b6ffb2b197f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 15/42] fix: explicit type of newtype struct field was ignored

---
 opg_derive/src/opg.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 6a30dd4..1200abc 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -523,10 +523,15 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
 
     let context_params = ContextParams::from(&field.attrs).or(&container.attrs);
 
-    let body = match container.attrs.explicit_model_type {
+    let explicit_model_type = container
+        .attrs
+        .explicit_model_type
+        .or(field.attrs.explicit_model_type);
+
+    let body = match explicit_model_type {
         Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
             newtype_model(
-                container.attrs.nullable,
+                container.attrs.nullable || field.attrs.nullable,
                 context_params,
                 explicit_model_type,
             )
-- 
2.43.0


From f406238f458560aefae0bfbf416542a1ecd35e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 16/42] fix: transparent attribute of struct with named fields
 was ignored

---
 opg_derive/src/opg.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 1200abc..42d3820 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -50,6 +50,10 @@ fn build_generics(cont: &Container) -> syn::Generics {
 fn serialize_body(container: &Container) -> proc_macro2::TokenStream {
     match &container.data {
         Data::Enum(variants) => serialize_enum(container, variants),
+        Data::Struct(_, fields) if container.attrs.transparent => {
+            let field = fields.iter().find(|field| !field.attrs.skip_serializing);
+            serialize_newtype_struct(container, field.unwrap_or(&fields[0]))
+        }
         Data::Struct(StructStyle::Struct, fields) => serialize_struct(container, fields),
         Data::Struct(StructStyle::Tuple, fields) => serialize_tuple_struct(container, fields),
         Data::Struct(StructStyle::NewType, fields) => {
-- 
2.43.0


From 963d1c6d5ad21c69338773891b675edbe187234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:55 +0000
Subject: [PATCH 17/42] fix: unit variants of internally and adjacently tagged
 enums

Tagged enums with only unit variants were described as strings, and unit variants
of adjacently tagged enums made derive macro panic.
---
 opg_derive/src/attr.rs |  7 ++++---
 opg_derive/src/opg.rs  | 31 +++++++++++++++++++++----------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index cf406c5..8bc63c2 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -494,15 +494,16 @@ fn decide_model_type(
                 .iter()
                 .all(|field| matches!(field.fields, syn::Fields::Unit))
             {
-                return match tag_type {
+                match tag_type {
                     TagType::None => {
                         cx.error_spanned_by(
                             &input.ident,
                             "unit enums are not supported for untagged",
                         );
-                        Err(())
+                        return Err(());
                     }
-                    _ => Ok(ModelType::NewType),
+                    TagType::External => return Ok(ModelType::NewType),
+                    _ => {}
                 };
             }
 
diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 42d3820..a512197 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -231,7 +231,10 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| field.attrs.inline || variant.attrs.inline,
                     )),
-                    _ => unreachable!(),
+                    StructStyle::Unit => {
+                        variants.push(variant_name);
+                        return (variants, one_of);
+                    }
                 };
 
                 variants.push(variant_name);
@@ -240,6 +243,10 @@ fn serialize_adjacent_tagged_enum(
             },
         );
 
+    // unit variants are serialized without content
+    let has_content = !one_of.is_empty();
+    let is_content_required = one_of.len() == variants.len();
+
     let type_example = option_string(variants.first().map(|x| x.as_str()));
     let type_name_stringified = container.ident.to_string();
 
@@ -265,15 +272,19 @@ fn serialize_adjacent_tagged_enum(
             ));
             required.push(#tag.to_owned());
 
-            properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
-                _opg::Model {
-                    description: #description,
-                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                        one_of: vec![#(#one_of),*],
-                    })
-                }
-            ));
-            required.push(#content.to_owned());
+            if #has_content {
+                properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
+                    _opg::Model {
+                        description: #description,
+                        data: _opg::ModelData::OneOf(_opg::ModelOneOf {
+                            one_of: vec![#(#one_of),*],
+                        })
+                    }
+                ));
+            }
+            if #has_content && #is_content_required {
+                required.push(#content.to_owned());
+            }
 
             _opg::ModelTypeDescription::Object(
                 _opg::ModelObject {
-- 
2.43.0


From 53fec55e5281ae64b583ef58c1a4c52c6564cd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:14 +0000
Subject: [PATCH 18/42] fix: variants of repr enums without explicit
 discriminants were lost

---
 opg_derive/src/opg.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index a512197..d384ee0 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -84,17 +84,17 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
     let body = if container.attrs.has_repr {
         let variants = variants
             .iter()
-            .filter(|variant| !variant.attrs.skip_serializing)
-            .filter_map(|variant| {
-                variant
-                    .original
-                    .discriminant
-                    .as_ref()
-                    .map(|(_, discriminant)| (variant.attrs.name.serialized(), discriminant))
+            .enumerate()
+            .filter(|(_, variant)| !variant.attrs.skip_serializing)
+            .map(|(index, variant)| {
+                let discriminant = match &variant.original.discriminant {
+                    Some((_, value)) => quote::ToTokens::to_token_stream(value).to_string(),
+                    None => index.to_string(),
+                };
+                (variant.attrs.name.serialized(), discriminant)
             })
-            .map(|(name, discriminant)| {
+            .map(|(name, example)| {
                 let description = format!("{} variant", name);
-                let example = quote::ToTokens::to_token_stream(discriminant).to_string();
 
                 quote! {
                     _opg::Model {
-- 
2.43.0


From 868c59620d950f573d86fa31af1361cf482a9568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:40 +0000
Subject: [PATCH 19/42] fix: examples of repr enum variants were not their
 values

Source tokens of the discriminant were used as an example, so that it could be
"- 5", "0x10" or a name of the constant.
---
 opg_derive/src/opg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index d384ee0..e113f10 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -88,8 +88,8 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
             .filter(|(_, variant)| !variant.attrs.skip_serializing)
             .map(|(index, variant)| {
                 let discriminant = match &variant.original.discriminant {
-                    Some((_, value)) => quote::ToTokens::to_token_stream(value).to_string(),
-                    None => index.to_string(),
+                    Some((_, value)) => quote! { ((#value) as i128).to_string() },
+                    None => quote! { #index.to_string() },
                 };
                 (variant.attrs.name.serialized(), discriminant)
             })
@@ -103,7 +103,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
                             nullable: false,
                             type_description: _opg::ModelTypeDescription::Integer(_opg::ModelSimple {
                                 format: None,
-                                example: Some(#example.to_owned()),
+                                example: Some(#example),
                             })
                         }),
                     }
-- 
2.43.0


From 912326b2ed3c37756f438b8a42b5272ebf132365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:02 +0000
Subject: [PATCH 20/42] fix: trailing comma after the paths of a callback

A callback whose list of paths ended with a comma was rejected, unlike every
other list of describe_api.
---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index daf7620..6d5f2a5 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -628,7 +628,7 @@ macro_rules! describe_api {
 
     (@opg_path_value_callbacks_paths $result:ident $context:ident $(($($path_segment:tt)+): {
         $($properties:tt)*
-    }),*$(,)?) => {
+    }),*$(,)*) => {
         $({
             let mut path = Vec::new();
             let mut context = $crate::models::PathValue::default();
-- 
2.43.0


From b7d23f7719c90ff3662296984d1851b4c73e9026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:05 +0000
Subject: [PATCH 21/42] fix: members of info shadowed the caller's variables

A value given after title, version or description could not refer to a
variable of that name: it silently got the member's value instead.
---
 opg/src/macros.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 6d5f2a5..8075584 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -342,9 +342,8 @@ macro_rules! describe_api {
 
 
     (@opg_property $result:ident info $($property:ident: $property_value:expr),*$(,)?) => {{
-        $(let $property = $crate::describe_api!(@opg_info_property $property $property_value));*;
         $result.info = $crate::models::Info {
-            $($property,)*
+            $($property: $crate::describe_api!(@opg_info_property $property $property_value),)*
             ..Default::default()
         };
     }};
-- 
2.43.0


From b9346b4f0db4378e874220faac9ccc2ab8139d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:36 +0000
Subject: [PATCH 22/42] fix: descriptions that are not strings were silently
 ignored

---
 opg_derive/src/attr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index 8bc63c2..1b9d4e2 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -108,7 +108,7 @@ impl Container {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
@@ -236,7 +236,7 @@ impl Variant {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
@@ -361,7 +361,7 @@ impl Field {
                 }
                 (AttrFrom::Serde, _) => {}
                 (AttrFrom::Opg, Lit(lit)) => {
-                    if let Ok(s) = get_lit_str_simple(lit) {
+                    if let Ok(s) = get_lit_str(cx, DESCRIPTION, lit) {
                         description.set(lit, s.value().clone());
                     }
                 }
-- 
2.43.0


From 31a9020d09d7a86425560d9d32fc95591ed1b9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:29 +0000
Subject: [PATCH 23/42] fix: path parameters named after a type starting with a
 non-ASCII letter panicked

---
 opg/src/macros.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 8075584..b997e31 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -723,7 +723,11 @@ macro_rules! describe_api {
             let name = {
                 let full_name = stringify!($current);
                 let name = &full_name[full_name.rfind(':').map(|i| i + 1).unwrap_or_default()..];
-                name[..1].to_ascii_lowercase() + &name[1..]
+                let mut chars = name.chars();
+                chars
+                    .next()
+                    .map(|first| first.to_ascii_lowercase().to_string() + chars.as_str())
+                    .unwrap_or_default()
             };
             $crate::describe_api!(@opg_path_insert_url_param $result $context name $current)
         });
-- 
2.43.0


From bdb82de3f72681c2be8fd8e54ac9b2ad95db94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:03 +0000
Subject: [PATCH 24/42] fix: impl_opg_model only compiled where Model happened
 to be imported

---
 opg/src/macros.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index b997e31..3430494 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -242,7 +242,7 @@ macro_rules! impl_opg_model (
             T: $crate::OpgModel,
         {
             fn get_schema(cx: &mut $crate::Components) -> $crate::Model {
-                Model {
+                $crate::Model {
                     description: None,
                     data: $crate::ModelData::Single($crate::ModelType {
                         nullable: false,
@@ -272,7 +272,7 @@ macro_rules! impl_opg_model (
             K: serde::ser::Serialize,
         {
             fn get_schema(cx: &mut $crate::Components) -> $crate::Model {
-                Model {
+                $crate::Model {
                     description: None,
                     data: $crate::ModelData::Single($crate::ModelType {
                         nullable: false,
@@ -298,7 +298,7 @@ macro_rules! impl_opg_model (
 
     ($serialized_type:ident$(($format:literal))?: $($type:tt)+ ) => {
         impl $crate::OpgModel for $($type)+ {
-            fn get_schema(cx: &mut $crate::Components) -> Model {
+            fn get_schema(cx: &mut $crate::Components) -> $crate::Model {
                 $crate::describe_type!($serialized_type => {
                     $(format: $format)?
                 })
@@ -313,7 +313,7 @@ macro_rules! impl_opg_model (
 
     ($serialized_type:ident(always_inline$(, $format:literal)?): $($type:tt)+) => {
         impl $crate::OpgModel for $($type)+ {
-            fn get_schema(_: &mut $crate::Components) -> Model {
+            fn get_schema(_: &mut $crate::Components) -> $crate::Model {
                 $crate::describe_type!($serialized_type => {
                     $(format: $format)?
                 })
-- 
2.43.0


From cd53d6d2ae78d5b068d651a5b3b3c9b5f83a1188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:57 +0000
Subject: [PATCH 25/42] fix: impl_opg_model for registered types did not
 compile

---
 opg/src/macros.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 3430494..53439fa 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -298,7 +298,7 @@ macro_rules! impl_opg_model (
 
     ($serialized_type:ident$(($format:literal))?: $($type:tt)+ ) => {
         impl $crate::OpgModel for $($type)+ {
-            fn get_schema(cx: &mut $crate::Components) -> $crate::Model {
+            fn get_schema(_: &mut $crate::Components) -> $crate::Model {
                 $crate::describe_type!($serialized_type => {
                     $(format: $format)?
                 })
@@ -306,7 +306,8 @@ macro_rules! impl_opg_model (
 
             #[inline]
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
-                <T as $crate::OpgModel>::type_name()
+                let full_name = stringify!($($type)+);
+                Some(full_name[full_name.rfind(':').map(|i| i + 1).unwrap_or_default()..].trim().into())
             }
         }
     };
-- 
2.43.0


From 04247180b32fdbef50215ea4dbd2d94479a69da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:18 +0000
Subject: [PATCH 26/42] fix: derived code did not compile where the caller
 shadows names of the prelude

---
 opg_derive/src/opg.rs | 74 +++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index e113f10..bda7a16 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -98,12 +98,12 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
 
                 quote! {
                     _opg::Model {
-                        description: Some(#description.to_owned()),
+                        description: ::std::option::Option::Some(#description.to_owned()),
                         data: _opg::ModelData::Single(_opg::ModelType {
                             nullable: false,
                             type_description: _opg::ModelTypeDescription::Integer(_opg::ModelSimple {
-                                format: None,
-                                example: Some(#example),
+                                format: ::std::option::Option::None,
+                                example: ::std::option::Option::Some(#example),
                             })
                         }),
                     }
@@ -135,9 +135,9 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
                 data: _opg::ModelData::Single(_opg::ModelType {
                     nullable: false,
                     type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
-                        variants: Some(vec![#(#variants.to_owned()),*]),
+                        variants: ::std::option::Option::Some(vec![#(#variants.to_owned()),*]),
                         data: _opg::ModelSimple {
-                            format: None,
+                            format: ::std::option::Option::None,
                             example: #example,
                         }
                     })
@@ -253,17 +253,17 @@ fn serialize_adjacent_tagged_enum(
     let struct_type_description = quote! {
         {
             let mut properties = std::collections::BTreeMap::new();
-            let mut required = Vec::new();
+            let mut required = ::std::vec::Vec::new();
 
             properties.insert(#tag.to_owned(), _opg::ModelReference::Inline(
                 _opg::Model {
-                    description: Some(format!("{} type variant", #type_name_stringified)),
+                    description: ::std::option::Option::Some(format!("{} type variant", #type_name_stringified)),
                     data: _opg::ModelData::Single(_opg::ModelType {
                         nullable: false,
                         type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
-                            variants: Some(vec![#(#variants.to_owned()),*]),
+                            variants: ::std::option::Option::Some(vec![#(#variants.to_owned()),*]),
                             data: _opg::ModelSimple {
-                                format: None,
+                                format: ::std::option::Option::None,
                                 example: #type_example,
                             }
                         })
@@ -290,7 +290,7 @@ fn serialize_adjacent_tagged_enum(
                 _opg::ModelObject {
                     properties,
                     required,
-                    ..Default::default()
+                    ..::std::default::Default::default()
                 }
             )
         }
@@ -335,10 +335,10 @@ fn serialize_external_tagged_enum(
                                     data: _opg::ModelData::Single(_opg::ModelType {
                                         nullable: false,
                                         type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
-                                            variants: Some(vec![#variant_name.to_owned()]),
+                                            variants: ::std::option::Option::Some(vec![#variant_name.to_owned()]),
                                             data: _opg::ModelSimple {
-                                                format: None,
-                                                example: Some(#variant_name.to_owned()),
+                                                format: ::std::option::Option::None,
+                                                example: ::std::option::Option::Some(#variant_name.to_owned()),
                                             }
                                         })
                                     })
@@ -384,7 +384,7 @@ fn serialize_external_tagged_enum(
                 nullable: #nullable,
                 type_description: _opg::ModelTypeDescription::Object(
                     _opg::ModelObject {
-                        additional_properties: Some(Box::new(_opg::ModelReference::Inline(
+                        additional_properties: ::std::option::Option::Some(::std::boxed::Box::new(_opg::ModelReference::Inline(
                             _opg::Model {
                                 description: #description,
                                 data: _opg::ModelData::OneOf(_opg::ModelOneOf {
@@ -392,7 +392,7 @@ fn serialize_external_tagged_enum(
                                 })
                             }
                         ))),
-                        ..Default::default()
+                        ..::std::default::Default::default()
                     }
                 )
             })
@@ -448,14 +448,14 @@ fn serialize_internal_tagged_enum(
 
                         properties.insert(#tag.to_owned(), _opg::ModelReference::Inline(
                             _opg::Model {
-                                description: Some(format!("{} type variant", #type_name_stringified)),
+                                description: ::std::option::Option::Some(format!("{} type variant", #type_name_stringified)),
                                 data: _opg::ModelData::Single(_opg::ModelType {
                                     nullable: false,
                                     type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
-                                        variants: Some(vec![#variant_name.to_owned()]),
+                                        variants: ::std::option::Option::Some(vec![#variant_name.to_owned()]),
                                         data: _opg::ModelSimple {
-                                            format: None,
-                                            example: Some(#variant_name.to_owned()),
+                                            format: ::std::option::Option::None,
+                                            example: ::std::option::Option::Some(#variant_name.to_owned()),
                                         }
                                     })
                                 })
@@ -465,12 +465,12 @@ fn serialize_internal_tagged_enum(
                         _opg::ModelTypeDescription::Object(_opg::ModelObject {
                             properties,
                             required: vec![#tag.to_owned()],
-                            ..Default::default()
+                            ..::std::default::Default::default()
                         })
                     };
 
                     let _ = model.try_merge(_opg::Model {
-                        description: None,
+                        description: ::std::option::Option::None,
                         data: _opg::ModelData::Single(_opg::ModelType {
                             nullable: #nullable,
                             type_description: additional_object
@@ -634,7 +634,7 @@ where
 
     let one_of = quote! {
         _opg::Model {
-            description: None,
+            description: ::std::option::Option::None,
             data: _opg::ModelData::OneOf(_opg::ModelOneOf {
                 one_of: vec![#(#data),*],
             })
@@ -644,7 +644,7 @@ where
     quote! {
         _opg::ModelTypeDescription::Array(
             _opg::ModelArray {
-                items: Box::new(_opg::ModelReference::Inline(#one_of)),
+                items: ::std::boxed::Box::new(_opg::ModelReference::Inline(#one_of)),
             }
         )
     }
@@ -682,7 +682,7 @@ where
     quote! {
         {
             let mut properties = std::collections::BTreeMap::new();
-            let mut required = Vec::new();
+            let mut required = ::std::vec::Vec::new();
 
             #(#data)*
 
@@ -690,7 +690,7 @@ where
                 _opg::ModelObject {
                     properties,
                     required,
-                    ..Default::default()
+                    ..::std::default::Default::default()
                 }
             )
         }
@@ -737,7 +737,7 @@ fn newtype_model(
     let data = match explicit_model_type {
         ExplicitModelType::String => quote! {
             _opg::ModelTypeDescription::String(_opg::ModelString {
-                variants: None,
+                variants: ::std::option::Option::None,
                 data: _opg::ModelSimple {
                     format: #format,
                     example: #example,
@@ -776,27 +776,27 @@ fn newtype_model(
 fn option_to_string_expr(data: Option<&syn::Expr>) -> proc_macro2::TokenStream {
     match data {
         Some(data) => {
-            quote! { Some((#data).to_string()) }
+            quote! { ::std::option::Option::Some((#data).to_string()) }
         }
-        None => quote! { None },
+        None => quote! { ::std::option::Option::None },
     }
 }
 
 fn option_string(data: Option<&str>) -> proc_macro2::TokenStream {
     match data {
         Some(data) => {
-            quote! { Some(#data.to_owned()) }
+            quote! { ::std::option::Option::Some(#data.to_owned()) }
         }
-        None => quote! { None },
+        None => quote! { ::std::option::Option::None },
     }
 }
 
 fn option_bool(data: Option<bool>) -> proc_macro2::TokenStream {
     match data {
         Some(data) => {
-            quote! { Some(#data) }
+            quote! { ::std::option::Option::Some(#data) }
         }
-        None => quote! { None },
+        None => quote! { ::std::option::Option::None },
     }
 }
 
@@ -808,8 +808,8 @@ fn implement_type(
     let inline = if inline {
         quote! {
             #[inline]
-            fn type_name() -> Option<std::borrow::Cow<'static, str>> {
-                None
+            fn type_name() -> ::std::option::Option<std::borrow::Cow<'static, str>> {
+                ::std::option::Option::None
             }
 
             #[inline]
@@ -820,8 +820,8 @@ fn implement_type(
     } else {
         quote! {
             #[inline]
-            fn type_name() -> Option<std::borrow::Cow<'static, str>> {
-                Some(stringify!(#type_name).into())
+            fn type_name() -> ::std::option::Option<std::borrow::Cow<'static, str>> {
+                ::std::option::Option::Some(stringify!(#type_name).into())
             }
         }
     };
@@ -933,7 +933,7 @@ impl<'a> ContextParams<'a> {
             _opg::ContextParams {
                 description: #description,
                 nullable: #nullable,
-                variants: None,
+                variants: ::std::option::Option::None,
                 format: #format,
                 example: #example,
             }
-- 
2.43.0


From 9131d535154db7b790aa64383e4f93d900432a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 27/42] fix: inline was ignored on an Option behind a pointer

---
 opg/src/macros.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 53439fa..0bcd480 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -200,6 +200,11 @@ macro_rules! impl_opg_model (
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                 <T as $crate::OpgModel>::type_name()
             }
+
+            #[inline]
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                <T as $crate::OpgModel>::select_reference(cx, inline, params)
+            }
         }
     };
 
-- 
2.43.0


From ace14724488bf77a0f124eae78eed8fdb97ee7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 28/42] fix: inline was ignored on an Option in a newtype
 struct

---
 opg_derive/src/opg.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index bda7a16..b6e7d95 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -552,6 +552,16 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
             )
         }
         Some(_) => unreachable!(),
+        None if field.attrs.inline => {
+            let context_params = context_params.tokenize();
+
+            quote! {
+                match <#type_name as _opg::OpgModel>::select_reference(cx, true, &#context_params) {
+                    _opg::ModelReference::Inline(model) => model,
+                    _ => <#type_name as _opg::OpgModel>::get_schema_with_params(cx, &#context_params),
+                }
+            }
+        }
         None => {
             let context_params = context_params.tokenize();
 
-- 
2.43.0


From c6be581995c40f941be347bfbe467c65bcda0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 29/42] fix: paths, which OpenAPI requires, were left out when
 empty

---
 opg/src/models.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 460b2ff..dada1f2 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -29,10 +29,7 @@ pub struct Opg {
     pub servers: Vec<Server>,
 
     /// The available paths and operations for the API
-    #[serde(
-        serialize_with = "serialize_ordered_entries",
-        skip_serializing_if = "Vec::is_empty"
-    )]
+    #[serde(serialize_with = "serialize_ordered_entries")]
     pub paths: Vec<(Path, PathValue)>,
 
     /// An element to hold various schemas for the specification
-- 
2.43.0


From 2a43e22ec32f220c4b3fa5dfaa28e1388f08f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 30/42] fix: date-times were documented with the format of
 dates

---
 opg/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/lib.rs b/opg/src/lib.rs
index 4ba08a8..93b4b06 100644
--- a/opg/src/lib.rs
+++ b/opg/src/lib.rs
@@ -184,7 +184,7 @@ impl OpgModel for chrono::NaiveDateTime {
                 type_description: ModelTypeDescription::String(ModelString {
                     variants: None,
                     data: ModelSimple {
-                        format: Some("date".to_owned()),
+                        format: Some("date-time".to_owned()),
                         example: Some("2020-06-26T14:04:20.730045106".to_owned()),
                     },
                 }),
@@ -213,7 +213,7 @@ impl<TZ: chrono::TimeZone> OpgModel for chrono::DateTime<TZ> {
                 type_description: ModelTypeDescription::String(ModelString {
                     variants: None,
                     data: ModelSimple {
-                        format: Some("date".to_owned()),
+                        format: Some("date-time".to_owned()),
                         example: Some("2020-06-26T14:04:20.730045106Z".to_owned()),
                     },
                 }),
-- 
2.43.0


From 098db22967dc3b7f403fb140aa7413584e98e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 31/42] fix: discriminants of repr enums were evaluated with
 another type than the compiler's

---
 opg_derive/src/opg.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index b6e7d95..ea01f47 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -84,13 +84,10 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
     let body = if container.attrs.has_repr {
         let variants = variants
             .iter()
-            .enumerate()
-            .filter(|(_, variant)| !variant.attrs.skip_serializing)
-            .map(|(index, variant)| {
-                let discriminant = match &variant.original.discriminant {
-                    Some((_, value)) => quote! { ((#value) as i128).to_string() },
-                    None => quote! { #index.to_string() },
-                };
+            .filter(|variant| !variant.attrs.skip_serializing)
+            .map(|variant| {
+                let ident = &variant.ident;
+                let discriminant = quote! { (Self::#ident as i128).to_string() };
                 (variant.attrs.name.serialized(), discriminant)
             })
             .map(|(name, example)| {
-- 
2.43.0


From a87fe28d7f9b744ae1f4cd1f73d69865764668f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 32/42] fix: newtype variants with a skipped field were
 documented with its content

---
 opg_derive/src/ast.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index 5af4965..cc2576e 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -124,6 +124,11 @@ fn enum_from_ast<'a>(
             .map(|variant| {
                 let attrs = attr::Variant::from_ast(cx, variant);
                 let (style, fields) = struct_from_ast(cx, &variant.fields);
+                let style = match style {
+                    // serde writes such variants as unit ones
+                    StructStyle::NewType if fields[0].attrs.skip_serializing => StructStyle::Unit,
+                    style => style,
+                };
                 Variant {
                     ident: variant.ident.clone(),
                     attrs,
-- 
2.43.0


From d8a63e0893b15f0704df2397ed6b30cc314c0bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 33/42] fix: enums of which only unit variants are written were
 documented as objects

---
 opg_derive/src/opg.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index ea01f47..ea20cb5 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -69,6 +69,15 @@ fn serialize_enum(container: &Container, variants: &[Variant]) -> proc_macro2::T
         (ModelType::Object, TagType::Adjacent { tag, content }) => {
             serialize_adjacent_tagged_enum(container, variants, tag, content)
         }
+        (ModelType::Dictionary, _)
+            if !container.attrs.has_repr
+                && variants
+                    .iter()
+                    .filter(|variant| !variant.attrs.skip_serializing)
+                    .all(|variant| matches!(variant.style, StructStyle::Unit)) =>
+        {
+            serialize_newtype_enum(container, variants)
+        }
         (ModelType::Dictionary, _) => serialize_external_tagged_enum(container, variants),
         (ModelType::OneOf, TagType::None) => serialize_untagged_enum(container, variants),
         (ModelType::OneOf, TagType::Internal { tag }) => {
-- 
2.43.0


From 4c18d7d9e3ec8771c2e5a66734deb7f1fd94ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 34/42] fix: transparent structs with a phantom field before
 the actual one did not compile

---
 opg_derive/src/bound.rs | 10 ++++++++++
 opg_derive/src/opg.rs   |  4 +++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/bound.rs b/opg_derive/src/bound.rs
index 630208f..acf035b 100644
--- a/opg_derive/src/bound.rs
+++ b/opg_derive/src/bound.rs
@@ -133,6 +133,16 @@ pub fn with_bound(
     generics
 }
 
+pub fn is_phantom_data(ty: &syn::Type) -> bool {
+    match ungroup(ty) {
+        syn::Type::Path(ty) => match ty.path.segments.last() {
+            Some(segment) => segment.ident == "PhantomData",
+            None => false,
+        },
+        _ => false,
+    }
+}
+
 fn ungroup(mut ty: &syn::Type) -> &syn::Type {
     while let syn::Type::Group(group) = ty {
         ty = &group.elem;
diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index ea20cb5..ec5d680 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -51,7 +51,9 @@ fn serialize_body(container: &Container) -> proc_macro2::TokenStream {
     match &container.data {
         Data::Enum(variants) => serialize_enum(container, variants),
         Data::Struct(_, fields) if container.attrs.transparent => {
-            let field = fields.iter().find(|field| !field.attrs.skip_serializing);
+            let field = fields
+                .iter()
+                .find(|field| !field.attrs.skip_serializing && !bound::is_phantom_data(field.ty));
             serialize_newtype_struct(container, field.unwrap_or(&fields[0]))
         }
         Data::Struct(StructStyle::Struct, fields) => serialize_struct(container, fields),
-- 
2.43.0


From acc1dd37d77e9aab01a4523d8d4c1c8b9dbbc238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 35/42] fix: nullable, format and example were ignored on enums
 of names

---
 opg_derive/src/opg.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index ec5d680..766e211 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -135,17 +135,22 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
             .map(|variant| variant.attrs.name.serialized())
             .collect::<Vec<_>>();
 
-        let example = option_string(variants.first().map(|x| x.as_str()));
+        let nullable = container.attrs.nullable;
+        let format = option_string(container.attrs.format.as_deref());
+        let example = match &container.attrs.example {
+            Some(example) => option_to_string_expr(Some(example)),
+            None => option_string(variants.first().map(|x| x.as_str())),
+        };
 
         quote! {
             _opg::Model {
                 description: #description,
                 data: _opg::ModelData::Single(_opg::ModelType {
-                    nullable: false,
+                    nullable: #nullable,
                     type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
                         variants: ::std::option::Option::Some(vec![#(#variants.to_owned()),*]),
                         data: _opg::ModelSimple {
-                            format: ::std::option::Option::None,
+                            format: #format,
                             example: #example,
                         }
                     })
-- 
2.43.0


From 53a8301a14cdba1b1e24c4b51782b13294f494a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 36/42] fix: explicit types on newtype variants were ignored

---
 opg_derive/src/ast.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index cc2576e..ff29073 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -123,7 +123,11 @@ fn enum_from_ast<'a>(
             .iter()
             .map(|variant| {
                 let attrs = attr::Variant::from_ast(cx, variant);
-                let (style, fields) = struct_from_ast(cx, &variant.fields);
+                let (style, mut fields) = struct_from_ast(cx, &variant.fields);
+                if let StructStyle::NewType = style {
+                    let explicit_model_type = &mut fields[0].attrs.explicit_model_type;
+                    *explicit_model_type = explicit_model_type.or(attrs.explicit_model_type);
+                }
                 let style = match style {
                     // serde writes such variants as unit ones
                     StructStyle::NewType if fields[0].attrs.skip_serializing => StructStyle::Unit,
-- 
2.43.0


From 8f5bbba2d11097dd501065bbd7b5e72100a24bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:41 +0000
Subject: [PATCH 37/42] fix: explicit types were ignored on everything but
 newtypes

---
 opg_derive/src/opg.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 766e211..4f11634 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -49,19 +49,32 @@ fn build_generics(cont: &Container) -> syn::Generics {
 
 fn serialize_body(container: &Container) -> proc_macro2::TokenStream {
     match &container.data {
-        Data::Enum(variants) => serialize_enum(container, variants),
         Data::Struct(_, fields) if container.attrs.transparent => {
             let field = fields
                 .iter()
                 .find(|field| !field.attrs.skip_serializing && !bound::is_phantom_data(field.ty));
             serialize_newtype_struct(container, field.unwrap_or(&fields[0]))
         }
-        Data::Struct(StructStyle::Struct, fields) => serialize_struct(container, fields),
-        Data::Struct(StructStyle::Tuple, fields) => serialize_tuple_struct(container, fields),
         Data::Struct(StructStyle::NewType, fields) => {
             serialize_newtype_struct(container, &fields[0])
         }
-        _ => unimplemented!(),
+        data => match (data, container.attrs.explicit_model_type) {
+            (_, Some(explicit_model_type)) if explicit_model_type != ExplicitModelType::Any => {
+                let context_params = ContextParams::from(&container.attrs);
+                let model = newtype_model(
+                    container.attrs.nullable,
+                    context_params,
+                    explicit_model_type,
+                );
+                implement_type(&container.ident, model, container.attrs.inline)
+            }
+            (Data::Enum(variants), _) => serialize_enum(container, variants),
+            (Data::Struct(StructStyle::Struct, fields), _) => serialize_struct(container, fields),
+            (Data::Struct(StructStyle::Tuple, fields), _) => {
+                serialize_tuple_struct(container, fields)
+            }
+            _ => unimplemented!(),
+        },
     }
 }
 
-- 
2.43.0


From 62bda5046439c40fd42e673093ecfc5ad7e59a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:24 +0000
Subject: [PATCH 38/42] fix: register types with raw identifiers under their
 plain name

---
 opg_derive/src/opg.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 4f11634..94305fa 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -274,7 +274,7 @@ fn serialize_adjacent_tagged_enum(
     let is_content_required = one_of.len() == variants.len();
 
     let type_example = option_string(variants.first().map(|x| x.as_str()));
-    let type_name_stringified = container.ident.to_string();
+    let type_name_stringified = dummy::unraw(&container.ident);
 
     let struct_type_description = quote! {
         {
@@ -436,7 +436,7 @@ fn serialize_internal_tagged_enum(
     let description = option_string(container.attrs.description.as_deref());
     let nullable = container.attrs.nullable;
 
-    let type_name_stringified = container.ident.to_string();
+    let type_name_stringified = dummy::unraw(&container.ident);
 
     let one_of = variants
         .iter()
@@ -841,6 +841,8 @@ fn implement_type(
     body: proc_macro2::TokenStream,
     inline: bool,
 ) -> proc_macro2::TokenStream {
+    let type_name = dummy::unraw(type_name);
+
     let inline = if inline {
         quote! {
             #[inline]
@@ -857,7 +859,7 @@ fn implement_type(
         quote! {
             #[inline]
             fn type_name() -> ::std::option::Option<std::borrow::Cow<'static, str>> {
-                ::std::option::Option::Some(stringify!(#type_name).into())
+                ::std::option::Option::Some(#type_name.into())
             }
         }
     };
-- 
2.43.0


From bbb259e0e9bdc7a2b9e25894892b2d112b100048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:16 +0000
Subject: [PATCH 39/42] fix: the tag that serde writes for a tagged struct was
 not documented

---
 opg_derive/src/opg.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 94305fa..61bfca5 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -537,6 +537,49 @@ fn serialize_struct(container: &Container, fields: &[Field]) -> proc_macro2::Tok
         }
     };
 
+    let body = match &container.attrs.tag_type {
+        // serde writes the name of a tagged struct as one more property
+        TagType::Internal { tag } => {
+            let type_name_stringified = dummy::unraw(&container.ident);
+            let name = container.attrs.name.serialized();
+
+            quote! {
+                {
+                    let mut model = #body;
+
+                    let mut tag = _opg::ModelObject::default();
+                    tag.properties.insert(#tag.to_owned(), _opg::ModelReference::Inline(
+                        _opg::Model {
+                            description: ::std::option::Option::Some(format!("{} type variant", #type_name_stringified)),
+                            data: _opg::ModelData::Single(_opg::ModelType {
+                                nullable: false,
+                                type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
+                                    variants: ::std::option::Option::Some(vec![#name.to_owned()]),
+                                    data: _opg::ModelSimple {
+                                        format: ::std::option::Option::None,
+                                        example: ::std::option::Option::Some(#name.to_owned()),
+                                    }
+                                })
+                            })
+                        }
+                    ));
+                    tag.required.push(#tag.to_owned());
+
+                    let _ = model.try_merge(_opg::Model {
+                        description: ::std::option::Option::None,
+                        data: _opg::ModelData::Single(_opg::ModelType {
+                            nullable: false,
+                            type_description: _opg::ModelTypeDescription::Object(tag),
+                        })
+                    });
+
+                    model
+                }
+            }
+        }
+        _ => body,
+    };
+
     implement_type(&container.ident, body, container.attrs.inline)
 }
 
-- 
2.43.0


From 18f020718a1f8cd1ef986094584c2ff7113224b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:50 +0000
Subject: [PATCH 40/42] fix: serde's rename_all_fields was ignored

---
 opg_derive/src/ast.rs    |  3 ++-
 opg_derive/src/attr.rs   | 17 +++++++++++++++++
 opg_derive/src/case.rs   |  8 ++++++++
 opg_derive/src/symbol.rs |  1 +
 4 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index ff29073..d965416 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -53,11 +53,12 @@ impl<'a> Container<'a> {
             Data::Enum(variants) => {
                 for variant in variants {
                     variant.attrs.rename_by_rule(attrs.rename_rule);
+                    let rename_rule = variant.attrs.rename_rule.or(attrs.rename_fields_rule);
                     for field in &mut variant.fields {
                         if field.attrs.flatten {
                             has_flatten = true;
                         }
-                        field.attrs.rename_by_rule(variant.attrs.rename_rule);
+                        field.attrs.rename_by_rule(rename_rule);
                     }
                 }
             }
diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index 1b9d4e2..196733f 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -14,6 +14,7 @@ use crate::symbol::*;
 pub struct Container {
     pub name: Name,
     pub rename_rule: RenameRule,
+    pub rename_fields_rule: RenameRule,
     pub transparent: bool,
     pub tag_type: TagType,
     pub has_flatten: bool,
@@ -33,6 +34,7 @@ impl Container {
     pub fn from_ast(cx: &ParsingContext, input: &syn::DeriveInput) -> Self {
         let mut ser_name = Attr::none(cx, RENAME);
         let mut rename_rule = Attr::none(cx, RENAME_ALL);
+        let mut rename_fields_rule = Attr::none(cx, RENAME_ALL_FIELDS);
         let mut transparent = BoolAttr::none(cx, TRANSPARENT);
         let mut untagged = BoolAttr::none(cx, UNTAGGED);
         let mut internal_tag = Attr::none(cx, TAG);
@@ -77,6 +79,20 @@ impl Container {
                         }
                     }
                 }
+                (AttrFrom::Serde, Meta(NameValue(m))) if m.path == RENAME_ALL_FIELDS => {
+                    if let Ok(rule) = get_lit_str(cx, RENAME_ALL_FIELDS, &m.lit)
+                        .and_then(|s| RenameRule::from_str(&s.value()))
+                    {
+                        rename_fields_rule.set(&m.path, rule)
+                    }
+                }
+                (AttrFrom::Serde, Meta(List(m))) if m.path == RENAME_ALL_FIELDS => {
+                    if let Ok(Some(rule)) = get_renames(cx, &m.nested) {
+                        if let Ok(rule) = RenameRule::from_str(&rule.value()) {
+                            rename_fields_rule.set(&m.path, rule)
+                        }
+                    }
+                }
                 (AttrFrom::Serde, Meta(Path(word))) if word == TRANSPARENT => {
                     transparent.set_true(word);
                 }
@@ -161,6 +177,7 @@ impl Container {
         Self {
             name: Name::from_attrs(unraw(&input.ident), ser_name),
             rename_rule: rename_rule.get().unwrap_or(RenameRule::None),
+            rename_fields_rule: rename_fields_rule.get().unwrap_or(RenameRule::None),
             transparent: transparent.get(),
             tag_type,
             has_flatten: false,
diff --git a/opg_derive/src/case.rs b/opg_derive/src/case.rs
index a423b98..0ceb501 100644
--- a/opg_derive/src/case.rs
+++ b/opg_derive/src/case.rs
@@ -30,6 +30,14 @@ pub enum RenameRule {
 }
 
 impl RenameRule {
+    /// Returns the rule if there is one, and the other one otherwise.
+    pub fn or(self, other: Self) -> Self {
+        match self {
+            None => other,
+            rule => rule,
+        }
+    }
+
     /// Apply a renaming rule to an enum variant, returning the version expected in the source.
     pub fn apply_to_variant(self, variant: &str) -> String {
         match self {
diff --git a/opg_derive/src/symbol.rs b/opg_derive/src/symbol.rs
index 118dde8..b1ae6da 100644
--- a/opg_derive/src/symbol.rs
+++ b/opg_derive/src/symbol.rs
@@ -40,6 +40,7 @@ define_symbols! {
     CONTENT => "content",
     RENAME => "rename",
     RENAME_ALL => "rename_all",
+    RENAME_ALL_FIELDS => "rename_all_fields",
     SERIALIZE => "serialize",
     DESERIALIZE => "deserialize",
 
-- 
2.43.0


From 895d1ee8842c07cd8203cac2a1e31539b11ea515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:26 +0000
Subject: [PATCH 41/42] fix: derived code named std, vec! and format! without
 an absolute path

A module named std or a macro named vec or format in the scope of the
declaration was picked up by the code that the derive writes.
---
 opg_derive/src/opg.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 61bfca5..5dc952d 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -137,7 +137,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
             _opg::Model {
                 description: #description,
                 data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                    one_of: vec![#(#variants),*],
+                    one_of: ::std::vec![#(#variants),*],
                 })
             }
         }
@@ -161,7 +161,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
                 data: _opg::ModelData::Single(_opg::ModelType {
                     nullable: #nullable,
                     type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
-                        variants: ::std::option::Option::Some(vec![#(#variants.to_owned()),*]),
+                        variants: ::std::option::Option::Some(::std::vec![#(#variants.to_owned()),*]),
                         data: _opg::ModelSimple {
                             format: #format,
                             example: #example,
@@ -209,7 +209,7 @@ fn serialize_untagged_enum(
         _opg::Model {
             description: #description,
             data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                one_of: vec![#(#one_of),*],
+                one_of: ::std::vec![#(#one_of),*],
             })
         }
     };
@@ -278,16 +278,16 @@ fn serialize_adjacent_tagged_enum(
 
     let struct_type_description = quote! {
         {
-            let mut properties = std::collections::BTreeMap::new();
+            let mut properties = ::std::collections::BTreeMap::new();
             let mut required = ::std::vec::Vec::new();
 
             properties.insert(#tag.to_owned(), _opg::ModelReference::Inline(
                 _opg::Model {
-                    description: ::std::option::Option::Some(format!("{} type variant", #type_name_stringified)),
+                    description: ::std::option::Option::Some(::std::format!("{} type variant", #type_name_stringified)),
                     data: _opg::ModelData::Single(_opg::ModelType {
                         nullable: false,
                         type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
-                            variants: ::std::option::Option::Some(vec![#(#variants.to_owned()),*]),
+                            variants: ::std::option::Option::Some(::std::vec![#(#variants.to_owned()),*]),
                             data: _opg::ModelSimple {
                                 format: ::std::option::Option::None,
                                 example: #type_example,
@@ -303,7 +303,7 @@ fn serialize_adjacent_tagged_enum(
                     _opg::Model {
                         description: #description,
                         data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                            one_of: vec![#(#one_of),*],
+                            one_of: ::std::vec![#(#one_of),*],
                         })
                     }
                 ));
@@ -361,7 +361,7 @@ fn serialize_external_tagged_enum(
                                     data: _opg::ModelData::Single(_opg::ModelType {
                                         nullable: false,
                                         type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
-                                            variants: ::std::option::Option::Some(vec![#variant_name.to_owned()]),
+                                            variants: ::std::option::Option::Some(::std::vec![#variant_name.to_owned()]),
                                             data: _opg::ModelSimple {
                                                 format: ::std::option::Option::None,
                                                 example: ::std::option::Option::Some(#variant_name.to_owned()),
@@ -414,7 +414,7 @@ fn serialize_external_tagged_enum(
                             _opg::Model {
                                 description: #description,
                                 data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                                    one_of: vec![#(#one_of),*],
+                                    one_of: ::std::vec![#(#one_of),*],
                                 })
                             }
                         ))),
@@ -470,15 +470,15 @@ fn serialize_internal_tagged_enum(
                     let mut model = #model;
 
                     let additional_object = {
-                        let mut properties = std::collections::BTreeMap::new();
+                        let mut properties = ::std::collections::BTreeMap::new();
 
                         properties.insert(#tag.to_owned(), _opg::ModelReference::Inline(
                             _opg::Model {
-                                description: ::std::option::Option::Some(format!("{} type variant", #type_name_stringified)),
+                                description: ::std::option::Option::Some(::std::format!("{} type variant", #type_name_stringified)),
                                 data: _opg::ModelData::Single(_opg::ModelType {
                                     nullable: false,
                                     type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
-                                        variants: ::std::option::Option::Some(vec![#variant_name.to_owned()]),
+                                        variants: ::std::option::Option::Some(::std::vec![#variant_name.to_owned()]),
                                         data: _opg::ModelSimple {
                                             format: ::std::option::Option::None,
                                             example: ::std::option::Option::Some(#variant_name.to_owned()),
@@ -490,7 +490,7 @@ fn serialize_internal_tagged_enum(
 
                         _opg::ModelTypeDescription::Object(_opg::ModelObject {
                             properties,
-                            required: vec![#tag.to_owned()],
+                            required: ::std::vec![#tag.to_owned()],
                             ..::std::default::Default::default()
                         })
                     };
@@ -513,7 +513,7 @@ fn serialize_internal_tagged_enum(
         _opg::Model {
             description: #description,
             data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                one_of: vec![#(#one_of),*],
+                one_of: ::std::vec![#(#one_of),*],
             })
         }
     };
@@ -550,11 +550,11 @@ fn serialize_struct(container: &Container, fields: &[Field]) -> proc_macro2::Tok
                     let mut tag = _opg::ModelObject::default();
                     tag.properties.insert(#tag.to_owned(), _opg::ModelReference::Inline(
                         _opg::Model {
-                            description: ::std::option::Option::Some(format!("{} type variant", #type_name_stringified)),
+                            description: ::std::option::Option::Some(::std::format!("{} type variant", #type_name_stringified)),
                             data: _opg::ModelData::Single(_opg::ModelType {
                                 nullable: false,
                                 type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
-                                    variants: ::std::option::Option::Some(vec![#name.to_owned()]),
+                                    variants: ::std::option::Option::Some(::std::vec![#name.to_owned()]),
                                     data: _opg::ModelSimple {
                                         format: ::std::option::Option::None,
                                         example: ::std::option::Option::Some(#name.to_owned()),
@@ -715,7 +715,7 @@ where
         _opg::Model {
             description: ::std::option::Option::None,
             data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                one_of: vec![#(#data),*],
+                one_of: ::std::vec![#(#data),*],
             })
         }
     };
@@ -760,7 +760,7 @@ where
 
     quote! {
         {
-            let mut properties = std::collections::BTreeMap::new();
+            let mut properties = ::std::collections::BTreeMap::new();
             let mut required = ::std::vec::Vec::new();
 
             #(#data)*
@@ -889,7 +889,7 @@ fn implement_type(
     let inline = if inline {
         quote! {
             #[inline]
-            fn type_name() -> ::std::option::Option<std::borrow::Cow<'static, str>> {
+            fn type_name() -> ::std::option::Option<::std::borrow::Cow<'static, str>> {
                 ::std::option::Option::None
             }
 
@@ -901,7 +901,7 @@ fn implement_type(
     } else {
         quote! {
             #[inline]
-            fn type_name() -> ::std::option::Option<std::borrow::Cow<'static, str>> {
+            fn type_name() -> ::std::option::Option<::std::borrow::Cow<'static, str>> {
                 ::std::option::Option::Some(#type_name.into())
             }
         }
-- 
2.43.0


From c679e2e71fe2e2e000a9ee117f526529f500d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:21 +0000
Subject: [PATCH 42/42] fix: example_with saw the local variables of the
 derived code

An expression that calls a function named required, properties or cx of
the user's got the variable of the generated code instead.
---
 opg_derive/src/opg.rs | 44 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 5dc952d..fbe24d7 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -278,10 +278,10 @@ fn serialize_adjacent_tagged_enum(
 
     let struct_type_description = quote! {
         {
-            let mut properties = ::std::collections::BTreeMap::new();
-            let mut required = ::std::vec::Vec::new();
+            let mut __properties = ::std::collections::BTreeMap::new();
+            let mut __required = ::std::vec::Vec::new();
 
-            properties.insert(#tag.to_owned(), _opg::ModelReference::Inline(
+            __properties.insert(#tag.to_owned(), _opg::ModelReference::Inline(
                 _opg::Model {
                     description: ::std::option::Option::Some(::std::format!("{} type variant", #type_name_stringified)),
                     data: _opg::ModelData::Single(_opg::ModelType {
@@ -296,10 +296,10 @@ fn serialize_adjacent_tagged_enum(
                     })
                 }
             ));
-            required.push(#tag.to_owned());
+            __required.push(#tag.to_owned());
 
             if #has_content {
-                properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
+                __properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
                     _opg::Model {
                         description: #description,
                         data: _opg::ModelData::OneOf(_opg::ModelOneOf {
@@ -309,13 +309,13 @@ fn serialize_adjacent_tagged_enum(
                 ));
             }
             if #has_content && #is_content_required {
-                required.push(#content.to_owned());
+                __required.push(#content.to_owned());
             }
 
             _opg::ModelTypeDescription::Object(
                 _opg::ModelObject {
-                    properties,
-                    required,
+                    properties: __properties,
+                    required: __required,
                     ..::std::default::Default::default()
                 }
             )
@@ -454,7 +454,7 @@ fn serialize_internal_tagged_enum(
                     let context_params = ContextParams::from(&field.attrs).or(&variant.attrs).tokenize();
 
                     quote! {
-                        <#type_name as _opg::OpgModel>::get_schema_with_params(cx, &#context_params)
+                        <#type_name as _opg::OpgModel>::get_schema_with_params(__cx, &#context_params)
                     }
                 }
                 StructStyle::Struct => {
@@ -625,9 +625,9 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
             let context_params = context_params.tokenize();
 
             quote! {
-                match <#type_name as _opg::OpgModel>::select_reference(cx, true, &#context_params) {
+                match <#type_name as _opg::OpgModel>::select_reference(__cx, true, &#context_params) {
                     _opg::ModelReference::Inline(model) => model,
-                    _ => <#type_name as _opg::OpgModel>::get_schema_with_params(cx, &#context_params),
+                    _ => <#type_name as _opg::OpgModel>::get_schema_with_params(__cx, &#context_params),
                 }
             }
         }
@@ -635,7 +635,7 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
             let context_params = context_params.tokenize();
 
             quote! {
-                <#type_name as _opg::OpgModel>::get_schema_with_params(cx, &#context_params)
+                <#type_name as _opg::OpgModel>::get_schema_with_params(__cx, &#context_params)
             }
         }
     };
@@ -746,13 +746,13 @@ where
             let property_name = syn::LitStr::new(&field.attrs.name.serialized(), Span::call_site());
 
             let push_required = if !field.attrs.optional {
-                quote!( required.push(#property_name.to_owned()) )
+                quote!( __required.push(#property_name.to_owned()) )
             } else {
                 quote!()
             };
 
             quote! {
-                properties.insert(#property_name.to_owned(), #field_model_reference);
+                __properties.insert(#property_name.to_owned(), #field_model_reference);
                 #push_required;
             }
         })
@@ -760,15 +760,15 @@ where
 
     quote! {
         {
-            let mut properties = ::std::collections::BTreeMap::new();
-            let mut required = ::std::vec::Vec::new();
+            let mut __properties = ::std::collections::BTreeMap::new();
+            let mut __required = ::std::vec::Vec::new();
 
             #(#data)*
 
             _opg::ModelTypeDescription::Object(
                 _opg::ModelObject {
-                    properties,
-                    required,
+                    properties: __properties,
+                    required: __required,
                     ..::std::default::Default::default()
                 }
             )
@@ -800,7 +800,7 @@ fn field_model_reference<'a>(
             let context_params = context_params.tokenize();
 
             quote! {
-                cx.mention_schema::<#type_name>(#inline, &#context_params)
+                __cx.mention_schema::<#type_name>(#inline, &#context_params)
             }
         }
     }
@@ -894,8 +894,8 @@ fn implement_type(
             }
 
             #[inline]
-            fn select_reference(cx: &mut _opg::Components, _: bool, params: &_opg::ContextParams) -> _opg::ModelReference {
-                _opg::ModelReference::Inline(Self::get_schema(cx).apply_params(params))
+            fn select_reference(__cx: &mut _opg::Components, _: bool, params: &_opg::ContextParams) -> _opg::ModelReference {
+                _opg::ModelReference::Inline(Self::get_schema(__cx).apply_params(params))
             }
         }
     } else {
@@ -908,7 +908,7 @@ fn implement_type(
     };
 
     quote! {
-        fn get_schema(cx: &mut _opg::Components) -> _opg::Model {
+        fn get_schema(__cx: &mut _opg::Components) -> _opg::Model {
             #body
         }
 
-- 
2.43.0

