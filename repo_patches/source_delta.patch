From 38065bbd97f6a66e164c5a4c50158634eb2f2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 01/31] fix: bool schema uses z.boolean(), zod has no z.bool()

---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index fc5ad9a..c04b278 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -143,7 +143,7 @@ impl_primitive!("number", isize, "z.number().finite().int()");
 impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
 
-impl_primitive!("boolean", bool, "z.bool()");
+impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
 impl_primitive!("null", (), "z.null()");
 
-- 
2.43.0


From d70feafbcc78cd976d7e435f4aee7bcd70ad5c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 02/31] fix: reference derived types inside containers,
 wrappers and tuples instead of expanding them

Expanding them made schema() and type_def() of recursive types overflow the stack.
---
 core/src/build_ins.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index c04b278..1cef26b 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -1,3 +1,4 @@
+use crate::InlinedType;
 use crate::TsTypeDef;
 use crate::ZodType;
 
@@ -48,7 +49,7 @@ macro_rules! impl_tuples {
             /// [T1, T2, ... ]
             /// ```
             fn type_def() -> TsTypeDef {
-                TsTypeDef::Type(format!("[{}]", vec![$($i::type_def().to_string()),*].join(", ")))
+                TsTypeDef::Type(format!("[{}]", vec![$($i::inline().to_string()),*].join(", ")))
             }
 
 
@@ -57,7 +58,7 @@ macro_rules! impl_tuples {
             /// z.tuple([T1, T2, ... ])
             /// ```
             fn schema() -> String {
-                format!("z.tuple([{}])", vec![$($i::schema()),*].join(", "))
+                format!("z.tuple([{}])", vec![$($i::inline_schema()),*].join(", "))
             }
         }
     };
@@ -87,6 +88,13 @@ macro_rules! impl_wrapper {
                 T::schema()
             }
 
+            fn inline_schema() -> String {
+                T::inline_schema()
+            }
+
+            fn inline() -> InlinedType {
+                T::inline()
+            }
         }
     };
 }
@@ -173,7 +181,7 @@ impl<T: ZodType> ZodType for Vec<T> {
     /// Array<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Array<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Array<{}>", T::inline()))
     }
 
     /// ```ts
@@ -191,7 +199,7 @@ impl<T: ZodType> ZodType for std::collections::HashSet<T> {
     /// Set<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Set<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Set<{}>", T::inline()))
     }
 
     /// ```ts
@@ -209,7 +217,7 @@ impl<K: ZodType, V: ZodType> ZodType for std::collections::HashMap<K, V> {
     /// Map<K, V>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Map<{}, {}>", K::type_def(), V::type_def()))
+        TsTypeDef::Type(format!("Map<{}, {}>", K::inline(), V::inline()))
     }
 
     /// ```ts
@@ -228,7 +236,7 @@ impl<T: ZodType> ZodType for Option<T> {
     /// ```
     fn type_def() -> TsTypeDef {
         // Todo
-        TsTypeDef::Type(format!("({} | undefined)", T::type_def()))
+        TsTypeDef::Type(format!("({} | undefined)", T::inline()))
     }
 
     /// ```ts
@@ -248,8 +256,8 @@ impl<T: ZodType, E: ZodType> ZodType for Result<T, E> {
     fn type_def() -> TsTypeDef {
         TsTypeDef::Type(format!(
             "{{ Ok: {} }} | {{ Err: {} }}",
-            T::type_def(),
-            E::type_def()
+            T::inline(),
+            E::inline()
         ))
     }
 
-- 
2.43.0


From 3c536dc5393d6c9b2b593acd6df7d02b505d6341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 03/31] fix: declare tuple structs and structs with flattened
 fields as type aliases

An interface body must be a plain object type, so the generated typescript was invalid.
---
 derive/src/impl_struct.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 75def9d..9ea3d1b 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -123,9 +123,11 @@ impl<'a> Struct<'a> {
 
             }
         } else {
-            let interface_or_type = match (self.fields.len() == 1, self.style, self.transparent) {
-                (_, Style::Unit, _) | (true, Style::Tuple, _) | (_, _, true) => quote!(Type),
-                _ => quote!(Interface),
+            // only a plain object type may be declared as an interface
+            let has_flat_fields = self.fields.iter().any(|f| f.flatten);
+            let interface_or_type = match (has_flat_fields, self.style, self.transparent) {
+                (false, Style::Struct, false) => quote!(Interface),
+                _ => quote!(Type),
             };
 
             quote! {
-- 
2.43.0


From d2b18da98cd53ccf8788856b530b5d0f3637cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 04/31] fix: keep the tuple of a tuple struct or variant whose
 other fields are skipped

Serde only unwraps types declared with a single field.
---
 derive/src/impl_enum/variant/mod.rs           |  1 +
 derive/src/impl_enum/variant/tuple_variant.rs | 17 +++++++++--------
 derive/src/impl_struct.rs                     | 17 ++++++++++-------
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index 3fccd76..e22da8e 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -37,6 +37,7 @@ impl<'a> Variant<'a> {
                 span,
                 tag,
                 name,
+                newtype: variant.fields.len() == 1,
                 fields,
             }),
             Style::Struct => Self::Struct(StructVariant {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index b20a29a..30c7f73 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -11,14 +11,15 @@ pub struct TupleVariant<'a> {
     pub span: Span,
     pub tag: &'a TagType,
     pub name: String,
+    pub newtype: bool,
     pub fields: field::VariantFields<'a>,
 }
 
 impl<'a> TupleVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let inner = match self.fields.len() {
-            0 => {
-                // may occur if fields are skipped. In this case we handle it like a unit variant
+        let inner = match (self.newtype, self.fields.len()) {
+            (true, 0) => {
+                // may occur if the field is skipped. In this case we handle it like a unit variant
                 return UnitVariant {
                     span: self.span,
                     tag: self.tag,
@@ -26,7 +27,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_schema();
             }
-            1 => self
+            (true, _) => self
                 .fields
                 .expand_schema()
                 .into_iter()
@@ -65,9 +66,9 @@ impl<'a> TupleVariant<'a> {
         let tag_type = self.tag;
         let name = &self.name;
 
-        let inner = match expanded_fields.len() {
-            // may occur if fields are skipped. In this case we handle it like a unit variant
-            0 => {
+        let inner = match (self.newtype, expanded_fields.len()) {
+            // may occur if the field is skipped. In this case we handle it like a unit variant
+            (true, 0) => {
                 return UnitVariant {
                     span: self.span,
                     tag: self.tag,
@@ -75,7 +76,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_type_defs()
             }
-            1 => expanded_fields
+            (true, _) => expanded_fields
                 .first()
                 .expect("exactly one variant")
                 .clone(),
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 9ea3d1b..f990586 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -32,10 +32,13 @@ pub fn expand(
 
     let style = fields.style;
 
+    // serde never skips the only field of a newtype struct
+    let newtype = matches!(style, Style::Tuple) && fields.len() == 1;
+
     let fields = fields
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
-        .filter(|(_, attrs)| !attrs.skip_deserializing())
+        .filter(|(_, attrs)| newtype || !attrs.skip_deserializing())
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
@@ -59,6 +62,7 @@ pub fn expand(
         ident,
         fields,
         style,
+        newtype,
         from_ty,
     };
 
@@ -73,6 +77,7 @@ struct Struct<'a> {
     name: String,
     fields: Vec<StructField<'a>>,
     style: Style,
+    newtype: bool,
     from_ty: Option<syn::Type>,
 }
 
@@ -177,9 +182,8 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_type_defs(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
@@ -220,9 +224,8 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_schema(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
-- 
2.43.0


From 8eed3c8d4d3a296919167d594e63b837cb6999ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 05/31] fix: a transparent struct has the schema of the field
 serde picks, not of its first field

---
 derive/src/impl_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index f990586..6f0a852 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -38,7 +38,10 @@ pub fn expand(
     let fields = fields
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
-        .filter(|(_, attrs)| newtype || !attrs.skip_deserializing())
+        .filter(|(_, attrs)| match transparent {
+            true => attrs.transparent(),
+            false => newtype || !attrs.skip_deserializing(),
+        })
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
-- 
2.43.0


From 952d2182cc59a5720f1f111f5aa89a7ac9aad42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 06/31] fix: all fields of a struct with a container level
 serde default are optional

---
 derive/src/impl_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 6f0a852..fdb2a49 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -35,6 +35,9 @@ pub fn expand(
     // serde never skips the only field of a newtype struct
     let newtype = matches!(style, Style::Tuple) && fields.len() == 1;
 
+    // serde fills every missing field of a struct with a default
+    let container_default = !transparent && !newtype && !serde_ast.attrs.default().is_none();
+
     let fields = fields
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
@@ -45,7 +48,7 @@ pub fn expand(
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
-            optional: !attrs.default().is_none(),
+            optional: !attrs.default().is_none() || (container_default && !attrs.flatten()),
             transparent,
             flatten: attrs.flatten(),
         })
-- 
2.43.0


From 28ecb3101c92226fdd148da6dc2b449e7ac76d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 07/31] fix: support struct variants without fields instead of
 panicking

---
 derive/src/impl_enum/variant/struct_variant.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 6eeabab..82037c3 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -16,7 +16,6 @@ pub struct StructVariant<'a> {
 impl<'a> StructVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
         let inner = match self.fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
             1 => {
                 let inner = self.fields.expand_schema();
                 inner.first().expect("one field").clone()
@@ -58,7 +57,6 @@ impl<'a> StructVariant<'a> {
         let name = self.attrs.name().deserialize_name();
 
         let inner = match expanded_fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
             1 => expanded_fields
                 .first()
                 .expect("exactly one variant")
-- 
2.43.0


From 6f345828c323f5a898ee89fdee8f37be76877d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 08/31] fix: strip the raw prefix from rpc method and argument
 names

The server expects the plain name and `r#name` is no typescript.
---
 derive/src/rpc/args.rs     | 4 ++--
 derive/src/rpc/impl_rpc.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 7226b12..d74c31a 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -1,7 +1,7 @@
 use darling::{ast::Data, FromDeriveInput, FromField};
 use proc_macro_error::{abort, abort_call_site};
 use quote::format_ident;
-use syn::{parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
+use syn::{ext::IdentExt, parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
 
 #[derive(FromDeriveInput)]
 pub struct BackendInput {
@@ -121,7 +121,7 @@ impl RpcItem {
                 syn::FnArg::Typed(t) => Some(RpcArg {
                     ty: t.ty.clone(),
                     name: match t.pat.as_ref() {
-                        syn::Pat::Ident(ident) => ident.ident.to_string(),
+                        syn::Pat::Ident(ident) => ident.ident.unraw().to_string(),
                         _ => abort_call_site!("Expected an ident, got {:?}", t.pat),
                     },
                 }),
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index c280c72..772ca44 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 
 use proc_macro_error::abort;
 use quote::{quote, quote_spanned};
-use syn::{Ident, Type};
+use syn::{ext::IdentExt, Ident, Type};
 
 use crate::rpc::args::{self, RpcArg, RpcInput, RpcItemKind};
 use crate::{get_private, get_private_spanned, get_zod};
@@ -61,7 +61,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
 pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenStream {
     let __private = get_private();
     let zod = get_zod();
-    let name = item.ident.to_string();
+    let name = item.ident.unraw().to_string();
 
     let args = item
         .arg_types
-- 
2.43.0


From 1cfdeb9387e3f9191e18dced84062ea59b3e583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 09/31] fix: accept the empty argument list the client sends to
 methods without arguments

---
 derive/src/rpc/impl_rpc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 772ca44..5523012 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -130,6 +130,13 @@ pub fn expand_req_variant_decl(item: &args::RpcItem) -> TokenStream {
     let ident = &item.ident;
     let arg_types = item.arg_types.iter().map(|RpcArg { ty, .. }| quote!(#ty,));
 
+    if item.arg_types.is_empty() {
+        // the unit type would not deserialize from the empty array the client sends
+        return quote! {
+            #ident { args: [(); 0] }
+        };
+    }
+
     quote! {
         #ident { args: (#(#arg_types)*) }
     }
-- 
2.43.0


From 75bb19649b4433999a4afb8ba668e6921b4f4fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 10/31] fix: do not panic when the client is gone before its
 response is sent

The panic ended the backend task and thereby all other connections.
---
 derive/src/rpc/impl_rpc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 5523012..883dc81 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -175,9 +175,11 @@ pub fn expand_req_variant_impl_method(
         ident.span() =>
         let res = ctx.#ident(#(#expanded_args),*).await;
 
-        sender
+        if let ::std::result::Result::<_, _>::Err(err) = sender
             .unbounded_send(#__private::Response::method(id, res))
-            .unwrap();
+        {
+            #__private::tracing::warn!(?err, "Failed to send response");
+        }
         None
     }
 }
-- 
2.43.0


From 9ab483867d0ce92747909980dbdc715e7369c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 11/31] fix: abort the stream that is replaced by a new one
 with the same id

It could not be cancelled anymore.
---
 derive/src/rpc/backend_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 2922009..61c6fa4 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -56,7 +56,9 @@ fn expand_backend_impl(
                         match #__private::serde_json::from_value::<#req_ident>(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
-                                    subscribers.insert(id, jh);
+                                    if let Some(replaced) = subscribers.insert(id, jh) {
+                                        replaced.abort();
+                                    }
                                 }
                             }
                             ::std::result::Result::<_, _>::Err(err) => {
-- 
2.43.0


From 8be0882cd7ea7fb1c1a6808fa93ab6a828d60ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 12/31] fix: do not let a doc comment end the generated comment
 early

---
 derive/src/docs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index 11c5002..6887a1f 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -42,7 +42,7 @@ impl ToTokens for RustDocs {
                 let docs = format!(
                     "/**\n{}*/\n",
                     docs.lines()
-                        .map(|line| format!("* {}\n", line))
+                        .map(|line| format!("* {}\n", line.replace("*/", "*\\/")))
                         .collect::<String>()
                 );
                 tokens.extend(quote!(#docs))
-- 
2.43.0


From 126394792ad698793c50fd194cac65c9ece67888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 13/31] fix: internally tagged newtype variants carry their
 content next to the tag

---
 derive/src/impl_enum/mod.rs                   |  9 +++++++++
 derive/src/impl_enum/variant/mod.rs           | 12 +++++++++++-
 derive/src/impl_enum/variant/tuple_variant.rs | 10 ++++++++--
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 46c122e..79fc3d2 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -160,6 +160,15 @@ impl<'a> Enum<'a> {
                             format!("z.union([{}])", variants.join(", "))
                         }
                     }
+                    // z.discriminatedUnion only takes objects
+                    TagType::Internal { .. }
+                        if self.variants.iter().any(|v| v.is_intersection()) =>
+                    {
+                        quote! {
+                            let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
+                            format!("z.union([{}])", variants.join(", "))
+                        }
+                    }
                     TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index e22da8e..984c6a2 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -10,7 +10,7 @@ use super::args;
 use super::field;
 use darling::ast::Style;
 use proc_macro2::TokenStream;
-use serde_derive_internals::ast;
+use serde_derive_internals::{ast, attr::TagType};
 
 /// represents a single enum variant
 pub enum Variant<'a> {
@@ -49,6 +49,16 @@ impl<'a> Variant<'a> {
         }
     }
 
+    /// the content of an internally tagged newtype variant is merged with its tag
+    pub fn is_intersection(&self) -> bool {
+        match self {
+            Variant::Tuple(tuple) => {
+                matches!(tuple.tag, TagType::Internal { .. }) && tuple.fields.len() > 0
+            }
+            Variant::Unit(_) | Variant::Struct(_) => false,
+        }
+    }
+
     /// expand a single variant of an enum into a zod schema
     pub fn expand_schema(&self) -> TokenStream {
         match self {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index 30c7f73..066dd98 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -48,9 +48,12 @@ impl<'a> TupleVariant<'a> {
         let span = self.span;
 
         match self.tag {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
             }
+            TagType::Internal { tag } => {
+                quote_spanned! {span =>  format!("z.intersection(z.object({{ {}: z.literal(\"{}\") }}), {})", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
             }
@@ -92,9 +95,12 @@ impl<'a> TupleVariant<'a> {
         };
 
         match tag_type {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
             }
+            TagType::Internal { tag } => {
+                quote_spanned! {span =>  format!("{{ {}: \"{}\" }} & {}", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
             }
-- 
2.43.0


From 732203996f8b25706a6269ed1b9db8eeed907c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 14/31] fix: parenthesize the type of Result so that it can be
 part of an intersection

---
 core/src/build_ins.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 1cef26b..d247497 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -251,11 +251,11 @@ impl<T: ZodType> ZodType for Option<T> {
 impl<T: ZodType, E: ZodType> ZodType for Result<T, E> {
     /// ```ts
     /// // TS-type
-    /// { Ok: T } | { Err: E }
+    /// ({ Ok: T } | { Err: E })
     /// ```
     fn type_def() -> TsTypeDef {
         TsTypeDef::Type(format!(
-            "{{ Ok: {} }} | {{ Err: {} }}",
+            "({{ Ok: {} }} | {{ Err: {} }})",
             T::inline(),
             E::inline()
         ))
-- 
2.43.0


From 617c5e52f1a9752b3f99c5f56555e4d62926efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 15/31] fix: do not panic on a flattened field of a transparent
 struct

---
 derive/src/impl_struct.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index fdb2a49..d81915b 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -50,7 +50,8 @@ pub fn expand(
             name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
             optional: !attrs.default().is_none() || (container_default && !attrs.flatten()),
             transparent,
-            flatten: attrs.flatten(),
+            // serde reads a transparent struct as its field, flattened or not
+            flatten: attrs.flatten() && !transparent,
         })
         .collect();
 
-- 
2.43.0


From dd0723906b39cfe36c0f82fca57a1658947f18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 16/31] fix: flattened fields are never optional, serde ignores
 their default

---
 derive/src/impl_struct.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index d81915b..a1e1489 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -48,7 +48,8 @@ pub fn expand(
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
-            optional: !attrs.default().is_none() || (container_default && !attrs.flatten()),
+            // serde ignores defaults on flattened fields
+            optional: !attrs.flatten() && (container_default || !attrs.default().is_none()),
             transparent,
             // serde reads a transparent struct as its field, flattened or not
             flatten: attrs.flatten() && !transparent,
-- 
2.43.0


From ae95537e48879948d5f3d84e5952b924d3d66948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 17/31] fix: extend struct variants with their flattened fields
 instead of nesting them

---
 derive/src/impl_enum/field.rs                 | 33 +++++++++++++++++--
 .../src/impl_enum/variant/struct_variant.rs   | 18 +++++-----
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 2166cd2..3ebeb10 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -8,6 +8,7 @@ use syn::spanned::Spanned;
 /// represents the fields inside a variant
 pub struct VariantFields<'a> {
     inner: Vec<VariantField<'a>>,
+    flattened: Vec<&'a EnumField>,
 }
 
 impl<'a> VariantFields<'a> {
@@ -22,7 +23,7 @@ impl<'a> VariantFields<'a> {
             .iter()
             .zip(&serde_variant.fields)
             .filter_map(|(enum_field, f)| {
-                if !f.attrs.skip_deserializing() {
+                if !f.attrs.skip_deserializing() && !f.attrs.flatten() {
                     Some(match style {
                         Style::Tuple => VariantField::Tuple(TupleField {
                             enum_field,
@@ -41,7 +42,15 @@ impl<'a> VariantFields<'a> {
             })
             .collect();
 
-        Self { inner }
+        let flattened = variant
+            .fields
+            .iter()
+            .zip(&serde_variant.fields)
+            .filter(|(_, f)| !f.attrs.skip_deserializing() && f.attrs.flatten())
+            .map(|(enum_field, _)| enum_field)
+            .collect();
+
+        Self { inner, flattened }
     }
     pub fn len(&self) -> usize {
         self.inner.len()
@@ -54,6 +63,26 @@ impl<'a> VariantFields<'a> {
     pub fn expand_schema(&self) -> Vec<TokenStream> {
         self.inner.iter().map(|f| f.expand_schema()).collect()
     }
+
+    /// the types which are intersected with the type of the variant
+    pub fn expand_type_extensions(&self) -> TokenStream {
+        let zod = get_zod();
+        let extensions = self.flattened.iter().map(|f| {
+            let ty = &f.ty;
+            quote_spanned!(ty.span() => format!(" & {}", <#ty as #zod::ZodType>::inline()))
+        });
+        quote!({ let extensions: std::vec::Vec<String> = vec![#(#extensions),*]; extensions.join("") })
+    }
+
+    /// the schemas which extend the schema of the variant
+    pub fn expand_schema_extensions(&self) -> TokenStream {
+        let zod = get_zod();
+        let extensions = self.flattened.iter().map(|f| {
+            let ty = &f.ty;
+            quote_spanned!(ty.span() => format!(".extend({})", <#ty as #zod::ZodType>::inline_schema()))
+        });
+        quote!({ let extensions: std::vec::Vec<String> = vec![#(#extensions),*]; extensions.join("") })
+    }
 }
 
 enum VariantField<'a> {
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 82037c3..6a9c365 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -32,27 +32,29 @@ impl<'a> StructVariant<'a> {
             }
         };
 
+        let extensions = self.fields.expand_schema_extensions();
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
 
         match self.serde_ast.attrs.tag() {
             TagType::External => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #name, #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}){} }})", #name, #inner, #extensions) }
             }
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }})", #tag, #name, #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }}){}", #tag, #name, #inner, #extensions) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}){} }})", #tag, #name, #content, #inner, #extensions) }
             }
             TagType::None => {
-                quote_spanned! {span =>  format!("z.object({{ {} }})", #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {} }}){}", #inner, #extensions) }
             }
         }
     }
 
     pub fn expand_type_defs(&self) -> TokenStream {
         let expanded_fields = self.fields.expand_type_defs();
+        let extensions = self.fields.expand_type_extensions();
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
 
@@ -75,20 +77,20 @@ impl<'a> StructVariant<'a> {
         match self.serde_ast.attrs.tag() {
             // `A{ num: usize, s: String }` -> `{ A: { num: number, s: string } }`
             TagType::External => {
-                quote_spanned! {span =>  format!("{{ {}: {{ {} }} }}", #name, #inner) }
+                quote_spanned! {span =>  format!("{{ {}: {{ {} }}{} }}", #name, #inner, #extensions) }
             }
             // `A{ num: usize, s: String }` -> `{ type: "A", num: number, s: string }`
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}", #tag, #name, #inner) }
+                quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}{}", #tag, #name, #inner, #extensions) }
             }
 
             // `A{ num: usize, s: String }` -> `{ type: "A", content: { num: number, s: string }}`
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }} }}", #tag, #name, #content, #inner) }
+                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }}{} }}", #tag, #name, #content, #inner, #extensions) }
             }
             // `A{ num: usize, s: String }` -> `{ num: number, s: string }`
             TagType::None => {
-                quote_spanned! {span =>  format!("{{ {} }}", #inner) }
+                quote_spanned! {span =>  format!("{{ {} }}{}", #inner, #extensions) }
             }
         }
     }
-- 
2.43.0


From d5e2ffa95df8a49f63b128a82d49d856c7b1f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 18/31] fix: quote and escape keys, tags and literals which are
 not plain identifiers

---
 derive/src/impl_enum/field.rs                 |  4 +--
 derive/src/impl_enum/mod.rs                   |  5 ++--
 .../src/impl_enum/variant/struct_variant.rs   | 19 +++++++++----
 derive/src/impl_enum/variant/tuple_variant.rs | 21 ++++++++------
 derive/src/impl_enum/variant/unit_variant.rs  | 21 ++++++++------
 derive/src/impl_struct.rs                     |  6 ++--
 derive/src/lib.rs                             | 28 +++++++++++++++++++
 7 files changed, 76 insertions(+), 28 deletions(-)

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 3ebeb10..a878073 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -1,4 +1,4 @@
-use crate::{args::EnumField, get_zod};
+use crate::{args::EnumField, get_zod, object_key};
 
 use darling::ast::Style;
 use proc_macro2::TokenStream;
@@ -31,7 +31,7 @@ impl<'a> VariantFields<'a> {
                         }),
                         Style::Struct => VariantField::Named(NamedField {
                             enum_field,
-                            name: f.attrs.name().deserialize_name(),
+                            name: object_key(&f.attrs.name().deserialize_name()),
                             optional: !f.attrs.default().is_none(),
                         }),
                         Style::Unit => unreachable!(),
diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 79fc3d2..23f4db2 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -1,7 +1,7 @@
 mod field;
 mod variant;
 
-use crate::{docs::RustDocs, expand_type_registration, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, impl_inventory, string_literal};
 use variant::Variant;
 
 use super::args;
@@ -170,9 +170,10 @@ impl<'a> Enum<'a> {
                         }
                     }
                     TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
+                        let tag = string_literal(tag);
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
-                            format!("z.discriminatedUnion(\"{}\", [{}])", #tag, variants.join(", "))
+                            format!("z.discriminatedUnion({}, [{}])", #tag, variants.join(", "))
                         }
                     }
                     TagType::None => {
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 6a9c365..9fafe4d 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -1,4 +1,5 @@
 use super::field;
+use crate::{object_key, string_literal};
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use serde_derive_internals::{ast, attr::TagType};
@@ -35,16 +36,19 @@ impl<'a> StructVariant<'a> {
         let extensions = self.fields.expand_schema_extensions();
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
+        let (key, literal) = (object_key(&name), string_literal(&name));
 
         match self.serde_ast.attrs.tag() {
             TagType::External => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}){} }})", #name, #inner, #extensions) }
+                quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}){} }})", #key, #inner, #extensions) }
             }
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }}){}", #tag, #name, #inner, #extensions) }
+                let tag = object_key(tag);
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {} }}){}", #tag, #literal, #inner, #extensions) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}){} }})", #tag, #name, #content, #inner, #extensions) }
+                let (tag, content) = (object_key(tag), object_key(content));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {}: z.object({{ {} }}){} }})", #tag, #literal, #content, #inner, #extensions) }
             }
             TagType::None => {
                 quote_spanned! {span =>  format!("z.object({{ {} }}){}", #inner, #extensions) }
@@ -57,6 +61,7 @@ impl<'a> StructVariant<'a> {
         let extensions = self.fields.expand_type_extensions();
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
+        let (key, literal) = (object_key(&name), string_literal(&name));
 
         let inner = match expanded_fields.len() {
             1 => expanded_fields
@@ -77,16 +82,18 @@ impl<'a> StructVariant<'a> {
         match self.serde_ast.attrs.tag() {
             // `A{ num: usize, s: String }` -> `{ A: { num: number, s: string } }`
             TagType::External => {
-                quote_spanned! {span =>  format!("{{ {}: {{ {} }}{} }}", #name, #inner, #extensions) }
+                quote_spanned! {span =>  format!("{{ {}: {{ {} }}{} }}", #key, #inner, #extensions) }
             }
             // `A{ num: usize, s: String }` -> `{ type: "A", num: number, s: string }`
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}{}", #tag, #name, #inner, #extensions) }
+                let tag = object_key(tag);
+                quote_spanned! {span =>  format!("{{ {}: {}, {} }}{}", #tag, #literal, #inner, #extensions) }
             }
 
             // `A{ num: usize, s: String }` -> `{ type: "A", content: { num: number, s: string }}`
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }}{} }}", #tag, #name, #content, #inner, #extensions) }
+                let (tag, content) = (object_key(tag), object_key(content));
+                quote_spanned! {span =>  format!("{{ {}: {}, {}: {{ {} }}{} }}", #tag, #literal, #content, #inner, #extensions) }
             }
             // `A{ num: usize, s: String }` -> `{ num: number, s: string }`
             TagType::None => {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index 066dd98..c2e1c6e 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -1,5 +1,6 @@
 use super::field;
 use super::UnitVariant;
+use crate::{object_key, string_literal};
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
@@ -44,18 +45,20 @@ impl<'a> TupleVariant<'a> {
                 }
             }
         };
-        let name = &self.name;
+        let (key, literal) = (object_key(&self.name), string_literal(&self.name));
         let span = self.span;
 
         match self.tag {
             TagType::External => {
-                quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #key, #inner) }
             }
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("z.intersection(z.object({{ {}: z.literal(\"{}\") }}), {})", #tag, #name, #inner) }
+                let tag = object_key(tag);
+                quote_spanned! {span =>  format!("z.intersection(z.object({{ {}: z.literal({}) }}), {})", #tag, #literal, #inner) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
+                let (tag, content) = (object_key(tag), object_key(content));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {}: {} }})", #tag, #literal, #content, #inner) }
             }
             TagType::None => {
                 quote_spanned! {span =>  String::from(#inner) }
@@ -67,7 +70,7 @@ impl<'a> TupleVariant<'a> {
         let expanded_fields = self.fields.expand_type_defs();
         let span = self.span;
         let tag_type = self.tag;
-        let name = &self.name;
+        let (key, literal) = (object_key(&self.name), string_literal(&self.name));
 
         let inner = match (self.newtype, expanded_fields.len()) {
             // may occur if the field is skipped. In this case we handle it like a unit variant
@@ -96,13 +99,15 @@ impl<'a> TupleVariant<'a> {
 
         match tag_type {
             TagType::External => {
-                quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
+                quote_spanned! {span =>  format!("{{ {}: {} }}", #key, #inner) }
             }
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\" }} & {}", #tag, #name, #inner) }
+                let tag = object_key(tag);
+                quote_spanned! {span =>  format!("{{ {}: {} }} & {}", #tag, #literal, #inner) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
+                let (tag, content) = (object_key(tag), object_key(content));
+                quote_spanned! {span =>  format!("{{ {}: {}, {}: {} }}", #tag, #literal, #content, #inner) }
             }
             TagType::None => {
                 quote_spanned! {span =>  #inner }
diff --git a/derive/src/impl_enum/variant/unit_variant.rs b/derive/src/impl_enum/variant/unit_variant.rs
index 59efcfc..c5d2b5e 100644
--- a/derive/src/impl_enum/variant/unit_variant.rs
+++ b/derive/src/impl_enum/variant/unit_variant.rs
@@ -1,3 +1,4 @@
+use crate::{object_key, string_literal};
 use proc_macro2::{Span, TokenStream};
 use quote::quote_spanned;
 use serde_derive_internals::attr::TagType;
@@ -12,16 +13,18 @@ pub struct UnitVariant<'a> {
 
 impl<'a> UnitVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let name = &self.name;
+        let literal = string_literal(&self.name);
         match self.tag {
             TagType::External => {
-                quote_spanned!(self.span => format!("z.literal(\"{}\")", #name))
+                quote_spanned!(self.span => format!("z.literal({})", #literal))
             }
             TagType::Internal { tag } => {
-                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
+                let tag = object_key(tag);
+                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal({}) }})", #tag, #literal))
             }
             TagType::Adjacent { tag, .. } => {
-                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
+                let tag = object_key(tag);
+                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal({}) }})", #tag, #literal))
             }
             TagType::None => {
                 quote_spanned!(self.span => String::from("z.null()"))
@@ -31,16 +34,18 @@ impl<'a> UnitVariant<'a> {
 
     /// Example `A`  ->  `"A"`
     pub fn expand_type_defs(&self) -> TokenStream {
-        let name = &self.name;
+        let literal = string_literal(&self.name);
         match self.tag {
             TagType::External => {
-                quote_spanned!(self.span => format!("\"{}\"", #name))
+                quote_spanned!(self.span => String::from(#literal))
             }
             TagType::Internal { tag } => {
-                quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
+                let tag = object_key(tag);
+                quote_spanned!(self.span => format!("{{ {}: {} }}", #tag, #literal))
             }
             TagType::Adjacent { tag, .. } => {
-                quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
+                let tag = object_key(tag);
+                quote_spanned!(self.span => format!("{{ {}: {} }}", #tag, #literal))
             }
             TagType::None => {
                 quote_spanned!(self.span => String::from("null"))
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index a1e1489..a8d2892 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -1,4 +1,4 @@
-use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory, object_key};
 
 use super::args;
 use darling::ast::{Fields, Style};
@@ -47,7 +47,9 @@ pub fn expand(
         })
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
-            name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
+            name: ident
+                .as_ref()
+                .map(|_| object_key(&attrs.name().deserialize_name())),
             // serde ignores defaults on flattened fields
             optional: !attrs.flatten() && (container_default || !attrs.default().is_none()),
             transparent,
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index bff2bac..dbdd49c 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -175,6 +175,34 @@ fn format_ident_for_registration(p: &syn::Path) -> syn::Path {
     }
 }
 
+/// A string as a typescript string literal
+pub(crate) fn string_literal(value: &str) -> String {
+    let mut literal = String::from('"');
+    for c in value.chars() {
+        match c {
+            '"' => literal.push_str("\\\""),
+            '\\' => literal.push_str("\\\\"),
+            '\u{2028}' | '\u{2029}' => literal.push_str(&format!("\\u{{{:x}}}", c as u32)),
+            c if c.is_control() => literal.push_str(&format!("\\u{{{:x}}}", c as u32)),
+            c => literal.push(c),
+        }
+    }
+    literal.push('"');
+    literal
+}
+
+/// A string as the key of a typescript object, quoted unless it is a plain identifier
+pub(crate) fn object_key(name: &str) -> String {
+    let is_plain = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '$';
+    let starts_with_digit = name.starts_with(|c: char| c.is_ascii_digit());
+
+    if !name.is_empty() && !starts_with_digit && name.chars().all(is_plain) {
+        String::from(name)
+    } else {
+        string_literal(name)
+    }
+}
+
 /// Prevent duplicate interfaces
 fn expand_type_registration(ident: &Ident, ns_path: &Path) -> proc_macro2::TokenStream {
     let register_path = format_ident_for_registration(ns_path);
-- 
2.43.0


From f1f1e81837e1f050647531b02b5c0f52c7d58e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 19/31] fix: dispatch requests by the exported name of the
 namespace, as the client sends it

---
 derive/src/rpc/backend_impl.rs | 40 ++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 61c6fa4..8fa91ac 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -80,19 +80,55 @@ fn expand_backend_impl(
 }
 
 pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStream {
+    let zod = get_zod();
     let __private = get_private();
     let req_variants = fields.iter().map(|f| {
         let ty = &f.ty;
         let variant_ident = variant_ident_from_ty(ty);
         quote_spanned!(ty.span() => #variant_ident(<#ty as #__private::codegen::RpcNamespace>::Req))
     });
+
+    // the client names a namespace by its exported name
+    let req_from_value = fields.iter().map(|f| {
+        let ty = &f.ty;
+        let variant_ident = variant_ident_from_ty(ty);
+        quote_spanned! { ty.span() =>
+            <#ty as #zod::Namespace>::NAME => #__private::serde_json::from_value(call)
+                .map(Self::#variant_ident)
+                .map_err(#__private::serde::de::Error::custom)
+        }
+    });
+
     quote! {
 
-        #[derive(#__private::serde::Deserialize, Debug)]
-        #[serde(tag = "namespace")]
+        #[derive(Debug)]
         enum #ident {
             #(#req_variants),*
         }
+
+        impl<'de> #__private::serde::Deserialize<'de> for #ident {
+            fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+            where
+                D: #__private::serde::Deserializer<'de>,
+            {
+                #[derive(#__private::serde::Deserialize)]
+                struct NamespaceCall {
+                    namespace: ::std::string::String,
+                    #[serde(flatten)]
+                    call: #__private::serde_json::Value,
+                }
+
+                let NamespaceCall { namespace, call } =
+                    #__private::serde::Deserialize::deserialize(deserializer)?;
+
+                match namespace.as_str() {
+                    #(#req_from_value,)*
+                    _ => ::std::result::Result::<_, _>::Err(#__private::serde::de::Error::custom(
+                        format!("unknown namespace `{namespace}`"),
+                    )),
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From b57482bd0126c34a39456d5f890a1e20d0bde142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 20/31] fix: keep the subscriptions of connections apart,
 request ids are per connection

---
 src/rpc/servers/proxy.rs | 59 ++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/rpc/servers/proxy.rs b/src/rpc/servers/proxy.rs
index 4f61970..3571f7b 100644
--- a/src/rpc/servers/proxy.rs
+++ b/src/rpc/servers/proxy.rs
@@ -1,13 +1,27 @@
 use futures::{
     channel::mpsc::{unbounded, UnboundedReceiver, UnboundedSender},
+    lock::Mutex,
     SinkExt, Stream, StreamExt,
 };
 use pin_project_lite::pin_project;
-use zod_core::rpc::{server::Backend, Request, Response};
+use std::sync::Arc;
+use zod_core::rpc::{
+    server::{Backend, SubscriberMap},
+    Request, Response,
+};
+
+/// request ids are only unique per connection
+type Subscribers = Arc<Mutex<SubscriberMap>>;
+
+type ProxyMessage = (
+    Result<Request, Response>,
+    UnboundedSender<Response>,
+    Subscribers,
+);
 
 #[derive(Clone, Debug)]
 pub struct BackendProxy {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<ProxyMessage>,
 }
 
 impl BackendProxy {
@@ -15,13 +29,15 @@ impl BackendProxy {
     where
         T: Backend + Send + 'static,
     {
-        let (tx, mut rx) = unbounded();
-        let mut subscribers = Default::default();
+        let (tx, mut rx) = unbounded::<ProxyMessage>();
 
         tokio::spawn(async move {
-            while let Some((result, mut res)) = rx.next().await {
+            while let Some((result, mut res, subscribers)) = rx.next().await {
                 match result {
-                    Ok(req) => backend.handle_request(req, res, &mut subscribers).await,
+                    Ok(req) => {
+                        let mut subscribers = subscribers.lock().await;
+                        backend.handle_request(req, res, &mut subscribers).await
+                    }
                     Err(err) => {
                         if let Err(err) = res.send(err).await {
                             tracing::warn!(?err);
@@ -39,32 +55,50 @@ impl BackendProxy {
             tx: self.tx.clone(),
             res_tx,
             res_rx,
+            subscribers: Default::default(),
         }
     }
 }
 
 pub struct ProxyConnection {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<ProxyMessage>,
     res_tx: UnboundedSender<Response>,
     res_rx: UnboundedReceiver<Response>,
+    subscribers: Subscribers,
 }
 
 impl ProxyConnection {
     pub fn split(self) -> (ProxyTx, ProxyRx) {
-        let ProxyConnection { tx, res_tx, res_rx } = self;
-        (ProxyTx { tx, res_tx }, ProxyRx { res_rx })
+        let ProxyConnection {
+            tx,
+            res_tx,
+            res_rx,
+            subscribers,
+        } = self;
+        (
+            ProxyTx {
+                tx,
+                res_tx,
+                subscribers: subscribers.clone(),
+            },
+            ProxyRx {
+                res_rx,
+                _subscribers: subscribers,
+            },
+        )
     }
 }
 
 pub struct ProxyTx {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<ProxyMessage>,
     res_tx: UnboundedSender<Response>,
+    subscribers: Subscribers,
 }
 
 impl ProxyTx {
     pub fn send(&self, req: Result<Request, Response>) -> Result<(), ClientError> {
         self.tx
-            .unbounded_send((req, self.res_tx.clone()))
+            .unbounded_send((req, self.res_tx.clone(), self.subscribers.clone()))
             .map_err(|_| ClientError::Disconnected)
     }
 }
@@ -73,6 +107,9 @@ pin_project! {
     pub struct ProxyRx {
         #[pin]
         res_rx: UnboundedReceiver<Response>,
+
+        // the streams of a connection live as long as one of its halves
+        _subscribers: Subscribers,
     }
 }
 
-- 
2.43.0


From 9f359db165dfb7adf52c98264bf75990c9daee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 21/31] fix: reject types of a namespace which are exported
 under the same name

---
 derive/src/impl_enum/mod.rs |  2 +-
 derive/src/impl_struct.rs   |  2 +-
 derive/src/lib.rs           | 12 ++++++++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 23f4db2..97b69d3 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -69,7 +69,7 @@ impl<'a> Enum<'a> {
         let docs = &self.docs;
         let schema = self.expand_schema();
         let type_def = self.expand_typ_defs();
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         if let Some(t) = &self.from_ty {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index a8d2892..070450d 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -100,7 +100,7 @@ impl<'a> Struct<'a> {
         let name = &self.name;
         let docs = &self.docs;
 
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         let zod = get_zod();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index dbdd49c..71c2c49 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -204,14 +204,22 @@ pub(crate) fn object_key(name: &str) -> String {
 }
 
 /// Prevent duplicate interfaces
-fn expand_type_registration(ident: &Ident, ns_path: &Path) -> proc_macro2::TokenStream {
+fn expand_type_registration(
+    ident: &Ident,
+    ns_path: &Path,
+    name: &str,
+) -> proc_macro2::TokenStream {
     let register_path = format_ident_for_registration(ns_path);
 
+    // types collide by the name they are exported under
+    let mut exported = syn::parse_str::<Ident>(name).unwrap_or_else(|_| ident.clone());
+    exported.set_span(ident.span());
+
     quote_spanned! {ident.span() =>
         impl #register_path {
             #[allow(dead_code)]
             #[allow(non_upper_case_globals)]
-            const #ident: () = ();
+            const #exported: () = ();
         }
     }
 }
-- 
2.43.0


From 580b9e46a60e70fda91431137358687266c1e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 22/31] fix: the schema of char accepts every single character,
 not only those of one utf-16 unit

---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index d247497..b87155f 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -152,7 +152,7 @@ impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
 
 impl_primitive!("boolean", bool, "z.boolean()");
-impl_primitive!("string", char, "z.string().length(1)");
+impl_primitive!("string", char, "z.string().regex(/^[^]$/u)");
 impl_primitive!("null", (), "z.null()");
 
 impl_tuples!(
-- 
2.43.0


From b1842213fec21b4a244b4d2fad670e28f4d60de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 23/31] fix: types with a serde from type are referenced by
 their own name, so that they may be recursive

---
 derive/src/impl_enum/mod.rs | 14 ++++++++++----
 derive/src/impl_struct.rs   |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 97b69d3..18d1fa7 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -76,19 +76,25 @@ impl<'a> Enum<'a> {
             quote! {
                 impl #zod::ZodType for #ident {
                     fn schema() -> String {
-                        <#t as #zod::ZodType>::schema()
+                        <#t as #zod::ZodType>::inline_schema()
                     }
 
                     fn inline_schema() -> String {
-                        <#t as #zod::ZodType>::inline_schema()
+                        format!("z.lazy(() => {}.{})",
+                            <#ns_path as #zod::Namespace>::NAME,
+                            #name
+                        )
                     }
 
                     fn type_def() -> #zod::TsTypeDef {
-                        <#t as #zod::ZodType>::type_def()
+                        #zod::TsTypeDef::Type(<#t as #zod::ZodType>::inline().to_string())
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> Option<&'static str> {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 070450d..41dbdd2 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -124,7 +124,10 @@ impl<'a> Struct<'a> {
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> Option<&'static str> {
-- 
2.43.0


From 1df662d7a04736a4167bff8ecbb29aa2dfeaf556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 24/31] fix: list usize only once in the type overview

---
 core/src/docs.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/src/docs.rs b/core/src/docs.rs
index ee13026..ecf61bc 100644
--- a/core/src/docs.rs
+++ b/core/src/docs.rs
@@ -38,7 +38,6 @@ pub fn generate() -> String {
         Line::with_link::<Vec<T>>("Vec<T>", "Vec"),
         Line::new::<&'static str>(),
         Line::with_link::<String>("String", None),
-        Line::new::<usize>(),
         Line::new::<u8>(),
         Line::new::<u16>(),
         Line::new::<u32>(),
-- 
2.43.0


From 2ad821d65bf64d352663a81a52ab46c6c81831da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 25/31] fix: accept attributes which are not meta items next to
 doc comments

---
 derive/src/docs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index 6887a1f..95065b7 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -11,8 +11,9 @@ impl RustDocs {
     pub fn from_attrs(attrs: &[syn::Attribute]) -> Result<Self, syn::Error> {
         let mut full_docs = String::new();
         for attr in attrs {
-            match attr.parse_meta()? {
-                Meta::NameValue(nv) if nv.path.is_ident("doc") => {
+            // attributes of other macros need not be meta items
+            match attr.parse_meta() {
+                Ok(Meta::NameValue(nv)) if nv.path.is_ident("doc") => {
                     if let Lit::Str(doc) = nv.lit {
                         let doc = doc.value();
                         let doc_str = doc.trim();
-- 
2.43.0


From dd0a6857a2cfed9ec71db2abe7131f6cbf2ecbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 26/31] fix: rename client parameters and functions whose names
 are reserved or used by the client itself

---
 core/src/rpc/codegen/mod.rs | 80 ++++++++++++++++++++++++++++++++++---
 1 file changed, 75 insertions(+), 5 deletions(-)

diff --git a/core/src/rpc/codegen/mod.rs b/core/src/rpc/codegen/mod.rs
index ec4b5da..eab6b40 100644
--- a/core/src/rpc/codegen/mod.rs
+++ b/core/src/rpc/codegen/mod.rs
@@ -47,8 +47,76 @@ pub enum RpcMember {
 
 inventory::collect!(RpcMember);
 
+/// names which can not be declared because they are reserved in TypeScript modules or used by the
+/// generated functions themselves
+const RESERVED_NAMES: &[&str] = &[
+    "arguments",
+    "await",
+    "break",
+    "case",
+    "catch",
+    "class",
+    "const",
+    "continue",
+    "debugger",
+    "default",
+    "delete",
+    "do",
+    "else",
+    "enum",
+    "eval",
+    "export",
+    "extends",
+    "false",
+    "finally",
+    "for",
+    "function",
+    "if",
+    "implements",
+    "import",
+    "in",
+    "instanceof",
+    "interface",
+    "let",
+    "new",
+    "null",
+    "package",
+    "private",
+    "protected",
+    "public",
+    "request",
+    "return",
+    "static",
+    "subscribe",
+    "super",
+    "switch",
+    "this",
+    "throw",
+    "true",
+    "try",
+    "typeof",
+    "var",
+    "void",
+    "while",
+    "with",
+    "yield",
+    "z",
+];
+
+/// the name under which a function or parameter is declared in the client
+fn declared_name(name: &str) -> String {
+    if RESERVED_NAMES.contains(&name) {
+        format!("{name}_")
+    } else {
+        name.to_string()
+    }
+}
+
 fn create_phantom_arg_names(args: &[RpcArgument]) -> String {
-    let phantom_arg_names = args.iter().map(|arg| arg.name).collect::<Vec<_>>();
+    let phantom_arg_names = args
+        .iter()
+        .map(|arg| declared_name(arg.name))
+        .collect::<Vec<_>>();
 
     if phantom_arg_names.is_empty() {
         String::new()
@@ -69,10 +137,11 @@ impl RpcMember {
             } => {
                 let args = (args)();
                 let res = (res)();
+                let fn_name = declared_name(name);
 
                 let arg_fields = args
                     .iter()
-                    .map(|arg| format!("{}: {}", arg.name, arg.type_def))
+                    .map(|arg| format!("{}: {}", declared_name(arg.name), arg.type_def))
                     .collect::<Vec<_>>()
                     .join(",");
 
@@ -87,7 +156,7 @@ impl RpcMember {
                 format!(
                     "
                     // @ts-ignore
-                    export async function {name}({arg_fields}): Promise<{res}> {{
+                    export async function {fn_name}({arg_fields}): Promise<{res}> {{
                     {phantom_arg_names}
 
                     z.tuple([{arg_zod}]).parse([...arguments]);
@@ -104,10 +173,11 @@ impl RpcMember {
             } => {
                 let args = (args)();
                 let res = (res)();
+                let fn_name = declared_name(name);
 
                 let arg_fields = args
                     .iter()
-                    .map(|arg| format!("{}: {}", arg.name, arg.type_def))
+                    .map(|arg| format!("{}: {}", declared_name(arg.name), arg.type_def))
                     .collect::<Vec<_>>()
                     .join(",");
 
@@ -122,7 +192,7 @@ impl RpcMember {
                 format!(
                     "
                     // @ts-ignore
-                    export function {name}({arg_fields}): Store<{res}> {{
+                    export function {fn_name}({arg_fields}): Store<{res}> {{
                     {phantom_arg_names}
 
                     z.tuple([{arg_zod}]).parse([...arguments]);
-- 
2.43.0


From 07b2633171b3c6773e002b9cc4447bd5202747d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 27/31] fix: export namespaces with raw identifiers under their
 plain name

---
 derive/src/impl_namespace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_namespace.rs b/derive/src/impl_namespace.rs
index 629d944..5cc3d7d 100644
--- a/derive/src/impl_namespace.rs
+++ b/derive/src/impl_namespace.rs
@@ -1,13 +1,13 @@
 use crate::{args, format_ident_for_registration, get_zod};
 use quote::quote;
-use syn::parse_quote;
+use syn::{ext::IdentExt, parse_quote};
 
 pub fn expand(
     input: args::NamespaceInput,
     docs: crate::docs::RustDocs,
 ) -> proc_macro2::TokenStream {
     let ident = input.ident;
-    let name = input.name.unwrap_or_else(|| ident.to_string());
+    let name = input.name.unwrap_or_else(|| ident.unraw().to_string());
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let p = parse_quote!(#ident);
-- 
2.43.0


From 4e068ae78062f79f7b71e07d2c4a0f7e043fca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 28/31] fix: detect colliding exported names which are no Rust
 identifiers

---
 derive/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 71c2c49..bb8799f 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -212,7 +212,11 @@ fn expand_type_registration(
     let register_path = format_ident_for_registration(ns_path);
 
     // types collide by the name they are exported under
-    let mut exported = syn::parse_str::<Ident>(name).unwrap_or_else(|_| ident.clone());
+    let mut exported = syn::parse_str::<Ident>(name).unwrap_or_else(|_| {
+        // not an identifier in Rust (`$name`, `match`, ...)
+        let bytes: String = name.bytes().map(|b| format!("{b:02x}")).collect();
+        format_ident!("__ZodRegister__{}", bytes)
+    });
     exported.set_span(ident.span());
 
     quote_spanned! {ident.span() =>
-- 
2.43.0


From 7e7e6ba82fd1e7293ebd054a55195a581e1342da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 29/31] fix: the websocket client lost messages queued while
 its socket failed to open

---
 src/rpc/clients/static/websocket_client.ts | 49 +++++++++-------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 453c28e..8401004 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -7,12 +7,14 @@ const reopenTimeouts = [100, 200, 1000, 3000];
 function websocketStore(url: string) {
   let initialValue: unknown = undefined;
   let socket: WebSocket | undefined;
-  let openPromise: Promise<undefined> | undefined;
   let reopenTimeoutHandler: any;
   let reopenCount = 0;
 
   const subscriptions = new Set<([id, data]: [number, unknown]) => void>();
 
+  // messages waiting for the socket to open
+  const waiting: string[] = [];
+
   function reopenTimeout() {
     const n = reopenCount;
     reopenCount++;
@@ -34,26 +36,27 @@ function websocketStore(url: string) {
 
   function reopen() {
     close();
-    if (subscriptions.size > 0) {
+    if (subscriptions.size > 0 || waiting.length > 0) {
       reopenTimeoutHandler = setTimeout(() => open(), reopenTimeout());
     }
   }
 
-  async function open(): Promise<undefined> {
+  function open() {
     if (reopenTimeoutHandler) {
       clearTimeout(reopenTimeoutHandler);
       reopenTimeoutHandler = undefined;
     }
 
     // we are still in the opening phase
-    if (openPromise) {
-      return openPromise;
+    if (socket && socket.readyState === WebSocket.CONNECTING) {
+      return;
     }
 
     console.debug("creating a new socket");
-    socket = new WebSocket(url);
+    const current = new WebSocket(url);
+    socket = current;
 
-    socket.onmessage = (event) => {
+    current.onmessage = (event) => {
       const res = JSON.parse(event.data);
       console.trace({ response: res });
 
@@ -71,36 +74,24 @@ function websocketStore(url: string) {
       }
     };
 
-    socket.onclose = (event: Event) => {
+    current.onclose = (event: Event) => {
       if (subscriptions.size > 0) {
         console.warn(event);
       }
       reopen();
     };
 
-    openPromise = new Promise((resolve, reject) => {
-      if (!socket) {
-        openPromise = undefined;
-        return;
-      }
-
-      socket.onerror = (error) => {
-        reject(error);
-        openPromise = undefined;
-      };
-      socket.onopen = (_: Event) => {
-        reopenCount = 0;
-        resolve(undefined);
-        openPromise = undefined;
-      };
-    });
-    return openPromise;
+    current.onopen = (_: Event) => {
+      reopenCount = 0;
+      waiting.splice(0).forEach((value) => current.send(value));
+    };
   }
 
   const open_and_send = (value: string) => {
-    if (!socket || socket.readyState !== WebSocket.OPEN)
-      open().then(() => open_and_send(value));
-    else {
+    if (!socket || socket.readyState !== WebSocket.OPEN) {
+      waiting.push(value);
+      open();
+    } else {
       socket.send(value);
     }
   };
@@ -113,7 +104,7 @@ function websocketStore(url: string) {
       subscriptions.add(subscription);
       return () => {
         subscriptions.delete(subscription);
-        if (subscriptions.size === 0) {
+        if (subscriptions.size === 0 && waiting.length === 0) {
           close();
         }
       };
-- 
2.43.0


From b0bc4afd48bca3556c47a20a86609613d0fa9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 30/31] fix: the close event of a replaced socket closed the
 connection which replaced it

---
 src/rpc/clients/static/websocket_client.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 8401004..2eb7aed 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -75,6 +75,11 @@ function websocketStore(url: string) {
     };
 
     current.onclose = (event: Event) => {
+      // the socket has been closed or replaced in the meantime
+      if (socket !== current) {
+        return;
+      }
+
       if (subscriptions.size > 0) {
         console.warn(event);
       }
-- 
2.43.0


From 71fe0da7d5d8ecb4fc3ac692728c0027eb4ced38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:23 +0000
Subject: [PATCH 31/31] fix: build without debug assertions, where no type
 overview is generated

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ee81446..03a161e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -119,7 +119,10 @@
 //!
 //!
 //!
-#![doc = include_str!(concat!(env!("OUT_DIR"), "/type-table.md"))]
+#![cfg_attr(
+    debug_assertions,
+    doc = include_str!(concat!(env!("OUT_DIR"), "/type-table.md"))
+)]
 #![deny(unsafe_code)]
 
 pub use zod_core::*;
-- 
2.43.0

