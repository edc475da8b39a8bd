From 6939bf7e94c114354ce86c652a7d9125726bd663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 01/13] fix: let derived structs have fields named like
 generated padding

Deriving AsStd140/AsStd430 on a struct with a field called _pad0 did not
compile, because the generated struct declared that name twice.
---
 crevice-derive/src/layout.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 343d2ba..d9e306f 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
-use syn::{parse_quote, Data, DeriveInput, Fields, Ident, Path, Type};
+use syn::{ext::IdentExt, parse_quote, Data, DeriveInput, Fields, Ident, Path, Type};
 
 pub fn emit(
     input: DeriveInput,
@@ -63,6 +63,16 @@ pub fn emit(
         .map(|index| format_ident!("_{}__{}Pad{}", input_name, trait_name, index))
         .collect();
 
+    // Padding fields live next to the user's fields in the generated struct, so
+    // pick a prefix for their names that none of the user's fields start with.
+    let mut pad_field_prefix = String::from("_pad");
+    while fields.iter().any(|field| {
+        let field_name = field.ident.as_ref().unwrap().unraw().to_string();
+        field_name.starts_with(&pad_field_prefix)
+    }) {
+        pad_field_prefix.insert(0, '_');
+    }
+
     // Computes the offset immediately AFTER the field with the given index.
     //
     // This function depends on the generated padding calculation functions to
@@ -131,7 +141,7 @@ pub fn emit(
         .map(|(index, field)| {
             let field_name = field.ident.as_ref().unwrap();
             let field_ty = layout_version_of_ty(&field.ty);
-            let pad_field_name = format_ident!("_pad{}", index);
+            let pad_field_name = format_ident!("{}{}", pad_field_prefix, index);
             let pad_fn = &pad_fns[index];
 
             quote! {
-- 
2.43.0


From f686485a654790c8f1e3622ec526c51493e417ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 02/13] fix: emit raw identifiers without r# in generated GLSL

r#match and the like are not valid GLSL identifiers.
---
 crevice-derive/src/glsl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crevice-derive/src/glsl.rs b/crevice-derive/src/glsl.rs
index e6b7a3c..e2c6b76 100644
--- a/crevice-derive/src/glsl.rs
+++ b/crevice-derive/src/glsl.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Literal, TokenStream};
 use quote::quote;
-use syn::{parse_quote, Data, DeriveInput, Fields, Path};
+use syn::{ext::IdentExt, parse_quote, Data, DeriveInput, Fields, Path};
 
 pub fn emit(input: DeriveInput) -> TokenStream {
     let fields = match &input.data {
@@ -16,13 +16,14 @@ pub fn emit(input: DeriveInput) -> TokenStream {
     let struct_trait_path: Path = parse_quote!(::crevice::glsl::GlslStruct);
 
     let name = input.ident;
-    let name_str = Literal::string(&name.to_string());
+    let name_str = Literal::string(&name.unraw().to_string());
 
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let glsl_fields = fields.named.iter().map(|field| {
         let field_ty = &field.ty;
-        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().to_string());
+        let field_name = field.ident.as_ref().unwrap().unraw();
+        let field_name_str = Literal::string(&field_name.to_string());
 
         quote! {
             ::crevice::glsl::GlslField {
-- 
2.43.0


From f6c842f8380be6d407926035c2eb17384849db10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 03/13] fix: implement Debug for DynamicUniformStd140

Structs generated by the AsStd140 derive implement Debug, so a struct with a
DynamicUniform field did not compile.
---
 src/std140/dynamic_uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std140/dynamic_uniform.rs b/src/std140/dynamic_uniform.rs
index 0fe3fda..310c2f1 100644
--- a/src/std140/dynamic_uniform.rs
+++ b/src/std140/dynamic_uniform.rs
@@ -22,7 +22,7 @@ impl<T: AsStd140> AsStd140 for DynamicUniform<T> {
 }
 
 /// std140 variant of [`DynamicUniform`].
-#[derive(Clone, Copy)]
+#[derive(Debug, Clone, Copy)]
 #[repr(transparent)]
 pub struct DynamicUniformStd140<T>(T);
 
-- 
2.43.0


From a311024b18a42032f6acab29bc8ba1445d406174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 04/13] fix: implement Glsl for bool

bool is a GLSL primitive and has std140/std430 layouts, but structs with bool
fields could not derive GlslStruct.
---
 src/glsl.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/glsl.rs b/src/glsl.rs
index 2d595b3..b63182d 100644
--- a/src/glsl.rs
+++ b/src/glsl.rs
@@ -97,3 +97,11 @@ unsafe impl Glsl for i32 {
 unsafe impl Glsl for u32 {
     const NAME: &'static str = "uint";
 }
+
+unsafe impl Glsl for bool {
+    const NAME: &'static str = "bool";
+}
+
+unsafe impl Glsl for crate::bool::Bool {
+    const NAME: &'static str = "bool";
+}
-- 
2.43.0


From 11f0bd2a33e6ec3013ad9f9c29e5a57000550842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 05/13] fix: give empty std430 structs a power-of-two alignment

Std430::ALIGNMENT must be a power of two, but was 0 for a derived struct
without fields.
---
 crevice-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/lib.rs b/crevice-derive/src/lib.rs
index ab1012a..6e78943 100644
--- a/crevice-derive/src/lib.rs
+++ b/crevice-derive/src/lib.rs
@@ -16,7 +16,7 @@ pub fn derive_as_std140(input: CompilerTokenStream) -> CompilerTokenStream {
 #[proc_macro_derive(AsStd430)]
 pub fn derive_as_std430(input: CompilerTokenStream) -> CompilerTokenStream {
     let input = parse_macro_input!(input as DeriveInput);
-    let expanded = layout::emit(input, "Std430", "std430", 0);
+    let expanded = layout::emit(input, "Std430", "std430", 1);
 
     CompilerTokenStream::from(expanded)
 }
-- 
2.43.0


From e2e1994c206503dc8281f68f42956b141471f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 06/13] fix: do not warn about deprecated items from derived
 code

---
 crevice-derive/src/glsl.rs   | 2 ++
 crevice-derive/src/layout.rs | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crevice-derive/src/glsl.rs b/crevice-derive/src/glsl.rs
index e2c6b76..bdb324b 100644
--- a/crevice-derive/src/glsl.rs
+++ b/crevice-derive/src/glsl.rs
@@ -34,10 +34,12 @@ pub fn emit(input: DeriveInput) -> TokenStream {
     });
 
     quote! {
+        #[allow(deprecated)]
         unsafe impl #impl_generics #base_trait_path for #name #ty_generics #where_clause {
             const NAME: &'static str = #name_str;
         }
 
+        #[allow(deprecated)]
         unsafe impl #impl_generics #struct_trait_path for #name #ty_generics #where_clause {
             const FIELDS: &'static [::crevice::glsl::GlslField] = &[
                 #( #glsl_fields, )*
diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index d9e306f..c415d89 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -116,7 +116,7 @@ pub fn emit(
             quote! {
                 /// Tells how many bytes of padding have to be inserted after
                 /// the field with index #index.
-                #[allow(non_snake_case)]
+                #[allow(non_snake_case, deprecated)]
                 const fn #pad_fn() -> usize {
                     // First up, calculate our offset into the struct so far.
                     // We'll use this value to figure out how far out of
@@ -248,10 +248,12 @@ pub fn emit(
         unsafe impl #impl_generics ::crevice::internal::bytemuck::Zeroable for #generated_name #ty_generics #where_clause {}
         unsafe impl #impl_generics ::crevice::internal::bytemuck::Pod for #generated_name #ty_generics #where_clause {}
 
+        #[allow(deprecated)]
         unsafe impl #impl_generics #trait_path for #generated_name #ty_generics #where_clause {
             const ALIGNMENT: usize = #struct_alignment;
         }
 
+        #[allow(deprecated)]
         impl #impl_generics #as_trait_path for #input_name #ty_generics #where_clause {
             type Output = #generated_name;
 
-- 
2.43.0


From 264f73bc6f5ee09ec8c83afc091651a12fce2751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 07/13] fix: evaluate each derived padding once instead of
 exponentially often

---
 crevice-derive/src/layout.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index c415d89..a361a26 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -63,6 +63,13 @@ pub fn emit(
         .map(|index| format_ident!("_{}__{}Pad{}", input_name, trait_name, index))
         .collect();
 
+    // Names for constants holding what the padding functions return. Referring
+    // to those makes the compiler evaluate each padding only once; if the
+    // functions called each other, the work would double with every field.
+    let pad_consts: Vec<_> = (0..fields.len())
+        .map(|index| format_ident!("_{}__{}PadConst{}", input_name, trait_name, index))
+        .collect();
+
     // Padding fields live next to the user's fields in the generated struct, so
     // pick a prefix for their names that none of the user's fields start with.
     let mut pad_field_prefix = String::from("_pad");
@@ -92,9 +99,9 @@ pub fn emit(
             // padding. Padding occurs after each field, so it isn't included in
             // this value.
             if index < target {
-                let pad_fn = &pad_fns[index];
+                let pad_const = &pad_consts[index];
                 output.push(quote! {
-                    + #pad_fn()
+                    + #pad_const
                 });
             }
         }
@@ -107,6 +114,7 @@ pub fn emit(
         .enumerate()
         .map(|(index, pad_fn)| {
             let starting_offset = offset_after_field(index);
+            let pad_const = &pad_consts[index];
 
             let next_field_or_self_alignment = fields
                 .get(index + 1)
@@ -131,6 +139,9 @@ pub fn emit(
                     // Using everything we've got, compute our padding amount.
                     ::crevice::internal::align_offset(starting_offset, alignment)
                 }
+
+                #[allow(non_upper_case_globals, dead_code)]
+                const #pad_const: usize = #pad_fn();
             }
         })
         .collect();
-- 
2.43.0


From 55ef8d7cd2e39f1287d3dc80dd98512ee76619da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 08/13] fix: keep names around a derive from capturing
 generated code

Locals, primitive types and methods named in generated code could resolve
to the user's own items: a static called input, a type called u8, or an
inherent method called as_std140.
---
 crevice-derive/src/glsl.rs   |  2 +-
 crevice-derive/src/layout.rs | 27 +++++++++++++++------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/crevice-derive/src/glsl.rs b/crevice-derive/src/glsl.rs
index bdb324b..0315e86 100644
--- a/crevice-derive/src/glsl.rs
+++ b/crevice-derive/src/glsl.rs
@@ -36,7 +36,7 @@ pub fn emit(input: DeriveInput) -> TokenStream {
     quote! {
         #[allow(deprecated)]
         unsafe impl #impl_generics #base_trait_path for #name #ty_generics #where_clause {
-            const NAME: &'static str = #name_str;
+            const NAME: &'static ::core::primitive::str = #name_str;
         }
 
         #[allow(deprecated)]
diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index a361a26..e8df33b 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -125,23 +125,26 @@ pub fn emit(
                 /// Tells how many bytes of padding have to be inserted after
                 /// the field with index #index.
                 #[allow(non_snake_case, deprecated)]
-                const fn #pad_fn() -> usize {
+                const fn #pad_fn() -> ::core::primitive::usize {
                     // First up, calculate our offset into the struct so far.
                     // We'll use this value to figure out how far out of
                     // alignment we are.
-                    let starting_offset = #starting_offset;
+                    let __crevice_starting_offset = #starting_offset;
 
                     // We set our target alignment to the larger of the
                     // alignment due to the previous field and the alignment
                     // requirement of the next field.
-                    let alignment = #next_field_or_self_alignment;
+                    let __crevice_alignment = #next_field_or_self_alignment;
 
                     // Using everything we've got, compute our padding amount.
-                    ::crevice::internal::align_offset(starting_offset, alignment)
+                    ::crevice::internal::align_offset(
+                        __crevice_starting_offset,
+                        __crevice_alignment,
+                    )
                 }
 
                 #[allow(non_upper_case_globals, dead_code)]
-                const #pad_const: usize = #pad_fn();
+                const #pad_const: ::core::primitive::usize = #pad_fn();
             }
         })
         .collect();
@@ -157,7 +160,7 @@ pub fn emit(
 
             quote! {
                 #field_name: #field_ty,
-                #pad_field_name: [u8; #pad_fn()],
+                #pad_field_name: [::core::primitive::u8; #pad_fn()],
             }
         })
         .collect();
@@ -168,7 +171,7 @@ pub fn emit(
             let field_name = field.ident.as_ref().unwrap();
 
             quote! {
-                #field_name: self.#field_name.#as_trait_method(),
+                #field_name: #as_trait_path::#as_trait_method(&self.#field_name),
             }
         })
         .collect();
@@ -179,13 +182,13 @@ pub fn emit(
             let field_name = field.ident.as_ref().unwrap();
 
             quote! {
-                #field_name: #as_trait_path::#from_trait_method(input.#field_name),
+                #field_name: #as_trait_path::#from_trait_method(__crevice_input.#field_name),
             }
         })
         .collect();
 
     let struct_definition = quote! {
-        #[derive(Debug, Clone, Copy)]
+        #[derive(::core::fmt::Debug, ::core::clone::Clone, ::core::marker::Copy)]
         #[repr(C)]
         #[doc(hidden)]
         #[allow(warnings)]
@@ -251,7 +254,7 @@ pub fn emit(
 
         impl #impl_generics #generated_name #ty_generics #where_clause {
             #[allow(warnings)]
-            pub fn as_bytes(&self) -> &[u8] {
+            pub fn as_bytes(&self) -> &[::core::primitive::u8] {
                 <#generated_name #ty_generics as #trait_path>::as_bytes(self)
             }
         }
@@ -261,7 +264,7 @@ pub fn emit(
 
         #[allow(deprecated)]
         unsafe impl #impl_generics #trait_path for #generated_name #ty_generics #where_clause {
-            const ALIGNMENT: usize = #struct_alignment;
+            const ALIGNMENT: ::core::primitive::usize = #struct_alignment;
         }
 
         #[allow(deprecated)]
@@ -276,7 +279,7 @@ pub fn emit(
                 }
             }
 
-            fn #from_trait_method(input: Self::Output) -> Self {
+            fn #from_trait_method(__crevice_input: Self::Output) -> Self {
                 Self {
                     #input_struct_field_init
                 }
-- 
2.43.0


From 85ed5df407a0f381332478de0d3ae5350f0d5c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 09/13] fix: do not require Debug of the types in a derived
 struct

---
 crevice-derive/src/layout.rs | 48 +++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index e8df33b..a68dc3a 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -187,8 +187,53 @@ pub fn emit(
         })
         .collect();
 
+    // Types that are laid out are not required to implement Debug. The struct
+    // does if all of its fields do; the bounds are higher-ranked because the
+    // compiler rejects other bounds that do not hold.
+    let debug_bounds: TokenStream = fields
+        .iter()
+        .map(|field| {
+            let field_ty = layout_version_of_ty(&field.ty);
+
+            quote! {
+                for<'__crevice> #field_ty: ::core::fmt::Debug,
+            }
+        })
+        .collect();
+
+    let debug_fields: TokenStream = fields
+        .iter()
+        .enumerate()
+        .map(|(index, field)| {
+            let field_name = field.ident.as_ref().unwrap();
+            let field_name_str = field_name.unraw().to_string();
+            let pad_field_name = format_ident!("{}{}", pad_field_prefix, index);
+            let pad_field_name_str = pad_field_name.to_string();
+
+            quote! {
+                __crevice_debug.field(#field_name_str, &self.#field_name);
+                __crevice_debug.field(#pad_field_name_str, &self.#pad_field_name);
+            }
+        })
+        .collect();
+
+    let generated_name_str = generated_name.to_string();
+    let debug_impl = quote! {
+        #[allow(warnings)]
+        impl ::core::fmt::Debug for #generated_name where #debug_bounds {
+            fn fmt(
+                &self,
+                __crevice_formatter: &mut ::core::fmt::Formatter<'_>,
+            ) -> ::core::fmt::Result {
+                let mut __crevice_debug = __crevice_formatter.debug_struct(#generated_name_str);
+                #debug_fields
+                __crevice_debug.finish()
+            }
+        }
+    };
+
     let struct_definition = quote! {
-        #[derive(::core::fmt::Debug, ::core::clone::Clone, ::core::marker::Copy)]
+        #[derive(::core::clone::Clone, ::core::marker::Copy)]
         #[repr(C)]
         #[doc(hidden)]
         #[allow(warnings)]
@@ -251,6 +296,7 @@ pub fn emit(
     quote! {
         #pad_fn_impls
         #struct_definition
+        #debug_impl
 
         impl #impl_generics #generated_name #ty_generics #where_clause {
             #[allow(warnings)]
-- 
2.43.0


From b954028e7cbfc122025c88151d42f84cd6e6e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:13 +0000
Subject: [PATCH 10/13] fix: debug-methods did not compile for structs without
 fields

---
 crevice-derive/src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index a68dc3a..c2812a4 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -274,7 +274,7 @@ pub fn emit(
                         offset: usize,
                         size: usize,
                     }
-                    let mut fields = Vec::new();
+                    let mut fields = Vec::<Field>::new();
 
                     #debug_fields
 
-- 
2.43.0


From 9df8613b9718f5409bdef7075719998d27842a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:13 +0000
Subject: [PATCH 11/13] fix: debug_metrics reported sizes of the Rust fields
 instead of the generated ones

---
 crevice-derive/src/layout.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index c2812a4..78b5716 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -247,12 +247,11 @@ pub fn emit(
             .iter()
             .map(|field| {
                 let field_name = field.ident.as_ref().unwrap();
-                let field_ty = &field.ty;
 
                 quote! {
                     fields.push(Field {
                         name: stringify!(#field_name),
-                        size: ::core::mem::size_of::<#field_ty>(),
+                        size: ::core::mem::size_of_val(&zeroed.#field_name),
                         offset: (&zeroed.#field_name as *const _ as usize)
                             - (&zeroed as *const _ as usize),
                     });
-- 
2.43.0


From bd998a0dc78b5ba7b4c11249b6276032600abd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:13 +0000
Subject: [PATCH 12/13] fix: debug-methods captured names from the surroundings
 of a derive

---
 crevice-derive/src/layout.rs | 40 +++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 78b5716..82428d8 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -249,39 +249,45 @@ pub fn emit(
                 let field_name = field.ident.as_ref().unwrap();
 
                 quote! {
-                    fields.push(Field {
-                        name: stringify!(#field_name),
-                        size: ::core::mem::size_of_val(&zeroed.#field_name),
-                        offset: (&zeroed.#field_name as *const _ as usize)
-                            - (&zeroed as *const _ as usize),
+                    __crevice_fields.push(Field {
+                        name: ::core::stringify!(#field_name),
+                        size: ::core::mem::size_of_val(&__crevice_zeroed.#field_name),
+                        offset: (&__crevice_zeroed.#field_name as *const _ as ::core::primitive::usize)
+                            - (&__crevice_zeroed as *const _ as ::core::primitive::usize),
                     });
                 }
             })
             .collect();
 
         quote! {
+            #[allow(warnings)]
             impl #impl_generics #generated_name #ty_generics #where_clause {
-                fn debug_metrics() -> String {
-                    let size = ::core::mem::size_of::<Self>();
-                    let align = <Self as #trait_path>::ALIGNMENT;
+                fn debug_metrics() -> ::std::string::String {
+                    let __crevice_size = ::core::mem::size_of::<Self>();
+                    let __crevice_align = <Self as #trait_path>::ALIGNMENT;
 
-                    let zeroed: Self = ::crevice::internal::bytemuck::Zeroable::zeroed();
+                    let __crevice_zeroed: Self = ::crevice::internal::bytemuck::Zeroable::zeroed();
 
-                    #[derive(Debug)]
+                    #[derive(::core::fmt::Debug)]
                     struct Field {
-                        name: &'static str,
-                        offset: usize,
-                        size: usize,
+                        name: &'static ::core::primitive::str,
+                        offset: ::core::primitive::usize,
+                        size: ::core::primitive::usize,
                     }
-                    let mut fields = Vec::<Field>::new();
+                    let mut __crevice_fields = ::std::vec::Vec::<Field>::new();
 
                     #debug_fields
 
-                    format!("Size {}, Align {}, fields: {:#?}", size, align, fields)
+                    ::std::format!(
+                        "Size {}, Align {}, fields: {:#?}",
+                        __crevice_size,
+                        __crevice_align,
+                        __crevice_fields,
+                    )
                 }
 
-                fn debug_definitions() -> &'static str {
-                    stringify!(
+                fn debug_definitions() -> &'static ::core::primitive::str {
+                    ::core::stringify!(
                         #struct_definition
                         #pad_fn_impls
                     )
-- 
2.43.0


From 81ee48b297a8cbc7dcc8606c06dfc479b0ab9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:42 +0000
Subject: [PATCH 13/13] fix: write_iter asked an iterator for more after its
 end

An iterator that is not fused may go on after it has returned None. If it
did so at its very first call, what followed was written all the same, and
the returned offset was not that of its first byte.
---
 src/std140/writer.rs | 3 ++-
 src/std430/writer.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/std140/writer.rs b/src/std140/writer.rs
index c9333b5..97ec29d 100644
--- a/src/std140/writer.rs
+++ b/src/std140/writer.rs
@@ -109,7 +109,8 @@ impl<W: Write> Writer<W> {
     {
         let mut offset = self.offset;
 
-        let mut iter = iter.into_iter();
+        // Only a fused iterator can be asked again after it has ended.
+        let mut iter = iter.into_iter().fuse();
 
         if let Some(item) = iter.next() {
             offset = item.write_std140(self)?;
diff --git a/src/std430/writer.rs b/src/std430/writer.rs
index 976bf25..8054a9d 100644
--- a/src/std430/writer.rs
+++ b/src/std430/writer.rs
@@ -109,7 +109,8 @@ impl<W: Write> Writer<W> {
     {
         let mut offset = self.offset;
 
-        let mut iter = iter.into_iter();
+        // Only a fused iterator can be asked again after it has ended.
+        let mut iter = iter.into_iter().fuse();
 
         if let Some(item) = iter.next() {
             offset = item.write_std430(self)?;
-- 
2.43.0

