From 9b1212a46ff98789f4201883b1077b058bca46c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:32 +0000
Subject: [PATCH 01/13] fix: accept an inline value for a short optional-value
 argument

`-c=value` (also at the end of a bundle) for `Option<Option<T>>` consumed the
value but then went on reading it as further bundled short arguments, failing
with an unexpected argument "-=".
---
 src/runtime.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index a49aec4..cf7ee7c 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -623,6 +623,8 @@ fn visit_named(
 
     let require_value = attrs.contains(ArgAttrs::REQUIRE_VALUE);
     let require_eq = attrs.contains(ArgAttrs::REQUIRE_EQ);
+    // An explicit inline value always ends the (short) argument, even if the value is optional.
+    let ends_arg = require_value || matches!(inline_value, RawInlineValue::Eq(_));
     let ret = match inline_value {
         RawInlineValue::Eq(v) => Ok(Some(Cow::Borrowed(v))),
         RawInlineValue::None => {
@@ -675,9 +677,7 @@ fn visit_named(
     });
 
     match ret {
-        Ok(()) => {
-            Ok(if require_value { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
-        }
+        Ok(()) => Ok(if ends_arg { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }),
         Err(err) => {
             let desc = info.get_description(attrs.get_index());
             Err(err.with_arg_desc(desc).maybe_render_help(frame))
-- 
2.43.0


From 2ae388bf868654c4d5e3fbc2d5fb0f6e37cd3c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 02/13] fix: name the positional argument in invalid value
 errors

The error said '<unknown argument>' instead of the description of the argument.
---
 src/runtime.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index cf7ee7c..7e6b104 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -588,11 +588,14 @@ fn visit_positional(
         frame.next_positional += 1;
     }
 
+    let info = frame.info;
+    let with_desc =
+        |err: crate::Error| err.with_arg_desc(info.get_description(attrs.get_index()));
     let place = &mut *frame.fields[usize::from(attrs.get_index())];
-    place.parse_from(Some(&arg))?;
+    place.parse_from(Some(&arg)).map_err(with_desc)?;
     if attrs.contains(ArgAttrs::GREEDY) {
         for arg in &mut *p.iter {
-            place.parse_from(Some(&arg))?;
+            place.parse_from(Some(&arg)).map_err(with_desc)?;
         }
         // Everything is consumed here. The outer loop should exit as well.
     }
-- 
2.43.0


From f0096afce82aca7e25b5fd60eecf365ac78cc976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 03/13] fix: apply a string default value of a flag

`arg(long, default_value = "true")` on `bool` compiled, but every parse without
the flag aborted, because the default was handed over as an inline value.
---
 src/runtime.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 7e6b104..5035514 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -365,6 +365,12 @@ impl Parsable for FlagPlace {
             self.0 = Some(f());
         }
     }
+    // A flag accepts no inline value, so its default cannot go through `parse_from`.
+    extern "C" fn set_default_parse(&mut self, default: &str) {
+        if !self.is_set() {
+            self.0 = Some(default.parse().expect("invalid default value"));
+        }
+    }
 }
 
 /// A multi-occurring named argument or a variable length positional argument,
@@ -589,8 +595,7 @@ fn visit_positional(
     }
 
     let info = frame.info;
-    let with_desc =
-        |err: crate::Error| err.with_arg_desc(info.get_description(attrs.get_index()));
+    let with_desc = |err: crate::Error| err.with_arg_desc(info.get_description(attrs.get_index()));
     let place = &mut *frame.fields[usize::from(attrs.get_index())];
     place.parse_from(Some(&arg)).map_err(with_desc)?;
     if attrs.contains(ArgAttrs::GREEDY) {
-- 
2.43.0


From 51e607e48eacbe7b1a02e9d3953c7f74da0ed867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 04/13] fix: no trailing spaces after subcommands without
 summary in help

---
 src/help.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/help.rs b/src/help.rs
index 47b7725..0d0e6f3 100644
--- a/src/help.rs
+++ b/src/help.rs
@@ -69,8 +69,9 @@ pub(crate) fn render_help_into(out: &mut String, frame: &ArgsFrame) {
             let pos = out.len();
             // 4: long_about
             writefmt!(out, "{pad}{subcmd_help_fmt:.4}");
-            if out.len() == pos {
-                out.truncate(pos - pad.len());
+            if out.len() == pos + pad.len() {
+                // No summary. Avoid trailing spaces.
+                out.truncate(pos);
             } else if let Some((lhs, _)) = split_once(&out[pos..], b'\n') {
                 // Only keep the first line as summary.
                 out.truncate(pos + lhs.len());
-- 
2.43.0


From 7043e2806ed5ea3a588bb7d9523614e609dd0351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 05/13] fix: no panic of derive(Subcommand) when a variant is
 rejected

Indices of the rejected variants were kept, and went out of bounds.
---
 derive/src/derive_subcommand.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 465523e..727d125 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -63,18 +63,15 @@ enum VariantKind<'i> {
 
 fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandImpl<'a> {
     let enum_name = &def.ident;
-    let mut name_map = Vec::new();
 
     let variants = data
         .variants
         .iter()
-        .enumerate()
-        .filter_map(|(idx, variant)| {
+        .filter_map(|variant| {
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
             let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
-            name_map.push(idx);
 
             let (args_info, kind) = match &variant.fields {
                 syn::Fields::Unit => {
@@ -120,6 +117,8 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
         })
         .collect::<Vec<_>>();
 
+    // NB: Rejected variants are already excluded.
+    let mut name_map = (0..variants.len()).collect::<Vec<_>>();
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
     // FIXME: Duplication check.
-- 
2.43.0


From 2169915363d424499fb14bdb64d67b1299996144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 06/13] fix: reject duplicated subcommand names at compile time

As documented. It used to compile, with one of the variants unreachable.
---
 derive/src/derive_subcommand.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 727d125..e4b4970 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -121,7 +121,13 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
     let mut name_map = (0..variants.len()).collect::<Vec<_>>();
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
-    // FIXME: Duplication check.
+    for w in name_map.windows(2) {
+        let (lhs, rhs) = (&variants[w[0]], &variants[w[1]]);
+        if lhs.arg_str == rhs.arg_str {
+            emit_error!(lhs.ident, "duplicated subcommand names {:?}", lhs.arg_str);
+            emit_error!(rhs.ident, "second variant here");
+        }
+    }
 
     SubcommandImpl { enum_name, variants, name_map }
 }
-- 
2.43.0


From 071ed52df06d248efa12e6812576744435f6576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 07/13] fix: strip the raw prefix of identifiers when deriving
 names

A field `r#type` became `--r-type` and `R_TYPE`, and a variant of `derive(ValueEnum)`
with a raw identifier could keep a literal 'r#'.
---
 derive/src/derive_args.rs       | 3 ++-
 derive/src/derive_subcommand.rs | 3 ++-
 derive/src/derive_value_enum.rs | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 0a24d21..6d55303 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
 
@@ -307,7 +308,7 @@ pub fn expand_args_parse<'i>(
     for field in fields {
         let attrs = ArgOrCommand::parse_attrs(&field.attrs);
         let ident = field.ident.as_ref().expect("named struct");
-        let ident_str = ident.to_string();
+        let ident_str = ident.unraw().to_string();
 
         let mut arg = match attrs {
             ArgOrCommand::Arg(arg) => arg,
diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index e4b4970..d316600 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Ident, Type};
 
 use crate::common::{CommandMeta, wrap_anon_item};
@@ -71,7 +72,7 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
-            let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
+            let arg_str = heck::AsKebabCase(variant_ident.unraw().to_string()).to_string();
 
             let (args_info, kind) = match &variant.fields {
                 syn::Fields::Unit => {
diff --git a/derive/src/derive_value_enum.rs b/derive/src/derive_value_enum.rs
index d95e6cf..bb74d50 100644
--- a/derive/src/derive_value_enum.rs
+++ b/derive/src/derive_value_enum.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Generics, Ident};
 
 use crate::{
@@ -48,7 +49,7 @@ fn expand_for_enum<'a>(input: &'a DeriveInput, data: &'a DataEnum) -> ValueEnumI
 
             let parse_name = match variant_meta.name {
                 Some(name) => name,
-                None => enum_meta.rename_all.rename(variant.ident.to_string()),
+                None => enum_meta.rename_all.rename(variant.ident.unraw().to_string()),
             };
 
             if parse_name.contains(|c: char| c.is_ascii_control()) {
-- 
2.43.0


From 53273711a974a8d3414305c6e3111d0f6e7b896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 08/13] fix: user types named `Help` in derived structs

The macro put a local type of that name in scope of user types and expressions.
---
 derive/src/derive_args.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 6d55303..1c41eea 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -1001,8 +1001,8 @@ impl ToTokens for HelpDisplay<'_> {
         }
 
         tokens.extend(quote! {{
-            struct Help;
-            impl __rt::fmt::Display for Help {
+            struct __Help;
+            impl __rt::fmt::Display for __Help {
                 fn fmt(&self, __f: &mut __rt::fmt::Formatter<'_>) -> __rt::fmt::Result {
                     // There can be a lot of default values. Put this here rather than inlining below.
                     use __rt::InferDisplayDefaultValue as _;
@@ -1017,7 +1017,7 @@ impl ToTokens for HelpDisplay<'_> {
                     }
                 }
             }
-            &Help
+            &__Help
         }});
     }
 }
-- 
2.43.0


From 09d46b5c87c7deee1ec7c7aa1a1a36fdd57022b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 09/13] fix: keep the macro's state variables out of reach of
 user expressions

`arg(default_value_t = port())` on a field `port` did not compile, since `port` was
resolved to the local variable of the generated parser.
---
 derive/src/derive_args.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 1c41eea..c1fdf2c 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -255,6 +255,15 @@ struct FlattenFieldInfo<'i> {
     ty: &'i syn::Type,
 }
 
+/// The local variable for the state of a field.
+///
+/// It is hygienic, so that expressions from users, eg. in `arg(default_value_t)`, cannot name it.
+fn state_var(ident: &Ident) -> Ident {
+    let mut ident = ident.clone();
+    ident.set_span(ident.span().resolved_at(Span::mixed_site()));
+    ident
+}
+
 fn encode_long_name(name: &LitStr) -> String {
     let s = name.value();
     if s.is_empty() {
@@ -643,7 +652,7 @@ pub fn expand_args_parse<'i>(
 impl ToTokens for ArgsParse<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         // Local variables.
-        let (state_idents, state_initializers, state_extractors) = self
+        let (idents, state_initializers, state_extractors) = self
             .direct_fields
             .iter()
             .map(|f| (f.ident, f.initializer(), f.extractor()))
@@ -659,7 +668,8 @@ impl ToTokens for ArgsParse<'_> {
                 (*ident, quote! { __rt::None::<#ty> }, maybe_unwrap)
             }))
             .collect::<(Vec<_>, Vec<_>, Vec<_>)>();
-        let direct_field_idents = self.direct_fields.iter().map(|f| f.ident);
+        let state_idents = idents.iter().map(|ident| state_var(ident)).collect::<Vec<_>>();
+        let direct_field_idents = self.direct_fields.iter().map(|f| state_var(f.ident));
 
         // Assertions to be forced to evaluate.
         let mut asserts = TokenStream::new();
@@ -692,6 +702,7 @@ impl ToTokens for ArgsParse<'_> {
 
         let subcmd_param = match self.subcommand {
             Some(SubcommandInfo { ident, ty, .. }) => {
+                let ident = state_var(ident);
                 quote! { __rt::Some(<#ty as __rt::Subcommand>::__erase(&mut #ident)) }
             }
             None => quote! { __rt::None },
@@ -707,6 +718,7 @@ impl ToTokens for ArgsParse<'_> {
         };
         // TODO: Add tests about the order of flattened Args.
         for FlattenFieldInfo { ident, ty } in &self.flatten_fields {
+            let ident = state_var(ident);
             run_parser = quote! {
                 <#ty as __rt::Args>::__parse(&mut #ident, __frame, &mut |__frame: &mut __rt::ArgsFrame| {
                     #run_parser
@@ -728,7 +740,7 @@ impl ToTokens for ArgsParse<'_> {
             #validate_finish
 
             *__out = __rt::Some(#output_ctor {
-                #(#state_idents : #state_idents #state_extractors,)*
+                #(#idents : #state_idents #state_extractors,)*
             });
             __rt::Ok(())
         });
@@ -746,11 +758,11 @@ impl ToTokens for ValidateFinish<'_> {
 
         if def.direct_fields.iter().any(|f| f.exclusive) {
             // Exclusive arguments conflict with all direct arguments and the subcommand (if any).
-            let direct_idents = def.direct_fields.iter().map(|f| f.ident);
-            let subcmd_is_set = def
-                .subcommand
-                .as_ref()
-                .map(|SubcommandInfo { ident, .. }| quote! { + #ident.is_some() as u8 });
+            let direct_idents = def.direct_fields.iter().map(|f| state_var(f.ident));
+            let subcmd_is_set = def.subcommand.as_ref().map(|SubcommandInfo { ident, .. }| {
+                let ident = state_var(ident);
+                quote! { + #ident.is_some() as u8 }
+            });
             tokens.extend(quote! {
                 let __total_args = #((#direct_idents.0.is_some() as u8))+* #subcmd_is_set;
             });
@@ -760,6 +772,7 @@ impl ToTokens for ValidateFinish<'_> {
         for f @ FieldInfo { ident, attrs, .. } in &def.direct_fields {
             let mut checks = TokenStream::new();
             let idx = attrs.get_index();
+            let ident = state_var(ident);
 
             if f.exclusive {
                 checks.extend(quote! {
@@ -770,7 +783,7 @@ impl ToTokens for ValidateFinish<'_> {
             }
 
             if let Some(dep_idxs) = &f.dependencies_idx {
-                let dep_idents = &f.dependencies;
+                let dep_idents = f.dependencies.iter().map(|i| state_var(&i.0));
                 checks.extend(quote! {
                     '__dependency: {
                         return __rt::error_dependency(
@@ -784,7 +797,7 @@ impl ToTokens for ValidateFinish<'_> {
             }
 
             if let Some(conf_idxs) = &f.conflicts_idx {
-                let conf_idents = &f.conflicts;
+                let conf_idents = f.conflicts.iter().map(|i| state_var(&i.0));
                 checks.extend(quote! {
                     '__conflict: {
                         return __rt::error_conflict(
@@ -811,6 +824,7 @@ impl ToTokens for ValidateFinish<'_> {
         // no error should be reported as long as the user does not set it.
         for f @ FieldInfo { ident, .. } in &def.direct_fields {
             let idx = f.attrs.get_index();
+            let ident = state_var(ident);
             let checks = if let Some(default_value) = &f.default_value {
                 match default_value {
                     DefaultValue::ValueExpr(e) => quote! {
@@ -837,6 +851,7 @@ impl ToTokens for ValidateFinish<'_> {
         // This also serves as a hint to the optimizer.
         if let Some(SubcommandInfo { ident, .. }) = def.subcommand.as_ref().filter(|s| !s.optional)
         {
+            let ident = state_var(ident);
             tokens.extend(quote! {
                 if let __rt::None = #ident {
                     return __rt::error_missing_subcmd();
@@ -846,12 +861,12 @@ impl ToTokens for ValidateFinish<'_> {
 
         // 1. Suppress bulk-drop on `__out` which is unnecessary.
         // 2. Assert all flattened arguments are already initialized.
-        let flatten_idents = def.flatten_fields.iter().map(|f| f.ident);
+        let flatten_idents = def.flatten_fields.iter().map(|f| state_var(f.ident));
         let set_via_default_idents = def
             .direct_fields
             .iter()
             .filter(|f| f.kind == MagicKind::Value && !f.required)
-            .map(|f| f.ident);
+            .map(|f| state_var(f.ident));
         tokens.extend(quote! {
             if __out.is_some() #(|| #flatten_idents.is_none())* #(|| #set_via_default_idents.0.is_none())* {
                 __rt::unreachable_nounwind();
-- 
2.43.0


From 318f55b17a2a8186bbaa112c4c660f8155f15a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 10/13] fix: ignore_case lowercases values after splitting and
 keeps them in errors

A letter as `value_delimiter` was also matched in the other case (or never, if
it is an uppercase one), and errors showed a lowercase version of the input.
---
 derive/src/derive_args.rs |  5 ++++-
 src/error.rs              |  9 ++++++---
 src/lib.rs                |  2 +-
 src/runtime.rs            |  9 +--------
 src/shared.rs             |  2 +-
 src/values.rs             | 14 ++++++++++++++
 6 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index c1fdf2c..3506f9b 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -153,11 +153,14 @@ impl FieldInfo<'_> {
     fn initializer(&self) -> TokenStream {
         let value_ty = self.value_ty;
         // See also `palc::values::InferValueParser`.
-        let value_parser = quote_spanned! {value_ty.span()=>
+        let mut value_parser = quote_spanned! {value_ty.span()=>
             __rt::assert_auto_infer_value_parser_ok(
                 (&&&__rt::PhantomData::<#value_ty>).__palc_infer_value_parser()
             )
         };
+        if self.attrs.contains(ArgAttrs::MAKE_LOWERCASE) {
+            value_parser = quote! { __rt::IgnoreCaseParser(#value_parser) };
+        }
         match self.kind {
             MagicKind::Bool => quote! { __rt::FlagPlace(__rt::None) },
             MagicKind::Value | MagicKind::Option => {
diff --git a/src/error.rs b/src/error.rs
index a68e7ba..bb6bfa0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -187,6 +187,11 @@ impl Error {
         if let Some(help) = self.0.help.take() { Ok(help) } else { Err(self) }
     }
 
+    pub(crate) fn with_input(mut self, input: OsString) -> Self {
+        self.0.input = Some(input);
+        self
+    }
+
     pub(crate) fn with_source(mut self, source: DynStdError) -> Self {
         self.0.source = Some(source);
         self
@@ -228,9 +233,7 @@ impl From<ErrorKind> for Error {
 impl ErrorKind {
     #[cold]
     pub(crate) fn with_input(self, input: OsString) -> Error {
-        let mut err = Error::new(self);
-        err.0.input = Some(input);
-        err
+        Error::new(self).with_input(input)
     }
 
     #[cold]
diff --git a/src/lib.rs b/src/lib.rs
index 557b8a6..8685f4f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,7 +52,7 @@ pub mod __private {
     pub use std::{assert, concat, env, format_args, unimplemented, unreachable};
 
     pub use crate::values::{
-        InferDisplayDefaultValue, InferValueParser, ValueEnum, ValueParser,
+        IgnoreCaseParser, InferDisplayDefaultValue, InferValueParser, ValueEnum, ValueParser,
         assert_auto_infer_value_parser_ok, assert_impl_display_default_value,
     };
 
diff --git a/src/runtime.rs b/src/runtime.rs
index 5035514..805145f 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -675,14 +675,7 @@ fn visit_named(
             }
         }
     }
-    .and_then(|mut value| {
-        if let Some(value) = &mut value
-            && attrs.contains(ArgAttrs::MAKE_LOWERCASE)
-        {
-            value.to_mut().make_ascii_lowercase();
-        }
-        place.parse_from(value.as_deref())
-    });
+    .and_then(|value| place.parse_from(value.as_deref()));
 
     match ret {
         Ok(()) => Ok(if ends_arg { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }),
diff --git a/src/shared.rs b/src/shared.rs
index c965111..9015545 100644
--- a/src/shared.rs
+++ b/src/shared.rs
@@ -34,7 +34,7 @@ impl ArgAttrs {
     pub const ACCEPT_HYPHEN_NUM: Self = Self(1 << 19);
     /// Is this a global argument?
     pub const GLOBAL: Self = Self(1 << 20);
-    /// Make the value lowercase before parsing it?
+    /// Make each (split) value lowercase before parsing it?
     pub const MAKE_LOWERCASE: Self = Self(1 << 21);
     /// Is this a variable-length positional argument that consumes indetermined
     /// number of arguments?
diff --git a/src/values.rs b/src/values.rs
index 636b328..dd09eb4 100644
--- a/src/values.rs
+++ b/src/values.rs
@@ -157,6 +157,20 @@ impl<T: ValueEnum + 'static> ValueParser for ValueEnumParser<T> {
     }
 }
 
+/// The parser of `arg(ignore_case)`: look up the lowercase form of the value, but keep showing the
+/// original one in errors.
+pub struct IgnoreCaseParser<P>(pub P);
+impl<P> sealed::Sealed for IgnoreCaseParser<P> {}
+impl<P: ValueParser> ValueParser for IgnoreCaseParser<P> {
+    type Output = P::Output;
+    type AssertInferOk = P::AssertInferOk;
+    const POSSIBLE_INPUTS_NUL: &'static str = P::POSSIBLE_INPUTS_NUL;
+
+    fn parse(v: &OsStr) -> Result<P::Output> {
+        P::parse(&v.to_ascii_lowercase()).map_err(|err| err.with_input(v.to_owned()))
+    }
+}
+
 struct PossibleValues(&'static str);
 
 impl fmt::Display for PossibleValues {
-- 
2.43.0


From ebeaf2d56b87beb907217007998eec713cdf248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 11/13] fix: fields that share a name with a constant in scope

---
 derive/src/derive_args.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 3506f9b..df8b3c0 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -261,10 +261,11 @@ struct FlattenFieldInfo<'i> {
 /// The local variable for the state of a field.
 ///
 /// It is hygienic, so that expressions from users, eg. in `arg(default_value_t)`, cannot name it.
+/// It is also prefixed, because items, including constants which cannot be shadowed by variables,
+/// are not covered by hygiene.
 fn state_var(ident: &Ident) -> Ident {
-    let mut ident = ident.clone();
-    ident.set_span(ident.span().resolved_at(Span::mixed_site()));
-    ident
+    let span = ident.span().resolved_at(Span::mixed_site());
+    Ident::new(&format!("__state_{}", ident.unraw()), span)
 }
 
 fn encode_long_name(name: &LitStr) -> String {
-- 
2.43.0


From 5381e957a792dec9c415cf4cb8ac498fe56863d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 12/13] fix: do not pick up the user's u8 and env! in generated
 code

---
 derive/src/derive_args.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index df8b3c0..0261f85 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -765,10 +765,10 @@ impl ToTokens for ValidateFinish<'_> {
             let direct_idents = def.direct_fields.iter().map(|f| state_var(f.ident));
             let subcmd_is_set = def.subcommand.as_ref().map(|SubcommandInfo { ident, .. }| {
                 let ident = state_var(ident);
-                quote! { + #ident.is_some() as u8 }
+                quote! { + #ident.is_some() as __rt::u8 }
             });
             tokens.extend(quote! {
-                let __total_args = #((#direct_idents.0.is_some() as u8))+* #subcmd_is_set;
+                let __total_args = #((#direct_idents.0.is_some() as __rt::u8))+* #subcmd_is_set;
             });
         }
 
@@ -1004,7 +1004,7 @@ impl ToTokens for HelpDisplay<'_> {
         if let Some(meta) = self.cmd_meta {
             let long_about: &dyn ToTokens = match &meta.long_about {
                 Some(Override::Explicit(e)) => e,
-                Some(Override::Inherit) => &quote! { env!("CARGO_PKG_DESCRIPTION") },
+                Some(Override::Inherit) => &quote! { __rt::env!("CARGO_PKG_DESCRIPTION") },
                 None => &meta.doc,
             };
             push_arm(4, &quote! { __rt::format_args!("{}", #long_about) });
-- 
2.43.0


From f2c7e9ed92aa366eecbc6b135d5b8e926cf061f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:14 +0000
Subject: [PATCH 13/13] fix: derive short names from the case-converted field
 name

`arg(short)` took the first character of the identifier as written, so that
`_foo` became `-_`, while `arg(long)` and clap use the converted name.
---
 derive/src/derive_args.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 0261f85..ceb80c2 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -454,8 +454,9 @@ pub fn expand_args_parse<'i>(
 
             let primary_short_name = match arg.short {
                 Some(Override::Explicit(c)) => Some(c),
+                // Same as for long names, derive it from the case-converted name.
                 Some(Override::Inherit) => Some(LitChar::new(
-                    ident_str.chars().next().expect("must have ident"),
+                    heck::AsKebabCase(&ident_str).to_string().chars().next().unwrap_or('_'),
                     ident.span(),
                 )),
                 None => None,
-- 
2.43.0

