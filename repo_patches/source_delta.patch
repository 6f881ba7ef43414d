From ca44972c83799b0e30b8021973d668bf8919b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:29 +0000
Subject: [PATCH 01/18] fix: LengthData returns Incomplete instead of panicking
 on short input

---
 src/helpers.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index c0a8c9e..0430b7a 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,5 +1,6 @@
 use crate::traits::*;
 use core::marker::PhantomData;
+use nom::bytes::streaming::take;
 use nom::error::ParseError;
 use nom::{IResult, ToUsize};
 
@@ -24,17 +25,17 @@ where
 {
     fn parse(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length)(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_be(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length)(rem)?;
         Ok((rem, LengthData::new(data)))
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
         let (rem, length) = L::parse_le(i)?;
-        let (rem, data) = rem.take_split(length.to_usize());
+        let (rem, data) = take(length)(rem)?;
         Ok((rem, LengthData::new(data)))
     }
 }
-- 
2.43.0


From 56e6f8c4b5fe84f180e4a3b191171464553b2b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:29 +0000
Subject: [PATCH 02/18] fix: SetEndian on a field also applies to the fields
 that follow

---
 nom-derive-impl/src/structs.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index ce8d1e5..1ccc272 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -443,6 +443,8 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
             // so the caller must check and add attributes
         }
     }
+    // a `SetEndian` attribute on a field holds until the end of this list of fields
+    let saved_endianness = config.object_endianness;
     for (idx, field) in f.iter().enumerate() {
         let ident_str = if let Some(s) = field.ident.as_ref() {
             s.to_string()
@@ -452,6 +454,9 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         let meta_list = meta::parse_nom_attribute(&field.attrs)?;
         // eprintln!("meta_list: {:?}", meta_list);
         let mut p = get_field_parser(field, &meta_list, config)?;
+        if meta_list.iter().any(|m| m.is_type(MetaAttrType::SetEndian)) {
+            config.object_endianness = ParserEndianness::SetEndian;
+        }
 
         if config.complete {
             p = p.complete();
@@ -477,6 +482,7 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         let sp = StructParser::new(ident_str, item, pre, post);
         parsers.push(sp);
     }
+    config.object_endianness = saved_endianness;
     Ok(StructParserTree {
         empty,
         unnamed,
-- 
2.43.0


From 322b7f1ea74af5378f966ef6bcd5a663afebcc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:29 +0000
Subject: [PATCH 03/18] fix: moving the default variant last keeps the order of
 the other variants

---
 nom-derive-impl/src/gen/enums.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 217736a..ceae8f1 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -213,8 +213,9 @@ impl GenEnum {
                 .expect("default case is handled but couldn't find index");
             let last_index = self.variants_defs.len() - 1;
             if pos != last_index {
-                // self.variants_defs.swap(pos, last_index);
-                variants_code.swap(pos, last_index);
+                // keep the order of the other variants
+                let default_code = variants_code.remove(pos);
+                variants_code.push(default_code);
             }
         }
         Ok((default_case_handled, variants_code))
-- 
2.43.0


From 2603fc9de8f4a9f07b30070e29fe1c4c18bf1cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 04/18] fix: Verify with an expression starting with a literal

---
 nom-derive-impl/src/structs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 1ccc272..22d08c6 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -250,7 +250,11 @@ fn get_parser(
                 let ts_arg = meta.arg().unwrap();
                 if let Some(TokenTree::Literal(_)) = ts_arg.clone().into_iter().next() {
                     let ts_arg = syn::parse2::<Expr>(ts_arg.clone())?;
-                    return Ok(ParserExpr::Map(Box::new(expr), ts_arg.to_token_stream()));
+                    return Ok(ParserExpr::Verify(
+                        Box::new(expr),
+                        ident.clone(),
+                        ts_arg.to_token_stream(),
+                    ));
                 }
                 let ts_arg = meta.arg().unwrap();
                 return Ok(ParserExpr::Verify(
-- 
2.43.0


From 437ab8d1e0bcb81a7d478ffdbd22227c77c444a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 05/18] fix: derived selector enums import nom::Parser
 themselves

---
 nom-derive-impl/src/gen/enums.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index ceae8f1..2717bf8 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -75,6 +75,7 @@ impl Generator for GenEnum {
             quote! { _ => Err(nom::Err::Error(nom::error_position!(#input, nom::error::ErrorKind::Switch))) }
         };
         let tokens = quote! {
+            use nom::Parser as _;
             let #input = #orig_input;
             #tl_pre
             let (#input, enum_def) = match selector {
-- 
2.43.0


From 5ac23d83c959c2f172b5b9dd3e1acd2952dc07ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:30 +0000
Subject: [PATCH 06/18] fix: apply Complete to fieldless enums and to the
 parsers of unit variants

---
 nom-derive-impl/src/enums.rs               | 6 +++++-
 nom-derive-impl/src/gen/fieldless_enums.rs | 9 ++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index fc489f4..2c6e40f 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -36,7 +36,11 @@ pub(crate) fn parse_variant(
             }
         }
         let (pre, post) = get_pre_post_exec(&meta_list, config);
-        let p = p.unwrap_or(ParserExpr::Nop);
+        let p = match p {
+            Some(p) if config.complete => p.complete(),
+            Some(p) => p,
+            None => ParserExpr::Nop,
+        };
         let item = ParserTreeItem::new(Some(variant.ident.clone()), p);
         let sp = StructParser::new("_".to_string(), item, pre, post);
         struct_def.parsers.push(sp);
diff --git a/nom-derive-impl/src/gen/fieldless_enums.rs b/nom-derive-impl/src/gen/fieldless_enums.rs
index 4f3d92f..eacd66d 100644
--- a/nom-derive-impl/src/gen/fieldless_enums.rs
+++ b/nom-derive-impl/src/gen/fieldless_enums.rs
@@ -73,9 +73,10 @@ impl Generator for GenFieldlessEnum {
         let parser = &self.repr_parser.with_endianness(endianness);
         // generate body
         let tokens = quote! {
+            use nom::Parser as _;
             let #input = #orig_input;
             #tl_pre
-            let (#input, selector) = #parser(#input)?;
+            let (#input, selector) = #parser.parse(#input)?;
             let enum_def =
                 #(#variants_code else)*
             { return Err(nom::Err::Error(nom::error::make_error(#orig_input, nom::error::ErrorKind::Switch))); };
@@ -155,6 +156,12 @@ impl GenFieldlessEnum {
             }
         };
 
+        let repr_parser = if config.complete {
+            repr_parser.complete()
+        } else {
+            repr_parser
+        };
+
         let variants_code: Vec<_> = data_enum
             .variants
             .iter()
-- 
2.43.0


From 79857ca72a1e79ae429e2c20873b913bab6ba1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:31 +0000
Subject: [PATCH 07/18] fix: do not refer to std in the bounds of derived
 parsers

---
 nom-derive-impl/src/gen/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/gen/generator.rs b/nom-derive-impl/src/gen/generator.rs
index f44e539..0bead90 100644
--- a/nom-derive-impl/src/gen/generator.rs
+++ b/nom-derive-impl/src/gen/generator.rs
@@ -105,7 +105,7 @@ pub(crate) trait Generator {
                     quote!(<#ident_e>),
                     quote! {where
                         #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>,
-                        #ident_e: std::fmt::Debug,
+                        #ident_e: core::fmt::Debug,
                     },
                 )
             } else {
@@ -313,7 +313,7 @@ pub(crate) fn gen_fn_decl(
                 #ident_e: nom_derive::nom::error::ParseError<&#lft [u8]>
             };
             fn_where_clause.predicates.push(dep);
-            let dep: WherePredicate = parse_quote! { #ident_e: std::fmt::Debug };
+            let dep: WherePredicate = parse_quote! { #ident_e: core::fmt::Debug };
             fn_where_clause.predicates.push(dep);
             // add error type to function generics
             fn_generics = Some(quote!(<#ident_e>));
-- 
2.43.0


From 7e88f5ee9a3bf955febe5ec421ca3b4db6bcf3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:31 +0000
Subject: [PATCH 08/18] fix: convert the whole argument of Count, Take and Tag,
 not its last operand

---
 nom-derive-impl/src/parsertree.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index b0498f6..b83035b 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -141,7 +141,7 @@ impl ToTokens for ParserExpr {
                 quote! { nom::combinator::cond(#c, #expr) }
             }
             ParserExpr::Count(expr, n) => {
-                quote! { nom::multi::count(#expr, #n as usize) }
+                quote! { nom::multi::count(#expr, (#n) as usize) }
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
@@ -168,10 +168,10 @@ impl ToTokens for ParserExpr {
             }
             ParserExpr::Raw(s) => s.to_token_stream(),
             ParserExpr::Tag(s) => {
-                quote! { nom::bytes::streaming::tag(&#s[..]) }
+                quote! { nom::bytes::streaming::tag(&(#s)[..]) }
             }
             ParserExpr::Take(s) => {
-                quote! { nom::bytes::streaming::take(#s as usize) }
+                quote! { nom::bytes::streaming::take((#s) as usize) }
             }
             ParserExpr::Value(ts) => {
                 quote! {
-- 
2.43.0


From 59a7bc12e0d709e0dfc847af6c102cf7c8206ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:31 +0000
Subject: [PATCH 09/18] fix: Align, Skip, Move and MoveAbs with any expression
 and any value

---
 nom-derive-impl/src/structs.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 22d08c6..6d0aed7 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -286,8 +286,11 @@ fn quote_align(align: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), align.span());
     quote! {
         let (#input, _) = {
+            let align = (#align) as usize;
             let offset = #input.as_ptr() as usize - #orig_input.as_ptr() as usize;
-            let align = #align as usize;
+            if align == 0 {
+                return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::Verify)));
+            }
             let align = ((align - (offset % align)) % align);
             nom::bytes::streaming::take(align)(#input)
         }?;
@@ -300,17 +303,17 @@ fn quote_move(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
+            let offset = (#offset) as isize;
             let start = #orig_input.as_ptr() as usize;
             let pos = #input.as_ptr() as usize - start;
-            let offset = #offset as isize;
-            let offset_u = offset.abs() as usize;
+            let offset_u = offset.unsigned_abs();
             let new_offset = if offset < 0 {
                 if offset_u > pos {
                     return Err(nom::Err::Error(nom::error::make_error(#input, nom::error::ErrorKind::TooLarge)));
                 }
                 pos - offset_u
             } else {
-                if pos + offset_u > #orig_input.len() {
+                if offset_u > #orig_input.len() - pos {
                     return Err(nom::Err::Incomplete(nom::Needed::new(offset_u)));
                 }
                 pos + offset_u
@@ -326,7 +329,7 @@ fn quote_move_abs(offset: &TokenStream, config: &Config) -> TokenStream {
     let orig_input = syn::Ident::new(config.orig_input_name(), offset.span());
     quote! {
         let #input = {
-            let offset = #offset as usize;
+            let offset = (#offset) as usize;
             if offset > #orig_input.len() {
                 return Err(nom::Err::Incomplete(nom::Needed::new(offset)));
             }
@@ -339,7 +342,7 @@ fn quote_skip(skip: &TokenStream, config: &Config) -> TokenStream {
     let input = syn::Ident::new(config.input_name(), skip.span());
     quote! {
         let (#input, _) = {
-            let skip = #skip as usize;
+            let skip = (#skip) as usize;
             nom::bytes::streaming::take(skip)(#input)
         }?;
     }
-- 
2.43.0


From 172c8c26ebd85d47f62b62693a137a3c8d1b1aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 10/18] fix: run the PreExec, PostExec and other directives of
 all enum variants

---
 nom-derive-impl/src/enums.rs     | 9 +++++++--
 nom-derive-impl/src/gen/enums.rs | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/enums.rs b/nom-derive-impl/src/enums.rs
index 2c6e40f..2d46a0b 100644
--- a/nom-derive-impl/src/enums.rs
+++ b/nom-derive-impl/src/enums.rs
@@ -3,6 +3,7 @@ use crate::meta;
 use crate::meta::attr::{MetaAttr, MetaAttrType};
 use crate::parsertree::{ParserExpr, ParserTreeItem};
 use crate::structs::{get_pre_post_exec, parse_fields, StructParser, StructParserTree};
+use proc_macro2::TokenStream;
 use syn::spanned::Spanned;
 use syn::*;
 
@@ -11,6 +12,8 @@ pub(crate) struct VariantParserTree {
     pub ident: syn::Ident,
     pub selector_type: String,
     pub struct_def: StructParserTree,
+    pub pre_exec: Option<TokenStream>,
+    pub post_exec: Option<TokenStream>,
 }
 
 pub(crate) fn parse_variant(
@@ -35,21 +38,23 @@ pub(crate) fn parse_variant(
                 p = Some(ParserExpr::Raw(s.clone()));
             }
         }
-        let (pre, post) = get_pre_post_exec(&meta_list, config);
         let p = match p {
             Some(p) if config.complete => p.complete(),
             Some(p) => p,
             None => ParserExpr::Nop,
         };
         let item = ParserTreeItem::new(Some(variant.ident.clone()), p);
-        let sp = StructParser::new("_".to_string(), item, pre, post);
+        let sp = StructParser::new("_".to_string(), item, None, None);
         struct_def.parsers.push(sp);
     }
+    let (pre_exec, post_exec) = get_pre_post_exec(&meta_list, config);
     // discriminant ?
     Ok(VariantParserTree {
         ident: variant.ident.clone(),
         selector_type: selector,
         struct_def,
+        pre_exec,
+        post_exec,
     })
 }
 
diff --git a/nom-derive-impl/src/gen/enums.rs b/nom-derive-impl/src/gen/enums.rs
index 2717bf8..28e9d74 100644
--- a/nom-derive-impl/src/gen/enums.rs
+++ b/nom-derive-impl/src/gen/enums.rs
@@ -180,6 +180,7 @@ impl GenEnum {
                         .map(|sp| (sp.pre_exec.as_ref(), sp.post_exec.as_ref()))
                         .unzip();
                     let idents2 = idents.clone();
+                    let (variant_pre, variant_post) = (&def.pre_exec, &def.post_exec);
                     let struct_def = match (def.struct_def.empty, def.struct_def.unnamed) {
                         (true, _) => quote! { ( #name::#variantname ) },
                         (_, true) => quote! { ( #name::#variantname ( #(#idents2),* ) ) },
@@ -192,11 +193,13 @@ impl GenEnum {
                     // XXX this is caused by quote!{} calling to_string()
                     quote! {
                     #m => {
+                        #variant_pre
                         #(
                             #pre
                             let (#input, #idents) = #parser_tokens (#input) ?;
                             #post
                         )*
+                        #variant_post
                         let struct_def = #struct_def;
                         Ok((#input, struct_def))
                             // Err(nom::Err::Error(error_position!(#input_name, nom::ErrorKind::Switch)))
-- 
2.43.0


From 567663bebe9740dfecef57fbe11021b1de2679e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:20 +0000
Subject: [PATCH 11/18] fix: arrays parse exactly N elements the same way with
 and without alloc

---
 src/traits.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index dc13f4f..9715dc3 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -26,7 +26,7 @@ use nom::error::FromExternalError;
 use nom::multi::fill;
 
 #[cfg(feature = "alloc")]
-use nom::multi::{many0, many_m_n};
+use nom::multi::{count, many0};
 
 pub trait InputSlice: Input<Item = u8> {}
 impl InputSlice for &[u8] {}
@@ -240,16 +240,16 @@ where
     T: Parse<I, E>,
 {
     fn parse(i: I) -> IResult<I, Self, E> {
-        map_res(many_m_n(N, N, complete(<T>::parse)), Self::try_from).parse(i)
+        map_res(count(complete(<T>::parse), N), Self::try_from).parse(i)
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
-        map_res(many_m_n(N, N, complete(<T>::parse_be)), |v| {
+        map_res(count(complete(<T>::parse_be), N), |v| {
             Self::try_from(v)
         })
         .parse(i)
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
-        map_res(many_m_n(N, N, complete(<T>::parse_le)), |v| {
+        map_res(count(complete(<T>::parse_le), N), |v| {
             Self::try_from(v)
         })
         .parse(i)
@@ -267,17 +267,17 @@ where
 {
     fn parse(i: I) -> IResult<I, Self, E> {
         let mut o: Self = [Default::default(); N];
-        let r = fill(<T>::parse, &mut o).parse(i);
+        let r = fill(complete(<T>::parse), &mut o).parse(i);
         r.map(|(i, _)| (i, o))
     }
     fn parse_be(i: I) -> IResult<I, Self, E> {
         let mut o: Self = [Default::default(); N];
-        let r = fill(<T>::parse_be, &mut o).parse(i);
+        let r = fill(complete(<T>::parse_be), &mut o).parse(i);
         r.map(|(i, _)| (i, o))
     }
     fn parse_le(i: I) -> IResult<I, Self, E> {
         let mut o: Self = [Default::default(); N];
-        let r = fill(<T>::parse_le, &mut o).parse(i);
+        let r = fill(complete(<T>::parse_le), &mut o).parse(i);
         r.map(|(i, _)| (i, o))
     }
 }
-- 
2.43.0


From d91971a8834a2b76a852f95598c9841b1e484734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 12/18] fix: Debug around other parser attributes

---
 nom-derive-impl/src/parsertree.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index b83035b..2239a00 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -145,7 +145,19 @@ impl ToTokens for ParserExpr {
             }
             ParserExpr::DbgDmp(expr, i) => {
                 let ident = format!("{}", i);
-                quote! { nom::error::dbg_dmp(#expr, #ident) }
+                match **expr {
+                    // combinators implement `Parser`, but `dbg_dmp` expects a function
+                    ParserExpr::Complete(_)
+                    | ParserExpr::Cond(..)
+                    | ParserExpr::Count(..)
+                    | ParserExpr::Into(_)
+                    | ParserExpr::LengthCount(..)
+                    | ParserExpr::Map(..)
+                    | ParserExpr::Verify(..) => quote! {
+                        nom::error::dbg_dmp(|__i__| nom::Parser::parse(&mut #expr, __i__), #ident)
+                    },
+                    _ => quote! { nom::error::dbg_dmp(#expr, #ident) },
+                }
             }
             ParserExpr::Into(expr) => {
                 quote! { nom::combinator::into(#expr) }
-- 
2.43.0


From 9d5e1c6fae8d793086ee528eda58341d800e3ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 13/18] fix: Parse with a bare closure

---
 nom-derive-impl/src/parsertree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index 2239a00..4355911 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -178,7 +178,7 @@ impl ToTokens for ParserExpr {
                     { |__i__| Ok((__i__, PhantomData)) }
                 }
             }
-            ParserExpr::Raw(s) => s.to_token_stream(),
+            ParserExpr::Raw(s) => quote! { (#s) },
             ParserExpr::Tag(s) => {
                 quote! { nom::bytes::streaming::tag(&(#s)[..]) }
             }
-- 
2.43.0


From 7301417ea33ce3f65f2208ad8d9c5a7be202d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:55 +0000
Subject: [PATCH 14/18] fix: Debug around Take

---
 nom-derive-impl/src/parsertree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nom-derive-impl/src/parsertree.rs b/nom-derive-impl/src/parsertree.rs
index 4355911..15ac321 100644
--- a/nom-derive-impl/src/parsertree.rs
+++ b/nom-derive-impl/src/parsertree.rs
@@ -153,6 +153,7 @@ impl ToTokens for ParserExpr {
                     | ParserExpr::Into(_)
                     | ParserExpr::LengthCount(..)
                     | ParserExpr::Map(..)
+                    | ParserExpr::Take(_)
                     | ParserExpr::Verify(..) => quote! {
                         nom::error::dbg_dmp(|__i__| nom::Parser::parse(&mut #expr, __i__), #ident)
                     },
-- 
2.43.0


From 86a88ec1113ee6e648bed76308d590afa906c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 15/18] fix: accept alternatives in selector patterns

Selector = "0 | 1" is a valid match arm, but made the derive macro panic.
---
 nom-derive-impl/src/meta/attr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 863a1de..51a3c9a 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -304,7 +304,7 @@ struct PatternAndGuard {
 
 impl Parse for PatternAndGuard {
     fn parse(input: ParseStream) -> syn::Result<Self> {
-        let pat = Pat::parse_single(input)?;
+        let pat = Pat::parse_multi_with_leading_vert(input)?;
         let guard = if input.peek(Token![if]) {
             let tk_if: Token![if] = input.parse()?;
             let expr: syn::Expr = input.parse()?;
-- 
2.43.0


From 5ee3c77b09773072b4c406da2b28c62f13010c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:31 +0000
Subject: [PATCH 16/18] fix: accept any type as the type of a selector

Selector = "Option<u8>" was rejected, because it is not a pattern.
---
 nom-derive-impl/src/meta/attr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nom-derive-impl/src/meta/attr.rs b/nom-derive-impl/src/meta/attr.rs
index 51a3c9a..48c6c9a 100644
--- a/nom-derive-impl/src/meta/attr.rs
+++ b/nom-derive-impl/src/meta/attr.rs
@@ -5,7 +5,7 @@ use quote::ToTokens;
 use syn::parse::{Parse, ParseStream};
 use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
-use syn::{token, Expr, ExprLit, FnArg, Ident, Lit, Meta, Pat, Stmt, Token};
+use syn::{token, Expr, ExprLit, FnArg, Ident, Lit, Meta, Pat, Stmt, Token, Type};
 
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 pub enum MetaAttrType {
@@ -236,7 +236,9 @@ impl TryFrom<&'_ Meta> for MetaAttr {
                     quote! { #fields }
                 }
                 MetaAttrType::PreExec | MetaAttrType::PostExec => parse_meta_content::<Stmt>(meta)?,
-                MetaAttrType::Selector => parse_meta_content::<PatternAndGuard>(meta)?,
+                // the pattern of a variant, or the type of the selector (top-level)
+                MetaAttrType::Selector => parse_meta_content::<PatternAndGuard>(meta)
+                    .or_else(|err| parse_meta_content::<Type>(meta).map_err(|_| err))?,
                 _ => parse_meta_content::<Expr>(meta)?,
             };
             Some(token_stream)
-- 
2.43.0


From 5b2e9f56c14138b7ffe6856dcdcab8c7d6dd76e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:01 +0000
Subject: [PATCH 17/18] fix: refuse conflicting byte orders on fields whose
 parser ignores them

---
 nom-derive-impl/src/structs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nom-derive-impl/src/structs.rs b/nom-derive-impl/src/structs.rs
index 6d0aed7..884e511 100644
--- a/nom-derive-impl/src/structs.rs
+++ b/nom-derive-impl/src/structs.rs
@@ -460,6 +460,8 @@ pub(crate) fn parse_fields(f: &Fields, config: &mut Config) -> Result<StructPars
         };
         let meta_list = meta::parse_nom_attribute(&field.attrs)?;
         // eprintln!("meta_list: {:?}", meta_list);
+        // check byte order attributes, even if the parser for this field does not use them
+        get_local_endianness(field.ty.span(), &meta_list, config)?;
         let mut p = get_field_parser(field, &meta_list, config)?;
         if meta_list.iter().any(|m| m.is_type(MetaAttrType::SetEndian)) {
             config.object_endianness = ParserEndianness::SetEndian;
-- 
2.43.0


From e7b831908946f75bb52fbe4e01f52ea96b98ab99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:27 +0000
Subject: [PATCH 18/18] fix: do not bring the name Parser into scope of derived
 structs

---
 nom-derive-impl/src/gen/structs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nom-derive-impl/src/gen/structs.rs b/nom-derive-impl/src/gen/structs.rs
index 0eafc1a..e33d8fc 100644
--- a/nom-derive-impl/src/gen/structs.rs
+++ b/nom-derive-impl/src/gen/structs.rs
@@ -102,7 +102,7 @@ impl Generator for GenStruct {
         };
 
         let fn_body = quote! {
-            use nom::Parser;
+            use nom::Parser as _;
             let #input = #orig_input;
             #tl_pre
             #(#pre let (#input, #idents) = #parser_tokens (#input) ?; #post)*
-- 
2.43.0

