From a5ec350d017799ff6b8a17b69bdc8267509ff2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:45 +0000
Subject: [PATCH 01/36] fix: Bytes::shrink_to bounds-checks inlined values
 against their own length

---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 4226029..6682157 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -232,7 +232,7 @@ impl<'a> Bytes<'a> {
             core::ops::Bound::Unbounded => self.len(),
         };
         assert!(start <= end);
-        assert!(end <= self.len);
+        assert!(end <= self.len());
         let len = end - start;
         if len <= Self::MAX_INLINE_SIZE {
             // SAFETY: `&self[start..end]` length has been checked, which is `inline_unchecked`'s only safety requirement.
-- 
2.43.0


From 1e9efd052faf3e9a4b676da04353a6a792c50431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:45 +0000
Subject: [PATCH 02/36] fix: Bytes::noalloc_upgrade no longer extends the
 lifetime of borrowed data

---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 6682157..0ee515f 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -346,7 +346,7 @@ impl<'a> Bytes<'a> {
     /// # Errors
     /// Returns the original instance if it couldn't be proven to be `'static`.
     pub fn noalloc_upgrade(self: Bytes<'a>) -> Result<Bytes<'static>, Self> {
-        if !self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
+        if self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
             Ok(unsafe { mem::transmute(self) })
         } else {
             Self::inline_slice(&self).ok_or(self)
-- 
2.43.0


From e461729fb4dbc7a0436934b116d6a24bb4052a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:45 +0000
Subject: [PATCH 03/36] fix: Bytes allocation predictions use the inlining
 threshold

---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 0ee515f..bd09de6 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -374,7 +374,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Self::upgrade`] would cause an allocation.
     pub fn upgrade_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.is_borrowed() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.is_borrowed() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
@@ -382,7 +382,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Clone::clone`] would cause an allocation.
     pub fn clone_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.retain.is_none() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.retain.is_none() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
-- 
2.43.0


From a3c80a12d3ce4f6de53d3b65df9a7db9df55da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:46 +0000
Subject: [PATCH 04/36] fix: Bytes::shrink_to panics on bounds past usize::MAX
 instead of wrapping

---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index bd09de6..dd0396b 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -223,11 +223,11 @@ impl<'a> Bytes<'a> {
     pub fn shrink_to<R: RangeBounds<usize>>(&mut self, range: R) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.checked_add(1).unwrap(),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.checked_add(1).unwrap(),
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 333805ec01abb7b9a3110877ad18c6ec824d27ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 05/36] fix: enum discriminants in headers are the values the
 enum has

The discriminant expression was emitted outside of the enum definition, where
its integer literals are i32: `1 << 31` or `!0` in a `repr(u32)` enum ended up
negative in the header.
---
 src/proc_macro/derives/repr_c/enum_.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index 6b7893e..9d998b2 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -137,10 +137,13 @@ fn derive (
         ;
         let ref each_enum_variant =
             variants.try_vmap(|v| Result::Ok({
+                let VariantName @ _ = &v.ident;
                 let ref VariantName_str = v.ident.to_string();
-                let discriminant = if let Some((_eq, disc)) = &v.discriminant {
+                let discriminant = if v.discriminant.is_some() {
+                    // The value itself rather than the expression: the latter, once out of the
+                    // `enum` definition, need not be inferred to be of type `#Int`.
                     quote!(
-                        #ඞ::Some(&(#disc, ).0 as _)
+                        #ඞ::Some(&(#EnumName::#VariantName as #Int) as _)
                     )
                 } else {
                     quote!(
-- 
2.43.0


From 48a3a6a5242d927023ccf79d0583e8f15e85bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 06/36] fix: Python headers keep the discriminants and the
 backing integer of enums

---
 src/headers/languages/python.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/headers/languages/python.rs b/src/headers/languages/python.rs
index 5c10a25..651afa8 100644
--- a/src/headers/languages/python.rs
+++ b/src/headers/languages/python.rs
@@ -24,17 +24,25 @@ impl HeaderLanguage for Python {
         ctx: &'_ mut dyn Definer,
         _docs: Docs<'_>,
         self_ty: &'_ dyn PhantomCType,
-        _backing_integer: Option<&dyn PhantomCType>,
+        backing_integer: Option<&dyn PhantomCType>,
         variants: &'_ [EnumVariant<'_>],
     ) -> io::Result<()>
     {
         let ref indent = Indentation::new(4 /* ctx.indent_width() */);
         mk_out!(indent, ctx.out());
 
+        let ref intn_t =
+            backing_integer.map(|it| it.name(self))
+        ;
+
         let ref short_name = self_ty.short_name();
         let ref full_ty_name = self_ty.name(self);
 
-        out!(("typedef enum {short_name} {{"));
+        if intn_t.is_some() {
+            out!(("enum {short_name} {{"));
+        } else {
+            out!(("typedef enum {short_name} {{"));
+        }
 
         if let _ = indent.scope() {
             for v in variants {
@@ -44,11 +52,22 @@ impl HeaderLanguage for Python {
                     enum_name,
                     v.name,
                 ) */;
-                out!(("{variant_name},"));
+                if let Some(value) = v.discriminant {
+                    out!(("{variant_name} = {value:?},"));
+                } else {
+                    out!(("{variant_name},"));
+                }
             }
         }
 
-        out!(("}} {full_ty_name};"));
+        if let Some(intn_t) = intn_t {
+            out!((
+                "}};"
+                "typedef {intn_t} {full_ty_name};"
+            ));
+        } else {
+            out!(("}} {full_ty_name};"));
+        }
         out!("\n");
         Ok(())
     }
-- 
2.43.0


From 152874d97f380009c93b2d14bf1cfe8c671aa760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 07/36] fix: header generation no longer panics on nested
 generics of opaque types

---
 src/_lib.rs | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/_lib.rs b/src/_lib.rs
index 61779b1..17e2ae7 100644
--- a/src/_lib.rs
+++ b/src/_lib.rs
@@ -616,32 +616,48 @@ mod __ {
             splitter(orig).map_or((orig, None), |(l, r)| (l, Some(r)))
         }
 
+        /// Splits at the `sep`arators which are not nested within brackets.
+        fn split_unnested<'r> (
+            s: &'r str,
+            sep: char,
+        ) -> impl Iterator<Item = &'r str>
+        {
+            let mut depth = 0_usize;
+            let mut prev = ' ';
+            s.split(move |c| {
+                match c {
+                    | '(' | '[' | '<' => depth += 1,
+                    | '>' if prev == '-' => {}, // `->`
+                    | ')' | ']' | '>' => depth = depth.saturating_sub(1),
+                    | _ => {},
+                }
+                prev = c;
+                depth == 0 && c == sep
+            })
+        }
+
         let ty_name = ty_name.trim();
-        if let Some(tuple_innards) = ty_name.strip_prefix('(') {
+        let between = |l: char, r: char| ty_name.strip_prefix(l)?.strip_suffix(r);
+        if let Some(tuple_innards) = between('(', ')') {
             // Tuple
-            tuple_innards
-                .strip_suffix(')').unwrap()
-                .split(',')
+            split_unnested(tuple_innards, ',')
                 .for_each(|generic| {
                     append_unqualified_name(out, generic);
                 })
             ;
-        } else if let Some(bracketed_innards) = ty_name.strip_prefix('[') {
+        } else if let Some(bracketed_innards) = between('[', ']') {
             // Array or Slice
-            let (elem_ty, mb_len) = mb_split_with(
-                bracketed_innards.strip_suffix(']').unwrap(),
-                |s| s.rsplit_once(';'),
-            );
-            append_unqualified_name(out, elem_ty);
-            if let Some(len) = mb_len {
-                append_unqualified_name(out, len);
-            }
+            split_unnested(bracketed_innards, ';')
+                .for_each(|elem_ty_or_len| {
+                    append_unqualified_name(out, elem_ty_or_len);
+                })
+            ;
         } else {
             // Canonical Type Path
             out.push('_');
             let (mut path, mb_generics) = mb_split_with(
                 ty_name,
-                |s| s.split_once('<'),
+                |s| s.strip_suffix('>')?.split_once('<'),
             );
             let is_valid_for_ident = |c: char| {
                 c.is_alphanumeric() || matches!(c, '_')
@@ -660,8 +676,7 @@ mod __ {
                 });
             }
             if let Some(generics) = mb_generics {
-                let generics = generics.strip_suffix('>').unwrap();
-                generics.split(',').for_each(|generic| {
+                split_unnested(generics, ',').for_each(|generic| {
                     append_unqualified_name(out, generic);
                 });
             }
-- 
2.43.0


From e08ffebd108c54a615e956f8ec105c86d3755a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 08/36] fix: C declarations of function pointers returning
 function pointers

The return type's name was merely prepended, yielding the ill-formed
`uint16_t (*)(int32_t) (*x)(uint8_t)`.
---
 src/layout/impls.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index ea518a3..f98805c 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -299,16 +299,21 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt, "{} ", Ret::name(&crate::headers::languages::C))?;
-                write!(fmt, "(*{})(", var_name)?;
+                use fmt::Write;
+                // The declarator goes *within* the return type, which may be a
+                // function pointer itself.
+                let mut declarator = format!("(*{})(", var_name);
                 let _empty = true; $(
                 let _empty = false;
-                write!(fmt, "{}", $An::name(&crate::headers::languages::C))?; $(
-                write!(fmt, ", {}", $Ai::name(&crate::headers::languages::C))?; )*)?
+                write!(declarator, "{}", $An::name(&crate::headers::languages::C))?; $(
+                write!(declarator, ", {}", $Ai::name(&crate::headers::languages::C))?; )*)?
                 if _empty {
-                    fmt.write_str("void")?;
+                    declarator.push_str("void");
                 }
-                fmt.write_str(")")
+                declarator.push(')');
+                fmt.write_str(
+                    &Ret::name_wrapping_var(&crate::headers::languages::C, &declarator)
+                )
             }
 
             __cfg_csharp__! {
-- 
2.43.0


From 2817fe8c859e9da1ad30dfca898eb908cd7043de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 09/36] fix: C headers using `ssize_t` include what defines it

---
 src/layout/impls.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index f98805c..42300ec 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -503,7 +503,17 @@ const _: () = { macro_rules! impl_CTypes {
                             "\n",
                         ),
                     ),
-                )
+                )?;
+                if $CInt == "ssize" {
+                    // Neither of the above provides `ssize_t`.
+                    definer.define_once(
+                        "__ssize_headers__",
+                        &mut |definer| definer.out().write_all(
+                            b"\n#include <sys/types.h>\n\n"
+                        ),
+                    )?;
+                }
+                Ok(())
             }
 
             fn c_var_fmt (
-- 
2.43.0


From 17cdd19d65137f2366da26fa9915539d284ba5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 10/36] fix: C# arrays of native integers are not `fixed`
 buffers

`fixed UIntPtr` is not valid C#: the element of a fixed buffer has to be one of
the built-in numeric types.
---
 src/layout/impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 42300ec..ee60341 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -160,8 +160,8 @@ const _: () = { macro_rules! impl_CTypes {
                             // Poor man's specialization to use `fixed` arrays.
                             if  [
                                     "bool",
-                                    "u8", "u16", "u32", "u64", "usize",
-                                    "i8", "i16", "i32", "i64", "isize",
+                                    "u8", "u16", "u32", "u64",
+                                    "i8", "i16", "i32", "i64",
                                     "float", "double",
                                 ].contains(&::core::any::type_name::<Item>())
                             {
-- 
2.43.0


From d0f0a1d2bec00cb703d0881eaeee20501aa41dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 11/36] fix: `c_int` is marshalled as a 4-byte integer in C#

`UnmanagedType.SysInt` is pointer-sized.
---
 src/layout/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index ee60341..a3ab360 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -968,7 +968,7 @@ unsafe
                 fn legacy_csharp_marshaler ()
                   -> Option<rust::String>
                 {
-                    Some("UnmanagedType.SysInt".into())
+                    Some("UnmanagedType.I4".into())
                 }
             }
         }
-- 
2.43.0


From 52f9d5ddade671d8cbf0b49e2123eceae9c356bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 12/36] fix: header generation flushes the writer before
 reporting success

---
 src/headers/_mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index 8bcd974..311cde2 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -340,6 +340,8 @@ impl Builder<'_, WhereTo> {
         config.write_body(definer)?;
         // Epilogue
         config.write_epilogue(definer)?;
+        // Otherwise a buffering writer could fail, unnoticed, when dropped.
+        definer.out().flush()?;
         Ok(())
     }
 
-- 
2.43.0


From fc32d8f63e0852eff187637a5aa6164c7d0d6783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 13/36] fix: tuple structs can derive ReprC

The validity check accessed the fields of the layout as `.0`, which are named `_0`.
---
 src/proc_macro/derives/repr_c/struct_.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 4ca2143..4c84c65 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -74,9 +74,10 @@ fn derive (
     };
 
     let EachFieldTy @ _ = || fields.iter().map(|Field { ty, .. }| ty);
-    let each_field_name = || (0..).zip(fields).map(|(i, f)| match f.ident {
-        | Some(ref ident) => ident.to_token_stream(),
-        | None => Index { index: i, span: f.ty.span() }.into_token_stream(),
+    // The names of the fields of `StructName_Layout`.
+    let each_field_name = || (0_u8..).zip(fields).map(|(i, f)| match f.ident {
+        | Some(ref ident) => ident.clone(),
+        | None => format_ident!("_{}", i),
     });
 
     let ref StructName_Layout @ _ = format_ident!("{}_Layout", StructName);
@@ -110,12 +111,7 @@ fn derive (
             generics: ctype_generics.clone(),
             fields: Fields::Named({
                 let EachFieldTy = EachFieldTy();
-                let each_field_name = (0_u8..).zip(fields).map(|(i, f)| {
-                    match f.ident {
-                        | Some(ref ident) => ident.clone(),
-                        | None => format_ident!("_{}", i),
-                    }
-                });
+                let each_field_name = each_field_name();
                 let each_field_docs = fields.iter().map(|f| {
                     docs_of(&f.attrs).vec()
                 });
-- 
2.43.0


From df095bcabe8ec2ac57880a365eb5eb68365489ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 14/36] fix: raw identifiers lose their `r#` in headers and
 export names

---
 src/proc_macro/_mod.rs                   | 1 +
 src/proc_macro/derives/c_type/struct_.rs | 4 ++--
 src/proc_macro/derives/repr_c/enum_.rs   | 4 ++--
 src/proc_macro/derives/repr_c/struct_.rs | 4 ++--
 src/proc_macro/ffi_export/const_.rs      | 2 +-
 src/proc_macro/ffi_export/fn_/mod.rs     | 5 +++--
 6 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/proc_macro/_mod.rs b/src/proc_macro/_mod.rs
index e7e2f79..4ca9628 100644
--- a/src/proc_macro/_mod.rs
+++ b/src/proc_macro/_mod.rs
@@ -24,6 +24,7 @@ use {
         ToTokens,
     },
     ::syn::{*,
+        ext::IdentExt,
         parse::{
             Parse,
             Parser,
diff --git a/src/proc_macro/derives/c_type/struct_.rs b/src/proc_macro/derives/c_type/struct_.rs
index 5982831..409eee4 100644
--- a/src/proc_macro/derives/c_type/struct_.rs
+++ b/src/proc_macro/derives/c_type/struct_.rs
@@ -83,7 +83,7 @@ fn derive (
         ;
         let ref StructName_str =
             args.rename.map_or_else(
-                || StructName.to_string().into_token_stream(),
+                || StructName.unraw().to_string().into_token_stream(),
                 ToTokens::into_token_stream,
             )
         ;
@@ -115,7 +115,7 @@ fn derive (
                 let ref field_docs = utils::extract_docs(&f.attrs)?;
                 let ref field_name_str = f.ident.as_ref().map_or_else(
                     || format!("_{i}"),
-                    Ident::to_string,
+                    |ident| ident.unraw().to_string(),
                 );
                 let FieldTy = &f.ty;
                 quote!(
diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index 9d998b2..8907fab 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -131,14 +131,14 @@ fn derive (
 
         let ref EnumName_str =
             args.rename.map_or_else(
-                || EnumName.to_string().into_token_stream(),
+                || EnumName.unraw().to_string().into_token_stream(),
                 ToTokens::into_token_stream,
             )
         ;
         let ref each_enum_variant =
             variants.try_vmap(|v| Result::Ok({
                 let VariantName @ _ = &v.ident;
-                let ref VariantName_str = v.ident.to_string();
+                let ref VariantName_str = v.ident.unraw().to_string();
                 let discriminant = if v.discriminant.is_some() {
                     // The value itself rather than the expression: the latter, once out of the
                     // `enum` definition, need not be inferred to be of type `#Int`.
diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 4c84c65..fc4e23b 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -127,7 +127,7 @@ fn derive (
         };
 
         let rename = args.rename.unwrap_or_else(|| {
-            let s = StructName.to_string();
+            let s = StructName.unraw().to_string();
             parse_quote!(#s)
         });
 
@@ -469,7 +469,7 @@ fn derive_opaque (
                     #ඞ::From::from(#string_expr)
                 ),
                 | None => {
-                    let ref StructName_str = StructName.to_string();
+                    let ref StructName_str = StructName.unraw().to_string();
                     let EachGenericParam = generics.type_params().map(|p| &p.ident);
                     quote!(
                         let mut _ret =
diff --git a/src/proc_macro/ffi_export/const_.rs b/src/proc_macro/ffi_export/const_.rs
index 93ab257..ba22a42 100644
--- a/src/proc_macro/ffi_export/const_.rs
+++ b/src/proc_macro/ffi_export/const_.rs
@@ -63,7 +63,7 @@ fn handle (
 
 
         let VAR @ _ = &input.ident;
-        let VAR_str @ _ = &VAR.to_string();
+        let VAR_str @ _ = &VAR.unraw().to_string();
         let Ty @ _ = &input.ty;
         let ref each_doc = utils::extract_docs(&input.attrs)?;
         let skip_type = untyped.is_some();
diff --git a/src/proc_macro/ffi_export/fn_/mod.rs b/src/proc_macro/ffi_export/fn_/mod.rs
index d931645..133fb8c 100644
--- a/src/proc_macro/ffi_export/fn_/mod.rs
+++ b/src/proc_macro/ffi_export/fn_/mod.rs
@@ -48,7 +48,7 @@ fn handle (
         } else {
             storage.get_or_insert(
                 LitStr::new(
-                    &fun.sig.ident.to_string(),
+                    &fun.sig.ident.unraw().to_string(),
                     fun.sig.ident.span(),
                 )
             )
@@ -357,6 +357,7 @@ fn handle (
         };
         let ref EachArgTy @ _ = arg_tys(&fun).vec();
         let each_doc = utils::extract_docs(&fun.attrs)?;
+        let each_arg_name = each_arg.iter().map(|arg| arg.unraw().to_string());
         let (generics, _, where_clause) = fun.sig.generics.split_for_impl();
         ret.extend(quote!(
             #[cfg(not(target_arch = "wasm32"))]
@@ -396,7 +397,7 @@ fn handle (
                                 &[
                                     #(
                                         #ඞ::FunctionArg {
-                                            name: #ඞ::stringify!(#each_arg),
+                                            name: #each_arg_name,
                                             ty: &#ඞ::PhantomData::<
                                                 #ඞ::CLayoutOf<#EachArgTy>,
                                             >,
-- 
2.43.0


From 9f56a210029867bd12596ecbcc226049abc8c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:53 +0000
Subject: [PATCH 15/36] fix: docs containing `*/` no longer end the comment of
 the C header

---
 src/headers/languages/c.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/headers/languages/c.rs b/src/headers/languages/c.rs
index 4082680..825041e 100644
--- a/src/headers/languages/c.rs
+++ b/src/headers/languages/c.rs
@@ -23,6 +23,8 @@ impl HeaderLanguage for C {
         out!(("/** \\brief"));
         for line in docs.iter().copied().map(str::trim) {
             let sep = if line.is_empty() { "" } else { "  " };
+            // The docs must not end the comment they are in.
+            let line = line.replace("*/", "*\\/");
             out!((" *{sep}{line}"));
         }
         out!((" */"));
-- 
2.43.0


From 7b0c1bf05a457a2d4e4154dcf141ba771b19809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 16/36] fix: transparent newtypes have the layout of their
 field even after a marker

With a `PhantomData` first, the type had the layout of `void`.
---
 src/proc_macro/derives/repr_c/struct_.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index fc4e23b..71386a5 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -231,7 +231,15 @@ fn derive_transparent (
 
     let mut ret = quote!();
 
-    let FieldTy = match fields.iter().next() {
+    let is_marker = |f: &&Field| match &f.ty {
+        | Type::Path(path) => {
+            path.path.segments.last().map_or(false, |it| it.ident == "PhantomData")
+        },
+        | Type::Tuple(tuple) => tuple.elems.is_empty(),
+        | _ => false,
+    };
+    // The markers may come first, and yet are not what the layout is that of.
+    let FieldTy = match fields.iter().find(|f| is_marker(f).not()).or(fields.iter().next()) {
         | Some(f) => &f.ty,
         | None => bail! {
             "`#[repr(transparent)]` requires at least one field" => fields,
-- 
2.43.0


From f8cd2c4e987791ebdbd9c158061ec0cd2325a739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:51 +0000
Subject: [PATCH 17/36] fix: declarations of function pointers: no unused
 import

---
 src/layout/impls.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index a3ab360..f83258f 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -299,14 +299,14 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                use fmt::Write;
                 // The declarator goes *within* the return type, which may be a
                 // function pointer itself.
                 let mut declarator = format!("(*{})(", var_name);
                 let _empty = true; $(
                 let _empty = false;
-                write!(declarator, "{}", $An::name(&crate::headers::languages::C))?; $(
-                write!(declarator, ", {}", $Ai::name(&crate::headers::languages::C))?; )*)?
+                declarator.push_str(&$An::name(&crate::headers::languages::C)); $(
+                declarator.push_str(", ");
+                declarator.push_str(&$Ai::name(&crate::headers::languages::C)); )*)?
                 if _empty {
                     declarator.push_str("void");
                 }
-- 
2.43.0


From b19f15ddaae54daf9665f88f855fac95554a39c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 18/36] fix: null is not a valid `Out`

`Out<'out, T>` is a transparent wrapper around a `NonNull`, and
`Option<Out<'out, T>>` uses its null niche, yet its `is_valid` accepted null.
---
 src/layout/impls.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index f83258f..8225d34 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -1031,6 +1031,7 @@ impl_ReprC_for! { unsafe {
     @for['out, T : 'out + Sized + ReprC]
     Out<'out, T>
         => |ref it: *mut T::CLayout| {
+            it.is_null().not() &&
             (*it as usize) % ::core::mem::align_of::<T>() == 0
         },
 }}
-- 
2.43.0


From e47c2901857b0b0c75032717d8ea3a42f07cb505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:41 +0000
Subject: [PATCH 19/36] fix: transparent callback newtypes may name their field

The derive accepted `struct Cb { pub f: extern "C" fn() }` but generated
code for `.0`.
---
 src/proc_macro/derives/handle_fptr.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/derives/handle_fptr.rs b/src/proc_macro/derives/handle_fptr.rs
index 78eef86..00da282 100644
--- a/src/proc_macro/derives/handle_fptr.rs
+++ b/src/proc_macro/derives/handle_fptr.rs
@@ -122,6 +122,10 @@ fn try_handle_fptr (
             },
         };
 
+        let field: ::syn::Member = match fields.iter().next().unwrap().ident {
+            | Some(ref name) => name.clone().into(),
+            | None => 0.into(),
+        };
         let (intro, fwd, where_) = input.generics.split_for_impl();
         let mut ret = quote!(
             #[allow(nonstandard_style)]
@@ -141,7 +145,7 @@ fn try_handle_fptr (
                 fn deref (self: &'_ #StructName #fwd)
                   -> &'_ Self::Target
                 {
-                    &self.0
+                    &self.#field
                 }
             }
         );
@@ -265,6 +269,10 @@ fn try_handle_fptr (
                 | Fields::Unnamed(FieldsUnnamed {
                     unnamed: ref mut it,
                     ..
+                })
+                | Fields::Named(FieldsNamed {
+                    named: ref mut it,
+                    ..
                 }) => it,
                 | _ => unreachable!(),
             };
-- 
2.43.0


From ffe81db1c4fb27b37a14a21876488a623f1ee323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 20/36] fix: stable headers keep exports that share their name

The exports were collected in a map keyed by their name, so a type and a
function of the same name (or constants of different modules) silently lost
all but one of them.
---
 src/headers/_mod.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index 311cde2..98cc6ed 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -401,15 +401,20 @@ impl Builder<'_, WhereTo> {
         ;
         let (mut storage0, mut storage1) = (None, None);
         let gen_defs: &mut dyn Iterator<Item = _> = if stable_header {
-            storage0.get_or_insert(
-                crate::inventory::iter
-                    .into_iter()
-                    .map(|crate::FfiExport { name, gen_def }| (name, gen_def))
-                    // Sort the definitions for a reliable header generation.
-                    .collect::<::std::collections::BTreeMap<_, _>>()
+            storage0.get_or_insert({
+                let mut exports =
+                    crate::inventory::iter
+                        .into_iter()
+                        .collect::<rust::Vec<_>>()
+                ;
+                // Sort the definitions for a reliable header generation.
+                // (without losing exports that share their name, such as a
+                // type and a function).
+                exports.sort_by_key(|crate::FfiExport { name, .. }| *name);
+                exports
                     .into_iter()
-                    .map(|(_, gen_def)| gen_def)
-            )
+                    .map(|crate::FfiExport { gen_def, .. }| gen_def)
+            })
         } else {
             storage1.get_or_insert(
                 crate::inventory::iter
-- 
2.43.0


From 16e8fb5006aba66c518610cde218fbf2ea05e92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:18 +0000
Subject: [PATCH 21/36] fix: exporting two constants of the same name is an
 error, as for functions

---
 src/proc_macro/ffi_export/const_.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/proc_macro/ffi_export/const_.rs b/src/proc_macro/ffi_export/const_.rs
index ba22a42..e7e8318 100644
--- a/src/proc_macro/ffi_export/const_.rs
+++ b/src/proc_macro/ffi_export/const_.rs
@@ -79,6 +79,18 @@ fn handle (
                         definer: &'_ mut dyn #ඞ::Definer,
                         lang: #ඞ::Language,
                     | {
+                        if ! definer.insert(#VAR_str) {
+                            return #ඞ::result::Result::Err(
+                                #ඞ::io::Error::new(
+                                    #ඞ::io::ErrorKind::AlreadyExists,
+                                    #ඞ::concat!(
+                                        "Error, attempted to declare `",
+                                        #VAR_str,
+                                        "` while another declaration already exists",
+                                    ),
+                                )
+                            );
+                        }
                         #krate::__with_cfg_python__!(|$if_cfg_python| {
                             use #krate::headers::{
                                 Language,
-- 
2.43.0


From d71a7066c9d33f8dbea7d2b46078e33b2fc96a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 22/36] fix: C# constants of type float have the f suffix

---
 src/headers/languages/csharp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index 77246d2..b5173b0 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -260,8 +260,10 @@ impl HeaderLanguage for CSharp {
         if let _ = indent.scope() {
             self.emit_docs(ctx, docs, indent)?;
             let ty = ty.name(self);
+            // Otherwise the literal is a `double`, which does not coerce.
+            let suffix = if ty == "float" { "f" } else { "" };
             out!((
-                "public const {ty} {name} = {value:?};"
+                "public const {ty} {name} = {value:?}{suffix};"
             ));
         }
         out!(("}}"));
-- 
2.43.0


From 2ad5b52d64f6b95fd769a33bfc8f64bfcccb8f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:20 +0000
Subject: [PATCH 23/36] fix: C declarations of pointers to function pointers

They read `uint16_t (*)(uint8_t) const * x`, which is no C.
---
 src/layout/impls.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 8225d34..d6490c6 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -623,12 +623,12 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} const *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                let sep = if var_name.is_empty() { "" } else { " " };
+                // `T` may be a function pointer, whose declarator goes within.
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!("const *{sep}{var_name}"),
+                ))
             }
 
             __cfg_csharp__! {
@@ -690,12 +690,12 @@ const _: () = { macro_rules! impl_CTypes {
                 var_name: &'_ str,
             ) -> fmt::Result
             {
-                write!(fmt,
-                    "{} *{sep}{}",
-                    T::name(&crate::headers::languages::C),
-                    var_name,
-                    sep = if var_name.is_empty() { "" } else { " " },
-                )
+                let sep = if var_name.is_empty() { "" } else { " " };
+                // `T` may be a function pointer, whose declarator goes within.
+                fmt.write_str(&T::name_wrapping_var(
+                    &crate::headers::languages::C,
+                    &format!("*{sep}{var_name}"),
+                ))
             }
 
             __cfg_csharp__! {
-- 
2.43.0


From 14a36d7259f7a43e729aae9640997a8ee25bac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 24/36] fix: every line of multi-line docs is commented out in
 C#

---
 src/headers/languages/csharp.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/headers/languages/csharp.rs b/src/headers/languages/csharp.rs
index b5173b0..f6cdcaf 100644
--- a/src/headers/languages/csharp.rs
+++ b/src/headers/languages/csharp.rs
@@ -21,7 +21,9 @@ impl HeaderLanguage for CSharp {
         }
 
         out!(("/// <summary>"));
-        for mut line in docs.iter().copied().map(str::trim) {
+        // (a single doc attribute may span several lines: `/** … */`)
+        let lines = docs.iter().flat_map(|doc| doc.split('\n'));
+        for mut line in lines.map(str::trim) {
             let mut storage = None;
             if line.contains('`') {
                 let s = storage.get_or_insert_with(rust::String::new);
-- 
2.43.0


From 6d6db3e3398ef21853837f3b2565ad159f15350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 25/36] fix: Python headers define the types behind pointers,
 arrays and functions in their own dialect

Those were defined as in C headers, with preprocessor directives that cffi
does not accept.
---
 src/layout/_mod.rs  | 12 +++++++++++-
 src/layout/impls.rs | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/layout/_mod.rs b/src/layout/_mod.rs
index e9f0f5c..34b1e30 100644
--- a/src/layout/_mod.rs
+++ b/src/layout/_mod.rs
@@ -129,7 +129,7 @@ impl<T : LegacyCType> CType for T {
                 },
                 #[cfg(feature = "python-headers")]
                 | _case if language.is::<Python>() => {
-                    <Self as LegacyCType>::c_define_self(definer)
+                    <Self as LegacyCType>::python_define_self(definer)
                 },
                 | _ => unimplemented!(),
             }
@@ -405,6 +405,16 @@ unsafe trait LegacyCType
         //     Self::define_self(&C, definer)
         // }
 
+        /// Same as [`LegacyCType::c_define_self`]`()`, for Python (`cffi`): to
+        /// be overridden by types made of types whose Python definition
+        /// differs from the C one.
+        #[cfg(feature = "python-headers")]
+        fn python_define_self (definer: &'_ mut dyn Definer)
+          -> io::Result<()>
+        {
+            Self::c_define_self(definer)
+        }
+
         // #[inline]
         // fn define_self__impl (
         //     language: &'_ dyn HeaderLanguage,
diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index d6490c6..83dc7b7 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -135,6 +135,15 @@ const _: () = { macro_rules! impl_CTypes {
                 )
             }
 
+            #[cfg(feature = "python-headers")]
+            fn python_define_self (definer: &'_ mut dyn Definer)
+              -> io::Result<()>
+            {
+                Item::define_self(&crate::headers::languages::Python, definer)?;
+                // `Item` being defined, what remains is the same as in C.
+                Self::c_define_self(definer)
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -294,6 +303,16 @@ const _: () = { macro_rules! impl_CTypes {
                 Ok(())
             }
 
+            #[cfg(feature = "python-headers")]
+            fn python_define_self (definer: &'_ mut dyn Definer)
+              -> io::Result<()>
+            {
+                Ret::define_self(&crate::headers::languages::Python, definer)?; $(
+                $An::define_self(&crate::headers::languages::Python, definer)?; $(
+                $Ai::define_self(&crate::headers::languages::Python, definer)?; )*)?
+                Ok(())
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -618,6 +637,13 @@ const _: () = { macro_rules! impl_CTypes {
                 T::define_self(&crate::headers::languages::C, definer)
             }
 
+            #[cfg(feature = "python-headers")]
+            fn python_define_self (definer: &'_ mut dyn Definer)
+              -> io::Result<()>
+            {
+                T::define_self(&crate::headers::languages::Python, definer)
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
@@ -685,6 +711,13 @@ const _: () = { macro_rules! impl_CTypes {
                 T::define_self(&crate::headers::languages::C, definer)
             }
 
+            #[cfg(feature = "python-headers")]
+            fn python_define_self (definer: &'_ mut dyn Definer)
+              -> io::Result<()>
+            {
+                T::define_self(&crate::headers::languages::Python, definer)
+            }
+
             fn c_var_fmt (
                 fmt: &'_ mut fmt::Formatter<'_>,
                 var_name: &'_ str,
-- 
2.43.0


From f1b52a3c6e11a8891a2fa34d16d545538822f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:13 +0000
Subject: [PATCH 26/36] fix: exported async functions can be renamed

---
 src/proc_macro/ffi_export/fn_/async_fn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/ffi_export/fn_/async_fn.rs b/src/proc_macro/ffi_export/fn_/async_fn.rs
index 00a98c4..b88f346 100644
--- a/src/proc_macro/ffi_export/fn_/async_fn.rs
+++ b/src/proc_macro/ffi_export/fn_/async_fn.rs
@@ -318,8 +318,11 @@ fn export (
         let pub_ = &fun.vis;
         let each_attr = &fun.attrs;
         fun_signature.asyncness = None;
+        let rename = rename.iter().map(|Rename { new_name, .. }| quote!(
+            rename = #new_name
+        ));
         quote!(
-            #[::safer_ffi::ffi_export]
+            #[::safer_ffi::ffi_export( #(#rename)* )]
             #(#each_attr)*
             #pub_ #fun_signature
             {
-- 
2.43.0


From 1415c71c534050f8de047e4c172a0c48db15467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 27/36] fix: deserializing Bytes does not trust announced
 lengths

---
 src/bytes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index dd0396b..ad1b49e 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -852,7 +852,8 @@ impl<'de> serde::de::Visitor<'de> for BytesVisitor {
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut buf = Vec::with_capacity(seq.size_hint().unwrap_or(64));
+        // The hint comes from the (untrusted) data: do not allocate arbitrarily much up front.
+        let mut buf = Vec::with_capacity(seq.size_hint().unwrap_or(64).min(4096));
 
         while let Some(c) = seq.next_element::<u8>()? {
             buf.push(c);
-- 
2.43.0


From 79f68ae28d3af3f5f217c0407a3d314f9751be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 28/36] fix: boxed slices are formatted as the slice they show

---
 src/slice.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/slice.rs b/src/slice.rs
index a275783..057d857 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -116,7 +116,6 @@ cfg_alloc! {
         /// If you want to support the above typedef, but where the `ptr` field is
         /// allowed to be `NULL` (with the contents of `len` then being undefined)
         /// use the `Option< slice_ptr<_> >` type.
-        #[derive(Debug)]
         pub
         struct slice_boxed[T] {
             /// Pointer to the first element (if any).
@@ -199,6 +198,16 @@ cfg_alloc! {
         }
     }
 
+    impl<T : fmt::Debug> fmt::Debug
+        for slice_boxed<T>
+    {
+        fn fmt (self: &'_ Self, fmt: &'_ mut fmt::Formatter<'_>)
+          -> fmt::Result
+        {
+            <[T] as fmt::Debug>::fmt(self, fmt)
+        }
+    }
+
     impl<T> Drop
         for slice_boxed<T>
     {
-- 
2.43.0


From 5210d70e7cdaa672074c4ffc5f876f022dfb42d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 29/36] fix: derive_ReprC: look at each #[repr], and refuse
 what would not have the layout of its C counterpart
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Only the first of several #[repr(…)] attributes was looked at, so that a
`#[repr(C)] #[repr(packed)]` struct or a `#[repr(C)] #[repr(u8)]` enum were
transmuted from a C type of another layout. So were #[repr(C)] enums whose
discriminants do not fit in a c_int, structs with a field #[cfg]-ed out, and
transparent structs starting with a zero-sized type.
---
 src/proc_macro/derives/_mod.rs        | 28 +++++++++++++++------
 src/proc_macro/derives/repr_c/_mod.rs | 36 +++++++++++++++++++++++++++
 2 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/src/proc_macro/derives/_mod.rs b/src/proc_macro/derives/_mod.rs
index ec90727..4389e95 100644
--- a/src/proc_macro/derives/_mod.rs
+++ b/src/proc_macro/derives/_mod.rs
@@ -99,14 +99,26 @@ fn derive_ReprC (
         ),
         input,
     )?;
-    if let Some(attr) = attrs.iter_mut().find(|a| a.path.is_ident("repr")) {
-        let mut idents =
-            attr.parse_args_with(
-                    Punctuated::<Ident, Token![,]>::parse_terminated,
-                )
-                .unwrap()
-                .vec()
-        ;
+    if let Some(first) = attrs.iter().position(|a| a.path.is_ident("repr")) {
+        // `#[repr(A)] #[repr(B)]` is `#[repr(A, B)]`: none of these may go unnoticed.
+        let mut idents = Vec::new();
+        for attr in attrs.iter().filter(|a| a.path.is_ident("repr")) {
+            let each_ident = attr.parse_args_with(
+                Punctuated::<Ident, Token![,]>::parse_terminated,
+            )?;
+            for ident in each_ident {
+                if idents.contains(&ident).not() {
+                    idents.push(ident);
+                }
+            }
+        }
+        let mut i = 0;
+        attrs.retain(|a| {
+            let keep = i <= first || a.path.is_ident("repr").not();
+            i += 1;
+            keep
+        });
+        let attr = &mut attrs[first];
         if let Some(i) =
             idents
                 .iter()
diff --git a/src/proc_macro/derives/repr_c/_mod.rs b/src/proc_macro/derives/repr_c/_mod.rs
index c248539..90b1958 100644
--- a/src/proc_macro/derives/repr_c/_mod.rs
+++ b/src/proc_macro/derives/repr_c/_mod.rs
@@ -24,6 +24,7 @@ fn derive (
     let args: Args = parse2(attrs)?;
 
     let mut input: DeriveInput = parse2(input)?;
+    let same_layout = assert_same_layout(&input);
     if let Some(ret) = super::handle_fptr::try_handle_fptr(&input) {
         return ret;
     }
@@ -59,5 +60,40 @@ fn derive (
         #input
 
         #ret
+
+        #same_layout
+    ))
+}
+
+/// The types of the fields, the discriminants, `#[cfg]`s, _etc._, are not known to the macro: check
+/// that they do not make the C layout be other than that of the item.
+fn assert_same_layout (
+    input: &'_ DeriveInput,
+) -> Option<TokenStream2>
+{
+    #[apply(let_quote)]
+    use ::safer_ffi::ඞ;
+
+    let is_opaque = |attr: &Attribute| {
+        attr.path.is_ident("repr")
+        && matches!(attr.parse_args::<Ident>(), Ok(repr) if repr == "opaque")
+    };
+    // (When generic, it is up to the usage sites.)
+    if  input.attrs.iter().any(is_opaque)
+    ||  input.generics.params.iter().any(|p| matches!(p, GenericParam::Lifetime(_)).not())
+    {
+        return None;
+    }
+    let ItemName @ _ = &input.ident;
+    let each_static = input.generics.params.iter().map(|_| quote!('static));
+    let ref Item @ _ = quote!( #ItemName<#(#each_static),*> );
+    Some(quote!(
+        const _: () = #ඞ::assert!(
+            #ඞ::mem::size_of::<#Item>() == #ඞ::mem::size_of::<#ඞ::CLayoutOf<#Item>>()
+            &&
+            #ඞ::mem::align_of::<#Item>() == #ඞ::mem::align_of::<#ඞ::CLayoutOf<#Item>>()
+            ,
+            "the C layout is not that of this type",
+        );
     ))
 }
-- 
2.43.0


From 26be14ef941b628a160667a02a7ad3fbc7fef0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 30/36] fix: refuse opaque types by value in arrays, function
 pointers and closures

The elements of an array, and the parameters and returned types of function
pointers and of closures, are passed by value: they need a concrete C layout,
as the parameters of exported functions do.
---
 src/closure/arc.rs                    | 60 +++++++++++++--------------
 src/closure/borrowed.rs               | 36 ++++++++--------
 src/closure/boxed.rs                  | 54 ++++++++++++------------
 src/layout/impls.rs                   | 38 ++++++++---------
 src/proc_macro/derives/handle_fptr.rs | 23 ++--------
 5 files changed, 98 insertions(+), 113 deletions(-)

diff --git a/src/closure/arc.rs b/src/closure/arc.rs
index ebeb883..80f62da 100644
--- a/src/closure/arc.rs
+++ b/src/closure/arc.rs
@@ -16,9 +16,9 @@ macro_rules! with_tuple {(
     for
         dyn 'static + Send + Sync + Fn($($A_N $(, $A_k)*)?) -> Ret
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         type CArcWrapped = $ArcDynFn_N <Ret $(, $A_N $(, $A_k)*)?>;
     }
@@ -34,9 +34,9 @@ macro_rules! with_tuple {(
         pub
         struct $ArcDynFn_N [Ret $(, $A_N $(, $A_k)*)?]
         where {
-            Ret : ReprC, $(
-            $A_N : ReprC, $(
-            $A_k : ReprC, )*)?
+            Ret : ConcreteReprC, $(
+            $A_N : ConcreteReprC, $(
+            $A_k : ConcreteReprC, )*)?
         }
         {
             env_ptr: ptr::NonNull<c_void>,
@@ -68,17 +68,17 @@ macro_rules! with_tuple {(
     unsafe impl<Ret $(, $A_N $(, $A_k)*)?> Send
         for $ArcDynFn_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {}
     /// `Arc<dyn Send + Sync + ...> : Sync`
     unsafe impl<Ret $(, $A_N $(, $A_k)*)?> Sync
         for $ArcDynFn_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {}
 
     impl<F, Ret $(, $A_N $(, $A_k)*)?>
@@ -86,9 +86,9 @@ macro_rules! with_tuple {(
     for
         $ArcDynFn_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
         F : Fn( $($A_N $(, $A_k)*)? ) -> Ret,
         F : Send + Sync + 'static,
     {
@@ -103,9 +103,9 @@ macro_rules! with_tuple {(
     impl<Ret $(, $A_N $(, $A_k)*)?>
         $ArcDynFn_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         #[inline]
         pub
@@ -169,9 +169,9 @@ macro_rules! with_tuple {(
     impl<Ret $(, $A_N $(, $A_k)*)?> Drop
         for $ArcDynFn_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         #[inline]
         fn drop (self: &'_ mut Self)
@@ -185,9 +185,9 @@ macro_rules! with_tuple {(
     impl<Ret $(, $A_N $(, $A_k)*)?> Clone
         for $ArcDynFn_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         #[inline]
         fn clone (self: &'_ Self)
@@ -208,9 +208,9 @@ macro_rules! with_tuple {(
     impl<Ret $(, $A_N $(, $A_k)*)?>
         $ArcDynFn_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         #[inline]
         pub
@@ -229,9 +229,9 @@ macro_rules! with_tuple {(
     impl<Ret $(, $A_N $(, $A_k)*)?> fmt::Debug
         for $ArcDynFn_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         fn fmt (self: &'_ Self, fmt: &'_ mut fmt::Formatter<'_>)
           -> fmt::Result
diff --git a/src/closure/borrowed.rs b/src/closure/borrowed.rs
index 00d522f..9c98eeb 100644
--- a/src/closure/borrowed.rs
+++ b/src/closure/borrowed.rs
@@ -20,9 +20,9 @@ macro_rules! with_tuple {(
         pub
         struct $RefDynFnMut_N ['lt, Ret $(, $A_N $(, $A_k)*)?]
         where {
-            Ret : ReprC, $(
-            $A_N : ReprC, $(
-            $A_k : ReprC, )*)?
+            Ret : ConcreteReprC, $(
+            $A_N : ConcreteReprC, $(
+            $A_k : ConcreteReprC, )*)?
         }
         {
             env_ptr: ptr::NonNull<c_void>,
@@ -43,9 +43,9 @@ macro_rules! with_tuple {(
     unsafe impl<Ret $(, $A_N $(, $A_k)*)?> Send
         for $RefDynFnMut_N <'_, Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {}
 
     impl<'lt, F, Ret $(, $A_N $(, $A_k)*)?>
@@ -53,9 +53,9 @@ macro_rules! with_tuple {(
     for
         $RefDynFnMut_N<'lt, Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
         F : Fn( $($A_N $(, $A_k)*)? ) -> Ret,
         F : Send + 'static,
     {
@@ -70,9 +70,9 @@ macro_rules! with_tuple {(
     impl<'lt, Ret $(, $A_N $(, $A_k)*)?>
         $RefDynFnMut_N <'lt, Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         #[inline]
         pub
@@ -110,9 +110,9 @@ macro_rules! with_tuple {(
     impl<Ret $(, $A_N $(, $A_k)*)?>
         $RefDynFnMut_N <'_, Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         #[inline]
         pub
@@ -131,9 +131,9 @@ macro_rules! with_tuple {(
     impl<Ret $(, $A_N $(, $A_k)*)?> fmt::Debug
         for $RefDynFnMut_N <'_, Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         fn fmt (self: &'_ Self, fmt: &'_ mut fmt::Formatter<'_>)
           -> fmt::Result
diff --git a/src/closure/boxed.rs b/src/closure/boxed.rs
index 41e3312..f19f2c6 100644
--- a/src/closure/boxed.rs
+++ b/src/closure/boxed.rs
@@ -15,9 +15,9 @@ macro_rules! with_tuple {(
     for
         dyn 'static + Send + FnMut($($A_N $(, $A_k)*)?) -> Ret
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         type CBoxWrapped = $BoxDynFnMut_N<Ret $(, $A_N $(, $A_k)*)?>;
     }
@@ -33,9 +33,9 @@ macro_rules! with_tuple {(
         pub
         struct $BoxDynFnMut_N [Ret $(, $A_N $(, $A_k)*)?]
         where {
-            Ret : ReprC, $(
-            $A_N : ReprC, $(
-            $A_k : ReprC, )*)?
+            Ret : ConcreteReprC, $(
+            $A_N : ConcreteReprC, $(
+            $A_k : ConcreteReprC, )*)?
         }
         {
             env_ptr: ptr::NonNull<c_void>,
@@ -61,9 +61,9 @@ macro_rules! with_tuple {(
         for
             $BoxDynFnMut_N <Ret $(, $A_N $(, $A_k)*)?>
         where
-            Ret : ReprC, $(
-            $A_N : ReprC, $(
-            $A_k : ReprC, )*)?
+            Ret : ConcreteReprC, $(
+            $A_N : ConcreteReprC, $(
+            $A_k : ConcreteReprC, )*)?
         {}
 
     /// `Box<dyn Send + ...> : Send`
@@ -73,9 +73,9 @@ macro_rules! with_tuple {(
         for
             $BoxDynFnMut_N <Ret $(, $A_N $(, $A_k)*)?>
         where
-            Ret : ReprC, $(
-            $A_N : ReprC, $(
-            $A_k : ReprC, )*)?
+            Ret : ConcreteReprC, $(
+            $A_N : ConcreteReprC, $(
+            $A_k : ConcreteReprC, )*)?
         {}
 
     impl<F, Ret $(, $A_N $(, $A_k)*)?>
@@ -83,9 +83,9 @@ macro_rules! with_tuple {(
     for
         $BoxDynFnMut_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
         F : FnMut( $($A_N $(, $A_k)*)? ) -> Ret,
         F : Send + 'static,
     {
@@ -100,9 +100,9 @@ macro_rules! with_tuple {(
     impl<Ret $(, $A_N $(, $A_k)*)?>
         $BoxDynFnMut_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         #[inline]
         pub
@@ -137,9 +137,9 @@ macro_rules! with_tuple {(
     impl<Ret $(, $A_N $(, $A_k)*)?> Drop
         for $BoxDynFnMut_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         fn drop (self: &'_ mut Self)
         {
@@ -152,9 +152,9 @@ macro_rules! with_tuple {(
     impl<Ret $(, $A_N $(, $A_k)*)?>
         $BoxDynFnMut_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         #[inline]
         pub
@@ -173,9 +173,9 @@ macro_rules! with_tuple {(
     impl<Ret $(, $A_N $(, $A_k)*)?> fmt::Debug
         for $BoxDynFnMut_N <Ret $(, $A_N $(, $A_k)*)?>
     where
-        Ret : ReprC, $(
-        $A_N : ReprC, $(
-        $A_k : ReprC, )*)?
+        Ret : ConcreteReprC, $(
+        $A_N : ConcreteReprC, $(
+        $A_k : ConcreteReprC, )*)?
     {
         fn fmt (self: &'_ Self, fmt: &'_ mut fmt::Formatter<'_>)
           -> fmt::Result
diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index 83dc7b7..b552d48 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -221,7 +221,7 @@ const _: () = { macro_rules! impl_CTypes {
         /// range **from `1` up to `32`, plus a bunch of significant
         /// lengths up to `1024`**.
         unsafe
-        impl<Item : ReprC> ReprC
+        impl<Item : ConcreteReprC> ReprC
             for [Item; $N]
         {
             type CLayout = [Item::CLayout; $N];
@@ -253,9 +253,9 @@ const _: () = { macro_rules! impl_CTypes {
 
         unsafe
         impl<
-            Ret : ReprC, $(
-            $An : ReprC, $(
-            $Ai : ReprC,
+            Ret : ConcreteReprC, $(
+            $An : ConcreteReprC, $(
+            $Ai : ConcreteReprC,
         )*)?> $crate::layout::__HasNiche__
         for
             unsafe extern "C" fn ($($An, $($Ai ,)*)?) -> Ret
@@ -263,9 +263,9 @@ const _: () = { macro_rules! impl_CTypes {
 
         unsafe
         impl<
-            Ret : ReprC, $(
-            $An : ReprC, $(
-            $Ai : ReprC,
+            Ret : ConcreteReprC, $(
+            $An : ConcreteReprC, $(
+            $Ai : ConcreteReprC,
         )*)?> $crate::layout::__HasNiche__
         for
             /*unsafe*/ extern "C" fn ($($An, $($Ai ,)*)?) -> Ret
@@ -411,9 +411,9 @@ const _: () = { macro_rules! impl_CTypes {
         unsafe // Safety: byte-wise the layout is the same, but the safety
                // invariants will still have to be checked at each site.
         impl<
-            Ret : ReprC, $(
-            $An : ReprC, $(
-            $Ai : ReprC,
+            Ret : ConcreteReprC, $(
+            $An : ConcreteReprC, $(
+            $Ai : ConcreteReprC,
         )*)?> ReprC
             for unsafe extern "C" fn ($($An, $($Ai ,)*)?) -> Ret
         {
@@ -435,9 +435,9 @@ const _: () = { macro_rules! impl_CTypes {
         unsafe // Safety: byte-wise the layout is the same, but the safety
                // invariants will still have to be checked at each site.
         impl<
-            Ret : ReprC, $(
-            $An : ReprC, $(
-            $Ai : ReprC,
+            Ret : ConcreteReprC, $(
+            $An : ConcreteReprC, $(
+            $Ai : ConcreteReprC,
         )*)?> ReprC
             for /*unsafe*/ extern "C" fn ($($An, $($Ai ,)*)?) -> Ret
         {
@@ -459,9 +459,9 @@ const _: () = { macro_rules! impl_CTypes {
         // the lack of Niche).
         unsafe // Safety: `Self : ReprC` is not met so this impl never happens
         impl<
-            Ret : ReprC, $(
-            $An : ReprC, $(
-            $Ai : ReprC,
+            Ret : ConcreteReprC, $(
+            $An : ConcreteReprC, $(
+            $Ai : ConcreteReprC,
         )*)?> crate::layout::__HasNiche__
             for /*unsafe*/ /*extern "C"*/ fn ($($An, $($Ai ,)*)?) -> Ret
         where
@@ -476,9 +476,9 @@ const _: () = { macro_rules! impl_CTypes {
         }
         unsafe // Safety: `Self : ReprC` is not met so this impl never happens
         impl<
-            Ret : ReprC, $(
-            $An : ReprC, $(
-            $Ai : ReprC,
+            Ret : ConcreteReprC, $(
+            $An : ConcreteReprC, $(
+            $Ai : ConcreteReprC,
         )*)?> crate::layout::__HasNiche__
             for unsafe /*extern "C"*/ fn ($($An, $($Ai ,)*)?) -> Ret
         where
diff --git a/src/proc_macro/derives/handle_fptr.rs b/src/proc_macro/derives/handle_fptr.rs
index 00da282..9a16be0 100644
--- a/src/proc_macro/derives/handle_fptr.rs
+++ b/src/proc_macro/derives/handle_fptr.rs
@@ -104,7 +104,7 @@ fn try_handle_fptr (
             ඞ::{
                 __HasNiche__,
                 CLayoutOf,
-                // ConcreteReprC,
+                ConcreteReprC,
                 CType,
                 Definer,
                 LegacyCType,
@@ -215,26 +215,11 @@ fn try_handle_fptr (
                         lifetime_params: lifetimes,
                         counter: (0 ..),
                     }.visit_type_mut(ty);
-                    let is_ReprC: WherePredicate = parse_quote!(
+                    let is_concrete: WherePredicate = parse_quote!(
                         for<#(#lifetimes),*>
-                            #ty : #ReprC
+                            #ty : #ConcreteReprC
                     );
-                    // FIXME assert that the types involved are concrete.
-                    // let ty_no_lt = {
-                    //     let mut it = ty.clone();
-                    //     StripLifetimeParams.visit_type_mut(&mut it);
-                    //     it
-                    // };
-                    // let its_CType_is_concrete = parse_quote!(
-                    //     // for<#(#lifetimes),*> < #ty
-                    //     <#ty_no_lt as #ReprC>::CLayout
-                    //     :
-                    //     #LegacyCType<OPAQUE_KIND = #OpaqueKind::Concrete>
-                    // );
-                    // Iterator::chain(
-                        ::core::iter::once(is_ReprC)
-                    //     , ::core::iter::once(its_CType_is_concrete)
-                    // )
+                    ::core::iter::once(is_concrete)
                 })
                 .collect()
         ;
-- 
2.43.0


From 56bddd9b4b3add49d032a4a55ae31abcf056d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:38 +0000
Subject: [PATCH 31/36] fix: ffi_export: refuse zero-sized arguments

They were declared as `void x` in the headers, and could but panic or abort
when converted from C.
---
 src/proc_macro/ffi_export/fn_/mod.rs | 31 ++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/proc_macro/ffi_export/fn_/mod.rs b/src/proc_macro/ffi_export/fn_/mod.rs
index 133fb8c..bd9ac64 100644
--- a/src/proc_macro/ffi_export/fn_/mod.rs
+++ b/src/proc_macro/ffi_export/fn_/mod.rs
@@ -18,6 +18,23 @@ fn concrete_c_type (T @ _: &'_ Type)
     )
 }
 
+/// Replaces the lifetime parameters of the function, since not nameable by the items inside of it.
+struct MakeStatic<'generics> {
+    lifetime_params: &'generics Generics,
+}
+
+impl visit_mut::VisitMut for MakeStatic<'_> {
+    fn visit_lifetime_mut (
+        self: &'_ mut Self,
+        lifetime: &'_ mut Lifetime,
+    )
+    {
+        if self.lifetime_params.lifetimes().any(|it| it.lifetime == *lifetime) {
+            lifetime.ident = Ident::new("static", lifetime.ident.span());
+        }
+    }
+}
+
 pub(in super)
 fn handle (
     args: Args,
@@ -173,7 +190,21 @@ fn handle (
         ඞ,
         layout,
     };
+    let each_arg_is_not_zst = arg_tys(&fun).map(|ArgTy @ _| {
+        let mut ArgTy @ _ = ArgTy.clone();
+        visit_mut::VisitMut::visit_type_mut(
+            &mut MakeStatic { lifetime_params: &fun.sig.generics },
+            &mut ArgTy,
+        );
+        quote_spanned!(ArgTy.span()=>
+            const _: () = #ඞ::assert!(
+                #ඞ::mem::size_of::<#ArgTy>() != 0,
+                "C does not support zero-sized arguments",
+            );
+        )
+    });
     *ffi_fun.block = parse_quote_spanned!(Span::mixed_site()=> {
+        #(#each_arg_is_not_zst)*
         let abort_on_unwind_guard;
         (
             abort_on_unwind_guard = #ඞ::UnwindGuard(#export_name_str),
-- 
2.43.0


From 2d006ebfc9021afeffa7d94cbc727f808ce903d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:03 +0000
Subject: [PATCH 32/36] fix: derive_ReprC: transparent wrappers of opaque
 types, without generics, are opaque types too

---
 src/_lib.rs                           |  1 +
 src/layout/_mod.rs                    | 11 +++++++++++
 src/proc_macro/derives/repr_c/_mod.rs |  7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/src/_lib.rs b/src/_lib.rs
index 17e2ae7..4b838a8 100644
--- a/src/_lib.rs
+++ b/src/_lib.rs
@@ -492,6 +492,7 @@ mod __ {
                 OpaqueKind,
                 ReprC,
                 __HasNiche__,
+                __IsOpaque__,
             },
             prelude::*,
         },
diff --git a/src/layout/_mod.rs b/src/layout/_mod.rs
index 34b1e30..9f122a4 100644
--- a/src/layout/_mod.rs
+++ b/src/layout/_mod.rs
@@ -28,6 +28,17 @@ type_level_enum! {
     }
 }
 
+#[doc(hidden)] /** Not part of the public API */ pub
+trait __IsOpaque__ {
+    const IS_OPAQUE: bool;
+}
+impl __IsOpaque__ for OpaqueKind::Concrete {
+    const IS_OPAQUE: bool = false;
+}
+impl __IsOpaque__ for OpaqueKind::Opaque {
+    const IS_OPAQUE: bool = true;
+}
+
 /// Safety (non-exhaustive list at the moment):
 ///   - `::core::mem::zeroed::<Self>()` must be sound to use.
 pub
diff --git a/src/proc_macro/derives/repr_c/_mod.rs b/src/proc_macro/derives/repr_c/_mod.rs
index 90b1958..f3d1a37 100644
--- a/src/proc_macro/derives/repr_c/_mod.rs
+++ b/src/proc_macro/derives/repr_c/_mod.rs
@@ -89,6 +89,13 @@ fn assert_same_layout (
     let ref Item @ _ = quote!( #ItemName<#(#each_static),*> );
     Some(quote!(
         const _: () = #ඞ::assert!(
+            // (never by value)
+            <
+                <#ඞ::CLayoutOf<#Item> as #ඞ::CType>::OPAQUE_KIND
+                as
+                #ඞ::__IsOpaque__
+            >::IS_OPAQUE
+            ||
             #ඞ::mem::size_of::<#Item>() == #ඞ::mem::size_of::<#ඞ::CLayoutOf<#Item>>()
             &&
             #ඞ::mem::align_of::<#Item>() == #ඞ::mem::align_of::<#ඞ::CLayoutOf<#Item>>()
-- 
2.43.0


From 42faf3e7b771bd71cd72aa812dda33d0f1f5d837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:58 +0000
Subject: [PATCH 33/36] fix: Bytes::noalloc_clone succeeds when the copy can be
 inlined

---
 src/bytes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index ad1b49e..dec0ff2 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -359,7 +359,10 @@ impl<'a> Bytes<'a> {
             // SAFETY: `Bytes` is `Copy` if it is inlined.
             return Some(unsafe { core::ptr::read(self) });
         };
-        let retain = vtable.retain?;
+        let Some(retain) = vtable.retain else {
+            // `Clone` would copy the data, which needs no allocation if it can be inlined.
+            return Self::inline_slice(self.as_slice());
+        };
         unsafe { retain(self.owner, self.capacity) };
         Some(Self {
             start: self.start,
-- 
2.43.0


From 87a7a018546c0950936433bfd2e4f4e4c7f6c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:42 +0000
Subject: [PATCH 34/36] fix: derive_ReprC: structs may have fields that only
 differ in their lifetimes

---
 src/proc_macro/derives/repr_c/struct_.rs      |  2 ++
 .../utils/trait_impl_shenanigans.rs           | 30 +++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/proc_macro/derives/repr_c/struct_.rs b/src/proc_macro/derives/repr_c/struct_.rs
index 71386a5..80b1e9f 100644
--- a/src/proc_macro/derives/repr_c/struct_.rs
+++ b/src/proc_macro/derives/repr_c/struct_.rs
@@ -70,6 +70,7 @@ fn derive (
             ConcreteReprC,
             CLayoutOf,
             ReprC,
+            __assert_concrete__,
         },
     };
 
@@ -167,6 +168,7 @@ fn derive (
                 {
                     let mut _ret = true;
                     #(
+                        #__assert_concrete__::<#EachFieldTy>();
                         if #ඞ::mem::size_of::<#EachFieldTy>() != 0
                         && <#EachFieldTy as #ReprC>::is_valid(
                             &_it.#each_field_name
diff --git a/src/proc_macro/utils/trait_impl_shenanigans.rs b/src/proc_macro/utils/trait_impl_shenanigans.rs
index e840072..0c980d4 100644
--- a/src/proc_macro/utils/trait_impl_shenanigans.rs
+++ b/src/proc_macro/utils/trait_impl_shenanigans.rs
@@ -27,6 +27,33 @@ fn allowing_trivial_bound (
     where_predicate
 }
 
+/// Whether any of the type or const parameters in scope occurs in `ty`.
+fn is_generic (
+    generics: &'_ Generics,
+    ty: &'_ Type,
+) -> bool
+{
+    fn mentions (
+        tokens: TokenStream2,
+        pred: &'_ dyn Fn(&Ident) -> bool,
+    ) -> bool
+    {
+        tokens.into_iter().any(|tt| match tt {
+            | TT::Group(g) => mentions(g.stream(), pred),
+            | TT::Ident(ident) => pred(&ident),
+            | _ => false,
+        })
+    }
+
+    mentions(ty.to_token_stream(), &|ident| generics.params.iter().any(|it| match it {
+        | GenericParam::Type(TypeParam { ident: param, .. })
+        | GenericParam::Const(ConstParam { ident: param, .. })
+        => param == ident,
+
+        | GenericParam::Lifetime(_) => false,
+    }))
+}
+
 pub(in crate)
 fn ctype_generics (
     generics: &'_ Generics,
@@ -52,7 +79,10 @@ fn ctype_generics (
                     #T : #ReprC
                 ))
             ,
+            // Bounds on the other types would be trivial ones, and those differing only in their
+            // lifetimes would make Rust unable to choose between them.
             EachFieldTy
+                .filter(|FieldTy @ _| is_generic(generics, FieldTy))
                 .map(|FieldTy @_ | parse_quote!(
                     #FieldTy : #ConcreteReprC
                 ))
-- 
2.43.0


From 93246b198b16b5ad67386d9e1320e6e13a90a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:55 +0000
Subject: [PATCH 35/36] fix: derive_ReprC(dyn, Clone): traits with generics

---
 src/proc_macro/derives/dyn_trait/_mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/derives/dyn_trait/_mod.rs b/src/proc_macro/derives/dyn_trait/_mod.rs
index afbf06b..92d50b3 100644
--- a/src/proc_macro/derives/dyn_trait/_mod.rs
+++ b/src/proc_macro/derives/dyn_trait/_mod.rs
@@ -395,10 +395,11 @@ fn try_handle_trait (
             }
 
         #(#if_retain
-            impl<#lifetime>
+            impl #intro_trait_generics_and_lt
                 ::safer_ffi::dyn_traits::DynClone
             for
                 dyn #Trait
+            #trait_where_clause
             {
                 fn dyn_clone (this: &#VirtualPtr<Self>)
                   -> #VirtualPtr<Self>
-- 
2.43.0


From cf8d73620ada28623e2e0674f1da8bb5f0867008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:55 +0000
Subject: [PATCH 36/36] fix: derive_ReprC(dyn): Send/Sync supertraits count for
 which pointers may be coerced

---
 src/proc_macro/derives/dyn_trait/_mod.rs      | 14 +++++++++++---
 src/proc_macro/derives/dyn_trait/coercions.rs |  8 +++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/proc_macro/derives/dyn_trait/_mod.rs b/src/proc_macro/derives/dyn_trait/_mod.rs
index 92d50b3..1c9effa 100644
--- a/src/proc_macro/derives/dyn_trait/_mod.rs
+++ b/src/proc_macro/derives/dyn_trait/_mod.rs
@@ -87,7 +87,7 @@ fn try_handle_trait (
         ident: ref TraitName @ _,
         ref generics,
         colon_token: _,
-        supertraits: _,
+        ref supertraits,
         brace_token: _,
         ref mut items,
     } = *trait_;
@@ -248,6 +248,14 @@ fn try_handle_trait (
 
     let send_trait = &squote!( #ඞ::marker::Send );
     let sync_trait = &squote!( #ඞ::marker::Sync );
+    // `dyn Trait : Send` also holds when `Send` is a supertrait of `Trait`, and
+    // so does then `VirtualPtr<dyn Trait> : Send` (ditto for `Sync`).
+    let has_supertrait = |name: &str| supertraits.iter().any(|bound| matches!(
+        *bound,
+        TypeParamBound::Trait(TraitBound { ref path, .. })
+        if path.segments.last().map_or(false, |it| it.ident == name)
+    ));
+    let (super_send, super_sync) = (has_supertrait("Send"), has_supertrait("Sync"));
     for &(is_send, is_sync) in &[
         (false, false),
         (true, true),
@@ -321,8 +329,8 @@ fn try_handle_trait (
             where_clause, trait_where_clause, where_clause_with_mb_clone,
 
             Clone: args.clone.as_ref(),
-            is_send,
-            is_sync,
+            is_send: is_send || super_send,
+            is_sync: is_sync || super_sync,
             has_mut,
             has_pin,
         };
diff --git a/src/proc_macro/derives/dyn_trait/coercions.rs b/src/proc_macro/derives/dyn_trait/coercions.rs
index 066fff6..72ed2cd 100644
--- a/src/proc_macro/derives/dyn_trait/coercions.rs
+++ b/src/proc_macro/derives/dyn_trait/coercions.rs
@@ -33,7 +33,7 @@ impl Coercible {
                 // TODO: handle the `-> dyn Send` case for `&`, by amending
                 // the default `impl_Trait : Send` as `impl_Trait : Sync`.
                 // Until then, just skip that case altogether.
-                e.is_sync == e.is_send
+                e.is_sync || e.is_send.not()
             ),
         }
     }
@@ -291,11 +291,13 @@ match_! {(
         pub
         Clone: Option<&'r super::args::kw::Clone>,
 
-        /// Whether we are dealing with `dyn 'lt + Send + … + Trait` (len 0 or 1).
+        /// Whether we are dealing with `dyn 'lt + Send + … + Trait` (len 0 or 1),
+        /// or with a `Trait : Send`.
         pub
         is_send: bool,
 
-        /// Whether we are dealing with `dyn 'lt + … + Sync + Trait` (len 0 or 1).
+        /// Whether we are dealing with `dyn 'lt + … + Sync + Trait` (len 0 or 1),
+        /// or with a `Trait : Sync`.
         pub
         is_sync: bool,
 
-- 
2.43.0

