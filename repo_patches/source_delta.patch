From 313f8a7b144087b68f14fea0b5eddd8a52baab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 01/14] fix: keep argument expressions together when taking
 their reference

`&a + b` borrows only `a`, so any argument using an operator, cast,
comparison or range failed to compile.
---
 macros/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index a8632fb..0077cf9 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -113,7 +113,7 @@ fn format_args_impl(
     assert!(leftover.is_empty());
     let num_positional_args = positional_args.len();
     let positional_args = positional_args.into_iter();
-    let positional_args = quote! { (#(&#positional_args,)*) };
+    let positional_args = quote! { (#(&(#positional_args),)*) };
     let (named_args_names, named_args_values): (Vec<_>, Vec<_>) = named_args.into_iter().unzip();
     let named_args_names: HashMap<String, usize> = named_args_names
         .into_iter()
@@ -123,7 +123,7 @@ fn format_args_impl(
         .collect();
     let named_args_values = named_args_values.into_iter();
     let named_args_values = quote! {
-        (#(&#named_args_values,)*)
+        (#(&(#named_args_values),)*)
     };
     let mut implicit_named_args_values = Vec::new();
     let mut used_positional_args = HashSet::new();
-- 
2.43.0


From e733bd3a03ab853602c76bebc30fde18fd2be852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 02/14] fix: clear bold or faint before switching to the other
 in ANSI output

SGR 1 and 2 are independent attributes on cumulative terminals (xterm, VTE,
...), emitting one after the other showed the text as both bold and faint.
---
 ansi/src/ansi.rs |  3 ++-
 ansi/src/io.rs   |  3 ++-
 ansi/src/util.rs | 14 +++++++++-----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ansi/src/ansi.rs b/ansi/src/ansi.rs
index 899e015..6acef11 100644
--- a/ansi/src/ansi.rs
+++ b/ansi/src/ansi.rs
@@ -59,7 +59,8 @@ impl<T: fmt::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|intensity| util::intensity(self.current.intensity, intensity)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/io.rs b/ansi/src/io.rs
index d54e5be..f60db38 100644
--- a/ansi/src/io.rs
+++ b/ansi/src/io.rs
@@ -61,7 +61,8 @@ impl<T: std::io::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|intensity| util::intensity(self.current.intensity, intensity)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/util.rs b/ansi/src/util.rs
index fd7fbca..b76f36b 100644
--- a/ansi/src/util.rs
+++ b/ansi/src/util.rs
@@ -50,11 +50,15 @@ pub(crate) fn background(color: Color) -> &'static str {
     }
 }
 
-pub(crate) fn intensity(intensity: Intensity) -> &'static str {
-    match intensity {
-        Intensity::Bold => "1",
-        Intensity::Faint => "2",
-        Intensity::Normal => "22",
+/// Bold and faint accumulate when set after one another, so switching directly
+/// between them has to clear the original one first.
+pub(crate) fn intensity(original: Intensity, new: Intensity) -> &'static str {
+    match (original, new) {
+        (Intensity::Faint, Intensity::Bold) => "22;1",
+        (Intensity::Bold, Intensity::Faint) => "22;2",
+        (_, Intensity::Bold) => "1",
+        (_, Intensity::Faint) => "2",
+        (_, Intensity::Normal) => "22",
         _ => "22",
     }
 }
-- 
2.43.0


From 5cbe7eb83388b8b8132f684f4e77fe2b81f21652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 03/14] fix: let default and normal attributes override an
 outer style

The attributes were reduced to their difference from the default style, so
explicitly resetting a component inside an outer style was ignored.
---
 macros/src/format.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 896a3eb..a72b7c7 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -9,7 +9,7 @@ use nom::{
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
-use stylish_style::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};
+use stylish_style::{Color, Intensity, StyleDiff};
 
 fn identifier(input: &str) -> IResult<&str, &str> {
     recognize(pair(
@@ -48,19 +48,25 @@ impl<'a> Parse<'a> for Intensity {
     }
 }
 
-impl<'a> Parse<'a> for Box<dyn Restyle> {
-    #[allow(trivial_casts)]
+#[derive(Debug, Clone, Copy)]
+enum Attribute {
+    Foreground(Color),
+    Background(Color),
+    Intensity(Intensity),
+}
+
+impl<'a> Parse<'a> for Attribute {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         alt((
             map(
                 preceded(tag("fg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Foreground(color)) as _,
+                Self::Foreground,
             ),
             map(
                 preceded(tag("bg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Background(color)) as _,
+                Self::Background,
             ),
-            map(Intensity::parse, |intensity| Box::new(intensity) as _),
+            map(Intensity::parse, Self::Intensity),
         ))(input)
     }
 }
@@ -70,11 +76,17 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(<Box<dyn Restyle>>::parse)),
-            |restyles| {
-                Style::default()
-                    .with(restyles.as_slice())
-                    .diff_from(Style::default())
+            separated_list0(tag(","), cut(Attribute::parse)),
+            |attributes| {
+                let mut diff = StyleDiff::default();
+                for attribute in attributes {
+                    match attribute {
+                        Attribute::Foreground(color) => diff.foreground = Some(color),
+                        Attribute::Background(color) => diff.background = Some(color),
+                        Attribute::Intensity(intensity) => diff.intensity = Some(intensity),
+                    }
+                }
+                diff
             },
         )(input)
     }
-- 
2.43.0


From 3fc23cdb62edc77dfb6b1a53a2c21fb02155daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 04/14] fix: accept empty attribute lists and trailing commas
 as documented

The documented grammar is '(' [attribute [',' attribute]* [',']] ')'.
---
 macros/src/format.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index a72b7c7..ce1a374 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{anychar, char, digit1, none_of, satisfy},
     combinator::{all_consuming, cut, map, map_res, opt, recognize, value},
-    multi::{many0, many1, separated_list0},
+    multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
@@ -76,10 +76,13 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(Attribute::parse)),
+            opt(terminated(
+                separated_list1(tag(","), Attribute::parse),
+                opt(tag(",")),
+            )),
             |attributes| {
                 let mut diff = StyleDiff::default();
-                for attribute in attributes {
+                for attribute in attributes.unwrap_or_default() {
                     match attribute {
                         Attribute::Foreground(color) => diff.foreground = Some(color),
                         Attribute::Background(color) => diff.background = Some(color),
@@ -197,7 +200,7 @@ impl<'a> Parse<'a> for FormatSpec<'a> {
         let (input, zero) = opt(value(true, tag("0")))(input)?;
         let (input, width) = opt(Count::parse)(input)?;
         let (input, precision) = opt(preceded(tag("."), Count::parse))(input)?;
-        let (input, style) = opt(delimited(tag("("), cut(StyleDiff::parse), tag(")")))(input)?;
+        let (input, style) = opt(delimited(tag("("), cut(StyleDiff::parse), cut(tag(")"))))(input)?;
         let (input, debug_hex_and_format_trait) = opt(alt((
             value((None, FormatTrait::Debug), tag("?")),
             value((Some(DebugHex::Lower), FormatTrait::Debug), tag("x?")),
-- 
2.43.0


From 3625584f37dfdd169ccda6d7100da2b21838ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 05/14] fix: support the bright colors in format string
 attributes

fg and bg are documented to take any Color value in lowercase.
---
 macros/src/format.rs    | 8 ++++++++
 macros/src/to_tokens.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index ce1a374..c84a2ca 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -33,6 +33,14 @@ impl<'a> Parse<'a> for Color {
             value(Color::Magenta, tag("magenta")),
             value(Color::Cyan, tag("cyan")),
             value(Color::White, tag("white")),
+            value(Color::BrightBlack, tag("brightblack")),
+            value(Color::BrightRed, tag("brightred")),
+            value(Color::BrightGreen, tag("brightgreen")),
+            value(Color::BrightYellow, tag("brightyellow")),
+            value(Color::BrightBlue, tag("brightblue")),
+            value(Color::BrightMagenta, tag("brightmagenta")),
+            value(Color::BrightCyan, tag("brightcyan")),
+            value(Color::BrightWhite, tag("brightwhite")),
             value(Color::Default, tag("default")),
         ))(input)
     }
diff --git a/macros/src/to_tokens.rs b/macros/src/to_tokens.rs
index 5a6d4ea..1b36de9 100644
--- a/macros/src/to_tokens.rs
+++ b/macros/src/to_tokens.rs
@@ -59,6 +59,14 @@ impl<'a> ToTokens for Scoped<'a, Color> {
             Color::Magenta => quote!(#export::Color::Magenta),
             Color::Cyan => quote!(#export::Color::Cyan),
             Color::White => quote!(#export::Color::White),
+            Color::BrightBlack => quote!(#export::Color::BrightBlack),
+            Color::BrightRed => quote!(#export::Color::BrightRed),
+            Color::BrightGreen => quote!(#export::Color::BrightGreen),
+            Color::BrightYellow => quote!(#export::Color::BrightYellow),
+            Color::BrightBlue => quote!(#export::Color::BrightBlue),
+            Color::BrightMagenta => quote!(#export::Color::BrightMagenta),
+            Color::BrightCyan => quote!(#export::Color::BrightCyan),
+            Color::BrightWhite => quote!(#export::Color::BrightWhite),
             Color::Default => quote!(#export::Color::Default),
             color => unreachable!("unknown color {color:?}"),
         }
-- 
2.43.0


From 5e9ce534631d88502a7b21e804ffd20e46c990a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 06/14] fix: reject duplicate named arguments

All but the last one were silently dropped.
---
 macros/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0077cf9..a34598b 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -75,6 +75,9 @@ impl syn::parse::Parse for ArgsInput {
                     } else {
                         panic!()
                     };
+                    if named_args.iter().any(|(name, _)| *name == ident) {
+                        panic!("duplicate argument named `{ident}`")
+                    }
                     named_args.push((ident, *right));
                     onto_named = true;
                 }
-- 
2.43.0


From 15e4c55ac0abe65c827a7e3d6ad356f484dced88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 07/14] fix: match raw identifiers of named arguments against
 the format string

`{type}` can only be given as `r#type = ...`, which was compared including the
prefix and so never found.
---
 macros/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index a34598b..99a5ab6 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -10,6 +10,7 @@ use std::collections::{HashMap, HashSet};
 use proc_macro2::Span;
 use quote::{quote, ToTokens};
 use syn::{
+    ext::IdentExt,
     parse::{ParseStream, Result},
     parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, PathArguments,
     Token,
@@ -71,7 +72,7 @@ impl syn::parse::Parse for ArgsInput {
                 Expr::Assign(ExprAssign { left, right, .. }) if matches!(&*left, Expr::Path(ExprPath { path, .. }) if path.segments.len() == 1 && matches!(path.segments[0].arguments, PathArguments::None)) =>
                 {
                     let ident = if let Expr::Path(ExprPath { mut path, .. }) = *left {
-                        path.segments.pop().unwrap().into_value().ident
+                        path.segments.pop().unwrap().into_value().ident.unraw()
                     } else {
                         panic!()
                     };
-- 
2.43.0


From c80c43e8e84bd1dd388c2a2f5cdb24d67a821c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 08/14] fix: don't write style changes for empty buffers to
 byte sinks

---
 ansi/src/io.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ansi/src/io.rs b/ansi/src/io.rs
index f60db38..3668862 100644
--- a/ansi/src/io.rs
+++ b/ansi/src/io.rs
@@ -54,6 +54,10 @@ impl<T: std::io::Write> Ansi<T> {
 /// write to the underlying stream until the change is completed.
 impl<T: std::io::Write> Write for Ansi<T> {
     fn write(&mut self, s: &[u8], style: Style) -> Result<usize> {
+        if s.is_empty() {
+            return self.inner.write(s);
+        }
+
         if self.current != style && style == Style::default() {
             self.inner.write_all(b"\x1b[0m")?;
         } else {
-- 
2.43.0


From 9a97bc8b18cdc7862a90f1bc43cb9658733d1b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 09/14] fix: attributes in format strings do not depend on
 names in scope

---
 macros/src/to_tokens.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/macros/src/to_tokens.rs b/macros/src/to_tokens.rs
index 1b36de9..37bd606 100644
--- a/macros/src/to_tokens.rs
+++ b/macros/src/to_tokens.rs
@@ -106,20 +106,23 @@ impl<'a> ToTokens for Scoped<'a, StyleDiff> {
             ..
         } = self.as_ref();
         let mut inner = TokenStream::new();
-        quote!(let mut diff = #export::StyleDiff::default();).to_tokens(&mut inner);
+        quote!(let mut __stylish_diff = #export::StyleDiff::default();).to_tokens(&mut inner);
         if let Some(foreground) = foreground {
             let foreground = self.scope(foreground);
-            quote!(diff.foreground = Some(#foreground);).to_tokens(&mut inner);
+            quote!(__stylish_diff.foreground = #export::Option::Some(#foreground);)
+                .to_tokens(&mut inner);
         }
         if let Some(background) = background {
             let background = self.scope(background);
-            quote!(diff.background = Some(#background);).to_tokens(&mut inner);
+            quote!(__stylish_diff.background = #export::Option::Some(#background);)
+                .to_tokens(&mut inner);
         }
         if let Some(intensity) = intensity {
             let intensity = self.scope(intensity);
-            quote!(diff.intensity = Some(#intensity);).to_tokens(&mut inner);
+            quote!(__stylish_diff.intensity = #export::Option::Some(#intensity);)
+                .to_tokens(&mut inner);
         }
-        quote!(diff).to_tokens(&mut inner);
+        quote!(__stylish_diff).to_tokens(&mut inner);
         quote!({ #inner }).to_tokens(tokens);
     }
 }
-- 
2.43.0


From 18c6ca65d77ef661fc75eec09e14002c61a8f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 10/14] fix: format macros do not depend on Default being in
 scope

The expansion called StyleDiff::default() by name, which did not compile in
modules without the prelude, and was ambiguous with traits of the user's that
have a default function for all types.
---
 core/src/lib.rs         | 2 +-
 macros/src/to_tokens.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d88c45d..eb5daaf 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -48,7 +48,7 @@ pub use self::{format::format, string::String};
 #[cfg(feature = "macros")]
 #[doc(hidden)]
 pub mod 𓀄 {
-    pub use core::{fmt, option::Option};
+    pub use core::{default::Default, fmt, option::Option};
 
     pub use stylish_macros::{format_args, format_args_nl};
     pub use with_builtin_macros::with_builtin;
diff --git a/macros/src/to_tokens.rs b/macros/src/to_tokens.rs
index 37bd606..2bc4e6c 100644
--- a/macros/src/to_tokens.rs
+++ b/macros/src/to_tokens.rs
@@ -106,7 +106,8 @@ impl<'a> ToTokens for Scoped<'a, StyleDiff> {
             ..
         } = self.as_ref();
         let mut inner = TokenStream::new();
-        quote!(let mut __stylish_diff = #export::StyleDiff::default();).to_tokens(&mut inner);
+        quote!(let mut __stylish_diff = <#export::StyleDiff as #export::Default>::default();)
+            .to_tokens(&mut inner);
         if let Some(foreground) = foreground {
             let foreground = self.scope(foreground);
             quote!(__stylish_diff.foreground = #export::Option::Some(#foreground);)
-- 
2.43.0


From 259000c3235e39f83c8278ce7840a694f4a119f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 11/14] fix: only plain names are names of arguments

`::a = 1` and `<T>::a = 1` were taken for an argument named `a`.
---
 macros/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 99a5ab6..20c41bd 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -12,8 +12,7 @@ use quote::{quote, ToTokens};
 use syn::{
     ext::IdentExt,
     parse::{ParseStream, Result},
-    parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, PathArguments,
-    Token,
+    parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, Token,
 };
 
 use self::{
@@ -69,7 +68,7 @@ impl syn::parse::Parse for ArgsInput {
             }
             let expr = input.parse::<Expr>()?;
             match expr {
-                Expr::Assign(ExprAssign { left, right, .. }) if matches!(&*left, Expr::Path(ExprPath { path, .. }) if path.segments.len() == 1 && matches!(path.segments[0].arguments, PathArguments::None)) =>
+                Expr::Assign(ExprAssign { left, right, .. }) if matches!(&*left, Expr::Path(ExprPath { attrs, qself: None, path }) if attrs.is_empty() && path.get_ident().is_some()) =>
                 {
                     let ident = if let Expr::Path(ExprPath { mut path, .. }) = *left {
                         path.segments.pop().unwrap().into_value().ident.unraw()
-- 
2.43.0


From 608cd6ca75f88f83195b8b9d52d30c4e706c60aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:45 +0000
Subject: [PATCH 12/14] fix: capture self in format strings

---
 macros/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 20c41bd..827c0ae 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -173,13 +173,15 @@ fn format_args_impl(
                             quote!(__stylish_named_args.#index)
                         } else {
                             let i = implicit_named_args_values.len();
+                            let span = Span::call_site().resolved_at(format_string.span());
                             implicit_named_args_values.push(ExprPath {
                                 attrs: Vec::new(),
                                 qself: None,
-                                path: Ident::new_raw(
-                                    name,
-                                    Span::call_site().resolved_at(format_string.span()),
-                                )
+                                // `self` is never a raw identifier
+                                path: match name {
+                                    "self" => Ident::new(name, span),
+                                    name => Ident::new_raw(name, span),
+                                }
                                 .into(),
                             });
                             let index = Index::from(i);
-- 
2.43.0


From fa0219125457e76559bb76fff794bb0d8cb8a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 13/14] fix: reject widths and precisions that the standard
 formatter can't hold

They were accepted, and displaying the arguments panicked.
---
 macros/src/format.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index c84a2ca..b8ae69c 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -179,7 +179,8 @@ impl<'a> Parse<'a> for Count<'a> {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         alt((
             map(terminated(FormatArgRef::parse, tag("$")), Self::Parameter),
-            map(map_res(digit1, usize::from_str), Self::Integer),
+            // The standard formatter has no place for more
+            map(map_res(digit1, u16::from_str), |i| Self::Integer(i.into())),
         ))(input)
     }
 }
-- 
2.43.0


From ddd1c689ed5d31410880b2b0cc9f7941b7c84425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:10 +0000
Subject: [PATCH 14/14] fix: reject suffixes on format string literals

They were silently ignored, where std's macros reject them.
---
 macros/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 827c0ae..f6a03c6 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -42,9 +42,9 @@ impl syn::parse::Parse for ArgsInput {
             None
         };
         #[cfg(not(stylish_proc_macro_expand))]
-        let format = input.parse()?;
+        let format: LitStr = input.parse()?;
         #[cfg(stylish_proc_macro_expand)]
-        let format = {
+        let format: LitStr = {
             use syn::spanned::Spanned;
             let expr = input.parse::<Expr>()?;
             let span = expr.span();
@@ -58,6 +58,12 @@ impl syn::parse::Parse for ArgsInput {
             }
             syn::parse(expanded)?
         };
+        if !format.suffix().is_empty() {
+            return Err(syn::parse::Error::new(
+                format.span(),
+                "suffixes on string literals are invalid",
+            ));
+        }
         let mut positional_args = Vec::new();
         let mut named_args = Vec::new();
         let mut onto_named = false;
-- 
2.43.0

