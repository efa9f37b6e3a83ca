From e935c96491c14543a86bb4d0620dd41ae2b37385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 01/20] fix: resolve escape sequences in non-raw format string
 literals

The text of non-raw literals was used as it is written in the source, so
"a\nb" looked for a backslash followed by an n, "\u{41}" was seen as a
placeholder and '\"' could not be used in a custom regex.
---
 sscanf_macro/src/derive.rs        |  4 +-
 sscanf_macro/src/format_option.rs | 21 +----------
 sscanf_macro/src/format_string.rs |  2 +-
 sscanf_macro/src/lib.rs           |  2 +-
 sscanf_macro/src/str_lit.rs       | 62 +++++++++++++++++++++++++++++--
 sscanf_macro/src/ty.rs            |  2 +-
 6 files changed, 65 insertions(+), 28 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 5f8d17a..df61e76 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -207,10 +207,10 @@ fn parse_format(
             None => continue,
         };
 
-        let index = if let Some(i) = field_map.get(name.text()) {
+        let index = if let Some(i) = field_map.get(&name.value()) {
             *i
         } else {
-            let msg = if let Ok(n) = name.text().parse::<usize>() {
+            let msg = if let Ok(n) = name.value().parse::<usize>() {
                 // checked in tests/fail/derive_placeholders.rs
                 format!("field index {} out of range of {} fields", n, fields.len())
             } else {
diff --git a/sscanf_macro/src/format_option.rs b/sscanf_macro/src/format_option.rs
index ee8a8e3..baa946c 100644
--- a/sscanf_macro/src/format_option.rs
+++ b/sscanf_macro/src/format_option.rs
@@ -67,25 +67,6 @@ impl<'a> FormatOption<'a> {
                             break;
                         }
                     } else if c == '\\' {
-                        if !src.is_raw() {
-                            let (_, next) = input
-                                .next()
-                                .ok_or_else(|| src.slice(i..).error("unexpected end of regex"))?;
-                            // the above error is probably not possible, since a single \ at
-                            // the end of a non-raw string would escape the closing " and the
-                            // compiler would already complain about that.
-                            // the check is still here just in case
-
-                            if next != '\\' {
-                                // regular escaped char (\n, \t, etc)
-                                if escape.take().is_some() {
-                                    regex.push('\\');
-                                }
-                                regex.push('\\');
-                                regex.push(next);
-                                continue;
-                            }
-                        }
                         if escape.take().is_some() {
                             regex.push('\\');
                             regex.push('\\');
@@ -155,7 +136,7 @@ Either make them non-capturing by adding '?:' after the '(' or remove/escape the
 
         let src = src.slice(start..close_bracket_index);
 
-        let (radix, prefix) = match src.text() {
+        let (radix, prefix) = match src.value().as_str() {
             "#" => {
                 let kind = FormatOptionKind::Hashtag;
                 return Ok((Self { src, kind }, close_bracket_index));
diff --git a/sscanf_macro/src/format_string.rs b/sscanf_macro/src/format_string.rs
index 4f673ca..1f33282 100644
--- a/sscanf_macro/src/format_string.rs
+++ b/sscanf_macro/src/format_string.rs
@@ -12,7 +12,7 @@ impl<'a> FormatString<'a> {
         let mut current_part = String::new();
 
         // keep the iterator as a variable to allow peeking and advancing in a sub-function
-        let mut iter = src.text().char_indices().peekable();
+        let mut iter = src.chars().into_iter().peekable();
 
         while let Some((i, c)) = iter.next() {
             if c == '{' {
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 0340920..78a8334 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -208,7 +208,7 @@ fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream
         external_types: &[Type<'a>],
     ) -> Result<Type<'a>> {
         let n = if let Some(name) = ph.ident.as_ref() {
-            if let Ok(n) = name.text().parse::<usize>() {
+            if let Ok(n) = name.value().parse::<usize>() {
                 if n >= visited.len() {
                     let msg = format!("type index {} out of range of {} types", n, visited.len());
                     return name.err(&msg); // checked in tests/fail/<channel>/invalid_type_in_placeholder.rs
diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index 46c1f81..2f1112d 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -71,8 +71,28 @@ impl<'a> StrLitSlice<'a> {
     pub fn text(&self) -> &str {
         &self.src.text[self.range.clone()]
     }
-    pub fn is_raw(&self) -> bool {
-        self.src.is_raw()
+
+    /// Iterates over the characters in the value of the literal, i.e. with all escape sequences
+    /// resolved. The indices are the byte offsets in [`text`](Self::text), usable for `slice`.
+    pub fn chars(&self) -> Vec<(usize, char)> {
+        let text = self.text();
+        if self.src.is_raw() {
+            return text.char_indices().collect();
+        }
+        let mut chars = vec![];
+        let mut i = 0;
+        while i < text.len() {
+            let (c, len) = unescape_first(&text[i..]);
+            if let Some(c) = c {
+                chars.push((i, c));
+            }
+            i += len;
+        }
+        chars
+    }
+    /// The text of the slice with all escape sequences resolved
+    pub fn value(&self) -> String {
+        self.chars().into_iter().map(|(_, c)| c).collect()
     }
 
     #[track_caller]
@@ -90,7 +110,10 @@ impl<'a> StrLitSlice<'a> {
             Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Included(&n) => n + self.text()[n..].chars().next().unwrap().len_utf8(),
+            Included(&n) if self.src.is_raw() => {
+                n + self.text()[n..].chars().next().unwrap().len_utf8()
+            }
+            Included(&n) => n + unescape_first(&self.text()[n..]).1,
             Excluded(&n) => n,
             Unbounded => self.range.len(),
         };
@@ -155,6 +178,39 @@ impl<'a> StrLitSlice<'a> {
     }
 }
 
+/// Reads the first character or escape sequence in the source text of a non-raw string literal.
+///
+/// Returns the represented char, or `None` if it is a line continuation, and the number of bytes.
+fn unescape_first(text: &str) -> (Option<char>, usize) {
+    let mut chars = text.chars();
+    let first = chars.next().unwrap();
+    if first != '\\' {
+        return (Some(first), first.len_utf8());
+    }
+    // the compiler has already checked that all escape sequences are valid
+    let escape = chars.next().unwrap_or('\\');
+    let from_hex = |hex: &str| {
+        let code = u32::from_str_radix(&hex.replace('_', ""), 16).ok()?;
+        char::from_u32(code)
+    };
+    match escape {
+        'n' => (Some('\n'), 2),
+        'r' => (Some('\r'), 2),
+        't' => (Some('\t'), 2),
+        '0' => (Some('\0'), 2),
+        'x' => (text.get(2..4).and_then(from_hex), 4),
+        'u' => {
+            let len = text.find('}').map_or(text.len(), |end| end + 1);
+            (text.get(3..len - 1).and_then(from_hex), len)
+        }
+        '\n' | '\r' => {
+            let rest = text[1..].trim_start_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r'));
+            (None, text.len() - rest.len())
+        }
+        other => (Some(other), 1 + other.len_utf8()), // '\\', '"' or '\''
+    }
+}
+
 impl Parse for StrLit {
     fn parse(input: ParseStream) -> syn::Result<Self> {
         input.parse().map(Self::new)
diff --git a/sscanf_macro/src/ty.rs b/sscanf_macro/src/ty.rs
index 42b9180..39d6d04 100644
--- a/sscanf_macro/src/ty.rs
+++ b/sscanf_macro/src/ty.rs
@@ -55,7 +55,7 @@ impl<'a> Type<'a> {
     pub fn from_str(src: StrLitSlice<'a>) -> syn::Result<Self> {
         let span = src.span();
 
-        let tokens = src.text().parse::<TokenStream>()?.with_span(span);
+        let tokens = src.value().parse::<TokenStream>()?.with_span(span);
         let mut ty = syn::parse2::<Type>(tokens)?;
         ty.source = TypeSource::Format(src);
         Ok(ty)
-- 
2.43.0


From 60b4ff450c345bf76c3416b967d1aa94c48b25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 02/20] fix: radix options accepted one digit too many

The digit 'a' for r10, 'g' for x, ... up to '{' for r36 matched the regex and
then failed in from_str_radix.
---
 sscanf_macro/src/regex_parts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 8d7db06..fd15227 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -275,9 +275,9 @@ fn regex_from_radix(
     use std::cmp::Ordering::*;
     let possible_chars = match radix.cmp(&10) {
         Less => format!("0-{}", radix - 1),
-        Equal => "0-9a".to_string(),
+        Equal => "0-9".to_string(),
         Greater => {
-            let last_letter = (b'a' + radix - 10) as char;
+            let last_letter = (b'a' + radix - 11) as char;
             format!("0-9a-{}", last_letter)
         }
     };
-- 
2.43.0


From b2c27b8316a7de96d5b066a7d858596cb9cce35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 03/20] fix: radix options accepted non-ASCII letters

Unicode case folding made radix 21 and up match U+212A (kelvin sign) as a 'k'
and radix 29 and up match U+017F (long s) as an 's'.
---
 sscanf_macro/src/regex_parts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index fd15227..f0dbdff 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -291,8 +291,9 @@ fn regex_from_radix(
         f32::ceil(num_digits_binary as f32 / f32::log2(radix as f32)) as u32
     };
 
+    // case-insensitive, but without unicode: `k` would also match the kelvin sign, `s` the long s
     let regex = format!(
-        "(?i:{sign}{prefix}[{digits}]{{1,{n}}})",
+        "(?i-u:{sign}{prefix}[{digits}]{{1,{n}}})",
         sign = sign,
         prefix = prefix_string,
         digits = possible_chars,
-- 
2.43.0


From 9bd743772cbbfef959d5af9929f4a1806c525bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 04/20] fix: FromScanf::from_str has to match the entire input

With a top-level alternation in the regex (e.g. format_unescaped = r"a|b"),
the anchors only applied to the first and last alternative.
---
 src/from_scanf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/from_scanf.rs b/src/from_scanf.rs
index 596840f..aade60a 100644
--- a/src/from_scanf.rs
+++ b/src/from_scanf.rs
@@ -248,7 +248,8 @@ where
     where
         Self: crate::RegexRepresentation,
     {
-        let regex = format!("^{}$", Self::REGEX);
+        // grouped, so that the anchors apply to all alternatives in the regex
+        let regex = format!("^(?:{})$", Self::REGEX);
         #[allow(unused_qualifications)] // would complain about the `crate::` prefix, but we
         // specifically want the bundled regex rather than whatever a user has renamed to `regex`
         let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
-- 
2.43.0


From 90a9fb9b0fb3a14e98b92772637cd863ba540697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 05/20] fix: sscanf_unescaped has to match the entire input

With a top-level alternation in the format string (e.g. "a|b"), the anchors
only applied to the first and last alternative.
---
 sscanf_macro/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 78a8334..5d77f32 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -197,8 +197,14 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
 
 fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream, Vec<Matcher>)> {
     let mut format = FormatString::new(input.fmt.to_slice(), escape_input)?;
-    format.parts[0].insert(0, '^');
-    format.parts.last_mut().unwrap().push('$');
+    if escape_input {
+        format.parts[0].insert(0, '^');
+        format.parts.last_mut().unwrap().push('$');
+    } else {
+        // grouped, so that the anchors apply to all alternatives in the format string
+        format.parts[0].insert_str(0, "^(?:");
+        format.parts.last_mut().unwrap().push_str(")$");
+    }
 
     // inner function to use ?-operator. This should be a closure, but those can't have lifetimes
     fn find_ph_type<'a>(
-- 
2.43.0


From 0c4ba61d9df9bfbc352e44fbc2a94f5c4743f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 06/20] fix: raw identifiers in derived names

autogen used the `r#` of a variant like r#type as part of the text to match and
a field r#type could not be named as {type} in the format string.
---
 sscanf_macro/src/derive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index df61e76..a038447 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -1,5 +1,7 @@
 use std::collections::{HashMap, HashSet};
 
+use syn::ext::IdentExt;
+
 use crate::*;
 
 pub struct Field {
@@ -148,6 +150,7 @@ fn parse_format(
         let mut ty = field.ty;
         let ident = if let Some(ident) = field.ident {
             field_map.insert(ident.to_string(), i);
+            field_map.insert(ident.unraw().to_string(), i); // `{type}` for a field `r#type`
             FieldIdent::Named(ident)
         } else {
             FieldIdent::from_index(i, ty.span())
@@ -432,7 +435,7 @@ pub fn parse_enum(
 Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields or `#[sscanf(skip)]` to skip a variant";
                 return Error::err_spanned(variant.fields, msg); // checked in tests/fail/derive_enum_attributes.rs
             }
-            autogen.create_struct_attr(&variant.ident.to_string(), src.clone())
+            autogen.create_struct_attr(&variant.ident.unraw().to_string(), src.clone())
         } else {
             continue;
         };
-- 
2.43.0


From 2837abdbe10725ec50d55deb9fc2a85f22f6fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 07/20] fix: deriving FromScanf on types that shadow names in
 the generated code

An enum with a variant named Ok, Err or NUM_CAPTURES, or a use of such variants
in the same module, made the derived implementation fail to compile.
---
 sscanf_macro/src/derive.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index a038447..b3a44a7 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -364,8 +364,8 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
         #[automatically_derived]
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
-            const NUM_CAPTURES: usize = #num_captures;
-            fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
+            const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
+            fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, ::sscanf::errors::FromScanfFailedError> {
                 let start_len = src.len();
                 src.next().unwrap(); // skip the whole match
 
@@ -377,13 +377,14 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
                     error,
                 })?;
                 let n = start_len - src.len();
-                if n != Self::NUM_CAPTURES {
+                let expected = <Self as ::sscanf::FromScanf>::NUM_CAPTURES;
+                if n != expected {
                     panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        stringify!(#name), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
-                Ok(res)
+                ::std::result::Result::Ok(res)
             }
         }
     };
@@ -506,11 +507,11 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
 
-            const NUM_CAPTURES: usize = #(#num_captures_list)+*;
+            const NUM_CAPTURES: ::std::primitive::usize = #(#num_captures_list)+*;
 
-            fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, Self::Err> {
+            fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, #lifetime>) -> ::std::result::Result<Self, ::sscanf::errors::FromScanfFailedError> {
                 let start_len = src.len();
-                let mut remaining = Self::NUM_CAPTURES;
+                let mut remaining = <Self as ::sscanf::FromScanf>::NUM_CAPTURES;
                 src.next().unwrap(); // skip the whole match
                 remaining -= 1;
 
@@ -529,13 +530,14 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
                 }
 
                 let n = start_len - src.len();
-                if n != Self::NUM_CAPTURES {
+                let expected = <Self as ::sscanf::FromScanf>::NUM_CAPTURES;
+                if n != expected {
                     panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), Self::NUM_CAPTURES, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        stringify!(#name), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
-                Ok(res)
+                ::std::result::Result::Ok(res)
             }
         }
     };
-- 
2.43.0


From 2b154fc7909ea154e122413d77c5be350f3be1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 08/20] fix: sscanf input was evaluated in the scope of the
 generated REGEX

An input expression using an item called REGEX (e.g. a const) was resolved to
the regex generated by the macro and failed to compile.
---
 sscanf_macro/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 5d77f32..1a559f9 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -167,10 +167,13 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
         // gets an appropriate error message if they try to use a non-string input
         quote! { ::std::primitive::str::get(#param, ..).unwrap() }
     };
+    // the input has to be outside of the block with the REGEX, because the items in a block are
+    // visible in the entire block, so REGEX would shadow any item of that name used by the input
     let ret = quote! {{
-        #regex
         #[allow(clippy::needless_borrow)]
-        let input: &str = #src_str;
+        let input: &::std::primitive::str = #src_str;
+        {
+        #regex
         #[allow(clippy::needless_question_mark)]
         REGEX.captures(input)
             .ok_or_else(|| ::sscanf::errors::Error::MatchFailed)
@@ -191,6 +194,7 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
                 }
                 res
             })
+        }
     }};
     ret.into()
 }
-- 
2.43.0


From 14bc59425def2b4cd0f3092a0120078f5ad6d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 09/20] fix: custom regex that cannot be put into a group is a
 compile error

{str:/(?x)a # comment/} compiled, but then panicked when generating the regex.
---
 sscanf_macro/src/format_option.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/format_option.rs b/sscanf_macro/src/format_option.rs
index baa946c..d81ce8f 100644
--- a/sscanf_macro/src/format_option.rs
+++ b/sscanf_macro/src/format_option.rs
@@ -99,7 +99,14 @@ impl<'a> FormatOption<'a> {
 
                 let src = src.slice(start..=end);
 
-                match regex_syntax::Parser::new().parse(&regex) {
+                // the regex will be put into a group, which is not possible for all valid regexes: an
+                // unfinished comment in verbose mode would include the closing parenthesis
+                let parsed = regex_syntax::Parser::new().parse(&regex).and_then(|hir| {
+                    regex_syntax::Parser::new()
+                        .parse(&format!("(?:{})", regex))
+                        .map(|_| hir)
+                });
+                match parsed {
                     Ok(hir) => {
                         if contains_capture_group(&hir) {
                             let msg = "custom regex cannot contain capture groups '(...)'.
-- 
2.43.0


From 808bf57cedf0383ed71cfe6652b657db89d174e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 10/20] fix: sscanf could not be used with parameters of a
 surrounding macro

With a macro_rules! macro passing its $t:ty or $f:literal on to sscanf!, the
generated code could not find its own variable `src` because of hygiene.
---
 sscanf_macro/src/regex_parts.rs | 11 +++++------
 sscanf_macro/src/utils.rs       | 10 ++++++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index f0dbdff..d27c285 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -97,13 +97,11 @@ impl ToTokens for Converter {
                 )
             }),
             Converter::FromType(ty, span) => {
-                let call = span.apply(
-                    quote! { ::sscanf::FromScanf },
-                    quote! { ::from_matches(&mut *src) },
-                );
+                let call = span.apply(quote! { ::sscanf::FromScanf }, quote! { ::from_matches });
+                let args = span.apply_args(quote! { &mut *src });
                 tokens.extend(quote! {
                     {
-                        let value: #ty = #call?;
+                        let value: #ty = #call #args?;
                         value
                     }
                 });
@@ -379,7 +377,8 @@ fn regex_from_radix(
 
     Ok((
         RegexPart::Custom(regex),
-        Converter::Custom(converter.with_span(span)),
+        // see `FullSpan::apply_args` for the need for `resolved_at`
+        Converter::Custom(converter.with_span(span.resolved_at(Span::call_site()))),
     ))
 }
 
diff --git a/sscanf_macro/src/utils.rs b/sscanf_macro/src/utils.rs
index d066afb..9ce24cc 100644
--- a/sscanf_macro/src/utils.rs
+++ b/sscanf_macro/src/utils.rs
@@ -40,6 +40,16 @@ impl FullSpan {
     pub fn apply_end(self, b: TokenStream) -> TokenStream {
         b.with_span(self.1)
     }
+    /// Puts the tokens into parentheses with the end span.
+    ///
+    /// Unlike the other methods, variables in `args` refer to the ones from the generated code,
+    /// even if this span comes from the parameters of a surrounding `macro_rules!` macro.
+    pub fn apply_args(self, args: TokenStream) -> proc_macro2::Group {
+        let args = args.with_span(self.1.resolved_at(Span::call_site()));
+        let mut group = proc_macro2::Group::new(proc_macro2::Delimiter::Parenthesis, args);
+        group.set_span(self.1);
+        group
+    }
 }
 
 /// Find the closest match to a string in a list of strings.
-- 
2.43.0


From 6284fb823355f1197bdb077871f19283608c515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 11/20] fix: macro_rules parameters in derived types and
 attributes

A field type or an attribute value that is a parameter of a surrounding macro is
in an invisible group, so $t = &'a str was not recognized as a string type and
map = $closure was not recognized as a closure.
---
 sscanf_macro/src/attribute.rs | 7 ++++++-
 sscanf_macro/src/ty.rs        | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/attribute.rs b/sscanf_macro/src/attribute.rs
index 768655d..b53ba8c 100644
--- a/sscanf_macro/src/attribute.rs
+++ b/sscanf_macro/src/attribute.rs
@@ -236,7 +236,12 @@ impl<A: Attr> Attribute<A> {
                 let msg = "expected an expression after `=`";
                 return Err(syn::Error::new_spanned(eq_sign, msg)); // checked in tests/fail/derive_struct_attributes.rs
             }
-            let expr = input.parse::<syn::Expr>()?;
+            let mut expr = input.parse::<syn::Expr>()?;
+            // expressions from the parameters of a surrounding `macro_rules!` macro are in an
+            // invisible group
+            while let syn::Expr::Group(group) = expr {
+                expr = *group.expr;
+            }
             src.extend(quote! { #eq_sign #expr });
             value = Some(expr);
         }
diff --git a/sscanf_macro/src/ty.rs b/sscanf_macro/src/ty.rs
index 39d6d04..c66cc1c 100644
--- a/sscanf_macro/src/ty.rs
+++ b/sscanf_macro/src/ty.rs
@@ -22,7 +22,11 @@ pub enum TypeSource<'a> {
 
 #[allow(unused)]
 impl<'a> Type<'a> {
-    pub fn from_ty(ty: syn::Type) -> Self {
+    pub fn from_ty(mut ty: syn::Type) -> Self {
+        // types from the parameters of a surrounding `macro_rules!` macro are in an invisible group
+        while let syn::Type::Group(group) = ty {
+            ty = *group.elem;
+        }
         let kind = TypeKind::from_ty(&ty);
         let source = TypeSource::External;
         Type { kind, source, ty }
-- 
2.43.0


From 30913b70d446e4c31cacfb1ff0bc7c47239307d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 12/20] fix: from and try_from attributes did not accept
 generic types

from = Vec<u8> was parsed as an expression: 'comparison operators cannot be
chained'.
---
 sscanf_macro/src/attribute.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/attribute.rs b/sscanf_macro/src/attribute.rs
index b53ba8c..265f121 100644
--- a/sscanf_macro/src/attribute.rs
+++ b/sscanf_macro/src/attribute.rs
@@ -2,6 +2,8 @@ use std::collections::HashMap;
 use std::fmt::{Debug, Display};
 use std::hash::Hash;
 
+use syn::parse::discouraged::Speculative;
+
 use crate::*;
 
 mod r#enum; // not all of these need to be r#, but this looks nicer
@@ -236,7 +238,10 @@ impl<A: Attr> Attribute<A> {
                 let msg = "expected an expression after `=`";
                 return Err(syn::Error::new_spanned(eq_sign, msg)); // checked in tests/fail/derive_struct_attributes.rs
             }
-            let mut expr = input.parse::<syn::Expr>()?;
+            let mut expr = match Self::parse_type(kind, input) {
+                Some(ty) => ty,
+                None => input.parse::<syn::Expr>()?,
+            };
             // expressions from the parameters of a surrounding `macro_rules!` macro are in an
             // invisible group
             while let syn::Expr::Group(group) = expr {
@@ -249,6 +254,22 @@ impl<A: Attr> Attribute<A> {
         Ok(Self { kind, value, src })
     }
 
+    /// Values that are types have to be parsed as such, because generics like `Vec<u8>` are not a
+    /// valid expression. Returns `None` for all other attributes or if there is no valid type.
+    fn parse_type(kind: A, input: ParseStream) -> Option<syn::Expr> {
+        let types = [attr::All::From.as_str(), attr::All::TryFrom.as_str()];
+        if !types.contains(&kind.as_str()) {
+            return None;
+        }
+        let fork = input.fork();
+        let ty = fork.parse::<syn::Type>().ok()?;
+        if !fork.is_empty() && !fork.peek(Token![,]) {
+            return None;
+        }
+        input.advance_to(&fork);
+        Some(syn::Expr::Verbatim(ty.to_token_stream()))
+    }
+
     fn value_as<T: Parse>(&self, description: &str, addition: Option<&str>) -> Result<T> {
         if let Some(value) = &self.value {
             Ok(syn::parse2(quote! { #value })?)
-- 
2.43.0


From f69033e99d3b138e598a1933b1c3c174f61bffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 13/20] fix: from and try_from types that are parameters of a
 surrounding macro

The matched value got the span of the type, so it could not refer to the
generated variables if the type came from a macro_rules parameter.
---
 sscanf_macro/src/derive.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index b3a44a7..c4a8830 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -95,14 +95,27 @@ impl ValueConversion {
         let ValueConversion { from, to, with } = self;
         use ValueConversionMethod::*;
         match with {
-            From => FullSpan::from_spanned(from).apply(
-                quote! { <#to as ::std::convert::From<#from>> },
-                quote! { ::from(#value) },
-            ),
-            TryFrom => FullSpan::from_spanned(from).apply(
-                quote! { <#to as ::std::convert::TryFrom<#from>> },
-                quote! { ::try_from(#value)? },
-            ),
+            From => {
+                let span = FullSpan::from_spanned(from);
+                let args = span.apply_args(value);
+                let mut ret = span.apply(
+                    quote! { <#to as ::std::convert::From<#from>> },
+                    quote! { ::from },
+                );
+                args.to_tokens(&mut ret);
+                ret
+            }
+            TryFrom => {
+                let span = FullSpan::from_spanned(from);
+                let args = span.apply_args(value);
+                let mut ret = span.apply(
+                    quote! { <#to as ::std::convert::TryFrom<#from>> },
+                    quote! { ::try_from },
+                );
+                args.to_tokens(&mut ret);
+                ret.extend(span.apply_end(quote! { ? }));
+                ret
+            }
             Map(closure) => {
                 let span = closure.body.span();
                 quote::quote_spanned! {span=> {
-- 
2.43.0


From ad6b0ca06f2e07a37d378e7e39c7a82ac7e0b921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 14/20] fix: values of the skip attribute on variants were
 silently ignored

---
 sscanf_macro/src/attribute/variant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/attribute/variant.rs b/sscanf_macro/src/attribute/variant.rs
index 50aa6ff..6540385 100644
--- a/sscanf_macro/src/attribute/variant.rs
+++ b/sscanf_macro/src/attribute/variant.rs
@@ -10,7 +10,13 @@ pub enum VariantAttributeKind {
 impl FromAttribute<attr::Variant> for VariantAttributeKind {
     fn from_attribute(attr: Attribute<attr::Variant>, _: ()) -> Result<Self> {
         let struct_kind = match attr.kind {
-            attr::Variant::Skip => return Ok(Self::Skip),
+            attr::Variant::Skip => {
+                if let Some(value) = attr.value.as_ref() {
+                    let msg = format!("attribute `{}` does not take a value", attr.kind);
+                    return Error::err_spanned(value, msg);
+                }
+                return Ok(Self::Skip);
+            }
             attr::Variant::Format => attr::Struct::Format,
             attr::Variant::FormatUnescaped => attr::Struct::FormatUnescaped,
             attr::Variant::Transparent => attr::Struct::Transparent,
-- 
2.43.0


From 08c6d62a608fc5e7422318d3cdceeaf5c47fa048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 15/20] fix: underlines of errors in format strings with line
 breaks or tabs

The error message shows the literal as written. If that contains line breaks,
the underline was placed below the last line, at a column computed from the
beginning of the literal; with a tab in front, it was too far left.
---
 sscanf_macro/src/str_lit.rs | 50 +++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index 2f1112d..f5a1027 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -157,27 +157,51 @@ impl<'a> StrLitSlice<'a> {
             let mut m = String::new();
             writeln!(m, "{}:", message).unwrap();
 
-            let text_prefix = "At ";
+            m.push_str("At ");
             let text_prefix_len = 3; // length of "At "
 
-            writeln!(m, "{}{}", text_prefix, self.src.text).unwrap();
-
-            let squiggle_start = UnicodeWidthStr::width(&self.src.text[..self.range.start]);
-            let squiggle_len = UnicodeWidthStr::width(self.text());
-
-            // Add the line with the error squiggles
-            // start already includes the string prefix
-            for _ in 0..(text_prefix_len + squiggle_start) {
-                m.push(' ');
-            }
-            for _ in 0..squiggle_len {
-                m.push('^');
+            // The literal can span several lines. Every line that is part of the section gets its
+            // own underline directly below it.
+            let mut line_start = 0;
+            for (i, line) in self.src.text.split('\n').enumerate() {
+                if i != 0 {
+                    m.push('\n');
+                }
+                m.push_str(line);
+
+                let line_end = line_start + line.len();
+                let start = self.range.start.max(line_start);
+                let end = self.range.end.min(line_end);
+                if start < end {
+                    m.push('\n');
+                    if i == 0 {
+                        push_filler(&mut m, ' ', text_prefix_len);
+                    }
+                    // start already includes the string prefix
+                    push_squiggle_padding(&mut m, &self.src.text[line_start..start]);
+                    let squiggle_len = UnicodeWidthStr::width(&self.src.text[start..end]);
+                    push_filler(&mut m, '^', squiggle_len);
+                }
+                line_start = line_end + 1;
             }
             Error::new_spanned(&self.src.span_provider, m)
         }
     }
 }
 
+/// Adds as much space as the given text takes up. Tabs are kept, since their width is not known.
+fn push_squiggle_padding(m: &mut String, text: &str) {
+    for (i, part) in text.split('\t').enumerate() {
+        if i != 0 {
+            m.push('\t');
+        }
+        push_filler(m, ' ', UnicodeWidthStr::width(part));
+    }
+}
+fn push_filler(m: &mut String, c: char, len: usize) {
+    m.extend(std::iter::repeat(c).take(len));
+}
+
 /// Reads the first character or escape sequence in the source text of a non-raw string literal.
 ///
 /// Returns the represented char, or `None` if it is a line continuation, and the number of bytes.
-- 
2.43.0


From 83458b40da42bdb13791592a04ead455d069f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:47 +0000
Subject: [PATCH 16/20] fix: only the first of several errors in a macro call
 was reported

The others ended up behind the expression that the macro expands to, where the
compiler complains about the generated code instead of showing them.
---
 sscanf_macro/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 1a559f9..b41f64b 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -123,7 +123,7 @@ pub fn sscanf_get_regex(input: TokenStream1) -> TokenStream1 {
     let input = syn::parse_macro_input!(input as ScanfInner);
     let (regex, _) = match generate_regex(&input, true) {
         Ok(v) => v,
-        Err(e) => return e.into(),
+        Err(e) => return error_expr(e),
     };
     let ret = quote! {{
         #regex
@@ -156,7 +156,7 @@ pub fn derive_from_sscanf(input: TokenStream1) -> TokenStream1 {
 fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
     let (regex, matcher) = match generate_regex(&input.inner, escape_input) {
         Ok(v) => v,
-        Err(e) => return e.into(),
+        Err(e) => return error_expr(e),
     };
     let src_str = {
         let src_str = input.src_str;
@@ -199,6 +199,12 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
     ret.into()
 }
 
+/// Wraps the errors in a block, since only the first one would be used as an expression otherwise
+fn error_expr(err: Error) -> TokenStream1 {
+    let err = TokenStream::from(err);
+    quote! {{ #err }}.into()
+}
+
 fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream, Vec<Matcher>)> {
     let mut format = FormatString::new(input.fmt.to_slice(), escape_input)?;
     if escape_input {
-- 
2.43.0


From 48ece214c0f7799699383f027d8c8fabdf02aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 17/20] fix: macros of the standard library are named in full

The generated code used panic!, unreachable! and stringify!, which were taken from the user's scope,
so a macro of that name in the surrounding code was used instead.
---
 sscanf_macro/src/derive.rs      | 16 ++++++++--------
 sscanf_macro/src/lib.rs         |  4 ++--
 sscanf_macro/src/regex_parts.rs |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index c4a8830..75607cf 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -128,7 +128,7 @@ impl ValueConversion {
                 quote::quote_spanned! {span=> {
                     let f: fn(#from) -> ::std::option::Option<#to> = #closure;
                     f(#value).ok_or(::sscanf::errors::FilterMapNoneError {
-                        field_name: stringify!(#field_name)
+                        field_name: ::std::stringify!(#field_name)
                     })?
                 }}
             }
@@ -386,15 +386,15 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
                     ::std::result::Result::Ok(#name #from_matches)
                 };
                 let res = catcher().map_err(|error| ::sscanf::errors::FromScanfFailedError {
-                    type_name: stringify!(#name),
+                    type_name: ::std::stringify!(#name),
                     error,
                 })?;
                 let n = start_len - src.len();
                 let expected = <Self as ::sscanf::FromScanf>::NUM_CAPTURES;
                 if n != expected {
-                    panic!(
+                    ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
                 ::std::result::Result::Ok(res)
@@ -531,10 +531,10 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
                 let mut catcher = || -> ::std::result::Result<Self, ::std::boxed::Box<dyn ::std::error::Error>> {
                     #(#variant_constructors)*
 
-                    unreachable!("sscanf: enum regex matched but no variant was captured");
+                    ::std::unreachable!("sscanf: enum regex matched but no variant was captured");
                 };
                 let res = catcher().map_err(|error| ::sscanf::errors::FromScanfFailedError {
-                    type_name: stringify!(#name),
+                    type_name: ::std::stringify!(#name),
                     error,
                 })?;
 
@@ -545,9 +545,9 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
                 let n = start_len - src.len();
                 let expected = <Self as ::sscanf::FromScanf>::NUM_CAPTURES;
                 if n != expected {
-                    panic!(
+                    ::std::panic!(
                         "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                        stringify!(#name), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                        ::std::stringify!(#name), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                     );
                 }
                 ::std::result::Result::Ok(res)
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index b41f64b..6661afc 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -188,7 +188,7 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
                 let res = matcher().map_err(|e| ::sscanf::errors::Error::ParsingFailed(e));
 
                 if res.is_ok() && src.len() != 0 {
-                    panic!("sscanf: {} captures generated, but {} were taken",
+                    ::std::panic!("sscanf: {} captures generated, but {} were taken",
                         REGEX.captures_len(), REGEX.captures_len() - src.len()
                     );
                 }
@@ -284,7 +284,7 @@ fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream
             const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
 
             if regex.captures_len() != NUM_CAPTURES {
-                panic!(
+                ::std::panic!(
                     "sscanf: Regex has {} capture groups, but {} were expected.{}",
                     regex.captures_len(), NUM_CAPTURES, ::sscanf::errors::WRONG_CAPTURES_HINT
                 );
diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index d27c285..7fbfacc 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -134,9 +134,9 @@ impl ToTokens for Matcher {
                     let n = start_len - src.len();
                     let expected = #num_captures;
                     if n != expected {
-                        panic!(
+                        ::std::panic!(
                             "sscanf: {}::NUM_CAPTURES = {} but {} were taken{}",
-                            stringify!(#ty), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
+                            ::std::stringify!(#ty), expected, n, ::sscanf::errors::WRONG_CAPTURES_HINT
                         );
                     }
                 }
-- 
2.43.0


From 656e6b61c6cdadc5db5583e007ccae04ac834880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:40 +0000
Subject: [PATCH 18/20] fix: formats with many numbers panicked because of the
 size limit of the regex

---
 src/errors.rs           |  5 +++++
 src/from_scanf.rs       | 19 +++++++++++--------
 sscanf_macro/src/lib.rs |  4 +++-
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 248d6b9..037a520 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -9,6 +9,11 @@ pub static EXPECT_NEXT_HINT: &str = r#"sscanf: Invalid number of capture groups
 If you use ( ) in a custom Regex, please add a '?:' at the beginning to avoid forming a capture group like this:
     "  (  )  "  =>  "  (?:  )  ""#;
 
+// Formats are part of the program, so the default of 10MB, which is meant for untrusted regexes, would
+// only prevent formats with many numbers (a `u128` takes up more than 150KB) from being used
+#[doc(hidden)]
+pub const REGEX_SIZE_LIMIT: usize = 1 << 30;
+
 #[doc(hidden)]
 pub static EXPECT_CAPTURE_HINT: &str = r#"sscanf: Non-optional capture group marked as optional.
 This is either a problem with a custom regex or RegexRepresentation implementation or an internal error."#;
diff --git a/src/from_scanf.rs b/src/from_scanf.rs
index aade60a..4e87832 100644
--- a/src/from_scanf.rs
+++ b/src/from_scanf.rs
@@ -252,14 +252,17 @@ where
         let regex = format!("^(?:{})$", Self::REGEX);
         #[allow(unused_qualifications)] // would complain about the `crate::` prefix, but we
         // specifically want the bundled regex rather than whatever a user has renamed to `regex`
-        let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
-            panic!(
-                "sscanf: Type {} has invalid RegexRepresentation `{}`: {}",
-                std::any::type_name::<Self>(),
-                Self::REGEX,
-                err
-            )
-        });
+        let regex = crate::regex::RegexBuilder::new(&regex)
+            .size_limit(crate::errors::REGEX_SIZE_LIMIT)
+            .build()
+            .unwrap_or_else(|err| {
+                panic!(
+                    "sscanf: Type {} has invalid RegexRepresentation `{}`: {}",
+                    std::any::type_name::<Self>(),
+                    Self::REGEX,
+                    err
+                )
+            });
 
         regex
             .captures(src)
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 6661afc..32bcd7a 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -278,7 +278,9 @@ fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream
     let regex = quote! { ::sscanf::lazy_static::lazy_static! {
         static ref REGEX: ::sscanf::regex::Regex = {
             let regex_str = #regex;
-            let regex = ::sscanf::regex::Regex::new(regex_str)
+            let regex = ::sscanf::regex::RegexBuilder::new(regex_str)
+                .size_limit(::sscanf::errors::REGEX_SIZE_LIMIT)
+                .build()
                 .expect("sscanf: Cannot generate Regex");
 
             const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
-- 
2.43.0


From f2db1204f0606ecb3c5f489871a36f86186806f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:39 +0000
Subject: [PATCH 19/20] fix: names of functions, types and constants that are
 also used in the generated code

Functions named like a variable of the generated code (`src`, `expected`, ...) could not be used in
the expressions of attributes, and types or constants named `REGEX` or `NUM_CAPTURES` not in the
types of a format.
---
 sscanf_macro/src/derive.rs      | 10 +++++-----
 sscanf_macro/src/lib.rs         | 25 +++++++++++++------------
 sscanf_macro/src/regex_parts.rs | 13 +++++++------
 sscanf_macro/src/utils.rs       |  2 +-
 4 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 75607cf..9a7011b 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -118,14 +118,14 @@ impl ValueConversion {
             }
             Map(closure) => {
                 let span = closure.body.span();
-                quote::quote_spanned! {span=> {
+                quote_spanned! {span=> {
                     let f: fn(#from) -> #to = #closure;
                     f(#value)
                 }}
             }
             FilterMap(closure) => {
                 let span = closure.body.span();
-                quote::quote_spanned! {span=> {
+                quote_spanned! {span=> {
                     let f: fn(#from) -> ::std::option::Option<#to> = #closure;
                     f(#value).ok_or(::sscanf::errors::FilterMapNoneError {
                         field_name: ::std::stringify!(#field_name)
@@ -373,7 +373,7 @@ Alternatively, you can use #[sscanf(transparent)] to derive FromScanf for a sing
     let (impl_generics, _, where_clause) = lt_generics.split_for_impl();
 
     let num_captures = regex_parts.num_captures();
-    let from_sscanf_impl = quote! {
+    let from_sscanf_impl = quote_spanned! {Span::mixed_site()=>
         #[automatically_derived]
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
@@ -476,7 +476,7 @@ Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields
 
         str_lifetimes.extend(variant_str_lifetimes);
 
-        let matcher = quote! {
+        let matcher = quote_spanned! {Span::mixed_site()=>
             let expected = #num_captures;
 
             remaining -= expected;
@@ -515,7 +515,7 @@ To do this, add #[sscanf(format = \"...\")] to a variant"
     let (lifetime, lt_generics) = merge_lifetimes(str_lifetimes, generics);
     let (impl_generics, _, where_clause) = lt_generics.split_for_impl();
 
-    let from_sscanf_impl = quote! {
+    let from_sscanf_impl = quote_spanned! {Span::mixed_site()=>
         #[automatically_derived]
         impl #impl_generics ::sscanf::FromScanf<#lifetime> for #name #ty_generics #where_clause {
             type Err = ::sscanf::errors::FromScanfFailedError;
diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 32bcd7a..a3e7b66 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -2,7 +2,7 @@
 
 use proc_macro::TokenStream as TokenStream1;
 pub(crate) use proc_macro2::{Span, TokenStream};
-pub(crate) use quote::{quote, ToTokens};
+pub(crate) use quote::{quote, quote_spanned, ToTokens};
 pub(crate) use syn::{
     parse::{Parse, ParseStream},
     spanned::Spanned,
@@ -127,7 +127,7 @@ pub fn sscanf_get_regex(input: TokenStream1) -> TokenStream1 {
     };
     let ret = quote! {{
         #regex
-        &REGEX
+        &__SSCANF_REGEX
     }};
     ret.into()
 }
@@ -167,15 +167,15 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
         // gets an appropriate error message if they try to use a non-string input
         quote! { ::std::primitive::str::get(#param, ..).unwrap() }
     };
-    // the input has to be outside of the block with the REGEX, because the items in a block are
-    // visible in the entire block, so REGEX would shadow any item of that name used by the input
-    let ret = quote! {{
+    // the input has to be outside of the block with the regex, because the items in a block are
+    // visible in the entire block, so they would shadow any item of that name used by the input
+    let ret = quote_spanned! {Span::mixed_site()=> {
         #[allow(clippy::needless_borrow)]
         let input: &::std::primitive::str = #src_str;
         {
         #regex
         #[allow(clippy::needless_question_mark)]
-        REGEX.captures(input)
+        __SSCANF_REGEX.captures(input)
             .ok_or_else(|| ::sscanf::errors::Error::MatchFailed)
             .and_then(|cap| {
                 let mut src = cap.iter();
@@ -189,7 +189,7 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
 
                 if res.is_ok() && src.len() != 0 {
                     ::std::panic!("sscanf: {} captures generated, but {} were taken",
-                        REGEX.captures_len(), REGEX.captures_len() - src.len()
+                        __SSCANF_REGEX.captures_len(), __SSCANF_REGEX.captures_len() - src.len()
                     );
                 }
                 res
@@ -275,20 +275,21 @@ fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream
 
     let regex = regex_parts.regex();
     let num_captures = regex_parts.num_captures();
-    let regex = quote! { ::sscanf::lazy_static::lazy_static! {
-        static ref REGEX: ::sscanf::regex::Regex = {
+    // unlike variables, items are visible to the types from the user, so they need a unique name
+    let regex = quote_spanned! {Span::mixed_site()=> ::sscanf::lazy_static::lazy_static! {
+        static ref __SSCANF_REGEX: ::sscanf::regex::Regex = {
             let regex_str = #regex;
             let regex = ::sscanf::regex::RegexBuilder::new(regex_str)
                 .size_limit(::sscanf::errors::REGEX_SIZE_LIMIT)
                 .build()
                 .expect("sscanf: Cannot generate Regex");
 
-            const NUM_CAPTURES: ::std::primitive::usize = #num_captures;
+            let num_captures: ::std::primitive::usize = #num_captures;
 
-            if regex.captures_len() != NUM_CAPTURES {
+            if regex.captures_len() != num_captures {
                 ::std::panic!(
                     "sscanf: Regex has {} capture groups, but {} were expected.{}",
-                    regex.captures_len(), NUM_CAPTURES, ::sscanf::errors::WRONG_CAPTURES_HINT
+                    regex.captures_len(), num_captures, ::sscanf::errors::WRONG_CAPTURES_HINT
                 );
             }
             regex
diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 7fbfacc..d8ab97b 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -1,5 +1,5 @@
 use proc_macro2::TokenStream;
-use quote::quote;
+use quote::{quote, quote_spanned};
 
 use crate::*;
 
@@ -82,13 +82,13 @@ pub enum Converter {
 impl ToTokens for Converter {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         match self {
-            Converter::Str => tokens.extend(quote! {
+            Converter::Str => tokens.extend(quote_spanned! {Span::mixed_site()=>
                 src.next()
                    .expect(::sscanf::errors::EXPECT_NEXT_HINT)
                    .expect(::sscanf::errors::EXPECT_CAPTURE_HINT)
                    .as_str()
             }),
-            Converter::CowStr => tokens.extend(quote! {
+            Converter::CowStr => tokens.extend(quote_spanned! {Span::mixed_site()=>
                 ::std::borrow::Cow::Borrowed(
                     src.next()
                         .expect(::sscanf::errors::EXPECT_NEXT_HINT)
@@ -99,7 +99,7 @@ impl ToTokens for Converter {
             Converter::FromType(ty, span) => {
                 let call = span.apply(quote! { ::sscanf::FromScanf }, quote! { ::from_matches });
                 let args = span.apply_args(quote! { &mut *src });
-                tokens.extend(quote! {
+                tokens.extend(quote_spanned! {Span::mixed_site()=>
                     {
                         let value: #ty = #call #args?;
                         value
@@ -122,7 +122,8 @@ impl ToTokens for Matcher {
         let ty = &self.ty;
         let num_captures = &self.num_captures;
         let converter = &self.converter;
-        tokens.extend(quote! {
+        // `mixed_site`, so that the variables are only visible in the generated code
+        tokens.extend(quote_spanned! {Span::mixed_site()=>
             {
                 #[cfg(debug_assertions)]
                 let start_len = src.len();
@@ -378,7 +379,7 @@ fn regex_from_radix(
     Ok((
         RegexPart::Custom(regex),
         // see `FullSpan::apply_args` for the need for `resolved_at`
-        Converter::Custom(converter.with_span(span.resolved_at(Span::call_site()))),
+        Converter::Custom(converter.with_span(span.resolved_at(Span::mixed_site()))),
     ))
 }
 
diff --git a/sscanf_macro/src/utils.rs b/sscanf_macro/src/utils.rs
index 9ce24cc..3c7fa92 100644
--- a/sscanf_macro/src/utils.rs
+++ b/sscanf_macro/src/utils.rs
@@ -45,7 +45,7 @@ impl FullSpan {
     /// Unlike the other methods, variables in `args` refer to the ones from the generated code,
     /// even if this span comes from the parameters of a surrounding `macro_rules!` macro.
     pub fn apply_args(self, args: TokenStream) -> proc_macro2::Group {
-        let args = args.with_span(self.1.resolved_at(Span::call_site()));
+        let args = args.with_span(self.1.resolved_at(Span::mixed_site()));
         let mut group = proc_macro2::Group::new(proc_macro2::Delimiter::Parenthesis, args);
         group.set_span(self.1);
         group
-- 
2.43.0


From 47dad65af24723d27214bc5004e731c5cbaf0b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:33 +0000
Subject: [PATCH 20/20] fix: bounds of several string lifetimes were generated
 in a random order

The generated code, and with it the compiled crate, was different from one build to the next.
---
 sscanf_macro/src/derive.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 9a7011b..64ec5fd 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap};
 
 use syn::ext::IdentExt;
 
@@ -139,7 +139,7 @@ impl ValueConversion {
 fn parse_format(
     attr: StructAttribute,
     raw_fields: syn::Fields,
-) -> Result<(RegexParts, TokenStream, HashSet<syn::Lifetime>)> {
+) -> Result<(RegexParts, TokenStream, BTreeSet<syn::Lifetime>)> {
     let (value, escape) = match attr.kind {
         StructAttributeKind::Format { value, escape } => (value, escape),
         StructAttributeKind::Transparent => {
@@ -158,7 +158,7 @@ fn parse_format(
 
     let mut fields = vec![];
     let mut field_map = HashMap::new();
-    let mut str_lifetimes = HashSet::new();
+    let mut str_lifetimes = BTreeSet::new();
     for (i, field) in raw_fields.into_iter().enumerate() {
         let mut ty = field.ty;
         let ident = if let Some(ident) = field.ident {
@@ -315,7 +315,7 @@ The syntax for default values is: `#[sscanf(default)]` to use Default::default()
 }
 
 fn merge_lifetimes(
-    str_lifetimes: HashSet<syn::Lifetime>,
+    str_lifetimes: BTreeSet<syn::Lifetime>,
     src_generics: &syn::Generics,
 ) -> (syn::Lifetime, syn::Generics) {
     let mut lifetime = syn::Lifetime::new("'__from_scanf_lifetime", Span::call_site());
@@ -430,7 +430,7 @@ pub fn parse_enum(
     regex_parts.push_literal("(?:");
     let mut variant_constructors = vec![];
     let mut num_captures_list = vec![NumCaptures::One];
-    let mut str_lifetimes = HashSet::new();
+    let mut str_lifetimes = BTreeSet::new();
     let mut first = true;
 
     for variant in data.variants {
-- 
2.43.0

