From 6435df043ec632bce0dd296cfa205817dbc78c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 1/6] fix: do not accept one digit too many in custom radix
 options

---
 sscanf_macro/src/regex_parts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 8d7db06..fd15227 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -275,9 +275,9 @@ fn regex_from_radix(
     use std::cmp::Ordering::*;
     let possible_chars = match radix.cmp(&10) {
         Less => format!("0-{}", radix - 1),
-        Equal => "0-9a".to_string(),
+        Equal => "0-9".to_string(),
         Greater => {
-            let last_letter = (b'a' + radix - 10) as char;
+            let last_letter = (b'a' + radix - 11) as char;
             format!("0-9a-{}", last_letter)
         }
     };
-- 
2.43.0


From cbd247bac2cd1e9e8b3fa774e43f9924965ab198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 2/6] fix: anchor the whole pattern in FromScanf::from_str,
 also if it is an alternation

---
 src/from_scanf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_scanf.rs b/src/from_scanf.rs
index 596840f..fbd906a 100644
--- a/src/from_scanf.rs
+++ b/src/from_scanf.rs
@@ -248,7 +248,7 @@ where
     where
         Self: crate::RegexRepresentation,
     {
-        let regex = format!("^{}$", Self::REGEX);
+        let regex = format!("^(?:{})$", Self::REGEX);
         #[allow(unused_qualifications)] // would complain about the `crate::` prefix, but we
         // specifically want the bundled regex rather than whatever a user has renamed to `regex`
         let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
-- 
2.43.0


From 459688690b5fec1b5c44f0ba3d9a34339abfe84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 3/6] fix: emit the lifetime bounds of derived impls in a fixed
 order

---
 sscanf_macro/src/derive.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 5f8d17a..364668d 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap};
 
 use crate::*;
 
@@ -124,7 +124,7 @@ impl ValueConversion {
 fn parse_format(
     attr: StructAttribute,
     raw_fields: syn::Fields,
-) -> Result<(RegexParts, TokenStream, HashSet<syn::Lifetime>)> {
+) -> Result<(RegexParts, TokenStream, BTreeSet<syn::Lifetime>)> {
     let (value, escape) = match attr.kind {
         StructAttributeKind::Format { value, escape } => (value, escape),
         StructAttributeKind::Transparent => {
@@ -143,7 +143,7 @@ fn parse_format(
 
     let mut fields = vec![];
     let mut field_map = HashMap::new();
-    let mut str_lifetimes = HashSet::new();
+    let mut str_lifetimes = BTreeSet::new();
     for (i, field) in raw_fields.into_iter().enumerate() {
         let mut ty = field.ty;
         let ident = if let Some(ident) = field.ident {
@@ -299,7 +299,7 @@ The syntax for default values is: `#[sscanf(default)]` to use Default::default()
 }
 
 fn merge_lifetimes(
-    str_lifetimes: HashSet<syn::Lifetime>,
+    str_lifetimes: BTreeSet<syn::Lifetime>,
     src_generics: &syn::Generics,
 ) -> (syn::Lifetime, syn::Generics) {
     let mut lifetime = syn::Lifetime::new("'__from_scanf_lifetime", Span::call_site());
@@ -413,7 +413,7 @@ pub fn parse_enum(
     regex_parts.push_literal("(?:");
     let mut variant_constructors = vec![];
     let mut num_captures_list = vec![NumCaptures::One];
-    let mut str_lifetimes = HashSet::new();
+    let mut str_lifetimes = BTreeSet::new();
     let mut first = true;
 
     for variant in data.variants {
-- 
2.43.0


From e209678f2e2234b53b232cc04e04494dac56e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 4/6] fix: evaluate escape sequences in non-raw format strings

The text of the literal was matched as it is written in the source, so
sscanf!("a\tb", "{}\t{}", ..) never matched.
---
 sscanf_macro/src/format_string.rs | 38 +++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/format_string.rs b/sscanf_macro/src/format_string.rs
index 4f673ca..7e0fbc0 100644
--- a/sscanf_macro/src/format_string.rs
+++ b/sscanf_macro/src/format_string.rs
@@ -14,8 +14,13 @@ impl<'a> FormatString<'a> {
         // keep the iterator as a variable to allow peeking and advancing in a sub-function
         let mut iter = src.text().char_indices().peekable();
 
-        while let Some((i, c)) = iter.next() {
-            if c == '{' {
+        while let Some((i, mut c)) = iter.next() {
+            if c == '\\' && !src.is_raw() {
+                match unescape(&mut iter) {
+                    Some(unescaped) => c = unescaped,
+                    None => continue,
+                }
+            } else if c == '{' {
                 if iter.next_if(|(_, c)| *c == '{').is_some() {
                     // escaped '{{', will be handled like a regular char by the following code
                 } else {
@@ -48,3 +53,32 @@ impl<'a> FormatString<'a> {
         })
     }
 }
+
+/// Evaluates the rest of an escape sequence in a non-raw string, after the initial `\`.
+///
+/// Returns `None` for a line continuation. The compiler has already rejected invalid escapes.
+fn unescape(iter: &mut std::iter::Peekable<impl Iterator<Item = (usize, char)>>) -> Option<char> {
+    let (_, c) = iter.next()?;
+    let code = match c {
+        'n' => return Some('\n'),
+        'r' => return Some('\r'),
+        't' => return Some('\t'),
+        '0' => return Some('\0'),
+        '\r' | '\n' => {
+            while iter
+                .next_if(|(_, c)| matches!(c, ' ' | '\t' | '\r' | '\n'))
+                .is_some()
+            {}
+            return None;
+        }
+        'x' => iter.take(2).map(|(_, c)| c).collect::<String>(),
+        'u' => iter
+            .skip(1) // '{'
+            .map(|(_, c)| c)
+            .take_while(|c| *c != '}')
+            .filter(|c| *c != '_')
+            .collect(),
+        _ => return Some(c), // '\\', '"' or '\''
+    };
+    u32::from_str_radix(&code, 16).ok().and_then(char::from_u32)
+}
-- 
2.43.0


From 142caea308ce7069a79c9ba69414644af51846c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 5/6] fix: match only ASCII digits and letters in radix options

The case-insensitive class of radix options also matched the Kelvin sign and the
long s, which no radix has as digits, so that the conversion failed afterwards.
---
 sscanf_macro/src/regex_parts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index fd15227..fa53388 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -292,7 +292,7 @@ fn regex_from_radix(
     };
 
     let regex = format!(
-        "(?i:{sign}{prefix}[{digits}]{{1,{n}}})",
+        "(?i-u:{sign}{prefix}[{digits}]{{1,{n}}})",
         sign = sign,
         prefix = prefix_string,
         digits = possible_chars,
-- 
2.43.0


From a55d05385df26842e5040a8fc98931eeae4e295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:38 +0000
Subject: [PATCH 6/6] fix: a suffix of a string literal is not part of the
 format string

---
 sscanf_macro/src/str_lit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index 46c1f81..2e83bcc 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -14,7 +14,10 @@ pub struct StrLit {
 impl StrLit {
     pub fn new(input: syn::LitStr) -> Self {
         // the full string with any ", r", r#", ... prefix and suffix
-        let text = input.to_token_stream().to_string();
+        let mut text = input.to_token_stream().to_string();
+
+        // a suffix of the literal itself ("..."u8) is not part of the string
+        text.truncate(text.len() - input.suffix().len());
 
         // input has to be parsed as `syn::LitStr` to access the content as a string. But in order to
         // call subspan, we need it as a `proc_macro2::Literal`. So: parse it as `LitStr` first and
-- 
2.43.0

