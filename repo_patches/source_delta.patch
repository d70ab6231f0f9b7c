From 8ecf5b4c8f707aa2da24db7512729dd25ec9661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:51 +0000
Subject: [PATCH 01/20] fix: make Number equality agree with its ordering

Equality converted one side to the other side's type first, so it was
not symmetric and disagreed with the ordering. For example
Uint(3) == Float(3.00000000005) held while the reverse did not.
Two numbers are now equal exactly when they compare as Equal.
---
 src/ds/num.rs | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index fe526f0..39a1aa6 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -276,22 +276,7 @@ impl fmt::Display for IntoNumberErr {
 
 impl PartialEq for Number {
     fn eq(&self, other: &Number) -> bool {
-        match (self, other) {
-            // Three cases where lhs and rhs are same type
-            (Uint(lhs), Uint(rhs)) => lhs.eq(rhs),
-            (Int(lhs), Int(rhs)) => lhs.eq(rhs),
-            (Float(lhs), Float(rhs)) => cmp_float_to_float(*lhs, *rhs) == Ordering::Equal,
-
-            // Integers
-            (Uint(lhs), Int(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Uint(lhs), Float(_)) => other.as_u128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Uint(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-            (Int(lhs), Float(_)) => other.as_i128().map(|rhs| lhs.eq(&rhs)).unwrap_or(false),
-
-            // Floats
-            (Float(lhs), Uint(_)) => lhs.eq(&other.as_f64()),
-            (Float(lhs), Int(_)) => lhs.eq(&other.as_f64()),
-        }
+        self.cmp(other) == Ordering::Equal
     }
 }
 
-- 
2.43.0


From f86768a760e3b46aee005d0c2d5361f19e9f07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:51 +0000
Subject: [PATCH 02/20] fix: order floats against integers by their exact value

Negative zero compared below an unsigned zero, a NaN with the sign bit
set compared below unsigned integers, and floats beyond the 128 bit range
compared equal to the largest or smallest integer because the cast
saturates.
---
 src/ds/num.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 39a1aa6..800466a 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -366,10 +366,10 @@ fn cmp_uint_to_int(lhs: &u128, rhs: i128) -> Ordering {
 fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() {
+    if lhs < 0.0 {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
-        Greater
+    } else if lhs >= u128::MAX as f64 || lhs.is_nan() {
+        Greater // the cast rounds up to 2^128, which is above every u128
     } else {
         let (floor, ceil) = float_bounds_uint(lhs);
 
@@ -387,10 +387,10 @@ fn cmp_float_to_uint(lhs: f64, rhs: u128) -> Ordering {
 fn cmp_float_to_int(lhs: f64, rhs: i128) -> Ordering {
     use Ordering::*;
 
-    if lhs.is_sign_negative() && lhs.is_infinite() {
+    if lhs < i128::MIN as f64 {
         Less
-    } else if lhs.is_infinite() || lhs.is_nan() {
-        Greater
+    } else if lhs >= i128::MAX as f64 || lhs.is_nan() {
+        Greater // the cast rounds up to 2^127, which is above every i128
     } else {
         let (floor, ceil) = float_bounds_int(lhs);
 
-- 
2.43.0


From ae9148dba663c796e5868d17882c582e9f851757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:51 +0000
Subject: [PATCH 03/20] fix: hash equal Numbers equally

All zeroes and all NaNs are equal, but the hash used the raw float bits,
so -0.0 and 0.0 (or two NaNs) hashed differently.
---
 src/ds/num.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 800466a..8fb81d3 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -253,7 +253,10 @@ impl FromStr for Number {
 
 impl Hash for Number {
     fn hash<H: Hasher>(&self, hasher: &mut H) {
-        self.as_f64().to_bits().hash(hasher)
+        // equal numbers must hash equally: there is one zero and one NaN
+        let x = self.as_f64();
+        let x = if x.is_nan() { f64::NAN } else { x + 0.0 };
+        x.to_bits().hash(hasher)
     }
 }
 
-- 
2.43.0


From 82bb2a946ef74cb54096a9615050c0d29db99122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:51 +0000
Subject: [PATCH 04/20] fix: refuse floats outside the integer range in as_u128
 and as_i128

Floats beyond 128 bits saturated to the largest or smallest integer
instead of returning IntoIntError.
---
 src/ds/num.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 8fb81d3..4ec8125 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -140,7 +140,8 @@ impl Number {
             Uint(x) => Ok(*x),
             Int(x) => (*x).try_into().map_err(|_| IntoIntError),
             Float(x) => {
-                if x.is_finite() && x >= &0.0 {
+                // the cast rounds up to 2^128
+                if *x >= 0.0 && *x < u128::MAX as f64 {
                     let r = x.round();
                     let y = (r - x).abs();
                     if y < 1e-10 {
@@ -176,7 +177,8 @@ impl Number {
             Uint(x) => (*x).try_into().map_err(|_| IntoIntError),
             Int(x) => Ok(*x),
             Float(x) => {
-                if x.is_finite() {
+                // the casts are exactly -2^127 and 2^127
+                if *x >= i128::MIN as f64 && *x < i128::MAX as f64 {
                     let r = x.round();
                     let y = (r - x).abs();
                     if y < 1e-10 {
-- 
2.43.0


From 864ac6d23d13e63f42c2a073a3c827e2adac3094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:51 +0000
Subject: [PATCH 05/20] fix: print large floats so that they read back as the
 same number

A float of 2^53 or more was printed as plain shortest digits padded with
zeroes. That text is read as an integer, either with a different value or
not at all when it exceeds 128 bits. Such floats now use the exponent
form.
---
 src/ds/num.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 4ec8125..066b3ce 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -217,6 +217,8 @@ impl fmt::Display for Number {
         match self {
             Uint(x) => write!(f, "{}", x),
             Int(x) => write!(f, "{}", x),
+            // above 2^53 the plain digits would be read back as a different integer
+            Float(x) if x.is_finite() && x.abs() >= 9007199254740992.0 => write!(f, "{:e}", x),
             Float(x) => write!(f, "{}", x),
         }
     }
-- 
2.43.0


From 0100e2068add1940c8fea0ffb783f0da775d48c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:42 +0000
Subject: [PATCH 06/20] fix: read integers whose leading zeroes are mixed with
 underscores

Texts such as "0_0" or "_0" panicked inside the integer parser in debug
builds and were refused in release builds. Underscores are now removed
before the digits are handed over.
---
 src/ds/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 066b3ce..1ceac5a 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -241,6 +241,10 @@ impl FromStr for Number {
             .skip(if neg { 1 } else { 0 })
             .all(|b| b.is_ascii_digit() || *b == b'_');
 
+        // lexical mishandles underscores amongst leading zeroes, so it never sees them
+        let digits = s.replace('_', "");
+        let bytes = digits.as_bytes();
+
         if !valid_int {
             ::fast_float::parse(s).map(Float).map_err(|_| IntoNumberErr)
         } else if neg {
-- 
2.43.0


From eb8dc6df84a2e201ab0a8c9d29ae696ffa7b097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:54 +0000
Subject: [PATCH 07/20] fix: keep the text before a tuple whose identity is
 hidden

The tuple writer removed the space that follows an identity even when the
identity was not written, eating the last character of the text before.
---
 src/fmt/tuples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/tuples.rs b/src/fmt/tuples.rs
index 52f896a..d4e3b4a 100644
--- a/src/fmt/tuples.rs
+++ b/src/fmt/tuples.rs
@@ -7,7 +7,7 @@ pub(super) fn write(buf: String, node: Node, fmts: &[Fmt], col: usize, seq: SeqI
 
     let prefix = |mut buf| {
         maybe_write_nonprim_ident(&mut buf, fmt.id, id);
-        if id.is_some() {
+        if fmt.id && id.is_some() {
             buf.pop();
         }
         buf.push('(');
-- 
2.43.0


From 34c566e1e568390d9ac88e0af15bcd457641e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:16 +0000
Subject: [PATCH 08/20] fix: order an empty container like the empty tuple it
 equals

The derived order put every container above every tuple while equality
treats an empty container and an empty tuple as the same value, so ordered
maps could hold equal keys twice.
---
 src/ds/val.rs | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/ds/val.rs b/src/ds/val.rs
index bd0396a..054b728 100644
--- a/src/ds/val.rs
+++ b/src/ds/val.rs
@@ -2,6 +2,7 @@ use super::*;
 use crate::{Fields, List, Map};
 use std::{
     borrow::{Borrow, Cow},
+    cmp::Ordering,
     error, fmt,
     ops::{Deref, DerefMut},
 };
@@ -36,7 +37,7 @@ use std::{
 ///
 /// [`BTreeMap`]: std::collections::BTreeMap
 /// [`Kserd`]: crate::Kserd
-#[derive(Eq, PartialOrd, Ord)]
+#[derive(Eq)]
 pub enum Value<'a> {
     /// A unit value `()`.
     Unit,
@@ -110,6 +111,48 @@ impl<'a> PartialEq for Value<'a> {
     }
 }
 
+impl<'a> PartialOrd for Value<'a> {
+    fn partial_cmp(&self, b: &Self) -> Option<Ordering> {
+        Some(self.cmp(b))
+    }
+}
+
+/// Ordering is done by variant, then per variant. It agrees with equality, so an empty container
+/// takes the place of an empty tuple.
+impl<'a> Ord for Value<'a> {
+    fn cmp(&self, b: &Self) -> Ordering {
+        use Value::*;
+
+        fn rank(v: &Value) -> u8 {
+            match v {
+                Unit => 0,
+                Bool(_) => 1,
+                Num(_) => 2,
+                Str(_) => 3,
+                Barr(_) => 4,
+                Tuple(_) => 5,
+                Cntr(_) => 6,
+                Seq(_) => 7,
+                Map(_) => 8,
+            }
+        }
+
+        match (self, b) {
+            (Tuple(a), Cntr(b)) if b.is_empty() => a.len().cmp(&0),
+            (Cntr(a), Tuple(b)) if a.is_empty() => 0.cmp(&b.len()),
+            (Bool(a), Bool(b)) => a.cmp(b),
+            (Num(a), Num(b)) => a.cmp(b),
+            (Str(a), Str(b)) => a.cmp(b),
+            (Barr(a), Barr(b)) => a.cmp(b),
+            (Tuple(a), Tuple(b)) => a.cmp(b),
+            (Cntr(a), Cntr(b)) => a.cmp(b),
+            (Seq(a), Seq(b)) => a.cmp(b),
+            (Map(a), Map(b)) => a.cmp(b),
+            _ => rank(self).cmp(&rank(b)),
+        }
+    }
+}
+
 /// The field name in a container contains invalid characters.
 #[derive(PartialEq, Debug, Eq, Clone)]
 pub struct InvalidFieldName(pub Cow<'static, str>);
-- 
2.43.0


From b12197c0119e6d47a97cdc52071f88b41b76dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:23 +0000
Subject: [PATCH 09/20] fix: write every string with a delimiter the parser
 reads back

The '=', '_' and '(' delimiters were read as a field assignment, a name
and a tuple. A string using all the listed characters panicked.
---
 src/fmt/prims.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/fmt/prims.rs b/src/fmt/prims.rs
index 9f639ad..d866a6a 100644
--- a/src/fmt/prims.rs
+++ b/src/fmt/prims.rs
@@ -39,8 +39,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str#{}#", val)
     } else if !used.contains(Used::BACKTICK) {
         write!(buf, "str`{}`", val)
-    } else if !used.contains(Used::EQ) {
-        write!(buf, "str={}=", val)
     } else if !used.contains(Used::PIPE) {
         write!(buf, "str|{}|", val)
     } else if !used.contains(Used::STAR) {
@@ -55,8 +53,6 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str~{}~", val)
     } else if !used.contains(Used::AMP) {
         write!(buf, "str&{}&", val)
-    } else if !used.contains(Used::UNDERSCORE) {
-        write!(buf, "str_{}_", val)
     } else if !used.contains(Used::BACKSLASH) {
         write!(buf, "str\\{}\\", val)
     } else if !used.contains(Used::SLASH) {
@@ -67,12 +63,13 @@ fn fmt_str(buf: &mut String, val: &str, fmt_ident: bool, ident: Option<&str>) {
         write!(buf, "str<{}<", val)
     } else if !used.contains(Used::R_ANGLE) {
         write!(buf, "str>{}>", val)
-    } else if !used.contains(Used::L_PAREN) {
-        write!(buf, "str({}(", val)
     } else if !used.contains(Used::R_PAREN) {
         write!(buf, "str){})", val)
     } else {
-        panic!("exhausted delimiter options for formatting a string");
+        let d = ('\u{a1}'..)
+            .find(|d| !val.contains(*d))
+            .expect("a string can not hold every character");
+        write!(buf, "str{}{}{}", d, val, d)
     }
     .ok();
 }
@@ -96,7 +93,6 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const QUOTE = 0x2;
         const HASH = 0x4;
         const BACKTICK = 0x8;
-        const EQ = 0x10;
         const PIPE = 0x20;
         const STAR = 0x40;
         const HAT = 0x80;
@@ -104,13 +100,11 @@ fn fmt_byte_array(buf: &mut String, val: &[u8], fmt_ident: bool, ident: Option<&
         const PERCENT = 0x200;
         const TILDE = 0x400;
         const AMP = 0x800;
-        const UNDERSCORE = 0x1000;
         const BACKSLASH = 0x2000;
         const SLASH = 0x4000;
         const COLON = 0x8000;
         const L_ANGLE = 0x10000;
         const R_ANGLE = 0x20000;
-        const L_PAREN = 0x40000;
         const R_PAREN = 0x80000;
     }
 }
@@ -130,7 +124,6 @@ impl Used {
             '\'' => Self::QUOTE,
             '#' => Self::HASH,
             '`' => Self::BACKTICK,
-            '=' => Self::EQ,
             '|' => Self::PIPE,
             '*' => Self::STAR,
             '^' => Self::HAT,
@@ -138,13 +131,11 @@ impl Used {
             '%' => Self::PERCENT,
             '~' => Self::TILDE,
             '&' => Self::AMP,
-            '_' => Self::UNDERSCORE,
             '\\' => Self::BACKSLASH,
             '/' => Self::SLASH,
             ':' => Self::COLON,
             '<' => Self::L_ANGLE,
             '>' => Self::R_ANGLE,
-            '(' => Self::L_PAREN,
             ')' => Self::R_PAREN,
             _ => Self::empty(),
         }
-- 
2.43.0


From 549fc29ac82609c93c76af2f1c6e496e9f35a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:23 +0000
Subject: [PATCH 10/20] fix: do not take string contents for a field name or
 names for booleans

A '=' inside a str-delimited literal was recognised as a field assignment.
An identity starting with 'true' or 'false' was read as the boolean.
---
 src/parse/heuristics.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index e69c49e..39d541d 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -22,7 +22,9 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         None,
     }
 
-    if orig.starts_with("true") || orig.starts_with("false") {
+    let boolean = orig.strip_prefix("true").or_else(|| orig.strip_prefix("false"));
+    let is_name = |c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_';
+    if boolean.map_or(false, |rem| !rem.starts_with(is_name)) {
         return Ok((orig, Nonprim::None));
     }
 
@@ -108,10 +110,18 @@ pub(super) fn recognise_concise(i: &str) -> bool {
 /// Recognises the sequence: `field_name =`.
 pub(super) fn recognise_field_assign(i: &str) -> bool {
     // maybe_names is a litle more relaxed than field_name so it can recognise but still fail
-    let not = "<>(){}='\"\r\n";
+    let not = "<>(){}[],='\"\r\n";
     let maybe_names =
         take_while::<_, _, ()>(move |c: char| c.is_ascii_alphanumeric() || !not.contains(c));
-    terminated(maybe_names, char('='))(i).is_ok()
+
+    // a string literal (`str<char>STRING<char>`) is not a name, but could contain a '='
+    let is_name = |c: char| c.is_ascii_alphanumeric() || "-_= \t".contains(c);
+    let is_str = i
+        .strip_prefix("str")
+        .and_then(|rem| rem.chars().next())
+        .map_or(false, |delimiter| !is_name(delimiter));
+
+    !is_str && terminated(maybe_names, char('='))(i).is_ok()
 }
 
 #[cfg(test)]
-- 
2.43.0


From a99baf211c463503baedabfd35c047a5a08e91a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:21 +0000
Subject: [PATCH 11/20] fix: never format map keys or nested lists as verbose

A request could make a key verbose, which panicked or wrote text that
does not parse. The same held for a sequence or map which is in another
sequence or map, as it has no field name for its entries.
---
 src/fmt/formatter.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 8b9d52e..6e9983e 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -20,6 +20,8 @@ use std::{error, fmt as stdfmt, ops::Deref};
 /// 3. Tuples cannot be formatted as `Verbose`
 /// 4. Primitives can _only_ be formatted as `Inline`
 /// 5. A sequence or map which is at the root cannot be formatted as `Verbose`
+/// 6. A map key cannot be formatted as `Verbose`, nor can a sequence or map which is in another
+///    sequence or map
 ///
 /// If a request is made that fails one of these conditions, an error result is returned.
 ///
@@ -104,11 +106,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
 
         for node in nav.nodes() {
             indices.push(node.index());
-            let mut line = max_line_repr(&node.value());
-
-            if node.is_key() {
-                line = std::cmp::min(line, Repr::Concise);
-            }
+            let line = max_node_line_repr(&node);
 
             let id = true;
 
@@ -300,7 +298,7 @@ impl<'a, 'k> Formatter<'a, 'k> {
     }
 
     fn line_repr_constraints(&self, node: &Node) -> (Repr, Option<Repr>) {
-        let max_line_repr = max_line_repr(&node.value());
+        let max_line_repr = max_node_line_repr(node);
         let parent_line_repr = node
             .parent()
             .and_then(|p| self.fmts.get(p.index()))
@@ -376,6 +374,24 @@ fn max_line_repr(nv: &NodeValue) -> Repr {
     }
 }
 
+/// Highest line representation a node can take where it is. A map key is always delimited, and a
+/// sequence or a map can only be verbose if there is a field name.
+fn max_node_line_repr(node: &Node) -> Repr {
+    use NodeValue::*;
+    let value = node.value();
+    let max = max_line_repr(&value);
+    let in_list = matches!(
+        node.parent().map(|x| x.value()),
+        Some(Seq(_)) | Some(Map(_))
+    );
+
+    if node.is_key() || (in_list && matches!(value, Seq(_) | Map(_))) {
+        std::cmp::min(max, Repr::Concise)
+    } else {
+        max
+    }
+}
+
 /// Validates that the request can be made.
 /// Will return the `Repr` if it can, otherwise the error if not.
 fn validate_requst_repr(
-- 
2.43.0


From 28be8661ccc828837f5b09d747bd3e96fd0a9ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:21 +0000
Subject: [PATCH 12/20] fix: indent verbose map entries and write the identity
 of verbose lists

---
 src/fmt/maps.rs |  6 +++---
 src/fmt/mod.rs  | 14 ++++++++++++++
 src/fmt/seqs.rs |  4 +---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/fmt/maps.rs b/src/fmt/maps.rs
index ae5fbf3..fc19ded 100644
--- a/src/fmt/maps.rs
+++ b/src/fmt/maps.rs
@@ -93,9 +93,9 @@ pub(super) fn write(
 
             for (k, v) in map {
                 // write field name
-                buf.push_str("[[");
-                buf.push_str(field_name);
-                buf.push_str("]]\n");
+                write_indent(&mut buf, col);
+                write_entry_heading(&mut buf, field_name, fmt.id, id);
+                write_indent(&mut buf, col);
 
                 // if verbose write on new line, otherwise it is just concise like above
                 match fmts.get(v.index()).unwrap().line {
diff --git a/src/fmt/mod.rs b/src/fmt/mod.rs
index 358f871..8d84123 100644
--- a/src/fmt/mod.rs
+++ b/src/fmt/mod.rs
@@ -474,6 +474,20 @@ fn maybe_write_nonprim_ident(buf: &mut String, print: bool, ident: Option<&str>)
     }
 }
 
+/// Writes the heading of an entry in a verbose sequence or map.
+/// These are in '[[field_name:Name]]' format if the identity is written.
+fn write_entry_heading(buf: &mut String, field_name: &str, print: bool, ident: Option<&str>) {
+    buf.push_str("[[");
+    buf.push_str(field_name);
+    if print {
+        if let Some(ident) = ident {
+            buf.push(':');
+            buf.push_str(ident);
+        }
+    }
+    buf.push_str("]]\n");
+}
+
 fn delim_writer<P, B, S>(buf: String, prefix: P, suffix: S, body: B) -> String
 where
     P: FnOnce(String) -> String,
diff --git a/src/fmt/seqs.rs b/src/fmt/seqs.rs
index 911e4e1..cc05bd0 100644
--- a/src/fmt/seqs.rs
+++ b/src/fmt/seqs.rs
@@ -61,9 +61,7 @@ pub(super) fn write(
             for n in seq {
                 // write field name
                 write_indent(&mut buf, col);
-                buf.push_str("[[");
-                buf.push_str(field_name);
-                buf.push_str("]]\n");
+                write_entry_heading(&mut buf, field_name, fmt.id, id);
 
                 // write value
                 match fmts.get(n.index()).unwrap().line {
-- 
2.43.0


From b5f4c2f4b1843276ce917f797c787262c9fc569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:21 +0000
Subject: [PATCH 13/20] fix: tell an inline sequence from the heading of a
 verbose entry

A sequence of sequences did not parse, nor did a verbose container which
starts with a heading that has an identity, or a verbose map entry which
has a key over multiple lines. An identity is only taken from the line
that has the opening delimiter.
---
 src/parse/cntr.rs       | 12 +++++++-----
 src/parse/heuristics.rs | 41 ++++++++++++++++++++++++-----------------
 src/parse/mod.rs        |  2 +-
 3 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index e1bcce3..c3b7bc7 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -227,11 +227,11 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
             let (i, _) = ignore_inline_whitespace(line_ending)(i)?;
 
             // now work out if it is a map or just sequence.
-            // a map as the usual inline kserd, followed by the colon.
+            // a map as the usual delimited kserd, followed by the colon.
 
-            // get the key (kserd-inline:)
+            // get the key (kserd:)
             let (i, key) = opt(terminated(
-                ignore_inline_whitespace(uncut(kserd_inline)),
+                ignore_inline_whitespace(uncut(kserd_concise)),
                 ignore_inline_whitespace(char(':')),
             ))(i)?;
 
@@ -287,7 +287,9 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
     }
 }
 
-fn expect_indents<'a, E: CxErr<'a>>(indents: usize) -> impl Fn(&'a str) -> IResult<&'a str, (), E> {
+pub(super) fn expect_indents<'a, E: CxErr<'a>>(
+    indents: usize,
+) -> impl Fn(&'a str) -> IResult<&'a str, (), E> {
     move |i: &'a str| {
         let mut r = i;
 
@@ -302,7 +304,7 @@ fn expect_indents<'a, E: CxErr<'a>>(indents: usize) -> impl Fn(&'a str) -> IResu
 
 /// Ignores all whitespace around name and identity. Field name _must_ exist, and if there is a
 /// separator (`:`) then the identity _must_ exist as well.
-fn verbose_field_name_and_identity<'a, E: CxErr<'a>>(
+pub(super) fn verbose_field_name_and_identity<'a, E: CxErr<'a>>(
     i: &'a str,
 ) -> IResult<&'a str, (Kstr<'a>, Option<Kstr<'a>>), E> {
     context("verbose container field name", |i| {
diff --git a/src/parse/heuristics.rs b/src/parse/heuristics.rs
index 39d541d..e77b463 100644
--- a/src/parse/heuristics.rs
+++ b/src/parse/heuristics.rs
@@ -40,7 +40,7 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
         }
     };
 
-    let (i, _) = multiline_whitespace(i)?;
+    let (i, _) = inline_whitespace(i)?; // an identity is on the same line as the delimiter
     let next = i.chars().next().unwrap_or(' ');
 
     let mut r = if next == '[' {
@@ -68,30 +68,37 @@ pub(super) fn pattern_match_delimited<'a, E: CxErr<'a>>(
 }
 
 /// This only matches `Verbose` variants, returning true if it looks like a `Verbose` formatting.
+/// `indents` is the number of _indents_ expected of a `Verbose` variant.
 /// _Always_ returns the original input.
-pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(orig: &'a str) -> IResult<&'a str, bool, E> {
-    let (i, _) = multiline_whitespace(orig)?; // ignore _all_ whitespace before hand
+pub(super) fn pattern_match_verbose<'a, E: CxErr<'a>>(
+    indents: usize,
+    orig: &'a str,
+) -> IResult<&'a str, bool, E> {
+    let (i, ws) = multiline_whitespace(orig)?; // ignore _all_ whitespace before hand
 
     // generally a Verbose format can be recognised by:
     // - An identity (:id)
     // - A direct mapping (var_name = xxx)
     // - A nested mapping ([var_name])
     // - A sequence or map entry ([[var_name]])
-    let encased = |s, e| {
-        preceded::<_, _, _, (), _, _>(
-            tag(s),
-            terminated(
-                ignore_inline_whitespace(valid_name),
-                ignore_inline_whitespace(tag(e)),
-            ),
-        )(i)
-        .is_ok()
+    let is = i.starts_with(':') || recognise_field_assign(i);
+
+    // an inline sequence can look the same as the heading of a nested mapping or an entry, but a
+    // heading is indented and is followed by a new line with something on it
+    let indented = cntr::expect_indents::<()>(indents)(ws.rsplit('\n').next().unwrap_or("")).is_ok();
+    let heading = |s, e| {
+        let (i, _) = tag::<_, _, ()>(s)(i)?;
+        let (i, _) = inline_whitespace(i)?;
+        valid_name(i)?;
+        let (i, _) = cntr::verbose_field_name_and_identity(i)?;
+        let (i, _) = ignore_inline_whitespace(tag(e))(i)?;
+        let (i, _) = ignore_inline_whitespace(line_ending)(i)?;
+        let (i, _) = multiline_whitespace(i)?;
+        Ok(!i.is_empty())
     };
-
-    let is = i.starts_with(':');
-    let is = is || i.starts_with("[[");
-    let is = is || recognise_field_assign(i);
-    let is = is || encased("[", "]");
+    let heading = |s, e| heading(s, e).unwrap_or_else(|_: Err<()>| false);
+    let is = is || indented && (heading("[[", "]]") || heading("[", "]"));
+    let is = is || i.starts_with("[[") && seq_delimited::<()>(false)(i).is_err();
 
     Ok((orig, is))
 }
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 6858271..a575aab 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -93,7 +93,7 @@ fn kserd_nested<'a, E: CxErr<'a>>(
     indents: usize,
 ) -> impl Fn(&'a str) -> IResult<&'a str, Kserd<'a>, E> {
     move |i: &'a str| {
-        let (i, verbose) = pattern_match_verbose(i)?;
+        let (i, verbose) = pattern_match_verbose(indents, i)?;
         if verbose {
             // verbose can only be a Container type!
             cntr::verbose(indents)(i)
-- 
2.43.0


From 53315e70df409b27ddfac66d1e9df2aa0207a704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:47 +0000
Subject: [PATCH 14/20] fix: parse a map key once

Trying each key twice took exponential time on nested malformed maps.
---
 src/parse/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/map.rs b/src/parse/map.rs
index 69c247c..1482045 100644
--- a/src/parse/map.rs
+++ b/src/parse/map.rs
@@ -14,7 +14,7 @@ fn kvp_kserd_to_kserd<'a, E: CxErr<'a>>(
         context(
             "kserd-kserd key-value pair",
             separated_pair(
-                alt((kserd_concise, kserd_inline)),
+                kserd_concise, // also parses inline
                 ignore_inline_whitespace(char(':')),
                 ignore_inline_whitespace(value_parser),
             ),
-- 
2.43.0


From 1bdd8d0fbf6afc206765fe8ef54db1553ff516d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:05 +0000
Subject: [PATCH 15/20] fix: lay a value out inline whenever that fits the
 width limit

The concise width was compared first, so a value whose concise layout is
wider than its inline one was written verbosely although it fits on a line.
---
 src/fmt/solver.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt/solver.rs b/src/fmt/solver.rs
index eb2f580..f6a83f3 100644
--- a/src/fmt/solver.rs
+++ b/src/fmt/solver.rs
@@ -431,12 +431,12 @@ fn min_line_repr(
     concise_widths: &[usize],
 ) -> Repr {
     if let Some(lim) = lim {
-        if concise_widths[idx] > lim {
-            Repr::Verbose
-        } else if inline_widths[idx] > lim {
+        if inline_widths[idx] <= lim {
+            Repr::Inline
+        } else if concise_widths[idx] <= lim {
             Repr::Concise
         } else {
-            Repr::Inline
+            Repr::Verbose
         }
     } else {
         Repr::Inline
-- 
2.43.0


From 23744846a02258916df9a67f45a9dbca39bc6fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:05 +0000
Subject: [PATCH 16/20] fix: refuse field names that are empty or start with a
 digit

The parser accepted names which a container does not allow and which could
not be read back once written as a heading.
---
 src/parse/names.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/names.rs b/src/parse/names.rs
index 2b99062..c1ae548 100644
--- a/src/parse/names.rs
+++ b/src/parse/names.rs
@@ -33,6 +33,8 @@ pub(super) fn ident<'a, E: CxErr<'a>>(
 }
 
 pub(super) fn field_name<'a, E: CxErr<'a>>(i: &'a str) -> IResult<&'a str, Kstr<'a>, E> {
+    alt((alpha1, tag("_")))(i)?; // can only start with a (ASCII) letter or underscore
+
     map(
         take_while(|c: char| c.is_ascii_alphanumeric() || c == '-' || c == '_'),
         Kstr::brwed,
-- 
2.43.0


From 443431952a8d16c54c8d297bba8691890952e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:10 +0000
Subject: [PATCH 17/20] fix: do not read a field of a verbose sequence entry as
 a map key

A field name starting with 'str' was taken for a string literal which could
run up to a later ':'.
---
 src/parse/cntr.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parse/cntr.rs b/src/parse/cntr.rs
index c3b7bc7..66dbd41 100644
--- a/src/parse/cntr.rs
+++ b/src/parse/cntr.rs
@@ -230,10 +230,14 @@ fn verbose_cntr_field<'a, E: CxErr<'a>>(
             // a map as the usual delimited kserd, followed by the colon.
 
             // get the key (kserd:)
-            let (i, key) = opt(terminated(
-                ignore_inline_whitespace(uncut(kserd_concise)),
-                ignore_inline_whitespace(char(':')),
-            ))(i)?;
+            let (i, key) = if recognise_field_assign(inline_whitespace(i)?.0) {
+                (i, None) // a field of a sequence entry
+            } else {
+                opt(terminated(
+                    ignore_inline_whitespace(uncut(kserd_concise)),
+                    ignore_inline_whitespace(char(':')),
+                ))(i)?
+            };
 
             if let Some(key) = key {
                 let (i, value) = context(
-- 
2.43.0


From 4e4ef1037219194b0317bd483dbc1d7f0180d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:17 +0000
Subject: [PATCH 18/20] fix: decode an empty struct variant from an empty tuple

An empty container and an empty tuple are the same value and print the
same, so an empty struct variant written as text reads back as an empty
tuple and could not be decoded.
---
 src/encode/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 9d8da14..7449d8c 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -337,6 +337,10 @@ impl<'de> de::VariantAccess<'de> for Decoder<'de> {
             Value::Cntr(map) => visitor.visit_map(MapDeserializer::new(
                 map.into_iter().map(|(k, v)| (k.inner, v)),
             )),
+            // an empty container is the same value as an empty tuple
+            Value::Tuple(v) if v.is_empty() => {
+                visitor.visit_seq(SeqDeserializer::new(v.into_iter()))
+            }
             x => Err(de::Error::invalid_type(
                 unexp_err(&x),
                 &"struct enum variant",
-- 
2.43.0


From 3690e147bc82985682e67ecc84492c2b0dd471d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:49 +0000
Subject: [PATCH 19/20] fix: convert every f32 to an f64 that converts back

The shortest decimal of 7.038531e-26 is read as an f64 half way between
two f32 values, which rounds to the other one.
---
 src/ds/num.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ds/num.rs b/src/ds/num.rs
index 1ceac5a..8907010 100644
--- a/src/ds/num.rs
+++ b/src/ds/num.rs
@@ -501,7 +501,15 @@ impl From<f64> for Number {
 }
 
 fn f32_to_f64(f: f32) -> f64 {
-    f.to_string().parse::<f64>().expect("shouldn't fail")
+    let x = f.to_string().parse::<f64>().expect("shouldn't fail");
+
+    // the shortest decimal can be so close to half way between two `f32`s that the `f64` lands on
+    // it, and would round to the neighbour
+    if x as f32 == f || f.is_nan() {
+        x
+    } else {
+        f64::from(f)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 754a38293b596abdccbb1631d557cab16a918943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:34 +0000
Subject: [PATCH 20/20] fix: decode a newtype struct named Some

---
 src/encode/decoder.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/encode/decoder.rs b/src/encode/decoder.rs
index 7449d8c..0bca35d 100644
--- a/src/encode/decoder.rs
+++ b/src/encode/decoder.rs
@@ -183,7 +183,7 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
 
     forward_to_deserialize_any! {
         bool str string
-        bytes byte_buf option unit newtype_struct seq tuple
+        bytes byte_buf option unit seq tuple
         tuple_struct map struct identifier ignored_any
     }
 
@@ -241,6 +241,20 @@ impl<'de> de::Deserializer<'de> for Decoder<'de> {
         }
     }
 
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _: &'static str,
+        visitor: V,
+    ) -> Res<V::Value> {
+        match self.0.val {
+            // the identity is the name of the struct, which may be `Some`
+            Value::Tuple(mut seq) if seq.len() == 1 => {
+                visitor.visit_newtype_struct(Decoder(seq.pop().expect("only one item")))
+            }
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     fn deserialize_enum<V: Visitor<'de>>(
         self,
         _name: &'static str,
-- 
2.43.0

