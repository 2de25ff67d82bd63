From 9565ba0e6abf81fa0e764e82c8b413e4332d1f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:47 +0000
Subject: [PATCH 01/14] fix: allocate a token pool in Lexer::tokenize_until_eof

A Lexer built with Lexer::new has a null token factory, so the public
tokenize_until_eof dereferenced a null pointer.
---
 src/lexer/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index eda131d..e84709f 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -1,4 +1,4 @@
-use alloc_from_pool::{Factory as PoolFactory, PoolValue};
+use alloc_from_pool::{Factory as PoolFactory, Pool, PoolValue};
 
 use crate::lexer::*;
 use crate::maybe_byte::*;
@@ -116,6 +116,10 @@ impl Lexer {
     pub fn tokenize_until_eof(&mut self) -> Vec<Token> {
         let mut tokens = vec![];
 
+        // A standalone lexer has no pool to allocate tokens from
+        let pool = Pool::new();
+        let tokens_factory = std::mem::replace(&mut self.tokens_factory, pool.factory());
+
         loop {
             let token = self.yylex().take_value();
             match token.token_type {
@@ -124,6 +128,8 @@ impl Lexer {
             }
         }
 
+        self.tokens_factory = tokens_factory;
+
         tokens
     }
 
-- 
2.43.0


From 24d1d1b46313ca1f58a09c6645873d1090ac37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 02/14] fix: do not stop reading at a magic comment whose name
 is not valid UTF-8

---
 src/lexer/parse_magic_comment.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lexer/parse_magic_comment.rs b/src/lexer/parse_magic_comment.rs
index 537d21e..aa142ca 100644
--- a/src/lexer/parse_magic_comment.rs
+++ b/src/lexer/parse_magic_comment.rs
@@ -306,13 +306,12 @@ impl Lexer {
             }
 
             let n = end - beg;
-            name = String::from_utf8(
+            name = String::from_utf8_lossy(
                 self.buffer
                     .substr_at(beg, beg + n)
-                    .expect("failed to get magic comment name")
-                    .to_vec(),
+                    .expect("failed to get magic comment name"),
             )
-            .map_err(|_| ())?;
+            .into_owned();
 
             let name_to_compare = name.replace('-', "_");
             for (name, kind) in MAGIC_COMMENTS.iter() {
-- 
2.43.0


From 7f5c1b2e7bda6d3d8fe8445a7582fd11bb4d06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:48 +0000
Subject: [PATCH 03/14] fix: duplicate parameter names that start with a
 multibyte character do not panic

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 34faa6e..a9f63b1 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3885,7 +3885,7 @@ impl Builder {
     }
 
     pub(crate) fn arg_name_collides(&self, this_name: &str, that_name: &str) -> bool {
-        &this_name[0..1] != "_" && this_name == that_name
+        !this_name.starts_with('_') && this_name == that_name
     }
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
-- 
2.43.0


From 494d8fe82cb6653ae8937ae9e4abf9685681bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:52 +0000
Subject: [PATCH 04/14] fix: an empty key in a hash pattern is an error, not a
 panic

---
 src/builder.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index a9f63b1..f242b2e 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -3890,12 +3890,11 @@ impl Builder {
 
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
         let mut all_chars = name.chars();
-        let first = all_chars
-            .next()
-            .expect("local variable name can't be empty");
+        // the name can be empty, `in "\u{ }":` is the shortest way to get there
+        let starts_valid = matches!(all_chars.next(), Some(c) if c.is_lowercase() || c == '_');
         let mut rest = all_chars;
 
-        if (first.is_lowercase() || first == '_') && rest.all(|c| c.is_alphanumeric() || c == '_') {
+        if starts_valid && rest.all(|c| c.is_alphanumeric() || c == '_') {
             Ok(())
         } else {
             self.error(DiagnosticMessage::KeyMustBeValidAsLocalVariable {}, loc);
-- 
2.43.0


From 9ca2e75576a64644f0bfb05360a86374a84becce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:11 +0000
Subject: [PATCH 05/14] fix: a second block given to a command call is an
 error, not a panic

---
 src/builder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index f242b2e..6fb12c6 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -2104,6 +2104,14 @@ impl Builder {
             Node::CSend(CSend { args, .. }) => {
                 validate_block_and_block_arg(args)?;
             }
+            Node::Block(_) | Node::Numblock(_) => {
+                // `foo (1) {} do end`, the call already has a block
+                self.error(
+                    DiagnosticMessage::BlockAndBlockArgGiven {},
+                    method_call.expression(),
+                );
+                return Err(());
+            }
             _ => {}
         }
 
-- 
2.43.0


From c7ff68ac98e8fcef9087df688896dcb2d4b1f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:25 +0000
Subject: [PATCH 06/14] fix: names that start with _ or a caseless letter are
 not constants

{_foo:} and {\u3042:} read a constant, a keyword parameter or a quoted
pattern key named \u3042 was rejected. Only an uppercase first character
makes a constant.
---
 src/builder.rs     | 9 ++++++---
 src/parser/parse.y | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 6fb12c6..a0c8add 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -809,11 +809,11 @@ impl Builder {
         let value_l = key_l.adjust_end(-1);
 
         let label = value(key_t.clone());
-        let value = if label
+        let value = if !label
             .chars()
             .next()
             .expect("bug: label can't be empty")
-            .is_lowercase()
+            .is_uppercase()
         {
             Box::new(Node::Lvar(Lvar {
                 name: label,
@@ -3899,7 +3899,10 @@ impl Builder {
     pub(crate) fn check_lvar_name(&self, name: &str, loc: &Loc) -> Result<(), ()> {
         let mut all_chars = name.chars();
         // the name can be empty, `in "\u{ }":` is the shortest way to get there
-        let starts_valid = matches!(all_chars.next(), Some(c) if c.is_lowercase() || c == '_');
+        let starts_valid = matches!(
+            all_chars.next(),
+            Some(c) if (c.is_alphabetic() && !c.is_uppercase()) || c == '_'
+        );
         let mut rest = all_chars;
 
         if starts_valid && rest.all(|c| c.is_alphanumeric() || c == '_') {
diff --git a/src/parser/parse.y b/src/parser/parse.y
index e889a9c..18d5f1c 100644
--- a/src/parser/parse.y
+++ b/src/parser/parse.y
@@ -7025,7 +7025,7 @@ impl Parser {
     fn check_kwarg_name(&self, ident_t: &Token) -> Result<(), ()> {
         let name = clone_value(ident_t);
         let first_char = name.as_str().chars().next().expect("kwarg name can't be empty");
-        if first_char.is_lowercase() || first_char == '_' {
+        if !first_char.is_uppercase() {
             Ok(())
         } else {
             let loc = ident_t.loc;
-- 
2.43.0


From fe65e7069d1e7c21caeb5bdc45cb5ed316d0f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 07/14] fix: \8 and \9 in a string are the digits, not a NUL
 byte before them

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index ed83777..251b993 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -663,7 +663,7 @@ impl Lexer {
             Some(b'e') => MaybeByte::new(0x1b_u8),
 
             Some(b'0') | Some(b'1') | Some(b'2') | Some(b'3') | Some(b'4') | Some(b'5')
-            | Some(b'6') | Some(b'7') | Some(b'8') | Some(b'9') => {
+            | Some(b'6') | Some(b'7') => {
                 self.buffer.pushback(c);
                 let c = self.scan_oct(self.buffer.pcur, 3, &mut numlen);
                 self.buffer.pcur += numlen;
-- 
2.43.0


From a6035b254ae2e9e7a3a24a4982c67b6cd7448320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 08/14] fix: \C-x in a regexp is written with two hexadecimal
 digits

---
 src/lexer/parse_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index 251b993..bdffd43 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -324,7 +324,7 @@ impl Lexer {
                                     c = self.read_escape(0);
 
                                     let mut escbuf = [0_u8; 5];
-                                    write!(&mut escbuf[..], "\\x{:X}", c.expect("bug")).unwrap();
+                                    write!(&mut escbuf[..], "\\x{:02X}", c.expect("bug")).unwrap();
                                     for byte in escbuf.iter().take(4) {
                                         self.tokadd(MaybeByte::Some(*byte));
                                     }
-- 
2.43.0


From 0e41704cc8d52bb606f822bb5ad5f74d2031e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 09/14] fix: a backslash before a multibyte character in a
 single-quoted string is not read twice

---
 src/lexer/parse_string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer/parse_string.rs b/src/lexer/parse_string.rs
index bdffd43..bddb65b 100644
--- a/src/lexer/parse_string.rs
+++ b/src/lexer/parse_string.rs
@@ -314,6 +314,7 @@ impl Lexer {
                         if !c.is_ascii() && (func & STR_FUNC_EXPAND) == 0 {
                             self.tokadd(b'\\');
                             self.tokadd(c);
+                            continue;
                         }
                         if (func & STR_FUNC_REGEXP) != 0 {
                             match c {
-- 
2.43.0


From 07bb55726d089eb487546d2666434da7652cb22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 10/14] fix: keep the sign of a prefixed number in front
 (+0x10)

---
 src/lexer/parse_numeric.rs | 10 ++--------
 src/token_buf.rs           |  6 ------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 477cb3c..9710543 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -26,6 +26,7 @@ impl Lexer {
             c = self.nextc();
         }
         if c == b'0' {
+            self.tokadd(c);
             let start = self.toklen();
             c = self.nextc();
             if c == b'x' || c == b'X' {
@@ -67,7 +68,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'b' || c == b'B' {
@@ -109,7 +109,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'd' || c == b'D' {
@@ -151,7 +150,6 @@ impl Lexer {
                 }
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
                 let mut tok = self.tokenbuf.take();
-                tok.prepend(b"0");
                 return self.set_integer_literal(&mut tok, suffix);
             }
             if c == b'_' {
@@ -178,14 +176,11 @@ impl Lexer {
             }
             if c > b'7' && c <= b'9' {
                 self.invalid_octal();
-            } else if c == b'.' || c == b'e' || c == b'E' {
-                self.tokadd(b'0');
-            } else {
+            } else if c != b'.' && c != b'e' && c != b'E' {
                 self.buffer.pushback(c);
                 suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
 
                 let mut tok = self.tokenbuf.take();
-                tok.push(b'0');
                 return self.set_integer_literal(&mut tok, suffix);
             }
         }
@@ -304,7 +299,6 @@ impl Lexer {
             }
             let suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
             let mut tok = self.tokenbuf.take();
-            tok.prepend(b"0");
             return Some(self.set_integer_literal(&mut tok, suffix));
         }
         if let Some(MaybeByte::Some(byte)) = nondigit {
diff --git a/src/token_buf.rs b/src/token_buf.rs
index b8f7159..a6bab32 100644
--- a/src/token_buf.rs
+++ b/src/token_buf.rs
@@ -26,12 +26,6 @@ impl TokenBuf {
         }
     }
 
-    pub(crate) fn prepend(&mut self, part: &[u8]) {
-        let mut tmp = part.to_vec();
-        tmp.extend(self.bytes.as_raw().iter());
-        self.bytes.set_raw(tmp);
-    }
-
     pub(crate) fn borrow_string(&self) -> Result<&str, &[u8]> {
         match std::str::from_utf8(self.bytes.as_raw()) {
             Ok(s) => Ok(s),
-- 
2.43.0


From 3ec24b615ecb6f1628a5732aa45a11c1b97162b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 11/14] fix: 1e at the end of the input does not swallow the e

---
 src/lexer/parse_numeric.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer/parse_numeric.rs b/src/lexer/parse_numeric.rs
index 9710543..4a34d25 100644
--- a/src/lexer/parse_numeric.rs
+++ b/src/lexer/parse_numeric.rs
@@ -223,10 +223,12 @@ impl Lexer {
                     if seen_e {
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
-                    nondigit = Some(c);
+                    let e = c;
+                    nondigit = Some(e);
                     c = self.nextc();
                     if c != b'-' && c != b'+' && !c.is_digit() {
                         self.buffer.pushback(c);
+                        c = e;
                         nondigit = None;
                         return self.decode_num(c, nondigit, is_float, seen_e);
                     }
-- 
2.43.0


From 10aa3f4f32f4934351321e6d5236a4a4a256b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 12/14] fix: a tab wider than the heredoc's indentation is not
 removed

---
 src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index a0c8add..c83c724 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -541,7 +541,7 @@ impl Builder {
                 col += 1;
             } else if s[i] == b'\t' {
                 let n = Self::TAB_WIDTH * (col / Self::TAB_WIDTH + 1);
-                if n > Self::TAB_WIDTH {
+                if n > width {
                     break;
                 }
                 col = n;
-- 
2.43.0


From b293b72cba14fe327bfcded2501eaf2737006b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 13/14] fix: text after an interpolation in a squiggly heredoc
 is not dedented

---
 src/builder.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index c83c724..c46bc95 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -457,6 +457,8 @@ impl Builder {
             .expect("dedent_level must be positive");
 
         let dedent_heredoc_parts = |parts: Vec<Node>| -> Vec<Node> {
+            // text that follows an interpolation doesn't start a line
+            let mut at_line_begin = true;
             parts
                 .into_iter()
                 .filter_map(|part| match part {
@@ -466,7 +468,12 @@ impl Builder {
                         end_l,
                         expression_l,
                     }) => {
-                        let value = Self::dedent_string(value, dedent_level);
+                        let value = if at_line_begin {
+                            Self::dedent_string(value, dedent_level)
+                        } else {
+                            value
+                        };
+                        at_line_begin = true;
                         if value.is_empty() {
                             None
                         } else {
@@ -483,7 +490,10 @@ impl Builder {
                     | Node::BackRef(_)
                     | Node::NthRef(_)
                     | Node::Ivar(_)
-                    | Node::Cvar(_) => Some(part),
+                    | Node::Cvar(_) => {
+                        at_line_begin = false;
+                        Some(part)
+                    }
                     other => {
                         unreachable!("unsupported heredoc child {}", other.str_type())
                     }
-- 
2.43.0


From 97346208173160029c8fc28f3ccda171ab1a32b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:24 +0000
Subject: [PATCH 14/14] fix: a carriage return in the middle of a line is white
 space

---
 src/lexer/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer/main.rs b/src/lexer/main.rs
index e84709f..467b25a 100644
--- a/src/lexer/main.rs
+++ b/src/lexer/main.rs
@@ -231,6 +231,8 @@ impl Lexer {
                             self.current_loc(),
                         );
                     }
+                    space_seen = true;
+                    continue 'retrying;
                 }
 
                 Some(b' ') | Some(b'\t') | Some(Self::LF_CHAR) | Some(Self::VTAB_CHAR) => {
-- 
2.43.0

