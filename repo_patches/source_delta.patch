From 807bf63855a0ad2c0d2d2d908dabeca8ccc59d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 01/47] verif hook: re-export tokenizer vocabulary under
 cfg(jsparse_verif)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f3971fe..15ee666 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,3 +12,10 @@ pub use tokenizer::IntoTokenizer;
 pub use tokenizer::Tokenizer;
 
 pub mod parser;
+
+// Names of the tokenizer vocabulary, for external monitors that implement
+// `Tokenizer` themselves. Only with `RUSTFLAGS="--cfg jsparse_verif"`.
+#[cfg(jsparse_verif)]
+pub mod verif_hooks {
+    pub use tokenizer::{tokens, Hint, Position, TokenRange};
+}
-- 
2.43.0


From a486592f3e9fc9300fdfffdd993ec3e9cad58c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:34 +0000
Subject: [PATCH 02/47] fix: skip whole NBSP/ZWNBSP characters instead of
 stopping inside them

Whitespace was skipped one byte at a time, so a two- or three-byte
whitespace character left the offset inside the character and the next
slice panicked.
---
 src/tokenizer/slice.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 0aa1fad..a003cd6 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -23,25 +23,15 @@ impl<'code> Clone for SliceTokenizer<'code> {
 }
 
 fn eat_whitespace(code: &str, pos: &mut Position) {
-    let mut index = pos.offset;
-
-    for &b in code[pos.offset..].as_bytes() {
-        match b {
-            b'\x09' | b'\x0B' | b'\x0C' | b'\x20' => {
-                index += 1;
-            }
-            b'\xEF' if code[index..].starts_with(WS_ZWNBSP) => {
-                index += 1;
-            }
-            b'\xC2' if code[index..].starts_with(WS_NBSP) => {
-                index += 1;
+    for c in code[pos.offset..].chars() {
+        match c {
+            '\u{0009}' | '\u{000B}' | '\u{000C}' | '\u{0020}' | '\u{00A0}' | '\u{FEFF}' => {
+                pos.offset += c.len_utf8();
+                pos.column += 1;
             }
             _ => break,
         }
     }
-
-    pos.column += index - pos.offset;
-    pos.offset = index;
 }
 
 fn increment_position(code: &str, size: usize, pos: &mut Position) {
-- 
2.43.0


From e8791bb6ac5822f3f968a4d6914b03711b1cc442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 03/47] fix: number lines from 1, as Position documents

---
 src/tokenizer/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index a003cd6..4ac4739 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -92,7 +92,7 @@ impl<'code> IntoTokenizer<'code> for &'code str {
     fn into_tokenizer(self) -> Self::Item {
         SliceTokenizer {
             code: self,
-            position: Default::default(),
+            position: Position { offset: 0, line: 1, column: 0 },
         }
     }
 }
-- 
2.43.0


From 8f4c85a79e6ce19f1d4037448539cf939b7dd75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 04/47] fix: read CR LF as a single line terminator

Position documents \r\n as a single line, but the two characters were
returned as separate tokens and counted as two lines.
---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 4ac4739..7c32335 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -307,6 +307,10 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         b'\xC2' if code.starts_with(WS_NBSP) => {
             unreachable!();
         }
+        b'\x0D' if len > 1 && bytes[1] == b'\x0A' => {
+            *token = tokens::LineTerminatorToken {}.into();
+            2
+        }
         b'\x0A' | b'\x0D' => {
             *token = tokens::LineTerminatorToken {}.into();
             1
-- 
2.43.0


From 1b35e5f0be2c7c9e732a7f7f7181b155cc4e72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 05/47] fix: read hexadecimal letters, and check the first
 digit after a base prefix

Letters were counted as 0-5, and the first character after 0x/0o/0b was
taken as a digit whatever it was (0xff, 0xg, 0b2), overflowing for
characters below '0'. Also covers 0x and 0. at the end of the input.
---
 src/tokenizer/slice.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 7c32335..b36a1c3 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -428,12 +428,12 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
     let len = code.len();
     let index = 0;
 
-    let b = if index + 2 < len { bytes[index + 1] } else { 0 };
+    let b = if index + 1 < len { bytes[index + 1] } else { 0 };
     match b {
         b'x' | b'X' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -444,11 +444,11 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                     }
                     v @ b'a'...b'f' => {
                         val *= 16f64;
-                        val += (v - b'a') as f64;
+                        val += (v - b'a') as f64 + 10f64;
                     }
                     v @ b'A'...b'F' => {
                         val *= 16f64;
-                        val += (v - b'A') as f64;
+                        val += (v - b'A') as f64 + 10f64;
                     }
                     _ => break,
                 }
@@ -456,13 +456,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'o' | b'O' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -480,13 +484,17 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
         b'b' | b'B' => {
-            let mut val = (bytes[index + 2] - b'0') as f64;
+            let mut val = 0f64;
 
-            let mut i = index + 3;
+            let mut i = index + 2;
             loop {
                 if i == len { break }
 
@@ -504,6 +512,10 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
                 i += 1;
             }
 
+            if i == index + 2 {
+                unimplemented!("invalid number error")
+            }
+
             number(val, code[index..i].into(), token);
             i
         }
-- 
2.43.0


From f2a1d017d7b5d172b0cf9e6c9a08a6a0b500584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 06/47] fix: exponents after a lone zero, without digits, and
 of any size

0e1 was split into a number and a name, 1e and 1e+ were taken as
complete numbers, and exponents beyond i32 overflowed.
---
 src/tokenizer/slice.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index b36a1c3..e8f6da6 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -542,7 +542,7 @@ fn tok_zero_num<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>)
             offset
         }
         _ => {
-            let (_, num) = parse_exponent(bytes);
+            let (_, num) = parse_exponent(&bytes[1..]);
 
             number(0f64, code[index..index + num + 1].into(), token);
             index + num + 1
@@ -873,8 +873,7 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
             v @ b'0' ... b'9' => {
                 let val = (v - b'0') as i32;
                 if val != 0 || value != 0 {
-                    value *= 10;
-                    value += val;
+                    value = (value as i32).saturating_mul(10).saturating_add(val);
                 }
             }
             _ => break,
@@ -883,6 +882,10 @@ fn parse_exponent(bytes: &[u8]) -> (i32, usize) {
         i += 1;
     }
 
+    if i == offset {
+        return (0, 0);
+    }
+
     (sign * value, i)
 }
 
-- 
2.43.0


From 01970e8e56039aef3856b90693215a44db4718ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 07/47] fix: refuse unterminated strings

They were returned as a string token of length zero, so the tokenizer
did not advance and the text was returned again on every read.
---
 src/tokenizer/slice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index e8f6da6..310946a 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -796,6 +796,11 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
         }
     }
 
+    if end == start {
+        // Invalid string
+        panic!("unterminated string")
+    }
+
     let raw = Cow::from(&code[start..end]);
 
     if pieces.len() == 1 {
-- 
2.43.0


From a4b9a407979a3f0c8e8d0350e96e85813307741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 08/47] fix: a line continuation ending in CR allows only the
 LF that follows it

Every later raw LF in the string was let through as well.
---
 src/tokenizer/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 310946a..ac2eebf 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -704,7 +704,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
         if in_escape == 1 {
             match b {
                 b'\r' => {
-                    ignore_nl = true;
+                    ignore_nl = bytes.get(i + 1) == Some(&b'\n');
                     in_escape = 0;
                     continue;
                 }
@@ -782,7 +782,7 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 break;
             },
             b'\n' if ignore_nl => {
-
+                ignore_nl = false;
             }
             b'\r' | b'\n' => {
                 // Invalid string
-- 
2.43.0


From 5f37ddccf164f3994fb5062f2e0d68c04a919cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 09/47] fix: accept escapes of characters that have no special
 meaning

'\/', '\-', '\d' and the like are valid and stand for the character.
---
 src/tokenizer/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index ac2eebf..242ee36 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -734,7 +734,8 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                     panic!("numbers not allowed");
                 }
                 _ => {
-                    unimplemented!("totally bad escapes");
+                    in_escape = 0;
+                    continue;
                 }
             }
         }
-- 
2.43.0


From 9b942c64ab585942206eb7f7b6394b92d9c42ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 10/47] fix: escaped backquotes and ${ do not end a template
 piece

---
 src/tokenizer/slice.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 242ee36..12a3081 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -376,9 +376,17 @@ fn tok_template_head<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'c
     let bytes = code.as_bytes();
 
     let mut break_curly = false;
+    let mut in_escape = false;
 
     for (i, &b) in bytes.iter().enumerate().skip(1) {
         match b {
+            _ if in_escape => {
+                in_escape = false;
+            }
+            b'\\' => {
+                in_escape = true;
+                break_curly = false;
+            }
             b'{' if  break_curly => {
                 template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Head, token);
                 return i + 1;
@@ -654,9 +662,17 @@ fn tok_curly_close<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut token
     let bytes = code.as_bytes();
     if hint.template {
         let mut break_curly = false;
+        let mut in_escape = false;
 
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                _ if in_escape => {
+                    in_escape = false;
+                }
+                b'\\' => {
+                    in_escape = true;
+                    break_curly = false;
+                }
                 b'{' if break_curly => {
 
                     template(code[1..i - 1].into(), code[1..i - 1].into(), TemplateFormat::Middle, token);
-- 
2.43.0


From b2ff2a2958f26c052d0eb77cd8eccf27fc8009ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 11/47] fix: refuse regular expressions that span lines

---
 src/tokenizer/slice.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 12a3081..733135a 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -610,9 +610,16 @@ fn tok_slash<'code, 'tok>(code: &'code str, hint: &Hint, token: &mut tokens::Tok
         let mut in_class = false;
         for (i, &b) in bytes.iter().enumerate().skip(1) {
             match b {
+                b'\r' | b'\n' => {
+                    // Invalid regex
+                    panic!("regex with newlines")
+                }
+                b'\xE2' if code[i..].starts_with(NS_PS) || code[i..].starts_with(NS_LS) => {
+                    // Invalid regex
+                    panic!("regex with newlines")
+                }
                 _ if in_escape => {
                     in_escape = false;
-                    // TODO: Throw if newlines?
                 }
                 b'\\' => {
                     in_escape = true;
-- 
2.43.0


From 6abffb09cdcc79a24699f76c051d3212a9626677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 12/47] fix: read --> as -- followed by >

HTML-like comments do not exist in modules, and no parser rule took the
token, so loops like while (x --> 0) were rejected.
---
 src/tokenizer/slice.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 733135a..4c8e142 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -224,11 +224,8 @@ pub fn read_next<'code, 'b, 'c, 'tok>(code: &'code str, hint: &'c Hint, token: &
         }
         b'-' => {
             if len > 1 && bytes[1] == b'-' {
-                if len > 2 && bytes[2] == b'>' {
-                    punc(PunctuatorToken::MinusMinusAngle, 3, token)
-                } else {
-                    punc(PunctuatorToken::MinusMinus, 2, token)
-                }
+                // "-->" is not a token in modules: x-->0 is x-- > 0.
+                punc(PunctuatorToken::MinusMinus, 2, token)
             } else if len > 1 && bytes[1] == b'=' {
                 punc(PunctuatorToken::MinusEq, 2, token)
             } else {
-- 
2.43.0


From 3e90d69b98341c251921f4b0568b8e74029dabe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 13/47] fix: refuse characters that cannot start a token

They were returned as an identifier with an empty name and length, so
the tokenizer never advanced past them.
---
 src/tokenizer/slice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 4c8e142..9ed18e2 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -362,6 +362,10 @@ fn tok_ident<'code, 'tok>(code: &'code str, token: &mut tokens::Token<'code>) ->
         }
     }
 
+    if end == index {
+        unimplemented!("unknown character")
+    }
+
     *token = tokens::IdentifierNameToken {
         name: (&code[..end]).into(),
     }.into();
-- 
2.43.0


From 39430dfefa3ac45ffea90da89f82825be9711df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 14/47] fix: refuse \x and \u escapes without their digits

Any characters were consumed in their place, line breaks and the closing
quote included.
---
 src/tokenizer/slice.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tokenizer/slice.rs b/src/tokenizer/slice.rs
index 9ed18e2..ebdc89c 100644
--- a/src/tokenizer/slice.rs
+++ b/src/tokenizer/slice.rs
@@ -763,6 +763,14 @@ fn tok_str<'code, 'tok>(t: u8, code: &'code str, token: &mut tokens::Token<'code
                 }
             }
         }
+        if (in_hex_escape || in_unicode_escape) && in_escape >= 2 {
+            match b {
+                b'0'...b'9' | b'a'...b'f' | b'A'...b'F' => {}
+                b'{' if in_unicode_escape && in_escape == 2 => {}
+                b'}' if in_long_unicode_escape && in_escape > 3 => {}
+                _ => panic!("bad escape"),
+            }
+        }
         if in_hex_escape && in_escape == 3 {
             in_escape = 0;
             in_hex_escape = false;
-- 
2.43.0


From 65b4628ca3b46b43b4201d5d13dd6e741e90e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 15/47] fix: read each slash under the goal its position
 demands

---
 src/parser/declarations.rs |  1 +
 src/parser/expressions.rs  | 15 +++++++++++++--
 src/parser/mod.rs          | 12 ++++++++++--
 src/parser/module.rs       |  4 ++++
 src/parser/statements.rs   | 12 ++++++++++++
 5 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 5ece444..84fceca 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -73,6 +73,7 @@ where
         } else {
             eat_value!(self.binding_identifier());
 
+            self.expect_expression();
             if initializer_required {
                 eat_value!(self.parse_initializer()?);
             } else {
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 63c4ddd..3dd8f3b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -126,10 +126,15 @@ where
     fn reify_arrow(&mut self, _left: ()) -> OptResult<()> {
         self.expect_expression();
 
-        Ok(try_sequence!(
+        let body = try_sequence!(
             self.parse_block_statement()?,
             self.parse_assignment_expression()?,
-        ))
+        );
+
+        // No operator can follow a block body.
+        self.expect_expression();
+
+        Ok(body)
     }
     fn reify_assignment(&mut self, _left: (), _op: tokens::PunctuatorToken) -> OptResult<()> {
         self.expect_expression();
@@ -144,6 +149,7 @@ where
     fn parse_yield_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("yield"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             self.expect_expression();
             opt_value!(self.punc(tokens::PunctuatorToken::Star));
@@ -385,6 +391,7 @@ where
     }
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
+            self.expect_expression();
             eat_value!(self.parse_left_hand_expression(false)?);
         } else {
             if let TokenResult::None = try_sequence!(
@@ -425,6 +432,7 @@ where
                 LeftType::Computed => {
                     self.pop();
                     // eat_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
+                    self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_expression()?);
                     eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
                 },
@@ -631,6 +639,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         loop {
+            self.expect_expression();
             if let TokenResult::Some(_) = self.parse_array_item()? {
             }
 
@@ -685,6 +694,7 @@ where
     }
     fn parse_array_item(&mut self) -> OptResult<()> {
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
+            self.expect_expression();
             eat_value!(self.parse_assignment_expression()?);
         } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
         }
@@ -702,6 +712,7 @@ where
         if tok.format == tokens::TemplateFormat::Head {
             let mut parser = self.with(Flag::Template);
             loop {
+                parser.expect_expression();
                 eat_value!(parser.parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e6947c8..38a0786 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -184,7 +184,11 @@ where
 
 impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
     pub fn expect_expression(&mut self) {
-        self.hint = self.hint.expression(true);
+        // The hint is for the next token. If that has been read already, the
+        // one after it must not inherit the hint.
+        if self.count == 0 {
+            self.hint = self.hint.expression(true);
+        }
     }
 
     pub fn semicolon(&mut self) -> TokenResult<()> {
@@ -304,7 +308,11 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         if self.count < 2 {
             let flags = self.flags;
             let expect_expression = if let tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) = *self.token() {
-                !is_binding_identifier(&flags, name)
+                match &**name {
+                    // These are operands, so a slash after them divides.
+                    "this" | "super" | "null" | "true" | "false" => false,
+                    _ => !is_binding_identifier(&flags, name),
+                }
             } else {
                 return None;
             };
diff --git a/src/parser/module.rs b/src/parser/module.rs
index d54b2b1..d1584bf 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -39,6 +39,7 @@ where
             eat_value!(self.string());
         }
 
+        self.expect_expression();
         eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
@@ -62,6 +63,7 @@ where
 
         if let TokenResult::Some(_) = self.keyword("default") {
             let mut parser = self.with(Flag::Default);
+            parser.expect_expression();
 
             if let TokenResult::Some(_) = parser.parse_function_declaration()? {
 
@@ -92,6 +94,7 @@ where
 
                 eat_value!(self.punc(tokens::PunctuatorToken::CurlyClose));
 
+                self.expect_expression();
                 if let TokenResult::Some(_) = self.keyword("from") {
                     eat_value!(self.string());
                 } else {
@@ -99,6 +102,7 @@ where
                 }
             }
 
+            self.expect_expression();
             eat_value!(self.semicolon());
         }
 
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 21b23b1..cef5269 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -157,6 +157,7 @@ where
             eat_value!(self.parse_initializer()?);
         } else {
             eat_value!(self.binding_identifier());
+            self.expect_expression();
             opt_value!(self.parse_initializer()?);
         }
         Ok(TokenResult::Some(()))
@@ -310,6 +311,7 @@ where
 
         eat_value!(self.parse_statement()?);
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("else") {
             eat_value!(self.parse_statement()?);
         }
@@ -344,6 +346,7 @@ where
         eat_value!(self.with(Flag::In).parse_expression()?);
         eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
 
+        self.expect_expression();
         eat_value!(self.semicolon_dowhile());
 
         Ok(TokenResult::Some(()))
@@ -602,10 +605,12 @@ where
     fn parse_continue_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("continue"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
 
+        self.expect_expression();
         eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
@@ -613,10 +618,12 @@ where
     fn parse_break_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("break"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             opt_value!(self.label_identifier());
         }
 
+        self.expect_expression();
         eat_value!(self.semicolon());
         Ok(TokenResult::Some(()))
     }
@@ -624,6 +631,7 @@ where
     fn parse_return_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("return"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             self.expect_expression();
             opt_value!(self.with(Flag::In).parse_expression()?);
@@ -671,6 +679,7 @@ where
     fn parse_throw_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("throw"));
 
+        self.expect_expression();
         if self.no_line_terminator() {
             self.expect_expression();
             eat_value!(self.with(Flag::In).parse_expression()?);
@@ -684,6 +693,7 @@ where
 
         eat_value!(self.parse_block_statement()?);
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("catch") {
             eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
@@ -696,6 +706,7 @@ where
             eat_value!(self.parse_block_statement()?);
         }
 
+        self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
             eat_value!(self.parse_block_statement()?);
         }
@@ -705,6 +716,7 @@ where
 
     fn parse_debugger_statement(&mut self) -> OptResult<()> {
         try_value!(self.keyword("debugger"));
+        self.expect_expression();
         eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 60588363dd9d4aa57766a23d2f51f6155d40476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 16/47] fix: parse the rest of class expressions

---
 src/parser/classes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 359e694..c708979 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -24,6 +24,11 @@ where
     pub fn parse_class_expression(&mut self) -> OptResult<()> {
         try_value!(self.keyword("class"));
 
+        opt_value!(self.binding_identifier());
+        opt_value!(self.parse_class_heritage()?);
+
+        eat_value!(self.parse_class_body()?);
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From 8243400323aa7e94409ef7b39197414e37912398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:08 +0000
Subject: [PATCH 17/47] fix: accept new.target

---
 src/parser/expressions.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 3dd8f3b..7d54a7b 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -392,7 +392,11 @@ where
     fn parse_left_hand_expression(&mut self, allow_call: bool) -> OptResult<()> {
         if let TokenResult::Some(_) = self.keyword("new") {
             self.expect_expression();
-            eat_value!(self.parse_left_hand_expression(false)?);
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Period) {
+                eat_value!(self.keyword("target"));
+            } else {
+                eat_value!(self.parse_left_hand_expression(false)?);
+            }
         } else {
             if let TokenResult::None = try_sequence!(
                 self.parse_primary_expression()?,
-- 
2.43.0


From 4302f61f0bbcac3c02566d6dff4390d73bbb68c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:23 +0000
Subject: [PATCH 18/47] fix: allow the in operator wherever the grammar does

---
 src/parser/declarations.rs | 10 +++++-----
 src/parser/expressions.rs  | 38 ++++++++++++++++++++------------------
 src/parser/functions.rs    |  4 ++--
 src/parser/statements.rs   |  4 ++--
 4 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 84fceca..3e4eb0d 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -1,5 +1,5 @@
 use tokenizer::{Tokenizer, tokens};
-use parser::Parser;
+use parser::{Parser, Flag};
 use parser::utils::{OptResult, TokenResult};
 
 impl<'code, T> Parser<'code, T>
@@ -44,10 +44,10 @@ where
     pub fn parse_let_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("let"));
 
-        eat_value!(self.parse_lexical_declarator(false)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(false)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(false)?);
         }
         eat_value!(self.semicolon());
 
@@ -57,10 +57,10 @@ where
     pub fn parse_const_declaration(&mut self) -> OptResult<()> {
         try_value!(self.keyword("const"));
 
-        eat_value!(self.parse_lexical_declarator(true)?);
+        eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
 
         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-            eat_value!(self.parse_lexical_declarator(true)?);
+            eat_value!(self.with(Flag::In).parse_lexical_declarator(true)?);
         }
         eat_value!(self.semicolon());
 
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 7d54a7b..40472c5 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -678,7 +678,7 @@ where
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
+            eat_value!(self.with(Flag::In).parse_assignment_expression()?);
             return Ok(TokenResult::Some(()));
         }
 
@@ -687,7 +687,7 @@ where
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
+            eat_value!(self.with(Flag::In).parse_assignment_expression()?);
         } else {
             // TODO: This needs to handle singlename prop access
             // eat_value!(self.parse_method_tail(head)?);
@@ -699,8 +699,8 @@ where
     fn parse_array_item(&mut self) -> OptResult<()> {
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
             self.expect_expression();
-            eat_value!(self.parse_assignment_expression()?);
-        } else if let TokenResult::Some(_) = self.parse_assignment_expression()? {
+            eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+        } else if let TokenResult::Some(_) = self.with(Flag::In).parse_assignment_expression()? {
         }
         Ok(TokenResult::Some(()))
     }
@@ -717,7 +717,7 @@ where
             let mut parser = self.with(Flag::Template);
             loop {
                 parser.expect_expression();
-                eat_value!(parser.parse_expression()?);
+                eat_value!(parser.with(Flag::In).parse_expression()?);
 
                 let next = eat_value!(parser.template_tail());
 
@@ -730,32 +730,34 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_cover_parenthesized_expression(&mut self) -> OptResult<()> {
-        try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+        let mut parser = self.with(Flag::In);
 
-        self.expect_expression();
+        try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-        if let Some(_) = opt_value!(self.parse_assignment_expression()?) {
-            while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
-                self.expect_expression();
-                if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                    if let TokenResult::Some(_) = self.parse_binding_pattern()? {
+        parser.expect_expression();
+
+        if let Some(_) = opt_value!(parser.parse_assignment_expression()?) {
+            while let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                parser.expect_expression();
+                if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
+                    if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
                     } else {
-                        eat_value!(self.binding_identifier());
+                        eat_value!(parser.binding_identifier());
                     }
                 } else {
-                    eat_value!(self.parse_assignment_expression()?)
+                    eat_value!(parser.parse_assignment_expression()?)
                 }
             }
         } else {
-            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Ellipsis) {
-                if let TokenResult::Some(_) = self.parse_binding_pattern()? {
+            if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Ellipsis) {
+                if let TokenResult::Some(_) = parser.parse_binding_pattern()? {
                 } else {
-                    eat_value!(self.binding_identifier());
+                    eat_value!(parser.binding_identifier());
                 }
             }
         }
 
-        eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+        eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
         Ok(TokenResult::Some(()))
     }
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 4fbbee2..2efcbc2 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -110,9 +110,9 @@ where
             }
 
             if let TokenResult::Some(_) = self.parse_binding_pattern()? {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else if let TokenResult::Some(_) = self.binding_identifier() {
-                opt_value!(self.parse_initializer()?);
+                opt_value!(self.with(Flag::In).parse_initializer()?);
             } else {
                 break;
             }
diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index cef5269..9838901 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -507,12 +507,12 @@ where
         let found = if maybe_for {
             if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Semicolon) {
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Semicolon));
 
                 self.expect_expression();
-                opt_value!(self.parse_expression()?);
+                opt_value!(self.with(Flag::In).parse_expression()?);
                 true
             } else {
                 false
-- 
2.43.0


From 779d1ec479f657f89c66afea434caeee74820c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 19/47] fix: accept several spread arguments in one call

---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 40472c5..f07a41c 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -464,6 +464,7 @@ where
                 eat_value!(parser.parse_assignment_expression()?);
 
                 if let TokenResult::Some(_) = parser.punc(tokens::PunctuatorToken::Comma) {
+                    continue;
                 } else {
                     break;
                 }
-- 
2.43.0


From 0b69b7c926dfcf86bacb8e481dea0de408b8a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 20/47] fix: for-in iterates over a full expression

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 9838901..9c2bc28 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -525,7 +525,7 @@ where
             if maybe_x {
                 if let TokenResult::Some(_) = self.keyword("in") {
                     self.expect_expression();
-                    eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+                    eat_value!(self.with(Flag::In).parse_expression()?);
                 } else if let TokenResult::Some(_) = self.keyword("of") {
                     self.expect_expression();
                     eat_value!(self.with(Flag::In).parse_assignment_expression()?);
-- 
2.43.0


From f6becf85c06f32ff4e78def010545a7c825365d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 21/47] fix: throw takes its expression on the same line, and a
 semicolon

---
 src/parser/statements.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 9c2bc28..83ee0b1 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -680,10 +680,12 @@ where
         try_value!(self.keyword("throw"));
 
         self.expect_expression();
-        if self.no_line_terminator() {
-            self.expect_expression();
-            eat_value!(self.with(Flag::In).parse_expression()?);
+        if !self.no_line_terminator() {
+            bail!("Unexpected line terminator between throw and its expression");
         }
+        eat_value!(self.with(Flag::In).parse_expression()?);
+
+        eat_value!(self.semicolon());
 
         Ok(TokenResult::Some(()))
     }
-- 
2.43.0


From aa2085cbf4cbfc3f5449cefbf7c8e6a908ef6aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 22/47] fix: refuse try blocks with neither catch nor finally

---
 src/parser/statements.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 83ee0b1..b8ea9d7 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -695,8 +695,11 @@ where
 
         eat_value!(self.parse_block_statement()?);
 
+        let mut handled = false;
+
         self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("catch") {
+            handled = true;
             eat_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
 
             if let TokenResult::None = self.parse_binding_pattern()? {
@@ -710,9 +713,14 @@ where
 
         self.expect_expression();
         if let TokenResult::Some(_) = self.keyword("finally") {
+            handled = true;
             eat_value!(self.parse_block_statement()?);
         }
 
+        if !handled {
+            bail!("Expected catch or finally after try block");
+        }
+
         Ok(TokenResult::Some(()))
     }
 
-- 
2.43.0


From ad03e949b3f8528905a9419c34d9314d8f195135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 23/47] fix: yield is an operator of generators only, taking
 one assignment expression

---
 src/parser/classes.rs     | 22 ++++++++++++++--------
 src/parser/expressions.rs | 23 +++++++++++++++--------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index c708979..e03d853 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -139,21 +139,27 @@ where
     pub fn parse_method_tail(&mut self, head: MethodHead) -> OptResult<()> {
         match head.kind {
             MethodKind::Get => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
 
-                eat_value!(self.parse_function_body()?);
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
+
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::Set => {
-                try_value!(self.punc(tokens::PunctuatorToken::ParenOpen));
+                let mut parser = self.without(Flag::Await);
+                let mut parser = parser.without(Flag::Yield);
+
+                try_value!(parser.punc(tokens::PunctuatorToken::ParenOpen));
 
-                if let TokenResult::None = self.parse_binding_pattern()? {
-                    eat_value!(self.binding_identifier());
+                if let TokenResult::None = parser.parse_binding_pattern()? {
+                    eat_value!(parser.binding_identifier());
                 }
 
-                eat_value!(self.punc(tokens::PunctuatorToken::ParenClose));
+                eat_value!(parser.punc(tokens::PunctuatorToken::ParenClose));
 
-                eat_value!(self.parse_function_body()?);
+                eat_value!(parser.parse_function_body()?);
             }
             MethodKind::None => {
                 if head.async {
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f07a41c..8eed7b4 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -126,13 +126,15 @@ where
     fn reify_arrow(&mut self, _left: ()) -> OptResult<()> {
         self.expect_expression();
 
+        let mut parser = self.without(Flag::Yield);
+
         let body = try_sequence!(
-            self.parse_block_statement()?,
-            self.parse_assignment_expression()?,
+            parser.parse_block_statement()?,
+            parser.parse_assignment_expression()?,
         );
 
         // No operator can follow a block body.
-        self.expect_expression();
+        parser.expect_expression();
 
         Ok(body)
     }
@@ -147,15 +149,20 @@ where
     }
 
     fn parse_yield_expression(&mut self) -> OptResult<()> {
+        if !self.flags.allow_yield {
+            return Ok(TokenResult::None);
+        }
+
         try_value!(self.keyword("yield"));
 
         self.expect_expression();
         if self.no_line_terminator() {
-            self.expect_expression();
-            opt_value!(self.punc(tokens::PunctuatorToken::Star));
-
-            self.expect_expression();
-            opt_value!(self.parse_expression()?);
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
+                self.expect_expression();
+                eat_value!(self.parse_assignment_expression()?);
+            } else {
+                opt_value!(self.parse_assignment_expression()?);
+            }
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 01e24b54c5eb523121e02ebfb638283f3471257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:26 +0000
Subject: [PATCH 24/47] fix: await is never an identifier in a module

---
 src/parser/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 38a0786..0343bc6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -550,7 +550,9 @@ fn is_binding_identifier(flags: &GrammarFlags, s: &str) -> bool {
     match s {
         // Conditional keywords
         "yield" if !flags.allow_yield => false,
-        "await" if !flags.allow_await => false,
+
+        // Everything is parsed as a module, where this is reserved outside async functions too.
+        "await" => false,
 
         // Keywords
         "break" | "case" | "catch" | "class" | "const" | "continue" | "debugger" | "default" | "delete" |
-- 
2.43.0


From f3443e3ba4d96df1bcf828f2a3bd48a972f8add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 25/47] fix: allow await in the body of async arrow functions

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 8eed7b4..9acc0e4 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -52,7 +52,7 @@ where
                 }
 
                 eat_value!(self.punc(tokens::PunctuatorToken::Arrow));
-                eat_value!(self.reify_arrow(())?);
+                eat_value!(self.with(Flag::Await).reify_arrow(())?);
 
                 return Ok(TokenResult::Some(()));
             }
-- 
2.43.0


From 85b3b2c87c531b14533f550317af2b972e469f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 26/47] fix: exported declarations end where the declaration
 ends, and may be functions or classes

---
 src/parser/module.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index d1584bf..f0c7807 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -75,11 +75,9 @@ where
             }
         } else {
             if let TokenResult::Some(_) = self.parse_variable_statement()? {
-
-            } else if let TokenResult::Some(_) = self.parse_let_declaration()? {
-
-            } else if let TokenResult::Some(_) = self.parse_const_declaration()? {
-
+                return Ok(TokenResult::Some(()));
+            } else if let TokenResult::Some(_) = self.parse_declaration()? {
+                return Ok(TokenResult::Some(()));
             } else if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Star) {
                 eat_value!(self.keyword("from"));
                 eat_value!(self.string());
-- 
2.43.0


From cbe90f2ce44b0c22e56853cc07214862051437bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 27/47] fix: refuse holes between object literal properties

---
 src/parser/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 9acc0e4..ddf1a7a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -669,7 +669,8 @@ where
         try_value!(parser.punc(tokens::PunctuatorToken::CurlyOpen));
 
         loop {
-            if let TokenResult::Some(_) = parser.parse_object_property()? {
+            if let TokenResult::None = parser.parse_object_property()? {
+                break;
             }
 
             if let TokenResult::None = parser.punc(tokens::PunctuatorToken::Comma) {
-- 
2.43.0


From d476b393934807bf6aa8f136fade39e4e3f40f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 28/47] fix: refuse line terminators before =>

---
 src/parser/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index ddf1a7a..3df599e 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -80,8 +80,9 @@ where
             StarStarEq,
         }
 
+        let no_line = self.no_line_terminator();
         let t = match *self.token() {
-            tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) => Reify::Arrow,
+            tokens::Token::Punctuator(tokens::PunctuatorToken::Arrow) if no_line => Reify::Arrow,
             tokens::Token::Punctuator(tokens::PunctuatorToken::Eq) => Reify::Eq,
             tokens::Token::Punctuator(tokens::PunctuatorToken::StarEq) => Reify::StarEq,
             tokens::Token::Punctuator(tokens::PunctuatorToken::SlashEq) => Reify::SlashEq,
@@ -102,7 +103,6 @@ where
 
         eat_value!(match t {
             Reify::Arrow => {
-                // TODO: No LineTerminator allowed before arrow.
                 // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
                 self.reify_arrow(left)?
             }
-- 
2.43.0


From 271f6169d9a8745227ff58a94e6644d73729ef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 29/47] fix: a function on the next line does not make an
 identifier async

---
 src/parser/expressions.rs | 12 ++----------
 src/parser/functions.rs   | 25 ++++++++++++++-----------
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 3df599e..e2d5dfc 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -597,16 +597,8 @@ where
         Ok(TokenResult::Some(()))
     }
     fn parse_identifier_reference_expression(&mut self) -> OptResult<()> {
-        if let Some(ahead) = self.ident_lookahead() {
-            match ahead.token {
-                tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name}) => {
-                    if name == "function" {
-                        return Ok(TokenResult::None);
-                    }
-                }
-                _ => {}
-            }
-
+        if self.is_async_function() {
+            return Ok(TokenResult::None);
         }
 
         try_value!(self.reference_identifier());
diff --git a/src/parser/functions.rs b/src/parser/functions.rs
index 2efcbc2..0aaa9da 100644
--- a/src/parser/functions.rs
+++ b/src/parser/functions.rs
@@ -7,15 +7,25 @@ impl<'code, T> Parser<'code, T>
 where
     T: Tokenizer<'code>
 {
-    pub fn parse_function_declaration(&mut self) -> OptResult<()> {
-        let maybe_async = if let Some(&LookaheadResult {
+    // Check for "async" followed by "function" on the same line.
+    pub fn is_async_function(&mut self) -> bool {
+        match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) if name == "async" => {}
+            _ => return false,
+        }
+
+        if let Some(&LookaheadResult {
             line: false,
             token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
         }) = self.ident_lookahead() {
             name == "function"
         } else {
             false
-        };
+        }
+    }
+
+    pub fn parse_function_declaration(&mut self) -> OptResult<()> {
+        let maybe_async = self.is_async_function();
 
         let star = if maybe_async {
             try_value!(self.keyword("async"));
@@ -57,14 +67,7 @@ where
     }
 
     pub fn parse_function_expression(&mut self) -> OptResult<()> {
-        let maybe_async = if let Some(&LookaheadResult {
-            line: false,
-            token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
-        }) = self.ident_lookahead() {
-            name == "function"
-        } else {
-            false
-        };
+        let maybe_async = self.is_async_function();
 
         let star = if maybe_async {
             try_value!(self.keyword("async"));
-- 
2.43.0


From 3cdd11ff21d2a4cad06764ca0dba67d937f5b849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:49 +0000
Subject: [PATCH 30/47] fix: parse async function declarations and expressions

---
 src/parser/declarations.rs | 3 ++-
 src/parser/expressions.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index 3e4eb0d..f2e93b0 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -9,6 +9,7 @@ where
     pub fn parse_declaration(&mut self) -> OptResult<()> {
         self.expect_expression();
 
+        let is_async = self.is_async_function();
 
         enum DeclType {
             Class,
@@ -21,8 +22,8 @@ where
             tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
                 match &**name {
                     "class" => DeclType::Class,
-                    // TODO: Async
                     "function" => DeclType::Function,
+                    "async" if is_async => DeclType::Function,
                     "let" => DeclType::Let,
                     "const" => DeclType::Const,
                     _ => return Ok(TokenResult::None),
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index e2d5dfc..011b387 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -525,6 +525,7 @@ where
         }
 
         let flags = self.flags;
+        let is_async = self.is_async_function();
 
         let t = match *self.token() {
             tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => {
@@ -534,8 +535,8 @@ where
                     "false" => PrimaryType::False,
                     "null" => PrimaryType::Null,
 
-                    // TODO: Ignores async functions
                     "function" => PrimaryType::Function,
+                    "async" if is_async => PrimaryType::Function,
                     "class" => PrimaryType::Class,
                     _ => {
                         if is_binding_identifier(&flags, name) {
-- 
2.43.0


From 15366832d155cd72838b707ec372c11a3b052a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 31/47] fix: only the default export itself may be an unnamed
 declaration

---
 src/parser/declarations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/declarations.rs b/src/parser/declarations.rs
index f2e93b0..ce5ed7c 100644
--- a/src/parser/declarations.rs
+++ b/src/parser/declarations.rs
@@ -33,8 +33,8 @@ where
         };
 
         eat_value!(match t {
-            DeclType::Class => self.parse_class_declaration()?,
-            DeclType::Function => self.parse_function_declaration()?,
+            DeclType::Class => self.without(Flag::Default).parse_class_declaration()?,
+            DeclType::Function => self.without(Flag::Default).parse_function_declaration()?,
             DeclType::Let => self.parse_let_declaration()?,
             DeclType::Const => self.parse_const_declaration()?,
         });
-- 
2.43.0


From c560593bac86c4a26f61294acd0bad354eb776e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 32/47] fix: export default takes one assignment expression

---
 src/parser/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index f0c7807..487fba6 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -70,7 +70,7 @@ where
             } else if let TokenResult::Some(_) = parser.parse_class_declaration()? {
 
             } else {
-                eat_value!(parser.with(Flag::In).parse_expression()?);
+                eat_value!(parser.with(Flag::In).parse_assignment_expression()?);
                 eat_value!(parser.semicolon());
             }
         } else {
-- 
2.43.0


From 348ea1d54548c6d2592b4519ef523880105cf057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:51 +0000
Subject: [PATCH 33/47] fix: reserved words are not labels

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index b8ea9d7..ff7e25e 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -666,7 +666,7 @@ where
         };
 
         if is_label {
-            eat_value!(self.identifier());
+            try_value!(self.label_identifier());
             eat_value!(self.punc(tokens::PunctuatorToken::Colon));
             eat_value!(self.parse_statement()?);
             Ok(TokenResult::Some(()))
-- 
2.43.0


From e1f17ce59f51951fca266cbf25470adbcc4cf508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:11 +0000
Subject: [PATCH 34/47] fix: only const needs initializers in for loops

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index ff7e25e..fa7fd64 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -456,7 +456,7 @@ where
                     if !pattern || initialized {
                         while let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Comma) {
                             multiple = true;
-                            eat_value!(self.without(Flag::In).parse_lexical_declarator(true)?);
+                            eat_value!(self.without(Flag::In).parse_lexical_declarator(false)?);
                         }
                     }
 
-- 
2.43.0


From 867a484aaab2a83b6d1aa5415cea1d07f83a3dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 35/47] fix: object literals have no static methods

---
 src/parser/expressions.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 011b387..52ce06d 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -684,8 +684,7 @@ where
             return Ok(TokenResult::Some(()));
         }
 
-        // TODO: Disallow static
-        let head = try_value!(self.parse_method_head(true)?);
+        let head = try_value!(self.parse_method_head(false)?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             self.expect_expression();
-- 
2.43.0


From a31663696683d788791e547d1c841a39fea3bd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 36/47] fix: methods named async are not async, and accessors
 are not generators

---
 src/parser/classes.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index e03d853..7ddf848 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -80,7 +80,7 @@ where
             MethodKind::None
         };
 
-        let async = if let MethodKind::None = kind {
+        let mut async = if let MethodKind::None = kind {
             if let TokenResult::Some(_) = self.keyword("async") {
                 true
             } else {
@@ -90,7 +90,7 @@ where
             false
         };
 
-        let star = if async {
+        let star = if async || kind != MethodKind::None {
             None
         } else {
             opt_value!(self.punc(tokens::PunctuatorToken::Star))
@@ -102,11 +102,13 @@ where
                 // async fn method
             } else {
                 // method named  "async"
+                async = false;
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
+                async = false;
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
@@ -187,7 +189,7 @@ where
     }
 }
 
-#[derive(Debug)]
+#[derive(Debug, PartialEq)]
 pub enum MethodKind {
     Get,
     Set,
-- 
2.43.0


From 47a36aa2a145fce44926f3f7abddb81717c3b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 37/47] fix: only identifiers are shorthand properties, and
 only plain names take values

---
 src/parser/classes.rs     | 20 +++++++++++++++++++-
 src/parser/expressions.rs | 20 +++++++++++++-------
 src/parser/mod.rs         |  9 +++++++++
 3 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/parser/classes.rs b/src/parser/classes.rs
index 7ddf848..e917503 100644
--- a/src/parser/classes.rs
+++ b/src/parser/classes.rs
@@ -96,19 +96,23 @@ where
             opt_value!(self.punc(tokens::PunctuatorToken::Star))
         };
 
-        let is_ident = false;
+        // A lone name, where the words above turn out to be names themselves if nothing follows.
+        let plain = stat.is_none() && kind == MethodKind::None && !async && star.is_none();
+        let mut is_ident = plain && self.is_binding_identifier_next();
         let _name = if async && self.no_line_terminator() {
             if let TokenResult::Some(_) = self.parse_property_name()? {
                 // async fn method
             } else {
                 // method named  "async"
                 async = false;
+                is_ident = stat.is_none();
             }
         } else {
             if async {
                 // has lineterminator
                 // method named  "async"
                 async = false;
+                is_ident = stat.is_none();
             } else if let TokenResult::Some(_) = self.parse_property_name()? {
 
             } else {
@@ -116,9 +120,11 @@ where
                     (_, _, &Some(_)) => bail!("expected method name"),
                     (_, &MethodKind::Get, _) => {
                         kind = MethodKind::None;
+                        is_ident = stat.is_none();
                     }
                     (_, &MethodKind::Set, _) => {
                         kind = MethodKind::None;
+                        is_ident = stat.is_none();
                     },
                     (&Some(_), _, _) => {
                         stat = None;
@@ -203,3 +209,15 @@ pub struct MethodHead {
     generator: bool,
     async: bool,
 }
+
+impl MethodHead {
+    // Only a name, so it could also be the name of a property.
+    pub fn is_plain(&self) -> bool {
+        self.kind == MethodKind::None && !self.generator && !self.async
+    }
+
+    // Only an identifier, so it could also be a shorthand property.
+    pub fn is_ident(&self) -> bool {
+        self.is_ident
+    }
+}
diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 52ce06d..6c9f9bd 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -686,13 +686,19 @@ where
 
         let head = try_value!(self.parse_method_head(false)?);
 
-        if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
-            self.expect_expression();
-            eat_value!(self.with(Flag::In).parse_assignment_expression()?);
-        } else {
-            // TODO: This needs to handle singlename prop access
-            // eat_value!(self.parse_method_tail(head)?);
-            opt_value!(self.parse_method_tail(head)?);
+        if head.is_plain() {
+            if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
+                self.expect_expression();
+                eat_value!(self.with(Flag::In).parse_assignment_expression()?);
+                return Ok(TokenResult::Some(()));
+            }
+        }
+
+        let is_shorthand = head.is_ident();
+        if let TokenResult::None = self.parse_method_tail(head)? {
+            if !is_shorthand {
+                bail!("expected property value");
+            }
         }
 
         Ok(TokenResult::Some(()))
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0343bc6..4822bfc 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -300,6 +300,15 @@ impl<'code, T: Tokenizer<'code>> Parser<'code, T> {
         is_binding_identifier(&self.flags, name)
     }
 
+    pub fn is_binding_identifier_next(&mut self) -> bool {
+        let flags = self.flags;
+
+        match *self.token() {
+            tokens::Token::IdentifierName(ref v) => is_binding_identifier(&flags, &v.name),
+            _ => false,
+        }
+    }
+
     pub fn ident_lookahead(&mut self) -> Option<&LookaheadResult> {
         self.token_and_line();
 
-- 
2.43.0


From 70501ed98a0eef33d30592afa9fc69f0ac7814a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 38/47] fix: only identifiers are shorthand bindings

---
 src/parser/statements.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index fa7fd64..5834118 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -196,12 +196,15 @@ where
     // foo: {bar} = 4
     // "foo": bar = 4
     fn parse_binding_property(&mut self) -> OptResult<()> {
+        let is_shorthand = self.is_binding_identifier_next();
         let _name = try_value!(self.parse_property_name()?);
 
         if let TokenResult::Some(_) = self.punc(tokens::PunctuatorToken::Colon) {
             eat_value!(self.parse_binding_element()?);
-        } else {
+        } else if is_shorthand {
             opt_value!(self.with(Flag::In).parse_initializer()?);
+        } else {
+            bail!("expected binding for property");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From df09a2d8bbb899f8f52aefe5c9f33b960c8fca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 39/47] fix: imports bind identifiers only

---
 src/parser/module.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/module.rs b/src/parser/module.rs
index 487fba6..8de38eb 100644
--- a/src/parser/module.rs
+++ b/src/parser/module.rs
@@ -46,13 +46,13 @@ where
     }
 
     fn parse_import_specifier(&mut self) -> OptResult<()> {
+        let is_binding = self.is_binding_identifier_next();
         try_value!(self.identifier());
 
         if let TokenResult::Some(_) = self.keyword("as") {
-            // TODO: Validate BindingIdentifier
-            eat_value!(self.identifier());
-        } else {
-            // TODO: Validate first is BindingIdentifier
+            eat_value!(self.binding_identifier());
+        } else if !is_binding {
+            bail!("expected binding for import");
         }
 
         Ok(TokenResult::Some(()))
-- 
2.43.0


From 56654ba15a0877f895b8691cb73f70cf6690ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 40/47] fix: the end of a template substitution is not an
 operand

---
 src/parser/expressions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 6c9f9bd..4996930 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -549,7 +549,8 @@ where
             }
             tokens::Token::StringLiteral(_) => PrimaryType::String,
             tokens::Token::NumericLiteral(_) => PrimaryType::Number,
-            tokens::Token::Template(_) => PrimaryType::Template,
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::NoSubstitution, .. }) |
+            tokens::Token::Template(tokens::TemplateToken { format: tokens::TemplateFormat::Head, .. }) => PrimaryType::Template,
             tokens::Token::RegularExpressionLiteral(_) => PrimaryType::Regex,
             tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => PrimaryType::Array,
             tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => PrimaryType::Object,
-- 
2.43.0


From a22778dca7bf5016918b3f38110043489aee5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 41/47] fix: nothing follows the rest parameter of an arrow
 function

---
 src/parser/expressions.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 4996930..f988ffd 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -752,6 +752,7 @@ where
                     } else {
                         eat_value!(parser.binding_identifier());
                     }
+                    break;
                 } else {
                     eat_value!(parser.parse_assignment_expression()?)
                 }
-- 
2.43.0


From b561a9f1e0c7f667d5f048c54852cd2b6b5cb294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 42/47] fix: computed property names contain an expression

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 5834118..3319bcf 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -232,7 +232,7 @@ where
         try_value!(self.punc(tokens::PunctuatorToken::SquareOpen));
 
         self.expect_expression();
-        opt_value!(self.with(Flag::In).parse_assignment_expression()?);
+        eat_value!(self.with(Flag::In).parse_assignment_expression()?);
 
         eat_value!(self.punc(tokens::PunctuatorToken::SquareClose));
 
-- 
2.43.0


From 297508b75a0b333aa7abae12827a45835a21a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 43/47] fix: for-in and for-of need something to assign to

---
 src/parser/statements.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 3319bcf..47e20e6 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -476,9 +476,12 @@ where
             } else {
                 // TODO: What to do here? If this is a LeftHandSideExpression,
                 // the for can be any type, otherwise it _must_ be 'ForStatement'
-                opt_value!(self.without(Flag::In).parse_expression()?);
+                let left_hand = match self.without(Flag::In).parse_expression()? {
+                    TokenResult::Some(_) => true, /* tmp */
+                    TokenResult::None => false,
+                };
 
-                ("expression", false, false, false, false, true /* tmp */)
+                ("expression", false, false, false, false, left_hand)
             }
         };
 
-- 
2.43.0


From 605a94045cecf9a4fcf1d194f7c4843dc73164db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 44/47] fix: only async arrow functions have await, with any
 parameters

---
 src/parser/expressions.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f988ffd..5037111 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -28,17 +28,21 @@ where
 
         let flags = self.flags;
 
-        let maybe_async_arrow = if let Some(&LookaheadResult {
-            line: false,
-            token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
-        }) = self.ident_lookahead() {
-            if is_binding_identifier(&flags, name) {
-                true
-            } else {
-                false
-            }
-        } else {
-            false
+        let (maybe_async_arrow, maybe_async_call) = match self.ident_lookahead() {
+            Some(&LookaheadResult {
+                line: false,
+                token: tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name })
+            }) => (is_binding_identifier(&flags, name), false),
+            Some(&LookaheadResult {
+                line: false,
+                token: tokens::Token::Punctuator(tokens::PunctuatorToken::ParenOpen)
+            }) => (false, true),
+            _ => (false, false),
+        };
+
+        let async_call = maybe_async_call && match *self.token() {
+            tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => name == "async",
+            _ => false,
         };
 
         if maybe_async_arrow {
@@ -103,8 +107,11 @@ where
 
         eat_value!(match t {
             Reify::Arrow => {
-                // TODO: This needs to know if the left was an "async(foo)" to decide if "await" is allowed.
-                self.reify_arrow(left)?
+                if async_call {
+                    self.with(Flag::Await).reify_arrow(left)?
+                } else {
+                    self.without(Flag::Await).reify_arrow(left)?
+                }
             }
             Reify::Eq => self.reify_assignment(left, tokens::PunctuatorToken::Eq)?,
             Reify::StarEq => self.reify_assignment(left, tokens::PunctuatorToken::StarEq)?,
-- 
2.43.0


From 1669dec75278c644848cd70769bc4b021c0267d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 45/47] fix: open files whose names are not UTF-8

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf44c77..25fa7b5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -29,7 +29,7 @@ impl Drop for Framer {
 use std::fs::File;
 
 fn main() {
-    let mut it = std::env::args();
+    let mut it = std::env::args_os();
     let _name = it.next().unwrap();
     let filename = it.next().unwrap();
 
-- 
2.43.0


From fe4a39f1b0e64dd180df3075e9a05383836443a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 46/47] fix: a for head may declare a variable named of with
 let

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 47e20e6..85fe8ae 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -428,7 +428,7 @@ where
         } else {
             let (maybe_decl, bracket) = if let Some(&LookaheadResult { line: _line, ref token }) = self.ident_lookahead() {
                 match *token {
-                    tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => (name != "in" && name != "of", false),
+                    tokens::Token::IdentifierName(tokens::IdentifierNameToken { ref name }) => (name != "in", false),
                     tokens::Token::Punctuator(tokens::PunctuatorToken::SquareOpen) => (true, true),
                     tokens::Token::Punctuator(tokens::PunctuatorToken::CurlyOpen) => (true, false),
                     _ => (false, false),
-- 
2.43.0


From ae484a8aec977259289cdb684fbf2ab33de27886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:23 +0000
Subject: [PATCH 47/47] fix: output that cannot be printed does not change the
 verdict

---
 src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4822bfc..463c763 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -11,6 +11,7 @@ mod functions;
 
 use time;
 
+use std::io::{self, Write};
 use std::ops::{Deref, DerefMut};
 use tokenizer::{self, IntoTokenizer, Tokenizer, Hint, tokens};
 use self::utils::TokenResult;
@@ -62,7 +63,8 @@ impl FromTokenizer for () {
             count: 0,
         };
 
-        println!("starting");
+        // Whether anyone can read these lines does not matter.
+        let _ = writeln!(io::stdout(), "starting");
 
         let t_start = time::precise_time_ns();
 
@@ -70,7 +72,7 @@ impl FromTokenizer for () {
 
         let total_parse = time::precise_time_ns() - t_start;
 
-        println!("Total parsing time: {}ms", total_parse as f64 / 1e6);
+        let _ = writeln!(io::stdout(), "Total parsing time: {}ms", total_parse as f64 / 1e6);
 
         ()
     }
-- 
2.43.0

