From 269f4aafec52add4f7e3bbd1a1f5125911a6724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 01/69] fix: keep U+007F in JSON strings

It is an ASCII control character, but RFC 8259 only forbids U+0000 to U+001F
in strings, so removing it changed the value.
---
 src/json/json_minifier.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index ad9fae2..c6fa807 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -24,10 +24,16 @@ impl JsonMinifier {
 #[inline]
 pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&char>) -> bool {
     let remove_element =
-        item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1, item2);
+        is_control_character(item1) || is_whitespace_outside_string(minifier, item1, item2);
     !remove_element
 }
 
+// U+007F is an ASCII control character too, but it is allowed (unescaped) in JSON strings.
+#[inline]
+fn is_control_character(item: &char) -> bool {
+    *item < ' '
+}
+
 #[inline]
 fn is_whitespace_outside_string(
     minifier: &mut JsonMinifier,
-- 
2.43.0


From 7ae616ce6ce1f3c440e4e9110ffe8e47618cdad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 02/69] fix: track escapes in JSON strings one character at a
 time

The countdown used so far lost track when the escaped quotation mark came
right before the closing one, and an escaped backslash before the closing
quotation mark was taken for an escaped quotation mark.
---
 src/json/json_minifier.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index c6fa807..6efe79b 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -3,7 +3,7 @@
 #[derive(Debug, Clone)]
 pub struct JsonMinifier {
     pub is_string: bool,
-    pub escaped_quotation: u8,
+    pub is_escaped: bool,
 }
 
 impl Default for JsonMinifier {
@@ -16,15 +16,15 @@ impl JsonMinifier {
     pub fn new() -> Self {
         JsonMinifier {
             is_string: false,
-            escaped_quotation: 0,
+            is_escaped: false,
         }
     }
 }
 
 #[inline]
-pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&char>) -> bool {
+pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, _item2: Option<&char>) -> bool {
     let remove_element =
-        is_control_character(item1) || is_whitespace_outside_string(minifier, item1, item2);
+        is_control_character(item1) || is_whitespace_outside_string(minifier, item1);
     !remove_element
 }
 
@@ -35,19 +35,15 @@ fn is_control_character(item: &char) -> bool {
 }
 
 #[inline]
-fn is_whitespace_outside_string(
-    minifier: &mut JsonMinifier,
-    item1: &char,
-    item2: Option<&char>,
-) -> bool {
+fn is_whitespace_outside_string(minifier: &mut JsonMinifier, item1: &char) -> bool {
     if !minifier.is_string && item1.eq(&'"') {
         minifier.is_string = true;
     } else if minifier.is_string {
-        if item1.eq(&'\\') && item2.eq(&Some(&'"')) {
-            minifier.escaped_quotation = 4;
-        }
-        if minifier.escaped_quotation > 0 {
-            minifier.escaped_quotation -= 1;
+        if minifier.is_escaped {
+            // This character is the escaped one, whatever it is.
+            minifier.is_escaped = false;
+        } else if item1.eq(&'\\') {
+            minifier.is_escaped = true;
         } else if item1.eq(&'"') {
             minifier.is_string = false;
         }
-- 
2.43.0


From a1694bf87f0252282643705e97eb7f72ed3766b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 03/69] fix: do not take a short read for the end of the JSON
 source

Read::read may return fewer bytes than the buffer holds at any time (pipes,
sockets); the rest of the document was silently dropped.
---
 src/json/read/internal_buffer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/json/read/internal_buffer.rs b/src/json/read/internal_buffer.rs
index 90eebcd..868bf0d 100644
--- a/src/json/read/internal_buffer.rs
+++ b/src/json/read/internal_buffer.rs
@@ -6,7 +6,6 @@ const ARRAY_DEFAULT: u8 = 0;
 pub struct Buffer {
     buffer: Vec<u8>,
     read_pos: usize,
-    buffer_size: usize,
     data_size: usize,
 }
 
@@ -15,7 +14,6 @@ impl Buffer {
         Buffer {
             buffer: vec![ARRAY_DEFAULT; size],
             read_pos: 0,
-            buffer_size: size,
             data_size: 0,
         }
     }
@@ -38,7 +36,8 @@ impl Buffer {
         item.copied()
     }
 
+    /// The end of the source is a read of zero bytes, a short read is not.
     pub fn cont(&self) -> bool {
-        self.data_size == self.buffer_size
+        self.data_size != 0
     }
 }
-- 
2.43.0


From 8ffa77af9ccafd88c53f96e563b1e10cc39a37f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 04/69] fix: deliver the remaining bytes of a character split
 across JSON reads

When a multi-byte character did not fit in the caller's buffer, its remaining
bytes were dropped by the next read.
---
 src/json/read/json_read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 338db13..2513009 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -85,6 +85,12 @@ where
             self.initialized = true;
         }
 
+        // The last character may not have fit in the previous buffer.
+        self.add_char_to_buffer(buf, &mut buf_pos);
+        if buf_pos >= buf.len() {
+            return Ok(buf_pos);
+        }
+
         while let Some(item) = self.item1.take() {
             self.item1 = self.get_next()?;
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
-- 
2.43.0


From a33b01f6d716e0806aeb5b7059d5bb23c1bdf007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 05/69] fix: report the I/O error of the JSON source, not
 InvalidData

---
 src/json/read/json_read.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 2513009..7419f7a 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -106,7 +106,10 @@ where
 }
 
 impl From<CharsError> for Error {
-    fn from(_: CharsError) -> Self {
-        Error::from(ErrorKind::InvalidData)
+    fn from(err: CharsError) -> Self {
+        match err {
+            CharsError::NotUtf8 => Error::from(ErrorKind::InvalidData),
+            CharsError::Other(err) => err,
+        }
     }
 }
-- 
2.43.0


From 85c819abe868a4efb963d816d9c1e18dacf6e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 06/69] fix: retry interrupted reads of the JSON source

The reader cannot be resumed after an error (calling it again panicked when
the first read was the interrupted one), so consumers which retry interrupted
reads, like read_to_string, could not recover.
---
 src/json/read/internal_reader.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/json/read/internal_reader.rs b/src/json/read/internal_reader.rs
index 45f178f..e8186b6 100644
--- a/src/json/read/internal_reader.rs
+++ b/src/json/read/internal_reader.rs
@@ -3,7 +3,7 @@
 use super::internal_buffer::Buffer;
 use std::{
     fmt,
-    io::{Error, Read},
+    io::{Error, ErrorKind, Read},
 };
 
 pub struct InternalReader<R> {
@@ -24,9 +24,16 @@ impl<R: Read> InternalReader<R> {
     }
 
     fn read_data(read: &mut R, buffer: &mut Buffer) -> Result<(), Error> {
-        let size = read.read(buffer.as_mut())?;
-        buffer.update_metadata(size);
-        Ok(())
+        loop {
+            match read.read(buffer.as_mut()) {
+                Ok(size) => {
+                    buffer.update_metadata(size);
+                    return Ok(());
+                }
+                Err(ref err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(err) => return Err(err),
+            }
+        }
     }
 }
 
-- 
2.43.0


From 9cf6380c736c6dbb3500e175bffe5af1b791833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 07/69] fix: do not turn a comment at the start of the CSS into
 a space

---
 src/css/token.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 5645e3c..a43be4d 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -662,6 +662,9 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                         retain = false;
                     }
                 }
+            } else {
+                // nothing comes before, so there is nothing to separate
+                retain = false;
             }
             if retain && v[i].is_comment() {
                 // convert comments to spaces when minifying
-- 
2.43.0


From ffaa8dff4e39fcc4e199b0842d11de349dd48212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 08/69] fix: one space is enough between an at-keyword and a
 star

---
 src/css/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index a43be4d..f6218fe 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -624,6 +624,7 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                     // retain the space between keywords
                     // and the space that disambiguates functions from keyword-plus-parens
                 } else if v[previous_element_index].is_a_selector_element()
+                    && !v[previous_element_index].is_a_media()
                     && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Star)))
                 {
                     // retain the space before `*` if it's preceded by a selector.
-- 
2.43.0


From 5393cf498470bd0ab1c13ddf3bc710e5fe441e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 09/69] fix: keep the space of CSS `/ *=` and `| =`

Without it the first one starts a comment and the second one becomes another
operator, like `~ =` and `/ *` which are handled already.
---
 src/css/token.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index f6218fe..974161b 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -640,12 +640,19 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                             | ReservedChar::Circumflex
                             | ReservedChar::Dollar
                             | ReservedChar::Tilde
+                            | ReservedChar::Pipe
                     )
                 ) && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::EqualSign)))
                 {
                     // retain the space between an operator and an equal sign
                 } else if matches!(v[previous_element_index], Token::Char(ReservedChar::Slash))
-                    && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Star)))
+                    && matches!(
+                        v.get(i + 1),
+                        Some(
+                            Token::Char(ReservedChar::Star)
+                                | Token::SelectorOperator(SelectorOperator::Contains)
+                        )
+                    )
                 {
                     // this looks like a comment, but it is not
                     // retain the space between `/` and `*`
-- 
2.43.0


From 33209d0778320787f84f43d96887c07d6852af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 10/69] fix: keep the space before a CSS escape

---
 src/css/token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 974161b..a1c2980 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -665,7 +665,8 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                         || prev.is_a_license())
                         || (i < v.len() - 1
                             && v[i + 1].is_char()
-                            && v[i + 1] != Token::Char(ReservedChar::OpenBracket))
+                            && v[i + 1] != Token::Char(ReservedChar::OpenBracket)
+                            && v[i + 1] != Token::Char(ReservedChar::Backslash))
                     {
                         retain = false;
                     }
-- 
2.43.0


From 1c8a9f401e88fb0b82e0f3714f5992cd962ade92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 11/69] fix: keep CSS hexadecimal escapes and the whitespace
 that ends them together

---
 src/css/token.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index a1c2980..4b24d99 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -394,6 +394,27 @@ fn get_string<'a>(
     None
 }
 
+/// Returns the end of the escape whose first character after the backslash is `c`, at `pos`.
+///
+/// A hexadecimal escape has up to six digits and includes the whitespace that ends it.
+fn skip_escape(iterator: &mut Peekable<CharIndices<'_>>, pos: usize, c: char) -> usize {
+    let mut end = pos + c.len_utf8();
+    if c.is_ascii_hexdigit() {
+        let is_hexdigit = |&(_, c): &(usize, char)| c.is_ascii_hexdigit();
+        while end < pos + 6 && iterator.next_if(is_hexdigit).is_some() {
+            end += 1;
+        }
+        let terminator = iterator.next_if(|&(_, c)| c.is_ascii_whitespace());
+        if let Some((_, c)) = terminator {
+            end += 1;
+            if c == '\r' && iterator.next_if(|&(_, c)| c == '\n').is_some() {
+                end += 1;
+            }
+        }
+    }
+    end
+}
+
 fn fill_other<'a>(
     source: &'a str,
     v: &mut Vec<Token<'a>>,
@@ -473,8 +494,9 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                     v.push(Token::Char(ReservedChar::Backslash));
 
                     if let Some((idx, c)) = iterator.next() {
-                        pos += c.len_utf8();
-                        v.push(Token::Other(&source[idx..idx + c.len_utf8()]));
+                        pos = skip_escape(&mut iterator, idx, c);
+                        v.push(Token::Other(&source[idx..pos]));
+                        pos -= 1;
                     }
                 }
                 ReservedChar::Quote | ReservedChar::DoubleQuote => {
-- 
2.43.0


From 39ad86653adf7872d7f254a4e99ec66c96549344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 12/69] fix: do not split a CSS at-keyword before an escape

---
 src/css/token.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 4b24d99..3f2f1d8 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -491,6 +491,11 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
 
             match c {
                 ReservedChar::Backslash => {
+                    if v.last().is_some_and(Token::is_a_media) {
+                        // the escape continues the at-keyword
+                        v.pop();
+                        v.push(Token::Other(&source[start..pos]));
+                    }
                     v.push(Token::Char(ReservedChar::Backslash));
 
                     if let Some((idx, c)) = iterator.next() {
-- 
2.43.0


From 376e752d2557b57f0fd1a28484131737e55ed6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 13/69] fix: keep the space before a CSS parenthesis after a
 word

---
 src/css/token.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 3f2f1d8..80b7390 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -652,9 +652,15 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                     // and the space that disambiguates functions from keyword-plus-parens
                 } else if v[previous_element_index].is_a_selector_element()
                     && !v[previous_element_index].is_a_media()
-                    && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Star)))
+                    && matches!(
+                        v.get(i + 1),
+                        Some(Token::Char(
+                            ReservedChar::Star | ReservedChar::OpenParenthese
+                        ))
+                    )
                 {
-                    // retain the space before `*` if it's preceded by a selector.
+                    // retain the space before `*` if it's preceded by a selector,
+                    // and the one that disambiguates functions from keyword-plus-parens
                 } else if matches!(v[previous_element_index], Token::Char(ReservedChar::Star))
                     && v.get(i + 1)
                         .is_some_and(|elem| elem.is_a_selector_element())
-- 
2.43.0


From f2bbd4a205cc9c86e1c8a3249a4a29d7afc6f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 14/69] fix: treat a run of CSS whitespace and comments as one
 gap

---
 src/css/token.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 80b7390..910a6fb 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -607,6 +607,18 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
 }
 
 fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
+    // A run of whitespace and comments is one gap, so that the tokens around it can be looked at.
+    v.dedup_by(|next, previous| {
+        let is_gap = |t: &Token<'_>| t.is_useless() || t.is_comment();
+        if !is_gap(next) || !is_gap(previous) {
+            return false;
+        }
+        if next.is_useless() {
+            *previous = Token::Char(ReservedChar::Space);
+        }
+        true
+    });
+
     // This function may remove multiple elements from the vector. Ideally we'd
     // use `Vec::retain`, but the traversal requires inspecting the previously
     // retained token and the next token, which `Vec::retain` doesn't allow. So
-- 
2.43.0


From 79db6f63c5399e6dabda19bd68117b55a7b173ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 15/69] fix: keep CSS descendant combinators next to any kind
 of simple selector

---
 src/css/token.rs | 77 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 76 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 910a6fb..6b99e20 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -316,6 +316,50 @@ impl Token<'_> {
         matches!(*self, Token::License(_))
     }
 
+    fn ends_compound_selector(&self) -> bool {
+        match *self {
+            Token::SelectorElement(_) => !self.is_a_media(),
+            Token::Other(_) => true,
+            Token::Char(c) => matches!(
+                c,
+                ReservedChar::Star | ReservedChar::CloseBracket | ReservedChar::CloseParenthese
+            ),
+            _ => false,
+        }
+    }
+
+    fn starts_compound_selector(&self) -> bool {
+        match *self {
+            Token::SelectorElement(_) => !self.is_a_media(),
+            Token::Other(_) => true,
+            Token::Char(c) => matches!(
+                c,
+                ReservedChar::Star
+                    | ReservedChar::OpenBracket
+                    | ReservedChar::Colon
+                    | ReservedChar::Pipe
+                    | ReservedChar::Backslash
+            ),
+            _ => false,
+        }
+    }
+
+    /// Whether this token continues a compound selector when it directly follows one.
+    fn continues_compound_selector(&self) -> bool {
+        let is_class = |s: &str| !s.starts_with(|c: char| c.is_ascii_digit());
+        match *self {
+            Token::SelectorElement(SelectorElement::Tag(_)) => false,
+            Token::SelectorElement(SelectorElement::Class(s)) => is_class(s),
+            Token::SelectorElement(_) => !self.is_a_media(),
+            Token::Other(s) => s.starts_with('#') || s.strip_prefix('.').is_some_and(is_class),
+            Token::Char(c) => matches!(
+                c,
+                ReservedChar::OpenBracket | ReservedChar::Colon | ReservedChar::Pipe
+            ),
+            _ => false,
+        }
+    }
+
     fn is_operator(&self) -> bool {
         match *self {
             Token::Operator(_) => true,
@@ -606,6 +650,30 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     Ok(Tokens(clean_tokens(v)))
 }
 
+/// Returns for each token whether it belongs to the selectors of a style rule: to what precedes a
+/// block, unless that is an at-rule.
+fn find_selectors(v: &[Token<'_>]) -> Vec<bool> {
+    let mut in_selector = vec![false; v.len()];
+    let mut start = 0;
+    for (i, token) in v.iter().enumerate() {
+        match token.get_char() {
+            Some(ReservedChar::OpenCurlyBrace) => {
+                let is_at_rule = v[start..i]
+                    .iter()
+                    .find(|t| !t.is_useless() && !t.is_comment() && !t.is_a_license())
+                    .is_some_and(|t| {
+                        t.is_a_media() || matches!(t, Token::Other(s) if s.starts_with('@'))
+                    });
+                in_selector[start..i].fill(!is_at_rule);
+                start = i + 1;
+            }
+            Some(ReservedChar::CloseCurlyBrace | ReservedChar::SemiColon) => start = i + 1,
+            _ => {}
+        }
+    }
+    in_selector
+}
+
 fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     // A run of whitespace and comments is one gap, so that the tokens around it can be looked at.
     v.dedup_by(|next, previous| {
@@ -618,6 +686,7 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
         }
         true
     });
+    let in_selector = find_selectors(&v);
 
     // This function may remove multiple elements from the vector. Ideally we'd
     // use `Vec::retain`, but the traversal requires inspecting the previously
@@ -647,7 +716,13 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
         if v[i].is_useless() || v[i].is_comment() {
             if let Some(previous_element_index) = previous_element_index {
                 #[allow(clippy::if_same_then_else)]
-                if v[previous_element_index] == Token::Char(ReservedChar::CloseBracket) {
+                if in_selector[i]
+                    && v[previous_element_index].ends_compound_selector()
+                    && v.get(i + 1).is_some_and(Token::starts_compound_selector)
+                {
+                    // retain descendant combinators (a comment alone isn't one)
+                    retain = v[i].is_useless() || !v[i + 1].continues_compound_selector();
+                } else if v[previous_element_index] == Token::Char(ReservedChar::CloseBracket) {
                     if i + 1 < v.len()
                         && (v[i + 1].is_useless()
                             || v[i + 1] == Token::Char(ReservedChar::OpenCurlyBrace))
-- 
2.43.0


From 09837d9db5b1aaa1c3469e4d88adb27e565fa94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 16/69] fix: keep the spaces around + in every CSS math
 function

---
 src/css/token.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 6b99e20..e07c2ef 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -360,6 +360,26 @@ impl Token<'_> {
         }
     }
 
+    fn starts_operand(&self) -> bool {
+        match *self {
+            Token::SelectorElement(_) | Token::Other(_) => true,
+            Token::Char(c) => matches!(
+                c,
+                ReservedChar::Plus | ReservedChar::OpenParenthese | ReservedChar::Backslash
+            ),
+            _ => false,
+        }
+    }
+
+    fn ends_operand(&self) -> bool {
+        match *self {
+            Token::SelectorElement(_) => !self.is_a_media(),
+            Token::Other(_) => true,
+            Token::Char(c) => matches!(c, ReservedChar::Plus | ReservedChar::CloseParenthese),
+            _ => false,
+        }
+    }
+
     fn is_operator(&self) -> bool {
         match *self {
             Token::Operator(_) => true,
@@ -776,6 +796,13 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                 {
                     // this looks like a comment, but it is not
                     // retain the space between `/` and `*`
+                } else if !in_selector[i]
+                    && ((v[previous_element_index] == ReservedChar::Plus
+                        && v.get(i + 1).is_some_and(Token::starts_operand))
+                        || (v[previous_element_index].ends_operand()
+                            && v.get(i + 1).is_some_and(|t| *t == ReservedChar::Plus)))
+                {
+                    // retain the spaces around `+`, they matter in math functions
                 } else if is_in_calc && v[previous_element_index].is_useless() {
                     retain = false;
                 } else if !is_in_calc {
-- 
2.43.0


From 8def7c5a8156bb2bd008b53dc25428abc6294572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 17/69] fix: there are no comments in an unquoted CSS url

---
 src/css/token.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index e07c2ef..b0946b6 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -513,6 +513,15 @@ fn fill_other<'a>(
     }
 }
 
+/// Whether the parenthese at `pos` opens an `url(` whose content isn't quoted.
+fn is_unquoted_url(source: &str, pos: usize) -> bool {
+    let is_name_char =
+        |c: char| c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | '\\') || !c.is_ascii();
+    let name = source[..pos].rsplit(|c| !is_name_char(c)).next();
+    let content = source[pos + 1..].trim_start();
+    name.is_some_and(|name| name.eq_ignore_ascii_case("url")) && !content.starts_with(['"', '\''])
+}
+
 #[allow(clippy::comparison_chain)]
 pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     let mut v = Vec::with_capacity(1000);
@@ -521,6 +530,8 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     let mut is_in_block: isize = 0;
     let mut is_in_media = false;
     let mut is_in_attribute_selector = false;
+    // In `url(...)` without quotes, where there are no comments.
+    let mut is_in_url = false;
 
     loop {
         let (mut pos, c) = match iterator.next() {
@@ -568,6 +579,14 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         pos -= 1;
                     }
                 }
+                ReservedChar::OpenParenthese => {
+                    is_in_url = is_unquoted_url(source, pos);
+                    v.push(Token::Char(c));
+                }
+                ReservedChar::CloseParenthese => {
+                    is_in_url = false;
+                    v.push(Token::Char(c));
+                }
                 ReservedChar::Quote | ReservedChar::DoubleQuote => {
                     if let Some(s) = get_string(source, &mut iterator, &mut pos, c) {
                         v.push(s);
@@ -575,7 +594,7 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         return Err("Unclosed string");
                     }
                 }
-                ReservedChar::Slash if matches!(iterator.peek(), Some(&(_, '*'))) => {
+                ReservedChar::Slash if !is_in_url && matches!(iterator.peek(), Some(&(_, '*'))) => {
                     // This is a comment.
                     let _ = iterator.next();
                     pos += 1;
-- 
2.43.0


From 99859aecf7a40bf918ead0e932de4ef5257d00be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 18/69] fix: do not join a CSS delimiter and = across
 whitespace

---
 src/css/token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index b0946b6..7e06ac3 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -672,6 +672,10 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                                         Some(
                                             ReservedChar::CloseParenthese
                                                 | ReservedChar::CloseBracket
+                                                | ReservedChar::Circumflex
+                                                | ReservedChar::Dollar
+                                                | ReservedChar::Tilde
+                                                | ReservedChar::Pipe
                                         )
                                     ))
                         }
-- 
2.43.0


From 6a59672a8a8d476cb059fcaff181010fa0e39c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 19/69] fix: do not read selectors or at-keywords in an
 unquoted CSS url

---
 src/css/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 7e06ac3..a181ad2 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -557,7 +557,7 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 pos,
                 is_in_block,
                 is_in_media,
-                is_in_attribute_selector,
+                is_in_attribute_selector || is_in_url,
             );
             is_in_media = is_in_media
                 || v.last()
@@ -580,7 +580,7 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                     }
                 }
                 ReservedChar::OpenParenthese => {
-                    is_in_url = is_unquoted_url(source, pos);
+                    is_in_url = is_in_url || is_unquoted_url(source, pos);
                     v.push(Token::Char(c));
                 }
                 ReservedChar::CloseParenthese => {
-- 
2.43.0


From c5f0d096f219adf1fc14d7a002f09be08cdfd7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 20/69] fix: a CSS comment ends a hexadecimal escape

---
 src/css/token.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index a181ad2..6de0e18 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -575,7 +575,14 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
 
                     if let Some((idx, c)) = iterator.next() {
                         pos = skip_escape(&mut iterator, idx, c);
-                        v.push(Token::Other(&source[idx..pos]));
+                        let escape = &source[idx..pos];
+                        v.push(Token::Other(escape));
+                        if escape.bytes().all(|c| c.is_ascii_hexdigit())
+                            && source[pos..].starts_with("/*")
+                        {
+                            // end the escape: it must not take the space replacing the comment
+                            v.push(Token::Other(" "));
+                        }
                         pos -= 1;
                     }
                 }
-- 
2.43.0


From 811e202282c70faa218f269947710b87eb9758c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 21/69] fix: a comment after punctuation in CSS calc() is no
 space

---
 src/css/token.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 6de0e18..db70dc7 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -360,6 +360,14 @@ impl Token<'_> {
         }
     }
 
+    /// Whether whitespace right after this token never matters.
+    fn is_punctuation(&self) -> bool {
+        self.is_char()
+            && !self.is_operator()
+            && *self != ReservedChar::CloseParenthese
+            && *self != ReservedChar::CloseBracket
+    }
+
     fn starts_operand(&self) -> bool {
         match *self {
             Token::SelectorElement(_) | Token::Other(_) => true,
@@ -833,7 +841,10 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                             && v.get(i + 1).is_some_and(|t| *t == ReservedChar::Plus)))
                 {
                     // retain the spaces around `+`, they matter in math functions
-                } else if is_in_calc && v[previous_element_index].is_useless() {
+                } else if is_in_calc
+                    && (v[previous_element_index].is_useless()
+                        || (v[i].is_comment() && v[previous_element_index].is_punctuation()))
+                {
                     retain = false;
                 } else if !is_in_calc {
                     let prev = &v[previous_element_index];
-- 
2.43.0


From 76a0c7200ec410661f9dfed28adcc50abb7d8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 22/69] fix: an escape before url( is part of the CSS
 function's name

---
 src/css/token.rs | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index db70dc7..b17d595 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -360,6 +360,17 @@ impl Token<'_> {
         }
     }
 
+    fn ends_declaration(&self) -> bool {
+        matches!(
+            self.get_char(),
+            Some(
+                ReservedChar::OpenCurlyBrace
+                    | ReservedChar::CloseCurlyBrace
+                    | ReservedChar::SemiColon
+            )
+        )
+    }
+
     /// Whether whitespace right after this token never matters.
     fn is_punctuation(&self) -> bool {
         self.is_char()
@@ -521,13 +532,13 @@ fn fill_other<'a>(
     }
 }
 
-/// Whether the parenthese at `pos` opens an `url(` whose content isn't quoted.
-fn is_unquoted_url(source: &str, pos: usize) -> bool {
+/// Whether `word`, with a parenthese and `content` after it, ends with an `url(` which isn't quoted.
+fn is_unquoted_url(word: &str, content: &str) -> bool {
     let is_name_char =
-        |c: char| c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | '\\') || !c.is_ascii();
-    let name = source[..pos].rsplit(|c| !is_name_char(c)).next();
-    let content = source[pos + 1..].trim_start();
-    name.is_some_and(|name| name.eq_ignore_ascii_case("url")) && !content.starts_with(['"', '\''])
+        |c: char| c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | '#' | '@') || !c.is_ascii();
+    let name = word.rsplit(|c| !is_name_char(c)).next();
+    name.is_some_and(|name| name.eq_ignore_ascii_case("url"))
+        && !content.trim_start().starts_with(['"', '\''])
 }
 
 #[allow(clippy::comparison_chain)]
@@ -540,6 +551,8 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     let mut is_in_attribute_selector = false;
     // In `url(...)` without quotes, where there are no comments.
     let mut is_in_url = false;
+    // Where the last escape ends.
+    let mut escape_end = usize::MAX;
 
     loop {
         let (mut pos, c) = match iterator.next() {
@@ -585,17 +598,22 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         pos = skip_escape(&mut iterator, idx, c);
                         let escape = &source[idx..pos];
                         v.push(Token::Other(escape));
-                        if escape.bytes().all(|c| c.is_ascii_hexdigit())
+                        if !is_in_url
+                            && escape.bytes().all(|c| c.is_ascii_hexdigit())
                             && source[pos..].starts_with("/*")
                         {
                             // end the escape: it must not take the space replacing the comment
                             v.push(Token::Other(" "));
                         }
+                        escape_end = pos;
                         pos -= 1;
                     }
                 }
                 ReservedChar::OpenParenthese => {
-                    is_in_url = is_in_url || is_unquoted_url(source, pos);
+                    let continues_escape = start == escape_end && pos - start == "url".len();
+                    is_in_url = is_in_url
+                        || (is_unquoted_url(&source[start..pos], &source[pos + 1..])
+                            && !continues_escape);
                     v.push(Token::Char(c));
                 }
                 ReservedChar::CloseParenthese => {
@@ -759,8 +777,13 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     let mut b = Vec::with_capacity(v.len());
 
     while i < v.len() {
-        if v[i] == Token::Other("calc") {
+        if v[i] == Token::Other("calc")
+            || v[i] == Token::SelectorElement(SelectorElement::PseudoClass("calc"))
+        {
             is_in_calc = true;
+        } else if v[i].ends_declaration() {
+            is_in_calc = false;
+            paren = 0;
         } else if is_in_calc {
             if v[i] == Token::Char(ReservedChar::CloseParenthese) {
                 paren -= 1;
@@ -843,7 +866,8 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                     // retain the spaces around `+`, they matter in math functions
                 } else if is_in_calc
                     && (v[previous_element_index].is_useless()
-                        || (v[i].is_comment() && v[previous_element_index].is_punctuation()))
+                        || v[previous_element_index].is_punctuation()
+                        || v.get(i + 1).is_some_and(Token::ends_declaration))
                 {
                     retain = false;
                 } else if !is_in_calc {
-- 
2.43.0


From b46330346b64577cea6ab34444970ef13e76bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 23/69] fix: a comment after a CSS colon is no different from a
 space

---
 src/css/token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index b17d595..1097c4d 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -513,7 +513,8 @@ fn fill_other<'a>(
         {
             let mut is_pseudo_class = false;
             let mut add = 0;
-            if let Some(&Token::Char(ReservedChar::Colon)) = v.last() {
+            let previous = v.iter().rev().find(|t| !t.is_comment() && !t.is_useless());
+            if let Some(&Token::Char(ReservedChar::Colon)) = previous {
                 is_pseudo_class = true;
                 add = 1;
             }
-- 
2.43.0


From 201ae0539d8bc9a4288e6980dd8efc3a57089cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 24/69] fix: keep JS numbers with leading zeros as they are

---
 src/js/token.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 1241141..d0d37c4 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -762,11 +762,19 @@ fn first_useful<'a>(v: &'a [Token<'a>]) -> Option<&'a Token<'a>> {
     None
 }
 
+/// Numbers which aren't displayed the way they are written (`010` is octal) aren't handled here.
+fn get_number(source: &str) -> Option<usize> {
+    if source.len() > 1 && source.starts_with('0') {
+        return None;
+    }
+    usize::from_str(source).ok()
+}
+
 fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: usize) {
     if start < pos {
         if let Ok(w) = Keyword::try_from(&source[start..pos]) {
             v.push(Token::Keyword(w));
-        } else if let Ok(n) = usize::from_str(&source[start..pos]) {
+        } else if let Some(n) = get_number(&source[start..pos]) {
             v.push(Token::Number(n))
         } else if f64::from_str(&source[start..pos]).is_ok() {
             v.push(Token::FloatingNumber(&source[start..pos]))
-- 
2.43.0


From aa36a73357d9621c20fd6e6975cb5e9c3ca66680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 25/69] fix: a JS line comment may end with the source

---
 src/js/token.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index d0d37c4..0aa0a39 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -546,18 +546,21 @@ fn get_line_comment<'a>(
     source: &'a str,
     iterator: &mut MyPeekable<'_>,
     start_pos: &mut usize,
-) -> Option<Token<'a>> {
+) -> Token<'a> {
     *start_pos += 1;
     for (pos, c) in iterator {
         if let Ok(c) = ReservedChar::try_from(c) {
             if c == ReservedChar::Backline {
-                let ret = Some(Token::Comment(&source[*start_pos..pos]));
+                let ret = Token::Comment(&source[*start_pos..pos]);
                 *start_pos = pos;
                 return ret;
             }
         }
     }
-    None
+    // The comment ends with the source.
+    let ret = Token::Comment(&source[*start_pos..]);
+    *start_pos = source.len();
+    ret
 }
 
 fn get_regex<'a>(
@@ -968,9 +971,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         .eq_operation(Operation::Divide) =>
                 {
                     v.pop();
-                    if let Some(s) = get_line_comment(source, &mut iterator, &mut pos) {
-                        v.push(s);
-                    }
+                    v.push(get_line_comment(source, &mut iterator, &mut pos));
                 }
                 ReservedChar::Slash
                     if iterator.peek().is_some()
-- 
2.43.0


From 33184ef0fea1b70d103841663b3c951f4e31a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 26/69] fix: do not slice an unclosed JS comment inside a
 character

---
 src/js/token.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 0aa0a39..cb077dc 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -650,13 +650,12 @@ fn get_comment<'a>(
         Token::Comment
     };
 
-    let mut current_pos = *start_pos;
     for (pos, c) in iterator {
-        current_pos = pos;
         if let Ok(c) = ReservedChar::try_from(c) {
             if c == ReservedChar::Slash && prev == ReservedChar::Star {
-                current_pos -= 2;
-                break;
+                let ret = builder(&source[*start_pos..pos - 1]);
+                *start_pos = pos;
+                return ret;
             }
             prev = c;
         } else {
@@ -664,9 +663,8 @@ fn get_comment<'a>(
         }
     }
     // Unclosed comment so returning it anyway...
-    current_pos = std::cmp::min(current_pos, source.len() - 1);
-    let ret = builder(&source[*start_pos..=current_pos]);
-    *start_pos = current_pos + 2;
+    let ret = builder(&source[*start_pos..]);
+    *start_pos = source.len();
     ret
 }
 
-- 
2.43.0


From 5aae7a810a1a83745ca0dfb09cd1ebcc2f6e98e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 27/69] fix: keep the space between JS tokens which would merge

---
 src/js/token.rs | 24 ++++++++++++++++++++++++
 src/js/utils.rs | 29 +++++++++--------------------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index cb077dc..dc1c1e6 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -534,6 +534,30 @@ impl Token<'_> {
         }
     }
 
+    /// Whether `self` directly followed by `next` would be read as other tokens.
+    pub(super) fn merges_with(&self, next: &Token<'_>) -> bool {
+        match (self, next) {
+            (
+                Token::Number(_) | Token::FloatingNumber(_) | Token::Regex { .. },
+                Token::Other(_) | Token::Keyword(_),
+            ) => !next.requires_before(), // The space is added when writing the token.
+            // `1 .toString()`
+            (Token::Number(_), Token::Char(ReservedChar::Dot)) => true,
+            // `a + ++b`
+            (Token::Operation(Operation::Addition), Token::Operation(Operation::Addition))
+            | (Token::Operation(Operation::Subtract), Token::Operation(Operation::Subtract)) => {
+                true
+            }
+            (Token::Operation(Operation::Divide), Token::Regex { .. }) => true,
+            // `a < !--b`: `<!--` starts a comment.
+            (
+                Token::Condition(Condition::InferiorThan),
+                Token::Char(ReservedChar::ExclamationMark),
+            ) => true,
+            _ => false,
+        }
+    }
+
     fn requires_before(&self) -> bool {
         match *self {
             Token::Keyword(k) => k.requires_before(),
diff --git a/src/js/utils.rs b/src/js/utils.rs
index fd47c28..e520865 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -240,17 +240,6 @@ pub fn get_variable_name_and_value_positions<'a>(
     None
 }
 
-#[inline]
-fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<Token<'a>> {
-    for t in it {
-        if t.is_comment() || t.is_white_character() {
-            continue;
-        }
-        return Some(t);
-    }
-    None
-}
-
 /// Convenient function used to clean useless tokens in a token list.
 ///
 /// # Example
@@ -267,16 +256,12 @@ fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<Token<'a>> {
 /// ```
 #[allow(clippy::collapsible_if)]
 pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
-    let mut v = Vec::with_capacity(tokens.len() / 3 * 2);
-    let mut it = tokens.0.into_iter();
+    let mut v: Vec<Token<'_>> = Vec::with_capacity(tokens.len() / 3 * 2);
+    let mut gap = false;
 
-    loop {
-        let token = get_next(&mut it);
-        if token.is_none() {
-            break;
-        }
-        let token = token.unwrap();
-        if token.is_white_character() {
+    for token in tokens.0 {
+        if token.is_comment() || token.is_white_character() {
+            gap = true;
             continue;
         } else if token.get_char() == Some(ReservedChar::SemiColon) {
             if v.is_empty() {
@@ -292,6 +277,10 @@ pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
             // }
             // continue;
         }
+        if gap && v.last().is_some_and(|last| last.merges_with(&token)) {
+            v.push(Token::Char(ReservedChar::Space));
+        }
+        gap = false;
         v.push(token);
     }
     v.into()
-- 
2.43.0


From c6f179a7ed4905d1abcb13d41bfb0e768d35feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 28/69] fix: a slash after a postfix JS operator is a division

---
 src/js/token.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index dc1c1e6..aff422c 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -611,6 +611,18 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
+            // `a++ / b`: this is a division.
+            Token::Operation(ope @ (Operation::Addition | Operation::Subtract)) => {
+                let run = v[..back]
+                    .iter()
+                    .rev()
+                    .take_while(|t| t.eq_operation(*ope))
+                    .count();
+                if run % 2 == 1 {
+                    return None;
+                }
+                break;
+            }
             t if t.is_operation() || t.is_condition() => break,
             _ => return None,
         }
-- 
2.43.0


From 9bf3068daa0c56f2aa7a97205211f0a330a2de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 29/69] fix: a JS regular expression may follow a keyword

---
 src/js/token.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index aff422c..740bb90 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -534,6 +534,18 @@ impl Token<'_> {
         }
     }
 
+    /// Whether this is a word which isn't a value, so what follows it is one.
+    fn precedes_expression(&self) -> bool {
+        match *self {
+            Token::Keyword(k) => !matches!(
+                k,
+                Keyword::This | Keyword::Null | Keyword::True | Keyword::False
+            ),
+            Token::Other(s) => s == "void" || s == "delete",
+            _ => false,
+        }
+    }
+
     /// Whether `self` directly followed by `next` would be read as other tokens.
     pub(super) fn merges_with(&self, next: &Token<'_>) -> bool {
         match (self, next) {
@@ -624,6 +636,13 @@ fn get_regex<'a>(
                 break;
             }
             t if t.is_operation() || t.is_condition() => break,
+            t if t.precedes_expression()
+                && !v[..back]
+                    .last()
+                    .is_some_and(|t| t.eq_char(ReservedChar::Dot)) =>
+            {
+                break
+            }
             _ => return None,
         }
     }
@@ -789,16 +808,6 @@ fn get_backtick_string<'a>(
     Ok(None)
 }
 
-fn first_useful<'a>(v: &'a [Token<'a>]) -> Option<&'a Token<'a>> {
-    for x in v.iter().rev() {
-        if x.is_white_character() {
-            continue;
-        }
-        return Some(x);
-    }
-    None
-}
-
 /// Numbers which aren't displayed the way they are written (`010` is octal) aren't handled here.
 fn get_number(source: &str) -> Option<usize> {
     if source.len() > 1 && source.starts_with('0') {
@@ -1010,8 +1019,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 ReservedChar::Slash
                     if iterator.peek().is_some()
                         && iterator.peek().unwrap().1 != '/'
-                        && iterator.peek().unwrap().1 != '*'
-                        && !first_useful(&v).unwrap_or(&Token::String("")).is_other() =>
+                        && iterator.peek().unwrap().1 != '*' =>
                 {
                     if let Some(r) = get_regex(source, &mut iterator, &mut pos, &v) {
                         v.push(r);
-- 
2.43.0


From b119660cdeba36163c38e66c60ee7134fef58bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 30/69] fix: a slash in a JS regular expression class doesn't
 end it

---
 src/js/token.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 740bb90..5b8e5b9 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -646,6 +646,7 @@ fn get_regex<'a>(
             _ => return None,
         }
     }
+    let mut in_class = false;
     iterator.start_save();
     while let Some((pos, c)) = iterator.next() {
         if c == '\\' {
@@ -654,7 +655,11 @@ fn get_regex<'a>(
             continue;
         }
         if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::Slash {
+            if c == ReservedChar::OpenBracket {
+                in_class = true;
+            } else if c == ReservedChar::CloseBracket {
+                in_class = false;
+            } else if c == ReservedChar::Slash && !in_class {
                 let mut is_global = false;
                 let mut is_interactive = false;
                 let mut add = 0;
-- 
2.43.0


From fe3370db7f9e4ab5cca37a3f5cb9a8b7b52784ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 31/69] fix: U+2028 and U+2029 end a JS line comment

---
 src/js/token.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 5b8e5b9..cb92869 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -585,12 +585,11 @@ fn get_line_comment<'a>(
 ) -> Token<'a> {
     *start_pos += 1;
     for (pos, c) in iterator {
-        if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::Backline {
-                let ret = Token::Comment(&source[*start_pos..pos]);
-                *start_pos = pos;
-                return ret;
-            }
+        if matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}') {
+            let ret = Token::Comment(&source[*start_pos..pos]);
+            // `start_pos` is the last byte of the line terminator.
+            *start_pos = pos + c.len_utf8() - 1;
+            return ret;
         }
     }
     // The comment ends with the source.
-- 
2.43.0


From 93a4411039a98ac0b039be682ce7031cb7d812da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 32/69] fix: keep the space between a JS word and an aggregated
 string

---
 src/js/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index cb92869..19c8bab 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -528,6 +528,7 @@ impl Token<'_> {
             Token::Keyword(_)
             | Token::Other(_)
             | Token::CreatedVarDecl(_)
+            | Token::CreatedVar(_)
             | Token::Number(_)
             | Token::FloatingNumber(_) => Some(' '),
             _ => None,
-- 
2.43.0


From 12c532ae8f4090c5dba64b6af542758fc21281fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 33/69] fix: keep the space between more JS tokens which would
 merge

---
 src/js/token.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 19c8bab..f8a90a1 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -556,6 +556,11 @@ impl Token<'_> {
             ) => !next.requires_before(), // The space is added when writing the token.
             // `1 .toString()`
             (Token::Number(_), Token::Char(ReservedChar::Dot)) => true,
+            // `1_000 .toString()`
+            (Token::FloatingNumber(s) | Token::Other(s), Token::Char(ReservedChar::Dot)) => {
+                s.starts_with(|c: char| c.is_ascii_digit())
+                    && s.bytes().all(|c| c.is_ascii_digit() || c == b'_')
+            }
             // `a + ++b`
             (Token::Operation(Operation::Addition), Token::Operation(Operation::Addition))
             | (Token::Operation(Operation::Subtract), Token::Operation(Operation::Subtract)) => {
@@ -567,6 +572,9 @@ impl Token<'_> {
                 Token::Condition(Condition::InferiorThan),
                 Token::Char(ReservedChar::ExclamationMark),
             ) => true,
+            (Token::Char(ReservedChar::ExclamationMark), Token::Operation(Operation::Subtract)) => {
+                true
+            }
             _ => false,
         }
     }
-- 
2.43.0


From ba105640cd692dbbe06d47e1d71d74da2d80ef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 34/69] fix: a regular expression may only follow some JS
 keywords

---
 src/js/token.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index f8a90a1..ceb495d 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -538,9 +538,17 @@ impl Token<'_> {
     /// Whether this is a word which isn't a value, so what follows it is one.
     fn precedes_expression(&self) -> bool {
         match *self {
-            Token::Keyword(k) => !matches!(
+            Token::Keyword(k) => matches!(
                 k,
-                Keyword::This | Keyword::Null | Keyword::True | Keyword::False
+                Keyword::Case
+                    | Keyword::Do
+                    | Keyword::Else
+                    | Keyword::In
+                    | Keyword::InstanceOf
+                    | Keyword::New
+                    | Keyword::Return
+                    | Keyword::Throw
+                    | Keyword::Typeof
             ),
             Token::Other(s) => s == "void" || s == "delete",
             _ => false,
-- 
2.43.0


From 0b449c302b56efc4badf76d9a2eb401e3799441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 35/69] fix: a JS number may end with a dot before a carriage
 return or follow ^ or ~

---
 src/js/token.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index ceb495d..14b1476 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -566,6 +566,8 @@ impl Token<'_> {
             (Token::Number(_), Token::Char(ReservedChar::Dot)) => true,
             // `1_000 .toString()`
             (Token::FloatingNumber(s) | Token::Other(s), Token::Char(ReservedChar::Dot)) => {
+                // Neither `^` nor `~` end a word.
+                let s = s.rsplit(['^', '~']).next().unwrap_or(s);
                 s.starts_with(|c: char| c.is_ascii_digit())
                     && s.bytes().all(|c| c.is_ascii_digit() || c == b'_')
             }
@@ -1007,7 +1009,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
             if c == ReservedChar::Dot && check_if_number(&mut iterator, start, pos, source) {
                 let mut cont = true;
                 if let Some(x) = iterator.peek() {
-                    if !"0123456789,; \t\n<>/*&|{}[]-+=~%^:!".contains(x.1) {
+                    if !"0123456789,; \t\r\n<>/*&|{}[]-+=~%^:!".contains(x.1) {
                         fill_other(source, &mut v, start, pos);
                         start = pos;
                         cont = false;
-- 
2.43.0


From 5c4eb9a6b098df3c16b1d3c66aeeed98f9d61870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 36/69] fix: a JS regular expression may be spread

---
 src/js/token.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 14b1476..025513b 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -654,6 +654,14 @@ fn get_regex<'a>(
                 break;
             }
             t if t.is_operation() || t.is_condition() => break,
+            // `[.../a/g[Symbol.matchAll](b)]`
+            Token::Char(ReservedChar::Dot)
+                if v[..back]
+                    .last()
+                    .is_some_and(|t| t.eq_char(ReservedChar::Dot)) =>
+            {
+                break
+            }
             t if t.precedes_expression()
                 && !v[..back]
                     .last()
-- 
2.43.0


From cf8e655550c339c58d3755a5ed00ede1cb28fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 37/69] fix: no space is needed between a JS operator and in

---
 src/js/token.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 025513b..67de97f 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1111,6 +1111,8 @@ macro_rules! tokens_writer {
                 && !tokens[i - 1].is_keyword()
                 && !tokens[i - 1].is_other()
                 && !tokens[i - 1].is_reserved_char()
+                && !tokens[i - 1].is_operation()
+                && !tokens[i - 1].is_condition()
                 && !tokens[i - 1].is_string()
             {
                 write!($w, " ")?;
-- 
2.43.0


From 9d77e4c0732ec055d77ec5706bff0718b307310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 38/69] fix: keep the space between a JS division and a license

---
 src/js/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 67de97f..562a354 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -576,7 +576,7 @@ impl Token<'_> {
             | (Token::Operation(Operation::Subtract), Token::Operation(Operation::Subtract)) => {
                 true
             }
-            (Token::Operation(Operation::Divide), Token::Regex { .. }) => true,
+            (Token::Operation(Operation::Divide), Token::Regex { .. } | Token::License(_)) => true,
             // `a < !--b`: `<!--` starts a comment.
             (
                 Token::Condition(Condition::InferiorThan),
-- 
2.43.0


From 3d367090b01bfc5a7c964307bff591b1a784d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 39/69] fix: no space is needed between a license and in

---
 src/js/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 562a354..baf74f3 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1113,6 +1113,7 @@ macro_rules! tokens_writer {
                 && !tokens[i - 1].is_reserved_char()
                 && !tokens[i - 1].is_operation()
                 && !tokens[i - 1].is_condition()
+                && !tokens[i - 1].is_license()
                 && !tokens[i - 1].is_string()
             {
                 write!($w, " ")?;
-- 
2.43.0


From 580e52a7f792e5dade3c5db2252685c43e94d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:19 +0000
Subject: [PATCH 40/69] fix: do not aggregate JS strings which have to stay
 literals

---
 src/js/tools.rs | 53 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index d264c7c..37d2513 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -2,7 +2,7 @@
 
 use std::{fmt, io};
 
-use crate::js::token::{self, Keyword, ReservedChar, Token, Tokens};
+use crate::js::token::{self, Keyword, Operation, ReservedChar, Token, Tokens};
 use crate::js::utils::{get_array, get_variable_name_and_value_positions, VariableNameGenerator};
 
 use std::collections::{HashMap, HashSet};
@@ -205,6 +205,52 @@ impl fmt::Display for Minified<'_> {
     }
 }
 
+fn is_useful(token: &Token<'_>) -> bool {
+    !token.is_white_character() && !token.is_comment() && !token.is_license()
+}
+
+/// Whether something else can be written instead of the string: template literals, directives,
+/// module and method names have to stay what they are.
+fn is_replaceable_string(tokens: &Tokens<'_>, pos: usize) -> bool {
+    if tokens[pos].get_string().is_none_or(|s| s.starts_with('`')) {
+        return false;
+    }
+    let previous = tokens[..pos].iter().rev().find(|t| is_useful(t));
+    let next = tokens[pos + 1..].iter().find(|t| is_useful(t));
+
+    match next {
+        Some(Token::Char(ReservedChar::OpenParenthese) | Token::Operation(Operation::Equal)) => {
+            false
+        }
+        None | Some(Token::Char(ReservedChar::SemiColon | ReservedChar::CloseCurlyBrace)) => {
+            !matches!(
+                previous,
+                None | Some(
+                    Token::Char(
+                        ReservedChar::SemiColon
+                            | ReservedChar::OpenCurlyBrace
+                            | ReservedChar::CloseCurlyBrace
+                    ) | Token::Other("from" | "import")
+                )
+            )
+        }
+        _ => true,
+    }
+}
+
+/// Whether the string is a key of an object: a variable in its place would be another key.
+fn is_object_key(tokens: &Tokens<'_>, pos: usize) -> bool {
+    matches!(
+        tokens[pos + 1..].iter().find(|t| is_useful(t)),
+        Some(Token::Char(ReservedChar::Colon))
+    ) && matches!(
+        tokens[..pos].iter().rev().find(|t| is_useful(t)),
+        Some(Token::Char(
+            ReservedChar::OpenCurlyBrace | ReservedChar::Comma
+        ))
+    )
+}
+
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
 fn get_variables_name<'a>(
     tokens: &'a Tokens<'a>,
@@ -259,6 +305,9 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
         for pos in 0..tokens.len() {
             let token = &tokens[pos];
             if let Some(str_token) = token.get_string() {
+                if !is_replaceable_string(&tokens, pos) || is_object_key(&tokens, pos) {
+                    continue;
+                }
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
                     if pos != *string_pos {
                         to_replace.push((pos, *var_pos));
@@ -427,7 +476,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             }
             let token = &tokens[pos];
             if let Some(str_token) = token.get_string() {
-                if !filter(&tokens, pos) {
+                if !is_replaceable_string(&tokens, pos) || !filter(&tokens, pos) {
                     continue;
                 }
                 let s = &str_token[1..str_token.len() - 1];
-- 
2.43.0


From e76d4e499c7682e44d7b8f5983061ae20caeea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:21 +0000
Subject: [PATCH 41/69] fix: only use a JS variable instead of a string where
 it holds it

---
 src/js/tools.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 37d2513..3acf08b 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -251,6 +251,24 @@ fn is_object_key(tokens: &Tokens<'_>, pos: usize) -> bool {
     )
 }
 
+/// Whether the variable declared at `var_pos` only ever holds the string at `value_pos`.
+fn is_constant(tokens: &Tokens<'_>, var_pos: usize, value_pos: usize) -> bool {
+    matches!(
+        tokens[value_pos + 1..].iter().find(|t| is_useful(t)),
+        None | Some(Token::Char(ReservedChar::Comma | ReservedChar::SemiColon))
+    ) && !tokens[var_pos + 1..value_pos]
+        .iter()
+        .any(|t| is_useful(t) && !t.eq_operation(Operation::Equal))
+        && (0..tokens.len()).all(|pos| {
+            pos == var_pos
+                || tokens[pos] != tokens[var_pos]
+                || !matches!(
+                    tokens[pos + 1..].iter().find(|t| is_useful(t)),
+                    Some(Token::Operation(ope)) if ope.is_assign()
+                )
+        })
+}
+
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
 fn get_variables_name<'a>(
     tokens: &'a Tokens<'a>,
@@ -258,8 +276,14 @@ fn get_variables_name<'a>(
     let mut ret = HashSet::new();
     let mut variables = HashMap::new();
     let mut pos = 0;
+    let mut depth = 0;
 
     while pos < tokens.len() {
+        match tokens[pos].get_char() {
+            Some(ReservedChar::OpenCurlyBrace | ReservedChar::OpenParenthese) => depth += 1,
+            Some(ReservedChar::CloseCurlyBrace | ReservedChar::CloseParenthese) => depth -= 1,
+            _ => {}
+        }
         if tokens[pos].is_keyword() || tokens[pos].is_other() {
             if let Some((var_pos, Some(value_pos))) =
                 get_variable_name_and_value_positions(tokens, pos)
@@ -273,7 +297,9 @@ fn get_variables_name<'a>(
                     ret.insert(var_name);
                 }
                 if let Some(s) = tokens[value_pos].get_string() {
-                    variables.insert(s, (var_pos, value_pos));
+                    if depth == 0 && is_constant(tokens, var_pos, value_pos) {
+                        variables.entry(s).or_insert((var_pos, value_pos));
+                    }
                 }
             }
         }
@@ -309,10 +335,12 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
                     continue;
                 }
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
-                    if pos != *string_pos {
+                    if pos > *string_pos {
                         to_replace.push((pos, *var_pos));
                     }
-                    continue;
+                    if pos >= *string_pos {
+                        continue;
+                    }
                 }
                 let x = strs.entry(token).or_insert_with(|| Vec::with_capacity(1));
                 x.push(pos);
-- 
2.43.0


From 980e092ff3f768134933f5e35db5474d7a5b50e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 42/69] fix: do not create a JS variable whose name is used

---
 src/js/tools.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 3acf08b..61ff460 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -270,10 +270,7 @@ fn is_constant(tokens: &Tokens<'_>, var_pos: usize, value_pos: usize) -> bool {
 }
 
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
-fn get_variables_name<'a>(
-    tokens: &'a Tokens<'a>,
-) -> (HashSet<&'a str>, HashMap<&'a str, (usize, usize)>) {
-    let mut ret = HashSet::new();
+fn get_variables_name<'a>(tokens: &'a Tokens<'a>) -> HashMap<&'a str, (usize, usize)> {
     let mut variables = HashMap::new();
     let mut pos = 0;
     let mut depth = 0;
@@ -294,7 +291,6 @@ fn get_variables_name<'a>(
                         pos += 1;
                         continue;
                     }
-                    ret.insert(var_name);
                 }
                 if let Some(s) = tokens[value_pos].get_string() {
                     if depth == 0 && is_constant(tokens, var_pos, value_pos) {
@@ -305,7 +301,7 @@ fn get_variables_name<'a>(
         }
         pos += 1;
     }
-    (ret, variables)
+    variables
 }
 
 fn aggregate_strings_inner<'a, 'b: 'a>(
@@ -322,8 +318,23 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
         let mut var_gen = VariableNameGenerator::new(Some("r_"), 2);
         let mut next_name = var_gen.to_string();
 
-        let (all_variables, values) = get_variables_name(&tokens);
-        while all_variables.contains(&next_name.as_str()) {
+        let values = get_variables_name(&tokens);
+        // Neither `^` nor `~` end a word.
+        let words = tokens
+            .iter()
+            .filter_map(Token::get_other)
+            .flat_map(|word| word.split(['^', '~']))
+            .filter(|word| word.starts_with("r_"))
+            .collect::<HashSet<_>>();
+        let templates = tokens
+            .iter()
+            .filter_map(Token::get_string)
+            .filter(|s| s.starts_with('`'))
+            .collect::<Vec<_>>();
+        let is_used = |name: &str| {
+            words.contains(name) || templates.iter().any(|template| template.contains(name))
+        };
+        while is_used(&next_name) {
             var_gen.next();
             next_name = var_gen.to_string();
         }
@@ -355,7 +366,7 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
                         validated.insert(token, next_name.clone());
                         var_gen.next();
                         next_name = var_gen.to_string();
-                        while all_variables.contains(&next_name.as_str()) {
+                        while is_used(&next_name) {
                             var_gen.next();
                             next_name = var_gen.to_string();
                         }
-- 
2.43.0


From 570df1f1dfb6f3ba641fe0a9520e81a19d5a6fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 43/69] fix: create the JS variables after the directives

---
 src/js/tools.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 61ff460..5299f93 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -269,6 +269,26 @@ fn is_constant(tokens: &Tokens<'_>, var_pos: usize, value_pos: usize) -> bool {
         })
 }
 
+/// Position after the directives (such as `"use strict";`) which start the program.
+fn get_directives_end(tokens: &Tokens<'_>) -> usize {
+    let mut end = 0;
+
+    loop {
+        let mut it = tokens[end..]
+            .iter()
+            .enumerate()
+            .filter(|(_, t)| is_useful(t));
+        match (it.next(), it.next()) {
+            (Some((_, Token::String(s))), Some((pos, Token::Char(ReservedChar::SemiColon))))
+                if !s.starts_with('`') =>
+            {
+                end += pos + 1;
+            }
+            _ => return end,
+        }
+    }
+}
+
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
 fn get_variables_name<'a>(tokens: &'a Tokens<'a>) -> HashMap<&'a str, (usize, usize)> {
     let mut variables = HashMap::new();
@@ -413,8 +433,9 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
     if let Some(token) = separation_token {
         new_vars.push(token);
     }
-    new_vars.append(&mut tokens.0);
-    Tokens(new_vars)
+    let start = get_directives_end(&tokens);
+    tokens.0.splice(start..start, new_vars);
+    tokens
 }
 
 /// Aggregate litteral strings. For instance, if the string litteral "Oh look over there!"
@@ -556,19 +577,20 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         //
         // ALSO: if an array with such strings already exists, it'd be worth it to recompute
         // everything again.
+        let start = get_directives_end(&tokens);
         let mut validated = validated.iter().map(|v| (strs[v].0, v)).collect::<Vec<_>>();
         validated.sort_unstable_by(|(p1, _), (p2, _)| p2.cmp(p1));
 
         if need_recreate && !validated.is_empty() {
             if let Some(token) = separation_token {
-                to_insert.push((0, token));
+                to_insert.push((start, token));
             }
-            to_insert.push((0, Token::Char(ReservedChar::SemiColon)));
-            to_insert.push((0, Token::Char(ReservedChar::CloseBracket)));
-            to_insert.push((0, Token::Char(ReservedChar::OpenBracket)));
-            to_insert.push((0, Token::CreatedVarDecl(format!("var {array_name}="))));
+            to_insert.push((start, Token::Char(ReservedChar::SemiColon)));
+            to_insert.push((start, Token::Char(ReservedChar::CloseBracket)));
+            to_insert.push((start, Token::Char(ReservedChar::OpenBracket)));
+            to_insert.push((start, Token::CreatedVarDecl(format!("var {array_name}="))));
 
-            end_bracket = 2;
+            end_bracket = start + 2;
         }
 
         let mut iter = validated.iter().peekable();
-- 
2.43.0


From a6eb66d38588ad743df99fbaa3a8e404c4b9f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 44/69] fix: keep the quotes of JS strings moved into an array

---
 src/js/tools.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 5299f93..15c495b 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -540,6 +540,10 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                     continue;
                 }
                 let s = &str_token[1..str_token.len() - 1];
+                if str_token.starts_with('\'') && s.contains('"') {
+                    // The strings of the array are between double quotes.
+                    continue;
+                }
                 let x = strs
                     .entry(s)
                     .or_insert_with(|| (0, Vec::with_capacity(1), true));
-- 
2.43.0


From dd06b7a3fc70e6f7bea25683afc86590dc1f5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 45/69] fix: do not extend a JS array of anything else than
 strings

---
 src/js/tools.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 15c495b..651c9d2 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -519,6 +519,19 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             };
         let mut validated: HashSet<&str> = HashSet::new();
 
+        // The other elements of the array need a position too.
+        if !current_array_values.iter().enumerate().all(|(i, pos)| {
+            if i % 2 == 0 {
+                tokens[*pos]
+                    .get_string()
+                    .is_some_and(|s| !s.starts_with('`'))
+            } else {
+                tokens[*pos].eq_char(ReservedChar::Comma) && i + 1 < current_array_values.len()
+            }
+        }) {
+            return tokens;
+        }
+
         let mut array_pos = 0;
         for s in current_array_values.iter() {
             if let Some(st) = tokens.0[*s].get_string() {
-- 
2.43.0


From 898d53e711532ff35912293b234b4b46c2375120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 46/69] fix: only create a JS variable for a string when this
 takes less space

---
 src/js/tools.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 651c9d2..8a6053d 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -378,10 +378,10 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
                 if x.len() > 1 && !validated.contains_key(token) {
                     let len = str_token.len();
                     // Computation here is simple, we declare new variables when creating this so
-                    // the total of characters must be shorter than:
-                    // `var r_aa=...;` -> 10 + `r_aa` -> 14
-                    if (x.len() + 2/* quotes */) * len
-                        > next_name.len() + str_token.len() + 6 /* var _=_;*/ + x.len() * next_name.len()
+                    // the total of characters must be shorter than: `r_aa=...,` + `r_aa` for each
+                    // occurrence.
+                    if x.len() * len
+                        > next_name.len() + len + 2 /* _=_, */ + x.len() * next_name.len()
                     {
                         validated.insert(token, next_name.clone());
                         var_gen.next();
-- 
2.43.0


From 0668c82d3a4f26ef54c50f2151258c5c3c950f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 47/69] fix: only move a JS string into the array when this
 takes less space

---
 src/js/tools.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 8a6053d..40b5411 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -562,11 +562,10 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                     .or_insert_with(|| (0, Vec::with_capacity(1), true));
                 x.1.push(pos);
                 if x.1.len() > 1 && !validated.contains(s) {
-                    let len = s.len();
+                    // Each occurrence becomes `R[0]`, the array gets `"...",`.
+                    let len = s.len() + 2;
                     if len * x.1.len()
-                        > (array_name.len() + array_pos_str.len() + 2) * x.1.len()
-                            + array_pos_str.len()
-                            + 2
+                        > (array_name.len() + array_pos_str.len() + 2) * x.1.len() + len + 1
                     {
                         validated.insert(&str_token[1..str_token.len() - 1]);
                         x.0 = array_pos;
-- 
2.43.0


From fd8e75ceedfb4de526f16c82218ed776f4597279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 48/69] fix: do not use a JS variable or array element longer
 than the string

---
 src/js/tools.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 40b5411..3f52f81 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -366,7 +366,11 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
                     continue;
                 }
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
-                    if pos > *string_pos {
+                    if pos > *string_pos
+                        && tokens[*var_pos]
+                            .get_other()
+                            .is_some_and(|name| name.len() < str_token.len())
+                    {
                         to_replace.push((pos, *var_pos));
                     }
                     if pos >= *string_pos {
@@ -612,7 +616,11 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         let mut iter = validated.iter().peekable();
         while let Some((array_pos, s)) = iter.next() {
             let (_, ref tokens_pos, create_array_entry) = strs[*s];
-            let array_index = Token::CreatedVar(format!("{array_name}[{array_pos}]"));
+            let array_index = format!("{array_name}[{array_pos}]");
+            if array_index.len() >= s.len() + 2 {
+                continue;
+            }
+            let array_index = Token::CreatedVar(array_index);
             for token in tokens_pos.iter() {
                 to_replace.push((*token, array_index.clone()));
             }
-- 
2.43.0


From 0cfdec3763fcbdb42d1408d00260fb6c778a370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 49/69] fix: write the kept JS comments as comments, with their
 line terminators

---
 src/js/token.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index baf74f3..03f6d6f 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -388,7 +388,10 @@ impl fmt::Display for Token<'_> {
         match *self {
             Token::Keyword(x) => write!(f, "{x}"),
             Token::Char(x) => write!(f, "{x}"),
-            Token::String(x) | Token::Comment(x) | Token::Other(x) => write!(f, "{x}"),
+            Token::String(x) | Token::Other(x) => write!(f, "{x}"),
+            // A line comment: `//!x` or `// */`.
+            Token::Comment(x) if x.starts_with('!') || x.contains("*/") => writeln!(f, "//{x}"),
+            Token::Comment(x) => write!(f, "/*{x}*/"),
             Token::License(x) => write!(f, "/*!{x}*/"),
             Token::Regex {
                 regex,
@@ -576,7 +579,10 @@ impl Token<'_> {
             | (Token::Operation(Operation::Subtract), Token::Operation(Operation::Subtract)) => {
                 true
             }
-            (Token::Operation(Operation::Divide), Token::Regex { .. } | Token::License(_)) => true,
+            (
+                Token::Operation(Operation::Divide),
+                Token::Regex { .. } | Token::License(_) | Token::Comment(_),
+            ) => true,
             // `a < !--b`: `<!--` starts a comment.
             (
                 Token::Condition(Condition::InferiorThan),
@@ -1046,6 +1052,9 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 {
                     v.pop();
                     v.push(get_line_comment(source, &mut iterator, &mut pos));
+                    if pos < source.len() {
+                        v.push(Token::Char(ReservedChar::Backline));
+                    }
                 }
                 ReservedChar::Slash
                     if iterator.peek().is_some()
-- 
2.43.0


From 26a19707065822f3390a8131d2c50278069dc99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 50/69] fix: keep needed spaces and empty statements in
 clean_tokens_except

---
 src/js/utils.rs | 62 +++++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index e520865..33c5677 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -1,7 +1,6 @@
 // Take a look at the license at the top of the repository in the LICENSE file.
 
 use crate::js::token::{Keyword, Operation, ReservedChar, Token, Tokens};
-use std::vec::IntoIter;
 
 pub(crate) struct VariableNameGenerator<'a> {
     letter: char,
@@ -300,18 +299,17 @@ pub fn clean_token(token: &Token<'_>, next_token: &Option<&Token<'_>>) -> bool {
     }
 }
 
-#[inline]
-fn get_next_except<'a, F: Fn(&Token<'a>) -> bool>(
-    it: &mut IntoIter<Token<'a>>,
-    f: &F,
-) -> Option<Token<'a>> {
-    for t in it {
-        if (t.is_comment() || t.is_white_character()) && f(&t) {
-            continue;
-        }
-        return Some(t);
+/// Returns true if a `;` after these tokens may be an empty statement, such as the body of a loop.
+fn needs_semi_colon(tokens: &[Token<'_>]) -> bool {
+    match tokens
+        .iter()
+        .rev()
+        .find(|t| !t.is_comment() && !t.is_white_character() && !t.is_license())
+    {
+        Some(Token::Char(ReservedChar::CloseParenthese | ReservedChar::Colon)) => true,
+        Some(Token::Keyword(Keyword::Do | Keyword::Else)) => true,
+        _ => false,
     }
-    None
 }
 
 /// Same as `clean_tokens` except that if a token is considered as not desired,
@@ -335,36 +333,30 @@ fn get_next_except<'a, F: Fn(&Token<'a>) -> bool>(
 /// println!("result: {:?}", s);
 /// ```
 pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f: F) -> Tokens<'a> {
-    let mut v = Vec::with_capacity(tokens.len() / 3 * 2);
+    let mut v: Vec<Token<'a>> = Vec::with_capacity(tokens.len() / 3 * 2);
     let mut it = tokens.0.into_iter();
+    let mut gap = false;
+    let is_removed = |t: &Token<'a>| (t.is_comment() || t.is_white_character()) && f(t);
 
-    loop {
-        let token = get_next_except(&mut it, &f);
-        if token.is_none() {
-            break;
-        }
-        let token = token.unwrap();
-        if token.is_white_character() {
-            if f(&token) {
-                continue;
-            }
-        } else if token.get_char() == Some(ReservedChar::SemiColon) {
+    while let Some(token) = it.next() {
+        if is_removed(&token) {
+            gap = true;
+            continue;
+        } else if token.get_char() == Some(ReservedChar::SemiColon) && f(&token) {
             if v.is_empty() {
-                if !f(&token) {
-                    v.push(token);
-                }
                 continue;
             }
-            if let Some(next) = get_next_except(&mut it, &f) {
-                if next != Token::Char(ReservedChar::CloseCurlyBrace) || !f(&token) {
-                    v.push(token);
-                }
-                v.push(next);
-            } else if !f(&token) {
-                v.push(token);
+            let next = it.as_slice().iter().find(|t| !is_removed(t));
+            if next.is_none_or(|t| t.eq_char(ReservedChar::CloseCurlyBrace))
+                && !needs_semi_colon(&v)
+            {
+                continue;
             }
-            continue;
         }
+        if gap && v.last().is_some_and(|last| last.merges_with(&token)) {
+            v.push(Token::Char(ReservedChar::Space));
+        }
+        gap = false;
         v.push(token);
     }
     v.into()
-- 
2.43.0


From f5660f533d85eec7f0491b96cb01fcb57ec9355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:23 +0000
Subject: [PATCH 51/69] fix: only report the value of the JS variable looked
 for

---
 src/js/utils.rs | 85 ++++++++++++++++---------------------------------
 1 file changed, 28 insertions(+), 57 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 33c5677..9195469 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -175,68 +175,39 @@ pub fn get_variable_name_and_value_positions<'a>(
     if pos >= tokens.len() {
         return None;
     }
-    let mut tmp = pos;
-    match tokens[pos] {
-        Token::Keyword(Keyword::Let) | Token::Keyword(Keyword::Var) => {
-            tmp += 1;
-        }
-        Token::Other(_) if pos > 0 => {
-            let mut pos = pos - 1;
-            while pos > 0 {
-                if tokens[pos].is_comment() || tokens[pos].is_white_character() {
-                    pos -= 1;
-                } else if tokens[pos] == Token::Char(ReservedChar::Comma)
-                    || tokens[pos] == Token::Keyword(Keyword::Let)
-                    || tokens[pos] == Token::Keyword(Keyword::Var)
-                {
-                    break;
-                } else {
-                    return None;
+    let is_useful = |pos: &usize| {
+        let token = &tokens[*pos];
+        !token.is_comment() && !token.is_license() && !token.is_white_character()
+    };
+    let next = |pos: usize| (pos..tokens.len()).find(is_useful);
+    let name_pos = match tokens[pos] {
+        Token::Keyword(Keyword::Let) | Token::Keyword(Keyword::Var) => next(pos + 1)?,
+        Token::Other(_) => {
+            let previous = (0..pos).rev().find(is_useful)?;
+            match tokens[previous] {
+                Token::Char(ReservedChar::Comma) | Token::Keyword(Keyword::Let | Keyword::Var) => {
+                    pos
                 }
+                _ => return None,
             }
         }
         _ => return None,
+    };
+    if !tokens[name_pos].is_other() {
+        return None;
     }
-    while tmp < tokens.len() {
-        if tokens[tmp].is_other() {
-            let mut tmp2 = tmp + 1;
-            while tmp2 < tokens.len() {
-                if tokens[tmp2] == Token::Operation(Operation::Equal) {
-                    tmp2 += 1;
-                    while tmp2 < tokens.len() {
-                        let token = &tokens[tmp2];
-                        if token.is_string()
-                            || token.is_other()
-                            || token.is_regex()
-                            || token.is_number()
-                            || token.is_floating_number()
-                        {
-                            return Some((tmp, Some(tmp2)));
-                        } else if !tokens[tmp2].is_comment() && !tokens[tmp2].is_white_character() {
-                            break;
-                        }
-                        tmp2 += 1;
-                    }
-                    break;
-                } else if matches!(
-                    tokens[tmp2].get_char(),
-                    Some(ReservedChar::Comma) | Some(ReservedChar::SemiColon)
-                ) {
-                    return Some((tmp, None));
-                } else if !(tokens[tmp2].is_comment()
-                    || tokens[tmp2].is_white_character()
-                        && tokens[tmp2].get_char() != Some(ReservedChar::Backline))
-                {
-                    break;
-                }
-                tmp2 += 1;
-            }
-        } else {
-            // We don't care about syntax errors.
-        }
-        tmp += 1;
-    }
-    None
+    let value_pos = next(name_pos + 1)
+        .filter(|pos| tokens[*pos] == Token::Operation(Operation::Equal))
+        .and_then(|pos| next(pos + 1))
+        .filter(|pos| {
+            let token = &tokens[*pos];
+            token.is_string()
+                || token.is_other()
+                || token.is_regex()
+                || token.is_number()
+                || token.is_floating_number()
+        });
+    Some((name_pos, value_pos))
 }
 
 /// Convenient function used to clean useless tokens in a token list.
-- 
2.43.0


From 1260d4537e38dfd3a55039cfcfa9a27814450341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 52/69] fix: do not use a JS variable that may not be assigned

---
 src/js/tools.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 3f52f81..9e50950 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -294,6 +294,8 @@ fn get_variables_name<'a>(tokens: &'a Tokens<'a>) -> HashMap<&'a str, (usize, us
     let mut variables = HashMap::new();
     let mut pos = 0;
     let mut depth = 0;
+    // In a declaration which is always reached, unlike the one of `if (x) var y = "z";`.
+    let mut is_declaration = false;
 
     while pos < tokens.len() {
         match tokens[pos].get_char() {
@@ -301,6 +303,23 @@ fn get_variables_name<'a>(tokens: &'a Tokens<'a>) -> HashMap<&'a str, (usize, us
             Some(ReservedChar::CloseCurlyBrace | ReservedChar::CloseParenthese) => depth -= 1,
             _ => {}
         }
+        match tokens[pos] {
+            Token::Keyword(Keyword::Let | Keyword::Var) => {
+                is_declaration = depth == 0
+                    && matches!(
+                        tokens[..pos].iter().rev().find(|t| is_useful(t)),
+                        None | Some(Token::Char(
+                            ReservedChar::SemiColon | ReservedChar::CloseCurlyBrace
+                        ))
+                    );
+            }
+            Token::Char(
+                ReservedChar::SemiColon
+                | ReservedChar::OpenCurlyBrace
+                | ReservedChar::CloseCurlyBrace,
+            ) => is_declaration = false,
+            _ => {}
+        }
         if tokens[pos].is_keyword() || tokens[pos].is_other() {
             if let Some((var_pos, Some(value_pos))) =
                 get_variable_name_and_value_positions(tokens, pos)
@@ -313,7 +332,7 @@ fn get_variables_name<'a>(tokens: &'a Tokens<'a>) -> HashMap<&'a str, (usize, us
                     }
                 }
                 if let Some(s) = tokens[value_pos].get_string() {
-                    if depth == 0 && is_constant(tokens, var_pos, value_pos) {
+                    if is_declaration && is_constant(tokens, var_pos, value_pos) {
                         variables.entry(s).or_insert((var_pos, value_pos));
                     }
                 }
-- 
2.43.0


From 354d1c09751ea7b99887644eb95ac8712aca4e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:35 +0000
Subject: [PATCH 53/69] fix: do not use the JS array before it exists

---
 src/js/tools.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 9e50950..68e7d73 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -575,6 +575,10 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                 if !is_replaceable_string(&tokens, pos) || !filter(&tokens, pos) {
                     continue;
                 }
+                if pos < end_bracket {
+                    // The array does not exist yet.
+                    continue;
+                }
                 let s = &str_token[1..str_token.len() - 1];
                 if str_token.starts_with('\'') && s.contains('"') {
                     // The strings of the array are between double quotes.
-- 
2.43.0


From cb1404eba8eed9587080ec78f8c6c0d5b3413dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 54/69] fix: do not create a JS array whose name is used

---
 src/js/tools.rs | 5 +++++
 src/js/utils.rs | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 68e7d73..e8dba49 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -542,6 +542,11 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             };
         let mut validated: HashSet<&str> = HashSet::new();
 
+        // Another variable with this name?
+        if need_recreate && tokens.iter().any(|t| t.get_other() == Some(array_name)) {
+            return tokens;
+        }
+
         // The other elements of the array need a position too.
         if !current_array_values.iter().enumerate().all(|(i, pos)| {
             if i % 2 == 0 {
diff --git a/src/js/utils.rs b/src/js/utils.rs
index 9195469..04a7a27 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -358,8 +358,14 @@ pub(crate) fn get_array<'a>(
     let mut looking_for_equal = false;
     let mut looking_for_array_start = false;
     let mut getting_values = false;
+    let mut depth = 0;
 
     for pos in 0..tokens.len() {
+        match tokens[pos].get_char() {
+            Some(ReservedChar::OpenCurlyBrace | ReservedChar::OpenParenthese) => depth += 1,
+            Some(ReservedChar::CloseCurlyBrace | ReservedChar::CloseParenthese) => depth -= 1,
+            _ => {}
+        }
         if looking_for_var {
             match tokens[pos] {
                 Token::Other(s) => {
@@ -404,7 +410,8 @@ pub(crate) fn get_array<'a>(
             }
         } else {
             match tokens[pos] {
-                Token::Keyword(Keyword::Let) | Token::Keyword(Keyword::Var) => {
+                // Not the one of a function or of a block.
+                Token::Keyword(Keyword::Let) | Token::Keyword(Keyword::Var) if depth == 0 => {
                     looking_for_var = true;
                 }
                 _ => {}
-- 
2.43.0


From 45d53756e048d3c9103157c1be63b0dee0f6fbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:47 +0000
Subject: [PATCH 55/69] fix: do not split the words around an HTML comment

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index b6fa993..67f00e6 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -72,7 +72,7 @@ fn remove_comments(source: &str) -> String {
         if caps[0].replace("<!--", " ").trim().starts_with("[") {
             caps[0].to_owned()
         } else {
-            " ".to_owned()
+            String::new()
         }
     })
     .into_owned()
-- 
2.43.0


From ac27fd489f0daf574400f00f8d090d7cfc6af647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 56/69] fix: only condense the whitespace of HTML

---
 src/html.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 67f00e6..c8da318 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -2,16 +2,21 @@
 
 use regex::{Captures, Regex};
 
+/// The whitespace of HTML: no other kind of space (such as U+00A0) may be condensed.
+fn is_whitespace(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\r' | '\n' | '\x0C')
+}
+
 fn condense_whitespace(source: &str) -> String {
     let lower_source = source.to_lowercase();
     if lower_source.find("<textarea").is_none() && lower_source.find("<pre").is_none() {
         // maybe should be better not to recreate Regex every time?
-        let re = Regex::new(r">\s+<").unwrap();
+        let re = Regex::new(r">[ \t\r\n\x0C]+<").unwrap();
         let source = re.replace_all(source, "> <").into_owned();
-        let re = Regex::new(r"\s{2,}|[\r\n]").unwrap();
+        let re = Regex::new(r"[ \t\r\n\x0C]{2,}|[\r\n]").unwrap();
         re.replace_all(&source, " ").into_owned()
     } else {
-        source.trim().to_owned()
+        source.trim_matches(is_whitespace).to_owned()
     }
 }
 
@@ -81,12 +86,12 @@ fn remove_comments(source: &str) -> String {
 fn unquote_attributes(source: &str) -> String {
     // Some attributes like width, height, etc... don't need quotes.
     let any_tag = Regex::new(r"<\w.*?>").unwrap();
-    let extra_spaces = Regex::new(r" \s+|\s +").unwrap();
-    let between_words = Regex::new(r"\w\s+\w").unwrap();
-    let spaces_before_close = Regex::new(r##""\s+>"##).unwrap();
-    let spaces_before_close2 = Regex::new(r"'\s+>").unwrap();
-    let extra_spaces2 = Regex::new(r##""\s\s+\w+="|'\s\s+\w+='|"\s\s+\w+=|'\s\s+\w+="##).unwrap();
-    let extra_spaces3 = Regex::new(r"\d\s+>").unwrap();
+    let extra_spaces = Regex::new(r" [ \t\r\n\x0C]+|[ \t\r\n\x0C] +").unwrap();
+    let between_words = Regex::new(r"\w[ \t\r\n\x0C]+\w").unwrap();
+    let spaces_before_close = Regex::new(r##""[ \t\r\n\x0C]+>"##).unwrap();
+    let spaces_before_close2 = Regex::new(r"'[ \t\r\n\x0C]+>").unwrap();
+    let extra_spaces2 = Regex::new(r##"["'][ \t\r\n\x0C]{2,}\w+="##).unwrap();
+    let extra_spaces3 = Regex::new(r"\d[ \t\r\n\x0C]+>").unwrap();
     let quotes_in_tag = Regex::new(r##"([a-zA-Z]+)="([a-zA-Z0-9-_\.]+)""##).unwrap();
 
     any_tag
@@ -144,7 +149,7 @@ fn unquote_attributes(source: &str) -> String {
                 }
             }
         })
-        .trim()
+        .trim_matches(is_whitespace)
         .to_owned()
 }
 
@@ -154,7 +159,7 @@ pub fn minify(source: &str) -> String {
     let source = condense(&source);
     let source = clean_unneeded_tags(&source);
     let source = condense_whitespace(&source);
-    unquote_attributes(&source).trim().to_owned()
+    unquote_attributes(&source)
 }
 
 #[test]
-- 
2.43.0


From 638b8f7ad499c5e17a276541376cc97f3ff76b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 57/69] fix: only remove the default types of HTML styles and
 scripts

---
 src/html.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index c8da318..fbfc269 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -22,8 +22,15 @@ fn condense_whitespace(source: &str) -> String {
 
 fn condense(source: &str) -> String {
     let re = Regex::new(r"<(style|script)[\w|\s].*?>").unwrap();
-    let type_reg = Regex::new(r#"\s*?type="[\w|\s].*?""#).unwrap();
+    // Only the default types can be removed.
+    let style_reg = Regex::new(r#"\s+type="text/css""#).unwrap();
+    let script_reg = Regex::new(r#"\s+type="(text|application)/javascript""#).unwrap();
     re.replace_all(source, |caps: &Captures| {
+        let type_reg = if &caps[1] == "style" {
+            &style_reg
+        } else {
+            &script_reg
+        };
         type_reg.replace_all(&caps[0], "").into_owned()
     })
     .into_owned()
-- 
2.43.0


From 30f7a8d022773e69f6cde3b9f0505b5e3717c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 58/69] fix: keep the end of HTML downlevel-revealed
 conditional comments

---
 src/html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index fbfc269..b4ee9a6 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -81,7 +81,9 @@ fn remove_comments(source: &str) -> String {
     // "build" and "endbuild" should be matched case insensitively.
     let re = Regex::new("<!--(.|\n)*?-->").unwrap();
     re.replace_all(source, |caps: &Captures| {
-        if caps[0].replace("<!--", " ").trim().starts_with("[") {
+        let content = caps[0].replace("<!--", " ");
+        let content = content.trim();
+        if content.starts_with("[") || content.starts_with("<![endif]") {
             caps[0].to_owned()
         } else {
             String::new()
-- 
2.43.0


From ce018caa09d726a08cad50fbd52bd143057728c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 59/69] fix: keep the quotes of HTML attributes which need them

---
 src/html.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index b4ee9a6..43d8b11 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -101,7 +101,9 @@ fn unquote_attributes(source: &str) -> String {
     let spaces_before_close2 = Regex::new(r"'[ \t\r\n\x0C]+>").unwrap();
     let extra_spaces2 = Regex::new(r##"["'][ \t\r\n\x0C]{2,}\w+="##).unwrap();
     let extra_spaces3 = Regex::new(r"\d[ \t\r\n\x0C]+>").unwrap();
-    let quotes_in_tag = Regex::new(r##"([a-zA-Z]+)="([a-zA-Z0-9-_\.]+)""##).unwrap();
+    // Anything else after the quote would become a part of the unquoted value.
+    let quotes_in_tag =
+        Regex::new(r##"([a-zA-Z]+)="([a-zA-Z0-9-_\.]+)"([ \t\r\n\x0C>])"##).unwrap();
 
     any_tag
         .replace_all(source, |caps: &Captures| {
@@ -147,8 +149,8 @@ fn unquote_attributes(source: &str) -> String {
                 }
                 tag = quotes_in_tag
                     .replace_all(&output, |caps: &Captures| match &caps[1] {
-                        "width" | "height" => format!("{}={}", &caps[1], &caps[2]),
-                        x => format!("{}=\"{}\"", x, &caps[2]),
+                        "width" | "height" => format!("{}={}{}", &caps[1], &caps[2], &caps[3]),
+                        x => format!("{}=\"{}\"{}", x, &caps[2], &caps[3]),
                     })
                     .into_owned();
                 if cap != tag {
-- 
2.43.0


From 29e9ade0f9195fecf3b8ef5f0a1cfa126650dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:22 +0000
Subject: [PATCH 60/69] fix: report the files which cannot be read instead of
 panicking

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 7625228..d981ea1 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -123,7 +123,7 @@ impl From<&PathBuf> for FileType {
 pub fn get_all_data<T: AsRef<Path>>(file_path: T) -> io::Result<String> {
     let mut file = File::open(file_path)?;
     let mut data = String::new();
-    file.read_to_string(&mut data).unwrap();
+    file.read_to_string(&mut data)?;
     Ok(data)
 }
 
-- 
2.43.0


From 508ef9e359b1f5038758e7f320bfa59ac6bd89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 61/69] fix: an extension which is not UTF-8 is an unknown one

---
 src/cli.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index d981ea1..ca5c688 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -111,10 +111,10 @@ impl From<&PathBuf> for FileType {
         if ext.is_none() {
             return Self::Unknown;
         };
-        match ext.unwrap().to_ascii_lowercase().to_str().unwrap() {
-            "css" => Self::Css,
-            "js" => Self::Js,
-            "json" => Self::Json,
+        match ext.unwrap().to_ascii_lowercase().to_str() {
+            Some("css") => Self::Css,
+            Some("js") => Self::Js,
+            Some("json") => Self::Json,
             _ => Self::Unknown,
         }
     }
-- 
2.43.0


From ca334e7e3ca345ae60abecdbe3a6db25cf280a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 62/69] fix: minify before the output file is truncated

---
 src/cli.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index ca5c688..1ad7c3c 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -139,6 +139,20 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
     };
     match get_all_data(file_path) {
         Ok(content) => {
+            // Before the output is opened: it is lost if the content cannot be minified.
+            let minified = match file_ext {
+                FileType::Css => css::minify(&content).map(|m| m.to_string()),
+                FileType::Js => js::minify(&content).map(|m| m.to_string()),
+                FileType::Json => Ok(json::minify(&content).to_string()),
+                FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
+            };
+            let minified = match minified {
+                Ok(minified) => minified,
+                Err(e) => {
+                    eprintln!("{file_path:?}: minification failed: {e}");
+                    return;
+                }
+            };
             let out = match out_path {
                 Some(op) => {
                     let mut op = op.clone();
@@ -163,17 +177,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 .create(true)
                 .open(&out)
             {
-                let func = |s: &str| -> String {
-                    match file_ext {
-                        FileType::Css => {
-                            css::minify(s).expect("css minification failed").to_string()
-                        }
-                        FileType::Js => js::minify(s).expect("js minification failed").to_string(),
-                        FileType::Json => json::minify(s).to_string(),
-                        FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
-                    }
-                };
-                if let Err(e) = write!(file, "{}", func(&content)) {
+                if let Err(e) = write!(file, "{minified}") {
                     eprintln!("Impossible to write into {out:?}: {e}");
                 } else {
                     println!("{file_path:?}: done -> generated into {out:?}");
-- 
2.43.0


From a7ac9b7092484bf8afcb1c2b338bab2b3862db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 63/69] fix: report the directories which cannot be created
 instead of panicking

---
 src/cli.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 1ad7c3c..2a54701 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -161,7 +161,10 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-                        std::fs::create_dir_all(op.parent().unwrap()).unwrap();
+                        if let Err(e) = std::fs::create_dir_all(op.parent().unwrap()) {
+                            eprintln!("Impossible to create the directory of {op:?}: {e}");
+                            return;
+                        }
                     };
                     op
                 }
-- 
2.43.0


From fecbd2f752484cfc0974c4ffeddb786ed5592892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 64/69] fix: write into the output directory whatever the path
 of the file

---
 src/cli.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 2a54701..8721297 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -2,7 +2,7 @@ use std::convert::From;
 use std::env;
 use std::fs::{File, OpenOptions};
 use std::io::{self, Read, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use clap::builder::PossibleValue;
 use clap::{command, value_parser, Arg, ArgAction, ValueEnum};
@@ -157,7 +157,12 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 Some(op) => {
                     let mut op = op.clone();
                     if op.is_dir() {
-                        op.push(file_path);
+                        // Pushing an absolute path would replace the directory.
+                        op.extend(
+                            file_path
+                                .components()
+                                .filter(|c| matches!(c, Component::Normal(_))),
+                        );
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-- 
2.43.0


From 691d33e34cc92257572c32b8ccfec4e1ced34add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:43 +0000
Subject: [PATCH 65/69] fix: reuse no string variable which is incremented,
 looped over or redeclared

---
 src/js/tools.rs | 64 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index e8dba49..acad9ce 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -251,6 +251,57 @@ fn is_object_key(tokens: &Tokens<'_>, pos: usize) -> bool {
     )
 }
 
+/// Whether the token is the variable. Neither `^` nor `~` end a word.
+fn is_variable(token: &Token<'_>, name: &str) -> bool {
+    token
+        .get_other()
+        .is_some_and(|word| word.split(['^', '~']).any(|word| word == name))
+}
+
+/// Whether what ends at `pos` (a variable or one of its elements, which starts at `start`) may get
+/// another value there: by an assignment, `++`, `--`, a loop, a declaration or destructuring.
+fn may_be_assigned(tokens: &Tokens<'_>, start: usize, pos: usize) -> bool {
+    const ASSIGNMENTS: [&str; 17] = [
+        "++", "--", "+=", "-=", "*=", "**=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^=",
+        "&&=", "||=", "??=",
+    ];
+    let is_operator = |t: &&Token<'_>| {
+        t.is_operation()
+            || t.is_condition()
+            || matches!(
+                t.get_char(),
+                Some(ReservedChar::QuestionMark | ReservedChar::Ampersand | ReservedChar::Pipe)
+            )
+    };
+    let mut before = tokens[..start].iter().rev().filter(|t| is_useful(t));
+    let mut after = tokens[pos + 1..].iter().filter(|t| is_useful(t));
+    let operator = after
+        .clone()
+        .take_while(is_operator)
+        .map(|t| t.to_string())
+        .collect::<String>();
+    if ASSIGNMENTS.iter().any(|ope| operator.starts_with(ope))
+        || (operator.starts_with('=') && !operator.starts_with("==") && operator != "=>")
+        || matches!(
+            after.next(),
+            Some(Token::Keyword(Keyword::In) | Token::Other("of"))
+        )
+    {
+        return true;
+    }
+    match (before.next(), before.next()) {
+        (Some(Token::Keyword(Keyword::Function) | Token::Other("class")), _)
+        | (_, Some(Token::Keyword(Keyword::Function))) => return true,
+        (Some(Token::Operation(a)), Some(Token::Operation(b)))
+            if a == b && matches!(a, Operation::Addition | Operation::Subtract) =>
+        {
+            return true;
+        }
+        _ => {}
+    }
+    false
+}
+
 /// Whether the variable declared at `var_pos` only ever holds the string at `value_pos`.
 fn is_constant(tokens: &Tokens<'_>, var_pos: usize, value_pos: usize) -> bool {
     matches!(
@@ -259,13 +310,12 @@ fn is_constant(tokens: &Tokens<'_>, var_pos: usize, value_pos: usize) -> bool {
     ) && !tokens[var_pos + 1..value_pos]
         .iter()
         .any(|t| is_useful(t) && !t.eq_operation(Operation::Equal))
-        && (0..tokens.len()).all(|pos| {
-            pos == var_pos
-                || tokens[pos] != tokens[var_pos]
-                || !matches!(
-                    tokens[pos + 1..].iter().find(|t| is_useful(t)),
-                    Some(Token::Operation(ope)) if ope.is_assign()
-                )
+        && tokens[var_pos].get_other().is_some_and(|name| {
+            (0..tokens.len()).all(|pos| {
+                pos == var_pos
+                    || !is_variable(&tokens[pos], name)
+                    || !may_be_assigned(tokens, pos, pos)
+            })
         })
 }
 
-- 
2.43.0


From 9d1b697f090a9585f54a1ae93c68df1d3a257c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:46 +0000
Subject: [PATCH 66/69] fix: reuse no string variable which is the target of
 destructuring

---
 src/js/tools.rs | 73 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 73 insertions(+)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index acad9ce..888e9cb 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -299,9 +299,82 @@ fn may_be_assigned(tokens: &Tokens<'_>, start: usize, pos: usize) -> bool {
         }
         _ => {}
     }
+    // A part of a pattern such as `[a, {b}] = c`?
+    let mut depth = 0;
+    for (open, token) in tokens[..start].iter().enumerate().rev() {
+        match token.get_char() {
+            Some(
+                ReservedChar::CloseCurlyBrace
+                | ReservedChar::CloseParenthese
+                | ReservedChar::CloseBracket,
+            ) => depth += 1,
+            Some(ReservedChar::SemiColon) if depth == 0 => return false,
+            Some(ReservedChar::OpenParenthese) if depth == 0 => return false,
+            Some(ReservedChar::OpenCurlyBrace | ReservedChar::OpenBracket) if depth == 0 => {
+                let is_index = token.eq_char(ReservedChar::OpenBracket)
+                    && matches!(
+                        tokens[..open].iter().rev().find(|t| is_useful(t)),
+                        Some(
+                            Token::Other(_)
+                                | Token::Char(
+                                    ReservedChar::CloseParenthese | ReservedChar::CloseBracket
+                                )
+                        )
+                    );
+                if is_index {
+                    return false;
+                }
+                let close = get_closing(tokens, open);
+                if close.is_some_and(|close| {
+                    matches!(
+                        tokens[close + 1..].iter().find(|t| is_useful(t)),
+                        Some(
+                            Token::Operation(Operation::Equal)
+                                | Token::Keyword(Keyword::In)
+                                | Token::Other("of")
+                        )
+                    )
+                }) {
+                    return true;
+                }
+            }
+            Some(
+                ReservedChar::OpenCurlyBrace
+                | ReservedChar::OpenParenthese
+                | ReservedChar::OpenBracket,
+            ) => depth -= 1,
+            _ => {}
+        }
+    }
     false
 }
 
+/// Returns the position of the token which closes the bracket at `open`.
+fn get_closing(tokens: &Tokens<'_>, open: usize) -> Option<usize> {
+    let mut depth = 0;
+    for (pos, token) in tokens.iter().enumerate().skip(open) {
+        match token.get_char() {
+            Some(
+                ReservedChar::OpenCurlyBrace
+                | ReservedChar::OpenParenthese
+                | ReservedChar::OpenBracket,
+            ) => depth += 1,
+            Some(
+                ReservedChar::CloseCurlyBrace
+                | ReservedChar::CloseParenthese
+                | ReservedChar::CloseBracket,
+            ) => {
+                depth -= 1;
+                if depth == 0 {
+                    return Some(pos);
+                }
+            }
+            _ => {}
+        }
+    }
+    None
+}
+
 /// Whether the variable declared at `var_pos` only ever holds the string at `value_pos`.
 fn is_constant(tokens: &Tokens<'_>, var_pos: usize, value_pos: usize) -> bool {
     matches!(
-- 
2.43.0


From b00f459466531f0c76537fd7c4fe2e7fd82862bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 67/69] fix: move no strings into an array which is used as a
 whole

---
 src/js/tools.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 888e9cb..3921a9d 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -349,6 +349,32 @@ fn may_be_assigned(tokens: &Tokens<'_>, start: usize, pos: usize) -> bool {
     false
 }
 
+/// Whether the array of strings declared up to `end_bracket` always holds them, and nothing depends
+/// on it holding no others.
+fn is_constant_array(tokens: &Tokens<'_>, array_name: &str, end_bracket: usize) -> bool {
+    let open = tokens[..end_bracket]
+        .iter()
+        .rposition(|t| t.eq_char(ReservedChar::OpenBracket));
+    let var_pos = tokens[..open.unwrap_or(0)]
+        .iter()
+        .rposition(|t| t.get_other() == Some(array_name));
+    matches!(
+        tokens[end_bracket + 1..].iter().find(|t| is_useful(t)),
+        None | Some(Token::Char(ReservedChar::Comma | ReservedChar::SemiColon))
+    ) && (0..tokens.len()).all(|pos| {
+        // Its elements may be read.
+        Some(pos) == var_pos
+            || !is_variable(&tokens[pos], array_name)
+            || tokens[pos + 1..]
+                .iter()
+                .position(is_useful)
+                .map(|next| pos + 1 + next)
+                .filter(|next| tokens[*next].eq_char(ReservedChar::OpenBracket))
+                .and_then(|open| get_closing(tokens, open))
+                .is_some_and(|close| !may_be_assigned(tokens, pos, close))
+    })
+}
+
 /// Returns the position of the token which closes the bracket at `open`.
 fn get_closing(tokens: &Tokens<'_>, open: usize) -> Option<usize> {
     let mut depth = 0;
@@ -683,6 +709,10 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             return tokens;
         }
 
+        if !need_recreate && !is_constant_array(&tokens, array_name, end_bracket) {
+            return tokens;
+        }
+
         let mut array_pos = 0;
         for s in current_array_values.iter() {
             if let Some(st) = tokens.0[*s].get_string() {
-- 
2.43.0


From 38169edb40e3603f7f1cc92cdcb1adbcb045fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 68/69] fix: tell names such as inf and nan from numbers in JS

---
 src/js/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 03f6d6f..54b88d4 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -859,7 +859,10 @@ fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: us
             v.push(Token::Keyword(w));
         } else if let Some(n) = get_number(&source[start..pos]) {
             v.push(Token::Number(n))
-        } else if f64::from_str(&source[start..pos]).is_ok() {
+        } else if source[start..].starts_with(|c: char| c == '.' || c.is_ascii_digit())
+            && f64::from_str(&source[start..pos]).is_ok()
+        {
+            // `inf` and `nan` are names.
             v.push(Token::FloatingNumber(&source[start..pos]))
         } else {
             v.push(Token::Other(&source[start..pos]));
-- 
2.43.0


From 0133970fdcf17c467a6f812a4d3bad9bc7f26d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 69/69] fix: read no regex after a property whose name is a
 keyword and a gap

---
 src/js/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 54b88d4..9b41e70 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -668,9 +668,12 @@ fn get_regex<'a>(
             {
                 break
             }
+            // `a.in / b`, also with a gap after the dot, is a division.
             t if t.precedes_expression()
                 && !v[..back]
-                    .last()
+                    .iter()
+                    .rev()
+                    .find(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
                     .is_some_and(|t| t.eq_char(ReservedChar::Dot)) =>
             {
                 break
-- 
2.43.0

