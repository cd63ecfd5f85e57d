From 275ca488dd3b07ab8e3fbe76cc837505339c04b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:28 +0000
Subject: [PATCH 01/13] fix: read comment text from after the semicolon

An empty comment line swallowed the following line, a ';' at the end of
the text read beyond the end of the buffer, and a multi-byte character
straight after the ';' was read from the middle of its encoding. The
character after the ';' is now the one used to find the end of the line,
and a comment that is just ';' at the end of the text is a comment.
---
 src/hml_reader/lexer_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index f5f1701..d25067f 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -28,9 +28,9 @@ where
     // Skip past the ';'
     // the comment line is from posn to the newline (or EOF)
     let comment_start = lexer.consumed_char(posn, ch);
-    let Some(ch) = lexer.peek_at(&posn) else {
+    let Some(ch) = lexer.peek_at(&comment_start) else {
         acc.push((comment_start, comment_start));
-        return (acc, None);
+        return (acc, Some(comment_start));
     };
     let (comment_end, _) = lexer.do_while(comment_start, ch, &|_, ch| !is_newline(ch));
     acc.push((comment_start, comment_end));
-- 
2.43.0


From 54497117a49bff5e3922fa5b2cc5b835e2822913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:09 +0000
Subject: [PATCH 02/13] fix: advance the line number over newlines in
 whitespace

Whitespace was consumed with a function that only advances the column,
so line and column positions were wrong after the first newline that was
not part of a comment or string.
---
 src/hml_reader/lexer_parsers.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index d25067f..bbaf9f3 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -68,10 +68,18 @@ where
     L: lexer_rs::Lexer<State = P> + lexer_rs::CharStream<P>,
     P: Posn,
 {
-    let (end, Some((start, _n))) = lexer.do_while(posn, ch, &|_, ch| ch.is_whitespace()) else {
+    if !ch.is_whitespace() {
         return Ok(None);
-    };
-    let token = Token::whitespace(Span::new(start, end));
+    }
+    // do_while cannot be used as it does not track newlines
+    let mut end = posn;
+    while let Some(ch) = lexer.peek_at(&end) {
+        if !ch.is_whitespace() {
+            break;
+        }
+        end = lexer.consumed_char(end, ch);
+    }
+    let token = Token::whitespace(Span::new(posn, end));
     Ok(Some((end, token)))
 }
 
-- 
2.43.0


From e2bb3435ad01476a7b3e594d190e9245db56388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:10 +0000
Subject: [PATCH 03/13] fix: report a closing tag that does not match an open
 box

A closing tag without an open box panicked, and one with a different name
or depth closed whatever box happened to be open. Both are now reported
as an error.
---
 src/error.rs              | 13 +++++++++++++
 src/hml_reader/builder.rs | 11 ++++++++++-
 src/hml_reader/parser.rs  |  7 +++++--
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0b0beda..af8a0ef 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -123,6 +123,12 @@ where
         /// Depth
         depth: usize,
     },
+    /// A closing tag that does not match an open boxed element
+    #[error("Closing tag does not match an open box")]
+    UnexpectedCloseTag {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Iterated beyond the end of the reader stream
     #[error("Attempt to parse beyond end of tokens, probably a bug")]
     BeyondEndOfTokens,
@@ -201,6 +207,12 @@ where
         Err(Self::UnexpectedTagIndent { span, depth })
     }
 
+    //fp unexpected_close_tag
+    /// Return an unexpected_close_tag error over the specified span
+    pub fn unexpected_close_tag<T>(span: Span<P>) -> HmlResult<T, P> {
+        Err(Self::UnexpectedCloseTag { span })
+    }
+
     //fp unexpected_attribute
     /// Return an unexpected_attribute eror over the given span
     pub fn unexpected_attribute<T>(span: Span<P>, prefx: &str, name: &str) -> HmlResult<T, P> {
@@ -239,6 +251,7 @@ where
             Self::IoError { span, .. } => Some(span),
             Self::UnexpectedCharacter { span, .. } => Some(span),
             Self::UnexpectedTagIndent { span, .. } => Some(span),
+            Self::UnexpectedCloseTag { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
diff --git a/src/hml_reader/builder.rs b/src/hml_reader/builder.rs
index 983b995..2447769 100644
--- a/src/hml_reader/builder.rs
+++ b/src/hml_reader/builder.rs
@@ -44,7 +44,6 @@ where
     T: std::fmt::Debug,
 {
     span: Span<P>,
-    #[allow(dead_code)]
     name: Name,
     pub extra: T,
 }
@@ -122,6 +121,16 @@ where
             attributes,
         }
     }
+    pub fn open_tag(&self) -> &OpenTag<P, T> {
+        &self.open_tag
+    }
+    /// Returns true if the close tag is for an element of this prefix and name
+    ///
+    /// The URI is not compared, as the close tag is resolved before
+    /// the content of the element has been closed
+    pub fn has_name_of(&self, close_tag: &CloseTag<P, T>) -> bool {
+        self.tag_name.prefix == close_tag.name.prefix && self.tag_name.name == close_tag.name.name
+    }
     pub fn add_attribute(
         &mut self,
         span: Span<P>,
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 6feb310..4e99cdc 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -117,9 +117,12 @@ where
             let span = Span::new_at(close_tag.span().start());
             self.pending_close_tag = Some(close_tag);
             self.pop_tag_stack(ns_stack, &span)
-        } else {
-            // should validate close_tag matches the StackElement at the top of the tag stack
+        } else if self.tag_stack.last().is_some_and(|e| {
+            e.has_name_of(&close_tag) && e.open_tag().extra.depth == close_tag.extra.depth
+        }) {
             self.pop_tag_stack(ns_stack, close_tag.span())
+        } else {
+            HmlError::unexpected_close_tag(*close_tag.span())
         }
     }
 
-- 
2.43.0


From 51ca38e749476c8fc2545c7ab1f88f0ffcd42597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:10 +0000
Subject: [PATCH 04/13] fix: report a box that is not closed by the end of the
 document

The grammar requires a closing tag for every boxed element, but the end
of the text silently closed any boxes still open.
---
 src/hml_reader/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 4e99cdc..5ab679e 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -97,6 +97,9 @@ where
         if self.tag_stack.is_empty() {
             self.end_emitted = true;
             Ok(None)
+        } else if self.tag_depth == 0 {
+            // the element at the top of the stack is a box that has not been closed
+            HmlError::unexpected_eof(&self.token_pos, &self.token_pos)
         } else {
             let span = Span::new_at(&self.token_pos);
             self.pop_tag_stack(ns_stack, &span)
-- 
2.43.0


From dac59de1e484b7deed1da5877dbf8e85ed8a0b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:11 +0000
Subject: [PATCH 05/13] fix: report content that is outside any element

Content events are documented to be within an element always, but a
string at the top level of a document was emitted as content.
---
 src/error.rs             | 13 +++++++++++++
 src/hml_reader/parser.rs |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index af8a0ef..a6966d5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -129,6 +129,12 @@ where
         /// Span of the error
         span: Span<P>,
     },
+    /// Content that is not within an element
+    #[error("Content found outside any element")]
+    UnexpectedContent {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Iterated beyond the end of the reader stream
     #[error("Attempt to parse beyond end of tokens, probably a bug")]
     BeyondEndOfTokens,
@@ -213,6 +219,12 @@ where
         Err(Self::UnexpectedCloseTag { span })
     }
 
+    //fp unexpected_content
+    /// Return an unexpected_content error over the specified span
+    pub fn unexpected_content<T>(span: Span<P>) -> HmlResult<T, P> {
+        Err(Self::UnexpectedContent { span })
+    }
+
     //fp unexpected_attribute
     /// Return an unexpected_attribute eror over the given span
     pub fn unexpected_attribute<T>(span: Span<P>, prefx: &str, name: &str) -> HmlResult<T, P> {
@@ -252,6 +264,7 @@ where
             Self::UnexpectedCharacter { span, .. } => Some(span),
             Self::UnexpectedTagIndent { span, .. } => Some(span),
             Self::UnexpectedCloseTag { span, .. } => Some(span),
+            Self::UnexpectedContent { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 5ab679e..0f7ab3b 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -238,6 +238,9 @@ where
                         HmlError::unexpected_attribute(span, &prefix, &name)
                     }
                 }
+                TokenType::Characters | TokenType::RawCharacters if self.tag_stack.is_empty() => {
+                    HmlError::unexpected_content(*token.get_span())
+                }
                 TokenType::Characters => {
                     let mut data = token.take_contents();
                     let data = data.pop_front().unwrap();
-- 
2.43.0


From 12b38ee4054e7c1df222773b0c122ebe63ee11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:32 +0000
Subject: [PATCH 06/13] fix: skip shadowed mappings when iterating a namespace
 stack

The iterator never recorded the prefixes it had returned, so a prefix
mapped in more than one frame was returned once for each frame.
---
 src/names/namespace_stack.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index ef25eb0..69b0071 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -129,10 +129,10 @@ impl<'ns, 'b> Iterator for NamespaceStackIterator<'ns, 'b> {
             None
         } else if let Some(iter) = &mut self.frame_iter {
             if let Some((p_id, u_id)) = iter.next() {
-                if self.used.contains(p_id) {
-                    self.next()
-                } else {
+                if self.used.insert(*p_id) {
                     Some(NSMap::new(*p_id, *u_id))
+                } else {
+                    self.next()
                 }
             } else {
                 self.frame -= 1;
-- 
2.43.0


From fedd8120ac428f29c1fc5bb9615f79c7e74a1807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:33 +0000
Subject: [PATCH 07/13] fix: iterate the mappings of the topmost namespace
 frame

iter_top_mappings always panicked as its assertion was inverted, and
frames did not record the order in which their prefixes were added.
---
 src/names/namespace_stack.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index 69b0071..4cc6bda 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -69,7 +69,13 @@ struct NamespaceStackFrame {
 impl NamespaceStackFrame {
     //mp add_mapping_by_id
     pub fn add_mapping_by_id(&mut self, map: NSMap) {
-        self.mappings.insert(map.prefix_id(), map.uri_id());
+        if self
+            .mappings
+            .insert(map.prefix_id(), map.uri_id())
+            .is_none()
+        {
+            self.order.push(map.prefix_id());
+        }
     }
 
     //mp add_mapping_by_id_if_unset
@@ -291,7 +297,7 @@ impl<'ns> NamespaceStack<'ns> {
     //ap iter_top_mappings
     /// Get a slice of the mappings of the topmost frame
     pub fn iter_top_mappings(&self) -> NamespaceStackFrameIter<'_> {
-        assert!(self.frames.is_empty(), "Namespace stack cannot be empty");
+        assert!(!self.frames.is_empty(), "Namespace stack cannot be empty");
         self.frames.last().unwrap().iter_mappings()
     }
 
-- 
2.43.0


From 6438062181c102a25d48f6b077e243da8cdb9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:33 +0000
Subject: [PATCH 08/13] fix: accept all the combining diacritical marks within
 names

The XML name character range is 0x300 to 0x36f; the start of the range
had been mistyped as 0x369.
---
 src/hml_reader/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hml_reader/utils.rs b/src/hml_reader/utils.rs
index 68a6f61..c5fa942 100644
--- a/src/hml_reader/utils.rs
+++ b/src/hml_reader/utils.rs
@@ -51,7 +51,7 @@ pub fn is_name(ch: char) -> bool {
         let ch = ch as u32;
         ((ch==45) || (ch==46) || (ch==0xb7)) || // - .
             (48..=57).contains(&ch) ||
-            (0x369..=0x36f).contains(&ch) ||
+            (0x300..=0x36f).contains(&ch) ||
             (0x203f..=0x2040).contains(&ch)
     }
 }
-- 
2.43.0


From 4c071946ddeb8c47ab4ad843a7f372496d76b0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:34 +0000
Subject: [PATCH 09/13] fix: validate the string produced by escape_required

This safe public function takes any bytes, and for bytes that are not
UTF-8 it returned a String that was not UTF-8 either. It now returns None
for them.
---
 src/escape.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 1ff2236..45f3e0c 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -87,8 +87,7 @@ pub fn escape_required(bytes: &[u8], char_set: usize, i: usize, n: usize) -> Opt
             }
         }
     }
-    let string = unsafe { String::from_utf8_unchecked(r) };
-    Some(string)
+    String::from_utf8(r).ok()
 }
 
 //fp escape
-- 
2.43.0


From a286af6301f45bd097568bdb0fb557173ac76d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:51 +0000
Subject: [PATCH 10/13] fix: only replace well-formed character references

'&;', '&#;' and '&#x;' were replaced with a NUL character, extra 'x'
characters within a hexadecimal reference were ignored, and an '&' that
does not start an entity hid an entity that followed it.
---
 src/escape.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 45f3e0c..edff85b 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -184,16 +184,21 @@ impl<'a> Entities<'a> {
             let start = i;
             let mut is_hex = false;
             let mut is_dec = true;
+            let mut has_digits = false;
             let mut value = 0;
             while i < n {
                 let b = bytes[i];
+                if b == b'&' {
+                    // Not an entity; another may start here
+                    break;
+                }
                 if b == b';' {
                     if inc_map {
                         if let Some(c) = self.map.get(&bytes[start..i]) {
                             return (i + 1, Some(c), None);
                         }
                     }
-                    if is_hex || is_dec {
+                    if has_digits && (is_hex || is_dec) {
                         if let Ok(c) = char::try_from(value) {
                             return (i + 1, None, Some(c));
                         }
@@ -208,12 +213,12 @@ impl<'a> Entities<'a> {
                 } else if (b'a'..=b'f').contains(&b) || (b'A'..=b'F').contains(&b) {
                     value = (value << 4) | (((b & 0xf) + 9) as u32);
                     is_dec = false;
+                    has_digits = true;
                 } else if b == b'x' {
-                    if i == start + 1 && is_dec {
-                        is_hex = true;
-                    }
+                    is_hex = i == start + 1 && is_dec;
                     is_dec = false;
                 } else if b.is_ascii_digit() {
+                    has_digits = true;
                     if is_dec {
                         value = (value * 10).wrapping_add((b - b'0') as u32);
                     } else {
-- 
2.43.0


From 81009d7ab82a8a297f62f7a07f638f84bd1905ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:09 +0000
Subject: [PATCH 11/13] fix: resolve attribute names after all namespace
 attributes are known

A prefix declared by a namespace attribute could only be used by the
attributes after it, although the declaration is documented to apply to
the whole of the tag.
---
 src/hml_reader/builder.rs | 23 ++++++++++++++++++-----
 src/hml_reader/parser.rs  |  2 +-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/hml_reader/builder.rs b/src/hml_reader/builder.rs
index 2447769..21af5f9 100644
--- a/src/hml_reader/builder.rs
+++ b/src/hml_reader/builder.rs
@@ -96,7 +96,8 @@ where
     parent_depth: usize,
     open_tag: OpenTag<P, T>,
     tag_name: Name,
-    attributes: Attributes,
+    // span, prefix, name and value of each attribute
+    attributes: Vec<(Span<P>, String, String, String)>,
 }
 
 //ii StackElement
@@ -112,7 +113,7 @@ where
     ) -> Self {
         ns_stack.push_frame();
 
-        let attributes = Attributes::default();
+        let attributes = Vec::new();
         let tag_name = Name::none();
         StackElement {
             parent_depth,
@@ -138,12 +139,24 @@ where
         prefix: &str,
         name: &str,
         value: String,
-    ) -> HmlResult<(), P> {
-        HmlError::map_markup_error(self.attributes.add(ns_stack, prefix, name, value), &span)
+    ) {
+        // The names are resolved once all the namespace attributes have been seen
+        if ns_stack.uses_xmlns() {
+            if prefix.is_empty() && name == "xmlns" {
+                ns_stack.add_ns("", &value);
+            } else if prefix == "xmlns" {
+                ns_stack.add_ns(name, &value);
+            }
+        }
+        self.attributes
+            .push((span, prefix.into(), name.into(), value));
     }
 
     pub fn as_start_element(&mut self, ns_stack: &mut NamespaceStack) -> HmlResult<Event<P>, P> {
-        let attributes = std::mem::take(&mut self.attributes);
+        let mut attributes = Attributes::default();
+        for (span, prefix, name, value) in std::mem::take(&mut self.attributes) {
+            HmlError::map_markup_error(attributes.add(ns_stack, &prefix, &name, value), &span)?;
+        }
         let tag = HmlError::map_markup_error(
             Tag::new(
                 ns_stack,
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 0f7ab3b..1a15f61 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -232,7 +232,7 @@ where
                         self.tag_stack
                             .last_mut()
                             .unwrap()
-                            .add_attribute(span, ns_stack, &prefix, &name, value)?;
+                            .add_attribute(span, ns_stack, &prefix, &name, value);
                         Ok(None)
                     } else {
                         HmlError::unexpected_attribute(span, &prefix, &name)
-- 
2.43.0


From 35e1298f0e1fa45059787fd59a1902926940a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:10 +0000
Subject: [PATCH 12/13] Expose the string unescaper to verification builds

The unescaper is private to the crate. Building with --cfg hml_verif
exposes it as hml::verif; other builds are unchanged.
---
 src/hml.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hml.rs b/src/hml.rs
index f441eac..aa4a1e2 100644
--- a/src/hml.rs
+++ b/src/hml.rs
@@ -10,3 +10,10 @@ This module provides escape handling for XML and entity replacement
 !*/
 
 mod escape;
+
+// Exposed only to verification harnesses
+#[cfg(hml_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    pub use super::escape::{Error, Escapable};
+}
-- 
2.43.0


From 292c845a486091ad0552b5d0699c2f6fddaff75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:17 +0000
Subject: [PATCH 13/13] fix: report misplaced content at its start

The error for content outside any element covered the whole string.
A string of several lines at the end of the text made the converter
panic, as the context of an error over several lines includes the line
after the last one.
---
 src/hml_reader/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 1a15f61..20d0b1c 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -239,7 +239,7 @@ where
                     }
                 }
                 TokenType::Characters | TokenType::RawCharacters if self.tag_stack.is_empty() => {
-                    HmlError::unexpected_content(*token.get_span())
+                    HmlError::unexpected_content(Span::new_at(token.get_span().start()))
                 }
                 TokenType::Characters => {
                     let mut data = token.take_contents();
-- 
2.43.0

