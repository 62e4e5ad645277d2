From 07c5486ade7b529b4a340dbba67979a31b3fae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 01/69] fix: handle every JSON escape, not just \" with a fixed
 length

---
 src/json/json_minifier.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index ad9fae2..e760d64 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -32,16 +32,16 @@ pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&ch
 fn is_whitespace_outside_string(
     minifier: &mut JsonMinifier,
     item1: &char,
-    item2: Option<&char>,
+    _item2: Option<&char>,
 ) -> bool {
     if !minifier.is_string && item1.eq(&'"') {
         minifier.is_string = true;
     } else if minifier.is_string {
-        if item1.eq(&'\\') && item2.eq(&Some(&'"')) {
-            minifier.escaped_quotation = 4;
-        }
         if minifier.escaped_quotation > 0 {
             minifier.escaped_quotation -= 1;
+        } else if item1.eq(&'\\') {
+            // The next character is escaped, whatever it is.
+            minifier.escaped_quotation = 1;
         } else if item1.eq(&'"') {
             minifier.is_string = false;
         }
-- 
2.43.0


From 1b153648e204ffbba66924f70c37b2ae335af927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 02/69] fix: keep DEL characters inside JSON strings

---
 src/json/json_minifier.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index e760d64..20e4cf4 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -23,8 +23,9 @@ impl JsonMinifier {
 
 #[inline]
 pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&char>) -> bool {
-    let remove_element =
-        item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1, item2);
+    // DEL isn't one of the control characters forbidden in JSON strings.
+    let remove_element = (item1.is_ascii_control() && item1.ne(&'\u{7f}'))
+        || is_whitespace_outside_string(minifier, item1, item2);
     !remove_element
 }
 
-- 
2.43.0


From 4c9bb62b347a44817f4bb22c5a355eb0b3d58507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 03/69] fix: don't take a short read for the end of the JSON
 input

---
 src/json/read/internal_buffer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/json/read/internal_buffer.rs b/src/json/read/internal_buffer.rs
index 90eebcd..73ea7fd 100644
--- a/src/json/read/internal_buffer.rs
+++ b/src/json/read/internal_buffer.rs
@@ -6,7 +6,6 @@ const ARRAY_DEFAULT: u8 = 0;
 pub struct Buffer {
     buffer: Vec<u8>,
     read_pos: usize,
-    buffer_size: usize,
     data_size: usize,
 }
 
@@ -15,7 +14,6 @@ impl Buffer {
         Buffer {
             buffer: vec![ARRAY_DEFAULT; size],
             read_pos: 0,
-            buffer_size: size,
             data_size: 0,
         }
     }
@@ -39,6 +37,7 @@ impl Buffer {
     }
 
     pub fn cont(&self) -> bool {
-        self.data_size == self.buffer_size
+        // A short read doesn't mean that the end has been reached, only an empty one does.
+        self.data_size > 0
     }
 }
-- 
2.43.0


From 61896fde080bd399a00c97cd1fe09d2e104ed7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 04/69] fix: deliver all the bytes of a JSON character which
 doesn't fit in the caller's buffer

---
 src/json/read/json_read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 338db13..4631b14 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -85,6 +85,12 @@ where
             self.initialized = true;
         }
 
+        // Bytes of the last kept character which didn't fit in the previous buffer.
+        self.add_char_to_buffer(buf, &mut buf_pos);
+        if buf_pos >= buf.len() {
+            return Ok(buf_pos);
+        }
+
         while let Some(item) = self.item1.take() {
             self.item1 = self.get_next()?;
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
-- 
2.43.0


From 5ffa86a63ea6de3d62ebcc7188d5993687ff629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 05/69] fix: report the error of the JSON source with its own
 kind

---
 src/json/read/json_read.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 4631b14..8f87d53 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -106,7 +106,10 @@ where
 }
 
 impl From<CharsError> for Error {
-    fn from(_: CharsError) -> Self {
-        Error::from(ErrorKind::InvalidData)
+    fn from(err: CharsError) -> Self {
+        match err {
+            CharsError::NotUtf8 => Error::from(ErrorKind::InvalidData),
+            CharsError::Other(err) => err,
+        }
     }
 }
-- 
2.43.0


From 7ed58d4f1dc40b0299cd0927e7273f4868e13084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 06/69] fix: retry interrupted reads of the JSON source

---
 src/json/read/internal_reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/json/read/internal_reader.rs b/src/json/read/internal_reader.rs
index 45f178f..ddb44b9 100644
--- a/src/json/read/internal_reader.rs
+++ b/src/json/read/internal_reader.rs
@@ -3,7 +3,7 @@
 use super::internal_buffer::Buffer;
 use std::{
     fmt,
-    io::{Error, Read},
+    io::{Error, ErrorKind, Read},
 };
 
 pub struct InternalReader<R> {
@@ -24,7 +24,12 @@ impl<R: Read> InternalReader<R> {
     }
 
     fn read_data(read: &mut R, buffer: &mut Buffer) -> Result<(), Error> {
-        let size = read.read(buffer.as_mut())?;
+        let size = loop {
+            match read.read(buffer.as_mut()) {
+                Err(err) if err.kind() == ErrorKind::Interrupted => continue,
+                result => break result?,
+            }
+        };
         buffer.update_metadata(size);
         Ok(())
     }
-- 
2.43.0


From 345627b0e3f7f74c4cec117364a486a0f788c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 07/69] fix: keep a JSON reader usable after an error of its
 source

---
 src/json/read/byte_to_char.rs    |  8 ++++----
 src/json/read/internal_buffer.rs |  5 +++--
 src/json/read/internal_reader.rs | 10 ++++------
 src/json/read/json_read.rs       | 23 +++++++++++++++++++++--
 4 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/json/read/byte_to_char.rs b/src/json/read/byte_to_char.rs
index a1ca6ec..c3df98a 100644
--- a/src/json/read/byte_to_char.rs
+++ b/src/json/read/byte_to_char.rs
@@ -13,10 +13,10 @@ pub struct ByteToChar<R> {
 
 impl<R: Read> ByteToChar<R> {
     #[inline]
-    pub fn new(read: R, buffer_size: usize) -> Result<Self, Error> {
-        Ok(ByteToChar {
-            iter: InternalReader::new(read, buffer_size)?,
-        })
+    pub fn new(read: R, buffer_size: usize) -> Self {
+        ByteToChar {
+            iter: InternalReader::new(read, buffer_size),
+        }
     }
 
     fn get_next(&mut self) -> Result<Option<u8>, CharsError> {
diff --git a/src/json/read/internal_buffer.rs b/src/json/read/internal_buffer.rs
index 73ea7fd..1ab0286 100644
--- a/src/json/read/internal_buffer.rs
+++ b/src/json/read/internal_buffer.rs
@@ -13,8 +13,9 @@ impl Buffer {
     pub fn new(size: usize) -> Buffer {
         Buffer {
             buffer: vec![ARRAY_DEFAULT; size],
-            read_pos: 0,
-            data_size: 0,
+            // Nothing left to take out of it, but not at the end of the data either.
+            read_pos: size,
+            data_size: size,
         }
     }
 
diff --git a/src/json/read/internal_reader.rs b/src/json/read/internal_reader.rs
index ddb44b9..1832757 100644
--- a/src/json/read/internal_reader.rs
+++ b/src/json/read/internal_reader.rs
@@ -13,14 +13,12 @@ pub struct InternalReader<R> {
 }
 
 impl<R: Read> InternalReader<R> {
-    pub fn new(mut read: R, buffer_size: usize) -> Result<Self, Error> {
-        let mut buffer = Buffer::new(buffer_size);
-        InternalReader::read_data(&mut read, &mut buffer)?;
-        Ok(InternalReader {
+    pub fn new(read: R, buffer_size: usize) -> Self {
+        InternalReader {
             read,
             buffer_size,
-            buffer,
-        })
+            buffer: Buffer::new(buffer_size),
+        }
     }
 
     fn read_data(read: &mut R, buffer: &mut Buffer) -> Result<(), Error> {
diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 8f87d53..e92451a 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -18,6 +18,7 @@ pub struct JsonRead<P, R> {
     initialized: bool,
     item_iter: Option<IntoIter<u8>>,
     item1: Option<char>,
+    error: Option<Error>,
 }
 
 impl<P, R: Read> JsonRead<P, R> {
@@ -31,6 +32,7 @@ impl<P, R: Read> JsonRead<P, R> {
             initialized: false,
             item_iter: None,
             item1: None,
+            error: None,
         }
     }
 
@@ -79,8 +81,14 @@ where
             return Ok(0);
         }
 
+        if let Some(err) = self.error.take() {
+            return Err(err);
+        }
+
+        if let Some(read) = self.read.take() {
+            self.iter = Some(ByteToChar::new(read, buf.len()));
+        }
         if !self.initialized {
-            self.iter = Some(ByteToChar::new(self.read.take().unwrap(), buf.len())?);
             self.item1 = self.get_next()?;
             self.initialized = true;
         }
@@ -92,7 +100,18 @@ where
         }
 
         while let Some(item) = self.item1.take() {
-            self.item1 = self.get_next()?;
+            self.item1 = match self.get_next() {
+                Ok(next) => next,
+                Err(err) => {
+                    // The reader may be used again after an error so nothing can be lost.
+                    self.item1 = Some(item);
+                    if buf_pos == 0 {
+                        return Err(err.into());
+                    }
+                    self.error = Some(err.into());
+                    return Ok(buf_pos);
+                }
+            };
             if (self.predicate)(&mut self.minifier, &item, self.item1.as_ref()) {
                 self.item_iter = Some(item.to_string().into_bytes().into_iter());
                 self.add_char_to_buffer(buf, &mut buf_pos);
-- 
2.43.0


From 5cfd1d32b0be510dd0a45ba431141f4f6f21ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 08/69] fix: don't take a line comment at the end of the JS
 source for code

---
 src/js/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 1241141..7482205 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -557,7 +557,10 @@ fn get_line_comment<'a>(
             }
         }
     }
-    None
+    // Unclosed by a backline: the comment goes on until the end of the source.
+    let ret = Some(Token::Comment(&source[*start_pos..]));
+    *start_pos = source.len();
+    ret
 }
 
 fn get_regex<'a>(
-- 
2.43.0


From 5ef6826446cab63a83cef2405ceee7b65d991f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 09/69] fix: don't panic on an unclosed JS comment ending with
 a non-ASCII character

---
 src/js/token.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 7482205..8d36792 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -650,12 +650,12 @@ fn get_comment<'a>(
         Token::Comment
     };
 
-    let mut current_pos = *start_pos;
+    // Unclosed comment so returning it anyway...
+    let mut current_pos = source.len();
     for (pos, c) in iterator {
-        current_pos = pos;
         if let Ok(c) = ReservedChar::try_from(c) {
             if c == ReservedChar::Slash && prev == ReservedChar::Star {
-                current_pos -= 2;
+                current_pos = pos - 1;
                 break;
             }
             prev = c;
@@ -663,10 +663,8 @@ fn get_comment<'a>(
             prev = ReservedChar::Space;
         }
     }
-    // Unclosed comment so returning it anyway...
-    current_pos = std::cmp::min(current_pos, source.len() - 1);
-    let ret = builder(&source[*start_pos..=current_pos]);
-    *start_pos = current_pos + 2;
+    let ret = builder(&source[*start_pos..current_pos]);
+    *start_pos = current_pos + 1;
     ret
 }
 
-- 
2.43.0


From c602307cca3071b6a124812a48ff6b725c32f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 10/69] fix: don't mix up the characters read again after
 something which isn't a regex

---
 src/js/token.rs | 39 +++++++++------------------------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 8d36792..92389bf 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -846,50 +846,38 @@ fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, sour
 
 struct MyPeekable<'a> {
     inner: CharIndices<'a>,
-    saved: Vec<(usize, char)>,
+    saved: Option<(CharIndices<'a>, Option<(usize, char)>)>,
     peeked: Option<(usize, char)>,
-    is_saving: bool,
 }
 
 impl<'a> MyPeekable<'a> {
     fn new(indices: CharIndices<'a>) -> MyPeekable<'a> {
         MyPeekable {
             inner: indices,
-            saved: Vec::with_capacity(500),
+            saved: None,
             peeked: None,
-            is_saving: false,
         }
     }
 
     fn start_save(&mut self) {
-        self.is_saving = true;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
-        }
+        self.saved = Some((self.inner.clone(), self.peeked));
     }
 
     fn drop_save(&mut self) {
-        self.is_saving = false;
-        self.saved.clear();
+        self.saved = None;
     }
 
+    /// Goes back to where `start_save` was called.
     fn stop_save(&mut self) {
-        self.is_saving = false;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
+        if let Some((inner, peeked)) = self.saved.take() {
+            self.inner = inner;
+            self.peeked = peeked;
         }
-        self.peeked = None;
     }
 
-    /// Returns None if saving.
     fn peek(&mut self) -> Option<(usize, char)> {
         if self.peeked.is_none() {
             self.peeked = self.inner.next();
-            if self.is_saving {
-                if let Some(p) = self.peeked {
-                    self.saved.push(p);
-                }
-            }
         }
         self.peeked
     }
@@ -902,16 +890,7 @@ impl Iterator for MyPeekable<'_> {
         if self.peeked.is_some() {
             self.peeked.take()
         } else {
-            if !self.is_saving && !self.saved.is_empty() {
-                return Some(self.saved.remove(0));
-            }
-            match self.inner.next() {
-                Some(r) if self.is_saving => {
-                    self.saved.push(r);
-                    Some(r)
-                }
-                r => r,
-            }
+            self.inner.next()
         }
     }
 }
-- 
2.43.0


From 214b8be438000f85fb746cafb7e8b2004884fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 11/69] fix: don't end a regex on a slash in a character class

---
 src/js/token.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 92389bf..45ccf9f 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -592,14 +592,21 @@ fn get_regex<'a>(
         }
     }
     iterator.start_save();
+    let mut in_class = false;
+    let mut end = source.len();
     while let Some((pos, c)) = iterator.next() {
         if c == '\\' {
             // we skip next character
             iterator.next();
             continue;
         }
+        if c == '[' && pos >= iterator.unclosed_class_end {
+            in_class = true;
+        } else if c == ']' {
+            in_class = false;
+        }
         if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::Slash {
+            if c == ReservedChar::Slash && !in_class {
                 let mut is_global = false;
                 let mut is_interactive = false;
                 let mut add = 0;
@@ -621,10 +628,15 @@ fn get_regex<'a>(
                 iterator.drop_save();
                 return ret;
             } else if c == ReservedChar::Backline {
+                end = pos;
                 break;
             }
         }
     }
+    if in_class {
+        // No need to look for the end of this class again.
+        iterator.unclosed_class_end = end;
+    }
     iterator.stop_save();
     None
 }
@@ -848,6 +860,8 @@ struct MyPeekable<'a> {
     inner: CharIndices<'a>,
     saved: Option<(CharIndices<'a>, Option<(usize, char)>)>,
     peeked: Option<(usize, char)>,
+    /// No regex character class opened before this position is closed on its line.
+    unclosed_class_end: usize,
 }
 
 impl<'a> MyPeekable<'a> {
@@ -856,6 +870,7 @@ impl<'a> MyPeekable<'a> {
             inner: indices,
             saved: None,
             peeked: None,
+            unclosed_class_end: 0,
         }
     }
 
-- 
2.43.0


From 4e8712306799e6d616e902ba2af2710827574dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 12/69] fix: don't take a division for a regex after an
 increment or a decrement

---
 src/js/token.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 45ccf9f..6d0259b 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -587,6 +587,18 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
+            // An increment or a decrement is followed by a division.
+            Token::Operation(op @ (Operation::Addition | Operation::Subtract))
+                if v[..back]
+                    .iter()
+                    .rev()
+                    .take_while(|t| t.eq_operation(*op))
+                    .count()
+                    % 2
+                    == 1 =>
+            {
+                return None
+            }
             t if t.is_operation() || t.is_condition() => break,
             _ => return None,
         }
-- 
2.43.0


From 424b6018860c48bc730ae2891345de2f49d76579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 13/69] fix: take what follows a keyword such as return for a
 regex

---
 src/js/token.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 6d0259b..5a1bb4c 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -163,6 +163,21 @@ impl Keyword {
     fn requires_before(&self) -> bool {
         matches!(*self, Keyword::In | Keyword::InstanceOf)
     }
+
+    /// Returns `true` if a slash following this keyword starts a regex.
+    fn precedes_expression(&self) -> bool {
+        matches!(
+            *self,
+            Keyword::Case
+                | Keyword::Do
+                | Keyword::Else
+                | Keyword::In
+                | Keyword::InstanceOf
+                | Keyword::Return
+                | Keyword::Throw
+                | Keyword::Typeof
+        )
+    }
 }
 
 impl fmt::Display for Keyword {
@@ -600,6 +615,12 @@ fn get_regex<'a>(
                 return None
             }
             t if t.is_operation() || t.is_condition() => break,
+            Token::Keyword(k)
+                if k.precedes_expression()
+                    && !first_useful(&v[..back]).is_some_and(|t| t.eq_char(ReservedChar::Dot)) =>
+            {
+                break
+            }
             _ => return None,
         }
     }
-- 
2.43.0


From 7ca0a15d9d75e8e2f757f42a6cd476c8d0899c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 14/69] fix: keep the leading zeros of JS numbers

---
 src/js/token.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 5a1bb4c..62dc9be 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -808,11 +808,19 @@ fn first_useful<'a>(v: &'a [Token<'a>]) -> Option<&'a Token<'a>> {
     None
 }
 
+/// Leading zeros are significant: such numbers may be octal.
+fn get_number(source: &str) -> Option<usize> {
+    if source.len() > 1 && source.starts_with('0') {
+        return None;
+    }
+    usize::from_str(source).ok()
+}
+
 fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: usize) {
     if start < pos {
         if let Ok(w) = Keyword::try_from(&source[start..pos]) {
             v.push(Token::Keyword(w));
-        } else if let Ok(n) = usize::from_str(&source[start..pos]) {
+        } else if let Some(n) = get_number(&source[start..pos]) {
             v.push(Token::Number(n))
         } else if f64::from_str(&source[start..pos]).is_ok() {
             v.push(Token::FloatingNumber(&source[start..pos]))
-- 
2.43.0


From 93366e50ef3acb4f00fdafc1da1c058968e438fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 15/69] fix: don't take identifiers such as nan, inf or
 infinity for numbers

---
 src/js/token.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 62dc9be..5245910 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -822,7 +822,9 @@ fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: us
             v.push(Token::Keyword(w));
         } else if let Some(n) = get_number(&source[start..pos]) {
             v.push(Token::Number(n))
-        } else if f64::from_str(&source[start..pos]).is_ok() {
+        } else if source[start..pos].starts_with(|c: char| c.is_ascii_digit() || c == '.')
+            && f64::from_str(&source[start..pos]).is_ok()
+        {
             v.push(Token::FloatingNumber(&source[start..pos]))
         } else {
             v.push(Token::Other(&source[start..pos]));
-- 
2.43.0


From 8bcc6aa2680e176d1b6a37b7c258c563f65f0142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 16/69] fix: keep a created variable apart from the word before
 it

---
 src/js/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 5245910..6ca42a7 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -543,6 +543,7 @@ impl Token<'_> {
             Token::Keyword(_)
             | Token::Other(_)
             | Token::CreatedVarDecl(_)
+            | Token::CreatedVar(_)
             | Token::Number(_)
             | Token::FloatingNumber(_) => Some(' '),
             _ => None,
-- 
2.43.0


From 55dd2d104ec9d335682e20f0814b6c2d52569e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 17/69] fix: keep a division apart from a regex or a license
 comment

---
 src/js/token.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 6ca42a7..bade8ac 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1077,6 +1077,13 @@ macro_rules! tokens_writer {
                 Token::Keyword(_) | Token::Other(_) if i + 1 < tokens.len() => {
                     tokens[i + 1].get_required()
                 }
+                // Otherwise it'd make the start of a comment.
+                Token::Operation(Operation::Divide)
+                    if i + 1 < tokens.len()
+                        && (tokens[i + 1].is_regex() || tokens[i + 1].is_license()) =>
+                {
+                    Some(' ')
+                }
                 _ => None,
             } {
                 write!($w, "{}", c)?;
-- 
2.43.0


From f121f36eda532083806d7325dce17e348f090b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 18/69] fix: keep apart the tokens which would be parsed
 differently once joined

---
 src/js/utils.rs | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index fd47c28..e29622d 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -241,9 +241,11 @@ pub fn get_variable_name_and_value_positions<'a>(
 }
 
 #[inline]
-fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<Token<'a>> {
+fn get_next<'a>(it: &mut IntoIter<Token<'a>>, removed: &mut bool) -> Option<Token<'a>> {
+    *removed = false;
     for t in it {
         if t.is_comment() || t.is_white_character() {
+            *removed = true;
             continue;
         }
         return Some(t);
@@ -251,6 +253,26 @@ fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<Token<'a>> {
     None
 }
 
+/// Returns `true` if `next` cannot directly follow `tokens` without being parsed as a part of its
+/// last token (`a + +b` isn't `a ++b`).
+fn must_stay_apart(tokens: &[Token<'_>], next: &Token<'_>) -> bool {
+    match (tokens.last(), next) {
+        (
+            Some(last @ Token::Operation(Operation::Addition | Operation::Subtract)),
+            Token::Operation(_),
+        ) if last == next => {
+            let count = tokens.iter().rev().take_while(|t| *t == last).count();
+            count % 2 == 1
+        }
+        (Some(Token::Number(_)), Token::Char(ReservedChar::Dot)) => true,
+        (Some(Token::FloatingNumber(n)), Token::Char(ReservedChar::Dot)) => {
+            n.bytes().all(|b| b.is_ascii_digit())
+        }
+        (Some(Token::Keyword(_) | Token::Other(_)), Token::Char(ReservedChar::Backslash)) => true,
+        _ => false,
+    }
+}
+
 /// Convenient function used to clean useless tokens in a token list.
 ///
 /// # Example
@@ -269,9 +291,10 @@ fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<Token<'a>> {
 pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
     let mut v = Vec::with_capacity(tokens.len() / 3 * 2);
     let mut it = tokens.0.into_iter();
+    let mut removed = false;
 
     loop {
-        let token = get_next(&mut it);
+        let token = get_next(&mut it, &mut removed);
         if token.is_none() {
             break;
         }
@@ -292,6 +315,9 @@ pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
             // }
             // continue;
         }
+        if removed && must_stay_apart(&v, &token) {
+            v.push(Token::Char(ReservedChar::Space));
+        }
         v.push(token);
     }
     v.into()
@@ -315,9 +341,12 @@ pub fn clean_token(token: &Token<'_>, next_token: &Option<&Token<'_>>) -> bool {
 fn get_next_except<'a, F: Fn(&Token<'a>) -> bool>(
     it: &mut IntoIter<Token<'a>>,
     f: &F,
+    removed: &mut bool,
 ) -> Option<Token<'a>> {
+    *removed = false;
     for t in it {
         if (t.is_comment() || t.is_white_character()) && f(&t) {
+            *removed = true;
             continue;
         }
         return Some(t);
@@ -348,9 +377,10 @@ fn get_next_except<'a, F: Fn(&Token<'a>) -> bool>(
 pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f: F) -> Tokens<'a> {
     let mut v = Vec::with_capacity(tokens.len() / 3 * 2);
     let mut it = tokens.0.into_iter();
+    let mut removed = false;
 
     loop {
-        let token = get_next_except(&mut it, &f);
+        let token = get_next_except(&mut it, &f, &mut removed);
         if token.is_none() {
             break;
         }
@@ -366,7 +396,7 @@ pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f:
                 }
                 continue;
             }
-            if let Some(next) = get_next_except(&mut it, &f) {
+            if let Some(next) = get_next_except(&mut it, &f, &mut removed) {
                 if next != Token::Char(ReservedChar::CloseCurlyBrace) || !f(&token) {
                     v.push(token);
                 }
@@ -376,6 +406,9 @@ pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f:
             }
             continue;
         }
+        if removed && must_stay_apart(&v, &token) {
+            v.push(Token::Char(ReservedChar::Space));
+        }
         v.push(token);
     }
     v.into()
-- 
2.43.0


From 3c65c92143233e9f2f3e998ff688115c85acda6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 19/69] fix: don't create variables with a name used by the JS
 source

---
 src/js/tools.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index d264c7c..123765f 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -233,6 +233,13 @@ fn get_variables_name<'a>(
         }
         pos += 1;
     }
+    // Whatever is called like this (a function, an argument, a property...), the name is taken.
+    ret.extend(
+        tokens
+            .iter()
+            .filter_map(|token| token.get_other())
+            .filter(|name| name.starts_with("r_")),
+    );
     (ret, variables)
 }
 
-- 
2.43.0


From 70646f39a3a6d98699897df8b36e1311e20c638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 20/69] fix: don't aggregate template literals

---
 src/js/tools.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 123765f..996754f 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -265,7 +265,7 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
 
         for pos in 0..tokens.len() {
             let token = &tokens[pos];
-            if let Some(str_token) = token.get_string() {
+            if let Some(str_token) = token.get_string().filter(|s| !s.starts_with('`')) {
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
                     if pos != *string_pos {
                         to_replace.push((pos, *var_pos));
@@ -433,7 +433,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                 continue;
             }
             let token = &tokens[pos];
-            if let Some(str_token) = token.get_string() {
+            if let Some(str_token) = token.get_string().filter(|s| !s.starts_with('`')) {
                 if !filter(&tokens, pos) {
                     continue;
                 }
-- 
2.43.0


From 03de915c7988d5a318774268959c3046ef1f1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 21/69] fix: don't use a variable before its declaration when
 aggregating strings

---
 src/js/tools.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 996754f..82f9fad 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -227,7 +227,7 @@ fn get_variables_name<'a>(
                     ret.insert(var_name);
                 }
                 if let Some(s) = tokens[value_pos].get_string() {
-                    variables.insert(s, (var_pos, value_pos));
+                    variables.entry(s).or_insert((var_pos, value_pos));
                 }
             }
         }
@@ -267,7 +267,7 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
             let token = &tokens[pos];
             if let Some(str_token) = token.get_string().filter(|s| !s.starts_with('`')) {
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
-                    if pos != *string_pos {
+                    if pos > *string_pos {
                         to_replace.push((pos, *var_pos));
                     }
                     continue;
-- 
2.43.0


From 94f0c082191dac6d2499bfc8603d25418f9e95d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 22/69] fix: only use a declared variable in place of the
 string which is its whole value

---
 src/js/tools.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 82f9fad..f0666d0 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -205,6 +205,26 @@ impl fmt::Display for Minified<'_> {
     }
 }
 
+/// Tells if what comes after `token` may still be a part of the declarations which were going on
+/// before it.
+fn is_declaring(declaring: bool, token: &Token<'_>) -> bool {
+    match token {
+        Token::Keyword(Keyword::Var | Keyword::Let) => true,
+        Token::Char(c) => declaring && (*c == ReservedChar::Comma || c.is_white_character()),
+        Token::Operation(op) => declaring && *op == token::Operation::Equal,
+        Token::Keyword(_) | Token::Condition(_) => false,
+        _ => declaring,
+    }
+}
+
+/// Returns `true` if nothing else than the token at the given position is a part of the value.
+fn is_whole_value(tokens: &Tokens<'_>, pos: usize) -> bool {
+    tokens[pos + 1..]
+        .iter()
+        .find(|t| !t.is_comment() && !t.is_license() && !t.is_white_character())
+        .is_none_or(|t| t.eq_char(ReservedChar::Comma) || t.eq_char(ReservedChar::SemiColon))
+}
+
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
 fn get_variables_name<'a>(
     tokens: &'a Tokens<'a>,
@@ -212,12 +232,17 @@ fn get_variables_name<'a>(
     let mut ret = HashSet::new();
     let mut variables = HashMap::new();
     let mut pos = 0;
+    let mut declaring = false;
 
     while pos < tokens.len() {
+        declaring = is_declaring(declaring, &tokens[pos]);
         if tokens[pos].is_keyword() || tokens[pos].is_other() {
             if let Some((var_pos, Some(value_pos))) =
                 get_variable_name_and_value_positions(tokens, pos)
             {
+                for token in &tokens[pos..value_pos] {
+                    declaring = is_declaring(declaring, token);
+                }
                 pos = value_pos;
                 if let Some(var_name) = tokens[var_pos].get_other() {
                     if !var_name.starts_with("r_") {
@@ -226,7 +251,10 @@ fn get_variables_name<'a>(
                     }
                     ret.insert(var_name);
                 }
-                if let Some(s) = tokens[value_pos].get_string() {
+                if let Some(s) = tokens[value_pos]
+                    .get_string()
+                    .filter(|_| declaring && is_whole_value(tokens, value_pos))
+                {
                     variables.entry(s).or_insert((var_pos, value_pos));
                 }
             }
-- 
2.43.0


From 40eeb2e26579372afa016cef8b3cdc585aa6b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 23/69] fix: keep the quotes of a JS string with double quotes
 moved into an array

---
 src/js/tools.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index f0666d0..c41a21b 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -528,7 +528,15 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             if !create_array_entry {
                 continue;
             }
-            to_insert.push((end_bracket, Token::CreatedVar(format!("\"{}\"", *s))));
+            // Only a string between quotes can have an unescaped double quote.
+            let quote = match tokens_pos.first().and_then(|pos| tokens[*pos].get_string()) {
+                Some(token) if token.starts_with('\'') && s.contains('"') => '\'',
+                _ => '"',
+            };
+            to_insert.push((
+                end_bracket,
+                Token::CreatedVar(format!("{quote}{}{quote}", *s)),
+            ));
             if iter.peek().is_none() && current_array_values.is_empty() {
                 continue;
             }
-- 
2.43.0


From 7ba30bbf0e344c2abdf546e200dd80eb36afd8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 24/69] fix: count all the values of an array when aggregating
 strings into it

---
 src/js/tools.rs | 34 +++++++++++++++++++++++++++-------
 src/js/utils.rs |  2 +-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index c41a21b..404ba5b 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -446,14 +446,35 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         let mut validated: HashSet<&str> = HashSet::new();
 
         let mut array_pos = 0;
-        for s in current_array_values.iter() {
-            if let Some(st) = tokens.0[*s].get_string() {
-                strs.insert(&st[1..st.len() - 1], (array_pos, vec![], false));
+        let is_comma =
+            |s: Option<&usize>| s.is_some_and(|s| tokens[*s].eq_char(ReservedChar::Comma));
+        for (i, s) in current_array_values.iter().enumerate() {
+            if is_comma(Some(s)) {
                 array_pos += 1;
-                validated.insert(&st[1..st.len() - 1]);
+                continue;
+            }
+            if tokens[*s].is_reserved_char() {
+                // The values can't be counted (array in the array, call, spread...).
+                return tokens;
+            }
+            let next = current_array_values.get(i + 1);
+            if let Some(st) = tokens.0[*s].get_string() {
                 to_ignore.insert(*s);
+                if !st.starts_with('`')
+                    && (i == 0 || is_comma(current_array_values.get(i - 1)))
+                    && (next.is_none() || is_comma(next))
+                {
+                    strs.insert(&st[1..st.len() - 1], (array_pos, vec![], false));
+                    validated.insert(&st[1..st.len() - 1]);
+                }
             }
         }
+        let needs_comma =
+            !current_array_values.is_empty() && !is_comma(current_array_values.last());
+        if needs_comma {
+            array_pos += 1;
+        }
+        let first_new_pos = array_pos;
 
         let mut array_pos_str = array_pos.to_string();
         for pos in 0..tokens.len() {
@@ -518,8 +539,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             end_bracket = 2;
         }
 
-        let mut iter = validated.iter().peekable();
-        while let Some((array_pos, s)) = iter.next() {
+        for (array_pos, s) in validated.iter() {
             let (_, ref tokens_pos, create_array_entry) = strs[*s];
             let array_index = Token::CreatedVar(format!("{array_name}[{array_pos}]"));
             for token in tokens_pos.iter() {
@@ -537,7 +557,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                 end_bracket,
                 Token::CreatedVar(format!("{quote}{}{quote}", *s)),
             ));
-            if iter.peek().is_none() && current_array_values.is_empty() {
+            if *array_pos == first_new_pos && !needs_comma {
                 continue;
             }
             to_insert.push((end_bracket, Token::Char(ReservedChar::Comma)));
diff --git a/src/js/utils.rs b/src/js/utils.rs
index e29622d..e074027 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -478,7 +478,7 @@ pub(crate) fn get_array<'a>(
                 Token::Char(ReservedChar::CloseBracket) => {
                     return Some((ret, pos));
                 }
-                s if s.is_comment() || s.is_white_character() => {}
+                s if s.is_comment() || s.is_license() || s.is_white_character() => {}
                 _ => {
                     ret.push(pos);
                 }
-- 
2.43.0


From a469d4ff37690a4ca53e2977741c28f5b86c03d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 25/69] fix: don't use an array before its declaration when
 aggregating strings

---
 src/js/tools.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 404ba5b..b4d3f31 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -477,7 +477,8 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         let first_new_pos = array_pos;
 
         let mut array_pos_str = array_pos.to_string();
-        for pos in 0..tokens.len() {
+        // The array can't be used before its declaration.
+        for pos in end_bracket..tokens.len() {
             if to_ignore.contains(&pos) {
                 continue;
             }
-- 
2.43.0


From b5fd0b17f17b686ceb961668a6d12496d72df2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 26/69] fix: get the value of a variable even when it is after
 a line break

---
 src/js/utils.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index e074027..0deece3 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -224,10 +224,7 @@ pub fn get_variable_name_and_value_positions<'a>(
                     Some(ReservedChar::Comma) | Some(ReservedChar::SemiColon)
                 ) {
                     return Some((tmp, None));
-                } else if !(tokens[tmp2].is_comment()
-                    || tokens[tmp2].is_white_character()
-                        && tokens[tmp2].get_char() != Some(ReservedChar::Backline))
-                {
+                } else if !(tokens[tmp2].is_comment() || tokens[tmp2].is_white_character()) {
                     break;
                 }
                 tmp2 += 1;
-- 
2.43.0


From 56eae94bf18f18ab3647f338a8e1a87afa513605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 27/69] fix: don't replace a CSS comment by a space at the
 beginning of the output

---
 src/css/token.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 5645e3c..64e194f 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -662,6 +662,9 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                         retain = false;
                     }
                 }
+            } else {
+                // no need for a space at the beginning
+                retain = false;
             }
             if retain && v[i].is_comment() {
                 // convert comments to spaces when minifying
-- 
2.43.0


From ba7624e9a473aeb24d43351ac86c4e6711b97be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 28/69] fix: don't keep a useless space because of a CSS
 comment next to it

---
 src/css/token.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 64e194f..9a82913 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -584,6 +584,18 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     // use `Vec::retain`, but the traversal requires inspecting the previously
     // retained token and the next token, which `Vec::retain` doesn't allow. So
     // we have to use a lower-level mechanism.
+    // Spaces and comments next to each other only make one separation.
+    v.dedup_by(|next, prev| {
+        let is_separation = |token: &Token<'_>| token.is_useless() || token.is_comment();
+        if !is_separation(next) || !is_separation(prev) {
+            return false;
+        }
+        if prev.is_comment() && next.is_useless() {
+            *prev = Token::Char(ReservedChar::Space);
+        }
+        true
+    });
+
     let mut i = 0;
     // Index of the previous retained token, if there is one.
     let mut previous_element_index: Option<usize> = None;
-- 
2.43.0


From eca42619ffc78d1d16246b6561b20e306b7ddc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 29/69] fix: keep the space before a parenthese in nested CSS
 at-rules

---
 src/css/token.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 9a82913..fc450f8 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -635,6 +635,14 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                 {
                     // retain the space between keywords
                     // and the space that disambiguates functions from keyword-plus-parens
+                } else if matches!(
+                    v[previous_element_index],
+                    Token::SelectorElement(SelectorElement::Tag(_))
+                ) && matches!(
+                    v.get(i + 1),
+                    Some(Token::Char(ReservedChar::OpenParenthese))
+                ) {
+                    // same thing for the keywords of an at-rule in another one
                 } else if v[previous_element_index].is_a_selector_element()
                     && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Star)))
                 {
-- 
2.43.0


From f19e304c21c1be6db79e5fd9c75a277485f06c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 30/69] fix: keep every descendant combinator of the CSS
 selectors

---
 src/css/token.rs | 69 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 68 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index fc450f8..4c13594 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -316,6 +316,42 @@ impl Token<'_> {
         matches!(*self, Token::License(_))
     }
 
+    fn ends_compound_selector(&self) -> bool {
+        match *self {
+            Token::SelectorElement(_) | Token::Other(_) => !self.is_a_media(),
+            Token::Char(c) => matches!(
+                c,
+                ReservedChar::Star | ReservedChar::CloseParenthese | ReservedChar::CloseBracket
+            ),
+            _ => false,
+        }
+    }
+
+    fn starts_compound_selector(&self) -> bool {
+        match *self {
+            Token::SelectorElement(_) | Token::Other(_) => true,
+            Token::Char(c) => matches!(
+                c,
+                ReservedChar::Star
+                    | ReservedChar::OpenBracket
+                    | ReservedChar::Colon
+                    | ReservedChar::Pipe
+                    | ReservedChar::Backslash
+            ),
+            _ => false,
+        }
+    }
+
+    /// Returns `true` for what can come after the first element of a compound selector.
+    fn extends_compound_selector(&self) -> bool {
+        match *self {
+            Token::SelectorElement(ref e) => !matches!(e, SelectorElement::Tag(_)),
+            Token::Other(s) => s.starts_with(['.', '#']),
+            Token::Char(c) => matches!(c, ReservedChar::OpenBracket | ReservedChar::Colon),
+            _ => false,
+        }
+    }
+
     fn is_operator(&self) -> bool {
         match *self {
             Token::Operator(_) => true,
@@ -579,6 +615,30 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     Ok(Tokens(clean_tokens(v)))
 }
 
+/// Tells for each token if it's a part of the selectors of a rule (at-rules excluded).
+fn get_selectors(v: &[Token<'_>]) -> Vec<bool> {
+    let mut in_selectors = vec![false; v.len()];
+    let mut start = 0;
+
+    for (i, token) in v.iter().enumerate() {
+        match token.get_char() {
+            Some(ReservedChar::OpenCurlyBrace) => {
+                let is_at_rule = v[start..i]
+                    .iter()
+                    .find(|t| !t.is_useless() && !t.is_comment() && !t.is_a_license())
+                    .is_some_and(|t| {
+                        t.is_a_media() || matches!(t, Token::Other(s) if s.starts_with('@'))
+                    });
+                in_selectors[start..i].fill(!is_at_rule);
+                start = i + 1;
+            }
+            Some(ReservedChar::CloseCurlyBrace | ReservedChar::SemiColon) => start = i + 1,
+            _ => {}
+        }
+    }
+    in_selectors
+}
+
 fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     // This function may remove multiple elements from the vector. Ideally we'd
     // use `Vec::retain`, but the traversal requires inspecting the previously
@@ -596,6 +656,7 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
         true
     });
 
+    let in_selectors = get_selectors(&v);
     let mut i = 0;
     // Index of the previous retained token, if there is one.
     let mut previous_element_index: Option<usize> = None;
@@ -620,7 +681,13 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
         if v[i].is_useless() || v[i].is_comment() {
             if let Some(previous_element_index) = previous_element_index {
                 #[allow(clippy::if_same_then_else)]
-                if v[previous_element_index] == Token::Char(ReservedChar::CloseBracket) {
+                if in_selectors[i]
+                    && v[previous_element_index].ends_compound_selector()
+                    && v.get(i + 1).is_some_and(|t| t.starts_compound_selector())
+                {
+                    // A space is a combinator here. A comment isn't one.
+                    retain = v[i].is_useless() || !v[i + 1].extends_compound_selector();
+                } else if v[previous_element_index] == Token::Char(ReservedChar::CloseBracket) {
                     if i + 1 < v.len()
                         && (v[i + 1].is_useless()
                             || v[i + 1] == Token::Char(ReservedChar::OpenCurlyBrace))
-- 
2.43.0


From 20ee2c447e8aa9ca396bc77475c56c7596b07c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 31/69] fix: remove the spaces between a CSS attribute selector
 and a combinator

---
 src/css/token.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 4c13594..c6a1ddb 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -687,13 +687,6 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                 {
                     // A space is a combinator here. A comment isn't one.
                     retain = v[i].is_useless() || !v[i + 1].extends_compound_selector();
-                } else if v[previous_element_index] == Token::Char(ReservedChar::CloseBracket) {
-                    if i + 1 < v.len()
-                        && (v[i + 1].is_useless()
-                            || v[i + 1] == Token::Char(ReservedChar::OpenCurlyBrace))
-                    {
-                        retain = false;
-                    }
                 } else if matches!(v[previous_element_index], Token::Other(_))
                     && matches!(
                         v.get(i + 1),
@@ -739,7 +732,9 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                     retain = false;
                 } else if !is_in_calc {
                     let prev = &v[previous_element_index];
-                    if ((prev.is_char() && prev != &Token::Char(ReservedChar::CloseParenthese))
+                    if ((prev.is_char()
+                        && prev != &Token::Char(ReservedChar::CloseParenthese)
+                        && prev != &Token::Char(ReservedChar::CloseBracket))
                         || prev.is_a_media()
                         || prev.is_a_license())
                         || (i < v.len() - 1
-- 
2.43.0


From ace589418ba99bfe1eac27779b7faa833205410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 32/69] fix: keep the spaces around the operators in every CSS
 math function

---
 src/css/token.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index c6a1ddb..4ba188f 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -639,6 +639,20 @@ fn get_selectors(v: &[Token<'_>]) -> Vec<bool> {
     in_selectors
 }
 
+/// Functions in which the spaces around `+` and `-` matter.
+fn is_math_function(token: &Token<'_>) -> bool {
+    match *token {
+        Token::Other(s)
+        | Token::SelectorElement(SelectorElement::Tag(s) | SelectorElement::PseudoClass(s)) => {
+            matches!(
+                s,
+                "calc" | "-webkit-calc" | "-moz-calc" | "min" | "max" | "clamp"
+            )
+        }
+        _ => false,
+    }
+}
+
 fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     // This function may remove multiple elements from the vector. Ideally we'd
     // use `Vec::retain`, but the traversal requires inspecting the previously
@@ -666,7 +680,9 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     let mut b = Vec::with_capacity(v.len());
 
     while i < v.len() {
-        if v[i] == Token::Other("calc") {
+        if is_math_function(&v[i])
+            && v.get(i + 1) == Some(&Token::Char(ReservedChar::OpenParenthese))
+        {
             is_in_calc = true;
         } else if is_in_calc {
             if v[i] == Token::Char(ReservedChar::CloseParenthese) {
@@ -728,8 +744,16 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                 {
                     // this looks like a comment, but it is not
                     // retain the space between `/` and `*`
-                } else if is_in_calc && v[previous_element_index].is_useless() {
-                    retain = false;
+                } else if is_in_calc {
+                    // only the spaces around operators have to be kept
+                    let prev = &v[previous_element_index];
+                    retain = !prev.is_useless()
+                        && !prev.is_a_license()
+                        && prev.get_char() != Some(ReservedChar::Comma)
+                        && !matches!(
+                            v.get(i + 1).and_then(|next| next.get_char()),
+                            Some(ReservedChar::Comma | ReservedChar::CloseParenthese)
+                        );
                 } else if !is_in_calc {
                     let prev = &v[previous_element_index];
                     if ((prev.is_char()
-- 
2.43.0


From b4b491c379b9ab188ca855373c0ab799316bdd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 33/69] fix: don't take a part of a CSS URL for a comment

---
 src/css/token.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 4ba188f..8f7a71f 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -352,6 +352,16 @@ impl Token<'_> {
         }
     }
 
+    fn is_url(&self) -> bool {
+        match *self {
+            Token::Other(s)
+            | Token::SelectorElement(SelectorElement::Tag(s) | SelectorElement::PseudoClass(s)) => {
+                s.eq_ignore_ascii_case("url")
+            }
+            _ => false,
+        }
+    }
+
     fn is_operator(&self) -> bool {
         match *self {
             Token::Operator(_) => true,
@@ -472,6 +482,8 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     let mut is_in_block: isize = 0;
     let mut is_in_media = false;
     let mut is_in_attribute_selector = false;
+    // Only when the URL isn't a string.
+    let mut is_in_url = false;
 
     loop {
         let (mut pos, c) = match iterator.next() {
@@ -520,7 +532,16 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         return Err("Unclosed string");
                     }
                 }
-                ReservedChar::Slash if matches!(iterator.peek(), Some(&(_, '*'))) => {
+                ReservedChar::OpenParenthese => {
+                    is_in_url = v.last().is_some_and(|t| t.is_url())
+                        && !matches!(iterator.peek(), Some(&(_, '"' | '\'')));
+                    v.push(Token::Char(c));
+                }
+                ReservedChar::CloseParenthese => {
+                    is_in_url = false;
+                    v.push(Token::Char(c));
+                }
+                ReservedChar::Slash if !is_in_url && matches!(iterator.peek(), Some(&(_, '*'))) => {
                     // This is a comment.
                     let _ = iterator.next();
                     pos += 1;
-- 
2.43.0


From f7798c6b49c3c5f9de6c3371eef3cf818e53af9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 34/69] fix: keep the space before a CSS word starting with an
 escape

---
 src/css/token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 8f7a71f..bc187ee 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -765,6 +765,10 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                 {
                     // this looks like a comment, but it is not
                     // retain the space between `/` and `*`
+                } else if !v[previous_element_index].is_char()
+                    && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Backslash)))
+                {
+                    // retain the space before a word starting with an escape
                 } else if is_in_calc {
                     // only the spaces around operators have to be kept
                     let prev = &v[previous_element_index];
-- 
2.43.0


From 6082a4abc63a08ffaa5790ea06cd9f8b7eff7111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 35/69] fix: report an input file which isn't UTF-8 instead of
 panicking

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 7625228..d981ea1 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -123,7 +123,7 @@ impl From<&PathBuf> for FileType {
 pub fn get_all_data<T: AsRef<Path>>(file_path: T) -> io::Result<String> {
     let mut file = File::open(file_path)?;
     let mut data = String::new();
-    file.read_to_string(&mut data).unwrap();
+    file.read_to_string(&mut data)?;
     Ok(data)
 }
 
-- 
2.43.0


From 90277801e2a89ce9373177587c773f67a732ec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 36/69] fix: report a file extension which isn't UTF-8 instead
 of panicking

---
 src/cli.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index d981ea1..ca5c688 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -111,10 +111,10 @@ impl From<&PathBuf> for FileType {
         if ext.is_none() {
             return Self::Unknown;
         };
-        match ext.unwrap().to_ascii_lowercase().to_str().unwrap() {
-            "css" => Self::Css,
-            "js" => Self::Js,
-            "json" => Self::Json,
+        match ext.unwrap().to_ascii_lowercase().to_str() {
+            Some("css") => Self::Css,
+            Some("js") => Self::Js,
+            Some("json") => Self::Json,
             _ => Self::Unknown,
         }
     }
-- 
2.43.0


From d602acc98860c6e9c3d55fbee5fe0b294999fb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 37/69] fix: report an output directory which can't be created
 instead of panicking

---
 src/cli.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index ca5c688..3f0f334 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -147,7 +147,10 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-                        std::fs::create_dir_all(op.parent().unwrap()).unwrap();
+                        if let Err(e) = std::fs::create_dir_all(op.parent().unwrap()) {
+                            eprintln!("Impossible to create the parent directory of {op:?}: {e}");
+                            return;
+                        }
                     };
                     op
                 }
-- 
2.43.0


From 83a451b96e0787dd82fad0323bc929639578fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 38/69] fix: don't empty the output file when the minification
 fails

---
 src/cli.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 3f0f334..e7b1870 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -139,6 +139,19 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
     };
     match get_all_data(file_path) {
         Ok(content) => {
+            let minified = match file_ext {
+                FileType::Css => css::minify(&content).map(|m| m.to_string()),
+                FileType::Js => js::minify(&content).map(|m| m.to_string()),
+                FileType::Json => Ok(json::minify(&content).to_string()),
+                FileType::Unknown => Err("unknow file extension..."),
+            };
+            let minified = match minified {
+                Ok(minified) => minified,
+                Err(e) => {
+                    eprintln!("{file_path:?}: {e}");
+                    return;
+                }
+            };
             let out = match out_path {
                 Some(op) => {
                     let mut op = op.clone();
@@ -166,17 +179,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 .create(true)
                 .open(&out)
             {
-                let func = |s: &str| -> String {
-                    match file_ext {
-                        FileType::Css => {
-                            css::minify(s).expect("css minification failed").to_string()
-                        }
-                        FileType::Js => js::minify(s).expect("js minification failed").to_string(),
-                        FileType::Json => json::minify(s).to_string(),
-                        FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
-                    }
-                };
-                if let Err(e) = write!(file, "{}", func(&content)) {
+                if let Err(e) = write!(file, "{minified}") {
                     eprintln!("Impossible to write into {out:?}: {e}");
                 } else {
                     println!("{file_path:?}: done -> generated into {out:?}");
-- 
2.43.0


From af16bf09c7c6732fb2cda7f7dc59f77c7fef9e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:50 +0000
Subject: [PATCH 39/69] fix: keep the outputs under the output directory

---
 src/cli.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index e7b1870..fe3c29c 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -2,7 +2,7 @@ use std::convert::From;
 use std::env;
 use std::fs::{File, OpenOptions};
 use std::io::{self, Read, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use clap::builder::PossibleValue;
 use clap::{command, value_parser, Arg, ArgAction, ValueEnum};
@@ -156,7 +156,12 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 Some(op) => {
                     let mut op = op.clone();
                     if op.is_dir() {
-                        op.push(file_path);
+                        // Only what keeps the output under the directory.
+                        op.extend(
+                            file_path
+                                .components()
+                                .filter(|c| matches!(c, Component::Normal(_))),
+                        );
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-- 
2.43.0


From d979e50a43012b18443a75c9ea26ff2ca290c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 40/69] fix: don't replace an HTML comment by a space

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index b6fa993..67f00e6 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -72,7 +72,7 @@ fn remove_comments(source: &str) -> String {
         if caps[0].replace("<!--", " ").trim().starts_with("[") {
             caps[0].to_owned()
         } else {
-            " ".to_owned()
+            String::new()
         }
     })
     .into_owned()
-- 
2.43.0


From e0ec8bc11b1a1f83db1319a29366e961672df7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 41/69] fix: only remove the default types of HTML scripts and
 styles

---
 src/html.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 67f00e6..eb4c25a 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -16,9 +16,15 @@ fn condense_whitespace(source: &str) -> String {
 }
 
 fn condense(source: &str) -> String {
-    let re = Regex::new(r"<(style|script)[\w|\s].*?>").unwrap();
-    let type_reg = Regex::new(r#"\s*?type="[\w|\s].*?""#).unwrap();
+    let re = Regex::new(r"<(style|script)\s.*?>").unwrap();
+    // Only the default types can be removed.
+    let style_type = Regex::new(r#"\s+type="text/css""#).unwrap();
+    let script_type = Regex::new(r#"\s+type="text/javascript""#).unwrap();
     re.replace_all(source, |caps: &Captures| {
+        let type_reg = match &caps[1] {
+            "style" => &style_type,
+            _ => &script_type,
+        };
         type_reg.replace_all(&caps[0], "").into_owned()
     })
     .into_owned()
-- 
2.43.0


From 6d5849f11273fb192d81d5f1548a4dd0403790d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 42/69] fix: keep the quotes of an HTML value when what follows
 would join it

---
 src/html.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index eb4c25a..df07de2 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -93,7 +93,10 @@ fn unquote_attributes(source: &str) -> String {
     let spaces_before_close2 = Regex::new(r"'\s+>").unwrap();
     let extra_spaces2 = Regex::new(r##""\s\s+\w+="|'\s\s+\w+='|"\s\s+\w+=|'\s\s+\w+="##).unwrap();
     let extra_spaces3 = Regex::new(r"\d\s+>").unwrap();
-    let quotes_in_tag = Regex::new(r##"([a-zA-Z]+)="([a-zA-Z0-9-_\.]+)""##).unwrap();
+    // The quotes can only be removed if what follows isn't then taken for a part of the value. The
+    // other values are matched too, so that they aren't searched for attributes.
+    let quotes_in_tag =
+        Regex::new(r##""[^"]*"|'[^']*'|([a-zA-Z]+)="([a-zA-Z0-9-_\.]+)"([\s>])?"##).unwrap();
 
     any_tag
         .replace_all(source, |caps: &Captures| {
@@ -138,9 +141,13 @@ fn unquote_attributes(source: &str) -> String {
                     );
                 }
                 tag = quotes_in_tag
-                    .replace_all(&output, |caps: &Captures| match &caps[1] {
-                        "width" | "height" => format!("{}={}", &caps[1], &caps[2]),
-                        x => format!("{}=\"{}\"", x, &caps[2]),
+                    .replace_all(&output, |caps: &Captures| {
+                        match (caps.get(1).map(|name| name.as_str()), caps.get(3)) {
+                            (Some(name @ ("width" | "height")), Some(after)) => {
+                                format!("{}={}{}", name, &caps[2], after.as_str())
+                            }
+                            _ => caps[0].to_owned(),
+                        }
                     })
                     .into_owned();
                 if cap != tag {
-- 
2.43.0


From 9e43cea2691bd3b20c96c36250c352495b47ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 43/69] fix: keep the HTML spaces which are displayed, such as
 the non-breaking one

---
 src/html.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index df07de2..1df97a9 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -2,16 +2,21 @@
 
 use regex::{Captures, Regex};
 
+fn trim(source: &str) -> &str {
+    source.trim_matches(|c: char| c.is_ascii_whitespace())
+}
+
 fn condense_whitespace(source: &str) -> String {
     let lower_source = source.to_lowercase();
     if lower_source.find("<textarea").is_none() && lower_source.find("<pre").is_none() {
         // maybe should be better not to recreate Regex every time?
-        let re = Regex::new(r">\s+<").unwrap();
+        // The other Unicode spaces (such as the non-breaking one) are displayed.
+        let re = Regex::new(r">(?-u:\s)+<").unwrap();
         let source = re.replace_all(source, "> <").into_owned();
-        let re = Regex::new(r"\s{2,}|[\r\n]").unwrap();
+        let re = Regex::new(r"(?-u:\s){2,}|[\r\n]").unwrap();
         re.replace_all(&source, " ").into_owned()
     } else {
-        source.trim().to_owned()
+        trim(source).to_owned()
     }
 }
 
@@ -87,8 +92,8 @@ fn remove_comments(source: &str) -> String {
 fn unquote_attributes(source: &str) -> String {
     // Some attributes like width, height, etc... don't need quotes.
     let any_tag = Regex::new(r"<\w.*?>").unwrap();
-    let extra_spaces = Regex::new(r" \s+|\s +").unwrap();
-    let between_words = Regex::new(r"\w\s+\w").unwrap();
+    let extra_spaces = Regex::new(r" (?-u:\s)+|(?-u:\s) +").unwrap();
+    let between_words = Regex::new(r"\w(?-u:\s)+\w").unwrap();
     let spaces_before_close = Regex::new(r##""\s+>"##).unwrap();
     let spaces_before_close2 = Regex::new(r"'\s+>").unwrap();
     let extra_spaces2 = Regex::new(r##""\s\s+\w+="|'\s\s+\w+='|"\s\s+\w+=|'\s\s+\w+="##).unwrap();
@@ -157,8 +162,7 @@ fn unquote_attributes(source: &str) -> String {
                 }
             }
         })
-        .trim()
-        .to_owned()
+        .into_owned()
 }
 
 /// Returns a minified version of the provided HTML source.
@@ -167,7 +171,7 @@ pub fn minify(source: &str) -> String {
     let source = condense(&source);
     let source = clean_unneeded_tags(&source);
     let source = condense_whitespace(&source);
-    unquote_attributes(&source).trim().to_owned()
+    trim(&unquote_attributes(&source)).to_owned()
 }
 
 #[test]
-- 
2.43.0


From 70080c3cf7b019f8e73c41a2d1f816de1ccf3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 44/69] fix: don't end a JS template literal in a comment or a
 regex of its interpolations

---
 src/js/token.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index bade8ac..8a20d62 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -743,6 +743,24 @@ fn get_string<'a>(
 // Legitimate code never nests anywhere near this deep.
 const MAX_BACKTICK_NESTING: usize = 1000;
 
+/// Returns `true` if a slash following `before` (in the interpolation of a template literal) starts
+/// a regex.
+fn is_regex_start(before: &str) -> bool {
+    let is_word = |c: char| c.is_alphanumeric() || c == '_' || c == '$';
+    let before = before.trim_end();
+    match before.chars().next_back() {
+        Some(')' | ']' | '}' | '"' | '\'' | '`') => false,
+        Some('+') => !before.ends_with("++"),
+        Some('-') => !before.ends_with("--"),
+        Some(c) if is_word(c) => {
+            let start = before.trim_end_matches(is_word);
+            !start.trim_end().ends_with('.')
+                && Keyword::try_from(&before[start.len()..]).is_ok_and(|k| k.precedes_expression())
+        }
+        _ => true,
+    }
+}
+
 fn get_backtick_string<'a>(
     source: &'a str,
     iterator: &mut MyPeekable<'_>,
@@ -778,6 +796,22 @@ fn get_backtick_string<'a>(
                             return Err("Too nested backtick (`) string");
                         }
                         get_backtick_string(source, iterator, &mut pos, depth + 1)?;
+                    } else if c == '/' {
+                        // What looks like a quote or a brace in there isn't one.
+                        match iterator.peek() {
+                            Some((mut pos, '/')) => {
+                                iterator.next();
+                                get_line_comment(source, iterator, &mut pos);
+                            }
+                            Some((mut pos, '*')) => {
+                                iterator.next();
+                                get_comment(source, iterator, &mut pos);
+                            }
+                            _ if is_regex_start(&source[*start_pos..pos]) => {
+                                get_regex(source, iterator, &mut pos, &[]);
+                            }
+                            _ => {}
+                        }
                     } else if c == '{' {
                         count += 1;
                     } else if c == '}' {
-- 
2.43.0


From a18f6261de8f655450beca0c2ff4a0aae7dbf42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 45/69] fix: keep a JS number with separators apart from the
 dot after it

---
 src/js/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 0deece3..e9b7aa1 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -265,6 +265,11 @@ fn must_stay_apart(tokens: &[Token<'_>], next: &Token<'_>) -> bool {
         (Some(Token::FloatingNumber(n)), Token::Char(ReservedChar::Dot)) => {
             n.bytes().all(|b| b.is_ascii_digit())
         }
+        // A number with separators (`1_000`).
+        (Some(Token::Other(n)), Token::Char(ReservedChar::Dot)) => {
+            n.starts_with(|c: char| c.is_ascii_digit())
+                && n.bytes().all(|b| b.is_ascii_digit() || b == b'_')
+        }
         (Some(Token::Keyword(_) | Token::Other(_)), Token::Char(ReservedChar::Backslash)) => true,
         _ => false,
     }
-- 
2.43.0


From f9e7ba50c2603a0d028cf1b4405bb3916c880e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 46/69] fix: look for the dot before a keyword through comments

---
 src/js/token.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 8a20d62..d74e13b 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -579,6 +579,17 @@ fn get_line_comment<'a>(
     ret
 }
 
+/// Returns `true` if a word following `v` is the name of a property: it's after a dot, which isn't
+/// the end of a spread operator.
+fn is_property(v: &[Token<'_>]) -> bool {
+    let mut dots = v
+        .iter()
+        .rev()
+        .filter(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
+        .map(|t| t.eq_char(ReservedChar::Dot));
+    dots.next() == Some(true) && dots.next() != Some(true)
+}
+
 fn get_regex<'a>(
     source: &'a str,
     iterator: &mut MyPeekable<'_>,
@@ -616,12 +627,7 @@ fn get_regex<'a>(
                 return None
             }
             t if t.is_operation() || t.is_condition() => break,
-            Token::Keyword(k)
-                if k.precedes_expression()
-                    && !first_useful(&v[..back]).is_some_and(|t| t.eq_char(ReservedChar::Dot)) =>
-            {
-                break
-            }
+            Token::Keyword(k) if k.precedes_expression() && !is_property(&v[..back]) => break,
             _ => return None,
         }
     }
-- 
2.43.0


From 73addad9e68e36ab0abdbdbcf090bf9d3f592538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 47/69] fix: take what follows a spread operator for a regex

---
 src/js/token.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index d74e13b..8f5238f 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -627,6 +627,13 @@ fn get_regex<'a>(
                 return None
             }
             t if t.is_operation() || t.is_condition() => break,
+            Token::Char(ReservedChar::Dot)
+                if v[..back]
+                    .last()
+                    .is_some_and(|t| t.eq_char(ReservedChar::Dot)) =>
+            {
+                break
+            }
             Token::Keyword(k) if k.precedes_expression() && !is_property(&v[..back]) => break,
             _ => return None,
         }
-- 
2.43.0


From 78200180f96a8318271bcc0b0ade93e3955172de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 48/69] fix: don't take ^ and ~ for parts of the words next to
 them

---
 src/js/token.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 8f5238f..03893cb 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -35,6 +35,8 @@ pub enum ReservedChar {
     Pipe,
     Ampersand,
     BackTick,
+    Caret,
+    Tilde,
 }
 
 impl ReservedChar {
@@ -80,6 +82,8 @@ impl fmt::Display for ReservedChar {
                 ReservedChar::Pipe => '|',
                 ReservedChar::Ampersand => '&',
                 ReservedChar::BackTick => '`',
+                ReservedChar::Caret => '^',
+                ReservedChar::Tilde => '~',
             }
         )
     }
@@ -119,6 +123,8 @@ impl TryFrom<char> for ReservedChar {
             '|' => Ok(ReservedChar::Pipe),
             '&' => Ok(ReservedChar::Ampersand),
             '`' => Ok(ReservedChar::BackTick),
+            '^' => Ok(ReservedChar::Caret),
+            '~' => Ok(ReservedChar::Tilde),
             _ => Err("Unknown reserved char"),
         }
     }
@@ -613,7 +619,9 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::QuestionMark)
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
-            | Token::Char(ReservedChar::Ampersand) => break,
+            | Token::Char(ReservedChar::Ampersand)
+            | Token::Char(ReservedChar::Caret)
+            | Token::Char(ReservedChar::Tilde) => break,
             // An increment or a decrement is followed by a division.
             Token::Operation(op @ (Operation::Addition | Operation::Subtract))
                 if v[..back]
-- 
2.43.0


From 494eb402bfabc8f9fd6fe77ccd1f42451e797917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 49/69] fix: don't take a number starting with a dot for a part
 of the word before it

---
 src/js/token.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 03893cb..c80480a 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1023,6 +1023,16 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
             }
         };
         if let Ok(c) = ReservedChar::try_from(c) {
+            if c == ReservedChar::Dot
+                && start < pos
+                && !source[start..pos].starts_with(|c: char| c.is_ascii_digit() || c == '.')
+                && matches!(iterator.peek(), Some((_, '0'..='9')))
+            {
+                // A number starting with a dot, right after a word such as `in`.
+                fill_other(source, &mut v, start, pos);
+                start = pos;
+                continue;
+            }
             if c == ReservedChar::Dot && check_if_number(&mut iterator, start, pos, source) {
                 let mut cont = true;
                 if let Some(x) = iterator.peek() {
-- 
2.43.0


From cdf0f53e54714935adb85586b1537c7b089425ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 50/69] fix: take form feeds for whitespace in CSS

---
 src/css/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index bc187ee..531b44d 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -90,7 +90,7 @@ impl TryFrom<char> for ReservedChar {
             '=' => Ok(ReservedChar::EqualSign),
             ' ' => Ok(ReservedChar::Space),
             '\t' => Ok(ReservedChar::Tab),
-            '\n' | '\r' => Ok(ReservedChar::Backline),
+            '\n' | '\r' | '\u{c}' => Ok(ReservedChar::Backline),
             '>' => Ok(ReservedChar::SuperiorThan),
             '|' => Ok(ReservedChar::Pipe),
             '~' => Ok(ReservedChar::Tilde),
-- 
2.43.0


From ad41910d37b1b4d517372401605000b06d5b3a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 51/69] fix: don't take the declarations of CSS at-rules for
 selectors

---
 src/css/token.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 531b44d..cb4afe6 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -308,6 +308,23 @@ impl Token<'_> {
         matches!(*self, Token::SelectorElement(SelectorElement::Media(_)))
     }
 
+    /// Is it an at-rule which contains rules, and not only declarations?
+    fn is_a_media_with_rules(&self) -> bool {
+        match *self {
+            Token::SelectorElement(SelectorElement::Media(name)) => !matches!(
+                name,
+                "font-face"
+                    | "page"
+                    | "property"
+                    | "counter-style"
+                    | "font-palette-values"
+                    | "position-try"
+                    | "view-transition"
+            ),
+            _ => false,
+        }
+    }
+
     fn is_a_selector_element(&self) -> bool {
         matches!(*self, Token::SelectorElement(_))
     }
@@ -514,7 +531,7 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
             is_in_media = is_in_media
                 || v.last()
                     .unwrap_or(&Token::Char(ReservedChar::Space))
-                    .is_a_media();
+                    .is_a_media_with_rules();
 
             match c {
                 ReservedChar::Backslash => {
-- 
2.43.0


From b097231b65df5dcd5a6acc78b7082fc25f4be868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 52/69] fix: don't keep a space between a CSS licence and an
 escape

---
 src/css/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index cb4afe6..b44a436 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -783,6 +783,7 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                     // this looks like a comment, but it is not
                     // retain the space between `/` and `*`
                 } else if !v[previous_element_index].is_char()
+                    && !v[previous_element_index].is_a_license()
                     && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Backslash)))
                 {
                     // retain the space before a word starting with an escape
-- 
2.43.0


From 26c85a3fe4a51d79538c6d1b332c87c7bed73849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 53/69] fix: take comments after a string for comments in a CSS
 url()

---
 src/css/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index b44a436..78c4cd0 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -551,7 +551,7 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 }
                 ReservedChar::OpenParenthese => {
                     is_in_url = v.last().is_some_and(|t| t.is_url())
-                        && !matches!(iterator.peek(), Some(&(_, '"' | '\'')));
+                        && !source[pos + 1..].trim_start().starts_with(['"', '\'']);
                     v.push(Token::Char(c));
                 }
                 ReservedChar::CloseParenthese => {
-- 
2.43.0


From b054f6fde4fe26f1ae99c562ec738b3e502b3283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 54/69] fix: don't take the end of a comment for code before a
 slash in a template literal

---
 src/js/token.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index c80480a..caaa093 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -796,10 +796,14 @@ fn get_backtick_string<'a>(
         }
         if c == '$' && iterator.peek().map(|(_, c)| c == '{').unwrap_or(false) {
             let mut count = 0;
+            // Where the code which isn't a comment ends.
+            let mut code_end = pos;
 
             loop {
                 if let Some((mut pos, c)) = iterator.next() {
-                    if c == '\\' {
+                    if c.is_whitespace() {
+                        continue;
+                    } else if c == '\\' {
                         // we skip next character
                         iterator.next();
                         continue;
@@ -823,12 +827,14 @@ fn get_backtick_string<'a>(
                             Some((mut pos, '/')) => {
                                 iterator.next();
                                 get_line_comment(source, iterator, &mut pos);
+                                continue;
                             }
                             Some((mut pos, '*')) => {
                                 iterator.next();
                                 get_comment(source, iterator, &mut pos);
+                                continue;
                             }
-                            _ if is_regex_start(&source[*start_pos..pos]) => {
+                            _ if is_regex_start(&source[*start_pos..code_end]) => {
                                 get_regex(source, iterator, &mut pos, &[]);
                             }
                             _ => {}
@@ -841,6 +847,7 @@ fn get_backtick_string<'a>(
                             break;
                         }
                     }
+                    code_end = iterator.peek().map_or(source.len(), |(pos, _)| pos);
                 } else {
                     return Ok(None);
                 }
-- 
2.43.0


From f697b6af8c13146284f204354f9570d8e426c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 55/69] fix: don't end the prelude of a CSS at-rule at a
 semicolon in an URL

---
 src/css/token.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 78c4cd0..525815d 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -595,7 +595,7 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                     }
                     v.push(Token::Char(c));
                 }
-                ReservedChar::SemiColon if is_in_block == 0 => {
+                ReservedChar::SemiColon if is_in_block == 0 && !is_in_url => {
                     is_in_media = false;
                     v.push(Token::Char(c));
                 }
@@ -657,9 +657,14 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
 fn get_selectors(v: &[Token<'_>]) -> Vec<bool> {
     let mut in_selectors = vec![false; v.len()];
     let mut start = 0;
+    let mut paren: usize = 0;
 
     for (i, token) in v.iter().enumerate() {
         match token.get_char() {
+            Some(ReservedChar::OpenParenthese) => paren += 1,
+            Some(ReservedChar::CloseParenthese) => paren = paren.saturating_sub(1),
+            // It's part of an URL.
+            Some(ReservedChar::SemiColon) if paren > 0 => {}
             Some(ReservedChar::OpenCurlyBrace) => {
                 let is_at_rule = v[start..i]
                     .iter()
@@ -669,8 +674,12 @@ fn get_selectors(v: &[Token<'_>]) -> Vec<bool> {
                     });
                 in_selectors[start..i].fill(!is_at_rule);
                 start = i + 1;
+                paren = 0;
+            }
+            Some(ReservedChar::CloseCurlyBrace | ReservedChar::SemiColon) => {
+                start = i + 1;
+                paren = 0;
             }
-            Some(ReservedChar::CloseCurlyBrace | ReservedChar::SemiColon) => start = i + 1,
             _ => {}
         }
     }
-- 
2.43.0


From 583bacbabf8ce75704fca5fa627b87dca0ccf232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 56/69] fix: look past license comments between a variable and
 its value

---
 src/js/utils.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index e9b7aa1..e67c812 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -184,7 +184,10 @@ pub fn get_variable_name_and_value_positions<'a>(
         Token::Other(_) if pos > 0 => {
             let mut pos = pos - 1;
             while pos > 0 {
-                if tokens[pos].is_comment() || tokens[pos].is_white_character() {
+                if tokens[pos].is_comment()
+                    || tokens[pos].is_license()
+                    || tokens[pos].is_white_character()
+                {
                     pos -= 1;
                 } else if tokens[pos] == Token::Char(ReservedChar::Comma)
                     || tokens[pos] == Token::Keyword(Keyword::Let)
@@ -213,7 +216,10 @@ pub fn get_variable_name_and_value_positions<'a>(
                             || token.is_floating_number()
                         {
                             return Some((tmp, Some(tmp2)));
-                        } else if !tokens[tmp2].is_comment() && !tokens[tmp2].is_white_character() {
+                        } else if !token.is_comment()
+                            && !token.is_license()
+                            && !token.is_white_character()
+                        {
                             break;
                         }
                         tmp2 += 1;
@@ -224,7 +230,10 @@ pub fn get_variable_name_and_value_positions<'a>(
                     Some(ReservedChar::Comma) | Some(ReservedChar::SemiColon)
                 ) {
                     return Some((tmp, None));
-                } else if !(tokens[tmp2].is_comment() || tokens[tmp2].is_white_character()) {
+                } else if !(tokens[tmp2].is_comment()
+                    || tokens[tmp2].is_license()
+                    || tokens[tmp2].is_white_character())
+                {
                     break;
                 }
                 tmp2 += 1;
-- 
2.43.0


From b59c9cb50b187e628750d69a13c85cd6b98cd24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 57/69] fix: see an existing array which has license comments
 in its declaration

---
 src/js/utils.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index e67c812..ae496d0 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -461,7 +461,7 @@ pub(crate) fn get_array<'a>(
                     }
                 }
                 ref s => {
-                    looking_for_var = s.is_comment() || s.is_white_character();
+                    looking_for_var = s.is_comment() || s.is_license() || s.is_white_character();
                 }
             }
         } else if looking_for_equal {
@@ -471,7 +471,7 @@ pub(crate) fn get_array<'a>(
                     looking_for_array_start = true;
                 }
                 ref s => {
-                    looking_for_equal = s.is_comment() || s.is_white_character();
+                    looking_for_equal = s.is_comment() || s.is_license() || s.is_white_character();
                 }
             }
         } else if looking_for_array_start {
@@ -481,7 +481,8 @@ pub(crate) fn get_array<'a>(
                     getting_values = true;
                 }
                 ref s => {
-                    looking_for_array_start = s.is_comment() || s.is_white_character();
+                    looking_for_array_start =
+                        s.is_comment() || s.is_license() || s.is_white_character();
                 }
             }
         } else if getting_values {
-- 
2.43.0


From 8aa5369d200a23ca22bf56556e06ba3bd4239043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 58/69] fix: stop writing a regex once the writer failed

---
 src/js/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index caaa093..832aa62 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -416,14 +416,14 @@ impl fmt::Display for Token<'_> {
                 is_global,
                 is_interactive,
             } => {
-                let x = write!(f, "/{regex}/");
+                write!(f, "/{regex}/")?;
                 if is_global {
                     write!(f, "g")?;
                 }
                 if is_interactive {
                     write!(f, "i")?;
                 }
-                x
+                Ok(())
             }
             Token::Condition(x) => write!(f, "{x}"),
             Token::Operation(x) => write!(f, "{x}"),
-- 
2.43.0


From 3b2d69db836b950c404b441b1c4d09e53387a7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 59/69] fix: keep a space after a number which ends with a dot
 before a carriage return

---
 src/js/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 832aa62..7e8ea79 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1043,7 +1043,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
             if c == ReservedChar::Dot && check_if_number(&mut iterator, start, pos, source) {
                 let mut cont = true;
                 if let Some(x) = iterator.peek() {
-                    if !"0123456789,; \t\n<>/*&|{}[]-+=~%^:!".contains(x.1) {
+                    if !"0123456789,; \t\r\n<>/*&|{}[]-+=~%^:!".contains(x.1) {
                         fill_other(source, &mut v, start, pos);
                         start = pos;
                         cont = false;
-- 
2.43.0


From ba122fdc2fa856189abfce1ef9a3fdde35077fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 60/69] fix: don't remove a type which is inside the value of
 another attribute

---
 src/html.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 1df97a9..b8c6c6a 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -22,15 +22,24 @@ fn condense_whitespace(source: &str) -> String {
 
 fn condense(source: &str) -> String {
     let re = Regex::new(r"<(style|script)\s.*?>").unwrap();
-    // Only the default types can be removed.
-    let style_type = Regex::new(r#"\s+type="text/css""#).unwrap();
-    let script_type = Regex::new(r#"\s+type="text/javascript""#).unwrap();
+    // Only the default types can be removed. The values are matched too, so that they aren't
+    // searched for types.
+    let style_type = Regex::new(r#""[^"]*"|'[^']*'|\s+type="text/css""#).unwrap();
+    let script_type = Regex::new(r#""[^"]*"|'[^']*'|\s+type="text/javascript""#).unwrap();
     re.replace_all(source, |caps: &Captures| {
         let type_reg = match &caps[1] {
             "style" => &style_type,
             _ => &script_type,
         };
-        type_reg.replace_all(&caps[0], "").into_owned()
+        type_reg
+            .replace_all(&caps[0], |caps: &Captures| {
+                if caps[0].starts_with(['"', '\'']) {
+                    caps[0].to_owned()
+                } else {
+                    String::new()
+                }
+            })
+            .into_owned()
     })
     .into_owned()
 }
-- 
2.43.0


From 45a426d9cbcd2404013b44d8c2b18cad115ff855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 61/69] fix: space before a CSS word starting with an escape:
 needed after a parenthesis, not after an at-rule name

---
 src/css/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 525815d..2caf6af 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -791,8 +791,11 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                 {
                     // this looks like a comment, but it is not
                     // retain the space between `/` and `*`
-                } else if !v[previous_element_index].is_char()
+                } else if (!v[previous_element_index].is_char()
+                    || v[previous_element_index] == ReservedChar::CloseParenthese
+                    || v[previous_element_index] == ReservedChar::CloseBracket)
                     && !v[previous_element_index].is_a_license()
+                    && !v[previous_element_index].is_a_media()
                     && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Backslash)))
                 {
                     // retain the space before a word starting with an escape
-- 
2.43.0


From d884a314b836247a1b19a7b3b8f0572595174571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:00 +0000
Subject: [PATCH 62/69] fix: a word after the dot following a number's own dot
 is a property (5..in/2/g)

---
 src/js/token.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 7e8ea79..a4db397 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -585,15 +585,16 @@ fn get_line_comment<'a>(
     ret
 }
 
-/// Returns `true` if a word following `v` is the name of a property: it's after a dot, which isn't
-/// the end of a spread operator.
+/// Returns `true` if a word following `v` is the name of a property: it's after a dot (which may
+/// follow the one of a number), but not after a spread operator.
 fn is_property(v: &[Token<'_>]) -> bool {
-    let mut dots = v
+    let dots = v
         .iter()
         .rev()
         .filter(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
-        .map(|t| t.eq_char(ReservedChar::Dot));
-    dots.next() == Some(true) && dots.next() != Some(true)
+        .take_while(|t| t.eq_char(ReservedChar::Dot))
+        .count();
+    dots == 1 || dots == 2
 }
 
 fn get_regex<'a>(
-- 
2.43.0


From ac6c7de6e7fa623de4d66dd48fea0853b730c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 63/69] fix: the last dot of a spread operator doesn't start a
 number (...5 .x lost its space)

---
 src/js/token.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index a4db397..7b24ffd 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1041,7 +1041,20 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                 start = pos;
                 continue;
             }
-            if c == ReservedChar::Dot && check_if_number(&mut iterator, start, pos, source) {
+            // The last dot of a spread operator isn't the one of a number.
+            let is_spread = start == pos
+                && matches!(
+                    v.as_slice(),
+                    [
+                        ..,
+                        Token::Char(ReservedChar::Dot),
+                        Token::Char(ReservedChar::Dot)
+                    ]
+                );
+            if c == ReservedChar::Dot
+                && !is_spread
+                && check_if_number(&mut iterator, start, pos, source)
+            {
                 let mut cont = true;
                 if let Some(x) = iterator.peek() {
                     if !"0123456789,; \t\r\n<>/*&|{}[]-+=~%^:!".contains(x.1) {
-- 
2.43.0


From dce4371f7c02b3de5429e9577ad740f488ebad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 64/69] fix: keep the bytes of a character when the source of a
 JSON reader fails in the middle of it

---
 src/json/read/byte_to_char.rs | 53 +++++++++++++++++------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/src/json/read/byte_to_char.rs b/src/json/read/byte_to_char.rs
index c3df98a..7bbb197 100644
--- a/src/json/read/byte_to_char.rs
+++ b/src/json/read/byte_to_char.rs
@@ -9,6 +9,9 @@ use std::{
 
 pub struct ByteToChar<R> {
     iter: InternalReader<R>,
+    /// Bytes of the character which is being read, kept if the source fails in the middle of it.
+    buf: [u8; 4],
+    len: usize,
 }
 
 impl<R: Read> ByteToChar<R> {
@@ -16,6 +19,8 @@ impl<R: Read> ByteToChar<R> {
     pub fn new(read: R, buffer_size: usize) -> Self {
         ByteToChar {
             iter: InternalReader::new(read, buffer_size),
+            buf: [0; 4],
+            len: 0,
         }
     }
 
@@ -40,36 +45,28 @@ impl<R: Read> Iterator for ByteToChar<R> {
     type Item = Result<char, CharsError>;
 
     fn next(&mut self) -> Option<Result<char, CharsError>> {
-        let first_byte = match self.get_next() {
-            Err(err) => return Some(Err(err)),
-            Ok(item) => item?,
-        };
-
-        let width = utf8_char_width(first_byte);
-        if width == 1 {
-            return Some(Ok(first_byte as char));
-        }
-        if width == 0 {
-            return Some(Err(CharsError::NotUtf8));
+        if self.len == 0 {
+            self.buf[0] = match self.get_next() {
+                Err(err) => return Some(Err(err)),
+                Ok(item) => item?,
+            };
+            self.len = 1;
         }
-        let mut buf = [first_byte, 0, 0, 0];
-        {
-            let mut start = 1;
-            while start < width {
-                let byte = match self.get_next() {
-                    Err(err) => return Some(Err(err)),
-                    Ok(item) => match item {
-                        Some(item) => item,
-                        None => return Some(Err(CharsError::NotUtf8)),
-                    },
-                };
-                buf[start] = byte;
-                start += 1;
-            }
+
+        let width = utf8_char_width(self.buf[0]);
+        while self.len < width {
+            self.buf[self.len] = match self.get_next() {
+                Err(err) => return Some(Err(err)),
+                Ok(Some(item)) => item,
+                Ok(None) => break,
+            };
+            self.len += 1;
         }
-        Some(match from_utf8(&buf[..width]).ok() {
-            Some(s) => Ok(s.chars().next().unwrap()),
-            None => Err(CharsError::NotUtf8),
+        let read = from_utf8(&self.buf[..self.len]);
+        self.len = 0;
+        Some(match read {
+            Ok(s) => Ok(s.chars().next().unwrap()),
+            Err(_) => Err(CharsError::NotUtf8),
         })
     }
 }
-- 
2.43.0


From 232ca559e595d0e888bb76a322ffdeb43f86173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:15 +0000
Subject: [PATCH 65/69] fix: only the opening of an HTML comment is skipped
 when looking for its [

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index b8c6c6a..a8b3b2e 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -89,7 +89,7 @@ fn remove_comments(source: &str) -> String {
     // "build" and "endbuild" should be matched case insensitively.
     let re = Regex::new("<!--(.|\n)*?-->").unwrap();
     re.replace_all(source, |caps: &Captures| {
-        if caps[0].replace("<!--", " ").trim().starts_with("[") {
+        if caps[0].replacen("<!--", " ", 1).trim().starts_with("[") {
             caps[0].to_owned()
         } else {
             String::new()
-- 
2.43.0


From e387d375bb02c29e69c79f20bf48452dacc3f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:44 +0000
Subject: [PATCH 66/69] fix: the case of the name of a math function does not
 matter (CALC(1px + 2px) lost its spaces)

---
 src/css/token.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 2caf6af..b893fb9 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -687,14 +687,13 @@ fn get_selectors(v: &[Token<'_>]) -> Vec<bool> {
 }
 
 /// Functions in which the spaces around `+` and `-` matter.
+const MATH_FUNCTIONS: &[&str] = &["calc", "-webkit-calc", "-moz-calc", "min", "max", "clamp"];
+
 fn is_math_function(token: &Token<'_>) -> bool {
     match *token {
         Token::Other(s)
         | Token::SelectorElement(SelectorElement::Tag(s) | SelectorElement::PseudoClass(s)) => {
-            matches!(
-                s,
-                "calc" | "-webkit-calc" | "-moz-calc" | "min" | "max" | "clamp"
-            )
+            MATH_FUNCTIONS.iter().any(|f| s.eq_ignore_ascii_case(f))
         }
         _ => false,
     }
-- 
2.43.0


From bcc62641e16abb76c57c0b38ba7bd51da42db022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:46 +0000
Subject: [PATCH 67/69] fix: keep the spaces around the operators in the other
 math functions (round, sin, hypot...)

---
 src/css/token.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index b893fb9..0517c3b 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -687,7 +687,12 @@ fn get_selectors(v: &[Token<'_>]) -> Vec<bool> {
 }
 
 /// Functions in which the spaces around `+` and `-` matter.
-const MATH_FUNCTIONS: &[&str] = &["calc", "-webkit-calc", "-moz-calc", "min", "max", "clamp"];
+#[rustfmt::skip]
+const MATH_FUNCTIONS: &[&str] = &[
+    "calc", "-webkit-calc", "-moz-calc", "calc-size", "min", "max", "clamp", "round", "mod", "rem",
+    "abs", "sign", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "pow", "sqrt", "hypot",
+    "log", "exp",
+];
 
 fn is_math_function(token: &Token<'_>) -> bool {
     match *token {
-- 
2.43.0


From fdbd9c8fad482d6e12cdf49eb949f6f59c60bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 68/69] fix: the case of the name of an at-rule does not matter
 (the declarations of @FONT-FACE were read as selectors)

---
 src/css/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 0517c3b..5bd3910 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -312,7 +312,7 @@ impl Token<'_> {
     fn is_a_media_with_rules(&self) -> bool {
         match *self {
             Token::SelectorElement(SelectorElement::Media(name)) => !matches!(
-                name,
+                name.to_ascii_lowercase().as_str(),
                 "font-face"
                     | "page"
                     | "property"
-- 
2.43.0


From fb529f6c8e93bacee767383485f23758e0ef9981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:49 +0000
Subject: [PATCH 69/69] fix: keep the spaces around + in the values of custom
 properties

---
 src/css/token.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 5bd3910..e78b77d 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -727,6 +727,8 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     let mut previous_element_index: Option<usize> = None;
     let mut is_in_calc = false;
     let mut paren = 0;
+    // The value of a custom property can end up in a math function.
+    let mut is_in_custom_property = false;
     // A vector of bools indicating which elements are to be retained.
     let mut b = Vec::with_capacity(v.len());
 
@@ -743,6 +745,22 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                 paren += 1;
             }
         }
+        match v[i] {
+            Token::Other(s) if s.starts_with("--") => {
+                is_in_custom_property |= previous_element_index.is_some_and(|previous| {
+                    v[previous] == ReservedChar::OpenCurlyBrace
+                        || v[previous] == ReservedChar::CloseCurlyBrace
+                        || v[previous] == ReservedChar::SemiColon
+                        || v[previous].is_a_license()
+                });
+            }
+            Token::Char(
+                ReservedChar::OpenCurlyBrace
+                | ReservedChar::CloseCurlyBrace
+                | ReservedChar::SemiColon,
+            ) => is_in_custom_property = false,
+            _ => {}
+        }
 
         let mut retain = true;
         if v[i].is_useless() || v[i].is_comment() {
@@ -803,6 +821,11 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
                     && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Backslash)))
                 {
                     // retain the space before a word starting with an escape
+                } else if is_in_custom_property
+                    && (v[previous_element_index] == ReservedChar::Plus
+                        || v.get(i + 1) == Some(&Token::Char(ReservedChar::Plus)))
+                {
+                    // retain the spaces around `+`
                 } else if is_in_calc {
                     // only the spaces around operators have to be kept
                     let prev = &v[previous_element_index];
-- 
2.43.0

