From e90b23a18e7889454ce0d516758fa72b4e226648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 01/80] fix: json: end strings at the right quote after an
 escape

A backslash escapes exactly the next character. The previous countdown was
armed only by \" and covered four characters, so strings such as "\"" or
"\\" were closed too late and the whitespace of the rest of the document was
treated the wrong way round.
---
 src/json/json_minifier.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index ad9fae2..fb829e8 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -22,26 +22,21 @@ impl JsonMinifier {
 }
 
 #[inline]
-pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, item2: Option<&char>) -> bool {
-    let remove_element =
-        item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1, item2);
+pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, _item2: Option<&char>) -> bool {
+    let remove_element = item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1);
     !remove_element
 }
 
 #[inline]
-fn is_whitespace_outside_string(
-    minifier: &mut JsonMinifier,
-    item1: &char,
-    item2: Option<&char>,
-) -> bool {
+fn is_whitespace_outside_string(minifier: &mut JsonMinifier, item1: &char) -> bool {
     if !minifier.is_string && item1.eq(&'"') {
         minifier.is_string = true;
     } else if minifier.is_string {
-        if item1.eq(&'\\') && item2.eq(&Some(&'"')) {
-            minifier.escaped_quotation = 4;
-        }
         if minifier.escaped_quotation > 0 {
             minifier.escaped_quotation -= 1;
+        } else if item1.eq(&'\\') {
+            // the next character is escaped, whatever it is
+            minifier.escaped_quotation = 1;
         } else if item1.eq(&'"') {
             minifier.is_string = false;
         }
-- 
2.43.0


From b5e0658b422302b2e467f22eef4ba49fa6d6896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 02/80] fix: json: keep DEL characters in strings

---
 src/json/json_minifier.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/json/json_minifier.rs b/src/json/json_minifier.rs
index fb829e8..81e711b 100644
--- a/src/json/json_minifier.rs
+++ b/src/json/json_minifier.rs
@@ -23,7 +23,9 @@ impl JsonMinifier {
 
 #[inline]
 pub fn keep_element(minifier: &mut JsonMinifier, item1: &char, _item2: Option<&char>) -> bool {
-    let remove_element = item1.is_ascii_control() || is_whitespace_outside_string(minifier, item1);
+    // DEL is an ordinary character in JSON: only C0 control characters are forbidden in strings.
+    let is_control = item1.is_ascii_control() && *item1 != '\u{7f}';
+    let remove_element = is_control || is_whitespace_outside_string(minifier, item1);
     !remove_element
 }
 
-- 
2.43.0


From 828c0958b2c7bfa1b2c86318246710b65fb99b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 03/80] fix: json: do not take a short read for the end of the
 stream

---
 src/json/read/internal_buffer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/json/read/internal_buffer.rs b/src/json/read/internal_buffer.rs
index 90eebcd..e1411b1 100644
--- a/src/json/read/internal_buffer.rs
+++ b/src/json/read/internal_buffer.rs
@@ -6,7 +6,6 @@ const ARRAY_DEFAULT: u8 = 0;
 pub struct Buffer {
     buffer: Vec<u8>,
     read_pos: usize,
-    buffer_size: usize,
     data_size: usize,
 }
 
@@ -15,7 +14,6 @@ impl Buffer {
         Buffer {
             buffer: vec![ARRAY_DEFAULT; size],
             read_pos: 0,
-            buffer_size: size,
             data_size: 0,
         }
     }
@@ -39,6 +37,7 @@ impl Buffer {
     }
 
     pub fn cont(&self) -> bool {
-        self.data_size == self.buffer_size
+        // A reader is free to return less than what was asked for: only an empty read is the end.
+        self.data_size > 0
     }
 }
-- 
2.43.0


From a1263da154c1ce33774811d3e180b5e046144b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 04/80] fix: json: keep the bytes of a character split over two
 buffers

---
 src/json/read/json_read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 338db13..fc70950 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -79,6 +79,12 @@ where
             return Ok(0);
         }
 
+        // bytes of the previous character which did not fit into the previous buffer
+        self.add_char_to_buffer(buf, &mut buf_pos);
+        if buf_pos >= buf.len() {
+            return Ok(buf_pos);
+        }
+
         if !self.initialized {
             self.iter = Some(ByteToChar::new(self.read.take().unwrap(), buf.len())?);
             self.item1 = self.get_next()?;
-- 
2.43.0


From 5a76f6d327790d9c7928a7c2f278ffea37bc7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 05/80] fix: json: retry interrupted reads

---
 src/json/read/internal_reader.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/json/read/internal_reader.rs b/src/json/read/internal_reader.rs
index 45f178f..08131fa 100644
--- a/src/json/read/internal_reader.rs
+++ b/src/json/read/internal_reader.rs
@@ -3,7 +3,7 @@
 use super::internal_buffer::Buffer;
 use std::{
     fmt,
-    io::{Error, Read},
+    io::{Error, ErrorKind, Read},
 };
 
 pub struct InternalReader<R> {
@@ -24,7 +24,12 @@ impl<R: Read> InternalReader<R> {
     }
 
     fn read_data(read: &mut R, buffer: &mut Buffer) -> Result<(), Error> {
-        let size = read.read(buffer.as_mut())?;
+        let size = loop {
+            match read.read(buffer.as_mut()) {
+                Err(err) if err.kind() == ErrorKind::Interrupted => continue,
+                res => break res?,
+            }
+        };
         buffer.update_metadata(size);
         Ok(())
     }
-- 
2.43.0


From fa8d4f0cffa136028f13d1ee493876b701111119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 06/80] fix: json: report I/O errors of the source as they are

---
 src/json/read/json_read.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index fc70950..24fb68f 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -106,7 +106,10 @@ where
 }
 
 impl From<CharsError> for Error {
-    fn from(_: CharsError) -> Self {
-        Error::from(ErrorKind::InvalidData)
+    fn from(err: CharsError) -> Self {
+        match err {
+            CharsError::NotUtf8 => Error::from(ErrorKind::InvalidData),
+            CharsError::Other(err) => err,
+        }
     }
 }
-- 
2.43.0


From acbe8904412b1a3f452528f91d2f593ea626753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 07/80] fix: json: do not panic when reading on after a failed
 first read

---
 src/json/read/json_read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/json/read/json_read.rs b/src/json/read/json_read.rs
index 24fb68f..f59c9e4 100644
--- a/src/json/read/json_read.rs
+++ b/src/json/read/json_read.rs
@@ -86,9 +86,10 @@ where
         }
 
         if !self.initialized {
+            // Set first: the source is gone if this fails, a later call must not take it again.
+            self.initialized = true;
             self.iter = Some(ByteToChar::new(self.read.take().unwrap(), buf.len())?);
             self.item1 = self.get_next()?;
-            self.initialized = true;
         }
 
         while let Some(item) = self.item1.take() {
-- 
2.43.0


From 07e36e25aabf15d5334e163de7eb3b93201a31aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 08/80] fix: js: drop a line comment that ends the source

---
 src/js/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 1241141..8400c0e 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -557,7 +557,10 @@ fn get_line_comment<'a>(
             }
         }
     }
-    None
+    // The source ends with this comment.
+    let ret = Some(Token::Comment(&source[*start_pos..]));
+    *start_pos = source.len();
+    ret
 }
 
 fn get_regex<'a>(
-- 
2.43.0


From 812cbd08b035c699fc00d8ecd56a235cb0085578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 09/80] fix: js: do not panic on an unclosed comment that ends
 with a multi-byte character

---
 src/js/token.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 8400c0e..90dbe5b 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -650,13 +650,12 @@ fn get_comment<'a>(
         Token::Comment
     };
 
-    let mut current_pos = *start_pos;
     for (pos, c) in iterator {
-        current_pos = pos;
         if let Ok(c) = ReservedChar::try_from(c) {
             if c == ReservedChar::Slash && prev == ReservedChar::Star {
-                current_pos -= 2;
-                break;
+                let ret = builder(&source[*start_pos..pos - 1]);
+                *start_pos = pos;
+                return ret;
             }
             prev = c;
         } else {
@@ -664,9 +663,8 @@ fn get_comment<'a>(
         }
     }
     // Unclosed comment so returning it anyway...
-    current_pos = std::cmp::min(current_pos, source.len() - 1);
-    let ret = builder(&source[*start_pos..=current_pos]);
-    *start_pos = current_pos + 2;
+    let ret = builder(&source[*start_pos..]);
+    *start_pos = source.len();
     ret
 }
 
-- 
2.43.0


From c1a9ef1fb82d2b6fc36a5b44134d1db102b39c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 10/80] fix: js: keep the spelling of numbers with leading
 zeros and do not take names for numbers

---
 src/js/token.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 90dbe5b..b7169bf 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -763,13 +763,20 @@ fn first_useful<'a>(v: &'a [Token<'a>]) -> Option<&'a Token<'a>> {
     None
 }
 
+// Only returns the number if it is written the way it will be displayed.
+fn get_number(s: &str) -> Option<usize> {
+    usize::from_str(s).ok().filter(|n| n.to_string() == s)
+}
+
 fn fill_other<'a>(source: &'a str, v: &mut Vec<Token<'a>>, start: usize, pos: usize) {
     if start < pos {
         if let Ok(w) = Keyword::try_from(&source[start..pos]) {
             v.push(Token::Keyword(w));
-        } else if let Ok(n) = usize::from_str(&source[start..pos]) {
+        } else if let Some(n) = get_number(&source[start..pos]) {
             v.push(Token::Number(n))
-        } else if f64::from_str(&source[start..pos]).is_ok() {
+        } else if source[start..pos].starts_with(|c: char| c == '.' || c.is_ascii_digit())
+            && f64::from_str(&source[start..pos]).is_ok()
+        {
             v.push(Token::FloatingNumber(&source[start..pos]))
         } else {
             v.push(Token::Other(&source[start..pos]));
-- 
2.43.0


From 2755e45e202ce9d0b94ed41081180eb5ba07aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 11/80] fix: js: recognise regular expressions after keywords
 such as return

---
 src/js/token.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index b7169bf..965ecab 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -163,6 +163,22 @@ impl Keyword {
     fn requires_before(&self) -> bool {
         matches!(*self, Keyword::In | Keyword::InstanceOf)
     }
+
+    fn allows_regex_after(&self) -> bool {
+        matches!(
+            *self,
+            Keyword::Case
+                | Keyword::Default
+                | Keyword::Do
+                | Keyword::Else
+                | Keyword::In
+                | Keyword::InstanceOf
+                | Keyword::New
+                | Keyword::Return
+                | Keyword::Throw
+                | Keyword::Typeof
+        )
+    }
 }
 
 impl fmt::Display for Keyword {
@@ -588,6 +604,11 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
             t if t.is_operation() || t.is_condition() => break,
+            t if t.get_keyword().is_some_and(|k| k.allows_regex_after())
+                && !v[..back].last().is_some_and(|t| t.eq_char(ReservedChar::Dot)) =>
+            {
+                break
+            }
             _ => return None,
         }
     }
-- 
2.43.0


From 961920dcfbc2e81f4fb43e8c9eb1d42bbddf79c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 12/80] fix: js: do not end a regular expression at a slash
 inside a character class

---
 src/js/token.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 965ecab..52fcca7 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -613,6 +613,7 @@ fn get_regex<'a>(
         }
     }
     iterator.start_save();
+    let mut in_class = false;
     while let Some((pos, c)) = iterator.next() {
         if c == '\\' {
             // we skip next character
@@ -620,7 +621,11 @@ fn get_regex<'a>(
             continue;
         }
         if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::Slash {
+            if c == ReservedChar::OpenBracket {
+                in_class = true;
+            } else if c == ReservedChar::CloseBracket {
+                in_class = false;
+            } else if c == ReservedChar::Slash && !in_class {
                 let mut is_global = false;
                 let mut is_interactive = false;
                 let mut add = 0;
-- 
2.43.0


From b88931b3a3675984bc29fdd95dfded8e290311ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 13/80] fix: js: a slash after ++ or -- is a division

---
 src/js/token.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 52fcca7..305e495 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -603,6 +603,12 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
             | Token::Char(ReservedChar::Ampersand) => break,
+            // This is a division after an increment or a decrement.
+            Token::Operation(o @ (Operation::Addition | Operation::Subtract))
+                if v[..back].last().is_some_and(|t| t.eq_operation(*o)) =>
+            {
+                return None
+            }
             t if t.is_operation() || t.is_condition() => break,
             t if t.get_keyword().is_some_and(|k| k.allows_regex_after())
                 && !v[..back].last().is_some_and(|t| t.eq_char(ReservedChar::Dot)) =>
-- 
2.43.0


From 9b8495b603ff8b91a64a9e7d33af8f101f00d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 14/80] fix: js: see a property name through the space after
 its dot

---
 src/js/token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 305e495..cbcc0c5 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -611,7 +611,10 @@ fn get_regex<'a>(
             }
             t if t.is_operation() || t.is_condition() => break,
             t if t.get_keyword().is_some_and(|k| k.allows_regex_after())
-                && !v[..back].last().is_some_and(|t| t.eq_char(ReservedChar::Dot)) =>
+                && !v[..back]
+                    .iter()
+                    .rfind(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
+                    .is_some_and(|t| t.eq_char(ReservedChar::Dot)) =>
             {
                 break
             }
-- 
2.43.0


From b4eeb1303bb5949ee5cbfc732703d6f03f26e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 15/80] fix: js: keep the space that separates operators such
 as + and ++

---
 src/js/utils.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index fd47c28..6be431c 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -251,6 +251,35 @@ fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<Token<'a>> {
     None
 }
 
+/// Returns true if `next` would be read differently if it directly followed `token`.
+fn need_separation(token: &Token<'_>, next: &Token<'_>) -> bool {
+    match token {
+        // `a + ++b`, `a - -b`
+        Token::Operation(Operation::Addition | Operation::Subtract) => next == token,
+        // `a / /b/`
+        Token::Operation(Operation::Divide) => next.is_regex() || next.is_license(),
+        // `1 .toString()`
+        Token::Number(_) => next.eq_char(ReservedChar::Dot),
+        // `^` and `~` are part of the token: `a ^1 .toString()`
+        Token::Other(s) => {
+            next.eq_char(ReservedChar::Dot)
+                && s.rsplit(['^', '~'])
+                    .next()
+                    .is_some_and(|s| s.starts_with(|c: char| c.is_ascii_digit()))
+        }
+        _ => false,
+    }
+}
+
+/// Pushes `token`. If tokens were removed right before it, it might need a space to remain
+/// separated from the previous token.
+fn push_token<'a>(v: &mut Vec<Token<'a>>, token: Token<'a>, is_separated: bool) {
+    if is_separated && v.last().is_some_and(|last| need_separation(last, &token)) {
+        v.push(Token::Char(ReservedChar::Space));
+    }
+    v.push(token);
+}
+
 /// Convenient function used to clean useless tokens in a token list.
 ///
 /// # Example
@@ -271,6 +300,7 @@ pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
     let mut it = tokens.0.into_iter();
 
     loop {
+        let remaining = it.len();
         let token = get_next(&mut it);
         if token.is_none() {
             break;
@@ -292,7 +322,7 @@ pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
             // }
             // continue;
         }
-        v.push(token);
+        push_token(&mut v, token, remaining - it.len() > 1);
     }
     v.into()
 }
@@ -350,6 +380,7 @@ pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f:
     let mut it = tokens.0.into_iter();
 
     loop {
+        let remaining = it.len();
         let token = get_next_except(&mut it, &f);
         if token.is_none() {
             break;
@@ -376,7 +407,7 @@ pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f:
             }
             continue;
         }
-        v.push(token);
+        push_token(&mut v, token, remaining - it.len() > 1);
     }
     v.into()
 }
-- 
2.43.0


From 0b61d1c95200929827467ffc22b48cc330cc4a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 16/80] fix: js: recognise regular expressions after ^, ~ and
 ...

---
 src/js/token.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index cbcc0c5..51abc6c 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -602,7 +602,9 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::QuestionMark)
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
-            | Token::Char(ReservedChar::Ampersand) => break,
+            | Token::Char(ReservedChar::Ampersand)
+            | Token::Char(ReservedChar::Dot) => break,
+            t if t.get_other().is_some_and(|s| s.ends_with(['^', '~'])) => break,
             // This is a division after an increment or a decrement.
             Token::Operation(o @ (Operation::Addition | Operation::Subtract))
                 if v[..back].last().is_some_and(|t| t.eq_operation(*o)) =>
@@ -1011,7 +1013,9 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                     if iterator.peek().is_some()
                         && iterator.peek().unwrap().1 != '/'
                         && iterator.peek().unwrap().1 != '*'
-                        && !first_useful(&v).unwrap_or(&Token::String("")).is_other() =>
+                        && !first_useful(&v)
+                            .and_then(|t| t.get_other())
+                            .is_some_and(|s| !s.ends_with(['^', '~'])) =>
                 {
                     if let Some(r) = get_regex(source, &mut iterator, &mut pos, &v) {
                         v.push(r);
-- 
2.43.0


From 96601557b6e8803f27005567474ac2e33ade8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 17/80] fix: js: a slash after an increment and a plus starts a
 regular expression

---
 src/js/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 51abc6c..d374ab2 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -607,7 +607,7 @@ fn get_regex<'a>(
             t if t.get_other().is_some_and(|s| s.ends_with(['^', '~'])) => break,
             // This is a division after an increment or a decrement.
             Token::Operation(o @ (Operation::Addition | Operation::Subtract))
-                if v[..back].last().is_some_and(|t| t.eq_operation(*o)) =>
+                if v[..back].iter().rev().take_while(|t| t.eq_operation(*o)).count() % 2 == 1 =>
             {
                 return None
             }
-- 
2.43.0


From a3d86d2100837a2519b48c0c37c3a13959a30b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 18/80] fix: js: keep the space between a spread integer and a
 dot

---
 src/js/utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 6be431c..ef5f65c 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -260,6 +260,12 @@ fn need_separation(token: &Token<'_>, next: &Token<'_>) -> bool {
         Token::Operation(Operation::Divide) => next.is_regex() || next.is_license(),
         // `1 .toString()`
         Token::Number(_) => next.eq_char(ReservedChar::Dot),
+        // `...1 .toString()`
+        Token::FloatingNumber(s) => {
+            next.eq_char(ReservedChar::Dot)
+                && s.strip_prefix('.')
+                    .is_some_and(|s| s.bytes().all(|b| b.is_ascii_digit()))
+        }
         // `^` and `~` are part of the token: `a ^1 .toString()`
         Token::Other(s) => {
             next.eq_char(ReservedChar::Dot)
-- 
2.43.0


From c1e9bab57faf0d59599d2e1d7dee18268dc6be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 19/80] fix: js: keep the space before an in that is followed
 by ~

---
 src/js/token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index d374ab2..61fc184 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -553,6 +553,10 @@ impl Token<'_> {
     fn requires_before(&self) -> bool {
         match *self {
             Token::Keyword(k) => k.requires_before(),
+            // `~` is part of the token: `0 in ~x`
+            Token::Other(s) => s
+                .split_once('~')
+                .is_some_and(|(s, _)| Keyword::try_from(s).is_ok_and(|k| k.requires_before())),
             _ => false,
         }
     }
-- 
2.43.0


From 6ea49ed5e57d2566a2328eef4c45b2e8e2dc6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 20/80] fix: js: do not turn a string into a directive

---
 src/js/utils.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index ef5f65c..855fcb8 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -251,6 +251,15 @@ fn get_next<'a>(it: &mut IntoIter<Token<'a>>) -> Option<Token<'a>> {
     None
 }
 
+/// Returns true if the first useful token is a string. Removing the semicolon before it would
+/// turn it into a directive.
+fn starts_with_string(it: &IntoIter<Token<'_>>) -> bool {
+    it.as_slice()
+        .iter()
+        .find(|t| !t.is_comment() && !t.is_license() && !t.is_white_character())
+        .is_some_and(|t| t.is_string())
+}
+
 /// Returns true if `next` would be read differently if it directly followed `token`.
 fn need_separation(token: &Token<'_>, next: &Token<'_>) -> bool {
     match token {
@@ -315,7 +324,7 @@ pub fn clean_tokens(tokens: Tokens<'_>) -> Tokens<'_> {
         if token.is_white_character() {
             continue;
         } else if token.get_char() == Some(ReservedChar::SemiColon) {
-            if v.is_empty() {
+            if v.is_empty() && !starts_with_string(&it) {
                 continue;
             }
             // FIXME: `for` and `while` loops can have their block replaced by a `;`. So as long
@@ -397,7 +406,7 @@ pub fn clean_tokens_except<'a, F: Fn(&Token<'a>) -> bool>(tokens: Tokens<'a>, f:
                 continue;
             }
         } else if token.get_char() == Some(ReservedChar::SemiColon) {
-            if v.is_empty() {
+            if v.is_empty() && !starts_with_string(&it) {
                 if !f(&token) {
                     v.push(token);
                 }
-- 
2.43.0


From d401499af364a94b02bb2f0879e5ca173e6b4f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 21/80] fix: js: a keyword after ... is not a property name

---
 src/js/token.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 61fc184..6fc1330 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -583,6 +583,16 @@ fn get_line_comment<'a>(
     ret
 }
 
+// Returns true if the tokens end with a dot which isn't the last one of a `...`.
+fn is_property_name(v: &[Token<'_>]) -> bool {
+    let mut useful = v
+        .iter()
+        .rev()
+        .filter(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
+        .map(|t| t.eq_char(ReservedChar::Dot));
+    useful.next() == Some(true) && useful.next() != Some(true)
+}
+
 fn get_regex<'a>(
     source: &'a str,
     iterator: &mut MyPeekable<'_>,
@@ -617,10 +627,7 @@ fn get_regex<'a>(
             }
             t if t.is_operation() || t.is_condition() => break,
             t if t.get_keyword().is_some_and(|k| k.allows_regex_after())
-                && !v[..back]
-                    .iter()
-                    .rfind(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
-                    .is_some_and(|t| t.eq_char(ReservedChar::Dot)) =>
+                && !is_property_name(&v[..back]) =>
             {
                 break
             }
-- 
2.43.0


From 1373ebec9f290fc1f43305a2d572b1828c7fd02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 22/80] fix: js: regular expressions only follow the dots of a
 spread and operators glued to ^ or ~

---
 src/js/token.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 6fc1330..13a1ced 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -593,6 +593,13 @@ fn is_property_name(v: &[Token<'_>]) -> bool {
     useful.next() == Some(true) && useful.next() != Some(true)
 }
 
+// `^` and `~` are part of the token, like in `~typeof /x/`.
+fn other_allows_regex_after(s: &str) -> bool {
+    s.rsplit_once(['^', '~']).is_some_and(|(_, s)| {
+        s.is_empty() || Keyword::try_from(s).is_ok_and(|k| k.allows_regex_after())
+    })
+}
+
 fn get_regex<'a>(
     source: &'a str,
     iterator: &mut MyPeekable<'_>,
@@ -616,9 +623,14 @@ fn get_regex<'a>(
             | Token::Char(ReservedChar::QuestionMark)
             | Token::Char(ReservedChar::Backline)
             | Token::Char(ReservedChar::Pipe)
-            | Token::Char(ReservedChar::Ampersand)
-            | Token::Char(ReservedChar::Dot) => break,
-            t if t.get_other().is_some_and(|s| s.ends_with(['^', '~'])) => break,
+            | Token::Char(ReservedChar::Ampersand) => break,
+            Token::Char(ReservedChar::Dot)
+                if v[..back].len() > 1
+                    && v[..back].iter().rev().take(2).all(|t| t.eq_char(ReservedChar::Dot)) =>
+            {
+                break
+            }
+            t if t.get_other().is_some_and(other_allows_regex_after) => break,
             // This is a division after an increment or a decrement.
             Token::Operation(o @ (Operation::Addition | Operation::Subtract))
                 if v[..back].iter().rev().take_while(|t| t.eq_operation(*o)).count() % 2 == 1 =>
@@ -1026,7 +1038,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         && iterator.peek().unwrap().1 != '*'
                         && !first_useful(&v)
                             .and_then(|t| t.get_other())
-                            .is_some_and(|s| !s.ends_with(['^', '~'])) =>
+                            .is_some_and(|s| !other_allows_regex_after(s)) =>
                 {
                     if let Some(r) = get_regex(source, &mut iterator, &mut pos, &v) {
                         v.push(r);
-- 
2.43.0


From a6d60b28149a0f67b235e6d099c2aa398d2f576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 23/80] fix: js: separate a created variable from the keyword
 before it

---
 src/js/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 13a1ced..67b0c8a 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -544,6 +544,7 @@ impl Token<'_> {
             Token::Keyword(_)
             | Token::Other(_)
             | Token::CreatedVarDecl(_)
+            | Token::CreatedVar(_)
             | Token::Number(_)
             | Token::FloatingNumber(_) => Some(' '),
             _ => None,
-- 
2.43.0


From 392f1ea643380e022f0bfe44c7d6da4d1d451ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 24/80] fix: js: do not aggregate template literals

---
 src/js/tools.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index d264c7c..0c8fe19 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -258,7 +258,7 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
 
         for pos in 0..tokens.len() {
             let token = &tokens[pos];
-            if let Some(str_token) = token.get_string() {
+            if let Some(str_token) = token.get_string().filter(|s| !s.starts_with('`')) {
                 if let Some((var_pos, string_pos)) = values.get(&str_token) {
                     if pos != *string_pos {
                         to_replace.push((pos, *var_pos));
@@ -426,7 +426,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                 continue;
             }
             let token = &tokens[pos];
-            if let Some(str_token) = token.get_string() {
+            if let Some(str_token) = token.get_string().filter(|s| !s.starts_with('`')) {
                 if !filter(&tokens, pos) {
                     continue;
                 }
-- 
2.43.0


From 9bbb4447514b9b2bb46ab895d5a4a1184fb8eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 25/80] fix: js: do not reuse a name of the program for a
 created variable

---
 src/js/tools.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 0c8fe19..a4f1745 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -236,6 +236,19 @@ fn get_variables_name<'a>(
     (ret, variables)
 }
 
+/// Returns all the names starting with `r_`, declared or not, including those used inside template
+/// literals.
+fn get_used_names<'a>(tokens: &'a Tokens<'_>) -> impl Iterator<Item = &'a str> {
+    tokens
+        .iter()
+        .filter_map(|t| {
+            t.get_other()
+                .or_else(|| t.get_string().filter(|s| s.starts_with('`')))
+        })
+        .flat_map(|s| s.split(|c: char| !c.is_alphanumeric() && c != '_' && c != '$'))
+        .filter(|s| s.starts_with("r_"))
+}
+
 fn aggregate_strings_inner<'a, 'b: 'a>(
     mut tokens: Tokens<'a>,
     separation_token: Option<Token<'b>>,
@@ -250,7 +263,8 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
         let mut var_gen = VariableNameGenerator::new(Some("r_"), 2);
         let mut next_name = var_gen.to_string();
 
-        let (all_variables, values) = get_variables_name(&tokens);
+        let (mut all_variables, values) = get_variables_name(&tokens);
+        all_variables.extend(get_used_names(&tokens));
         while all_variables.contains(&next_name.as_str()) {
             var_gen.next();
             next_name = var_gen.to_string();
-- 
2.43.0


From ace7259c060c44b39332cd321c60ccb3b575ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 26/80] fix: js: only reuse a variable whose value is the
 string and nothing more

---
 src/js/tools.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index a4f1745..db70fb0 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -205,6 +205,15 @@ impl fmt::Display for Minified<'_> {
     }
 }
 
+/// Returns true if the token is the whole value of its variable, unlike in `var x = "a" + y;`.
+fn is_whole_value(tokens: &Tokens<'_>, pos: usize) -> bool {
+    tokens[pos + 1..]
+        .iter()
+        .find(|t| !t.is_comment() && !t.is_license() && !t.is_white_character())
+        .and_then(|t| t.get_char())
+        .is_some_and(|c| c == ReservedChar::Comma || c == ReservedChar::SemiColon)
+}
+
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
 fn get_variables_name<'a>(
     tokens: &'a Tokens<'a>,
@@ -227,7 +236,9 @@ fn get_variables_name<'a>(
                     ret.insert(var_name);
                 }
                 if let Some(s) = tokens[value_pos].get_string() {
-                    variables.insert(s, (var_pos, value_pos));
+                    if is_whole_value(tokens, value_pos) {
+                        variables.insert(s, (var_pos, value_pos));
+                    }
                 }
             }
         }
-- 
2.43.0


From d8876d260992032f53424cf5fe7cfc33827e5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 27/80] fix: js: do not use a variable before its declaration

---
 src/js/tools.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index db70fb0..0e1be63 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -237,7 +237,7 @@ fn get_variables_name<'a>(
                 }
                 if let Some(s) = tokens[value_pos].get_string() {
                     if is_whole_value(tokens, value_pos) {
-                        variables.insert(s, (var_pos, value_pos));
+                        variables.entry(s).or_insert((var_pos, value_pos));
                     }
                 }
             }
@@ -284,7 +284,10 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
         for pos in 0..tokens.len() {
             let token = &tokens[pos];
             if let Some(str_token) = token.get_string().filter(|s| !s.starts_with('`')) {
-                if let Some((var_pos, string_pos)) = values.get(&str_token) {
+                if let Some((var_pos, string_pos)) = values
+                    .get(&str_token)
+                    .filter(|(_, string_pos)| pos >= *string_pos)
+                {
                     if pos != *string_pos {
                         to_replace.push((pos, *var_pos));
                     }
-- 
2.43.0


From e0621474c5f5a28ff859335a236d81589cea07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:01 +0000
Subject: [PATCH 28/80] fix: js: do not use a variable out of its scope

---
 src/js/tools.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 0e1be63..290b65f 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -214,6 +214,22 @@ fn is_whole_value(tokens: &Tokens<'_>, pos: usize) -> bool {
         .is_some_and(|c| c == ReservedChar::Comma || c == ReservedChar::SemiColon)
 }
 
+fn update_depth(depth: &mut usize, token: &Token<'_>) {
+    match token.get_char() {
+        Some(
+            ReservedChar::OpenCurlyBrace
+            | ReservedChar::OpenParenthese
+            | ReservedChar::OpenBracket,
+        ) => *depth += 1,
+        Some(
+            ReservedChar::CloseCurlyBrace
+            | ReservedChar::CloseParenthese
+            | ReservedChar::CloseBracket,
+        ) => *depth = depth.saturating_sub(1),
+        _ => {}
+    }
+}
+
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
 fn get_variables_name<'a>(
     tokens: &'a Tokens<'a>,
@@ -221,12 +237,17 @@ fn get_variables_name<'a>(
     let mut ret = HashSet::new();
     let mut variables = HashMap::new();
     let mut pos = 0;
+    let mut depth = 0usize;
 
     while pos < tokens.len() {
+        update_depth(&mut depth, &tokens[pos]);
         if tokens[pos].is_keyword() || tokens[pos].is_other() {
             if let Some((var_pos, Some(value_pos))) =
                 get_variable_name_and_value_positions(tokens, pos)
             {
+                for token in &tokens[pos + 1..=value_pos] {
+                    update_depth(&mut depth, token);
+                }
                 pos = value_pos;
                 if let Some(var_name) = tokens[var_pos].get_other() {
                     if !var_name.starts_with("r_") {
@@ -236,7 +257,7 @@ fn get_variables_name<'a>(
                     ret.insert(var_name);
                 }
                 if let Some(s) = tokens[value_pos].get_string() {
-                    if is_whole_value(tokens, value_pos) {
+                    if depth == 0 && is_whole_value(tokens, value_pos) {
                         variables.entry(s).or_insert((var_pos, value_pos));
                     }
                 }
-- 
2.43.0


From 45def1caaebdf24301f18fd48db89a860d3799c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 29/80] fix: js: quote the strings of the array with a quote
 they do not contain

---
 src/js/tools.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 290b65f..f926b95 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -438,6 +438,21 @@ pub fn aggregate_strings_with_separation<'a, 'b: 'a>(
     aggregate_strings_inner(tokens, Some(separation_token))
 }
 
+/// Returns true if there is a double quote which isn't escaped.
+fn has_double_quote(s: &str) -> bool {
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                chars.next();
+            }
+            '"' => return true,
+            _ => {}
+        }
+    }
+    false
+}
+
 fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> bool>(
     mut tokens: Tokens<'a>,
     array_name: &str,
@@ -542,7 +557,9 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             if !create_array_entry {
                 continue;
             }
-            to_insert.push((end_bracket, Token::CreatedVar(format!("\"{}\"", *s))));
+            // The string has no quote of one kind at least which isn't escaped.
+            let quote = if has_double_quote(s) { '\'' } else { '"' };
+            to_insert.push((end_bracket, Token::CreatedVar(format!("{quote}{s}{quote}"))));
             if iter.peek().is_none() && current_array_values.is_empty() {
                 continue;
             }
-- 
2.43.0


From ced5599ffb2b7e59d673c7d57462ce0b9f4b05ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 30/80] fix: js: extend an array that has a trailing comma

---
 src/js/tools.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index f926b95..8ca720a 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -547,6 +547,9 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             end_bracket = 2;
         }
 
+        let ends_with_value = current_array_values
+            .last()
+            .is_some_and(|pos| !tokens[*pos].eq_char(ReservedChar::Comma));
         let mut iter = validated.iter().peekable();
         while let Some((array_pos, s)) = iter.next() {
             let (_, ref tokens_pos, create_array_entry) = strs[*s];
@@ -560,7 +563,8 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             // The string has no quote of one kind at least which isn't escaped.
             let quote = if has_double_quote(s) { '\'' } else { '"' };
             to_insert.push((end_bracket, Token::CreatedVar(format!("{quote}{s}{quote}"))));
-            if iter.peek().is_none() && current_array_values.is_empty() {
+            let is_first = !iter.peek().is_some_and(|(_, next)| strs[**next].2);
+            if is_first && !ends_with_value {
                 continue;
             }
             to_insert.push((end_bracket, Token::Char(ReservedChar::Comma)));
-- 
2.43.0


From d740d0943d172ac8e5b4ef0fc0d0ac9dccb2c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 31/80] fix: js: extend an array declared with const

---
 src/js/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 855fcb8..54830ed 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -498,7 +498,9 @@ pub(crate) fn get_array<'a>(
             }
         } else {
             match tokens[pos] {
-                Token::Keyword(Keyword::Let) | Token::Keyword(Keyword::Var) => {
+                Token::Keyword(Keyword::Let)
+                | Token::Keyword(Keyword::Var)
+                | Token::Keyword(Keyword::Const) => {
                     looking_for_var = true;
                 }
                 _ => {}
-- 
2.43.0


From c584c5b28c56dc304b3a42e1a33de764dd089bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 32/80] fix: js: a keyword after a number and a dot is a
 property name

---
 src/js/token.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 67b0c8a..7cda0bd 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -586,12 +586,14 @@ fn get_line_comment<'a>(
 
 // Returns true if the tokens end with a dot which isn't the last one of a `...`.
 fn is_property_name(v: &[Token<'_>]) -> bool {
-    let mut useful = v
+    let dots = v
         .iter()
         .rev()
         .filter(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
-        .map(|t| t.eq_char(ReservedChar::Dot));
-    useful.next() == Some(true) && useful.next() != Some(true)
+        .take_while(|t| t.eq_char(ReservedChar::Dot))
+        .count();
+    // There are two dots in `0..name`.
+    dots == 1 || dots == 2
 }
 
 // `^` and `~` are part of the token, like in `~typeof /x/`.
-- 
2.43.0


From af77b7d0f09b7ca68f19cf35f1ddd54a609e9dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 33/80] fix: js: do not take the value of a later variable for
 the one looked up

---
 src/js/utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 54830ed..fd38ecf 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -213,18 +213,22 @@ pub fn get_variable_name_and_value_positions<'a>(
                             || token.is_floating_number()
                         {
                             return Some((tmp, Some(tmp2)));
-                        } else if !tokens[tmp2].is_comment() && !tokens[tmp2].is_white_character() {
+                        } else if !tokens[tmp2].is_comment()
+                            && !tokens[tmp2].is_license()
+                            && !tokens[tmp2].is_white_character()
+                        {
                             break;
                         }
                         tmp2 += 1;
                     }
-                    break;
+                    return Some((tmp, None));
                 } else if matches!(
                     tokens[tmp2].get_char(),
                     Some(ReservedChar::Comma) | Some(ReservedChar::SemiColon)
                 ) {
                     return Some((tmp, None));
                 } else if !(tokens[tmp2].is_comment()
+                    || tokens[tmp2].is_license()
                     || tokens[tmp2].is_white_character()
                         && tokens[tmp2].get_char() != Some(ReservedChar::Backline))
                 {
@@ -232,6 +236,7 @@ pub fn get_variable_name_and_value_positions<'a>(
                 }
                 tmp2 += 1;
             }
+            return Some((tmp, None));
         } else {
             // We don't care about syntax errors.
         }
-- 
2.43.0


From 140d8830f253f278b542748fe927c756fa333205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 34/80] fix: js: do not add a space between ++ and in

---
 src/js/token.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 7cda0bd..9403c5f 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1102,6 +1102,8 @@ macro_rules! tokens_writer {
                 && !tokens[i - 1].is_keyword()
                 && !tokens[i - 1].is_other()
                 && !tokens[i - 1].is_reserved_char()
+                && !tokens[i - 1].is_operation()
+                && !tokens[i - 1].is_license()
                 && !tokens[i - 1].is_string()
             {
                 write!($w, " ")?;
-- 
2.43.0


From 448a3ac2b7c3ab0050de819d93e3d6ec0e02ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 35/80] fix: js: do not aggregate directives, method names and
 strings of imports and exports

---
 src/js/tools.rs | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 8ca720a..c11772d 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -2,7 +2,7 @@
 
 use std::{fmt, io};
 
-use crate::js::token::{self, Keyword, ReservedChar, Token, Tokens};
+use crate::js::token::{self, Keyword, Operation, ReservedChar, Token, Tokens};
 use crate::js::utils::{get_array, get_variable_name_and_value_positions, VariableNameGenerator};
 
 use std::collections::{HashMap, HashSet};
@@ -268,6 +268,39 @@ fn get_variables_name<'a>(
     (ret, variables)
 }
 
+/// Returns false if the string can't be replaced by an expression: template literals, names of
+/// methods, directives, and strings of imports and exports.
+fn is_value(tokens: &Tokens<'_>, pos: usize) -> bool {
+    fn is_useful(t: &&Token<'_>) -> bool {
+        !t.is_comment() && !t.is_license() && !t.is_white_character()
+    }
+
+    if tokens[pos].get_string().is_some_and(|s| s.starts_with('`')) {
+        return false;
+    }
+    let next = tokens[pos + 1..].iter().find(is_useful);
+    let is_kept = match tokens[..pos].iter().rfind(is_useful) {
+        // FIXME: names of properties (`{"a": 1}`) should be kept as well.
+        None
+        | Some(Token::Char(
+            ReservedChar::OpenCurlyBrace | ReservedChar::CloseCurlyBrace | ReservedChar::SemiColon,
+        )) => !next.is_some_and(|t| t.eq_char(ReservedChar::Colon)),
+        Some(t) => matches!(
+            t,
+            Token::Keyword(Keyword::Static) | Token::Other("import" | "from" | "as")
+        ),
+    };
+    !is_kept
+        && !matches!(
+            next,
+            Some(
+                Token::Char(ReservedChar::OpenParenthese)
+                    | Token::Operation(Operation::Equal)
+                    | Token::Other("as")
+            )
+        )
+}
+
 /// Returns all the names starting with `r_`, declared or not, including those used inside template
 /// literals.
 fn get_used_names<'a>(tokens: &'a Tokens<'_>) -> impl Iterator<Item = &'a str> {
@@ -304,7 +337,7 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
 
         for pos in 0..tokens.len() {
             let token = &tokens[pos];
-            if let Some(str_token) = token.get_string().filter(|s| !s.starts_with('`')) {
+            if let Some(str_token) = token.get_string().filter(|_| is_value(&tokens, pos)) {
                 if let Some((var_pos, string_pos)) = values
                     .get(&str_token)
                     .filter(|(_, string_pos)| pos >= *string_pos)
@@ -490,7 +523,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                 continue;
             }
             let token = &tokens[pos];
-            if let Some(str_token) = token.get_string().filter(|s| !s.starts_with('`')) {
+            if let Some(str_token) = token.get_string().filter(|_| is_value(&tokens, pos)) {
                 if !filter(&tokens, pos) {
                     continue;
                 }
-- 
2.43.0


From 6ea4711f28c69ea079f5cc99bc0419f8bff1f019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 36/80] fix: js: declare the created variables after the
 directives

---
 src/js/tools.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index c11772d..86d6eda 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -301,6 +301,25 @@ fn is_value(tokens: &Tokens<'_>, pos: usize) -> bool {
         )
 }
 
+/// Returns the number of tokens taken by the directives (like `"use strict";`) at the start of the
+/// program: they wouldn't be directives anymore with something before them.
+fn directives_len(tokens: &Tokens<'_>) -> usize {
+    let mut useful = tokens
+        .iter()
+        .enumerate()
+        .filter(|(_, t)| !t.is_comment() && !t.is_license() && !t.is_white_character());
+    let mut len = 0;
+    while let (Some((_, directive)), Some((pos, end))) = (useful.next(), useful.next()) {
+        if !directive.get_string().is_some_and(|s| !s.starts_with('`'))
+            || !end.eq_char(ReservedChar::SemiColon)
+        {
+            break;
+        }
+        len = pos + 1;
+    }
+    len
+}
+
 /// Returns all the names starting with `r_`, declared or not, including those used inside template
 /// literals.
 fn get_used_names<'a>(tokens: &'a Tokens<'_>) -> impl Iterator<Item = &'a str> {
@@ -407,8 +426,9 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
     if let Some(token) = separation_token {
         new_vars.push(token);
     }
-    new_vars.append(&mut tokens.0);
-    Tokens(new_vars)
+    let start = directives_len(&tokens);
+    tokens.0.splice(start..start, new_vars);
+    tokens
 }
 
 /// Aggregate litteral strings. For instance, if the string litteral "Oh look over there!"
@@ -569,15 +589,16 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         validated.sort_unstable_by(|(p1, _), (p2, _)| p2.cmp(p1));
 
         if need_recreate && !validated.is_empty() {
+            let start = directives_len(&tokens);
             if let Some(token) = separation_token {
-                to_insert.push((0, token));
+                to_insert.push((start, token));
             }
-            to_insert.push((0, Token::Char(ReservedChar::SemiColon)));
-            to_insert.push((0, Token::Char(ReservedChar::CloseBracket)));
-            to_insert.push((0, Token::Char(ReservedChar::OpenBracket)));
-            to_insert.push((0, Token::CreatedVarDecl(format!("var {array_name}="))));
+            to_insert.push((start, Token::Char(ReservedChar::SemiColon)));
+            to_insert.push((start, Token::Char(ReservedChar::CloseBracket)));
+            to_insert.push((start, Token::Char(ReservedChar::OpenBracket)));
+            to_insert.push((start, Token::CreatedVarDecl(format!("var {array_name}="))));
 
-            end_bracket = 2;
+            end_bracket = start + 2;
         }
 
         let ends_with_value = current_array_values
-- 
2.43.0


From 0841716c22427f814df9dbda1d0272b9dea57e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 37/80] fix: js: go back to the right character after an
 unfinished regular expression

---
 src/js/token.rs | 45 +++++++++++----------------------------------
 1 file changed, 11 insertions(+), 34 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 9403c5f..f4f375e 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -916,50 +916,40 @@ fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, sour
 
 struct MyPeekable<'a> {
     inner: CharIndices<'a>,
-    saved: Vec<(usize, char)>,
     peeked: Option<(usize, char)>,
-    is_saving: bool,
+    saved: Option<(CharIndices<'a>, Option<(usize, char)>)>,
 }
 
 impl<'a> MyPeekable<'a> {
     fn new(indices: CharIndices<'a>) -> MyPeekable<'a> {
         MyPeekable {
             inner: indices,
-            saved: Vec::with_capacity(500),
             peeked: None,
-            is_saving: false,
+            saved: None,
         }
     }
 
+    /// Remembers the current position.
     fn start_save(&mut self) {
-        self.is_saving = true;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
-        }
+        self.saved = Some((self.inner.clone(), self.peeked));
     }
 
+    /// Forgets the remembered position.
     fn drop_save(&mut self) {
-        self.is_saving = false;
-        self.saved.clear();
+        self.saved = None;
     }
 
+    /// Goes back to the remembered position.
     fn stop_save(&mut self) {
-        self.is_saving = false;
-        if let Some(p) = self.peeked {
-            self.saved.push(p);
+        if let Some((inner, peeked)) = self.saved.take() {
+            self.inner = inner;
+            self.peeked = peeked;
         }
-        self.peeked = None;
     }
 
-    /// Returns None if saving.
     fn peek(&mut self) -> Option<(usize, char)> {
         if self.peeked.is_none() {
             self.peeked = self.inner.next();
-            if self.is_saving {
-                if let Some(p) = self.peeked {
-                    self.saved.push(p);
-                }
-            }
         }
         self.peeked
     }
@@ -969,20 +959,7 @@ impl Iterator for MyPeekable<'_> {
     type Item = (usize, char);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.peeked.is_some() {
-            self.peeked.take()
-        } else {
-            if !self.is_saving && !self.saved.is_empty() {
-                return Some(self.saved.remove(0));
-            }
-            match self.inner.next() {
-                Some(r) if self.is_saving => {
-                    self.saved.push(r);
-                    Some(r)
-                }
-                r => r,
-            }
-        }
+        self.peeked.take().or_else(|| self.inner.next())
     }
 }
 
-- 
2.43.0


From f98147be6b7815f7eb2de5f6af907714656816a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 38/80] fix: js: find an existing array that has a licence
 comment in its declaration

---
 src/js/utils.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index fd38ecf..f75a34c 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -451,6 +451,10 @@ pub(crate) fn get_array<'a>(
     tokens: &'a Tokens<'a>,
     array_name: &str,
 ) -> Option<(Vec<usize>, usize)> {
+    fn is_skipped(t: &Token<'_>) -> bool {
+        t.is_comment() || t.is_license() || t.is_white_character()
+    }
+
     let mut ret = Vec::new();
 
     let mut looking_for_var = false;
@@ -468,7 +472,7 @@ pub(crate) fn get_array<'a>(
                     }
                 }
                 ref s => {
-                    looking_for_var = s.is_comment() || s.is_white_character();
+                    looking_for_var = is_skipped(s);
                 }
             }
         } else if looking_for_equal {
@@ -478,7 +482,7 @@ pub(crate) fn get_array<'a>(
                     looking_for_array_start = true;
                 }
                 ref s => {
-                    looking_for_equal = s.is_comment() || s.is_white_character();
+                    looking_for_equal = is_skipped(s);
                 }
             }
         } else if looking_for_array_start {
@@ -488,7 +492,7 @@ pub(crate) fn get_array<'a>(
                     getting_values = true;
                 }
                 ref s => {
-                    looking_for_array_start = s.is_comment() || s.is_white_character();
+                    looking_for_array_start = is_skipped(s);
                 }
             }
         } else if getting_values {
@@ -496,7 +500,7 @@ pub(crate) fn get_array<'a>(
                 Token::Char(ReservedChar::CloseBracket) => {
                     return Some((ret, pos));
                 }
-                s if s.is_comment() || s.is_white_character() => {}
+                s if is_skipped(s) => {}
                 _ => {
                     ret.push(pos);
                 }
-- 
2.43.0


From 46d5c54f13edc2e1abe2ee79bc9397b88887fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 39/80] fix: js: do not use a variable whose declaration might
 not run

---
 src/js/tools.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 86d6eda..4eb5b7b 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -214,6 +214,20 @@ fn is_whole_value(tokens: &Tokens<'_>, pos: usize) -> bool {
         .is_some_and(|c| c == ReservedChar::Comma || c == ReservedChar::SemiColon)
 }
 
+/// Returns false for the body of a statement, like in `if (x) var y = "a";`.
+fn starts_statement(tokens: &Tokens<'_>, pos: usize) -> bool {
+    match tokens[..pos]
+        .iter()
+        .rfind(|t| !t.is_comment() && !t.is_license() && !t.is_white_character())
+    {
+        None => true,
+        Some(Token::Char(c)) => {
+            matches!(*c, ReservedChar::SemiColon | ReservedChar::CloseCurlyBrace)
+        }
+        Some(t) => *t == Token::Other("export"),
+    }
+}
+
 fn update_depth(depth: &mut usize, token: &Token<'_>) {
     match token.get_char() {
         Some(
@@ -238,9 +252,13 @@ fn get_variables_name<'a>(
     let mut variables = HashMap::new();
     let mut pos = 0;
     let mut depth = 0usize;
+    let mut is_always_run = false;
 
     while pos < tokens.len() {
         update_depth(&mut depth, &tokens[pos]);
+        if let Some(Keyword::Let | Keyword::Var) = tokens[pos].get_keyword() {
+            is_always_run = starts_statement(tokens, pos);
+        }
         if tokens[pos].is_keyword() || tokens[pos].is_other() {
             if let Some((var_pos, Some(value_pos))) =
                 get_variable_name_and_value_positions(tokens, pos)
@@ -257,7 +275,7 @@ fn get_variables_name<'a>(
                     ret.insert(var_name);
                 }
                 if let Some(s) = tokens[value_pos].get_string() {
-                    if depth == 0 && is_whole_value(tokens, value_pos) {
+                    if depth == 0 && is_always_run && is_whole_value(tokens, value_pos) {
                         variables.entry(s).or_insert((var_pos, value_pos));
                     }
                 }
-- 
2.43.0


From 2d0d962277ac3cab01ef4364e1dd5153ed9e3e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 40/80] fix: js: find the value of a variable whose equal sign
 is on another line

---
 src/js/utils.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index f75a34c..a27c21c 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -229,8 +229,7 @@ pub fn get_variable_name_and_value_positions<'a>(
                     return Some((tmp, None));
                 } else if !(tokens[tmp2].is_comment()
                     || tokens[tmp2].is_license()
-                    || tokens[tmp2].is_white_character()
-                        && tokens[tmp2].get_char() != Some(ReservedChar::Backline))
+                    || tokens[tmp2].is_white_character())
                 {
                     break;
                 }
-- 
2.43.0


From cd9c40a6d48ba33e3b591a158c3fcde18809e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 41/80] fix: css: form feeds are whitespace

---
 src/css/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 5645e3c..15f68c7 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -90,7 +90,7 @@ impl TryFrom<char> for ReservedChar {
             '=' => Ok(ReservedChar::EqualSign),
             ' ' => Ok(ReservedChar::Space),
             '\t' => Ok(ReservedChar::Tab),
-            '\n' | '\r' => Ok(ReservedChar::Backline),
+            '\n' | '\r' | '\x0C' => Ok(ReservedChar::Backline),
             '>' => Ok(ReservedChar::SuperiorThan),
             '|' => Ok(ReservedChar::Pipe),
             '~' => Ok(ReservedChar::Tilde),
-- 
2.43.0


From 8938cb1747812d9aa590d40732202b601b5bdba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 42/80] fix: css: no space between an at-rule's name and its
 block

---
 src/css/token.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 15f68c7..00a8d2e 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -218,7 +218,7 @@ impl fmt::Display for SelectorElement<'_> {
             SelectorElement::Class(c) => write!(f, ".{c}"),
             SelectorElement::Id(i) => write!(f, "#{i}"),
             SelectorElement::Tag(t) => write!(f, "{t}"),
-            SelectorElement::Media(m) => write!(f, "@{m} "),
+            SelectorElement::Media(m) => write!(f, "@{m}"),
             SelectorElement::PseudoClass(pc) => write!(f, ":{pc}"),
         }
     }
@@ -683,20 +683,34 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
 #[derive(Debug, PartialEq, Eq, Clone)]
 pub(super) struct Tokens<'a>(Vec<Token<'a>>);
 
+macro_rules! tokens_writer {
+    ($self:ident, $w:ident) => {
+        for (i, token) in $self.0.iter().enumerate() {
+            write!($w, "{token}")?;
+            if token.is_a_media()
+                && !matches!(
+                    $self.0.get(i + 1),
+                    None | Some(Token::Char(
+                        ReservedChar::OpenCurlyBrace | ReservedChar::SemiColon
+                    ))
+                )
+            {
+                write!($w, " ")?;
+            }
+        }
+    };
+}
+
 impl Tokens<'_> {
     pub(super) fn write<W: std::io::Write>(self, mut w: W) -> std::io::Result<()> {
-        for token in self.0.iter() {
-            write!(w, "{token}")?;
-        }
+        tokens_writer!(self, w);
         Ok(())
     }
 }
 
 impl fmt::Display for Tokens<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        for token in self.0.iter() {
-            write!(f, "{token}")?;
-        }
+        tokens_writer!(self, f);
         Ok(())
     }
 }
-- 
2.43.0


From 7f1f8dbadd78d069fff7dd72d1b2fe59df751487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 43/80] fix: css: the whitespace after a hexadecimal escape is
 part of it

---
 src/css/token.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index 00a8d2e..d374475 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -394,6 +394,27 @@ fn get_string<'a>(
     None
 }
 
+/// The whitespace character that follows the digits is part of the escape.
+fn get_hex_escape_end(iterator: &mut Peekable<CharIndices<'_>>, mut end: usize) -> usize {
+    let mut digits = 1;
+    while digits < 6 && iterator.next_if(|(_, c)| c.is_ascii_hexdigit()).is_some() {
+        digits += 1;
+        end += 1;
+    }
+    if iterator.next_if(|(_, c)| *c == '\r').is_some() {
+        end += 1;
+        if iterator.next_if(|(_, c)| *c == '\n').is_some() {
+            end += 1;
+        }
+    } else if iterator
+        .next_if(|(_, c)| matches!(*c, ' ' | '\t' | '\n' | '\x0C'))
+        .is_some()
+    {
+        end += 1;
+    }
+    end
+}
+
 fn fill_other<'a>(
     source: &'a str,
     v: &mut Vec<Token<'a>>,
@@ -473,8 +494,12 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                     v.push(Token::Char(ReservedChar::Backslash));
 
                     if let Some((idx, c)) = iterator.next() {
-                        pos += c.len_utf8();
-                        v.push(Token::Other(&source[idx..idx + c.len_utf8()]));
+                        let mut end = idx + c.len_utf8();
+                        if c.is_ascii_hexdigit() {
+                            end = get_hex_escape_end(&mut iterator, end);
+                        }
+                        v.push(Token::Other(&source[idx..end]));
+                        pos = end - 1;
                     }
                 }
                 ReservedChar::Quote | ReservedChar::DoubleQuote => {
-- 
2.43.0


From 8c7e8470166054f2cf3c95bbd770231ce12538c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 44/80] fix: css: tell the spaces that selectors and math
 functions need from the others

---
 src/css/token.rs | 246 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 186 insertions(+), 60 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index d374475..17f169e 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -308,10 +308,6 @@ impl Token<'_> {
         matches!(*self, Token::SelectorElement(SelectorElement::Media(_)))
     }
 
-    fn is_a_selector_element(&self) -> bool {
-        matches!(*self, Token::SelectorElement(_))
-    }
-
     fn is_a_license(&self) -> bool {
         matches!(*self, Token::License(_))
     }
@@ -323,6 +319,33 @@ impl Token<'_> {
             _ => false,
         }
     }
+
+    fn is_opening(&self) -> bool {
+        matches!(
+            *self,
+            Token::Char(ReservedChar::OpenParenthese | ReservedChar::OpenBracket)
+        )
+    }
+
+    fn is_closing(&self) -> bool {
+        matches!(
+            *self,
+            Token::Char(ReservedChar::CloseParenthese | ReservedChar::CloseBracket)
+        )
+    }
+
+    /// Nothing needs a whitespace before or after it.
+    fn is_separator(&self) -> bool {
+        matches!(
+            *self,
+            Token::Char(
+                ReservedChar::OpenCurlyBrace
+                    | ReservedChar::CloseCurlyBrace
+                    | ReservedChar::SemiColon
+                    | ReservedChar::Comma
+            )
+        )
+    }
 }
 
 impl PartialEq<ReservedChar> for Token<'_> {
@@ -604,6 +627,118 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
     Ok(Tokens(clean_tokens(v)))
 }
 
+/// Returns, for each token, if it is part of a selector (and not of an at-rule or a declaration).
+fn get_selectors(v: &[Token<'_>]) -> Vec<bool> {
+    let mut selectors = vec![false; v.len()];
+    let mut start = 0;
+    let mut depth: isize = 0;
+    let mut paren: isize = 0;
+
+    for i in 0..=v.len() {
+        let mut is_selector = false;
+        match v.get(i) {
+            Some(Token::Char(ReservedChar::OpenParenthese)) => {
+                paren += 1;
+                continue;
+            }
+            Some(Token::Char(ReservedChar::CloseParenthese)) => {
+                paren -= 1;
+                continue;
+            }
+            Some(Token::Char(ReservedChar::OpenCurlyBrace)) => {
+                depth += 1;
+                is_selector = true;
+            }
+            Some(Token::Char(ReservedChar::CloseCurlyBrace)) => depth -= 1,
+            Some(Token::Char(ReservedChar::SemiColon)) if paren < 1 => {}
+            Some(_) => continue,
+            None => is_selector = depth == 0,
+        }
+        if is_selector {
+            let first = v[start..i]
+                .iter()
+                .find(|t| !t.is_useless() && !t.is_comment() && !t.is_a_license());
+            if !first.is_some_and(|t| {
+                t.is_a_media() || matches!(t, Token::Other(s) if s.starts_with('@'))
+            }) {
+                selectors[start..i].fill(true);
+            }
+        }
+        start = i + 1;
+        paren = 0;
+    }
+    selectors
+}
+
+/// Returns the index of the next token which is neither a whitespace nor a comment, for each token.
+fn get_next_elements(v: &[Token<'_>]) -> Vec<Option<usize>> {
+    let mut next_elements = vec![None; v.len()];
+    let mut next = None;
+
+    for (i, token) in v.iter().enumerate().rev() {
+        next_elements[i] = next;
+        if !token.is_useless() && !token.is_comment() {
+            next = Some(i);
+        }
+    }
+    next_elements
+}
+
+/// Is `a b` different from `ab`?
+fn would_be_merged(prev: &Token<'_>, next: &Token<'_>) -> bool {
+    matches!(
+        prev,
+        Token::Other(_) | Token::SelectorElement(_) | Token::Char(ReservedChar::Backslash)
+    ) && match next {
+        Token::Other(s) => !s.starts_with(['.', '#']),
+        Token::SelectorElement(SelectorElement::Tag(_)) => true,
+        _ => false,
+    }
+}
+
+/// Is the whitespace (or the comment) between `prev` and `next` needed in a selector?
+fn is_needed_in_selector(prev: &Token<'_>, next: &Token<'_>, is_comment: bool) -> bool {
+    let is_combinator = |token: &Token<'_>| {
+        matches!(
+            token,
+            Token::SelectorOperator(_)
+                | Token::Char(
+                    ReservedChar::SuperiorThan
+                        | ReservedChar::Plus
+                        | ReservedChar::Tilde
+                        | ReservedChar::EqualSign
+                )
+        )
+    };
+    if is_comment {
+        // A comment isn't a descendant combinator.
+        would_be_merged(prev, next)
+    } else {
+        !is_combinator(prev) && !is_combinator(next)
+    }
+}
+
+/// Is the whitespace (or the comment) between `prev` and `next` needed in a declaration or in
+/// the prelude of an at-rule?
+fn is_needed_in_value(prev: &Token<'_>, next: &Token<'_>) -> bool {
+    if matches!(prev, Token::Char(ReservedChar::Plus))
+        || matches!(next, Token::Char(ReservedChar::Plus))
+    {
+        // math functions need the spaces around `+`.
+        return true;
+    }
+    match next {
+        // retain the space that disambiguates functions from keyword-plus-parens
+        Token::Char(ReservedChar::OpenParenthese) => {
+            matches!(prev, Token::Other(_) | Token::SelectorElement(_))
+        }
+        Token::Char(ReservedChar::OpenBracket | ReservedChar::Backslash) | Token::String(_) => {
+            !prev.is_char() || prev.is_closing()
+        }
+        _ => !next.is_char() && (!prev.is_char() || prev.is_closing()),
+    }
+}
+
 fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     // This function may remove multiple elements from the vector. Ideally we'd
     // use `Vec::retain`, but the traversal requires inspecting the previously
@@ -614,80 +749,71 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
     let mut previous_element_index: Option<usize> = None;
     let mut is_in_calc = false;
     let mut paren = 0;
+    let selectors = get_selectors(&v);
+    let next_elements = get_next_elements(&v);
     // A vector of bools indicating which elements are to be retained.
     let mut b = Vec::with_capacity(v.len());
 
     while i < v.len() {
-        if v[i] == Token::Other("calc") {
-            is_in_calc = true;
-        } else if is_in_calc {
+        if is_in_calc {
             if v[i] == Token::Char(ReservedChar::CloseParenthese) {
                 paren -= 1;
                 is_in_calc = paren != 0;
             } else if v[i] == Token::Char(ReservedChar::OpenParenthese) {
                 paren += 1;
             }
+        } else if v[i] == Token::Other("calc")
+            && matches!(
+                v.get(i + 1),
+                Some(Token::Char(ReservedChar::OpenParenthese))
+            )
+        {
+            is_in_calc = true;
         }
 
         let mut retain = true;
         if v[i].is_useless() || v[i].is_comment() {
-            if let Some(previous_element_index) = previous_element_index {
-                #[allow(clippy::if_same_then_else)]
-                if v[previous_element_index] == Token::Char(ReservedChar::CloseBracket) {
-                    if i + 1 < v.len()
-                        && (v[i + 1].is_useless()
-                            || v[i + 1] == Token::Char(ReservedChar::OpenCurlyBrace))
-                    {
-                        retain = false;
-                    }
-                } else if matches!(v[previous_element_index], Token::Other(_))
-                    && matches!(
-                        v.get(i + 1),
-                        Some(Token::Other(_) | Token::Char(ReservedChar::OpenParenthese))
-                    )
-                {
-                    // retain the space between keywords
-                    // and the space that disambiguates functions from keyword-plus-parens
-                } else if v[previous_element_index].is_a_selector_element()
-                    && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Star)))
-                {
-                    // retain the space before `*` if it's preceded by a selector.
-                } else if matches!(v[previous_element_index], Token::Char(ReservedChar::Star))
-                    && v.get(i + 1)
-                        .is_some_and(|elem| elem.is_a_selector_element())
-                {
-                    // retain the space after `*` if it's followed by a selector.
-                } else if matches!(
-                    v[previous_element_index],
-                    Token::Char(
-                        ReservedChar::Star
-                            | ReservedChar::Circumflex
-                            | ReservedChar::Dollar
-                            | ReservedChar::Tilde
-                    )
-                ) && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::EqualSign)))
-                {
-                    // retain the space between an operator and an equal sign
-                } else if matches!(v[previous_element_index], Token::Char(ReservedChar::Slash))
-                    && matches!(v.get(i + 1), Some(Token::Char(ReservedChar::Star)))
-                {
-                    // this looks like a comment, but it is not
-                    // retain the space between `/` and `*`
-                } else if is_in_calc && v[previous_element_index].is_useless() {
-                    retain = false;
-                } else if !is_in_calc {
-                    let prev = &v[previous_element_index];
-                    if ((prev.is_char() && prev != &Token::Char(ReservedChar::CloseParenthese))
+            retain = match (previous_element_index, next_elements[i]) {
+                (Some(prev), Some(next)) => {
+                    let (prev, next) = (&v[prev], &v[next]);
+                    if prev.is_useless()
+                        || prev.is_a_license()
+                        || next.is_a_license()
+                        || prev.is_separator()
+                        || next.is_separator()
                         || prev.is_a_media()
-                        || prev.is_a_license())
-                        || (i < v.len() - 1
-                            && v[i + 1].is_char()
-                            && v[i + 1] != Token::Char(ReservedChar::OpenBracket))
                     {
-                        retain = false;
+                        false
+                    } else if matches!(
+                        prev,
+                        Token::Char(
+                            ReservedChar::Star
+                                | ReservedChar::Circumflex
+                                | ReservedChar::Dollar
+                                | ReservedChar::Tilde
+                        )
+                    ) && matches!(next, Token::Char(ReservedChar::EqualSign))
+                    {
+                        // retain the space between an operator and an equal sign
+                        true
+                    } else if matches!(prev, Token::Char(ReservedChar::Slash))
+                        && matches!(next, Token::Char(ReservedChar::Star))
+                    {
+                        // this looks like a comment, but it is not
+                        // retain the space between `/` and `*`
+                        true
+                    } else if prev.is_opening() || next.is_closing() {
+                        false
+                    } else if is_in_calc {
+                        true
+                    } else if selectors[i] {
+                        is_needed_in_selector(prev, next, v[i].is_comment())
+                    } else {
+                        is_needed_in_value(prev, next)
                     }
                 }
-            }
+                _ => false,
+            };
             if retain && v[i].is_comment() {
                 // convert comments to spaces when minifying
                 v[i] = Token::Char(ReservedChar::Space);
-- 
2.43.0


From d35c217c6c4aadd225d63461ba55cf37904d62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 45/80] fix: css: nothing is special in an unquoted url

---
 src/css/token.rs | 54 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/css/token.rs b/src/css/token.rs
index 17f169e..e1851b6 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -438,6 +438,50 @@ fn get_hex_escape_end(iterator: &mut Peekable<CharIndices<'_>>, mut end: usize)
     end
 }
 
+/// Returns the range of the URL of a `url(` which has no quotes, `start` being what follows the
+/// parenthese. Nothing is special in such a URL, apart from escapes.
+fn get_unquoted_url(source: &str, start: usize) -> Option<(usize, usize)> {
+    let is_whitespace = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0C');
+    let url = source[start..].trim_start_matches(is_whitespace);
+    let start = source.len() - url.len();
+    let mut end = start;
+    let mut iterator = url.char_indices();
+
+    while let Some((pos, c)) = iterator.next() {
+        match c {
+            ')' => return Some((start, end)),
+            '"' | '\'' | '(' => return None,
+            '\\' => {
+                let (pos, c) = iterator.next()?;
+                end = start + pos + c.len_utf8();
+            }
+            c if is_whitespace(c) => {
+                let is_end = url[pos..]
+                    .trim_start_matches(is_whitespace)
+                    .starts_with(')');
+                return is_end.then_some((start, end));
+            }
+            c => end = start + pos + c.len_utf8(),
+        }
+    }
+    None
+}
+
+/// Is the last token the name of the `url` function?
+fn is_url_function(v: &[Token<'_>]) -> bool {
+    match v {
+        // `url` is the end of a longer name.
+        [.., Token::Char(ReservedChar::Backslash), Token::Other(_), Token::Other(_) | Token::SelectorElement(SelectorElement::Tag(_))] => {
+            false
+        }
+        [.., Token::Other(s)
+        | Token::SelectorElement(SelectorElement::Tag(s) | SelectorElement::PseudoClass(s))] => {
+            s.eq_ignore_ascii_case("url")
+        }
+        _ => false,
+    }
+}
+
 fn fill_other<'a>(
     source: &'a str,
     v: &mut Vec<Token<'a>>,
@@ -542,6 +586,16 @@ pub(super) fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
                         return Err("Unclosed comment");
                     }
                 }
+                ReservedChar::OpenParenthese if is_url_function(&v) => {
+                    v.push(Token::Char(c));
+                    if let Some((url_start, url_end)) = get_unquoted_url(source, pos + 1) {
+                        while iterator.next_if(|(i, _)| *i < url_end).is_some() {}
+                        if url_start < url_end {
+                            v.push(Token::Other(&source[url_start..url_end]));
+                        }
+                        pos = url_end.max(pos + 1) - 1;
+                    }
+                }
                 ReservedChar::OpenBracket => {
                     if is_in_attribute_selector {
                         return Err("Already in attribute selector");
-- 
2.43.0


From d26894fd02bf96fd9e8e90ac398da4b424087cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 46/80] fix: js: skip the comments in the substitutions of a
 template literal

---
 src/js/token.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index f4f375e..611eeef 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -795,6 +795,21 @@ fn get_backtick_string<'a>(
                             return Err("Too nested backtick (`) string");
                         }
                         get_backtick_string(source, iterator, &mut pos, depth + 1)?;
+                    } else if c == '/' && iterator.peek().is_some_and(|(_, c)| c == '/') {
+                        for (_, c) in iterator.by_ref() {
+                            if matches!(c, '\n' | '\r') {
+                                break;
+                            }
+                        }
+                    } else if c == '/' && iterator.peek().is_some_and(|(_, c)| c == '*') {
+                        iterator.next();
+                        let mut prev = ' ';
+                        for (_, c) in iterator.by_ref() {
+                            if prev == '*' && c == '/' {
+                                break;
+                            }
+                            prev = c;
+                        }
                     } else if c == '{' {
                         count += 1;
                     } else if c == '}' {
-- 
2.43.0


From cafb0463b846f4a4f95f270a2627f7882419bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 47/80] fix: js: skip the regular expressions in the
 substitutions of a template literal

---
 src/js/token.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 611eeef..e625ba7 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -754,6 +754,45 @@ fn get_string<'a>(
     None
 }
 
+/// Can a regular expression follow `before`, which is a part of a template literal?
+fn can_start_regex(before: &str) -> bool {
+    if before.ends_with("++") || before.ends_with("--") {
+        return false;
+    }
+    if before.ends_with("...") || before.ends_with(|c: char| "{([,;:=!?&|+-*%^~<>".contains(c)) {
+        return true;
+    }
+    let rest = before.trim_end_matches(|c: char| c.is_alphanumeric() || "_$".contains(c));
+    let word = &before[rest.len()..];
+    let rest = rest.trim_end();
+    (rest.ends_with("...") || !rest.ends_with('.'))
+        && Keyword::try_from(word).is_ok_and(|k| k.allows_regex_after())
+}
+
+/// Goes to the end of a regular expression, if it has one.
+fn skip_regex(iterator: &mut MyPeekable<'_>) {
+    let mut in_class = false;
+
+    iterator.start_save();
+    while let Some((_, c)) = iterator.next() {
+        match c {
+            '\\' => {
+                // we skip next character
+                iterator.next();
+            }
+            '[' => in_class = true,
+            ']' => in_class = false,
+            '/' if !in_class => {
+                iterator.drop_save();
+                return;
+            }
+            '\n' | '\r' => break,
+            _ => {}
+        }
+    }
+    iterator.stop_save();
+}
+
 // Maximum nesting depth for template literals inside `${ ... }` interpolations.
 // Each nested backtick recurses into `get_backtick_string`, so an unbounded depth
 // (driven purely by attacker-controlled input length) exhausts the native stack.
@@ -774,6 +813,8 @@ fn get_backtick_string<'a>(
         }
         if c == '$' && iterator.peek().map(|(_, c)| c == '{').unwrap_or(false) {
             let mut count = 0;
+            // End of what is neither a whitespace nor a comment.
+            let mut end = pos;
 
             loop {
                 if let Some((mut pos, c)) = iterator.next() {
@@ -801,6 +842,7 @@ fn get_backtick_string<'a>(
                                 break;
                             }
                         }
+                        continue;
                     } else if c == '/' && iterator.peek().is_some_and(|(_, c)| c == '*') {
                         iterator.next();
                         let mut prev = ' ';
@@ -810,6 +852,9 @@ fn get_backtick_string<'a>(
                             }
                             prev = c;
                         }
+                        continue;
+                    } else if c == '/' && can_start_regex(&source[*start_pos..end]) {
+                        skip_regex(iterator);
                     } else if c == '{' {
                         count += 1;
                     } else if c == '}' {
@@ -818,6 +863,9 @@ fn get_backtick_string<'a>(
                             break;
                         }
                     }
+                    if !c.is_whitespace() {
+                        end = iterator.peek().map_or(source.len(), |(pos, _)| pos);
+                    }
                 } else {
                     return Ok(None);
                 }
-- 
2.43.0


From c4103db2eaa33c8979e1fa3d8f074f213a0b08bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 48/80] fix: html: only remove useless tags where they are tags

---
 src/html.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index b6fa993..a627b74 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -24,6 +24,21 @@ fn condense(source: &str) -> String {
     .into_owned()
 }
 
+// What stands between `<` and `>` in a tag, values of attributes included.
+const ATTRIBUTES: &str = r#"(?:[^"'>]|"[^"]*"|'[^']*')*"#;
+
+// Matches a tag.
+fn tag() -> String {
+    format!("</?[a-zA-Z]{ATTRIBUTES}>")
+}
+
+// Matches an element whose content is text, whatever it looks like.
+fn raw_text_element() -> String {
+    ["script", "style", "textarea", "title"]
+        .map(|tag| format!(r"(?is:<{tag}(?:\s{ATTRIBUTES})?>.*?</{tag}\s*>)"))
+        .join("|")
+}
+
 fn clean_unneeded_tags(source: &str) -> String {
     let useless_tags = [
         "</area>",
@@ -58,11 +73,15 @@ fn clean_unneeded_tags(source: &str) -> String {
         "</isindex>",
         "</param>",
     ];
-    let mut res = source.to_owned();
-    for useless_tag in &useless_tags {
-        res = res.replace(useless_tag, "");
-    }
-    res
+    let re = Regex::new(&format!("{}|{}", raw_text_element(), tag())).unwrap();
+    re.replace_all(source, |caps: &Captures| {
+        if useless_tags.contains(&&caps[0]) {
+            String::new()
+        } else {
+            caps[0].to_owned()
+        }
+    })
+    .into_owned()
 }
 
 fn remove_comments(source: &str) -> String {
-- 
2.43.0


From b68809a6fcdae273c64b2ac22bfd898ca0fc062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 49/80] fix: html: a comment is not a whitespace, and is none
 in a script

---
 src/html.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index a627b74..ed88ebc 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -86,12 +86,14 @@ fn clean_unneeded_tags(source: &str) -> String {
 
 fn remove_comments(source: &str) -> String {
     // "build" and "endbuild" should be matched case insensitively.
-    let re = Regex::new("<!--(.|\n)*?-->").unwrap();
+    let re = Regex::new(&format!("{}|<!--(.|\n)*?-->", raw_text_element())).unwrap();
     re.replace_all(source, |caps: &Captures| {
-        if caps[0].replace("<!--", " ").trim().starts_with("[") {
+        if !caps[0].starts_with("<!--")
+            || caps[0].replace("<!--", " ").trim().starts_with("[")
+        {
             caps[0].to_owned()
         } else {
-            " ".to_owned()
+            String::new()
         }
     })
     .into_owned()
-- 
2.43.0


From 8d7b6903b909a3999c15ae04abc2d69fb670af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 50/80] fix: html: only remove the type of a script or a style
 when it is the default one

---
 src/html.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index ed88ebc..630026d 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -16,10 +16,24 @@ fn condense_whitespace(source: &str) -> String {
 }
 
 fn condense(source: &str) -> String {
-    let re = Regex::new(r"<(style|script)[\w|\s].*?>").unwrap();
-    let type_reg = Regex::new(r#"\s*?type="[\w|\s].*?""#).unwrap();
+    let re = Regex::new(&format!(r"<(style|script)\s{ATTRIBUTES}>")).unwrap();
+    let type_reg =
+        Regex::new(r#""[^"]*"|'[^']*'|\s+type="text/(css|javascript)"([\s/>])"#).unwrap();
     re.replace_all(source, |caps: &Captures| {
-        type_reg.replace_all(&caps[0], "").into_owned()
+        let default_type = if &caps[1] == "style" {
+            "css"
+        } else {
+            "javascript"
+        };
+        type_reg
+            .replace_all(&caps[0], |caps: &Captures| {
+                if caps.get(1).is_some_and(|t| t.as_str() == default_type) {
+                    caps[2].to_owned()
+                } else {
+                    caps[0].to_owned()
+                }
+            })
+            .into_owned()
     })
     .into_owned()
 }
-- 
2.43.0


From baec1de2a38cdd252e0de9b82cdb0f6afaf34e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 51/80] fix: html: keep the whitespaces of attributes and
 non-breaking spaces

---
 src/html.rs | 124 +++++++++++++++++++++-------------------------------
 1 file changed, 51 insertions(+), 73 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 630026d..4f4c787 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -2,16 +2,27 @@
 
 use regex::{Captures, Regex};
 
+// Contrary to `char::is_whitespace`, non-breaking spaces aren't whitespaces.
+fn is_whitespace(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0C')
+}
+
 fn condense_whitespace(source: &str) -> String {
     let lower_source = source.to_lowercase();
     if lower_source.find("<textarea").is_none() && lower_source.find("<pre").is_none() {
         // maybe should be better not to recreate Regex every time?
-        let re = Regex::new(r">\s+<").unwrap();
-        let source = re.replace_all(source, "> <").into_owned();
-        let re = Regex::new(r"\s{2,}|[\r\n]").unwrap();
-        re.replace_all(&source, " ").into_owned()
+        let re = Regex::new(&format!(r"{}|[ \t\n\r\x0C]+", tag())).unwrap();
+        re.replace_all(source, |caps: &Captures| {
+            if caps[0].starts_with('<') {
+                // The whitespaces of the values of the attributes have to remain.
+                caps[0].to_owned()
+            } else {
+                " ".to_owned()
+            }
+        })
+        .into_owned()
     } else {
-        source.trim().to_owned()
+        source.trim_matches(is_whitespace).to_owned()
     }
 }
 
@@ -102,9 +113,7 @@ fn remove_comments(source: &str) -> String {
     // "build" and "endbuild" should be matched case insensitively.
     let re = Regex::new(&format!("{}|<!--(.|\n)*?-->", raw_text_element())).unwrap();
     re.replace_all(source, |caps: &Captures| {
-        if !caps[0].starts_with("<!--")
-            || caps[0].replace("<!--", " ").trim().starts_with("[")
-        {
+        if !caps[0].starts_with("<!--") || caps[0].replace("<!--", " ").trim().starts_with("[") {
             caps[0].to_owned()
         } else {
             String::new()
@@ -113,74 +122,41 @@ fn remove_comments(source: &str) -> String {
     .into_owned()
 }
 
+fn clean_tag(tag: &str, parts: &Regex) -> String {
+    parts
+        .replace_all(tag, |caps: &Captures| {
+            let part = caps.get(0).unwrap();
+            let before = &tag[..part.start()];
+            let after = &tag[part.end()..];
+            match caps.get(1).map(|name| name.as_str()) {
+                // Some attributes like width, height, etc... don't need quotes.
+                Some(name @ ("width" | "height"))
+                    if after.starts_with(|c: char| c == '>' || is_whitespace(c)) =>
+                {
+                    format!("{name}={}", &caps[2])
+                }
+                _ if !part.as_str().starts_with(is_whitespace) => part.as_str().to_owned(),
+                _ if after == ">" && before.ends_with(['"', '\'']) => String::new(),
+                _ => " ".to_owned(),
+            }
+        })
+        .into_owned()
+}
+
 fn unquote_attributes(source: &str) -> String {
-    // Some attributes like width, height, etc... don't need quotes.
-    let any_tag = Regex::new(r"<\w.*?>").unwrap();
-    let extra_spaces = Regex::new(r" \s+|\s +").unwrap();
-    let between_words = Regex::new(r"\w\s+\w").unwrap();
-    let spaces_before_close = Regex::new(r##""\s+>"##).unwrap();
-    let spaces_before_close2 = Regex::new(r"'\s+>").unwrap();
-    let extra_spaces2 = Regex::new(r##""\s\s+\w+="|'\s\s+\w+='|"\s\s+\w+=|'\s\s+\w+="##).unwrap();
-    let extra_spaces3 = Regex::new(r"\d\s+>").unwrap();
-    let quotes_in_tag = Regex::new(r##"([a-zA-Z]+)="([a-zA-Z0-9-_\.]+)""##).unwrap();
+    let any_tag = Regex::new(&tag()).unwrap();
+    let tag_or_raw_text = Regex::new(&format!("{}|{}", raw_text_element(), tag())).unwrap();
+    let parts =
+        Regex::new(r#"([a-zA-Z]+)="([a-zA-Z0-9-_.]+)"|"[^"]*"|'[^']*'|[ \t\n\r\x0C]+"#).unwrap();
 
-    any_tag
+    tag_or_raw_text
         .replace_all(source, |caps: &Captures| {
-            let cap = format!("{}", &caps[0]);
-            if cap.starts_with("<!") || cap.find("</").is_some() {
-                cap
-            } else {
-                let tag = spaces_before_close.replace_all(&cap, "\">").into_owned();
-                let mut tag = spaces_before_close2.replace_all(&tag, "'>").into_owned();
-                let tag_c = tag.clone();
-
-                let space1_matches: Vec<_> = between_words.find_iter(&tag_c).collect();
-                let space6_matches: Vec<_> = extra_spaces3.find_iter(&tag_c).collect();
-                let mut pos = 0;
-                loop {
-                    let replacement = match (space1_matches.get(pos), space6_matches.get(pos)) {
-                        (Some(a), Some(b)) => format!("{}{}", a.as_str(), b.as_str()),
-                        (None, Some(b)) => format!("{}", b.as_str()),
-                        (Some(a), None) => format!("{}", a.as_str()),
-                        _ => break,
-                    };
-                    pos += 1;
-                    tag = tag.replace(
-                        &replacement,
-                        &extra_spaces.replace_all(&replacement, " ").into_owned(),
-                    );
-                }
-                let mut output = tag.clone();
-                for caps in extra_spaces2.find_iter(&tag) {
-                    let c = caps.as_str().chars().next().unwrap_or('\0');
-                    output = output.replace(
-                        caps.as_str(),
-                        &format!(
-                            "{} {}",
-                            if c == '\0' {
-                                String::new()
-                            } else {
-                                format!("{}", c)
-                            },
-                            caps.as_str()[1..].trim_start()
-                        ),
-                    );
-                }
-                tag = quotes_in_tag
-                    .replace_all(&output, |caps: &Captures| match &caps[1] {
-                        "width" | "height" => format!("{}={}", &caps[1], &caps[2]),
-                        x => format!("{}=\"{}\"", x, &caps[2]),
-                    })
-                    .into_owned();
-                if cap != tag {
-                    tag
-                } else {
-                    cap
-                }
-            }
+            // Only the first tag is one in an element whose content is text.
+            let end = any_tag.find(&caps[0]).map_or(0, |tag| tag.end());
+            let (tag, text) = caps[0].split_at(end);
+            format!("{}{text}", clean_tag(tag, &parts))
         })
-        .trim()
-        .to_owned()
+        .into_owned()
 }
 
 /// Returns a minified version of the provided HTML source.
@@ -189,7 +165,9 @@ pub fn minify(source: &str) -> String {
     let source = condense(&source);
     let source = clean_unneeded_tags(&source);
     let source = condense_whitespace(&source);
-    unquote_attributes(&source).trim().to_owned()
+    unquote_attributes(&source)
+        .trim_matches(is_whitespace)
+        .to_owned()
 }
 
 #[test]
-- 
2.43.0


From 904989834b5fdae7a0c7bf0736caf327062a9018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 52/80] fix: html: do not remove what looks like a comment in
 the value of an attribute

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index 4f4c787..1c7ba5d 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -111,7 +111,7 @@ fn clean_unneeded_tags(source: &str) -> String {
 
 fn remove_comments(source: &str) -> String {
     // "build" and "endbuild" should be matched case insensitively.
-    let re = Regex::new(&format!("{}|<!--(.|\n)*?-->", raw_text_element())).unwrap();
+    let re = Regex::new(&format!("{}|{}|<!--(.|\n)*?-->", raw_text_element(), tag())).unwrap();
     re.replace_all(source, |caps: &Captures| {
         if !caps[0].starts_with("<!--") || caps[0].replace("<!--", " ").trim().starts_with("[") {
             caps[0].to_owned()
-- 
2.43.0


From fd8058c21061c13e637c36ade1cadc632cab1b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:09 +0000
Subject: [PATCH 53/80] fix: html: keep the end of the conditional comments
 that other browsers read

---
 src/html.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index 1c7ba5d..61217e7 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -113,7 +113,12 @@ fn remove_comments(source: &str) -> String {
     // "build" and "endbuild" should be matched case insensitively.
     let re = Regex::new(&format!("{}|{}|<!--(.|\n)*?-->", raw_text_element(), tag())).unwrap();
     re.replace_all(source, |caps: &Captures| {
-        if !caps[0].starts_with("<!--") || caps[0].replace("<!--", " ").trim().starts_with("[") {
+        let conditional = || {
+            let content = caps[0].replace("<!--", " ");
+            let content = content.trim_start();
+            content.starts_with("[") || content.starts_with("<![endif]")
+        };
+        if !caps[0].starts_with("<!--") || conditional() {
             caps[0].to_owned()
         } else {
             String::new()
-- 
2.43.0


From c28471ff64f66ce927812143cbd89f2a46a6fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:11 +0000
Subject: [PATCH 54/80] fix: html: leave what looks like a script or a style in
 a text or an attribute

---
 src/html.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 61217e7..a556582 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -27,10 +27,11 @@ fn condense_whitespace(source: &str) -> String {
 }
 
 fn condense(source: &str) -> String {
-    let re = Regex::new(&format!(r"<(style|script)\s{ATTRIBUTES}>")).unwrap();
+    let tag_or_raw_text = Regex::new(&format!("{}|{}", raw_text_element(), tag())).unwrap();
+    let re = Regex::new(&format!(r"^<(style|script)\s{ATTRIBUTES}>")).unwrap();
     let type_reg =
         Regex::new(r#""[^"]*"|'[^']*'|\s+type="text/(css|javascript)"([\s/>])"#).unwrap();
-    re.replace_all(source, |caps: &Captures| {
+    let remove_type = |caps: &Captures| {
         let default_type = if &caps[1] == "style" {
             "css"
         } else {
@@ -45,8 +46,12 @@ fn condense(source: &str) -> String {
                 }
             })
             .into_owned()
-    })
-    .into_owned()
+    };
+    tag_or_raw_text
+        .replace_all(source, |caps: &Captures| {
+            re.replace(&caps[0], remove_type).into_owned()
+        })
+        .into_owned()
 }
 
 // What stands between `<` and `>` in a tag, values of attributes included.
-- 
2.43.0


From 4da365f008315bc4ee9977a7d5e62d61fb15cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 55/80] fix: cli: report the files that cannot be read and go
 on

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 7625228..d981ea1 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -123,7 +123,7 @@ impl From<&PathBuf> for FileType {
 pub fn get_all_data<T: AsRef<Path>>(file_path: T) -> io::Result<String> {
     let mut file = File::open(file_path)?;
     let mut data = String::new();
-    file.read_to_string(&mut data).unwrap();
+    file.read_to_string(&mut data)?;
     Ok(data)
 }
 
-- 
2.43.0


From d663e28a6cd17a53b94a72c8c06577c43b0361ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 56/80] fix: cli: an extension that is not UTF-8 is an unknown
 one

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index d981ea1..6361bfe 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -111,7 +111,7 @@ impl From<&PathBuf> for FileType {
         if ext.is_none() {
             return Self::Unknown;
         };
-        match ext.unwrap().to_ascii_lowercase().to_str().unwrap() {
+        match ext.unwrap().to_ascii_lowercase().to_string_lossy().as_ref() {
             "css" => Self::Css,
             "js" => Self::Js,
             "json" => Self::Json,
-- 
2.43.0


From ed7eeae76d53b2626dca0c90f4ea4627ce5b6e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 57/80] fix: cli: do not empty the output of a file that cannot
 be minified

---
 src/cli.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 6361bfe..578c340 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -139,6 +139,20 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
     };
     match get_all_data(file_path) {
         Ok(content) => {
+            // Nothing is created or emptied for a file that cannot be minified.
+            let minified = match file_ext {
+                FileType::Css => css::minify(&content).map(|m| m.to_string()),
+                FileType::Js => js::minify(&content).map(|m| m.to_string()),
+                FileType::Json => Ok(json::minify(&content).to_string()),
+                FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
+            };
+            let minified = match minified {
+                Ok(minified) => minified,
+                Err(e) => {
+                    eprintln!("{file_path:?}: minification failed: {e}");
+                    return;
+                }
+            };
             let out = match out_path {
                 Some(op) => {
                     let mut op = op.clone();
@@ -163,17 +177,7 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 .create(true)
                 .open(&out)
             {
-                let func = |s: &str| -> String {
-                    match file_ext {
-                        FileType::Css => {
-                            css::minify(s).expect("css minification failed").to_string()
-                        }
-                        FileType::Js => js::minify(s).expect("js minification failed").to_string(),
-                        FileType::Json => json::minify(s).to_string(),
-                        FileType::Unknown => panic!("{file_path:?}: unknow file extension..."),
-                    }
-                };
-                if let Err(e) = write!(file, "{}", func(&content)) {
+                if let Err(e) = file.write_all(minified.as_bytes()) {
                     eprintln!("Impossible to write into {out:?}: {e}");
                 } else {
                     println!("{file_path:?}: done -> generated into {out:?}");
-- 
2.43.0


From 062fa30d3506d3acf2c6cef525a913091741cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 58/80] fix: cli: report the directories that cannot be created
 and go on

---
 src/cli.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 578c340..9826d62 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -161,7 +161,10 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-                        std::fs::create_dir_all(op.parent().unwrap()).unwrap();
+                        if let Err(e) = std::fs::create_dir_all(op.parent().unwrap()) {
+                            eprintln!("Impossible to create the directory of {op:?}: {e}");
+                            return;
+                        }
                     };
                     op
                 }
-- 
2.43.0


From 0c6f89ea5195653f41d61f5e3f15319eab966069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 59/80] fix: cli: write into the output directory whatever the
 path of the input

---
 src/cli.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 9826d62..62b8151 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -2,7 +2,7 @@ use std::convert::From;
 use std::env;
 use std::fs::{File, OpenOptions};
 use std::io::{self, Read, Write};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use clap::builder::PossibleValue;
 use clap::{command, value_parser, Arg, ArgAction, ValueEnum};
@@ -157,7 +157,12 @@ fn write_out_file(file_path: &PathBuf, out_path: Option<&PathBuf>, ext: Option<&
                 Some(op) => {
                     let mut op = op.clone();
                     if op.is_dir() {
-                        op.push(file_path);
+                        // Neither a root nor `..` leads out of the directory.
+                        op.extend(
+                            file_path
+                                .components()
+                                .filter(|part| matches!(part, Component::Normal(_))),
+                        );
                         op.set_extension(format!("min.{}", file_ext.as_str()));
                     };
                     if op.parent().is_some() && !op.parent().unwrap().is_dir() {
-- 
2.43.0


From aaaef93de6e5c066fbc86dae96817b2034a98c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 60/80] fix: js: stop writing a regular expression once the
 writer failed

---
 src/js/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index e625ba7..62dfaad 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -411,14 +411,14 @@ impl fmt::Display for Token<'_> {
                 is_global,
                 is_interactive,
             } => {
-                let x = write!(f, "/{regex}/");
+                write!(f, "/{regex}/")?;
                 if is_global {
                     write!(f, "g")?;
                 }
                 if is_interactive {
                     write!(f, "i")?;
                 }
-                x
+                Ok(())
             }
             Token::Condition(x) => write!(f, "{x}"),
             Token::Operation(x) => write!(f, "{x}"),
-- 
2.43.0


From 9a8f3a36f6c2c5a0a6c8758284617e28d83aec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 61/80] fix: css: no space before a plus sign after a comment
 that follows punctuation

---
 src/css/token.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index e1851b6..b08be12 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -775,11 +775,11 @@ fn is_needed_in_selector(prev: &Token<'_>, next: &Token<'_>, is_comment: bool) -
 /// Is the whitespace (or the comment) between `prev` and `next` needed in a declaration or in
 /// the prelude of an at-rule?
 fn is_needed_in_value(prev: &Token<'_>, next: &Token<'_>) -> bool {
-    if matches!(prev, Token::Char(ReservedChar::Plus))
-        || matches!(next, Token::Char(ReservedChar::Plus))
-    {
+    if matches!(prev, Token::Char(ReservedChar::Plus)) {
         // math functions need the spaces around `+`.
         return true;
+    } else if matches!(next, Token::Char(ReservedChar::Plus)) {
+        return !prev.is_char() || prev.is_operator() || prev.is_closing();
     }
     match next {
         // retain the space that disambiguates functions from keyword-plus-parens
-- 
2.43.0


From cd95fdb09aecf02c10b9d45cf55b4d50cfa049d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 62/80] fix: css: a calc right after a colon is one as well

---
 src/css/token.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/css/token.rs b/src/css/token.rs
index b08be12..0cae2ce 100644
--- a/src/css/token.rs
+++ b/src/css/token.rs
@@ -816,12 +816,13 @@ fn clean_tokens(mut v: Vec<Token<'_>>) -> Vec<Token<'_>> {
             } else if v[i] == Token::Char(ReservedChar::OpenParenthese) {
                 paren += 1;
             }
-        } else if v[i] == Token::Other("calc")
-            && matches!(
-                v.get(i + 1),
-                Some(Token::Char(ReservedChar::OpenParenthese))
-            )
-        {
+        } else if matches!(
+            v[i],
+            Token::Other("calc") | Token::SelectorElement(SelectorElement::PseudoClass("calc"))
+        ) && matches!(
+            v.get(i + 1),
+            Some(Token::Char(ReservedChar::OpenParenthese))
+        ) {
             is_in_calc = true;
         }
 
-- 
2.43.0


From 32a06d8dfe288ed0fe4b9bcbd09d596d5188ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 63/80] fix: js: the last dot of a spread does not start a
 number

---
 src/js/token.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 62dfaad..da568c0 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -596,6 +596,18 @@ fn is_property_name(v: &[Token<'_>]) -> bool {
     dots == 1 || dots == 2
 }
 
+// Returns true if the dot coming next is the last one of a `...`.
+fn is_spread(v: &[Token<'_>]) -> bool {
+    matches!(
+        v,
+        [
+            ..,
+            Token::Char(ReservedChar::Dot),
+            Token::Char(ReservedChar::Dot)
+        ]
+    )
+}
+
 // `^` and `~` are part of the token, like in `~typeof /x/`.
 fn other_allows_regex_after(s: &str) -> bool {
     s.rsplit_once(['^', '~']).is_some_and(|(_, s)| {
@@ -1040,7 +1052,10 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
             }
         };
         if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::Dot && check_if_number(&mut iterator, start, pos, source) {
+            if c == ReservedChar::Dot
+                && !(start == pos && is_spread(&v))
+                && check_if_number(&mut iterator, start, pos, source)
+            {
                 let mut cont = true;
                 if let Some(x) = iterator.peek() {
                     if !"0123456789,; \t\n<>/*&|{}[]-+=~%^:!".contains(x.1) {
-- 
2.43.0


From f3b21cf7a65382767f2a9727ae0d493ce4218664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 64/80] fix: js: recognise every number before a dot

---
 src/js/token.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index da568c0..2e7ee27 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -979,9 +979,13 @@ fn handle_equal_sign(v: &mut Vec<Token<'_>>, c: ReservedChar) -> bool {
 }
 
 fn check_if_number(iterator: &mut MyPeekable<'_>, start: usize, pos: usize, source: &str) -> bool {
-    if source[start..pos].find('.').is_some() {
+    // `^` and `~` are part of the token: `~0. in a`
+    let number = source[start..pos].rsplit(['^', '~']).next().unwrap_or("");
+    if number.find('.').is_some() {
         return false;
-    } else if u64::from_str(&source[start..pos]).is_ok() {
+    } else if number.starts_with(|c: char| c.is_ascii_digit())
+        && number.chars().all(|c| c.is_ascii_digit() || c == '_')
+    {
         return true;
     } else if let Some((_, x)) = iterator.peek() {
         return x as u8 >= b'0' && x as u8 <= b'9';
-- 
2.43.0


From d88339d855e6b702d39162db4ec5c618bb684cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 65/80] fix: js: a carriage return can follow a number ending
 with a dot

---
 src/js/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 2e7ee27..3c0f19d 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -1062,7 +1062,7 @@ pub fn tokenize(source: &str) -> Result<Tokens<'_>, &'static str> {
             {
                 let mut cont = true;
                 if let Some(x) = iterator.peek() {
-                    if !"0123456789,; \t\n<>/*&|{}[]-+=~%^:!".contains(x.1) {
+                    if !"0123456789,; \t\r\n<>/*&|{}[]-+=~%^:!".contains(x.1) {
                         fill_other(source, &mut v, start, pos);
                         start = pos;
                         cont = false;
-- 
2.43.0


From a7dfc6a083df5ab232e9dc1136e795e66db07933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 66/80] fix: js: do not create HTML-like comments

---
 src/js/utils.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index a27c21c..b7e01c5 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -1,6 +1,6 @@
 // Take a look at the license at the top of the repository in the LICENSE file.
 
-use crate::js::token::{Keyword, Operation, ReservedChar, Token, Tokens};
+use crate::js::token::{Condition, Keyword, Operation, ReservedChar, Token, Tokens};
 use std::vec::IntoIter;
 
 pub(crate) struct VariableNameGenerator<'a> {
@@ -296,6 +296,16 @@ fn push_token<'a>(v: &mut Vec<Token<'a>>, token: Token<'a>, is_separated: bool)
     if is_separated && v.last().is_some_and(|last| need_separation(last, &token)) {
         v.push(Token::Char(ReservedChar::Space));
     }
+    // `<!--` starts a comment: `a < !--b`
+    if token == Token::Operation(Operation::Subtract)
+        && v.ends_with(&[
+            Token::Condition(Condition::InferiorThan),
+            Token::Char(ReservedChar::ExclamationMark),
+            Token::Operation(Operation::Subtract),
+        ])
+    {
+        v.insert(v.len() - 2, Token::Char(ReservedChar::Space));
+    }
     v.push(token);
 }
 
-- 
2.43.0


From 894ad624da114a10b6406573461429a97cc24df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 67/80] fix: js: a number starting with a dot can follow a
 spread

---
 src/js/token.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 3c0f19d..c602da9 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -598,14 +598,11 @@ fn is_property_name(v: &[Token<'_>]) -> bool {
 
 // Returns true if the dot coming next is the last one of a `...`.
 fn is_spread(v: &[Token<'_>]) -> bool {
-    matches!(
-        v,
-        [
-            ..,
-            Token::Char(ReservedChar::Dot),
-            Token::Char(ReservedChar::Dot)
-        ]
-    )
+    v.iter()
+        .rev()
+        .take_while(|t| t.eq_char(ReservedChar::Dot))
+        .count()
+        == 2
 }
 
 // `^` and `~` are part of the token, like in `~typeof /x/`.
-- 
2.43.0


From b1cd1cca384bd294b2223369b7e625ed76c9b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 68/80] fix: js: do not look into comments to find out what
 precedes a regular expression

---
 src/js/token.rs | 60 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index c602da9..27dda35 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -763,23 +763,44 @@ fn get_string<'a>(
     None
 }
 
-/// Can a regular expression follow `before`, which is a part of a template literal?
+/// Splits `s` before the word it ends with.
+fn split_last_word(s: &str) -> (&str, &str) {
+    s.split_at(
+        s.trim_end_matches(|c: char| c.is_alphanumeric() || "_$".contains(c))
+            .len(),
+    )
+}
+
+/// Can a regular expression follow `before`, which is a part of a template literal without its
+/// comments and without the content of its strings and regular expressions?
 fn can_start_regex(before: &str) -> bool {
+    let before = before.trim_end();
     if before.ends_with("++") || before.ends_with("--") {
         return false;
     }
-    if before.ends_with("...") || before.ends_with(|c: char| "{([,;:=!?&|+-*%^~<>".contains(c)) {
+    if before.ends_with("...") || before.ends_with(|c: char| "{([,;:=!?&|+-*/%^~<>".contains(c)) {
         return true;
     }
-    let rest = before.trim_end_matches(|c: char| c.is_alphanumeric() || "_$".contains(c));
-    let word = &before[rest.len()..];
+    let (rest, word) = split_last_word(before);
+    if !Keyword::try_from(word).is_ok_and(|k| k.allows_regex_after()) {
+        return false;
+    }
     let rest = rest.trim_end();
-    (rest.ends_with("...") || !rest.ends_with('.'))
-        && Keyword::try_from(word).is_ok_and(|k| k.allows_regex_after())
+    if rest.ends_with("...") {
+        return true;
+    }
+    let Some(rest) = rest.strip_suffix('.') else {
+        return true;
+    };
+    // The dot might be the end of a number: `1. in /a/`
+    let (rest, number) = split_last_word(rest);
+    number.starts_with(|c: char| c.is_ascii_digit())
+        && number.chars().all(|c| c.is_ascii_digit() || c == '_')
+        && (rest.ends_with("...") || !rest.ends_with('.'))
 }
 
-/// Goes to the end of a regular expression, if it has one.
-fn skip_regex(iterator: &mut MyPeekable<'_>) {
+/// Goes to the end of a regular expression. Returns false if it has none.
+fn skip_regex(iterator: &mut MyPeekable<'_>) -> bool {
     let mut in_class = false;
 
     iterator.start_save();
@@ -793,13 +814,14 @@ fn skip_regex(iterator: &mut MyPeekable<'_>) {
             ']' => in_class = false,
             '/' if !in_class => {
                 iterator.drop_save();
-                return;
+                return true;
             }
             '\n' | '\r' => break,
             _ => {}
         }
     }
     iterator.stop_save();
+    false
 }
 
 // Maximum nesting depth for template literals inside `${ ... }` interpolations.
@@ -822,11 +844,11 @@ fn get_backtick_string<'a>(
         }
         if c == '$' && iterator.peek().map(|(_, c)| c == '{').unwrap_or(false) {
             let mut count = 0;
-            // End of what is neither a whitespace nor a comment.
-            let mut end = pos;
+            // What comes before the current character.
+            let mut before = String::new();
 
             loop {
-                if let Some((mut pos, c)) = iterator.next() {
+                if let Some((mut pos, mut c)) = iterator.next() {
                     if c == '\\' {
                         // we skip next character
                         iterator.next();
@@ -851,7 +873,7 @@ fn get_backtick_string<'a>(
                                 break;
                             }
                         }
-                        continue;
+                        c = ' ';
                     } else if c == '/' && iterator.peek().is_some_and(|(_, c)| c == '*') {
                         iterator.next();
                         let mut prev = ' ';
@@ -861,9 +883,11 @@ fn get_backtick_string<'a>(
                             }
                             prev = c;
                         }
-                        continue;
-                    } else if c == '/' && can_start_regex(&source[*start_pos..end]) {
-                        skip_regex(iterator);
+                        c = ' ';
+                    } else if c == '/' && can_start_regex(&before) {
+                        if skip_regex(iterator) {
+                            c = ')';
+                        }
                     } else if c == '{' {
                         count += 1;
                     } else if c == '}' {
@@ -872,9 +896,7 @@ fn get_backtick_string<'a>(
                             break;
                         }
                     }
-                    if !c.is_whitespace() {
-                        end = iterator.peek().map_or(source.len(), |(pos, _)| pos);
-                    }
+                    before.push(c);
                 } else {
                     return Ok(None);
                 }
-- 
2.43.0


From dfe4b3c4272034aeeef541def6e45b960794a27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 69/80] fix: js: use the positions of the strings in the
 existing array

The array can have elements which are no strings, and can be declared after others.
---
 src/js/tools.rs | 60 +++++++++++++++++++++++++++++--------------------
 src/js/utils.rs | 41 ++++++++++++++++++++++++++++++++-
 2 files changed, 76 insertions(+), 25 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 4eb5b7b..b5f3eb2 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -3,7 +3,7 @@
 use std::{fmt, io};
 
 use crate::js::token::{self, Keyword, Operation, ReservedChar, Token, Tokens};
-use crate::js::utils::{get_array, get_variable_name_and_value_positions, VariableNameGenerator};
+use crate::js::utils::{get_array, get_variable_name_and_value_positions, update_depth, VariableNameGenerator};
 
 use std::collections::{HashMap, HashSet};
 
@@ -228,22 +228,6 @@ fn starts_statement(tokens: &Tokens<'_>, pos: usize) -> bool {
     }
 }
 
-fn update_depth(depth: &mut usize, token: &Token<'_>) {
-    match token.get_char() {
-        Some(
-            ReservedChar::OpenCurlyBrace
-            | ReservedChar::OpenParenthese
-            | ReservedChar::OpenBracket,
-        ) => *depth += 1,
-        Some(
-            ReservedChar::CloseCurlyBrace
-            | ReservedChar::CloseParenthese
-            | ReservedChar::CloseBracket,
-        ) => *depth = depth.saturating_sub(1),
-        _ => {}
-    }
-}
-
 // TODO: No scope handling or anything. Might be nice as a second step to add it...
 fn get_variables_name<'a>(
     tokens: &'a Tokens<'a>,
@@ -524,6 +508,28 @@ fn has_double_quote(s: &str) -> bool {
     false
 }
 
+/// Returns the tokens of each element of an array.
+fn get_elements<'a>(tokens: &Tokens<'_>, array: &'a [usize]) -> Vec<&'a [usize]> {
+    let mut depth = 0;
+    let mut elements = array
+        .split(|pos| {
+            update_depth(&mut depth, &tokens[*pos]);
+            depth == 0 && tokens[*pos].eq_char(ReservedChar::Comma)
+        })
+        .collect::<Vec<_>>();
+    // A comma can follow the last element.
+    if elements.last().is_some_and(|e| e.is_empty()) {
+        elements.pop();
+    }
+    elements
+}
+
+fn is_spread(tokens: &Tokens<'_>, element: &[usize]) -> bool {
+    element
+        .first()
+        .is_some_and(|pos| tokens[*pos].eq_char(ReservedChar::Dot))
+}
+
 fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> bool>(
     mut tokens: Tokens<'a>,
     array_name: &str,
@@ -545,15 +551,21 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             };
         let mut validated: HashSet<&str> = HashSet::new();
 
-        let mut array_pos = 0;
-        for s in current_array_values.iter() {
-            if let Some(st) = tokens.0[*s].get_string() {
-                strs.insert(&st[1..st.len() - 1], (array_pos, vec![], false));
-                array_pos += 1;
-                validated.insert(&st[1..st.len() - 1]);
-                to_ignore.insert(*s);
+        let elements = get_elements(&tokens, &current_array_values);
+        if elements.iter().any(|e| is_spread(&tokens, e)) {
+            // There is no way to know the positions in the array.
+            return tokens;
+        }
+        for (i, element) in elements.iter().enumerate() {
+            if let [s] = *element {
+                if let Some(st) = tokens[*s].get_string().filter(|s| !s.starts_with('`')) {
+                    strs.insert(&st[1..st.len() - 1], (i, vec![], false));
+                    validated.insert(&st[1..st.len() - 1]);
+                }
             }
+            to_ignore.extend(element.iter().copied());
         }
+        let mut array_pos = elements.len();
 
         let mut array_pos_str = array_pos.to_string();
         for pos in 0..tokens.len() {
diff --git a/src/js/utils.rs b/src/js/utils.rs
index b7e01c5..2a346b2 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -456,6 +456,24 @@ pub fn clean_token_except<'a, F: Fn(&Token<'a>) -> bool>(
     }
 }
 
+pub(crate) fn update_depth(depth: &mut usize, token: &Token<'_>) {
+    match token.get_char() {
+        Some(
+            ReservedChar::OpenCurlyBrace
+            | ReservedChar::OpenParenthese
+            | ReservedChar::OpenBracket,
+        ) => *depth += 1,
+        Some(
+            ReservedChar::CloseCurlyBrace
+            | ReservedChar::CloseParenthese
+            | ReservedChar::CloseBracket,
+        ) => *depth = depth.saturating_sub(1),
+        _ => {}
+    }
+}
+
+/// Returns the positions of the tokens (commas included) inside the array called `array_name`, and
+/// the position of its closing bracket.
 pub(crate) fn get_array<'a>(
     tokens: &'a Tokens<'a>,
     array_name: &str,
@@ -470,8 +488,27 @@ pub(crate) fn get_array<'a>(
     let mut looking_for_equal = false;
     let mut looking_for_array_start = false;
     let mut getting_values = false;
+    let mut depth = 0usize;
+    // Depth inside of the array.
+    let mut array_depth = 0;
+    // Depths of the declarations which can go on with a comma.
+    let mut declarations: Vec<usize> = Vec::new();
 
     for pos in 0..tokens.len() {
+        update_depth(&mut depth, &tokens[pos]);
+        declarations.retain(|d| *d <= depth);
+        if !getting_values {
+            match tokens[pos] {
+                Token::Char(ReservedChar::Comma) if declarations.last() == Some(&depth) => {
+                    looking_for_var = true;
+                    looking_for_equal = false;
+                    looking_for_array_start = false;
+                    continue;
+                }
+                Token::Char(ReservedChar::SemiColon) => declarations.retain(|d| *d < depth),
+                _ => {}
+            }
+        }
         if looking_for_var {
             match tokens[pos] {
                 Token::Other(s) => {
@@ -499,6 +536,7 @@ pub(crate) fn get_array<'a>(
                 Token::Char(ReservedChar::OpenBracket) => {
                     looking_for_array_start = false;
                     getting_values = true;
+                    array_depth = depth;
                 }
                 ref s => {
                     looking_for_array_start = is_skipped(s);
@@ -506,7 +544,7 @@ pub(crate) fn get_array<'a>(
             }
         } else if getting_values {
             match &tokens[pos] {
-                Token::Char(ReservedChar::CloseBracket) => {
+                Token::Char(ReservedChar::CloseBracket) if depth < array_depth => {
                     return Some((ret, pos));
                 }
                 s if is_skipped(s) => {}
@@ -520,6 +558,7 @@ pub(crate) fn get_array<'a>(
                 | Token::Keyword(Keyword::Var)
                 | Token::Keyword(Keyword::Const) => {
                     looking_for_var = true;
+                    declarations.push(depth);
                 }
                 _ => {}
             }
-- 
2.43.0


From bbcccaa5485664178eda2d18a3568f307c790f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 70/80] fix: js: only use an existing array where it is in
 scope and declared

---
 src/js/tools.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index b5f3eb2..c929f0c 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -530,6 +530,18 @@ fn is_spread(tokens: &Tokens<'_>, element: &[usize]) -> bool {
         .is_some_and(|pos| tokens[*pos].eq_char(ReservedChar::Dot))
 }
 
+/// Returns the position of the token that closes the block in which `pos` is.
+fn get_scope_end(tokens: &Tokens<'_>, pos: usize) -> usize {
+    let mut depth = 1;
+    tokens[pos + 1..]
+        .iter()
+        .position(|t| {
+            update_depth(&mut depth, t);
+            depth == 0
+        })
+        .map_or(tokens.len(), |len| pos + 1 + len)
+}
+
 fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> bool>(
     mut tokens: Tokens<'a>,
     array_name: &str,
@@ -566,9 +578,15 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             to_ignore.extend(element.iter().copied());
         }
         let mut array_pos = elements.len();
+        // An existing array can only be used where it is in scope, once it is declared.
+        let usable = if need_recreate {
+            0..tokens.len()
+        } else {
+            end_bracket..get_scope_end(&tokens, end_bracket)
+        };
 
         let mut array_pos_str = array_pos.to_string();
-        for pos in 0..tokens.len() {
+        for pos in usable {
             if to_ignore.contains(&pos) {
                 continue;
             }
-- 
2.43.0


From eec3adfbcbb23d7fbd910dadbf5a4f6b2f7f28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 71/80] fix: js: keep the names of properties when aggregating
 strings into variables

---
 src/js/tools.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index c929f0c..d5c8aa4 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -271,8 +271,8 @@ fn get_variables_name<'a>(
 }
 
 /// Returns false if the string can't be replaced by an expression: template literals, names of
-/// methods, directives, and strings of imports and exports.
-fn is_value(tokens: &Tokens<'_>, pos: usize) -> bool {
+/// methods, directives, and strings of imports and exports, and if `keep_names`, names of properties.
+fn is_value(tokens: &Tokens<'_>, pos: usize, keep_names: bool) -> bool {
     fn is_useful(t: &&Token<'_>) -> bool {
         !t.is_comment() && !t.is_license() && !t.is_white_character()
     }
@@ -281,12 +281,18 @@ fn is_value(tokens: &Tokens<'_>, pos: usize) -> bool {
         return false;
     }
     let next = tokens[pos + 1..].iter().find(is_useful);
+    let is_before_colon = next.is_some_and(|t| t.eq_char(ReservedChar::Colon));
     let is_kept = match tokens[..pos].iter().rfind(is_useful) {
-        // FIXME: names of properties (`{"a": 1}`) should be kept as well.
+        Some(Token::Char(ReservedChar::OpenCurlyBrace | ReservedChar::Comma))
+            if is_before_colon && keep_names =>
+        {
+            true
+        }
+        // FIXME: aggregation into an array should keep the names of properties (`{"a": 1}`) too.
         None
         | Some(Token::Char(
             ReservedChar::OpenCurlyBrace | ReservedChar::CloseCurlyBrace | ReservedChar::SemiColon,
-        )) => !next.is_some_and(|t| t.eq_char(ReservedChar::Colon)),
+        )) => !is_before_colon,
         Some(t) => matches!(
             t,
             Token::Keyword(Keyword::Static) | Token::Other("import" | "from" | "as")
@@ -358,7 +364,7 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
 
         for pos in 0..tokens.len() {
             let token = &tokens[pos];
-            if let Some(str_token) = token.get_string().filter(|_| is_value(&tokens, pos)) {
+            if let Some(str_token) = token.get_string().filter(|_| is_value(&tokens, pos, true)) {
                 if let Some((var_pos, string_pos)) = values
                     .get(&str_token)
                     .filter(|(_, string_pos)| pos >= *string_pos)
@@ -591,7 +597,7 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
                 continue;
             }
             let token = &tokens[pos];
-            if let Some(str_token) = token.get_string().filter(|_| is_value(&tokens, pos)) {
+            if let Some(str_token) = token.get_string().filter(|_| is_value(&tokens, pos, false)) {
                 if !filter(&tokens, pos) {
                     continue;
                 }
-- 
2.43.0


From 5e805d236422917e67d9878df261dbab7078c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 72/80] fix: js: look up the name of a variable after a licence
 or at the start of the tokens

A name was not found when a licence stands between it and its keyword (or
comma), and any name after a single token was taken for a declared one.
---
 src/js/utils.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 2a346b2..14262d6 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -181,19 +181,19 @@ pub fn get_variable_name_and_value_positions<'a>(
         Token::Keyword(Keyword::Let) | Token::Keyword(Keyword::Var) => {
             tmp += 1;
         }
-        Token::Other(_) if pos > 0 => {
-            let mut pos = pos - 1;
-            while pos > 0 {
-                if tokens[pos].is_comment() || tokens[pos].is_white_character() {
-                    pos -= 1;
-                } else if tokens[pos] == Token::Char(ReservedChar::Comma)
-                    || tokens[pos] == Token::Keyword(Keyword::Let)
-                    || tokens[pos] == Token::Keyword(Keyword::Var)
-                {
-                    break;
-                } else {
-                    return None;
-                }
+        Token::Other(_) => {
+            let previous = tokens[..pos]
+                .iter()
+                .rfind(|t| !t.is_comment() && !t.is_license() && !t.is_white_character());
+            if !matches!(
+                previous,
+                Some(
+                    Token::Char(ReservedChar::Comma)
+                        | Token::Keyword(Keyword::Let)
+                        | Token::Keyword(Keyword::Var)
+                )
+            ) {
+                return None;
             }
         }
         _ => return None,
-- 
2.43.0


From 605fdd2fa5c49379b330e654ae9096976a28999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 73/80] fix: js: only use a variable for its string if nothing
 else can change or hide it

A variable named r_* which is assigned again, declared twice or shadowed was
used as if it always held its first string, and so was one which a comma
expression assigns, maybe in the body of an if.
---
 src/js/tools.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index d5c8aa4..1caf45a 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -240,8 +240,15 @@ fn get_variables_name<'a>(
 
     while pos < tokens.len() {
         update_depth(&mut depth, &tokens[pos]);
-        if let Some(Keyword::Let | Keyword::Var) = tokens[pos].get_keyword() {
-            is_always_run = starts_statement(tokens, pos);
+        if depth == 0 {
+            match tokens[pos] {
+                Token::Keyword(Keyword::Let | Keyword::Var) => {
+                    is_always_run = starts_statement(tokens, pos);
+                }
+                // The declaration is over: there is none in `a, r_x = "b";`.
+                Token::Char(ReservedChar::SemiColon) => is_always_run = false,
+                _ => {}
+            }
         }
         if tokens[pos].is_keyword() || tokens[pos].is_other() {
             if let Some((var_pos, Some(value_pos))) =
@@ -355,8 +362,18 @@ fn aggregate_strings_inner<'a, 'b: 'a>(
         let mut var_gen = VariableNameGenerator::new(Some("r_"), 2);
         let mut next_name = var_gen.to_string();
 
-        let (mut all_variables, values) = get_variables_name(&tokens);
-        all_variables.extend(get_used_names(&tokens));
+        let (mut all_variables, mut values) = get_variables_name(&tokens);
+        let mut used_names: HashMap<&str, usize> = HashMap::new();
+        for name in get_used_names(&tokens) {
+            *used_names.entry(name).or_default() += 1;
+        }
+        // A variable which appears elsewhere might be assigned or shadowed there.
+        values.retain(|_, (var_pos, _)| {
+            tokens[*var_pos]
+                .get_other()
+                .is_some_and(|name| used_names.get(name) == Some(&1))
+        });
+        all_variables.extend(used_names.keys());
         while all_variables.contains(&next_name.as_str()) {
             var_gen.next();
             next_name = var_gen.to_string();
-- 
2.43.0


From 45178856c11ddca133ba6159cd0b6a2a84caebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 74/80] fix: js: look for the end of a regular expression only
 once

---
 src/js/token.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/js/token.rs b/src/js/token.rs
index 27dda35..50ae5f4 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -660,6 +660,7 @@ fn get_regex<'a>(
     }
     iterator.start_save();
     let mut in_class = false;
+    let mut end = usize::MAX;
     while let Some((pos, c)) = iterator.next() {
         if c == '\\' {
             // we skip next character
@@ -667,10 +668,12 @@ fn get_regex<'a>(
             continue;
         }
         if let Ok(c) = ReservedChar::try_from(c) {
-            if c == ReservedChar::OpenBracket {
-                in_class = true;
-            } else if c == ReservedChar::CloseBracket {
-                in_class = false;
+            if c == ReservedChar::OpenBracket || c == ReservedChar::CloseBracket {
+                if pos < iterator.no_regex_until {
+                    end = pos;
+                    break;
+                }
+                in_class = c == ReservedChar::OpenBracket;
             } else if c == ReservedChar::Slash && !in_class {
                 let mut is_global = false;
                 let mut is_interactive = false;
@@ -693,10 +696,12 @@ fn get_regex<'a>(
                 iterator.drop_save();
                 return ret;
             } else if c == ReservedChar::Backline {
+                end = pos;
                 break;
             }
         }
     }
+    iterator.no_regex_until = iterator.no_regex_until.max(end);
     iterator.stop_save();
     None
 }
@@ -802,24 +807,33 @@ fn can_start_regex(before: &str) -> bool {
 /// Goes to the end of a regular expression. Returns false if it has none.
 fn skip_regex(iterator: &mut MyPeekable<'_>) -> bool {
     let mut in_class = false;
+    let mut end = usize::MAX;
 
     iterator.start_save();
-    while let Some((_, c)) = iterator.next() {
+    while let Some((pos, c)) = iterator.next() {
         match c {
             '\\' => {
                 // we skip next character
                 iterator.next();
             }
+            '[' | ']' if pos < iterator.no_regex_until => {
+                end = pos;
+                break;
+            }
             '[' => in_class = true,
             ']' => in_class = false,
             '/' if !in_class => {
                 iterator.drop_save();
                 return true;
             }
-            '\n' | '\r' => break,
+            '\n' | '\r' => {
+                end = pos;
+                break;
+            }
             _ => {}
         }
     }
+    iterator.no_regex_until = iterator.no_regex_until.max(end);
     iterator.stop_save();
     false
 }
@@ -1016,6 +1030,9 @@ struct MyPeekable<'a> {
     inner: CharIndices<'a>,
     peeked: Option<(usize, char)>,
     saved: Option<(CharIndices<'a>, Option<(usize, char)>)>,
+    /// No regular expression was found up to this position: looking for its end again isn't needed
+    /// once in the same state, which is the case after any bracket.
+    no_regex_until: usize,
 }
 
 impl<'a> MyPeekable<'a> {
@@ -1024,6 +1041,7 @@ impl<'a> MyPeekable<'a> {
             inner: indices,
             peeked: None,
             saved: None,
+            no_regex_until: 0,
         }
     }
 
-- 
2.43.0


From a70d51c480a7bb3b831bccfd02d024bc97869c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 75/80] fix: js: don't go through all open declarations for
 every token

---
 src/js/utils.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/js/utils.rs b/src/js/utils.rs
index 14262d6..effb204 100644
--- a/src/js/utils.rs
+++ b/src/js/utils.rs
@@ -496,7 +496,10 @@ pub(crate) fn get_array<'a>(
 
     for pos in 0..tokens.len() {
         update_depth(&mut depth, &tokens[pos]);
-        declarations.retain(|d| *d <= depth);
+        // The depths only grow.
+        while declarations.last().is_some_and(|d| *d > depth) {
+            declarations.pop();
+        }
         if !getting_values {
             match tokens[pos] {
                 Token::Char(ReservedChar::Comma) if declarations.last() == Some(&depth) => {
@@ -505,7 +508,11 @@ pub(crate) fn get_array<'a>(
                     looking_for_array_start = false;
                     continue;
                 }
-                Token::Char(ReservedChar::SemiColon) => declarations.retain(|d| *d < depth),
+                Token::Char(ReservedChar::SemiColon) => {
+                    while declarations.last() == Some(&depth) {
+                        declarations.pop();
+                    }
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From cd15c0f016fec93bad34249ecba63da4f06dc04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 76/80] fix: html: look for the end of a raw text element only
 once

---
 src/html.rs | 106 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 75 insertions(+), 31 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index a556582..ef605d2 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -27,7 +27,6 @@ fn condense_whitespace(source: &str) -> String {
 }
 
 fn condense(source: &str) -> String {
-    let tag_or_raw_text = Regex::new(&format!("{}|{}", raw_text_element(), tag())).unwrap();
     let re = Regex::new(&format!(r"^<(style|script)\s{ATTRIBUTES}>")).unwrap();
     let type_reg =
         Regex::new(r#""[^"]*"|'[^']*'|\s+type="text/(css|javascript)"([\s/>])"#).unwrap();
@@ -47,11 +46,9 @@ fn condense(source: &str) -> String {
             })
             .into_owned()
     };
-    tag_or_raw_text
-        .replace_all(source, |caps: &Captures| {
-            re.replace(&caps[0], remove_type).into_owned()
-        })
-        .into_owned()
+    replace_tags(source, false, |tag| {
+        re.replace(tag, remove_type).into_owned()
+    })
 }
 
 // What stands between `<` and `>` in a tag, values of attributes included.
@@ -62,11 +59,65 @@ fn tag() -> String {
     format!("</?[a-zA-Z]{ATTRIBUTES}>")
 }
 
-// Matches an element whose content is text, whatever it looks like.
-fn raw_text_element() -> String {
-    ["script", "style", "textarea", "title"]
-        .map(|tag| format!(r"(?is:<{tag}(?:\s{ATTRIBUTES})?>.*?</{tag}\s*>)"))
-        .join("|")
+// Elements whose content is text, whatever it looks like.
+const RAW_TEXT_ELEMENTS: [&str; 4] = ["script", "style", "textarea", "title"];
+
+// Replaces the tags, the elements whose content is text (as a whole) and, if `comments` is set, the
+// comments.
+fn replace_tags(source: &str, comments: bool, replace: impl Fn(&str) -> String) -> String {
+    let start = if comments {
+        format!("{}|<!--", tag())
+    } else {
+        tag()
+    };
+    let start = Regex::new(&start).unwrap();
+    let raw_text = RAW_TEXT_ELEMENTS.map(|name| {
+        (
+            Regex::new(&format!(r"^(?i:<{name})[\s>]")).unwrap(),
+            Regex::new(&format!(r"(?i:</{name})\s*>")).unwrap(),
+        )
+    });
+    // What isn't closed is looked for only once.
+    let mut is_closed = RAW_TEXT_ELEMENTS.map(|_| true);
+    let mut is_comment_closed = true;
+    let mut output = String::with_capacity(source.len());
+    let mut pos = 0;
+
+    while let Some(found) = start.find_at(source, pos) {
+        let mut end = found.end();
+
+        output.push_str(&source[pos..found.start()]);
+        if found.as_str() == "<!--" {
+            if is_comment_closed {
+                is_comment_closed = match source[end..].find("-->") {
+                    Some(close) => {
+                        end += close + "-->".len();
+                        true
+                    }
+                    None => false,
+                };
+            }
+            if !is_comment_closed {
+                output.push_str(found.as_str());
+                pos = end;
+                continue;
+            }
+        } else {
+            let element = raw_text
+                .iter()
+                .position(|(open, _)| open.is_match(found.as_str()));
+            if let Some(element) = element.filter(|element| is_closed[*element]) {
+                match raw_text[element].1.find_at(source, end) {
+                    Some(close) => end = close.end(),
+                    None => is_closed[element] = false,
+                }
+            }
+        }
+        output.push_str(&replace(&source[found.start()..end]));
+        pos = end;
+    }
+    output.push_str(&source[pos..]);
+    output
 }
 
 fn clean_unneeded_tags(source: &str) -> String {
@@ -103,33 +154,29 @@ fn clean_unneeded_tags(source: &str) -> String {
         "</isindex>",
         "</param>",
     ];
-    let re = Regex::new(&format!("{}|{}", raw_text_element(), tag())).unwrap();
-    re.replace_all(source, |caps: &Captures| {
-        if useless_tags.contains(&&caps[0]) {
+    replace_tags(source, false, |tag| {
+        if useless_tags.contains(&tag) {
             String::new()
         } else {
-            caps[0].to_owned()
+            tag.to_owned()
         }
     })
-    .into_owned()
 }
 
 fn remove_comments(source: &str) -> String {
     // "build" and "endbuild" should be matched case insensitively.
-    let re = Regex::new(&format!("{}|{}|<!--(.|\n)*?-->", raw_text_element(), tag())).unwrap();
-    re.replace_all(source, |caps: &Captures| {
+    replace_tags(source, true, |tag| {
         let conditional = || {
-            let content = caps[0].replace("<!--", " ");
+            let content = tag.replace("<!--", " ");
             let content = content.trim_start();
             content.starts_with("[") || content.starts_with("<![endif]")
         };
-        if !caps[0].starts_with("<!--") || conditional() {
-            caps[0].to_owned()
+        if !tag.starts_with("<!--") || conditional() {
+            tag.to_owned()
         } else {
             String::new()
         }
     })
-    .into_owned()
 }
 
 fn clean_tag(tag: &str, parts: &Regex) -> String {
@@ -155,18 +202,15 @@ fn clean_tag(tag: &str, parts: &Regex) -> String {
 
 fn unquote_attributes(source: &str) -> String {
     let any_tag = Regex::new(&tag()).unwrap();
-    let tag_or_raw_text = Regex::new(&format!("{}|{}", raw_text_element(), tag())).unwrap();
     let parts =
         Regex::new(r#"([a-zA-Z]+)="([a-zA-Z0-9-_.]+)"|"[^"]*"|'[^']*'|[ \t\n\r\x0C]+"#).unwrap();
 
-    tag_or_raw_text
-        .replace_all(source, |caps: &Captures| {
-            // Only the first tag is one in an element whose content is text.
-            let end = any_tag.find(&caps[0]).map_or(0, |tag| tag.end());
-            let (tag, text) = caps[0].split_at(end);
-            format!("{}{text}", clean_tag(tag, &parts))
-        })
-        .into_owned()
+    replace_tags(source, false, |tag| {
+        // Only the first tag is one in an element whose content is text.
+        let end = any_tag.find(tag).map_or(0, |tag| tag.end());
+        let (tag, text) = tag.split_at(end);
+        format!("{}{text}", clean_tag(tag, &parts))
+    })
 }
 
 /// Returns a minified version of the provided HTML source.
-- 
2.43.0


From 715c7cfaee213693b7e6ed7f12af5723bf166dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:55 +0000
Subject: [PATCH 77/80] fix: js: don't count all the dots before a token

---
 src/js/token.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/js/token.rs b/src/js/token.rs
index 50ae5f4..3628ab4 100644
--- a/src/js/token.rs
+++ b/src/js/token.rs
@@ -590,6 +590,7 @@ fn is_property_name(v: &[Token<'_>]) -> bool {
         .iter()
         .rev()
         .filter(|t| !t.is_white_character() && !t.is_comment() && !t.is_license())
+        .take(3)
         .take_while(|t| t.eq_char(ReservedChar::Dot))
         .count();
     // There are two dots in `0..name`.
@@ -600,6 +601,7 @@ fn is_property_name(v: &[Token<'_>]) -> bool {
 fn is_spread(v: &[Token<'_>]) -> bool {
     v.iter()
         .rev()
+        .take(3)
         .take_while(|t| t.eq_char(ReservedChar::Dot))
         .count()
         == 2
-- 
2.43.0


From 688761852c46900e2626327886ed7cd3c1d4e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:55 +0000
Subject: [PATCH 78/80] fix: html: find all tags in one go

---
 src/html.rs | 120 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 77 insertions(+), 43 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index ef605d2..6f69dc3 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -1,6 +1,7 @@
 // Take a look at the license at the top of the repository in the LICENSE file.
 
 use regex::{Captures, Regex};
+use std::{mem, ops::Range};
 
 // Contrary to `char::is_whitespace`, non-breaking spaces aren't whitespaces.
 fn is_whitespace(c: char) -> bool {
@@ -11,16 +12,19 @@ fn condense_whitespace(source: &str) -> String {
     let lower_source = source.to_lowercase();
     if lower_source.find("<textarea").is_none() && lower_source.find("<pre").is_none() {
         // maybe should be better not to recreate Regex every time?
-        let re = Regex::new(&format!(r"{}|[ \t\n\r\x0C]+", tag())).unwrap();
-        re.replace_all(source, |caps: &Captures| {
-            if caps[0].starts_with('<') {
-                // The whitespaces of the values of the attributes have to remain.
-                caps[0].to_owned()
-            } else {
-                " ".to_owned()
-            }
-        })
-        .into_owned()
+        let re = Regex::new(r"[ \t\n\r\x0C]+").unwrap();
+        let tags = Tags::new(source);
+        let mut output = String::with_capacity(source.len());
+        let mut pos = 0;
+
+        // The whitespaces of the values of the attributes have to remain.
+        while let Some(tag) = tags.find(pos) {
+            output.push_str(&re.replace_all(&source[pos..tag.start], " "));
+            output.push_str(&source[tag.clone()]);
+            pos = tag.end;
+        }
+        output.push_str(&re.replace_all(&source[pos..], " "));
+        output
     } else {
         source.trim_matches(is_whitespace).to_owned()
     }
@@ -54,9 +58,49 @@ fn condense(source: &str) -> String {
 // What stands between `<` and `>` in a tag, values of attributes included.
 const ATTRIBUTES: &str = r#"(?:[^"'>]|"[^"]*"|'[^']*')*"#;
 
-// Matches a tag.
-fn tag() -> String {
-    format!("</?[a-zA-Z]{ATTRIBUTES}>")
+// Finds tags.
+struct Tags<'a> {
+    source: &'a str,
+    // Where the tag ends for every position in it which isn't in the value of an attribute.
+    ends: Vec<Option<usize>>,
+}
+
+impl<'a> Tags<'a> {
+    fn new(source: &'a str) -> Self {
+        let mut ends = vec![None; source.len() + 1];
+        // Where the tag ends if a quote which comes next closes a value.
+        let mut after_quote = None;
+        let mut after_apostrophe = None;
+
+        for (pos, c) in source.bytes().enumerate().rev() {
+            let next = ends[pos + 1];
+            ends[pos] = match c {
+                b'>' => Some(pos + 1),
+                b'"' => mem::replace(&mut after_quote, next),
+                b'\'' => mem::replace(&mut after_apostrophe, next),
+                _ => next,
+            };
+        }
+        Tags { source, ends }
+    }
+
+    // Returns where the tag that starts at `start` ends.
+    fn end(&self, start: usize) -> Option<usize> {
+        let name = self.source[start..].strip_prefix('<')?;
+        let name = name.strip_prefix('/').unwrap_or(name);
+        if name.starts_with(|c: char| c.is_ascii_alphabetic()) {
+            self.ends[self.source.len() - name.len()]
+        } else {
+            None
+        }
+    }
+
+    // Returns the first tag from `pos` on.
+    fn find(&self, pos: usize) -> Option<Range<usize>> {
+        self.source[pos..]
+            .match_indices('<')
+            .find_map(|(start, _)| Some(pos + start..self.end(pos + start)?))
+    }
 }
 
 // Elements whose content is text, whatever it looks like.
@@ -65,12 +109,7 @@ const RAW_TEXT_ELEMENTS: [&str; 4] = ["script", "style", "textarea", "title"];
 // Replaces the tags, the elements whose content is text (as a whole) and, if `comments` is set, the
 // comments.
 fn replace_tags(source: &str, comments: bool, replace: impl Fn(&str) -> String) -> String {
-    let start = if comments {
-        format!("{}|<!--", tag())
-    } else {
-        tag()
-    };
-    let start = Regex::new(&start).unwrap();
+    let tags = Tags::new(source);
     let raw_text = RAW_TEXT_ELEMENTS.map(|name| {
         (
             Regex::new(&format!(r"^(?i:<{name})[\s>]")).unwrap(),
@@ -83,38 +122,34 @@ fn replace_tags(source: &str, comments: bool, replace: impl Fn(&str) -> String)
     let mut output = String::with_capacity(source.len());
     let mut pos = 0;
 
-    while let Some(found) = start.find_at(source, pos) {
-        let mut end = found.end();
+    while let Some(start) = source[pos..].find('<') {
+        let start = pos + start;
 
-        output.push_str(&source[pos..found.start()]);
-        if found.as_str() == "<!--" {
-            if is_comment_closed {
-                is_comment_closed = match source[end..].find("-->") {
-                    Some(close) => {
-                        end += close + "-->".len();
-                        true
-                    }
-                    None => false,
-                };
-            }
-            if !is_comment_closed {
-                output.push_str(found.as_str());
-                pos = end;
-                continue;
+        output.push_str(&source[pos..start]);
+        pos = start;
+        if comments && is_comment_closed && source[start..].starts_with("<!--") {
+            match source[start + "<!--".len()..].find("-->") {
+                Some(len) => pos += "<!--".len() + len + "-->".len(),
+                None => is_comment_closed = false,
             }
-        } else {
+        } else if let Some(end) = tags.end(start) {
+            pos = end;
             let element = raw_text
                 .iter()
-                .position(|(open, _)| open.is_match(found.as_str()));
+                .position(|(open, _)| open.is_match(&source[start..end]));
             if let Some(element) = element.filter(|element| is_closed[*element]) {
                 match raw_text[element].1.find_at(source, end) {
-                    Some(close) => end = close.end(),
+                    Some(close) => pos = close.end(),
                     None => is_closed[element] = false,
                 }
             }
         }
-        output.push_str(&replace(&source[found.start()..end]));
-        pos = end;
+        if pos > start {
+            output.push_str(&replace(&source[start..pos]));
+        } else {
+            output.push('<');
+            pos += 1;
+        }
     }
     output.push_str(&source[pos..]);
     output
@@ -201,13 +236,12 @@ fn clean_tag(tag: &str, parts: &Regex) -> String {
 }
 
 fn unquote_attributes(source: &str) -> String {
-    let any_tag = Regex::new(&tag()).unwrap();
     let parts =
         Regex::new(r#"([a-zA-Z]+)="([a-zA-Z0-9-_.]+)"|"[^"]*"|'[^']*'|[ \t\n\r\x0C]+"#).unwrap();
 
     replace_tags(source, false, |tag| {
         // Only the first tag is one in an element whose content is text.
-        let end = any_tag.find(tag).map_or(0, |tag| tag.end());
+        let end = Tags::new(tag).end(0).unwrap_or(0);
         let (tag, text) = tag.split_at(end);
         format!("{}{text}", clean_tag(tag, &parts))
     })
-- 
2.43.0


From f41c2520ea5a9ba0302654807b6193614a57e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 79/80] fix: js: insert all strings into the array at once

---
 src/js/tools.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 1caf45a..35da280 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -573,8 +573,10 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
 ) -> Tokens<'a> {
     let mut to_insert = Vec::with_capacity(100);
     let mut to_replace = Vec::with_capacity(100);
+    // The last one comes first.
+    let mut new_entries = Vec::with_capacity(100);
 
-    {
+    let entries_pos = {
         let mut to_ignore = HashSet::new();
         // key: the token string
         // value: (position in the array, positions in the tokens list, need creation)
@@ -687,14 +689,15 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
             }
             // The string has no quote of one kind at least which isn't escaped.
             let quote = if has_double_quote(s) { '\'' } else { '"' };
-            to_insert.push((end_bracket, Token::CreatedVar(format!("{quote}{s}{quote}"))));
+            new_entries.push(Token::CreatedVar(format!("{quote}{s}{quote}")));
             let is_first = !iter.peek().is_some_and(|(_, next)| strs[**next].2);
             if is_first && !ends_with_value {
                 continue;
             }
-            to_insert.push((end_bracket, Token::Char(ReservedChar::Comma)));
+            new_entries.push(Token::Char(ReservedChar::Comma));
         }
-    }
+        end_bracket
+    };
     for (pos, rep) in to_replace.into_iter() {
         tokens.0[pos] = rep;
     }
@@ -702,6 +705,9 @@ fn aggregate_strings_into_array_inner<'a, 'b: 'a, T: Fn(&Tokens<'a>, usize) -> b
         tokens.0.insert(pos, rep);
     }
     tokens
+        .0
+        .splice(entries_pos..entries_pos, new_entries.into_iter().rev());
+    tokens
 }
 
 /// Exactly like `aggregate_strings_into_array` except this one expects a separation token
-- 
2.43.0


From 4b8f805544d6aad63936391464f5d75293a05b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 80/80] fix: js: don't look for the same name of a variable
 again and again

---
 src/js/tools.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/js/tools.rs b/src/js/tools.rs
index 35da280..3339bef 100644
--- a/src/js/tools.rs
+++ b/src/js/tools.rs
@@ -237,6 +237,8 @@ fn get_variables_name<'a>(
     let mut pos = 0;
     let mut depth = 0usize;
     let mut is_always_run = false;
+    // The name of all the declarations before this position is already known.
+    let mut next_name = 0;
 
     while pos < tokens.len() {
         update_depth(&mut depth, &tokens[pos]);
@@ -250,10 +252,12 @@ fn get_variables_name<'a>(
                 _ => {}
             }
         }
-        if tokens[pos].is_keyword() || tokens[pos].is_other() {
-            if let Some((var_pos, Some(value_pos))) =
-                get_variable_name_and_value_positions(tokens, pos)
-            {
+        if (tokens[pos].is_keyword() && pos >= next_name) || tokens[pos].is_other() {
+            let variable = get_variable_name_and_value_positions(tokens, pos);
+            if matches!(tokens[pos], Token::Keyword(Keyword::Let | Keyword::Var)) {
+                next_name = variable.map_or(tokens.len(), |(var_pos, _)| var_pos);
+            }
+            if let Some((var_pos, Some(value_pos))) = variable {
                 for token in &tokens[pos + 1..=value_pos] {
                     update_depth(&mut depth, token);
                 }
-- 
2.43.0

