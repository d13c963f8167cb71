From 7b8a391654d4a96326b011e7f1a659c729c770ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 01/59] fix: csvp: a newline after a quoted field ends the
 record

A quoted last field swallowed the record terminator as trailing whitespace, so the
next row was either merged into this one or rejected.
---
 csvp/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 7a67674..5c209d6 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -231,8 +231,9 @@ impl<'a> Parser<'a> {
     fn parse_rest_of_quoted_field(&mut self, fb: FieldBuilder) -> Result<FieldResult> {
         loop {
             match self.consume_char() {
-                Some(c) if c.is_whitespace() => continue,
                 Some(c) if self.is_field_separator(c) => return Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => return Ok(FieldResult::last(fb)),
+                Some(c) if c.is_whitespace() => continue,
                 Some(c) => {
                     // it's not whitespace or a comma
                     return Err(self.parse_error(format!(
-- 
2.43.0


From c0adb88e949d25153139ee30a320ec3b6d774010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 02/59] fix: csvp: parse fields in a loop rather than recursing
 per character

A long field overflowed the stack (loader threads only have 2 MiB).
---
 csvp/src/parser.rs | 104 +++++++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 60 deletions(-)

diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index 5c209d6..e8bf91d 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -153,75 +153,59 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        self.consume_whitespace();
-
-        match self.consume_char() {
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_field(fb)
-            }
-            // Some(c) if c.is_whitespace() => self.parse_field(fb),
-            Some('"') => Ok(self.parse_quoted_field(fb, false)?),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                Ok(self.parse_unquoted_field(fb)?)
-            }
-            None => Ok(FieldResult::Eof),
+        loop {
+            self.consume_whitespace();
+
+            return match self.consume_char() {
+                Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
+                Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                    continue;
+                }
+                Some('"') => self.parse_quoted_field(fb),
+                Some(c) => {
+                    fb.push(c, &mut *self);
+                    Ok(self.parse_unquoted_field(fb))
+                }
+                None => Ok(FieldResult::Eof),
+            };
         }
     }
 
-    fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
-        match self.consume_char() {
-            Some('\\') if self.next_is_newline() => {
-                // consume the newline then continue parsing this field
-                self.consume_char();
-                self.parse_unquoted_field(fb)
-            }
-            Some(c) if self.is_field_separator(c) => Ok(FieldResult::some(fb)),
-            Some(c) if is_record_terminator(c) => Ok(FieldResult::last(fb)),
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_unquoted_field(fb)
+    fn parse_unquoted_field(&mut self, mut fb: FieldBuilder) -> FieldResult {
+        loop {
+            match self.consume_char() {
+                Some('\\') if self.next_is_newline() => {
+                    // consume the newline then continue parsing this field
+                    self.consume_char();
+                }
+                Some(c) if self.is_field_separator(c) => return FieldResult::some(fb),
+                Some(c) if is_record_terminator(c) => return FieldResult::last(fb),
+                Some(c) => fb.push(c, &mut *self),
+                None => return FieldResult::last(fb),
             }
-            None => Ok(FieldResult::last(fb)),
         }
     }
 
-    fn parse_quoted_field(
-        &mut self,
-        mut fb: FieldBuilder,
-        escape_mode: bool,
-    ) -> Result<FieldResult> {
-        let c = self.consume_char();
-        if escape_mode {
-            if let Some(c) = c {
-                fb.push(c, &mut *self);
-                return self.parse_quoted_field(fb, false);
-            }
-
-            return Err(self.parse_error("Expected a quoted character but got EOF"));
-        }
-
-        match c {
-            Some('"') => {
-                // is it two quotes in a row? if so it's a quoted quote
-                // TODO: or it could be a empty string? would we parse `foo,"",bar` correctly?
-                if let Some('"') = self.chars.peek() {
-                    self.parse_quoted_field(fb, true)
-                } else {
-                    // otherwise it's a terminating quote. we need to also make sure we consume any
-                    // trailing spaces and make sure there is a ','
-                    self.parse_rest_of_quoted_field(fb)
+    fn parse_quoted_field(&mut self, mut fb: FieldBuilder) -> Result<FieldResult> {
+        loop {
+            match self.consume_char() {
+                Some('"') => {
+                    // is it two quotes in a row? if so it's a quoted quote
+                    if let Some('"') = self.chars.peek() {
+                        self.consume_char();
+                        fb.push('"', &mut *self);
+                    } else {
+                        // otherwise it's a terminating quote. we need to also make sure we consume
+                        // any trailing spaces and make sure there is a ','
+                        return self.parse_rest_of_quoted_field(fb);
+                    }
                 }
+                Some(c) => fb.push(c, &mut *self),
+                None => return Ok(FieldResult::last(fb)),
             }
-            Some(c) => {
-                fb.push(c, &mut *self);
-                self.parse_quoted_field(fb, false)
-            }
-            None => Ok(FieldResult::some(fb)),
         }
     }
 
-- 
2.43.0


From 78355a2172a89d5b9a9cf748d0523f7450f3c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 03/59] fix: csvp: record the true source position of every
 character

Columns were off by one on every line after the first, a quoted newline was recorded
on the wrong line, and leading blanks inside quotes shifted all positions.
---
 csvp/src/field_builder.rs |  8 ++++++--
 csvp/src/parser.rs        | 18 +++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/csvp/src/field_builder.rs b/csvp/src/field_builder.rs
index b43603b..01abb15 100644
--- a/csvp/src/field_builder.rs
+++ b/csvp/src/field_builder.rs
@@ -9,10 +9,14 @@ pub(crate) struct FieldBuilder {
 
 impl From<FieldBuilder> for Field {
     fn from(pf: FieldBuilder) -> Self {
+        let trimmed_start = pf.value.trim_start();
+        let leading_chars = pf.value.chars().count() - trimmed_start.chars().count();
+
         Field {
             address: pf.address,
-            value: pf.value.trim().to_string(),
-            positions: pf.positions,
+            value: trimmed_start.trim_end().to_string(),
+            // keep the positions lined up with the trimmed value
+            positions: pf.positions.into_iter().skip(leading_chars).collect(),
         }
     }
 }
diff --git a/csvp/src/parser.rs b/csvp/src/parser.rs
index e8bf91d..bc2616f 100644
--- a/csvp/src/parser.rs
+++ b/csvp/src/parser.rs
@@ -25,7 +25,9 @@ pub struct Parser<'a> {
     config: &'a Config,
     chars: iter::Peekable<str::Chars<'a>>,
     source_line: usize,
-    source_offset: isize,
+    source_offset: usize,
+    /// The position of the last character we consumed
+    last_position: Option<SourcePosition>,
 }
 
 #[derive(Debug)]
@@ -54,11 +56,9 @@ enum RecordResult {
 
 impl From<&mut Parser<'_>> for SourcePosition {
     fn from(p: &mut Parser) -> Self {
-        if let Ok(o) = usize::try_from(p.source_offset) {
-            Self::new(o, p.source_line + p.config.lines_above)
-        } else {
+        p.last_position.unwrap_or_else(|| {
             panic!("Attempted to create a SourcePosition before the parser has consumed any characters.")
-        }
+        })
     }
 }
 
@@ -72,8 +72,8 @@ impl<'a> Parser<'a> {
             config,
             chars: input.chars().peekable(),
             source_line: 0,
-            // -1 because we're going to increment as we consume characters
-            source_offset: -1,
+            source_offset: 0,
+            last_position: None,
         }
     }
 
@@ -231,6 +231,10 @@ impl<'a> Parser<'a> {
 
     fn consume_char(&mut self) -> Option<char> {
         if let Some(c) = self.chars.next() {
+            self.last_position = Some(SourcePosition::new(
+                self.source_offset,
+                self.source_line + self.config.lines_above,
+            ));
             if is_record_terminator(c) {
                 self.source_line += 1;
                 self.source_offset = 0;
-- 
2.43.0


From f1b49d200dccff47177db3c07356db360be59649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 04/59] fix: csvp: do not keep positions for the blanks trimmed
 off a field

---
 csvp/src/field_builder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/csvp/src/field_builder.rs b/csvp/src/field_builder.rs
index 01abb15..47e4bcc 100644
--- a/csvp/src/field_builder.rs
+++ b/csvp/src/field_builder.rs
@@ -11,12 +11,19 @@ impl From<FieldBuilder> for Field {
     fn from(pf: FieldBuilder) -> Self {
         let trimmed_start = pf.value.trim_start();
         let leading_chars = pf.value.chars().count() - trimmed_start.chars().count();
+        let value = trimmed_start.trim_end().to_string();
+        let value_chars = value.chars().count();
 
         Field {
             address: pf.address,
-            value: trimmed_start.trim_end().to_string(),
+            value,
             // keep the positions lined up with the trimmed value
-            positions: pf.positions.into_iter().skip(leading_chars).collect(),
+            positions: pf
+                .positions
+                .into_iter()
+                .skip(leading_chars)
+                .take(value_chars)
+                .collect(),
         }
     }
 }
-- 
2.43.0


From 64d6e988376bf056d68cf586521340b20ec008c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 05/59] fix: keywords do not match the start of longer names,
 names can contain dots and be directly followed by :=

---
 src/parser/ast_lexer/token_library.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index 68659f4..56d08ac 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -37,8 +37,8 @@ impl TokenLibrary {
         static TOKEN_LIBRARY: sync::OnceLock<TokenLibrary> = sync::OnceLock::new();
 
         TOKEN_LIBRARY.get_or_init(|| Self {
-            boolean_true: TokenMatcher::new(r"true", Token::Boolean),
-            boolean_false: TokenMatcher::new(r"false", Token::Boolean),
+            boolean_true: TokenMatcher::new(r"true\b", Token::Boolean),
+            boolean_false: TokenMatcher::new(r"false\b", Token::Boolean),
             comma: TokenMatcher::new(r",", Token::Comma),
             comment: TokenMatcher::new(r"(?m)#.*", Token::Comment),
             code_section_eof: TokenMatcher::new(r"---", Token::CodeSectionEof),
@@ -51,10 +51,11 @@ impl TokenLibrary {
             integer: TokenMatcher::new(r"\d+", Token::Integer),
             float: TokenMatcher::new(r"\d+\.\d*", Token::Float),
             fn_def: TokenMatcher::new(r"fn\s+", Token::FunctionDefinition),
-            newline: TokenMatcher::new(r"\n", Token::Newline),
+            newline: TokenMatcher::new(r"\r?\n", Token::Newline),
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
-            reference: TokenMatcher::new(r"[$!\w:]+[$!\w:.]?", Token::Reference),
-            use_module: TokenMatcher::new(r"use", Token::UseModule),
+            // a `.` or a `:` (as long as it's not the start of `:=`) can be anywhere but at the start
+            reference: TokenMatcher::new(r"[$!\w](?:[$!\w.]|:[$!\w])*", Token::Reference),
+            use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
     }
-- 
2.43.0


From c8eb662c3dddb5a19d4d6df964de5906b0273e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 06/59] fix: report the true position of errors in formulas and
 multi-line definitions

---
 src/parser/ast_lexer/mod.rs           | 52 +++++++++++++++++++--------
 src/parser/ast_lexer/unknown_token.rs |  3 +-
 src/parser/token_matcher.rs           |  3 +-
 3 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 50b6aac..28c8ebf 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -52,6 +52,15 @@ fn matchers_ordered(tl: &TokenLibrary) -> [&TokenMatcher<Token>; 16] {
     ]
 }
 
+/// How many characters of `field` come before `input` (the options of a cell for example).
+fn field_offset(field: &Field, input: &str) -> CharOffset {
+    field
+        .value
+        .trim_end()
+        .strip_suffix(input)
+        .map_or(0, |before| before.chars().count())
+}
+
 impl<'a> AstLexer<'a> {
     pub(crate) fn new(
         input: &'a str,
@@ -60,7 +69,9 @@ impl<'a> AstLexer<'a> {
     ) -> ParseResult<AstLexer<'a>> {
         let token_library = TokenLibrary::library();
         let mut line_number = 0;
-        let mut line_offset = 0;
+        // within a field we count the characters of the field's value (the field will map that to a
+        // position), otherwise it's the offset on the current line
+        let mut line_offset = field.as_ref().map_or(0, |f| field_offset(f, input));
 
         let mut tokens: Vec<TokenMatch> = vec![];
         let mut p = if let Some(input) = input.strip_prefix('=') {
@@ -77,30 +88,37 @@ impl<'a> AstLexer<'a> {
                 let token = token_matcher.0;
 
                 if let Some(m) = token_matcher.try_match(p) {
-                    if token == Token::Newline {
-                        // just count the newline but don't store it on `tokens`
-                        line_number += 1;
-                    } else if token != Token::Comment {
+                    let (matched_input, rest) = p.split_at(m.len_full_match);
+
+                    if token != Token::Newline && token != Token::Comment {
                         // we'll want to consume everything except for comments and newlines (no point
                         // in the parsing logic needing to consider them)
+                        let leading_whitespace = &matched_input[..m.len_leading_whitespace];
                         tokens.push(TokenMatch {
                             token,
                             str_match: m.str_match,
-                            position: (line_offset + m.len_leading_whitespace, line_number).into(),
+                            position: (
+                                line_offset + leading_whitespace.chars().count(),
+                                line_number,
+                            )
+                                .into(),
                             field: field.clone(),
                             source_code: source_code.clone(),
                         });
                     }
 
-                    if token == Token::Newline {
-                        // move line_offset back to the beginning
-                        line_offset = 0;
-                    } else {
-                        line_offset += m.len_full_match;
+                    // a newline token, or a token which spans multiple lines moves us to another line
+                    for c in matched_input.chars() {
+                        if c == '\n' && field.is_none() {
+                            line_number += 1;
+                            line_offset = 0;
+                        } else {
+                            line_offset += 1;
+                        }
                     }
 
                     // move the input past the match
-                    p = &p[m.len_full_match..];
+                    p = rest;
                     matched = true;
 
                     break;
@@ -113,9 +131,15 @@ impl<'a> AstLexer<'a> {
 
             if !matched {
                 // we did a round of all the tokens and didn't match any of them - invalid syntax
+                let bad_input = p.trim_start();
+                let leading_whitespace = &p[..(p.len() - bad_input.len())];
                 return Err(UnknownToken {
-                    bad_input: p.to_string(),
-                    position: (line_offset, line_number).into(),
+                    bad_input: bad_input.to_string(),
+                    position: (
+                        line_offset + leading_whitespace.chars().count(),
+                        line_number,
+                    )
+                        .into(),
                     field,
                     source_code,
                 }
diff --git a/src/parser/ast_lexer/unknown_token.rs b/src/parser/ast_lexer/unknown_token.rs
index 9adb416..3ac3ea2 100644
--- a/src/parser/ast_lexer/unknown_token.rs
+++ b/src/parser/ast_lexer/unknown_token.rs
@@ -13,8 +13,7 @@ pub(crate) struct UnknownToken {
 
 impl fmt::Display for UnknownToken {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let mut shortened_bad_input = self.bad_input.clone();
-        shortened_bad_input.truncate(50);
+        let shortened_bad_input: String = self.bad_input.chars().take(50).collect();
         write!(f, "{shortened_bad_input}")
     }
 }
diff --git a/src/parser/token_matcher.rs b/src/parser/token_matcher.rs
index a43b4f4..944ac75 100644
--- a/src/parser/token_matcher.rs
+++ b/src/parser/token_matcher.rs
@@ -16,7 +16,8 @@ fn whitespace_start(input: &str) -> usize {
     input
         .chars()
         .take_while(|ch| ch.is_whitespace() && *ch != '\n' && *ch != '\r')
-        .count()
+        .map(char::len_utf8)
+        .sum()
 }
 
 impl<T> TokenMatcher<T> {
-- 
2.43.0


From 861182ef671da363599c679557bc58faeeb68f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 07/59] fix: cell options: report the position of the offending
 text, do not panic on non-ASCII text

---
 src/parser/cell_lexer/mod.rs           | 80 ++++++++++----------------
 src/parser/cell_lexer/token_match.rs   |  2 +
 src/parser/cell_lexer/unknown_token.rs |  2 +
 src/rgb/try_from.rs                    |  2 +-
 4 files changed, 35 insertions(+), 51 deletions(-)

diff --git a/src/parser/cell_lexer/mod.rs b/src/parser/cell_lexer/mod.rs
index 0cc4725..d002be7 100644
--- a/src/parser/cell_lexer/mod.rs
+++ b/src/parser/cell_lexer/mod.rs
@@ -46,14 +46,10 @@ impl<'a> CellLexer<'a> {
     pub(super) fn maybe_take_start_options(&mut self) -> Option<TokenMatch> {
         self.take_whitespace();
 
-        if let Some(without_match) = self.input.strip_prefix("[[") {
-            let token_match = self.match_token(Token::StartCellOptions, "[[");
-            self.replace_input(without_match, 2);
-            Some(token_match)
-        } else if let Some(without_match) = self.input.strip_prefix("![[") {
-            let token_match = self.match_token(Token::StartRowOptions, "![[");
-            self.replace_input(without_match, 3);
-            Some(token_match)
+        if self.input.starts_with("[[") {
+            Some(self.consume(Token::StartCellOptions, 2))
+        } else if self.input.starts_with("![[") {
+            Some(self.consume(Token::StartRowOptions, 3))
         } else {
             None
         }
@@ -146,13 +142,9 @@ impl<'a> CellLexer<'a> {
         self.take_whitespace();
 
         if let Some(m) = self.token_library.date.try_match(self.input) {
-            let str_match = m.str_match;
-
             // move the offset past any observed whitespace, then build the token
             self.move_input(m.len_leading_whitespace);
-            let token = self.match_token(Token::Date, str_match);
-            self.move_input(str_match.len());
-            Ok(token)
+            Ok(self.consume(Token::Date, m.str_match.len()))
         } else {
             Err(self.unknown_string("Expected a date"))
         }
@@ -163,12 +155,20 @@ impl<'a> CellLexer<'a> {
         self.move_input(self.input.len() - new_input.len());
     }
 
-    fn match_token(&self, token: Token, str_match: &'a str) -> TokenMatch {
+    /// Consume `len` bytes of the input as `token`
+    fn consume(&mut self, token: Token, len: usize) -> TokenMatch {
+        let str_match = &self.input[..len];
+        self.move_input(len);
+        self.match_token(token, str_match)
+    }
+
+    /// Build the token which was just consumed (it's position is the last character of it)
+    fn match_token(&self, token: Token, str_match: &str) -> TokenMatch {
         TokenMatch {
             token,
             str_match: str_match.to_string(),
             field: self.field.clone(),
-            cell_offset: self.current_cell_offset(),
+            cell_offset: self.cell_offset.saturating_sub(1),
             source_code: self.source_code.clone(),
         }
     }
@@ -177,7 +177,7 @@ impl<'a> CellLexer<'a> {
         UnknownToken {
             bad_input: self.input.to_string(),
             field: self.field.clone(),
-            cell_offset: self.current_cell_offset(),
+            cell_offset: self.cell_offset,
             source_code: self.source_code.clone(),
         }
         .into_parse_error(message)
@@ -186,10 +186,8 @@ impl<'a> CellLexer<'a> {
     fn maybe_take(&mut self, token: Token, substring: &'a str) -> Option<TokenMatch> {
         self.take_whitespace();
 
-        if let Some(without_match) = self.input.strip_prefix(substring) {
-            let token_match = self.match_token(token, substring);
-            self.replace_input(without_match, substring.len());
-            Some(token_match)
+        if self.input.starts_with(substring) {
+            Some(self.consume(token, substring.len()))
         } else {
             None
         }
@@ -197,23 +195,17 @@ impl<'a> CellLexer<'a> {
 
     fn maybe_take_regex(&mut self, tm: &TokenMatcher<Token>) -> Option<TokenMatch> {
         tm.try_match(self.input).map(|m| {
-            let str_match = m.str_match;
-
             // move the offset past any observed whitespace, then build the token
             self.move_input(m.len_leading_whitespace);
-            let token = self.match_token(tm.0, str_match);
-            self.move_input(str_match.len());
-            token
+            self.consume(tm.0, m.str_match.len())
         })
     }
 
     fn take(&mut self, token: Token, substring: &'a str) -> ParseResult<TokenMatch> {
         self.take_whitespace();
 
-        if let Some(without_match) = self.input.strip_prefix(substring) {
-            let token_match = self.match_token(token, substring);
-            self.replace_input(without_match, substring.len());
-            Ok(token_match)
+        if self.input.starts_with(substring) {
+            Ok(self.consume(token, substring.len()))
         } else {
             Err(self.unknown_string(format!("Error parsing input, expected '{substring}'")))
         }
@@ -251,9 +243,7 @@ impl<'a> CellLexer<'a> {
             }
         }
 
-        let token_match = self.match_token(Token::Color, &matched);
-        self.move_input(matched.len());
-        Ok(token_match)
+        Ok(self.consume(Token::Color, matched.len()))
     }
 
     fn take_string(&mut self) -> ParseResult<TokenMatch> {
@@ -280,7 +270,7 @@ impl<'a> CellLexer<'a> {
         for c in self.input.chars() {
             // due to escaping rules, we don't always put what we consume on `matched`.  so we need
             // to keep track of it separately
-            consumed += 1;
+            consumed += c.len_utf8();
 
             if start_quote {
                 if escape_mode {
@@ -302,9 +292,8 @@ impl<'a> CellLexer<'a> {
         }
 
         if start_quote && end_quote {
-            let token_match = self.match_token(Token::String, &matched);
             self.move_input(consumed);
-            Ok(token_match)
+            Ok(self.match_token(Token::String, &matched))
         } else {
             Err(self.unknown_string("Unterminated single-quoted string"))
         }
@@ -329,24 +318,15 @@ impl<'a> CellLexer<'a> {
         if matched.is_empty() {
             Err(self.unknown_string(format!("Expected a {token}")))
         } else {
-            self.move_input(matched.len());
-            Ok(self.match_token(token, &matched))
+            Ok(self.consume(token, matched.len()))
         }
     }
 
-    // our parser has the `cell_offset` set to one position ahead of where we last read
-    fn current_cell_offset(&self) -> CharOffset {
-        self.cell_offset.saturating_sub(1)
-    }
-
-    fn move_input(&mut self, amount: CharOffset) {
-        self.input = &self.input[amount..];
-        self.cell_offset += amount;
-    }
-
-    fn replace_input(&mut self, new_input: &'a str, amount: CharOffset) {
-        self.input = new_input;
-        self.cell_offset += amount;
+    /// Move past `amount` bytes of the input
+    fn move_input(&mut self, amount: usize) {
+        let (consumed, rest) = self.input.split_at(amount);
+        self.input = rest;
+        self.cell_offset += consumed.chars().count();
     }
 }
 
diff --git a/src/parser/cell_lexer/token_match.rs b/src/parser/cell_lexer/token_match.rs
index b926d7c..33637ba 100644
--- a/src/parser/cell_lexer/token_match.rs
+++ b/src/parser/cell_lexer/token_match.rs
@@ -46,6 +46,8 @@ impl BadInput for TokenMatch {
     fn position(&self) -> csvp::SourcePosition {
         self.field
             .position_for_offset(self.cell_offset)
+            // at the end of the input the closest we can get is the last character
+            .or_else(|| self.field.positions.last().copied())
             .unwrap_or_else(|| {
                 compiler_error(format!(
                     "Error getting position of {} from {:?}.",
diff --git a/src/parser/cell_lexer/unknown_token.rs b/src/parser/cell_lexer/unknown_token.rs
index 763ce06..37ac071 100644
--- a/src/parser/cell_lexer/unknown_token.rs
+++ b/src/parser/cell_lexer/unknown_token.rs
@@ -27,6 +27,8 @@ impl BadInput for UnknownToken {
     fn position(&self) -> csvp::SourcePosition {
         self.field
             .position_for_offset(self.cell_offset)
+            // at the end of the input the closest we can get is the last character
+            .or_else(|| self.field.positions.last().copied())
             .unwrap_or_else(|| {
                 compiler_error(format!(
                     "Error getting position of {} from {:?}.",
diff --git a/src/rgb/try_from.rs b/src/rgb/try_from.rs
index 4967e8a..52b3b03 100644
--- a/src/rgb/try_from.rs
+++ b/src/rgb/try_from.rs
@@ -39,7 +39,7 @@ impl TryFrom<TokenMatch> for Rgb {
         let start_at = usize::from(str_match.starts_with('#'));
         let input_len = str_match.len() - start_at;
 
-        if input_len == 3 || input_len == 6 {
+        if str_match.is_ascii() && (input_len == 3 || input_len == 6) {
             let (r, g, b) = parse_str(&str_match[start_at..])
                 .map_err(|e| input.into_parse_error(format!("Error parsing hex string: {e}")))?;
             Ok(Rgb::new(r, g, b))
-- 
2.43.0


From b65b3de09ed1b428f467d6f0078b32db68a6922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 08/59] fix: list the validation names that are accepted

---
 src/parser/cell_parser/validate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 56eeec1..3513034 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -84,10 +84,10 @@ impl CellParser<'_, '_> {
                     "text_contains(TEXT)",
                     "text_does_not_contain(TEXT)",
                     "text_equal_to(TEXT)",
-                    "text_is_valid_email",
-                    "text_is_valid_url",
-                    "value_in_list(ANY ...)",
-                    "value_in_range(A1)",
+                    "is_valid_email",
+                    "is_valid_url",
+                    "in_list(ANY ...)",
+                    "in_range(A1)",
                 ],
             )
             .into()),
-- 
2.43.0


From 1e67ac617a82346732537688563e6c3297243118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 09/59] fix: reject anything that follows a complete formula

---
 src/parser/ast_parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 0959cf4..3b8bae2 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -53,7 +53,14 @@ impl<'a> AstParser<'a> {
         field: Option<Field>,
         source_code: ArcSourceCode,
     ) -> ParseResult<Ast> {
-        AstParser::new(&AstLexer::new(input, field, source_code)?, single_expr).expr_bp(0)
+        let lexer = AstLexer::new(input, field, source_code)?;
+        let ast = AstParser::new(&lexer, single_expr).expr_bp(0)?;
+
+        let next = lexer.next();
+        match next.token {
+            Token::Eof => Ok(ast),
+            t => Err(next.into_parse_error(format!("Unexpected token ({t:?})"))),
+        }
     }
 
     /// Parse `input` from the command line, specified as a simple key/value string like
-- 
2.43.0


From 5ef6a1336c2c15395b499469ea2b3be332e6c553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 10/59] fix: combine the signs when a number is prefixed by
 more than one

---
 src/ast/node.rs          | 11 +++++++++++
 src/parser/ast_parser.rs | 12 ++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/ast/node.rs b/src/ast/node.rs
index 85e1087..fcc0bb2 100644
--- a/src/ast/node.rs
+++ b/src/ast/node.rs
@@ -8,6 +8,17 @@ pub enum NumberSign {
     Positive,
 }
 
+impl NumberSign {
+    /// The sign that results from prefixing a number (which might already have a sign) with this one
+    pub(crate) fn apply_to(self, sign: Option<Self>) -> Self {
+        match (self, sign) {
+            (Self::Negative, Some(Self::Negative)) => Self::Positive,
+            (_, Some(Self::Negative)) => Self::Negative,
+            (outer, _) => outer,
+        }
+    }
+}
+
 /// The most basic building block of our language AST.  The AST is made recursive by the fact that
 /// function calls and infix function calls can be composed.
 #[derive(Clone, Debug, PartialEq, serde::Deserialize, serde::Serialize)]
diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 3b8bae2..d6f6700 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -136,19 +136,23 @@ impl<'a> AstParser<'a> {
                 let rhs = self.expr_bp(r_bp)?;
                 match *rhs {
                     Node::Integer {
-                        percentage, value, ..
+                        percentage,
+                        sign: rhs_sign,
+                        value,
                     } => Node::Integer {
                         percentage,
-                        sign: Some(sign),
+                        sign: Some(sign.apply_to(rhs_sign)),
                         value,
                     }
                     .into(),
 
                     Node::Float {
-                        percentage, value, ..
+                        percentage,
+                        sign: rhs_sign,
+                        value,
                     } => Node::Float {
                         percentage,
-                        sign: Some(sign),
+                        sign: Some(sign.apply_to(rhs_sign)),
                         value,
                     }
                     .into(),
-- 
2.43.0


From 85daff26ab881cc562be0f329c0dd3a56c3d9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 11/59] fix: reject a second % after a number rather than
 ignoring it

---
 src/parser/ast_parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index d6f6700..51ecb7a 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -226,14 +226,22 @@ impl<'a> AstParser<'a> {
                     Node::FunctionCall { name: id, args }.into()
                 } else if op == "%" {
                     match *lhs {
-                        Node::Float { sign, value, .. } => Node::Float {
+                        Node::Float {
+                            percentage: false,
+                            sign,
+                            value,
+                        } => Node::Float {
                             percentage: true,
                             sign,
                             value,
                         }
                         .into(),
 
-                        Node::Integer { sign, value, .. } => Node::Integer {
+                        Node::Integer {
+                            percentage: false,
+                            sign,
+                            value,
+                        } => Node::Integer {
                             percentage: true,
                             sign,
                             value,
-- 
2.43.0


From 55c1cb79a6bec2ae491b3193ff33c7d234ecbfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 12/59] fix: keep the position of arguments which are left out
 of a function call

---
 src/parser/ast_parser.rs | 43 +++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 51ecb7a..77443ee 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -207,22 +207,7 @@ impl<'a> AstParser<'a> {
                             .into_parse_error(format!("Unable to get id for fn, saw {:?}", &lhs)));
                     };
 
-                    let mut args = vec![];
-
-                    // consume arguments (expressions) until we see a close paren
-                    loop {
-                        match self.lexer.peek().token {
-                            Token::CloseParen => {
-                                self.lexer.next();
-                                break;
-                            }
-                            Token::Comma => {
-                                self.lexer.next();
-                            }
-                            _ => args.push(self.expr_bp(0)?),
-                        }
-                    }
-
+                    let args = self.parse_call_args()?;
                     Node::FunctionCall { name: id, args }.into()
                 } else if op == "%" {
                     match *lhs {
@@ -286,6 +271,32 @@ impl<'a> AstParser<'a> {
         Ok(lhs)
     }
 
+    /// Consume the (comma-separated) arguments of a function call and the close paren. An argument
+    /// can be left out (i.e., `foo(1, , 2)`) but it still takes up it's position.
+    fn parse_call_args(&self) -> ParseResult<Vec<Ast>> {
+        let mut args = vec![];
+
+        if self.lexer.peek().token == Token::CloseParen {
+            self.lexer.next();
+            return Ok(args);
+        }
+
+        loop {
+            args.push(match self.lexer.peek().token {
+                Token::Comma | Token::CloseParen => Node::Reference(String::new()).into(),
+                _ => self.expr_bp(0)?,
+            });
+
+            let next = self.lexer.next();
+            match next.token {
+                Token::Comma => (),
+                Token::CloseParen => return Ok(args),
+                Token::Eof => return Err(next.into_parse_error("Expected an expression")),
+                _ => return Err(next.into_parse_error("Expected `,` or a close parenthesis (`)`)")),
+            }
+        }
+    }
+
     fn prefix_binding_power(op: &str) -> Option<((), u8)> {
         Some(match op {
             "+" | "-" => prefix_power!(17),
-- 
2.43.0


From e71e1ca3e19daddb1b9357bb5e76c91574bfba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 13/59] fix: allow a use statement after a definition

---
 src/parser/ast_parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 77443ee..87cd1e0 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -172,9 +172,10 @@ impl<'a> AstParser<'a> {
 
             if self.single_expr {
                 // in the case where we're just looking for a single expr, we can terminate
-                // iteration when we see a reference (beginning of `foo := ...`) or `fn`.
+                // iteration when we see a reference (beginning of `foo := ...`), `fn` or
+                // `use`.
                 match op_token.token {
-                    Token::Reference | Token::FunctionDefinition => break,
+                    Token::Reference | Token::FunctionDefinition | Token::UseModule => break,
                     // otherwise do nothing and the next match statement will do it's thing
                     // (regardless of the `single_expr` context)
                     _ => (),
-- 
2.43.0


From 04967f3b4277b8a05909e3afdc77f39189645745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 14/59] fix: reject misplaced commas in function definitions

---
 src/parser/code_section_parser.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/parser/code_section_parser.rs b/src/parser/code_section_parser.rs
index 99a4b85..c6f4d2b 100644
--- a/src/parser/code_section_parser.rs
+++ b/src/parser/code_section_parser.rs
@@ -120,14 +120,17 @@ impl<'a> CodeSectionParser<'a> {
         // this is different than a `FunctionCall` where the arguments to the function can be
         // expressions themselves.
         let mut fn_args = vec![];
-        loop {
-            let next = self.lexer.next();
+        let mut next = self.lexer.next();
+        while next.token != Token::CloseParen {
+            if next.token != Token::Reference {
+                return Err(next.into_error("Expected comma-separated function arguments or `)`"));
+            }
+            fn_args.push(next.str_match.to_string());
+
+            next = self.lexer.next();
             match next.token {
-                Token::CloseParen => break,
-                Token::Comma => (),
-                Token::Reference => {
-                    fn_args.push(next.str_match.to_string());
-                }
+                Token::CloseParen => (),
+                Token::Comma => next = self.lexer.next(),
                 _ => {
                     return Err(
                         next.into_error("Expected comma-separated function arguments or `)`")
-- 
2.43.0


From 2787782470eaa531db12dcfcc34de1aee0763152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 15/59] fix: expand calls and variables completely, without
 capture and without looping on cycles

---
 src/ast/eval.rs       | 352 +++++++++++++++++++++---------------------
 src/ast/references.rs |   1 -
 2 files changed, 179 insertions(+), 174 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 2c6bfc7..5801d85 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -2,226 +2,232 @@
 //!
 //! The main functions for evaluating a function or variable.
 //!
-use super::references::{AstReferences, ReferencesIter};
-use super::{Ast, Node, VariableValue, Variables};
+use super::{Ast, FunctionName, Node, VariableName, VariableValue};
 use crate::{EvalError, EvalResult, Scope};
 use std::collections;
 
-impl Ast {
-    /// The idea here is just to keep looping as long as we are making progress eval()ing. Where
-    /// progress means that `.extract_references()` returns a different, non-empty result each
-    /// time.
-    pub(crate) fn eval(self, scope: &Scope, position: Option<a1::Address>) -> EvalResult<Self> {
-        let mut evaled_ast = self;
-        let mut last_round_refs = AstReferences::default();
+/// How deep an expression can be nested once all of it's references are expanded.
+const MAX_DEPTH: usize = 500;
 
-        loop {
-            let refs = evaled_ast.extract_references(scope);
-            if refs.is_empty() || refs == last_round_refs {
-                break;
-            }
-            last_round_refs = refs.clone();
-
-            evaled_ast = evaled_ast
-                .eval_variables(Self::resolve_variables(
-                    scope,
-                    refs.variables.into_iter(),
-                    position,
-                ))
-                .eval_functions(refs.functions.into_iter(), scope)?;
-        }
+/// The arguments a function was called with (and how deeply nested they are)
+type Params = collections::HashMap<VariableName, (Ast, usize)>;
 
-        Ok(evaled_ast)
-    }
+#[derive(Clone, Debug, PartialEq)]
+enum Definition {
+    Function(FunctionName),
+    Variable(VariableName),
+}
+
+/// Expands all of the references to the functions and variables of `scope`.
+struct Evaluator<'a> {
+    depth: usize,
+    /// The definitions that we're currently in the middle of expanding
+    expanding: Vec<Definition>,
+    position: Option<a1::Address>,
+    scope: &'a Scope,
+}
 
-    /// Variables can all be resolved in one go - we just loop them by name and resolve the ones
-    /// that we can and leave the rest alone.
-    fn resolve_variables(
-        scope: &Scope,
-        var_names: ReferencesIter,
-        position: Option<a1::Address>,
-    ) -> collections::HashMap<String, Self> {
-        let mut resolved_vars: Variables = collections::HashMap::default();
-        for var_name in var_names {
-            if let Some(value) = scope.variables.get(&var_name) {
-                let value_from_var = match &**value {
-                    Node::Variable { value, .. } => value.clone().into_ast(position),
-                    n => n.clone().into(),
-                };
-
-                resolved_vars.insert(var_name.to_string(), value_from_var);
+impl Ast {
+    /// How many levels of expressions are nested in this one
+    fn depth(&self) -> usize {
+        match &**self {
+            Node::FunctionCall { args, .. } => {
+                args.iter().map(|a| a.depth() + 1).max().unwrap_or(0)
             }
+            Node::InfixFunctionCall { left, right, .. } => left.depth().max(right.depth()) + 1,
+            _ => 0,
         }
-
-        resolved_vars
     }
 
-    /// Evaluate the given `functions` calling `resolve_fn` upon each occurence to render a
-    /// replacement.  Unlike variable resolution, we can't produce the values up front because the
-    /// resolution function requires being called with the `arguments` at the call site.
-    fn eval_functions(self, fns_to_resolve: ReferencesIter, scope: &Scope) -> EvalResult<Self> {
-        let mut evaled_ast = self;
-        for fn_name in fns_to_resolve {
-            if let Some(fn_ast) = scope.functions.get(&fn_name) {
-                evaled_ast = evaled_ast.call_function(&fn_name, fn_ast)?;
-            } else {
-                // TODO: log a warning that we tried to resolve an unknown function
-                // this is one of those things that should never happen (since `fns_to_resolve`
-                // is only comprised of functions we know about)
-            }
+    /// Replace every reference to a variable and every call of a function that's defined by
+    /// `scope` until there are none left.
+    ///
+    /// # Errors
+    ///
+    /// * If a function is called with the wrong number of arguments
+    /// * If a function or variable is (directly or indirectly) defined in terms of itself
+    pub(crate) fn eval(self, scope: &Scope, position: Option<a1::Address>) -> EvalResult<Self> {
+        if self.extract_references(scope).is_empty() {
+            return Ok(self);
         }
 
-        Ok(evaled_ast)
+        Evaluator {
+            depth: 0,
+            expanding: vec![],
+            position,
+            scope,
+        }
+        .eval(self, &Params::default())
     }
+}
 
-    /// Use the mapping in `variable_values` to replace each variable referenced in the AST with
-    /// it's given replacement.
-    fn eval_variables(&self, variable_values: Variables) -> Self {
-        let mut evaled_ast = self.clone();
-        for (var_id, replacement) in variable_values {
-            evaled_ast = evaled_ast.replace_variable(&var_id, replacement);
-        }
+impl Evaluator<'_> {
+    /// `params` are the arguments (which have already been evaluated) of the function whose body
+    /// is being expanded. They take precedence over the variables in `scope`.
+    fn eval(&mut self, ast: Ast, params: &Params) -> EvalResult<Ast> {
+        self.depth += 1;
+        self.check_depth(self.depth)?;
+        let evaled = self.eval_node(ast.into_inner(), params)?;
+        self.depth -= 1;
 
-        evaled_ast
+        Ok(evaled)
     }
 
-    /// Do a depth-first-search on the AST, "calling" the function wherever we see a
-    /// `Node::FunctionCall` with the matching name.  Calling a function can result in two main
-    /// paths:
-    fn call_function(self, fn_id: &str, fn_ast: &Self) -> EvalResult<Self> {
-        let inner = self.into_inner();
-        Ok(match inner {
-            Node::FunctionCall { args, name } if name == fn_id => {
-                match (*fn_ast).clone().into_inner() {
-                    // when we get a `Node::Function`, take the body and replace each of it's
-                    // arguments in the body.  For example:
-                    //
-                    // fn foo(a, b) a + b
-                    //
-                    // called as:
-                    //
-                    // foo(1, 2)
-                    //
-                    // will evaluate to:
-                    //
-                    // (1 + 2)
-                    Node::Function {
-                        args: resolved_args,
-                        body,
-                        ..
-                    } => {
-                        if args.len() != resolved_args.len() {
-                            return Err(EvalError::new(
-                                fn_ast.to_string(),
-                                format!(
-                                    "Expected {} arguments but received {}",
-                                    args.len(),
-                                    resolved_args.len()
-                                ),
-                            ));
-                        }
-
-                        let mut evaled_body = body;
-                        for (i, resolved_arg) in resolved_args.iter().enumerate() {
-                            evaled_body =
-                                evaled_body.replace_variable(resolved_arg, args[i].clone());
-                        }
-
-                        evaled_body
-                    }
-
-                    // otherwise the function resolved to a non-function.  just treat that as
-                    // terminal and return it.
-                    node => node.into(),
-                }
-            }
-
-            // it's a function call but not the one we're looking for - recurse through the
-            // arguments
+    fn eval_node(&mut self, node: Node, params: &Params) -> EvalResult<Ast> {
+        Ok(match node {
             Node::FunctionCall { args, name } => {
-                let mut called_args = Vec::with_capacity(args.len());
+                let mut evaled_args = Vec::with_capacity(args.len());
                 for arg in args {
-                    called_args.push(arg.call_function(fn_id, fn_ast)?);
+                    evaled_args.push(self.eval(arg, params)?);
                 }
 
-                Node::FunctionCall {
+                return self.eval_function_call(name, evaled_args);
+            }
+
+            // the definition of a function - all we can do is expand everything in the body other
+            // than it's params
+            Node::Function { args, body, name } => {
+                let fn_params = args
+                    .iter()
+                    .map(|a| (a.clone(), (Node::Reference(a.clone()).into(), 0)))
+                    .collect();
+                Node::Function {
                     name,
-                    args: called_args,
+                    args,
+                    body: self.eval(body, &fn_params)?,
                 }
-                .into()
             }
 
-            // also recurse for infix functions
             Node::InfixFunctionCall {
                 left,
                 operator,
                 right,
             } => Node::InfixFunctionCall {
-                left: left.call_function(fn_id, fn_ast)?,
+                left: self.eval(left, params)?,
                 operator,
-                right: right.call_function(fn_id, fn_ast)?,
-            }
-            .into(),
+                right: self.eval(right, params)?,
+            },
+
+            Node::Reference(r) => return self.eval_reference(r, params),
 
             Node::Variable {
                 value: VariableValue::Ast(ast),
                 name,
             } => Node::Variable {
                 name,
-                value: VariableValue::Ast(ast.call_function(fn_id, fn_ast)?),
-            }
-            .into(),
+                value: VariableValue::Ast(self.eval(ast, params)?),
+            },
 
-            // otherwise just don't modify it
-            _ => inner.clone().into(),
-        })
+            // otherwise keep the Node unmodified
+            n => n,
+        }
+        .into())
     }
 
-    /// Depth-first-search replacing `Node::Reference`s of `var_id` with `replacement`.
-    fn replace_variable(&self, var_id: &str, replacement: Self) -> Self {
-        let inner = (**self).clone();
-        Ast::new(match inner {
-            Node::FunctionCall { args, name } => {
-                Node::FunctionCall {
-                    // recursively call for each arg to a function
-                    args: args
-                        .into_iter()
-                        .map(|a| a.replace_variable(var_id, replacement.clone()))
-                        .collect(),
-                    name,
-                }
-            }
+    /// When we're calling a `Node::Function`, take the body and replace each of it's arguments in
+    /// the body.  For example:
+    ///
+    /// fn foo(a, b) a + b
+    ///
+    /// called as:
+    ///
+    /// foo(1, 2)
+    ///
+    /// will evaluate to:
+    ///
+    /// (1 + 2)
+    fn eval_function_call(&mut self, name: FunctionName, args: Vec<Ast>) -> EvalResult<Ast> {
+        let Some(fn_ast) = self.scope.functions.get(&name) else {
+            return Ok(Node::FunctionCall { args, name }.into());
+        };
+
+        let Node::Function {
+            args: fn_args,
+            body,
+            ..
+        } = &**fn_ast
+        else {
+            // the function resolved to a non-function.  just treat that as terminal and return it.
+            return Ok(fn_ast.clone());
+        };
+
+        if args.len() != fn_args.len() {
+            return Err(EvalError::new(
+                fn_ast.to_string(),
+                format!(
+                    "Expected {} arguments but received {}",
+                    fn_args.len(),
+                    args.len()
+                ),
+            ));
+        }
 
-            Node::Function { args, body, name } => Node::Function {
-                name,
-                args,
-                body: body.replace_variable(var_id, replacement.clone()),
-            },
+        let params = fn_args
+            .iter()
+            .cloned()
+            .zip(args.into_iter().map(|a| {
+                let depth = a.depth();
+                (a, depth)
+            }))
+            .collect();
+        self.expand(Definition::Function(name), body.clone(), &params)
+    }
 
-            Node::InfixFunctionCall {
-                left,
-                operator,
-                right,
-            } => Node::InfixFunctionCall {
-                left: left.replace_variable(var_id, replacement.clone()),
-                operator,
-                right: right.replace_variable(var_id, replacement.clone()),
-            },
+    fn eval_reference(&mut self, name: VariableName, params: &Params) -> EvalResult<Ast> {
+        if let Some((param, param_depth)) = params.get(&name) {
+            self.check_depth(self.depth + param_depth)?;
+            return Ok(param.clone());
+        }
 
-            // a reference matching our variable - take the replacement
-            Node::Reference(r) if var_id == r => replacement.into_inner(),
+        let Some(definition) = self.scope.variables.get(&name) else {
+            return Ok(Node::Reference(name).into());
+        };
 
+        let value = match &**definition {
             Node::Variable {
                 value: VariableValue::Ast(ast),
-                name,
-            } => Node::Variable {
-                name,
-                value: VariableValue::Ast(ast.replace_variable(var_id, replacement.clone())),
-            },
+                ..
+            } => ast.clone(),
+            // it points at a cell, there's nothing in it to be expanded
+            Node::Variable { value, .. } => return Ok(value.clone().into_ast(self.position)),
+            _ => definition.clone(),
+        };
+
+        self.expand(Definition::Variable(name), value, &Params::default())
+    }
 
-            // otherwise keep the Node unmodified
-            _ => inner,
-        })
+    fn expand(&mut self, definition: Definition, ast: Ast, params: &Params) -> EvalResult<Ast> {
+        if self.expanding.contains(&definition) {
+            return Err(EvalError::new(
+                definition.name(),
+                "Defined in terms of itself (directly or indirectly)",
+            ));
+        }
+
+        self.expanding.push(definition);
+        let evaled = self.eval(ast, params)?;
+        self.expanding.pop();
+
+        Ok(evaled)
+    }
+
+    fn check_depth(&self, depth: usize) -> EvalResult<()> {
+        if depth <= MAX_DEPTH {
+            return Ok(());
+        }
+
+        Err(EvalError::new(
+            self.expanding.first().map_or("expression", |d| d.name()),
+            format!("Expressions can only be nested {MAX_DEPTH} levels deep"),
+        ))
+    }
+}
+
+impl Definition {
+    fn name(&self) -> &str {
+        match self {
+            Self::Function(name) | Self::Variable(name) => name,
+        }
     }
 }
 
diff --git a/src/ast/references.rs b/src/ast/references.rs
index 0abca64..3114511 100644
--- a/src/ast/references.rs
+++ b/src/ast/references.rs
@@ -3,7 +3,6 @@ use crate::Scope;
 use std::collections;
 
 type References = collections::HashSet<String>;
-pub(super) type ReferencesIter = collections::hash_set::IntoIter<String>;
 
 #[derive(Clone, Debug, Default, PartialEq)]
 pub(super) struct AstReferences {
-- 
2.43.0


From 7649285c37d055a76d8a603a16e8dfe2eaf0578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 16/59] fix: reject expressions nested so deeply that they
 would overflow the stack

---
 src/ast/eval.rs          |  5 +----
 src/ast/mod.rs           |  4 ++++
 src/module_loader/mod.rs | 11 ++++++++++-
 src/parser/ast_parser.rs | 29 +++++++++++++++++++++++++----
 4 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 5801d85..37f89f9 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -2,13 +2,10 @@
 //!
 //! The main functions for evaluating a function or variable.
 //!
-use super::{Ast, FunctionName, Node, VariableName, VariableValue};
+use super::{Ast, FunctionName, Node, VariableName, VariableValue, MAX_DEPTH};
 use crate::{EvalError, EvalResult, Scope};
 use std::collections;
 
-/// How deep an expression can be nested once all of it's references are expanded.
-const MAX_DEPTH: usize = 500;
-
 /// The arguments a function was called with (and how deeply nested they are)
 type Params = collections::HashMap<VariableName, (Ast, usize)>;
 
diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 5d9641c..bbf2e51 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -20,6 +20,10 @@ mod variable_value;
 
 pub(crate) use variable_value::VariableValue;
 
+/// How deep expressions can be nested (both in the source and once their references have been
+/// expanded)
+pub(crate) const MAX_DEPTH: usize = 500;
+
 type FunctionArgs = Vec<String>;
 type FunctionName = String;
 type VariableName = String;
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index dcdf549..05d5a97 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -13,6 +13,10 @@ use std::path;
 use std::sync;
 use std::thread;
 
+/// The same as what the main thread usually gets (threads get less by default), so that it doesn't
+/// matter which thread an expression is parsed on.
+const LOADER_STACK_SIZE: usize = 8 * 1024 * 1024;
+
 type ArcRwLock<T> = sync::Arc<sync::RwLock<T>>;
 
 type LoadedModules = collections::HashMap<ModulePath, Module>;
@@ -302,7 +306,12 @@ impl ModuleLoader {
         // in turn have modules to load
         thread::scope(|s| {
             for module_path in to_attempt {
-                s.spawn(|| self.load_module(module_path, &module.module_path));
+                if let Err(e) = thread::Builder::new()
+                    .stack_size(LOADER_STACK_SIZE)
+                    .spawn_scoped(s, || self.load_module(module_path, &module.module_path))
+                {
+                    compiler_error(format!("Unable to start a thread to load a module: {e}"));
+                }
             }
         });
 
diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index 87cd1e0..e546d36 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -12,11 +12,11 @@
 //! * [Which Parsing Approach?](https://news.ycombinator.com/item?id=24480504)
 //!
 use super::ast_lexer::{AstLexer, Token};
-use crate::ast::{Ast, Node, NumberSign, Variables};
+use crate::ast::{Ast, Node, NumberSign, Variables, MAX_DEPTH};
 use crate::error::{BadInput, Error, ParseResult, Result};
 use crate::{ArcSourceCode, SourceCode};
 use csvp::Field;
-use std::{collections, path};
+use std::{cell, collections, path};
 
 macro_rules! infix_power {
     ($p:expr) => {
@@ -37,13 +37,18 @@ macro_rules! postfix_power {
 }
 
 pub(crate) struct AstParser<'a> {
+    depth: cell::Cell<usize>,
     lexer: &'a AstLexer<'a>,
     single_expr: bool,
 }
 
 impl<'a> AstParser<'a> {
     pub(crate) fn new(lexer: &'a AstLexer<'a>, single_expr: bool) -> Self {
-        AstParser { lexer, single_expr }
+        AstParser {
+            depth: cell::Cell::default(),
+            lexer,
+            single_expr,
+        }
     }
 
     /// Parse `input` from a `SourceCode`.
@@ -97,9 +102,25 @@ impl<'a> AstParser<'a> {
         Ok(variables)
     }
 
+    /// Parse an expression, making sure that they don't get nested so deeply that we'd run out of
+    /// stack.
+    pub(super) fn expr_bp(&self, min_bp: u8) -> ParseResult<Ast> {
+        let depth = self.depth.get();
+        if depth >= MAX_DEPTH {
+            return Err(self.lexer.next().into_parse_error(format!(
+                "Expressions can only be nested {MAX_DEPTH} levels deep"
+            )));
+        }
+
+        self.depth.set(depth + 1);
+        let expr = self.expr_bp_unchecked(min_bp);
+        self.depth.set(depth);
+        expr
+    }
+
     /// The core pratt parser logic for parsing an expression of our AST.  
     #[allow(clippy::too_many_lines)]
-    pub(super) fn expr_bp(&self, min_bp: u8) -> ParseResult<Ast> {
+    fn expr_bp_unchecked(&self, min_bp: u8) -> ParseResult<Ast> {
         let lhs_token = self.lexer.next();
 
         let mut lhs = match lhs_token.token {
-- 
2.43.0


From c982592a7a52085e256850148b8891984195a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 17/59] fix: share the field between the tokens of a formula
 rather than copying it to each

---
 src/ast/eval.rs                       | 3 ++-
 src/parser/ast_lexer/mod.rs           | 6 ++++--
 src/parser/ast_lexer/token_match.rs   | 4 ++--
 src/parser/ast_lexer/unknown_token.rs | 4 ++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 37f89f9..04bf999 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -202,7 +202,8 @@ impl Evaluator<'_> {
         }
 
         self.expanding.push(definition);
-        let evaled = self.eval(ast, params)?;
+        self.check_depth(self.depth + self.expanding.len())?;
+        let evaled = self.eval_node(ast.into_inner(), params)?;
         self.expanding.pop();
 
         Ok(evaled)
diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 28c8ebf..94bbba0 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -21,8 +21,8 @@ pub(crate) struct AstLexer<'a> {
     lines: LineNumber,
     eof_position: CharOffset,
     source_code: ArcSourceCode,
-    // TODO: maybe it should be `Option<&'a Field>`
-    field: Option<Field>,
+    // every token has one of these so they need to share it
+    field: Option<rc::Rc<Field>>,
 }
 
 /// For better or worse the tokens are not mutually exclusive - some of them are subsets of another
@@ -73,6 +73,8 @@ impl<'a> AstLexer<'a> {
         // position), otherwise it's the offset on the current line
         let mut line_offset = field.as_ref().map_or(0, |f| field_offset(f, input));
 
+        let field = field.map(rc::Rc::new);
+
         let mut tokens: Vec<TokenMatch> = vec![];
         let mut p = if let Some(input) = input.strip_prefix('=') {
             line_offset += 1;
diff --git a/src/parser/ast_lexer/token_match.rs b/src/parser/ast_lexer/token_match.rs
index d2c2a57..a8b7d9f 100644
--- a/src/parser/ast_lexer/token_match.rs
+++ b/src/parser/ast_lexer/token_match.rs
@@ -5,11 +5,11 @@ use crate::parser::TokenInput;
 use crate::ArcSourceCode;
 use colored::Colorize;
 use csvp::{Field, SourcePosition};
-use std::fmt;
+use std::{fmt, rc};
 
 #[derive(Clone, Debug)]
 pub(crate) struct TokenMatch<'a> {
-    pub(crate) field: Option<Field>,
+    pub(crate) field: Option<rc::Rc<Field>>,
     pub(crate) position: SourcePosition,
     pub(crate) source_code: ArcSourceCode,
     pub(crate) str_match: &'a str,
diff --git a/src/parser/ast_lexer/unknown_token.rs b/src/parser/ast_lexer/unknown_token.rs
index 3ac3ea2..acb3adb 100644
--- a/src/parser/ast_lexer/unknown_token.rs
+++ b/src/parser/ast_lexer/unknown_token.rs
@@ -1,14 +1,14 @@
 use crate::error::{BadInput, ParseError};
 use crate::ArcSourceCode;
 use csvp::{Field, SourcePosition};
-use std::fmt;
+use std::{fmt, rc};
 
 #[derive(Debug)]
 pub(crate) struct UnknownToken {
     pub(crate) bad_input: String,
     pub(crate) position: SourcePosition,
     pub(crate) source_code: ArcSourceCode,
-    pub(crate) field: Option<Field>,
+    pub(crate) field: Option<rc::Rc<Field>>,
 }
 
 impl fmt::Display for UnknownToken {
-- 
2.43.0


From 3eec52252d436ba90ba09fe17b61b28821bf8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 18/59] fix: accept references to rows (1:1) in formulas

---
 src/parser/ast_lexer/mod.rs           | 4 +++-
 src/parser/ast_lexer/token_library.rs | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/ast_lexer/mod.rs b/src/parser/ast_lexer/mod.rs
index 94bbba0..27b9b86 100644
--- a/src/parser/ast_lexer/mod.rs
+++ b/src/parser/ast_lexer/mod.rs
@@ -29,7 +29,7 @@ pub(crate) struct AstLexer<'a> {
 /// (for example 555.55 could be matched by both float and integer (integer can just match the first
 /// part of it)) so it's important float is first. Another example is comments - they have to be
 /// stripped out first
-fn matchers_ordered(tl: &TokenLibrary) -> [&TokenMatcher<Token>; 16] {
+fn matchers_ordered(tl: &TokenLibrary) -> [&TokenMatcher<Token>; 17] {
     [
         &tl.newline,
         &tl.comment,
@@ -42,6 +42,8 @@ fn matchers_ordered(tl: &TokenLibrary) -> [&TokenMatcher<Token>; 16] {
         &tl.open_paren,
         &tl.operator,
         &tl.code_section_eof,
+        // rows (i.e., `1:1`) have to happen before integer, which would match just the first row
+        &tl.row_reference,
         // float has to be happen before integer!  it needs to greedy match 1.5, where integer will
         // also match the first part 1, but not the rest
         &tl.float,
diff --git a/src/parser/ast_lexer/token_library.rs b/src/parser/ast_lexer/token_library.rs
index 56d08ac..171d593 100644
--- a/src/parser/ast_lexer/token_library.rs
+++ b/src/parser/ast_lexer/token_library.rs
@@ -25,6 +25,7 @@ pub(crate) struct TokenLibrary {
     pub(crate) open_paren: Matcher,
     pub(crate) operator: Matcher,
     pub(crate) reference: Matcher,
+    pub(crate) row_reference: Matcher,
     pub(crate) use_module: Matcher,
     pub(crate) var_assign: Matcher,
 }
@@ -55,6 +56,7 @@ impl TokenLibrary {
             open_paren: TokenMatcher::new(r"\(", Token::OpenParen),
             // a `.` or a `:` (as long as it's not the start of `:=`) can be anywhere but at the start
             reference: TokenMatcher::new(r"[$!\w](?:[$!\w.]|:[$!\w])*", Token::Reference),
+            row_reference: TokenMatcher::new(r"\d+:\$?\d+", Token::Reference),
             use_module: TokenMatcher::new(r"use\b", Token::UseModule),
             var_assign: TokenMatcher::new(r":=", Token::VarAssign),
         })
-- 
2.43.0


From 08c6b90380751d51968b9a5004ceb7d736cd4af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 19/59] fix: reject expressions which would expand to an
 enormous formula

---
 src/ast/eval.rs | 74 +++++++++++++++++++++++++++++++++++++++----------
 src/ast/mod.rs  |  5 ++++
 2 files changed, 65 insertions(+), 14 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 04bf999..dd8783f 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -2,12 +2,19 @@
 //!
 //! The main functions for evaluating a function or variable.
 //!
-use super::{Ast, FunctionName, Node, VariableName, VariableValue, MAX_DEPTH};
+use super::{Ast, FunctionName, Node, VariableName, VariableValue, MAX_DEPTH, MAX_SIZE};
 use crate::{EvalError, EvalResult, Scope};
 use std::collections;
 
-/// The arguments a function was called with (and how deeply nested they are)
-type Params = collections::HashMap<VariableName, (Ast, usize)>;
+/// An argument a function was called with, how deeply nested it is and how many nodes it has
+#[derive(Debug)]
+struct Param {
+    ast: Ast,
+    depth: usize,
+    size: usize,
+}
+
+type Params = collections::HashMap<VariableName, Param>;
 
 #[derive(Clone, Debug, PartialEq)]
 enum Definition {
@@ -22,6 +29,18 @@ struct Evaluator<'a> {
     expanding: Vec<Definition>,
     position: Option<a1::Address>,
     scope: &'a Scope,
+    /// The number of nodes that we've evaluated so far
+    size: usize,
+}
+
+impl From<Ast> for Param {
+    fn from(ast: Ast) -> Self {
+        Self {
+            depth: ast.depth(),
+            size: ast.size(),
+            ast,
+        }
+    }
 }
 
 impl Ast {
@@ -36,6 +55,15 @@ impl Ast {
         }
     }
 
+    /// How many nodes this expression consists of
+    fn size(&self) -> usize {
+        match &**self {
+            Node::FunctionCall { args, .. } => args.iter().map(Self::size).sum::<usize>() + 1,
+            Node::InfixFunctionCall { left, right, .. } => left.size() + right.size() + 1,
+            _ => 1,
+        }
+    }
+
     /// Replace every reference to a variable and every call of a function that's defined by
     /// `scope` until there are none left.
     ///
@@ -53,6 +81,7 @@ impl Ast {
             expanding: vec![],
             position,
             scope,
+            size: 0,
         }
         .eval(self, &Params::default())
     }
@@ -71,6 +100,8 @@ impl Evaluator<'_> {
     }
 
     fn eval_node(&mut self, node: Node, params: &Params) -> EvalResult<Ast> {
+        self.add_size(1)?;
+
         Ok(match node {
             Node::FunctionCall { args, name } => {
                 let mut evaled_args = Vec::with_capacity(args.len());
@@ -86,7 +117,7 @@ impl Evaluator<'_> {
             Node::Function { args, body, name } => {
                 let fn_params = args
                     .iter()
-                    .map(|a| (a.clone(), (Node::Reference(a.clone()).into(), 0)))
+                    .map(|a| (a.clone(), Ast::from(Node::Reference(a.clone())).into()))
                     .collect();
                 Node::Function {
                     name,
@@ -162,18 +193,16 @@ impl Evaluator<'_> {
         let params = fn_args
             .iter()
             .cloned()
-            .zip(args.into_iter().map(|a| {
-                let depth = a.depth();
-                (a, depth)
-            }))
+            .zip(args.into_iter().map(Param::from))
             .collect();
         self.expand(Definition::Function(name), body.clone(), &params)
     }
 
     fn eval_reference(&mut self, name: VariableName, params: &Params) -> EvalResult<Ast> {
-        if let Some((param, param_depth)) = params.get(&name) {
-            self.check_depth(self.depth + param_depth)?;
-            return Ok(param.clone());
+        if let Some(param) = params.get(&name) {
+            self.check_depth(self.depth + param.depth)?;
+            self.add_size(param.size)?;
+            return Ok(param.ast.clone());
         }
 
         let Some(definition) = self.scope.variables.get(&name) else {
@@ -214,10 +243,27 @@ impl Evaluator<'_> {
             return Ok(());
         }
 
-        Err(EvalError::new(
+        Err(self.too_large(format!(
+            "Expressions can only be nested {MAX_DEPTH} levels deep"
+        )))
+    }
+
+    fn add_size(&mut self, size: usize) -> EvalResult<()> {
+        self.size += size;
+        if self.size <= MAX_SIZE {
+            return Ok(());
+        }
+
+        Err(self.too_large(format!(
+            "Expressions can only consist of {MAX_SIZE} terms"
+        )))
+    }
+
+    fn too_large(&self, message: String) -> EvalError {
+        EvalError::new(
             self.expanding.first().map_or("expression", |d| d.name()),
-            format!("Expressions can only be nested {MAX_DEPTH} levels deep"),
-        ))
+            message,
+        )
     }
 }
 
diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index bbf2e51..c81504a 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -24,6 +24,11 @@ pub(crate) use variable_value::VariableValue;
 /// expanded)
 pub(crate) const MAX_DEPTH: usize = 500;
 
+/// How large an expression can become once it's references have been expanded.  Definitions which
+/// use the previous one twice double in size each time, so without a limit a few of them would use
+/// up all memory.
+pub(crate) const MAX_SIZE: usize = 100_000;
+
 type FunctionArgs = Vec<String>;
 type FunctionName = String;
 type VariableName = String;
-- 
2.43.0


From 94913e870704a69bfa8182d1b954c019e0aaac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 20/59] fix: report the position of a use without a module name

---
 src/parser/code_section_parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/code_section_parser.rs b/src/parser/code_section_parser.rs
index c6f4d2b..9f4b8ef 100644
--- a/src/parser/code_section_parser.rs
+++ b/src/parser/code_section_parser.rs
@@ -77,7 +77,15 @@ impl<'a> CodeSectionParser<'a> {
 
     /// parses `use` followed by a module name
     fn parse_use_module(&self) -> Result<ModulePath> {
-        self.lexer.next().try_into()
+        let next = self.lexer.next();
+        match next.token {
+            Token::Boolean
+            | Token::DoubleQuotedString
+            | Token::Float
+            | Token::Integer
+            | Token::Reference => next.try_into(),
+            _ => Err(next.into_error("Expected the name of a module")),
+        }
     }
 
     /// parses a `:=` folloed by an `<expr>`
-- 
2.43.0


From f2587fe2852168e4a7b4fb75f73dd7857ab4d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 21/59] fix: load modules with a dot in their name from their
 own file

---
 src/module_path/try_from.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/module_path/try_from.rs b/src/module_path/try_from.rs
index c45a8c6..3098968 100644
--- a/src/module_path/try_from.rs
+++ b/src/module_path/try_from.rs
@@ -5,9 +5,11 @@ use std::path;
 
 impl From<ModulePath> for path::PathBuf {
     fn from(mn: ModulePath) -> path::PathBuf {
-        let mut p: path::PathBuf = mn.0.iter().collect();
-        p.set_extension("csvpp");
-        p
+        let p: path::PathBuf = mn.0.iter().collect();
+        // not `set_extension()`, the name of a module can have a `.` in it
+        let mut filename = p.into_os_string();
+        filename.push(".csvpp");
+        filename.into()
     }
 }
 
-- 
2.43.0


From c9f2d11a031283b70ff43dcc1c61b3ed029f0716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 22/59] fix: never use object code that is stale, was compiled
 with other variables or as another kind of module; report all failing
 imports; evaluate cyclic imports

The cache compares sources instead of modification times and records all of the
sources that a compiled main module depends on. Dependencies are cached as they
are parsed. Failed (transitive) dependencies and duplicate imports no longer
panic, imports are merged in order and only what a module defines is exported.
---
 src/ast/eval.rs             |   4 +-
 src/compiler/mod.rs         |  25 ++--
 src/error/display.rs        |   4 +-
 src/module/mod.rs           | 174 +++++++++--------------
 src/module_loader/cyclic.rs | 124 ++++++++++++++++
 src/module_loader/mod.rs    | 275 ++++++++++++------------------------
 src/scope/mod.rs            |  20 +++
 7 files changed, 322 insertions(+), 304 deletions(-)
 create mode 100644 src/module_loader/cyclic.rs

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index dd8783f..3f2c2b5 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -254,9 +254,7 @@ impl Evaluator<'_> {
             return Ok(());
         }
 
-        Err(self.too_large(format!(
-            "Expressions can only consist of {MAX_SIZE} terms"
-        )))
+        Err(self.too_large(format!("Expressions can only consist of {MAX_SIZE} terms")))
     }
 
     fn too_large(&self, message: String) -> EvalError {
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index d4b6ac4..36bdc02 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -44,24 +44,33 @@ impl Compiler {
         let main_module_path: ModulePath =
             path::Path::new(main_filename).to_path_buf().try_into()?;
 
-        let main_module =
-            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?;
+        // what it evaluates to also depends on the variables given on the command line
+        let use_main_cache = self.config.use_cache && self.config.key_values.is_empty();
 
-        debug!("Loading dependencies for {}", &main_module.module_path);
-        let mut main_module =
-            ModuleLoader::load_main(main_module, loader_root, self.config.use_cache)?;
+        let mut main_module = if use_main_cache {
+            Module::load_from_cache_from_filename(main_module_path, self.input_filename.clone())?
+        } else {
+            Module::load_from_source_from_filename(main_module_path, self.input_filename.clone())?
+        };
 
         if main_module.needs_eval {
+            debug!("Loading dependencies for {}", &main_module.module_path);
+            let (loaded_module, sources) = ModuleLoader::load_main_and_sources(
+                main_module,
+                loader_root,
+                self.config.use_cache,
+            )?;
+
             info!("Compiling main module");
-            main_module = self.eval(main_module)?;
+            main_module = self.eval(loaded_module)?;
             main_module.needs_eval = false;
 
-            if self.config.use_cache {
+            if use_main_cache {
                 debug!(
                     "Writing object file {:?}",
                     main_module.source_code.object_code_filename()
                 );
-                main_module.write_object_file()?;
+                main_module.write_object_file(&sources)?;
             }
         } else {
             info!("Cached main is up to date, skipping compilation");
diff --git a/src/error/display.rs b/src/error/display.rs
index 2941bdd..a64f8f0 100644
--- a/src/error/display.rs
+++ b/src/error/display.rs
@@ -1,5 +1,5 @@
 use super::Error;
-use std::fmt;
+use std::{collections, fmt};
 
 impl fmt::Display for Error {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
@@ -74,6 +74,8 @@ csv++ with `GOOGLE_APPLICATION_CREDENTIALS` or the `--google-account-credentials
             }
 
             Self::ModuleLoadErrors(errors) => {
+                // always in the same order, no matter which one failed first
+                let errors: collections::BTreeMap<_, _> = errors.iter().collect();
                 for (m, e) in errors {
                     writeln!(f, "Error loading module {m}")?;
                     writeln!(f, "{e}")?;
diff --git a/src/module/mod.rs b/src/module/mod.rs
index 5d9d807..37d5999 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -10,15 +10,16 @@
 //      be finite and subtract from it
 use crate::ast::Variables;
 use crate::parser::code_section_parser::CodeSectionParser;
-use crate::{
-    compiler_error, ArcSourceCode, Error, ModulePath, Result, Scope, SourceCode, Spreadsheet,
-};
+use crate::{ArcSourceCode, Error, ModulePath, Result, Scope, SourceCode, Spreadsheet};
 use log::{debug, error, info, warn};
 use rayon::prelude::*;
-use std::{cmp, fs, path};
+use std::{collections, fs, io, path};
 
 mod display;
 
+/// The sources of all of the modules that a module (directly or indirectly) depends on
+pub(crate) type Dependencies = collections::BTreeMap<ModulePath, String>;
+
 #[derive(Debug, serde::Deserialize, serde::Serialize)]
 pub struct Module {
     pub compiler_version: String,
@@ -66,40 +67,44 @@ impl Module {
         })
     }
 
-    fn load_from_object_code<P: AsRef<path::Path>>(
-        module_path: ModulePath,
-        relative_to: &ModulePath,
-        loader_root: P,
-    ) -> Option<Self> {
-        let filename = loader_root
-            .as_ref()
-            .join(module_path.filename_relative_to(relative_to));
-        Self::load_from_object_code_from_filename(filename)
-    }
+    /// Load the object code for the source file `filename`, if there is any and it's up to date
+    fn load_from_object_code(filename: &path::Path) -> Option<Self> {
+        let source_code = ArcSourceCode::new(SourceCode::try_from(filename.to_path_buf()).ok()?);
+        let object_filename = source_code.object_code_filename();
 
-    fn load_from_object_code_from_filename(mut filename: path::PathBuf) -> Option<Self> {
-        filename.set_extension("csvpo");
-
-        if !filename.exists() {
+        if !object_filename.exists() {
             return None;
         }
 
-        let obj_file_reader = match fs::File::open(&filename) {
-            Ok(r) => r,
-            Err(e) => compiler_error(format!("Error opening object code: {e}")),
+        let obj_file_reader = match fs::File::open(&object_filename) {
+            Ok(r) => io::BufReader::new(r),
+            Err(e) => {
+                warn!("Error opening {}: {e}", object_filename.display());
+                return None;
+            }
         };
 
-        let Ok(loaded_module) = bincode::deserialize_from(obj_file_reader) else {
+        let Ok((loaded_module, dependencies)) =
+            bincode::deserialize_from::<_, (Self, Dependencies)>(obj_file_reader)
+        else {
             // if we fail to load the old object file just warn about it and move on.  for whatever
             // reason (written by an old version) it's not compatible with our current version
             warn!(
                 "Error loading object code from {}.  Was it written with an old version of csv++?",
-                filename.display()
+                object_filename.display()
             );
             return None;
         };
 
-        Some(loaded_module)
+        if loaded_module.is_out_of_date(&source_code, &dependencies) {
+            return None;
+        }
+
+        Some(Self {
+            // the source might have been in another place when it was compiled
+            source_code,
+            ..loaded_module
+        })
     }
 
     // TODO: I would love to cut down on all these load_from_* functions
@@ -148,47 +153,45 @@ impl Module {
         module_path: ModulePath,
         filename: path::PathBuf,
     ) -> Result<Self> {
-        if let Some(mut loaded_module) = Self::load_from_object_code_from_filename(filename.clone())
-        {
-            loaded_module.check_if_is_dirty()?;
-
-            // if we have a clean cache read we can just return that, otherwise we'll need to
-            // reload below
-            if !loaded_module.is_dirty {
-                return Ok(loaded_module);
-            }
+        match Self::load_from_object_code(&filename) {
+            Some(loaded_module) => Ok(loaded_module),
+            None => Self::load_from_source_from_filename(module_path, filename),
         }
-
-        Self::load_from_source_from_filename(module_path, filename)
     }
 
+    /// Load a module that another one depends on
     pub(crate) fn load_from_cache<P: AsRef<path::Path>>(
         module_path: ModulePath,
         relative_to: &ModulePath,
         loader_root: P,
     ) -> Result<Self> {
-        if let Some(mut loaded_module) =
-            Self::load_from_object_code(module_path.clone(), relative_to, &loader_root)
-        {
-            loaded_module.check_if_is_dirty()?;
-            Ok(loaded_module)
-        } else {
-            Self::load_from_source_relative(
-                module_path,
-                relative_to,
-                loader_root.as_ref().to_path_buf().clone(),
-            )
+        let filename = loader_root
+            .as_ref()
+            .join(module_path.clone().filename_relative_to(relative_to));
+
+        match Self::load_from_object_code(&filename) {
+            // if it has been evaluated then it was compiled as a main module and it's definitions
+            // aren't just it's own anymore
+            Some(loaded_module) if loaded_module.needs_eval => Ok(loaded_module),
+            _ => {
+                let module = Self::load_from_source_from_filename(module_path, filename)?;
+                module.write_object_file(&Dependencies::default())?;
+                Ok(module)
+            }
         }
     }
 
-    pub(crate) fn write_object_file(&mut self) -> Result<()> {
+    /// Write the object file (`.csvpo`) of this module.  If it has already been evaluated it can
+    /// only be used for as long as all of it's `dependencies` stay as they are.
+    pub(crate) fn write_object_file(&self, dependencies: &Dependencies) -> Result<()> {
         let object_code_filename = self.source_code.object_code_filename();
 
         debug!("Serializing {}", self.module_path);
-        let encoded = bincode::serialize(&self).map_err(|e| Error::SourceCodeError {
-            filename: object_code_filename.clone(),
-            message: format!("Error serializing object code: {e}"),
-        })?;
+        let encoded =
+            bincode::serialize(&(self, dependencies)).map_err(|e| Error::SourceCodeError {
+                filename: object_code_filename.clone(),
+                message: format!("Error serializing object code: {e}"),
+            })?;
 
         info!("Writing object file to {}", object_code_filename.display());
 
@@ -204,62 +207,25 @@ impl Module {
     }
 
     /// In the case that `self` was deserialized from an object file (`.csvpo`), we need to see if
-    /// the original source code could possibly have any updates that we don't have.  In other
-    /// words does the source code have changes since this was compiled?
-    ///
-    /// # Errors
-    ///
-    /// * `Error::SourceCodeError` - if unable to stat the source code file
-    /// * `Error::SourceCodeError` - if unable to stat the cached object code file
-    pub fn check_if_is_dirty(&mut self) -> Result<()> {
-        let object_code_filename = self.source_code.object_code_filename();
-
-        let obj_file_modified = fs::metadata(&object_code_filename)
-            .and_then(|s| s.modified())
-            .map_err(|e| Error::SourceCodeError {
-                filename: object_code_filename,
-                message: format!("Unable to stat object code: {e}"),
-            })?;
-
-        let source_file_modified = fs::metadata(&self.source_code.filename)
-            .and_then(|s| s.modified())
-            .map_err(|e| Error::SourceCodeError {
-                filename: self.source_code.filename.clone(),
-                message: format!("Unable to stat source code: {e}"),
-            })?;
-
-        // is the object code more recent than the source? (i.e., no changes since it was last
-        // written)
-        if source_file_modified > obj_file_modified {
-            self.is_dirty = true;
-            self.needs_eval = true;
-            return Ok(());
+    /// the original source code (or the source of any of it's dependencies) has any updates that
+    /// we don't have.  This compares the sources rather than when the files were modified, because
+    /// files can be replaced by older ones.
+    fn is_out_of_date(&self, source_code: &SourceCode, dependencies: &Dependencies) -> bool {
+        // we can only trust what was written by the same version
+        if self.compiler_version != env!("CARGO_PKG_VERSION") {
+            return true;
         }
 
-        let current_version = env!("CARGO_PKG_VERSION");
-        let this_version = match semver::Version::parse(current_version) {
-            Ok(v) => v,
-            Err(e) => compiler_error(format!(
-                "Unable to parse compiler version `{current_version}`: {e}"
-            )),
-        };
+        let loader_root = source_code
+            .filename
+            .parent()
+            .unwrap_or_else(|| path::Path::new(""));
 
-        let loaded_version = match semver::Version::parse(&self.compiler_version) {
-            Ok(v) => v,
-            Err(e) => compiler_error(format!(
-                "Unable to parse loaded module version `{}`: {e}",
-                &self.compiler_version
-            )),
-        };
-
-        // if the version is less than ours, don't use it and recompile instead.  otherwise we can
-        // trust that it's ok to use
-        self.is_dirty = match this_version.cmp(&loaded_version) {
-            cmp::Ordering::Equal | cmp::Ordering::Greater => false,
-            cmp::Ordering::Less => true,
-        };
-
-        Ok(())
+        self.source_code.original != source_code.original
+            || dependencies.iter().any(|(module_path, original)| {
+                let filename = module_path.clone().filename_relative_to(&self.module_path);
+                !fs::read_to_string(loader_root.join(filename)).is_ok_and(|s| s == *original)
+            })
     }
 }
 
diff --git a/src/module_loader/cyclic.rs b/src/module_loader/cyclic.rs
new file mode 100644
index 0000000..1ec1650
--- /dev/null
+++ b/src/module_loader/cyclic.rs
@@ -0,0 +1,124 @@
+//! # Modules which import each other
+//!
+//! A definition of an imported module has to be evaluated in the scope of the module that defines
+//! it.  That's done by evaluating the imported module first, but when modules (directly or
+//! indirectly) import each other there is no first one.  So instead their definitions are put into
+//! a single scope, under names that say which module they're from.
+//!
+use super::{scope_of, Scopes};
+use crate::ast::{Ast, Node, VariableValue};
+use crate::{Module, ModulePath, Result, Scope};
+
+/// Expand the definitions of the modules of `group`, which import each other.  `scopes` has the
+/// modules that they import from outside of it.
+pub(super) fn eval_group(group: &[&Module], scopes: &mut Scopes) -> Result<()> {
+    for module in group {
+        scopes.insert(module.module_path.clone(), module.scope.clone());
+    }
+
+    let mut combined = Scope::default();
+    for (module_path, scope) in scopes.iter() {
+        let qualifier = group
+            .iter()
+            .find(|m| m.module_path == *module_path)
+            .map(|module| Qualifier { module, scopes });
+        let qualified = |ast: &Ast| match &qualifier {
+            Some(q) => q.qualify(ast, &[]),
+            None => ast.clone(),
+        };
+
+        for (name, ast) in &scope.functions {
+            combined
+                .functions
+                .insert(qualified_name(name, module_path), qualified(ast));
+        }
+        for (name, ast) in &scope.variables {
+            combined
+                .variables
+                .insert(qualified_name(name, module_path), qualified(ast));
+        }
+    }
+
+    for module in group {
+        let qualifier = Qualifier { module, scopes };
+        let scope = qualifier
+            .qualify_scope()
+            .eval(&combined)
+            .map_err(|e| module.source_code.eval_error(e, None))?;
+        scopes.insert(module.module_path.clone(), scope);
+    }
+
+    Ok(())
+}
+
+/// The blanks make sure that it can't be the name of anything in the source
+fn qualified_name(name: &str, module_path: &ModulePath) -> String {
+    format!("{name} of {module_path}")
+}
+
+struct Qualifier<'a> {
+    module: &'a Module,
+    scopes: &'a Scopes,
+}
+
+impl Qualifier<'_> {
+    fn qualify_scope(&self) -> Scope {
+        let mut scope = self.module.scope.clone();
+        for ast in scope
+            .functions
+            .values_mut()
+            .chain(scope.variables.values_mut())
+        {
+            *ast = self.qualify(ast, &[]);
+        }
+        scope
+    }
+
+    /// The module that defines what's called `name` in this module.
+    fn resolve(&self, name: &str, is_defined: impl Fn(&Scope) -> bool) -> String {
+        std::iter::once(&self.module.module_path)
+            .chain(&self.module.required_modules)
+            .find(|m| is_defined(scope_of(m, self.scopes)))
+            .map_or_else(|| name.to_string(), |m| qualified_name(name, m))
+    }
+
+    fn qualify(&self, ast: &Ast, params: &[String]) -> Ast {
+        match &**ast {
+            Node::Function { args, body, name } => Node::Function {
+                args: args.clone(),
+                body: self.qualify(body, args),
+                name: name.clone(),
+            },
+
+            Node::FunctionCall { args, name } => Node::FunctionCall {
+                args: args.iter().map(|a| self.qualify(a, params)).collect(),
+                name: self.resolve(name, |s| s.functions.contains_key(name)),
+            },
+
+            Node::InfixFunctionCall {
+                left,
+                operator,
+                right,
+            } => Node::InfixFunctionCall {
+                left: self.qualify(left, params),
+                operator: operator.clone(),
+                right: self.qualify(right, params),
+            },
+
+            Node::Reference(name) if !params.contains(name) => {
+                Node::Reference(self.resolve(name, |s| s.variables.contains_key(name)))
+            }
+
+            Node::Variable {
+                name,
+                value: VariableValue::Ast(value),
+            } => Node::Variable {
+                name: name.clone(),
+                value: VariableValue::Ast(self.qualify(value, params)),
+            },
+
+            node => node.clone(),
+        }
+        .into()
+    }
+}
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 05d5a97..0ddce66 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -5,6 +5,7 @@
 //!
 // TODO:
 // * make it so that `---` is not required for dependent modules
+use crate::module::Dependencies;
 use crate::{compiler_error, Error, Module, ModulePath, Result, Scope};
 use log::debug;
 use petgraph::{algo, graph};
@@ -13,13 +14,17 @@ use std::path;
 use std::sync;
 use std::thread;
 
+mod cyclic;
+
 /// The same as what the main thread usually gets (threads get less by default), so that it doesn't
 /// matter which thread an expression is parsed on.
 const LOADER_STACK_SIZE: usize = 8 * 1024 * 1024;
 
 type ArcRwLock<T> = sync::Arc<sync::RwLock<T>>;
 
-type LoadedModules = collections::HashMap<ModulePath, Module>;
+type LoadedModules = collections::BTreeMap<ModulePath, Module>;
+
+type Scopes = collections::HashMap<ModulePath, Scope>;
 
 type Attempted = ArcRwLock<collections::HashSet<ModulePath>>;
 type Loaded = ArcRwLock<LoadedModules>;
@@ -32,21 +37,15 @@ pub(super) struct ModuleLoader {
     loaded: Loaded,
     loader_root: path::PathBuf,
     main_module: Module,
-    is_dirty: bool,
     use_cache: bool,
 }
 
-// TODO: ideally this shouldn't take a $source_code and the calling part does the map_err
-macro_rules! eval_ast {
-    ($scope:expr, $functions_or_variables:ident, $source_code:expr) => {{
-        for (name, ast) in $scope.$functions_or_variables.clone().into_iter() {
-            $scope.$functions_or_variables.insert(
-                name,
-                ast.eval(&$scope, None)
-                    .map_err(|e| $source_code.eval_error(e, None))?,
-            );
-        }
-    }};
+fn scope_of<'a>(module_path: &ModulePath, scopes: &'a Scopes) -> &'a Scope {
+    scopes.get(module_path).unwrap_or_else(|| {
+        compiler_error(format!(
+            "Expected dependent module to have been loaded: {module_path}"
+        ))
+    })
 }
 
 // TODO:
@@ -57,102 +56,77 @@ impl ModuleLoader {
     /// `failed` and sucesses into `loaded`. The idea being that we want to show as many errors as
     /// possible to the user (otherwise it's annoying to have them fix and re-compile one-by-one),
     /// so we accumulate and keep going.  But in the end fail if there are any errors at all.
-    pub(super) fn load_main<P: Into<path::PathBuf>>(
+    ///
+    /// Also returns the source of every module that `main_module` (directly or indirectly) depends
+    /// on.
+    pub(super) fn load_main_and_sources<P: Into<path::PathBuf>>(
         main_module: Module,
         relative_to: P,
         use_cache: bool,
-    ) -> Result<Module> {
-        let mut module_loader = Self {
+    ) -> Result<(Module, Dependencies)> {
+        let module_loader = Self {
             attempted: sync::Arc::default(),
             failed: sync::Arc::default(),
             loaded: sync::Arc::default(),
             main_module,
             loader_root: relative_to.into(),
-            is_dirty: false,
             use_cache,
         };
-        let mut were_any_deps_dirty = false;
-
-        // we need to do this in a loop because every time we reload dirty dependencies we're
-        // pulling in changes to the source code, which could mean the author added a new `use ...`
-        // in which case we need to load it
-        loop {
-            module_loader.load(&module_loader.main_module)?;
-            module_loader = module_loader.propagate_dirty_flag()?;
-            if module_loader.is_dirty {
-                were_any_deps_dirty = true;
-                module_loader.reload_dirty_modules()?;
-            } else {
-                break;
-            }
+
+        module_loader.load(&module_loader.main_module)?;
+        if module_loader.has_failures() {
+            return Err(Error::ModuleLoadErrors(
+                sync::Arc::try_unwrap(module_loader.failed)
+                    .expect("Unable to access failed")
+                    .into_inner()?,
+            ));
         }
 
-        module_loader.eval_dependencies()?;
+        let scopes = module_loader.eval_dependencies()?;
+        let sources = module_loader
+            .loaded
+            .read()?
+            .iter()
+            .map(|(p, m)| (p.clone(), m.source_code.original.clone()))
+            .collect();
+
+        Ok((module_loader.merge_direct_dependencies(&scopes), sources))
+    }
 
-        let mut main = module_loader.merge_direct_dependencies()?;
-        main.is_dirty = were_any_deps_dirty;
-        Ok(main)
+    #[cfg(test)]
+    fn load_main<P: Into<path::PathBuf>>(
+        main_module: Module,
+        relative_to: P,
+        use_cache: bool,
+    ) -> Result<Module> {
+        Self::load_main_and_sources(main_module, relative_to, use_cache).map(|(main, _)| main)
     }
 
     /// Returns only the direct dependencies for this module graph.  For example if our Module A
     /// requires Module B which in turn requires Module C, we will only get vars & functions from
     /// Module B, not from Module C (or any other indirect dependencies)
-    fn merge_direct_dependencies(self) -> Result<Module> {
-        if self.has_failures() {
-            Err(Error::ModuleLoadErrors(
-                sync::Arc::try_unwrap(self.failed)
-                    .expect("Unable to access failed")
-                    .into_inner()?,
-            ))
-        } else {
-            let mut loaded = self.loaded.write()?;
-            let mut main_module = self.main_module;
-
-            for req_path in &main_module.required_modules {
-                main_module
-                    .scope
-                    .merge(&loaded.remove(req_path).unwrap().scope);
-            }
-
-            Ok(main_module)
+    fn merge_direct_dependencies(self, scopes: &Scopes) -> Module {
+        let mut main_module = self.main_module;
+        for req_path in &main_module.required_modules {
+            main_module.scope.merge(scope_of(req_path, scopes));
         }
+
+        main_module
     }
 
-    fn load_dependency_graph(&self) -> graph::Graph<ModulePath, ()> {
-        let loaded = self.loaded.read().unwrap();
+    fn load_dependency_graph(loaded: &LoadedModules) -> graph::Graph<ModulePath, ()> {
         debug!("Loaded dependency graph with {} dependencies", loaded.len());
 
         let mut dep_graph = graph::Graph::new();
 
-        let main_node = dep_graph.add_node(self.main_module.module_path.clone());
-
-        let mut loaded_nodes = collections::HashMap::new();
-        loaded_nodes.insert(&self.main_module.module_path, main_node);
-
-        // load all of the direct dependencies
-        for p in &self.main_module.required_modules {
-            let direct_dep_node = dep_graph.add_node(p.clone());
-            loaded_nodes.insert(p, direct_dep_node);
-            dep_graph.add_edge(main_node, direct_dep_node, ());
-        }
-
-        for (p, dep_mod) in loaded.iter() {
-            // TODO: clean this up with a macro or something. or maybe wrap the petgraph into a
-            // `UniqueGraph` of my own making
-            let dep_node = loaded_nodes
-                .get(p)
-                .copied()
-                .unwrap_or_else(|| dep_graph.add_node(p.clone()));
-            loaded_nodes.insert(p, dep_node);
+        let loaded_nodes: collections::HashMap<_, _> = loaded
+            .keys()
+            .map(|p| (p, dep_graph.add_node(p.clone())))
+            .collect();
 
+        for (p, dep_mod) in loaded {
             for required_mod in &dep_mod.required_modules {
-                let dep_dep_node = loaded_nodes
-                    .get(required_mod)
-                    .copied()
-                    .unwrap_or_else(|| dep_graph.add_node(required_mod.clone()));
-                loaded_nodes.insert(required_mod, dep_dep_node);
-
-                dep_graph.add_edge(dep_node, dep_dep_node, ());
+                dep_graph.add_edge(loaded_nodes[p], loaded_nodes[required_mod], ());
             }
         }
 
@@ -161,124 +135,49 @@ impl ModuleLoader {
         dep_graph
     }
 
-    fn dirty_nodes(&self) -> collections::HashSet<ModulePath> {
-        let loaded = self.loaded.read().unwrap();
-        let dep_graph = self.load_dependency_graph();
-
-        let mut dirty_nodes: collections::HashSet<ModulePath> = collections::HashSet::default();
-        for node in dep_graph.node_indices().collect::<Vec<_>>() {
-            let Some(module) = loaded.get(&dep_graph[node]) else {
-                continue;
-            };
-
-            if module.is_dirty {
-                for graph_path in algo::simple_paths::all_simple_paths::<Vec<_>, _>(
-                    &dep_graph,
-                    // just assume that the main module is at index 0
-                    graph::NodeIndex::new(0),
-                    node,
-                    1,
-                    None,
-                ) {
-                    for n in graph_path {
-                        dirty_nodes.insert(dep_graph[n].clone());
-                    }
-                }
-            }
-        }
-
-        dirty_nodes
-    }
-
-    fn propagate_dirty_flag(self) -> Result<Self> {
-        let dirty_nodes = self.dirty_nodes();
-        let mut loaded = sync::Arc::try_unwrap(self.loaded)
-            .expect("Unable to access loaded")
-            .into_inner()?;
-
-        let is_dirty = !dirty_nodes.is_empty();
-
-        for mp in dirty_nodes {
-            if let Some(n) = loaded.get_mut(&mp) {
-                n.is_dirty = true;
-            }
-        }
-
-        Ok(Self {
-            loaded: sync::Arc::new(sync::RwLock::new(loaded)),
-            is_dirty,
-            ..self
-        })
-    }
-
-    fn reload_dirty_modules(&mut self) -> Result<()> {
-        let loaded = self.loaded.read().unwrap();
-        for (mp, module) in loaded.iter() {
-            if module.is_dirty {
-                self.loaded.write()?.insert(
-                    mp.clone(),
-                    Module::load_from_source_from_filename(
-                        mp.clone(),
-                        module.source_code.filename.clone(),
-                    )?,
-                );
-            }
-        }
-
-        Ok(())
-    }
-
-    fn eval_dependencies(&mut self) -> Result<()> {
-        let dep_graph = self.load_dependency_graph();
-        let mut loaded = self.loaded.write()?;
+    /// Evaluate the definitions of all of the dependencies.  In the resulting scopes each module
+    /// only has it's own definitions, nothing that it imported.
+    fn eval_dependencies(&self) -> Result<Scopes> {
+        let loaded = self.loaded.read()?;
+        let dep_graph = Self::load_dependency_graph(&loaded);
 
         // now that we have a graph, use Tarjan's algo to give us a topological sort which will
-        // represent the dependencies in the order they need to be resolved.
-        let resolution_order = algo::tarjan_scc(&dep_graph)
-            .into_iter()
-            .flatten()
-            .map(|p| dep_graph[p].clone());
+        // represent the dependencies in the order they need to be resolved.  Modules which
+        // (directly or indirectly) import each other end up in the same group.
+        let resolution_order = algo::tarjan_scc(&dep_graph);
 
         debug!("Resolving dependencies in order {resolution_order:?}");
 
-        // we'll need a local copy of all the scopes as we modify `loaded`
-        let mut scopes = collections::HashMap::<ModulePath, Scope>::new();
-        for (mp, m) in loaded.iter() {
-            scopes.insert(mp.clone(), m.scope.clone());
-        }
-
-        for mp_to_resolve in resolution_order {
-            let Some(to_resolve) = loaded.get_mut(&mp_to_resolve) else {
-                continue;
-            };
+        let mut scopes = Scopes::new();
+        for group in resolution_order {
+            let mut group: Vec<&Module> =
+                group.into_iter().map(|n| &loaded[&dep_graph[n]]).collect();
+            group.sort_by_key(|m| &m.module_path);
 
-            if !to_resolve.needs_eval {
-                continue;
-            }
-
-            // let mut local_scope = to_resolve.scope.clone();
-            for req_path in to_resolve.required_modules.iter().rev() {
-                let Some(dep_scope) = scopes.get(req_path) else {
-                    compiler_error(format!(
-                        "Expected dependent module to have been loaded: {req_path}"
-                    ))
-                };
-
-                to_resolve.scope.merge(dep_scope);
+            if let [module] = group[..] {
+                scopes.insert(module.module_path.clone(), module.scope.clone());
+            } else {
+                cyclic::eval_group(&group, &mut scopes)?;
             }
 
-            eval_ast!(to_resolve.scope, variables, to_resolve.source_code);
-            eval_ast!(to_resolve.scope, functions, to_resolve.source_code);
+            let mut evaled = vec![];
+            for module in group {
+                let own_scope = scope_of(&module.module_path, &scopes);
+                let mut visible_scope = own_scope.clone();
+                for req_path in &module.required_modules {
+                    visible_scope.merge(scope_of(req_path, &scopes));
+                }
 
-            // now that we've evaled it that's the last step, write the csvpo file
-            if self.use_cache {
-                to_resolve.write_object_file()?;
+                let scope = own_scope
+                    .clone()
+                    .eval(&visible_scope)
+                    .map_err(|e| module.source_code.eval_error(e, None))?;
+                evaled.push((module.module_path.clone(), scope));
             }
-
-            scopes.insert(to_resolve.module_path.clone(), to_resolve.scope.clone());
+            scopes.extend(evaled);
         }
 
-        Ok(())
+        Ok(scopes)
     }
 
     fn has_failures(&self) -> bool {
diff --git a/src/scope/mod.rs b/src/scope/mod.rs
index 0a994e9..5c21489 100644
--- a/src/scope/mod.rs
+++ b/src/scope/mod.rs
@@ -1,4 +1,5 @@
 use crate::ast::{Ast, Functions, Variables};
+use crate::EvalResult;
 use std::collections;
 
 mod display;
@@ -38,6 +39,25 @@ impl Scope {
         self.variables.insert(name, ast.into());
     }
 
+    /// Expand all of the definitions with what's defined in `visible_scope`
+    pub(crate) fn eval(self, visible_scope: &Self) -> EvalResult<Self> {
+        // in order of their names, so that it's always the same definition that we fail on
+        let eval_all = |definitions: collections::HashMap<String, Ast>| {
+            definitions
+                .into_iter()
+                .collect::<collections::BTreeMap<_, _>>()
+                .into_iter()
+                .map(|(name, ast)| Ok((name, ast.eval(visible_scope, None)?)))
+                .collect::<EvalResult<collections::HashMap<_, _>>>()
+        };
+
+        Ok(Self {
+            variables: eval_all(self.variables)?,
+            functions: eval_all(self.functions)?,
+            ..self
+        })
+    }
+
     /// Merge another `Scope` (only it's `exports`) into this one. if a var or function is already
     /// defined, we do not insert it
     pub(crate) fn merge(&mut self, other: &Self) {
-- 
2.43.0


From 9a9eec9ab935fdf2b7392c7733bc44b6998525fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 23/59] fix: params of imported functions don't capture
 references introduced by other definitions

---
 src/ast/eval.rs | 66 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/src/ast/eval.rs b/src/ast/eval.rs
index 3f2c2b5..f251c1c 100644
--- a/src/ast/eval.rs
+++ b/src/ast/eval.rs
@@ -55,6 +55,17 @@ impl Ast {
         }
     }
 
+    fn has_reference(&self, name: &str) -> bool {
+        match &**self {
+            Node::FunctionCall { args, .. } => args.iter().any(|a| a.has_reference(name)),
+            Node::InfixFunctionCall { left, right, .. } => {
+                left.has_reference(name) || right.has_reference(name)
+            }
+            Node::Reference(r) => r == name,
+            _ => false,
+        }
+    }
+
     /// How many nodes this expression consists of
     fn size(&self) -> usize {
         match &**self {
@@ -87,6 +98,18 @@ impl Ast {
     }
 }
 
+fn params_for(names: &[VariableName], references: &[VariableName]) -> Params {
+    names
+        .iter()
+        .cloned()
+        .zip(
+            references
+                .iter()
+                .map(|r| Ast::from(Node::Reference(r.clone())).into()),
+        )
+        .collect()
+}
+
 impl Evaluator<'_> {
     /// `params` are the arguments (which have already been evaluated) of the function whose body
     /// is being expanded. They take precedence over the variables in `scope`.
@@ -114,17 +137,7 @@ impl Evaluator<'_> {
 
             // the definition of a function - all we can do is expand everything in the body other
             // than it's params
-            Node::Function { args, body, name } => {
-                let fn_params = args
-                    .iter()
-                    .map(|a| (a.clone(), Ast::from(Node::Reference(a.clone())).into()))
-                    .collect();
-                Node::Function {
-                    name,
-                    args,
-                    body: self.eval(body, &fn_params)?,
-                }
-            }
+            Node::Function { args, body, name } => self.eval_function(name, args, body)?,
 
             Node::InfixFunctionCall {
                 left,
@@ -152,6 +165,37 @@ impl Evaluator<'_> {
         .into())
     }
 
+    /// Expanding a variable can introduce a reference with the same name as a param. In that case
+    /// the param goes by another name (with a blank, so it can't be the name of anything in the
+    /// source) as otherwise it would capture that reference.
+    fn eval_function(
+        &mut self,
+        name: FunctionName,
+        args: Vec<VariableName>,
+        body: Ast,
+    ) -> EvalResult<Node> {
+        let renamed: Vec<_> = args.iter().map(|a| format!("{a} of {name}")).collect();
+        let to_renamed = params_for(&args, &renamed);
+        let body = self.eval(body, &to_renamed)?;
+
+        let args: Vec<_> = args
+            .into_iter()
+            .zip(&renamed)
+            .map(|(a, r)| if body.has_reference(&a) { r.clone() } else { a })
+            .collect();
+
+        let body = Evaluator {
+            depth: 0,
+            expanding: vec![],
+            position: None,
+            scope: &Scope::default(),
+            size: 0,
+        }
+        .eval(body, &params_for(&renamed, &args))?;
+
+        Ok(Node::Function { args, body, name })
+    }
+
     /// When we're calling a `Node::Function`, take the body and replace each of it's arguments in
     /// the body.  For example:
     ///
-- 
2.43.0


From d16d544073ee75fb7806b001b4e02d213485d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 24/59] fix: names in filled rows refer to all of the rows that
 were filled, no more and no less

---
 src/cell_options/fill/mod.rs |  3 +--
 src/spreadsheet/mod.rs       | 10 +++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cell_options/fill/mod.rs b/src/cell_options/fill/mod.rs
index c9468da..a9be384 100644
--- a/src/cell_options/fill/mod.rs
+++ b/src/cell_options/fill/mod.rs
@@ -2,7 +2,6 @@
 //!
 use a1::Row;
 use serde::{Deserialize, Serialize};
-use std::cmp;
 
 mod into;
 
@@ -26,7 +25,7 @@ impl Fill {
     #[must_use]
     pub(crate) fn end_row(&self) -> Row {
         if let Some(a) = self.amount {
-            cmp::min(self.start_row.y + a, ROW_MAX).into()
+            (self.start_row.y + a).into()
         } else {
             ROW_MAX.into()
         }
diff --git a/src/spreadsheet/mod.rs b/src/spreadsheet/mod.rs
index e308216..929e3c5 100644
--- a/src/spreadsheet/mod.rs
+++ b/src/spreadsheet/mod.rs
@@ -1,7 +1,7 @@
 //! # Spreadsheet
 //!
 use crate::ast::{Ast, Node, VariableValue, Variables};
-use crate::cell_options::ROW_MAX;
+use crate::cell_options::{Fill, ROW_MAX};
 use crate::{ArcSourceCode, Error, EvalError, EvalResult, Result, Row};
 use log::trace;
 use serde::{Deserialize, Serialize};
@@ -39,8 +39,12 @@ impl Spreadsheet {
 
         for row in self.rows {
             if let Some(f) = row.fill {
-                let new_fill = f.clone_to_row(row_num);
-                let fill_amount = new_fill.amount.unwrap_or(rows_left_over);
+                let fill_amount = f.amount.unwrap_or(rows_left_over);
+                // from here on it's known how many rows even an infinite one takes
+                let new_fill = Fill {
+                    amount: Some(fill_amount),
+                    ..f.clone_to_row(row_num)
+                };
 
                 for _ in 0..fill_amount {
                     rows.push(Row {
-- 
2.43.0


From 53a00f2b9eb80eee98d5e674533b885c365e040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 25/59] fix: reject fills that expand to more rows than a sheet
 can have

---
 src/spreadsheet/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/spreadsheet/mod.rs b/src/spreadsheet/mod.rs
index 929e3c5..540f5f1 100644
--- a/src/spreadsheet/mod.rs
+++ b/src/spreadsheet/mod.rs
@@ -9,6 +9,9 @@ use std::collections;
 
 mod display;
 
+/// The most rows that a sheet can have in Excel
+const MAX_FILLED_ROWS: usize = 1_048_576;
+
 #[derive(Clone, Debug, Default, Deserialize, PartialEq, Serialize)]
 pub struct Spreadsheet {
     pub rows: Vec<Row>,
@@ -33,6 +36,13 @@ impl Spreadsheet {
             ));
         }
 
+        if self.rows_without_infinite() > MAX_FILLED_ROWS {
+            return Err(EvalError::new(
+                "![[fill]]",
+                format!("The fills expand to more than {MAX_FILLED_ROWS} rows"),
+            ));
+        }
+
         let mut rows = Vec::with_capacity(self.rows.len());
         let mut row_num = 0;
         let rows_left_over = self.rows_left_over();
@@ -172,11 +182,13 @@ impl Spreadsheet {
     }
 
     fn rows_left_over(&self) -> usize {
-        let total_rows_minus_infinite = self.rows.iter().fold(0, |acc, row| {
-            acc + row.fill.map_or(1, |f| f.amount.unwrap_or(0))
-        });
+        ROW_MAX.saturating_sub(self.rows_without_infinite())
+    }
 
-        ROW_MAX.saturating_sub(total_rows_minus_infinite)
+    fn rows_without_infinite(&self) -> usize {
+        self.rows.iter().fold(0, |acc: usize, row| {
+            acc.saturating_add(row.fill.map_or(1, |f| f.amount.unwrap_or(0)))
+        })
     }
 }
 
-- 
2.43.0


From cffc0ad55918d71ec2fb9af03a727aa05231d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 26/59] fix: no panic for in_range() with a letter that isn't
 ASCII

---
 src/parser/cell_parser/validate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 3513034..8545079 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -258,6 +258,10 @@ impl CellParser<'_, '_> {
     validate!(self, validate_value_in_range, {
         take_parens!(self, {
             let a1_match = self.lexer.take_token(Token::A1)?;
+            if !a1_match.str_match.is_ascii() {
+                return Err(a1_match.into_parse_error("Expected an A1 reference"));
+            }
+
             DataValidation::ValueInRange(
                 a1::new(&a1_match.str_match).map_err(|e| {
                     a1_match.into_parse_error(format!("Expected an A1 reference: {e}"))
-- 
2.43.0


From 65895c677ff8e0f2e560128cc4b895b3aaf78715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 27/59] fix: writing a CSV keeps existing cells outside of the
 sheet and applies the offsets

---
 src/target/csv/compilation_target.rs | 57 +++++++++++++++++++---------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/target/csv/compilation_target.rs b/src/target/csv/compilation_target.rs
index f60b960..a104b9d 100644
--- a/src/target/csv/compilation_target.rs
+++ b/src/target/csv/compilation_target.rs
@@ -1,5 +1,6 @@
 use crate::target::{file_backer_upper, merge_rows, CompilationTarget, Csv, MergeResult};
 use crate::{Module, Result};
+use std::cmp;
 
 impl CompilationTarget for Csv<'_> {
     fn write_backup(&self) -> Result<()> {
@@ -9,8 +10,11 @@ impl CompilationTarget for Csv<'_> {
 
     fn write(&self, module: &Module) -> Result<()> {
         let existing_values = Self::read(&self.path, &self.compiler.output)?;
-
-        let widest_row = module.spreadsheet.widest_row();
+        let (x_offset, y_offset) = (
+            self.compiler.config.offset.0 as usize,
+            self.compiler.config.offset.1 as usize,
+        );
+        let rows = &module.spreadsheet.rows;
 
         let mut writer = csv::WriterBuilder::new()
             .flexible(true)
@@ -20,25 +24,42 @@ impl CompilationTarget for Csv<'_> {
                     .output_error(format!("Unable to open output file for writing: {e:?}"))
             })?;
 
-        for (index, row) in module.spreadsheet.rows.iter().enumerate() {
-            let mut output_row: Vec<String> = merge_rows(
-                existing_values
-                    .cells
-                    .get(index)
-                    .unwrap_or(&vec![].to_owned()),
-                &row.cells,
+        // everything that already exists has to stay, even if it's outside of what we compiled
+        let existing_cells = &existing_values.cells;
+        let existing_width = existing_cells.iter().map(Vec::len).max().unwrap_or(0);
+        let width = match module.spreadsheet.widest_row() {
+            0 => existing_width,
+            w => cmp::max(existing_width, x_offset + w),
+        };
+        let height = match rows.len() {
+            0 => existing_cells.len(),
+            h => cmp::max(existing_cells.len(), y_offset + h),
+        };
+
+        for index in 0..height {
+            let existing_row = existing_cells.get(index).map_or(&[][..], Vec::as_slice);
+            let module_row = index.checked_sub(y_offset).and_then(|i| rows.get(i));
+            let (left_of_module, existing_row) =
+                existing_row.split_at(cmp::min(x_offset, existing_row.len()));
+
+            let mut output_row = merge_rows(left_of_module, &[], &self.compiler.config);
+            output_row.resize(x_offset, MergeResult::Empty);
+            output_row.extend(merge_rows(
+                existing_row,
+                module_row.map_or(&[][..], |r| &r.cells),
                 &self.compiler.config,
-            )
-            .iter()
-            .map(|cell| match cell {
-                MergeResult::New(v) => v.to_string(),
-                MergeResult::Existing(v) => v.to_string(),
-                MergeResult::Empty => String::new(),
-            })
-            .collect();
+            ));
 
+            let mut output_row: Vec<String> = output_row
+                .iter()
+                .map(|cell| match cell {
+                    MergeResult::New(v) => v.to_string(),
+                    MergeResult::Existing(v) => v.to_string(),
+                    MergeResult::Empty => String::new(),
+                })
+                .collect();
             // all rows have to be as wide as the widest row
-            output_row.resize(widest_row, String::new());
+            output_row.resize(width, String::new());
 
             writer.write_record(output_row).map_err(|e| {
                 self.compiler
-- 
2.43.0


From fc85ce8cf04bfe03bac3ef562cd04879404a8e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 28/59] fix: border colors were not written to Excel

---
 src/rgb/mod.rs                 | 4 ++++
 src/target/excel/excel_cell.rs | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rgb/mod.rs b/src/rgb/mod.rs
index 4f5c3f3..9dd10fa 100644
--- a/src/rgb/mod.rs
+++ b/src/rgb/mod.rs
@@ -20,6 +20,10 @@ impl Rgb {
         Self { r, g, b }
     }
 
+    pub(crate) fn to_argb(&self) -> String {
+        format!("FF{:02X}{:02X}{:02X}", self.r, self.g, self.b)
+    }
+
     pub(crate) fn to_rgba(&self) -> String {
         format!("{:02X}{:02X}{:02X}FF", self.r, self.g, self.b)
     }
diff --git a/src/target/excel/excel_cell.rs b/src/target/excel/excel_cell.rs
index 819b5bd..5f487d1 100644
--- a/src/target/excel/excel_cell.rs
+++ b/src/target/excel/excel_cell.rs
@@ -111,7 +111,10 @@ impl<'a> ExcelCell<'a> {
             return;
         }
 
-        let border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        let mut border_style: umya_spreadsheet::Border = self.0.border_style.into();
+        if let Some(c) = &self.0.border_color {
+            border_style.get_color_mut().set_argb(c.to_argb());
+        }
 
         let b = s.get_borders_mut();
         if self.0.side_has_border(BorderSide::Left) {
-- 
2.43.0


From d340aa7077d24540295cf626da34b46ad327203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 29/59] fix: dates in Excel validations were one or two days
 early

---
 src/target/excel/cell_validation.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index 56c7a41..a230591 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -1,9 +1,20 @@
 use crate::cell_options::DataValidation;
+use crate::DateTime;
 use umya_spreadsheet as u;
 
 #[derive(Debug)]
 pub(super) struct CellValidation(pub(super) a1::Address, pub(super) DataValidation);
 
+/// Excel counts 1900-01-01 as day 1 and it believes that there was a 1900-02-29
+fn serial_date(date: &DateTime) -> i64 {
+    let days = date.distance_from_epoch();
+    if days < 59 {
+        days + 1
+    } else {
+        days + 2
+    }
+}
+
 macro_rules! custom_validation {
     ($v:ident, $type:ident, $formula1:expr, $prompt:expr) => {
         $v.set_formula1($formula1.to_string())
@@ -30,15 +41,15 @@ macro_rules! validation {
 
 macro_rules! date_validation {
     ($v:ident, $op:ident, $formula1:ident, $prompt:expr) => {
-        validation!($v, Date, $op, $formula1.distance_from_epoch(), $prompt)
+        validation!($v, Date, $op, serial_date(&$formula1), $prompt)
     };
     ($v:ident, $op:ident, $formula1:ident, $formula2:ident, $prompt:expr) => {
         validation!(
             $v,
             Date,
             $op,
-            $formula1.distance_from_epoch(),
-            $formula2.distance_from_epoch(),
+            serial_date(&$formula1),
+            serial_date(&$formula2),
             $prompt
         )
     };
-- 
2.43.0


From 1b57978479a2811a64dd43ecf6ac66b95ef26e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 30/59] fix: Excel target ignored the offsets

---
 src/target/excel/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 7f354fb..07306fb 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -42,10 +42,14 @@ impl<'a> Excel<'a> {
     /// depending on the merge strategy).
     fn build_worksheet(&self, module: &Module, worksheet: &mut u::Worksheet) {
         let mut cell_validations = Vec::with_capacity(module.spreadsheet.rows.len());
+        let (x_offset, y_offset) = self.compiler.config.offset;
 
         for (row_index, row) in module.spreadsheet.rows.iter().enumerate() {
             for (cell_index, cell) in row.cells.iter().enumerate() {
-                let position = a1::Address::new(cell_index, row_index);
+                let position = a1::Address::new(
+                    x_offset as usize + cell_index,
+                    y_offset as usize + row_index,
+                );
 
                 let merged_cell = merge_cell(
                     &Self::get_existing_cell(position, worksheet),
-- 
2.43.0


From fa821acfd23a012d6815ff632c754779ddedc119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 31/59] fix: data validations of other cells in an existing
 Excel sheet got lost

---
 src/target/excel/mod.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 07306fb..ce224e7 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -5,7 +5,7 @@
 use super::{merge_cell, ExistingCell, MergeResult};
 use crate::ast::Node;
 use crate::{Cell, Compiler, Module, Result};
-use std::{ffi, path};
+use std::{collections, ffi, path};
 use umya_spreadsheet as u;
 
 mod cell_validation;
@@ -86,17 +86,26 @@ impl<'a> Excel<'a> {
     }
 
     fn set_data_validations(worksheet: &mut u::Worksheet, cell_validations: Vec<CellValidation>) {
-        let mut validations = u::DataValidations::default();
         if cell_validations.is_empty() {
             return;
         }
 
-        validations.set_data_validation_list(
-            cell_validations
-                .into_iter()
-                .map(std::convert::Into::into)
-                .collect(),
-        );
+        let new_validations: Vec<u::DataValidation> = cell_validations
+            .into_iter()
+            .map(std::convert::Into::into)
+            .collect();
+        let sqref = |v: &u::DataValidation| v.get_sequence_of_references().get_sqref();
+        let replaced: collections::HashSet<String> = new_validations.iter().map(sqref).collect();
+
+        // the ones that are on other cells have to stay
+        let mut validations = worksheet
+            .get_data_validations()
+            .cloned()
+            .unwrap_or_default();
+        let validation_list = validations.get_data_validation_list_mut();
+        validation_list.retain(|v| !replaced.contains(&sqref(v)));
+        validation_list.extend(new_validations);
+
         worksheet.set_data_validations(validations);
     }
 
-- 
2.43.0


From 73dc64f7529b77fbc5b724d498edaff7f326450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 32/59] fix: Excel notes were put on the wrong cell (one up,
 one to the left) and piled up

---
 src/target/excel/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index ce224e7..c75e0d4 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -116,9 +116,19 @@ impl<'a> Excel<'a> {
         let rt = comment.get_text_mut();
         rt.set_text(note);
 
+        // the coordinates of a comment start from 1
         let coord = comment.get_coordinate_mut();
-        coord.set_col_num(u32::try_from(position.column.x).expect("32 bit coordinate for comment"));
-        coord.set_row_num(u32::try_from(position.row.y).expect("32 bit coordinate for comment"));
+        coord.set_col_num(
+            u32::try_from(position.column.x + 1).expect("32 bit coordinate for comment"),
+        );
+        coord
+            .set_row_num(u32::try_from(position.row.y + 1).expect("32 bit coordinate for comment"));
+
+        // there can only be one comment per cell
+        let coordinate = comment.get_coordinate().to_string();
+        worksheet
+            .get_comments_mut()
+            .retain(|c| c.get_coordinate().to_string() != coordinate);
 
         worksheet.add_comments(comment);
     }
-- 
2.43.0


From 8e96fceb4191d70890bbfd7aef2c7e450996fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 33/59] fix: formulas replacing a value in Excel kept it as
 their result

---
 src/target/excel/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index c75e0d4..6435820 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -150,7 +150,8 @@ impl<'a> Excel<'a> {
                     percentage,
                     sign: None,
                 } if !percentage => existing_cell.set_value_number(value as f64),
-                _ => existing_cell.set_formula(ast.to_string()),
+                // (the old value can't stay as the result of the formula)
+                _ => existing_cell.set_blank().set_formula(ast.to_string()),
             };
         } else if !cell.parsed_value.is_empty() {
             existing_cell.set_value_string(cell.parsed_value.clone());
-- 
2.43.0


From a9c54b9b21dfecb9f0dca56e98bc38208a8c08e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 34/59] fix: safe mode treated formatted but empty Excel cells
 as values

---
 src/target/excel/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 6435820..57015a5 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -167,10 +167,12 @@ impl<'a> Excel<'a> {
         worksheet: &u::Worksheet,
     ) -> ExistingCell<ExcelValue> {
         let cell_value = worksheet.get_cell(position.to_string());
-        if let Some(cell) = cell_value {
-            ExistingCell::Value(cell.clone())
-        } else {
-            ExistingCell::Empty
+        match cell_value {
+            // (a cell can also exist just because it's formatted)
+            Some(cell) if cell.is_formula() || !cell.get_value().is_empty() => {
+                ExistingCell::Value(cell.clone())
+            }
+            _ => ExistingCell::Empty,
         }
     }
 
-- 
2.43.0


From fadfff9c492d153450b419f9aa1ffb7b2fca4ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 35/59] fix: backups of files with dots in their name lost
 everything after the first one

---
 src/target/file_backer_upper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/target/file_backer_upper.rs b/src/target/file_backer_upper.rs
index 543dbed..f9a401f 100644
--- a/src/target/file_backer_upper.rs
+++ b/src/target/file_backer_upper.rs
@@ -49,8 +49,10 @@ pub(crate) fn backup_file<P: AsRef<path::Path>>(
         let timestamp = now.format(time_format);
 
         let mut new_file = file_parent.to_path_buf();
-        new_file.push(format!("{}-{timestamp}", file_stem.to_str().unwrap()));
-        new_file.set_extension(file_extension);
+        let mut new_filename = file_stem.to_os_string();
+        new_filename.push(format!("-{timestamp}."));
+        new_filename.push(file_extension);
+        new_file.push(new_filename);
 
         if new_file.exists() {
             continue;
-- 
2.43.0


From 62b70b6367e74c5339844eb77d4bab6e582d9174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 36/59] fix: no panic for an output extension that isn't UTF-8

---
 src/output/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index 11da65c..7cc1515 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -56,7 +56,7 @@ impl Output {
         } else {
             Err(Error::InitError(format!(
                 "{} is an unsupported extension: only .csv, .xlsx or .ods are supported.",
-                ext.to_str().unwrap()
+                ext.to_string_lossy()
             )))
         }
     }
-- 
2.43.0


From ee6da56104c8b2463c0c5d45461d3da3f0be9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 37/59] fix: writing an .ods file crashed instead of failing
 with an error

---
 src/target/open_document/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/target/open_document/mod.rs b/src/target/open_document/mod.rs
index 58b389d..6c4b3df 100644
--- a/src/target/open_document/mod.rs
+++ b/src/target/open_document/mod.rs
@@ -19,7 +19,10 @@ impl CompilationTarget for OpenDocument<'_> {
     }
 
     fn write(&self, _module: &Module) -> Result<()> {
-        todo!()
+        Err(self.compiler.output_error(format!(
+            "Unable to write {}: OpenDocument is not supported yet",
+            self.path.display()
+        )))
     }
 }
 
-- 
2.43.0


From afd0cc0fc78defe649cd2e2f96257e8ba11e1df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:58 +0000
Subject: [PATCH 38/59] fix: errors in the command line arguments were not
 shown

---
 src/compiler/try_from.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compiler/try_from.rs b/src/compiler/try_from.rs
index 3a66aa4..68e7542 100644
--- a/src/compiler/try_from.rs
+++ b/src/compiler/try_from.rs
@@ -7,6 +7,11 @@ impl TryFrom<&CliArgs> for Compiler {
     type Error = crate::Error;
 
     fn try_from(cli_args: &CliArgs) -> std::result::Result<Self, Self::Error> {
+        // from the start, so that it's also shown if something's wrong with the arguments
+        logger::init(
+            logger::u8_into_level_filter(cli_args.verbose).unwrap_or(log::LevelFilter::Error),
+        );
+
         let config = Config {
             key_values: AstParser::parse_key_value_str(
                 &cli_args.key_values,
@@ -15,8 +20,6 @@ impl TryFrom<&CliArgs> for Compiler {
             ..Config::try_from(cli_args)?
         };
 
-        logger::init(config.verbosity);
-
         let compiler = Self {
             config,
             output: Output::try_from(cli_args)?,
-- 
2.43.0


From aec3b95ea3711ee890e2427ff27e89974d96c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 39/59] fix: key/values whose key isn't the name of a variable
 are refused

---
 src/parser/ast_parser.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser/ast_parser.rs b/src/parser/ast_parser.rs
index e546d36..37df859 100644
--- a/src/parser/ast_parser.rs
+++ b/src/parser/ast_parser.rs
@@ -87,6 +87,13 @@ impl<'a> AstParser<'a> {
                 let source_code =
                     ArcSourceCode::new(SourceCode::new(source_input, input_filename.clone()));
 
+                let key = key.trim();
+                if !Self::is_variable_name(key, source_code.clone()) {
+                    return Err(Error::InitError(format!(
+                        "Invalid key/value variables: {kv}"
+                    )));
+                }
+
                 variables.insert(
                     key.to_string(),
                     Self::parse(value, false, None, source_code.clone())
@@ -102,6 +109,13 @@ impl<'a> AstParser<'a> {
         Ok(variables)
     }
 
+    fn is_variable_name(name: &str, source_code: ArcSourceCode) -> bool {
+        AstLexer::new(name, None, source_code).is_ok_and(|lexer| {
+            let token = lexer.next();
+            token.token == Token::Reference && token.str_match == name
+        })
+    }
+
     /// Parse an expression, making sure that they don't get nested so deeply that we'd run out of
     /// stack.
     pub(super) fn expr_bp(&self, min_bp: u8) -> ParseResult<Ast> {
-- 
2.43.0


From 2e24eed82a04b491583f9fd02e745ed718ad5ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:33 +0000
Subject: [PATCH 40/59] fix: which of several errors in the cells was reported
 depended on thread scheduling

---
 src/module/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module/mod.rs b/src/module/mod.rs
index 37d5999..acde200 100644
--- a/src/module/mod.rs
+++ b/src/module/mod.rs
@@ -55,6 +55,9 @@ impl Module {
             .into_par_iter()
             .enumerate()
             .map(|(row_index, row)| row.eval(&self.source_code, &scope, row_index.into()))
+            .collect::<Vec<_>>()
+            .into_iter()
+            // (not while it's still parallel, so that it's always the first error that we get)
             .collect::<Result<Vec<_>>>()?;
 
         Ok(Self {
-- 
2.43.0


From a9921acb1aa27d6145c89e5881ea58c2e528cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 41/59] fix: blank lines in an existing CSV file are rows, the
 values below them moved up

---
 src/target/csv/mod.rs | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/target/csv/mod.rs b/src/target/csv/mod.rs
index b2bda54..5a8c700 100644
--- a/src/target/csv/mod.rs
+++ b/src/target/csv/mod.rs
@@ -4,6 +4,7 @@
 //!
 use super::{ExistingCell, ExistingValues};
 use crate::{Compiler, Output, Result};
+use std::io::Read;
 use std::{ffi, fs, io, path};
 
 mod compilation_target;
@@ -19,6 +20,23 @@ fn csv_reader() -> csv::ReaderBuilder {
     csv_reader
 }
 
+/// The number of blank lines that come before the record that the reader started reading at `start`
+fn count_blank_lines(contents: &[u8], start: usize) -> usize {
+    let (before, rest) = contents.split_at(start);
+    // the reader might have stopped in the middle of the `\r\n` which ends the last record
+    let rest = match rest {
+        [b'\n', rest @ ..] if before.ends_with(b"\r") => rest,
+        rest => rest,
+    };
+    let terminators = rest.iter().take_while(|b| matches!(b, b'\r' | b'\n'));
+    let newlines = terminators.clone().filter(|b| **b == b'\n').count();
+    if newlines > 0 {
+        newlines
+    } else {
+        terminators.count()
+    }
+}
+
 impl<'a> Csv<'a> {
     pub fn new<P: Into<path::PathBuf>>(compiler: &'a Compiler, path: P) -> Self {
         Self {
@@ -44,13 +62,29 @@ impl<'a> Csv<'a> {
             }
         };
 
-        let mut reader = csv_reader().from_reader(io::BufReader::new(file));
-
+        let mut contents = vec![];
+        io::BufReader::new(file)
+            .read_to_end(&mut contents)
+            .map_err(|e| {
+                output
+                    .clone()
+                    .into_error(format!("Error reading output: {e}"))
+            })?;
+
+        let contents = contents.strip_prefix(b"\xEF\xBB\xBF").unwrap_or(&contents);
+        let mut reader = csv_reader().from_reader(contents);
         let mut cells = vec![];
+
         for result in reader.records() {
+            let record = result.or(Err(output.clone().into_error("Error reading CSV row")))?;
+
+            // the reader skips blank lines but they are rows too
+            let start = record.position().map_or(0, csv::Position::byte);
+            let blank_lines = count_blank_lines(contents, start as usize);
+            cells.resize(cells.len() + blank_lines, vec![]);
+
             cells.push(
-                result
-                    .or(Err(output.clone().into_error("Error reading CSV row")))?
+                record
                     .iter()
                     .map(|cell| {
                         if cell.is_empty() {
-- 
2.43.0


From 7a2e07e03fa847cb26f64c822488aa3684990e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 42/59] fix: the documented number_* names of validations were
 refused

---
 src/parser/cell_parser/validate.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 8545079..02ba8a6 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -45,18 +45,20 @@ impl CellParser<'_, '_> {
             "date_nbtwn" | "date_not_between" => self.validate_date_not_between(),
             "date_gte" | "date_on_or_after" => self.validate_date_on_or_after(),
             "date_lte" | "date_on_or_before" => self.validate_date_on_or_before(),
-            "num_btwn" | "number_between" => self.validate_number_between(),
-            "num_eq" | "number_equal_to" => self.validate_number_equal_to(),
-            "num_gt" | "number_greater_than" => self.validate_number_greater_than(),
-            "num_gte" | "number_greater_than_or_equal_to" => {
+            "num_btwn" | "number_btwn" | "number_between" => self.validate_number_between(),
+            "num_eq" | "number_eq" | "number_equal_to" => self.validate_number_equal_to(),
+            "num_gt" | "number_gt" | "number_greater_than" => self.validate_number_greater_than(),
+            "num_gte" | "number_gte" | "number_greater_than_or_equal_to" => {
                 self.validate_number_greater_than_or_equal_to()
             }
-            "num_lt" | "number_less_than" => self.validate_number_less_than(),
-            "num_lte" | "number_less_than_or_equal_to" => {
+            "num_lt" | "number_lt" | "number_less_than" => self.validate_number_less_than(),
+            "num_lte" | "number_lte" | "number_less_than_or_equal_to" => {
                 self.validate_number_less_than_or_equal_to()
             }
-            "num_nbtwn" | "number_not_between" => self.validate_number_not_between(),
-            "num_neq" | "number_not_equal_to" => self.validate_number_not_equal_to(),
+            "num_nbtwn" | "number_nbtwn" | "number_not_between" => {
+                self.validate_number_not_between()
+            }
+            "num_neq" | "number_neq" | "number_not_equal_to" => self.validate_number_not_equal_to(),
             "text_contains" => self.validate_text_contains(),
             "text_does_not_contain" => self.validate_text_does_not_contain(),
             "text_eq" | "text_equal_to" => self.validate_text_equal_to(),
-- 
2.43.0


From a4300fde5a5dbc6504377d978ab5824a7afa4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 43/59] fix: a text in a list of values lost its double quotes,
 or was refused

---
 src/parser/cell_lexer/token_match.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/cell_lexer/token_match.rs b/src/parser/cell_lexer/token_match.rs
index 33637ba..b26258f 100644
--- a/src/parser/cell_lexer/token_match.rs
+++ b/src/parser/cell_lexer/token_match.rs
@@ -73,7 +73,7 @@ impl TryFrom<TokenMatch> for Ast {
         Ok(Ast::new(match tm.token {
             Token::Date => Node::DateTime(DateTime::try_from(tm)?),
             Token::A1 | Token::Identifier => Node::Reference(tm.str_match),
-            Token::String => Node::parse_text(tm)?,
+            Token::String => Node::Text(tm.str_match),
             Token::Number | Token::PositiveNumber => {
                 if tm.str_match.contains('.') {
                     tm.into_float()?.into()
-- 
2.43.0


From 3deb15bb30d2ed046e89ce71afb523e9dd5994f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 44/59] fix: double quotes in the texts of validations were
 dropped or broke the rule in Excel

---
 src/target/excel/cell_validation.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index a230591..e2a79ee 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -1,3 +1,4 @@
+use crate::ast::Node;
 use crate::cell_options::DataValidation;
 use crate::DateTime;
 use umya_spreadsheet as u;
@@ -15,6 +16,11 @@ fn serial_date(date: &DateTime) -> i64 {
     }
 }
 
+/// `t` as it's written in a formula
+fn text_literal(t: &str) -> String {
+    format!("\"{}\"", t.replace('"', "\"\""))
+}
+
 macro_rules! custom_validation {
     ($v:ident, $type:ident, $formula1:expr, $prompt:expr) => {
         $v.set_formula1($formula1.to_string())
@@ -180,17 +186,17 @@ impl From<CellValidation> for u::DataValidation {
             }
 
             DataValidation::TextContains(t) => {
-                let f = format!("=ISNUMBER(SEARCH(\"{t}\", {position}))");
+                let f = format!("=ISNUMBER(SEARCH({}, {position}))", text_literal(&t));
                 custom_validation!(v, Custom, f, format!("Text contains \"{t}\""))
             }
 
             DataValidation::TextDoesNotContain(t) => {
-                let f = format!("=NOT(ISNUMBER(SEARCH(\"{t}\", {position})))");
+                let f = format!("=NOT(ISNUMBER(SEARCH({}, {position})))", text_literal(&t));
                 custom_validation!(v, Custom, f, format!("Text does not contain \"{t}\""))
             }
 
             DataValidation::TextEqualTo(t) => {
-                let f = format!("{position} = \"{t}\"");
+                let f = format!("{position} = {}", text_literal(&t));
                 custom_validation!(v, Custom, f, format!("Text equal to \"{t}\""))
             }
 
@@ -211,7 +217,11 @@ impl From<CellValidation> for u::DataValidation {
                     "\"{}\"",
                     &values
                         .into_iter()
-                        .map(|v| v.to_string().replace('"', ""))
+                        .map(|v| match &*v {
+                            // quotes are doubled inside of the list's text
+                            Node::Text(t) => t.replace('"', "\"\""),
+                            _ => v.to_string(),
+                        })
                         .collect::<Vec<String>>()
                         .join(", ")
                 );
-- 
2.43.0


From 645b587ca8af36aa2f303cba420334860e3dee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 45/59] fix: border=all gave no border in Google Sheets

---
 src/target/google_sheets/google_sheets_cell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index a38fc45..3a2b4f7 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -153,7 +153,7 @@ impl<'a> GoogleSheetsCell<'a> {
     }
 
     fn border_side(&self, side: BorderSide) -> Option<api::Border> {
-        if self.0.borders.contains(&side) {
+        if self.0.side_has_border(side) {
             Some(self.border())
         } else {
             None
-- 
2.43.0


From 5f09a29ceee853ccec9e5e324aa0fe8693c76dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 46/59] fix: Google Sheets knows alignments, wrapping and
 validations by other names

---
 .../google_sheets/google_sheets_cell.rs       | 76 +++++++++----------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 3a2b4f7..2154a8a 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -5,6 +5,7 @@
 //! sending a bunch of default values and prefer to return None instead.  In other words the API
 //! payloads should reflect only the things the user specified on the cell.
 //!
+use crate::ast::Node;
 use crate::cell_options::{
     BorderSide, BorderStyle, DataValidation, HorizontalAlign, NumberFormat, TextFormat, TextWrap,
     VerticalAlign,
@@ -14,14 +15,15 @@ use google_sheets4::api;
 
 pub(super) struct GoogleSheetsCell<'a>(pub(super) &'a Cell);
 
-macro_rules! build_boolean_condition {
-    ($gs_name:literal, $conditional_value_attr:ident $(, $dv:ident)*) => {
+/// <https://developers.google.com/sheets/api/reference/rest/v4/spreadsheets/other#ConditionType>
+macro_rules! validate_str {
+    ($gs_name:literal $(, $dv:ident)*) => {
         api::BooleanCondition {
             type_: Some($gs_name.to_string()),
             values: Some(vec![
                 $(
                     api::ConditionValue {
-                        $conditional_value_attr: Some($dv.to_string()),
+                        user_entered_value: Some($dv.to_string()),
                         ..Default::default()
                     },
                 )*
@@ -30,18 +32,6 @@ macro_rules! build_boolean_condition {
     };
 }
 
-macro_rules! validate_date {
-    ($gs_name:literal $(, $dv:ident)*) => {
-        build_boolean_condition!($gs_name, relative_date $(,$dv)*)
-    };
-}
-
-macro_rules! validate_str {
-    ($gs_name:literal $(, $dv:ident)*) => {
-        build_boolean_condition!($gs_name, user_entered_value $(,$dv)*)
-    };
-}
-
 fn color_style(rgb: &Option<Rgb>) -> Option<api::ColorStyle> {
     if let Some(rgb) = rgb {
         let (r, g, b): (f32, f32, f32) = rgb.into();
@@ -85,63 +75,71 @@ impl<'a> GoogleSheetsCell<'a> {
     pub(super) fn data_validation_rule(&self) -> Option<api::DataValidationRule> {
         Some(api::DataValidationRule {
             condition: Some(match self.0.data_validation.as_ref()? {
-                DataValidation::Custom(c) => validate_str!("CUSTOM", c),
-                DataValidation::DateAfter(d) => validate_date!("DATE_AFTER", d),
-                DataValidation::DateBefore(d) => validate_date!("DATE_BEFORE", d),
+                // formulas have to begin with a `=`
+                DataValidation::Custom(c) => {
+                    let formula = format!("={}", c.strip_prefix('=').unwrap_or(c));
+                    validate_str!("CUSTOM_FORMULA", formula)
+                }
+                DataValidation::DateAfter(d) => validate_str!("DATE_AFTER", d),
+                DataValidation::DateBefore(d) => validate_str!("DATE_BEFORE", d),
                 DataValidation::DateBetween(da, db) => {
-                    validate_date!("DATE_BETWEEN", da, db)
+                    validate_str!("DATE_BETWEEN", da, db)
                 }
-                DataValidation::DateEqualTo(d) => validate_date!("DATE_EQUAL_TO", d),
-                DataValidation::DateIsValid => validate_date!("DATE_IS_VALID_DATE"),
+                DataValidation::DateEqualTo(d) => validate_str!("DATE_EQ", d),
+                DataValidation::DateIsValid => validate_str!("DATE_IS_VALID"),
                 DataValidation::DateNotBetween(da, db) => {
-                    validate_date!("DATE_NOT_BETWEEN", da, db)
+                    validate_str!("DATE_NOT_BETWEEN", da, db)
                 }
-                DataValidation::DateOnOrAfter(d) => validate_date!("DATE_ON_OR_AFTER", d),
+                DataValidation::DateOnOrAfter(d) => validate_str!("DATE_ON_OR_AFTER", d),
                 DataValidation::DateOnOrBefore(d) => {
-                    validate_date!("DATE_ON_OR_BEFORE", d)
+                    validate_str!("DATE_ON_OR_BEFORE", d)
                 }
                 // TODO: these might need to be prefixed with `"="`
                 DataValidation::NumberBetween(na, nb) => {
                     validate_str!("NUMBER_BETWEEN", na, nb)
                 }
-                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQUAL_TO", n),
+                DataValidation::NumberEqualTo(n) => validate_str!("NUMBER_EQ", n),
                 DataValidation::NumberGreaterThan(n) => {
-                    validate_str!("NUMBER_GREATER_THAN", n)
+                    validate_str!("NUMBER_GREATER", n)
                 }
                 DataValidation::NumberGreaterThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_GREATER_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_GREATER_THAN_EQ", n)
                 }
                 DataValidation::NumberLessThan(n) => {
-                    validate_str!("NUMBER_LESS_THAN", n)
+                    validate_str!("NUMBER_LESS", n)
                 }
                 DataValidation::NumberLessThanOrEqualTo(n) => {
-                    validate_str!("NUMBER_LESS_THAN_OR_EQUAL_TO", n)
+                    validate_str!("NUMBER_LESS_THAN_EQ", n)
                 }
                 DataValidation::NumberNotBetween(na, nb) => {
                     validate_str!("NUMBER_NOT_BETWEEN", na, nb)
                 }
                 DataValidation::NumberNotEqualTo(n) => {
-                    validate_str!("NUMBER_NOT_EQUAL_TO", n)
+                    validate_str!("NUMBER_NOT_EQ", n)
                 }
                 DataValidation::TextContains(t) => validate_str!("TEXT_CONTAINS", t),
                 DataValidation::TextDoesNotContain(t) => {
-                    validate_str!("TEXT_DOES_NOT_CONTAIN", t)
+                    validate_str!("TEXT_NOT_CONTAINS", t)
                 }
-                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQUAL_TO", t),
-                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_VALID_EMAIL"),
-                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_VALID_URL"),
+                DataValidation::TextEqualTo(t) => validate_str!("TEXT_EQ", t),
+                DataValidation::TextIsValidEmail => validate_str!("TEXT_IS_EMAIL"),
+                DataValidation::TextIsValidUrl => validate_str!("TEXT_IS_URL"),
                 DataValidation::ValueInList(list) => api::BooleanCondition {
-                    type_: Some("VALUE_IN_LIST".to_string()),
+                    type_: Some("ONE_OF_LIST".to_string()),
                     values: Some(
                         list.iter()
                             .map(|l| api::ConditionValue {
-                                user_entered_value: Some(l.to_string()),
+                                // entered as they are, without quotes
+                                user_entered_value: Some(match &**l {
+                                    Node::Text(t) => t.clone(),
+                                    _ => l.to_string(),
+                                }),
                                 ..Default::default()
                             })
                             .collect(),
                     ),
                 },
-                DataValidation::ValueInRange(a1) => validate_str!("VALUE_IN_RANGE", a1),
+                DataValidation::ValueInRange(a1) => validate_str!("ONE_OF_RANGE", a1),
             }),
             // TODO: show a helpful message?
             input_message: None,
@@ -205,7 +203,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn horizontal_alignment(&self) -> String {
         match self.0.horizontal_align {
             HorizontalAlign::Left => "LEFT",
-            HorizontalAlign::Center => "MIDDLE",
+            HorizontalAlign::Center => "CENTER",
             HorizontalAlign::Right => "RIGHT",
         }
         .to_string()
@@ -277,7 +275,7 @@ impl<'a> GoogleSheetsCell<'a> {
     fn wrap_strategy(&self) -> String {
         match self.0.text_wrap {
             TextWrap::Wrap => "WRAP",
-            TextWrap::Overflow => "OVERFLOW",
+            TextWrap::Overflow => "OVERFLOW_CELL",
             TextWrap::Clip => "CLIP",
         }
         .to_string()
-- 
2.43.0


From 48e7d81c5e85b73413b31b88ab2a411a4fdc6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 47/59] fix: offsets and sheets of more than 1000 rows were
 misplaced in Google Sheets

---
 .../google_sheets/batch_update_builder.rs     | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index f0c9d4a..256ce93 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -40,8 +40,9 @@ impl<'a> BatchUpdateBuilder<'a> {
         // split the rows into requests with 1000 per
         all_rows
             .chunks(1000)
-            .map(|rows| api::Request {
-                update_cells: Some(self.update_cells_request(rows)),
+            .enumerate()
+            .map(|(i, rows)| api::Request {
+                update_cells: Some(self.update_cells_request(i * 1000, rows)),
                 ..Default::default()
             })
             .collect()
@@ -74,14 +75,20 @@ impl<'a> BatchUpdateBuilder<'a> {
     }
 
     fn row_data(&self) -> Vec<api::RowData> {
+        let (x_offset, y_offset) = self.compiler.config.offset;
+
         self.module
             .spreadsheet
             .rows
             .iter()
             .enumerate()
             .map(|(i, row)| {
-                let empty_row = vec![];
-                let existing_row = self.existing_values.cells.get(i).unwrap_or(&empty_row);
+                let existing_row = self
+                    .existing_values
+                    .cells
+                    .get(y_offset as usize + i)
+                    .and_then(|row| row.get(x_offset as usize..))
+                    .unwrap_or_default();
                 let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);
 
                 api::RowData {
@@ -91,17 +98,21 @@ impl<'a> BatchUpdateBuilder<'a> {
             .collect()
     }
 
-    fn update_cells_request(&self, rows: &[api::RowData]) -> api::UpdateCellsRequest {
+    fn update_cells_request(
+        &self,
+        first_row: usize,
+        rows: &[api::RowData],
+    ) -> api::UpdateCellsRequest {
         api::UpdateCellsRequest {
             fields: Some(google_sheets4::FieldMask::from_str("*").unwrap()),
             start: Some(api::GridCoordinate {
                 // TODO: get rid of the unwraps
                 column_index: Some(
-                    i32::try_from(self.compiler.config.offset.1)
+                    i32::try_from(self.compiler.config.offset.0)
                         .expect("a 32-bit value for column offset"),
                 ),
                 row_index: Some(
-                    i32::try_from(self.compiler.config.offset.0)
+                    i32::try_from(self.compiler.config.offset.1 as usize + first_row)
                         .expect("a 32-bit value for row offset"),
                 ),
                 sheet_id: None,
-- 
2.43.0


From 0242268ee4d9519759950eb97f868951a5e6cd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 48/59] fix: in safe mode formatted but empty cells of Google
 Sheets were not written

---
 .../google_sheets/batch_update_builder.rs     | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 256ce93..30d4024 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -2,7 +2,7 @@
 //!
 use super::{google_sheets_cell, SheetsValue};
 use crate::ast::Node;
-use crate::target::{merge_rows, ExistingValues, MergeResult};
+use crate::target::{merge_rows, ExistingCell, ExistingValues, MergeResult};
 use crate::{Cell, Compiler, Module};
 use google_sheets4::api;
 use std::str::FromStr;
@@ -89,7 +89,8 @@ impl<'a> BatchUpdateBuilder<'a> {
                     .get(y_offset as usize + i)
                     .and_then(|row| row.get(x_offset as usize..))
                     .unwrap_or_default();
-                let merged_row = merge_rows(existing_row, &row.cells, &self.compiler.config);
+                let existing_row = Self::without_empty(existing_row, row.cells.len());
+                let merged_row = merge_rows(&existing_row, &row.cells, &self.compiler.config);
 
                 api::RowData {
                     values: Some(Self::cell_data(&merged_row)),
@@ -98,6 +99,24 @@ impl<'a> BatchUpdateBuilder<'a> {
             .collect()
     }
 
+    /// In the first `width` cells (the ones that can be replaced) only those with a value are there,
+    /// not ones which are empty but have some formatting.
+    fn without_empty(
+        existing_row: &[ExistingCell<SheetsValue>],
+        width: usize,
+    ) -> Vec<ExistingCell<SheetsValue>> {
+        existing_row
+            .iter()
+            .enumerate()
+            .map(|(i, cell)| match cell {
+                ExistingCell::Value(v) if i < width && v.user_entered_value.is_none() => {
+                    ExistingCell::Empty
+                }
+                _ => cell.clone(),
+            })
+            .collect()
+    }
+
     fn update_cells_request(
         &self,
         first_row: usize,
-- 
2.43.0


From 93a2afeb52a7662af6a7aae4347d0e92d486d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:03 +0000
Subject: [PATCH 49/59] fix: Google Sheets was written to the sheet with id 0,
 whichever one had been read

---
 .../google_sheets/batch_update_builder.rs     |  9 ++-
 src/target/google_sheets/mod.rs               | 69 +++++++++++--------
 2 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/src/target/google_sheets/batch_update_builder.rs b/src/target/google_sheets/batch_update_builder.rs
index 30d4024..ad3a8ae 100644
--- a/src/target/google_sheets/batch_update_builder.rs
+++ b/src/target/google_sheets/batch_update_builder.rs
@@ -11,6 +11,7 @@ pub(super) struct BatchUpdateBuilder<'a> {
     existing_values: &'a ExistingValues<SheetsValue>,
     compiler: &'a Compiler,
     module: &'a Module,
+    sheet_id: Option<i32>,
 }
 
 impl<'a> BatchUpdateBuilder<'a> {
@@ -23,9 +24,15 @@ impl<'a> BatchUpdateBuilder<'a> {
             existing_values,
             compiler,
             module,
+            sheet_id: None,
         }
     }
 
+    /// Which one of the sheets (the tabs) of the spreadsheet to update.
+    pub(super) fn sheet_id(self, sheet_id: Option<i32>) -> Self {
+        Self { sheet_id, ..self }
+    }
+
     /// Loops over each row of the spreadsheet, building up `UpdateCellsRequest`s.  
     pub(super) fn build(&self) -> api::BatchUpdateSpreadsheetRequest {
         api::BatchUpdateSpreadsheetRequest {
@@ -134,7 +141,7 @@ impl<'a> BatchUpdateBuilder<'a> {
                     i32::try_from(self.compiler.config.offset.1 as usize + first_row)
                         .expect("a 32-bit value for row offset"),
                 ),
-                sheet_id: None,
+                sheet_id: self.sheet_id,
             }),
             rows: Some(rows.to_vec()),
             range: None,
diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index 62e876e..c7fac2b 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -9,7 +9,7 @@ use super::{ExistingCell, ExistingValues};
 use crate::{Compiler, Error, Module, Result};
 use batch_update_builder::BatchUpdateBuilder;
 use credentials::Credentials;
-use google_sheets4::{hyper_rustls, hyper_util};
+use google_sheets4::{api, hyper_rustls, hyper_util};
 use log::{error, warn};
 
 type HyperConnector =
@@ -17,7 +17,7 @@ type HyperConnector =
 type SheetsHub = google_sheets4::Sheets<HyperConnector>;
 type DriveHub = google_drive3::DriveHub<HyperConnector>;
 
-type SheetsValue = google_sheets4::api::CellData;
+type SheetsValue = api::CellData;
 
 pub(crate) struct GoogleSheets<'a> {
     async_runtime: tokio::runtime::Runtime,
@@ -30,7 +30,7 @@ macro_rules! unwrap_or_empty {
     ($to_unwrap:expr) => {{
         match $to_unwrap {
             Some(s) => s,
-            None => return Ok(ExistingValues::default()),
+            None => return ExistingValues::default(),
         }
     }};
 }
@@ -56,55 +56,56 @@ impl<'a> GoogleSheets<'a> {
         })
     }
 
-    async fn read_existing_cells(&self, hub: &SheetsHub) -> Result<ExistingValues<SheetsValue>> {
-        let spreadsheet = match hub
+    async fn read_existing(&self, hub: &SheetsHub) -> Result<api::Spreadsheet> {
+        match hub
             .spreadsheets()
             .get(&self.sheet_id)
             .include_grid_data(true)
             .doit()
             .await
         {
-            Ok((_, s)) => s,
+            Ok((_, s)) => Ok(s),
             Err(e) => {
                 match e {
                     google_sheets4::Error::BadRequest(obj)
                         if obj["error"]["code"].as_u64().is_some_and(|c| c == 404) =>
                     {
                         // 404 is fine, it just means it doesn't exist yet
-                        return Ok(ExistingValues::default());
+                        Ok(api::Spreadsheet::default())
                     }
                     _ => {
                         warn!("Google Sheets API error response: {e}");
 
                         // TODO: show just the message
-                        return Err(Error::GoogleSetupError(format!(
+                        Err(Error::GoogleSetupError(format!(
                             "Error reading existing sheet: {e}",
-                        )));
+                        )))
                     }
                 }
             }
-        };
-
-        /* TODO: ugh why won't this work!!
-        let row_data = spreadsheet
-            .sheets
-            .and_then(|sheets| sheets.get(0))
-            .and_then(|sheet| sheet.data)
-            .and_then(|data| data.get(0))
-            .and_then(|grid_data| grid_data.row_data);
+        }
+    }
 
-        let Some(row_data) = row_data else {
-            return Ok(ExistingValues::default());
+    /// The sheet (the tab) of the spreadsheet to write to: the one with the name that was asked
+    /// for, or else the first one.
+    fn sheet_to_write<'b>(
+        compiler: &Compiler,
+        spreadsheet: &'b api::Spreadsheet,
+    ) -> Option<&'b api::Sheet> {
+        let sheets = spreadsheet.sheets.as_deref().unwrap_or_default();
+        let is_named = |sheet: &&api::Sheet| {
+            let title = sheet.properties.as_ref().and_then(|p| p.title.as_ref());
+            title == Some(&compiler.config.sheet_name)
         };
-        */
+        sheets.iter().find(is_named).or_else(|| sheets.first())
+    }
 
-        let sheets = unwrap_or_empty!(spreadsheet.sheets); // Vec<Sheet>
-        let sheet = unwrap_or_empty!(sheets.first()); // &Sheet
+    fn existing_values(sheet: &api::Sheet) -> ExistingValues<SheetsValue> {
         let data = unwrap_or_empty!(&sheet.data); // &Vec<GridData>
         let grid_data = unwrap_or_empty!(data.first()); // &GridData
         let row_data = unwrap_or_empty!(&grid_data.row_data); // &Vec<RowData>
 
-        Ok(ExistingValues {
+        ExistingValues {
             cells: row_data
                 .iter()
                 .map(|row| {
@@ -117,7 +118,20 @@ impl<'a> GoogleSheets<'a> {
                     }
                 })
                 .collect(),
-        })
+        }
+    }
+
+    fn batch_update(
+        compiler: &Compiler,
+        module: &Module,
+        existing: &api::Spreadsheet,
+    ) -> api::BatchUpdateSpreadsheetRequest {
+        let sheet = Self::sheet_to_write(compiler, existing);
+        let existing_values = sheet.map(Self::existing_values).unwrap_or_default();
+
+        BatchUpdateBuilder::new(compiler, module, &existing_values)
+            .sheet_id(sheet.and_then(|s| s.properties.as_ref()?.sheet_id))
+            .build()
     }
 
     async fn drive_hub(&self) -> Result<DriveHub> {
@@ -157,9 +171,8 @@ impl<'a> GoogleSheets<'a> {
 
     async fn write_sheet(&self, module: &Module) -> Result<()> {
         let hub = self.sheets_hub().await?;
-        let existing_values = self.read_existing_cells(&hub).await?;
-        let batch_update_request =
-            BatchUpdateBuilder::new(self.compiler, module, &existing_values).build();
+        let existing = self.read_existing(&hub).await?;
+        let batch_update_request = Self::batch_update(self.compiler, module, &existing);
 
         hub.spreadsheets()
             .batch_update(batch_update_request, &self.sheet_id)
-- 
2.43.0


From ee613f3ab06a638c3b1dc5760686391f4606aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 50/59] hooks for checks, behind the feature verif: thread
 schedules, row order and the Google request

---
 Cargo.toml                      |   4 +
 src/lib.rs                      |   3 +
 src/module_loader/mod.rs        |   7 +-
 src/row/mod.rs                  |   3 +
 src/target/google_sheets/mod.rs |   2 +-
 src/verif/mod.rs                |  23 +++
 src/verif/rows.rs               |  83 +++++++++
 src/verif/sched.rs              | 290 ++++++++++++++++++++++++++++++++
 src/verif/sync.rs               | 181 ++++++++++++++++++++
 src/verif/thread.rs             | 105 ++++++++++++
 10 files changed, 698 insertions(+), 3 deletions(-)
 create mode 100644 src/verif/mod.rs
 create mode 100644 src/verif/rows.rs
 create mode 100644 src/verif/sched.rs
 create mode 100644 src/verif/sync.rs
 create mode 100644 src/verif/thread.rs

diff --git a/Cargo.toml b/Cargo.toml
index c188d9b..a5df7f4 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -38,6 +38,10 @@ serde_json = "^1"
 tokio = { version = "^1.35", features = ["rt"] }
 umya-spreadsheet = "^2.1"
 
+[features]
+# hooks for checks of the properties, they need to see and to decide about what's private
+verif = []
+
 [dev-dependencies]
 criterion = { version = "^0.5", features = ["html_reports"] }
 pprof = { version = "0.13", features = ["criterion", "flamegraph"] }
diff --git a/src/lib.rs b/src/lib.rs
index 6875837..62fc7fd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,6 +48,9 @@ use log::{error, info, warn};
 #[cfg(test)]
 mod test_utils;
 
+#[cfg(feature = "verif")]
+pub mod verif;
+
 pub(crate) fn compiler_error<S: std::fmt::Display>(message: S) -> ! {
     error!(
         "csv++ ran into an unexpected error while compiling.
diff --git a/src/module_loader/mod.rs b/src/module_loader/mod.rs
index 0ddce66..ecd1587 100644
--- a/src/module_loader/mod.rs
+++ b/src/module_loader/mod.rs
@@ -11,8 +11,11 @@ use log::debug;
 use petgraph::{algo, graph};
 use std::collections;
 use std::path;
-use std::sync;
-use std::thread;
+#[cfg(not(feature = "verif"))]
+use std::{sync, thread};
+
+#[cfg(feature = "verif")]
+use crate::verif::{sync, thread};
 
 mod cyclic;
 
diff --git a/src/row/mod.rs b/src/row/mod.rs
index 4a84139..7280653 100644
--- a/src/row/mod.rs
+++ b/src/row/mod.rs
@@ -37,6 +37,9 @@ impl Row {
         scope: &Scope,
         row_a1: a1::Row,
     ) -> Result<Self> {
+        #[cfg(feature = "verif")]
+        let _passed = crate::verif::rows::gate(row_a1.y);
+
         let mut cells = Vec::with_capacity(self.cells.len());
         for (cell_index, cell) in self.cells.into_iter().enumerate() {
             let cell_a1 = a1::Address::new(cell_index, row_a1.y);
diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index c7fac2b..e1c8ead 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -121,7 +121,7 @@ impl<'a> GoogleSheets<'a> {
         }
     }
 
-    fn batch_update(
+    pub(crate) fn batch_update(
         compiler: &Compiler,
         module: &Module,
         existing: &api::Spreadsheet,
diff --git a/src/verif/mod.rs b/src/verif/mod.rs
new file mode 100644
index 0000000..3490f25
--- /dev/null
+++ b/src/verif/mod.rs
@@ -0,0 +1,23 @@
+//! Only there with the feature `verif`, which nothing but the checks of the properties use: what
+//! they need to see of the crate's inside and to decide about.
+//!
+use crate::target::GoogleSheets;
+use crate::{Compiler, Module};
+
+pub mod rows;
+pub mod sched;
+pub mod sync;
+pub mod thread;
+
+/// The request that updates a Google spreadsheet.  `existing` is how the API describes the
+/// spreadsheet before, both are JSON.
+///
+/// # Panics
+///
+/// If it isn't.
+#[must_use]
+pub fn google_batch_update(compiler: &Compiler, module: &Module, existing: &str) -> String {
+    let existing = serde_json::from_str(existing).expect("a spreadsheet");
+    serde_json::to_string(&GoogleSheets::batch_update(compiler, module, &existing))
+        .expect("a request")
+}
diff --git a/src/verif/rows.rs b/src/verif/rows.rs
new file mode 100644
index 0000000..e6858ab
--- /dev/null
+++ b/src/verif/rows.rs
@@ -0,0 +1,83 @@
+//! Decides the order in which the rows are evaluated: they all wait in front of a gate until all
+//! are there, then they go through one by one.
+//!
+use std::collections::{HashMap, HashSet};
+use std::sync::{Condvar, Mutex, MutexGuard, PoisonError};
+use std::time::{Duration, Instant};
+
+#[derive(Default)]
+struct State {
+    /// the order in which the rows may go, none of them waits if it's empty
+    order: Vec<usize>,
+    arrived: HashSet<usize>,
+    done: HashMap<usize, Instant>,
+    /// rows that were let through without all others being there
+    early: usize,
+}
+
+static STATE: Mutex<Option<State>> = Mutex::new(None);
+static CHANGED: Condvar = Condvar::new();
+
+fn state() -> MutexGuard<'static, Option<State>> {
+    STATE.lock().unwrap_or_else(PoisonError::into_inner)
+}
+
+/// How long it takes until a result has been put to the others
+const SETTLED: Duration = Duration::from_micros(300);
+
+pub struct Passed(Option<usize>);
+
+impl Drop for Passed {
+    fn drop(&mut self) {
+        if let (Some(row), Some(s)) = (self.0, state().as_mut()) {
+            s.done.insert(row, Instant::now());
+            CHANGED.notify_all();
+        }
+    }
+}
+
+/// Wait until it's the turn of `row`, which lasts until the result is dropped
+pub fn gate(row: usize) -> Passed {
+    let mut guard = state();
+    let begin = Instant::now();
+    if let Some(s) = guard.as_mut() {
+        s.arrived.insert(row);
+        CHANGED.notify_all();
+    }
+    loop {
+        let Some(s) = guard.as_mut() else {
+            return Passed(None);
+        };
+        let Some(turn) = s.order.iter().position(|r| *r == row) else {
+            return Passed(None);
+        };
+        // once one had to go early it's not worth it to wait any longer
+        let patience = Duration::from_millis(if s.early == 0 { 500 } else { 1 });
+        let complete = s.order.iter().all(|r| s.arrived.contains(r));
+        let settled = s.order[..turn]
+            .iter()
+            .all(|r| s.done.get(r).is_some_and(|t| t.elapsed() > SETTLED));
+        if complete && settled {
+            return Passed(Some(row));
+        }
+        if begin.elapsed() > patience {
+            s.early += 1;
+            return Passed(Some(row));
+        }
+        guard = CHANGED
+            .wait_timeout(guard, Duration::from_micros(200))
+            .unwrap_or_else(PoisonError::into_inner)
+            .0;
+    }
+}
+
+/// Let `f` run with the rows going in this order, also gives how many of them didn't
+pub fn in_order<R>(order: &[usize], f: impl FnOnce() -> R) -> (R, usize) {
+    *state() = Some(State {
+        order: order.to_vec(),
+        ..State::default()
+    });
+    let result = f();
+    let early = state().take().map_or(0, |s| s.early);
+    (result, early)
+}
diff --git a/src/verif/sched.rs b/src/verif/sched.rs
new file mode 100644
index 0000000..554ca15
--- /dev/null
+++ b/src/verif/sched.rs
@@ -0,0 +1,290 @@
+//! Decides which thread goes on: of the threads started with [`super::thread`] only one runs at a
+//! time, from one use of something in [`super::sync`] to the next.
+//!
+use std::cell::Cell;
+use std::collections::HashMap;
+use std::panic;
+use std::sync::{Condvar, Mutex, MutexGuard, PoisonError};
+use std::time::Duration;
+
+/// What a thread is about to do
+#[derive(Clone, Debug, PartialEq)]
+pub enum Op {
+    Start,
+    Read(usize),
+    Write(usize),
+    /// something which can always go on
+    Touch(usize),
+    Join(Vec<usize>),
+}
+
+/// One step of a schedule
+#[derive(Clone, Debug, PartialEq)]
+pub struct Step {
+    /// the threads that could have gone on
+    pub enabled: Vec<usize>,
+    pub chosen: usize,
+    /// the objects used in it, and if they were changed
+    pub used: Vec<(usize, bool)>,
+}
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Ending {
+    Complete,
+    /// it was told to stop
+    Stopped,
+    Deadlock,
+    /// a thread waits for something that isn't in [`super::sync`]
+    Uncontrolled,
+}
+
+#[derive(Default)]
+struct Held {
+    writer: Option<usize>,
+    readers: usize,
+}
+
+type Choose = Box<dyn FnMut(&[Step], &[usize]) -> Option<usize> + Send>;
+
+struct State {
+    choose: Choose,
+    /// what each thread is about to do, or none if it's done
+    pending: Vec<Option<Op>>,
+    running: Option<usize>,
+    objects: usize,
+    held: HashMap<usize, Held>,
+    steps: Vec<Step>,
+    ending: Ending,
+}
+
+static STATE: Mutex<Option<State>> = Mutex::new(None);
+static CHANGED: Condvar = Condvar::new();
+
+thread_local! {
+    static ME: Cell<Option<usize>> = const { Cell::new(None) };
+}
+
+/// What the threads panic with when the schedule ends before they do
+pub struct Ended;
+
+fn state() -> MutexGuard<'static, Option<State>> {
+    STATE.lock().unwrap_or_else(PoisonError::into_inner)
+}
+
+impl State {
+    fn can_go(&self, op: &Op) -> bool {
+        let held = |o| self.held.get(o);
+        match op {
+            Op::Start | Op::Touch(_) => true,
+            Op::Read(o) => held(o).map_or(true, |h| h.writer.is_none()),
+            Op::Write(o) => held(o).map_or(true, |h| h.writer.is_none() && h.readers == 0),
+            Op::Join(threads) => threads.iter().all(|t| self.pending[*t].is_none()),
+        }
+    }
+
+    fn go_on(&mut self) {
+        if self.running.is_some() || self.ending != Ending::Complete {
+            return;
+        }
+        let enabled: Vec<usize> = (0..self.pending.len())
+            .filter(|t| self.pending[*t].as_ref().is_some_and(|op| self.can_go(op)))
+            .collect();
+        if enabled.is_empty() {
+            if self.pending.iter().any(Option::is_some) {
+                self.ending = Ending::Deadlock;
+            }
+        } else if let Some(chosen) = (self.choose)(&self.steps, &enabled) {
+            let mut used = vec![];
+            match self.pending[chosen] {
+                Some(Op::Read(o)) => {
+                    self.held.entry(o).or_default().readers += 1;
+                    used.push((o, false));
+                }
+                Some(Op::Write(o)) => {
+                    self.held.entry(o).or_default().writer = Some(chosen);
+                    used.push((o, true));
+                }
+                Some(Op::Touch(o)) => used.push((o, true)),
+                _ => (),
+            }
+            self.running = Some(chosen);
+            self.steps.push(Step {
+                enabled,
+                chosen,
+                used,
+            });
+        } else {
+            self.ending = Ending::Stopped;
+        }
+        CHANGED.notify_all();
+    }
+}
+
+fn wait_for_turn(me: usize) {
+    let mut guard = state();
+    loop {
+        let Some(s) = guard.as_mut() else { return };
+        match s.ending {
+            Ending::Complete if s.running == Some(me) => return,
+            Ending::Complete => (),
+            Ending::Uncontrolled => return,
+            Ending::Stopped | Ending::Deadlock => {
+                drop(guard);
+                if !std::thread::panicking() {
+                    panic::resume_unwind(Box::new(Ended));
+                }
+                return;
+            }
+        }
+        let steps = s.steps.len();
+        let (g, timeout) = CHANGED
+            .wait_timeout(guard, Duration::from_secs(5))
+            .unwrap_or_else(PoisonError::into_inner);
+        guard = g;
+        if let (true, Some(s)) = (timeout.timed_out(), guard.as_mut()) {
+            if s.steps.len() == steps && s.ending == Ending::Complete && s.running != Some(me) {
+                s.ending = Ending::Uncontrolled;
+                CHANGED.notify_all();
+            }
+        }
+    }
+}
+
+/// If the current thread is one whose steps are decided about
+fn me() -> Option<usize> {
+    ME.with(Cell::get)
+}
+
+/// To be called before something that other threads can notice
+pub(super) fn step(op: Op) {
+    if let Some(me) = me() {
+        if let Some(s) = state().as_mut() {
+            s.pending[me] = Some(op);
+            if s.running == Some(me) {
+                s.running = None;
+            }
+            s.go_on();
+        }
+        wait_for_turn(me);
+    }
+}
+
+pub(super) fn new_object() -> usize {
+    state().as_mut().map_or(0, |s| {
+        s.objects += 1;
+        s.objects
+    })
+}
+
+pub(super) fn release(object: usize, write: bool) {
+    if me().is_none() {
+        return;
+    }
+    if let Some(s) = state().as_mut() {
+        let held = s.held.entry(object).or_default();
+        if write {
+            held.writer = None;
+        } else {
+            held.readers = held.readers.saturating_sub(1);
+        }
+        if let Some(step) = s.steps.last_mut() {
+            // taking it to read and giving it back at once changes nothing for the others
+            let write = write || !step.used.contains(&(object, false));
+            step.used.push((object, write));
+        }
+    }
+}
+
+/// The lock was (not) taken without waiting for it
+pub(super) fn try_take(object: usize, write: bool) -> bool {
+    step(Op::Touch(object));
+    if me().is_none() {
+        return true;
+    }
+    state().as_mut().map_or(true, |s| {
+        let op = if write {
+            Op::Write(object)
+        } else {
+            Op::Read(object)
+        };
+        if !s.can_go(&op) {
+            return false;
+        }
+        let held = s.held.entry(object).or_default();
+        if write {
+            held.writer = me();
+        } else {
+            held.readers += 1;
+        }
+        true
+    })
+}
+
+/// The current thread starts another one
+pub(super) fn new_thread() -> Option<usize> {
+    me()?;
+    let mut guard = state();
+    let s = guard.as_mut()?;
+    s.pending.push(Some(Op::Start));
+    Some(s.pending.len() - 1)
+}
+
+/// Let `f` be what the thread `id` does
+pub(super) fn as_thread<R>(id: Option<usize>, f: impl FnOnce() -> R) -> R {
+    struct Done(Option<usize>);
+    impl Drop for Done {
+        fn drop(&mut self) {
+            ME.with(|m| m.set(None));
+            if let (Some(me), Some(s)) = (self.0, state().as_mut()) {
+                s.pending[me] = None;
+                if s.running == Some(me) {
+                    s.running = None;
+                }
+                s.go_on();
+            }
+        }
+    }
+
+    ME.with(|m| m.set(id));
+    let done = Done(id);
+    if let Some(id) = id {
+        wait_for_turn(id);
+    }
+    let result = f();
+    drop(done);
+    result
+}
+
+/// Run `f` with its threads being scheduled by `choose`.  It gets the steps so far and the threads
+/// that can go on, and says which one does, or none to stop there.
+///
+/// # Errors
+///
+/// What `f` panicked with.
+///
+/// # Panics
+///
+/// If there is another one at the same time.
+pub fn run<R>(
+    choose: impl FnMut(&[Step], &[usize]) -> Option<usize> + Send + 'static,
+    f: impl FnOnce() -> R,
+) -> (std::thread::Result<R>, Vec<Step>, Ending) {
+    let mut guard = state();
+    assert!(guard.is_none(), "only one at a time");
+    let mut s = State {
+        choose: Box::new(choose),
+        pending: vec![Some(Op::Start)],
+        running: None,
+        objects: 0,
+        held: HashMap::new(),
+        steps: vec![],
+        ending: Ending::Complete,
+    };
+    s.go_on();
+    *guard = Some(s);
+    drop(guard);
+
+    let result = panic::catch_unwind(panic::AssertUnwindSafe(|| as_thread(Some(0), f)));
+    let s = state().take().expect("the state");
+    (result, s.steps, s.ending)
+}
diff --git a/src/verif/sync.rs b/src/verif/sync.rs
new file mode 100644
index 0000000..4b28075
--- /dev/null
+++ b/src/verif/sync.rs
@@ -0,0 +1,181 @@
+//! Stands in for [`std::sync`], see [`super::sched`]
+use super::sched::{self, Op};
+use std::fmt;
+use std::ops;
+pub use std::sync::*;
+
+macro_rules! guard {
+    ($name:ident, $write:literal $(, $mutable:ident)?) => {
+        pub struct $name<'a, T: ?Sized> {
+            // in an option because it has to be dropped before the release
+            inner: Option<std::sync::$name<'a, T>>,
+            object: usize,
+        }
+
+        impl<T: ?Sized> Drop for $name<'_, T> {
+            fn drop(&mut self) {
+                if self.inner.take().is_some() {
+                    sched::release(self.object, $write);
+                }
+            }
+        }
+
+        impl<T: ?Sized> ops::Deref for $name<'_, T> {
+            type Target = T;
+
+            fn deref(&self) -> &T {
+                self.inner.as_ref().expect("the guard")
+            }
+        }
+
+        $(
+            impl<T: ?Sized> ops::$mutable for $name<'_, T> {
+                fn deref_mut(&mut self) -> &mut T {
+                    self.inner.as_mut().expect("the guard")
+                }
+            }
+        )?
+
+        impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
+            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                (**self).fmt(f)
+            }
+        }
+    };
+}
+
+guard!(MutexGuard, true, DerefMut);
+guard!(RwLockReadGuard, false);
+guard!(RwLockWriteGuard, true, DerefMut);
+
+macro_rules! take {
+    ($guard:ident, $result:expr, $object:expr) => {
+        match $result {
+            Ok(g) => Ok($guard {
+                inner: Some(g),
+                object: $object,
+            }),
+            Err(e) => Err(PoisonError::new($guard {
+                inner: Some(e.into_inner()),
+                object: $object,
+            })),
+        }
+    };
+}
+
+macro_rules! try_take {
+    ($guard:ident, $write:literal, $result:expr, $object:expr) => {
+        if !sched::try_take($object, $write) {
+            Err(TryLockError::WouldBlock)
+        } else {
+            match $result {
+                Ok(g) => Ok($guard {
+                    inner: Some(g),
+                    object: $object,
+                }),
+                Err(TryLockError::Poisoned(e)) => {
+                    Err(TryLockError::Poisoned(PoisonError::new($guard {
+                        inner: Some(e.into_inner()),
+                        object: $object,
+                    })))
+                }
+                Err(TryLockError::WouldBlock) => {
+                    sched::release($object, $write);
+                    Err(TryLockError::WouldBlock)
+                }
+            }
+        }
+    };
+}
+
+macro_rules! lock_type {
+    ($name:ident) => {
+        pub struct $name<T: ?Sized> {
+            object: usize,
+            inner: std::sync::$name<T>,
+        }
+
+        impl<T> $name<T> {
+            pub fn new(value: T) -> Self {
+                Self {
+                    object: sched::new_object(),
+                    inner: std::sync::$name::new(value),
+                }
+            }
+
+            /// # Errors
+            ///
+            /// If it's poisoned.
+            pub fn into_inner(self) -> LockResult<T> {
+                self.inner.into_inner()
+            }
+        }
+
+        impl<T: ?Sized> $name<T> {
+            pub fn is_poisoned(&self) -> bool {
+                self.inner.is_poisoned()
+            }
+
+            /// # Errors
+            ///
+            /// If it's poisoned.
+            pub fn get_mut(&mut self) -> LockResult<&mut T> {
+                self.inner.get_mut()
+            }
+        }
+
+        impl<T: Default> Default for $name<T> {
+            fn default() -> Self {
+                Self::new(T::default())
+            }
+        }
+
+        impl<T> From<T> for $name<T> {
+            fn from(value: T) -> Self {
+                Self::new(value)
+            }
+        }
+
+        impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<T> {
+            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                self.inner.fmt(f)
+            }
+        }
+    };
+}
+
+lock_type!(Mutex);
+lock_type!(RwLock);
+
+#[allow(clippy::missing_errors_doc)]
+impl<T: ?Sized> Mutex<T> {
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        sched::step(Op::Write(self.object));
+        take!(MutexGuard, self.inner.lock(), self.object)
+    }
+
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        try_take!(MutexGuard, true, self.inner.try_lock(), self.object)
+    }
+}
+
+#[allow(clippy::missing_errors_doc)]
+impl<T: ?Sized> RwLock<T> {
+    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+        sched::step(Op::Read(self.object));
+        take!(RwLockReadGuard, self.inner.read(), self.object)
+    }
+
+    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+        sched::step(Op::Write(self.object));
+        take!(RwLockWriteGuard, self.inner.write(), self.object)
+    }
+
+    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
+        try_take!(RwLockReadGuard, false, self.inner.try_read(), self.object)
+    }
+
+    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
+        try_take!(RwLockWriteGuard, true, self.inner.try_write(), self.object)
+    }
+}
diff --git a/src/verif/thread.rs b/src/verif/thread.rs
new file mode 100644
index 0000000..bc65346
--- /dev/null
+++ b/src/verif/thread.rs
@@ -0,0 +1,105 @@
+//! Stands in for [`std::thread`], see [`super::sched`]
+use super::sched;
+use std::cell::RefCell;
+use std::io;
+pub use std::thread::*;
+
+thread_local! {
+    /// the threads started by this one, per scope
+    static STARTED: RefCell<Vec<Vec<usize>>> = const { RefCell::new(vec![]) };
+}
+
+#[repr(transparent)]
+#[derive(Debug)]
+pub struct Scope<'scope, 'env: 'scope>(std::thread::Scope<'scope, 'env>);
+
+#[derive(Debug)]
+pub struct ScopedJoinHandle<'scope, T>(std::thread::ScopedJoinHandle<'scope, T>, Option<usize>);
+
+#[derive(Debug)]
+pub struct Builder(std::thread::Builder);
+
+pub fn scope<'env, F, T>(f: F) -> T
+where
+    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
+{
+    std::thread::scope(|s| {
+        // it's the same, just with another name
+        let s = unsafe { &*(std::ptr::from_ref(s).cast::<Scope<'_, 'env>>()) };
+        STARTED.with_borrow_mut(|t| t.push(vec![]));
+        let result = f(s);
+        let started = STARTED.with_borrow_mut(|t| t.pop().unwrap_or_default());
+        if !started.is_empty() {
+            sched::step(sched::Op::Join(started));
+        }
+        result
+    })
+}
+
+impl<'scope> Scope<'scope, '_> {
+    /// # Panics
+    ///
+    /// If it can't be started.
+    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
+    where
+        F: FnOnce() -> T + Send + 'scope,
+        T: Send + 'scope,
+    {
+        Builder::new().spawn_scoped(self, f).expect("a thread")
+    }
+}
+
+impl<'scope, T> ScopedJoinHandle<'scope, T> {
+    /// # Errors
+    ///
+    /// What it panicked with.
+    pub fn join(self) -> std::thread::Result<T> {
+        if let Some(id) = self.1 {
+            sched::step(sched::Op::Join(vec![id]));
+        }
+        self.0.join()
+    }
+}
+
+impl Builder {
+    #[must_use]
+    #[allow(clippy::new_without_default)]
+    pub fn new() -> Self {
+        Self(std::thread::Builder::new())
+    }
+
+    #[must_use]
+    pub fn name(self, name: String) -> Self {
+        Self(self.0.name(name))
+    }
+
+    #[must_use]
+    pub fn stack_size(self, size: usize) -> Self {
+        Self(self.0.stack_size(size))
+    }
+
+    /// # Errors
+    ///
+    /// If it can't be started.
+    pub fn spawn_scoped<'scope, 'env, F, T>(
+        self,
+        scope: &'scope Scope<'scope, 'env>,
+        f: F,
+    ) -> io::Result<ScopedJoinHandle<'scope, T>>
+    where
+        F: FnOnce() -> T + Send + 'scope,
+        T: Send + 'scope,
+    {
+        let id = sched::new_thread();
+        if let Some(id) = id {
+            STARTED.with_borrow_mut(|t| {
+                if let Some(t) = t.last_mut() {
+                    t.push(id);
+                }
+            });
+        }
+        self.0
+            .spawn_scoped(&scope.0, move || sched::as_thread(id, f))
+            .map(|h| ScopedJoinHandle(h, id))
+    }
+}
-- 
2.43.0


From 7948554d705d8d7e3f7eee52364c66758601d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:23 +0000
Subject: [PATCH 51/59] fix: a backup could overwrite a file created at the
 same moment, or one that can't be looked at

---
 src/target/file_backer_upper.rs | 38 +++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/target/file_backer_upper.rs b/src/target/file_backer_upper.rs
index f9a401f..57811ae 100644
--- a/src/target/file_backer_upper.rs
+++ b/src/target/file_backer_upper.rs
@@ -1,8 +1,8 @@
 use crate::{Compiler, Result};
 use chrono::prelude::Local;
 use log::info;
-use std::fs;
 use std::path;
+use std::{fs, io};
 
 const BACKUP_FORMATS: &[&str] = &[
     // filename.csv -> filename-2023-04-25.csv
@@ -15,6 +15,26 @@ const BACKUP_FORMATS: &[&str] = &[
     "%Y_%m_%d-%I_%M_%S_%f%p",
 ];
 
+/// Unlike `fs::copy` it never overwrites anything, even if somebody else creates `to` right now
+fn copy_to_new_file(from: &path::Path, to: &path::Path) -> io::Result<()> {
+    let mut reader = fs::File::open(from)?;
+    let metadata = reader.metadata()?;
+    if !metadata.is_file() {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "it's not a regular file",
+        ));
+    }
+
+    let mut writer = fs::OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(to)?;
+    writer.set_permissions(metadata.permissions())?;
+    io::copy(&mut reader, &mut writer)?;
+    Ok(())
+}
+
 /// Makes a copy of a file like foo.xlsx to foo-2023-04-25.xlsx
 ///
 // NOTE:
@@ -54,14 +74,14 @@ pub(crate) fn backup_file<P: AsRef<path::Path>>(
         new_filename.push(file_extension);
         new_file.push(new_filename);
 
-        if new_file.exists() {
-            continue;
-        }
-
-        if let Err(e) = fs::copy(filename, &new_file) {
-            return Err(
-                compiler.output_error(format!("Error making backup of {filename_str}: {e}",))
-            );
+        match copy_to_new_file(filename, &new_file) {
+            Ok(()) => (),
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => continue,
+            Err(e) => {
+                return Err(
+                    compiler.output_error(format!("Error making backup of {filename_str}: {e}",))
+                );
+            }
         }
 
         return Ok(new_file);
-- 
2.43.0


From 0978376c63f89885782dcd882f7f971c0337c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:23 +0000
Subject: [PATCH 52/59] fix: writing Excel overwrote any file called like the
 output with the extension xlsxtmp, and a full disk went unnoticed

---
 src/target/excel/compilation_target.rs | 41 +++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/compilation_target.rs b/src/target/excel/compilation_target.rs
index ad49796..f2bdfa3 100644
--- a/src/target/excel/compilation_target.rs
+++ b/src/target/excel/compilation_target.rs
@@ -1,8 +1,47 @@
 use super::super::{file_backer_upper, CompilationTarget};
 use super::Excel;
 use crate::{Module, Result};
+use std::io::Write;
+use std::path::PathBuf;
+use std::{fs, io};
 use umya_spreadsheet as u;
 
+impl Excel<'_> {
+    /// Create a temporary file next to the target.  It never is one that already exists.
+    fn create_temp_file(&self) -> io::Result<(fs::File, PathBuf)> {
+        let mut n = 0;
+        loop {
+            let path = self.path.with_extension(format!("xlsxtmp{n}"));
+            match fs::OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(&path)
+            {
+                Ok(file) => return Ok((file, path)),
+                Err(e) if e.kind() == io::ErrorKind::AlreadyExists => n += 1,
+                Err(e) => return Err(e),
+            }
+        }
+    }
+
+    /// The target gets replaced once everything has been written - `u::writer::xlsx::write` would
+    /// overwrite any file called foo.xlsxtmp and it ignores errors of writing the last few KB.
+    fn save(&self, spreadsheet: &u::Spreadsheet) -> std::result::Result<(), u::XlsxError> {
+        let mut contents = vec![];
+        u::writer::xlsx::write_writer(spreadsheet, &mut contents)?;
+
+        let (mut file, temp_path) = self.create_temp_file()?;
+        let saved = file
+            .write_all(&contents)
+            .and_then(|()| fs::rename(&temp_path, &self.path));
+        if saved.is_err() {
+            let _ = fs::remove_file(&temp_path);
+        }
+
+        Ok(saved?)
+    }
+}
+
 impl CompilationTarget for Excel<'_> {
     fn write_backup(&self) -> Result<()> {
         file_backer_upper::backup_file(self.compiler, &self.path)?;
@@ -20,7 +59,7 @@ impl CompilationTarget for Excel<'_> {
 
         self.build_worksheet(module, worksheet);
 
-        u::writer::xlsx::write(&spreadsheet, self.path.clone()).map_err(|e| {
+        self.save(&spreadsheet).map_err(|e| {
             self.compiler.output_error(format!(
                 "Unable to write target file {}: {e}",
                 self.path.display()
-- 
2.43.0


From 5e5feeb9dd7189f818b97c2e11ace8287970fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:23 +0000
Subject: [PATCH 53/59] fix: an Excel workbook whose existence can't be
 determined was replaced by a new one

---
 src/target/excel/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/target/excel/mod.rs b/src/target/excel/mod.rs
index 57015a5..56dc970 100644
--- a/src/target/excel/mod.rs
+++ b/src/target/excel/mod.rs
@@ -177,7 +177,12 @@ impl<'a> Excel<'a> {
     }
 
     fn open_spreadsheet(&self) -> Result<u::Spreadsheet> {
-        if self.path.exists() {
+        let exists = self.path.try_exists().map_err(|e| {
+            self.compiler
+                .output_error(format!("Unable to open target file: {e}"))
+        })?;
+
+        if exists {
             u::reader::xlsx::read(self.path.as_path()).map_err(|e| {
                 self.compiler
                     .output_error(format!("Unable to open target file: {e}"))
-- 
2.43.0


From 018ec99c266f7acc5e97a7e8ebfa4f8f7120606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:59 +0000
Subject: [PATCH 54/59] fix: in a file without a code section that has Windows
 line ends, blank lines at the start became rows and lines weren't continued

---
 src/source_code/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/source_code/mod.rs b/src/source_code/mod.rs
index 27febd8..f5ee3b1 100644
--- a/src/source_code/mod.rs
+++ b/src/source_code/mod.rs
@@ -64,7 +64,8 @@ impl SourceCode {
                 lines: csv_lines,
                 length_of_code_section: 0,
                 length_of_csv_section: csv_lines,
-                csv_section: str_input.clone(),
+                // (like the lines of a file with a code section)
+                csv_section: str_input.replace("\r\n", "\n"),
                 code_section: None,
                 original: str_input.clone(),
             }
-- 
2.43.0


From 85238ea77b1c9927d6f6980abbdc4419a2eed81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:13 +0000
Subject: [PATCH 55/59] fix: -vvv and -vvvv showed the refresh token, client
 secret and access tokens of Google accounts

---
 src/logger.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logger.rs b/src/logger.rs
index 6ea6812..04c2b33 100644
--- a/src/logger.rs
+++ b/src/logger.rs
@@ -24,6 +24,9 @@ pub(crate) fn init(verbosity: log::LevelFilter) {
 
         builder.filter_level(verbosity);
 
+        // at debug and below these show the secrets of the credentials and the tokens they get
+        builder.filter_module("yup_oauth2", verbosity.min(log::LevelFilter::Info));
+
         // turn off timestamps and log level if we're just showing errors
         if verbosity == log::LevelFilter::Error {
             builder.format_level(false).format_timestamp(None);
-- 
2.43.0


From e69ec5facda240d415c40d11d1534763e300a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:43 +0000
Subject: [PATCH 56/59] fix: ids of Google spreadsheets with hyphens or
 underscores were refused

---
 src/output/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/output/mod.rs b/src/output/mod.rs
index 7cc1515..5288854 100644
--- a/src/output/mod.rs
+++ b/src/output/mod.rs
@@ -62,11 +62,13 @@ impl Output {
     }
 
     fn from_google_sheet_id(sheet_id: String) -> Result<Self> {
-        if sheet_id.chars().all(char::is_alphanumeric) {
+        let is_allowed = |c: char| c.is_alphanumeric() || c == '-' || c == '_';
+        if sheet_id.chars().all(is_allowed) {
             Ok(Self::GoogleSheets(sheet_id))
         } else {
             Err(Error::InitError(
-                "The GOOGLE_SHEET_ID must be all letters and digits.".to_string(),
+                "The GOOGLE_SHEET_ID must be all letters, digits, hyphens and underscores."
+                    .to_string(),
             ))
         }
     }
-- 
2.43.0


From fed0f2b1ae979826b788b3e2155c81028cd7a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:45 +0000
Subject: [PATCH 57/59] fix: panicked writing Google Sheets when there are no
 certificates to trust

---
 src/target/google_sheets/mod.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/target/google_sheets/mod.rs b/src/target/google_sheets/mod.rs
index e1c8ead..cc99cac 100644
--- a/src/target/google_sheets/mod.rs
+++ b/src/target/google_sheets/mod.rs
@@ -134,18 +134,22 @@ impl<'a> GoogleSheets<'a> {
             .build()
     }
 
+    fn https_connector() -> Result<HyperConnector> {
+        Ok(hyper_rustls::HttpsConnectorBuilder::new()
+            .with_native_roots()
+            .map_err(|e| {
+                Error::GoogleSetupError(format!("Unable to load the system's certificates: {e}"))
+            })?
+            .https_or_http()
+            .enable_http1()
+            .build())
+    }
+
     async fn drive_hub(&self) -> Result<DriveHub> {
         // TODO remove duplication
         let client =
             hyper_util::client::legacy::Client::builder(hyper_util::rt::TokioExecutor::new())
-                .build(
-                    hyper_rustls::HttpsConnectorBuilder::new()
-                        .with_native_roots()
-                        .unwrap() // TODO get rid of unwrap
-                        .https_or_http()
-                        .enable_http1()
-                        .build(),
-                );
+                .build(Self::https_connector()?);
         Ok(google_drive3::DriveHub::new(
             client,
             self.credentials.auth().await?,
@@ -155,14 +159,7 @@ impl<'a> GoogleSheets<'a> {
     async fn sheets_hub(&self) -> Result<SheetsHub> {
         let client =
             hyper_util::client::legacy::Client::builder(hyper_util::rt::TokioExecutor::new())
-                .build(
-                    hyper_rustls::HttpsConnectorBuilder::new()
-                        .with_native_roots()
-                        .unwrap() // TODO get rid of unwrap
-                        .https_or_http()
-                        .enable_http1()
-                        .build(),
-                );
+                .build(Self::https_connector()?);
         Ok(google_sheets4::Sheets::new(
             client,
             self.credentials.auth().await?,
-- 
2.43.0


From 3c5be7fd5422487f990bee36461e58877a418fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:40 +0000
Subject: [PATCH 58/59] fix: panicked for in_range() of a column with no
 letters or too many

Also sheet names that aren't ASCII, which are fine, were refused
---
 src/parser/cell_parser/validate.rs | 68 +++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 7 deletions(-)

diff --git a/src/parser/cell_parser/validate.rs b/src/parser/cell_parser/validate.rs
index 02ba8a6..4f3d311 100644
--- a/src/parser/cell_parser/validate.rs
+++ b/src/parser/cell_parser/validate.rs
@@ -3,6 +3,7 @@ use crate::ast::Ast;
 use crate::cell_options::DataValidation;
 use crate::error::{BadInput, CellParseError, ParseResult};
 use crate::DateTime;
+use std::str::FromStr;
 
 macro_rules! take_parens {
     ($self:ident, $tt:tt) => {{
@@ -27,6 +28,63 @@ macro_rules! validate {
     };
 }
 
+/// The most letters of a column that fit into an index (the limits of spreadsheets are way below)
+const MAX_COLUMN_LETTERS: usize = 13;
+
+/// Split the name of the sheet (which might be in quotes) off of an A1 reference
+fn split_sheet_name(a1: &str) -> Option<(Option<String>, &str)> {
+    let Some(quoted) = a1.strip_prefix('\'') else {
+        return Some(match a1.split_once('!') {
+            Some((sheet_name, reference)) => (Some(sheet_name.to_string()), reference),
+            None => (None, a1),
+        });
+    };
+
+    let mut sheet_name = String::new();
+    let mut chars = quoted.chars();
+    loop {
+        match chars.next()? {
+            '\'' => match chars.next()? {
+                // two quotes in a row are a quote in the name
+                '\'' => sheet_name.push('\''),
+                '!' => return Some((Some(sheet_name), chars.as_str())),
+                _ => return None,
+            },
+            c => sheet_name.push(c),
+        }
+    }
+}
+
+/// Does each column have letters, and not too many of them?  (rows don't have any, so without them
+/// it has to be a range of rows)
+fn has_valid_columns(reference: &str) -> bool {
+    let is_row = |r: &str| r.chars().all(|c| c == '$' || c.is_ascii_digit());
+    let is_row_range = reference
+        .split_once(':')
+        .is_some_and(|(from, to)| is_row(from) && is_row(to));
+
+    is_row_range
+        || reference.split(':').all(|cell| {
+            let column = cell.strip_prefix('$').unwrap_or(cell);
+            let letters = column.chars().take_while(char::is_ascii_alphabetic).count();
+            (1..=MAX_COLUMN_LETTERS).contains(&letters)
+        })
+}
+
+/// Parse an A1 reference, which might be to another sheet.  `a1` panics for characters that aren't
+/// ASCII and for columns that don't have letters (or too many) so those are ruled out before.
+fn parse_a1(a1: &str) -> Option<a1::A1> {
+    let (sheet_name, reference) = split_sheet_name(a1)?;
+    if !reference.is_ascii() || !has_valid_columns(reference) {
+        return None;
+    }
+
+    Some(a1::A1 {
+        sheet_name,
+        reference: a1::RangeOrCell::from_str(reference).ok()?,
+    })
+}
+
 impl CellParser<'_, '_> {
     pub(super) fn validate(&mut self) -> ParseResult<()> {
         let name = self.lexer.take_option_right_side()?;
@@ -260,15 +318,11 @@ impl CellParser<'_, '_> {
     validate!(self, validate_value_in_range, {
         take_parens!(self, {
             let a1_match = self.lexer.take_token(Token::A1)?;
-            if !a1_match.str_match.is_ascii() {
+            let Some(range) = parse_a1(&a1_match.str_match) else {
                 return Err(a1_match.into_parse_error("Expected an A1 reference"));
-            }
+            };
 
-            DataValidation::ValueInRange(
-                a1::new(&a1_match.str_match).map_err(|e| {
-                    a1_match.into_parse_error(format!("Expected an A1 reference: {e}"))
-                })?,
-            )
+            DataValidation::ValueInRange(range)
         })
     });
 
-- 
2.43.0


From 797b5bdb65e7d22a13019aae9927bd52fc119b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:40 +0000
Subject: [PATCH 59/59] fix: the sheet name in in_range() wasn't quoted where
 it has to be

---
 src/cell_options/data_validation.rs            | 10 ++++++++++
 src/cell_options/mod.rs                        |  2 +-
 src/target/excel/cell_validation.rs            |  5 +++--
 src/target/google_sheets/google_sheets_cell.rs |  9 ++++++---
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/cell_options/data_validation.rs b/src/cell_options/data_validation.rs
index f39c385..9556829 100644
--- a/src/cell_options/data_validation.rs
+++ b/src/cell_options/data_validation.rs
@@ -34,3 +34,13 @@ pub enum DataValidation {
     ValueInList(Vec<Ast>),
     ValueInRange(a1::A1),
 }
+
+/// How a range is written in a formula: `a1` doesn't quote all of the sheet names that have to be.
+pub(crate) fn range_in_formula(range: &a1::A1) -> String {
+    match &range.sheet_name {
+        Some(sheet_name) if !sheet_name.chars().all(char::is_alphabetic) => {
+            format!("'{}'!{}", sheet_name.replace('\'', "''"), range.reference)
+        }
+        _ => range.to_string(),
+    }
+}
diff --git a/src/cell_options/mod.rs b/src/cell_options/mod.rs
index 7bb882f..0ce7a1d 100644
--- a/src/cell_options/mod.rs
+++ b/src/cell_options/mod.rs
@@ -10,7 +10,7 @@ mod vertical_align;
 
 pub(crate) use border_side::BorderSide;
 pub(crate) use border_style::BorderStyle;
-pub(crate) use data_validation::DataValidation;
+pub(crate) use data_validation::{range_in_formula, DataValidation};
 pub(crate) use fill::{Fill, ROW_MAX};
 pub(crate) use horizontal_align::HorizontalAlign;
 pub(crate) use number_format::NumberFormat;
diff --git a/src/target/excel/cell_validation.rs b/src/target/excel/cell_validation.rs
index e2a79ee..d61b25e 100644
--- a/src/target/excel/cell_validation.rs
+++ b/src/target/excel/cell_validation.rs
@@ -1,5 +1,5 @@
 use crate::ast::Node;
-use crate::cell_options::DataValidation;
+use crate::cell_options::{range_in_formula, DataValidation};
 use crate::DateTime;
 use umya_spreadsheet as u;
 
@@ -236,7 +236,8 @@ impl From<CellValidation> for u::DataValidation {
             }
 
             DataValidation::ValueInRange(a1) => {
-                validation!(v, List, Equal, a1, format!("Value in range {a1}"))
+                let range = range_in_formula(&a1);
+                validation!(v, List, Equal, range, format!("Value in range {range}"))
             }
         };
 
diff --git a/src/target/google_sheets/google_sheets_cell.rs b/src/target/google_sheets/google_sheets_cell.rs
index 2154a8a..bf1596c 100644
--- a/src/target/google_sheets/google_sheets_cell.rs
+++ b/src/target/google_sheets/google_sheets_cell.rs
@@ -7,8 +7,8 @@
 //!
 use crate::ast::Node;
 use crate::cell_options::{
-    BorderSide, BorderStyle, DataValidation, HorizontalAlign, NumberFormat, TextFormat, TextWrap,
-    VerticalAlign,
+    range_in_formula, BorderSide, BorderStyle, DataValidation, HorizontalAlign, NumberFormat,
+    TextFormat, TextWrap, VerticalAlign,
 };
 use crate::{Cell, Rgb};
 use google_sheets4::api;
@@ -139,7 +139,10 @@ impl<'a> GoogleSheetsCell<'a> {
                             .collect(),
                     ),
                 },
-                DataValidation::ValueInRange(a1) => validate_str!("ONE_OF_RANGE", a1),
+                DataValidation::ValueInRange(a1) => {
+                    let range = range_in_formula(a1);
+                    validate_str!("ONE_OF_RANGE", range)
+                }
             }),
             // TODO: show a helpful message?
             input_message: None,
-- 
2.43.0

