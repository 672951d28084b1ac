From d1d9029fd76952544820e492ed1d55d95cf671c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 001/118] fix: don't drop or split content after nested
 includes that end with an include directive

---
 parser/src/lexer/root_lexer.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index d06640b..e6ccf55 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -196,14 +196,24 @@ impl<'arena> RootLexer<'arena> {
     if let Some(c) = self.sources[self.idx as usize].peek() {
       return Some(c);
     }
-    // case: we're out of bytes, check if we're returning to a previous source
-    if let Some(next_idx) = self.source_stack.last() {
-      return self.sources[*next_idx as usize].peek();
+    // case: we're out of bytes, check if we're returning to a previous source, skipping
+    // over any which are themselves exhausted (they ended with an include directive)
+    if let Some(next_idx) = self.next_unexhausted_source() {
+      return self.sources[next_idx as usize].peek();
     }
     // case: nothing left in any source, document EOF
     None
   }
 
+  fn next_unexhausted_source(&self) -> Option<u16> {
+    self
+      .source_stack
+      .iter()
+      .rev()
+      .copied()
+      .find(|idx| !self.sources[*idx as usize].is_eof())
+  }
+
   pub fn skip_byte(&mut self) {
     if let Some((tmp_lexer, _)) = &mut self.tmp_buf {
       tmp_lexer.pos += 1;
@@ -250,10 +260,9 @@ impl<'arena> RootLexer<'arena> {
 
   pub fn at_delimiter_line(&self) -> Option<(u32, u8)> {
     let cur_source = &self.sources[self.idx as usize];
-    if cur_source.is_eof() && !self.source_stack.is_empty() {
-      self.sources[*self.source_stack.last().unwrap() as usize].at_delimiter_line()
-    } else {
-      cur_source.at_delimiter_line()
+    match self.next_unexhausted_source() {
+      Some(idx) if cur_source.is_eof() => self.sources[idx as usize].at_delimiter_line(),
+      _ => cur_source.at_delimiter_line(),
     }
   }
 
-- 
2.43.0


From eb3ce7f0db82f194c5260ba88f7a4052a8b9faff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 002/118] fix: trim trailing whitespace of an unterminated last
 line of included asciidoc files

---
 parser/src/tasks/directives/includes/normalize_includes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 18e0ece..d6804e5 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -47,6 +47,8 @@ impl<'arena> Parser<'arena> {
         dest.push(*b);
       }
     }
+    // the last line might not be terminated by a newline
+    trim_trailing_whitespace(&mut dest);
     std::mem::swap(bytes, &mut dest);
   }
 
-- 
2.43.0


From aaec9c99eee408bf0c9120bedbfcca5cbe8015bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 003/118] fix: keep empty lines next to unselected include
 lines, don't recurse per dropped line

---
 parser/src/parser.rs                 | 92 ++++++++++++++--------------
 parser/src/tasks/directives/ifdef.rs | 13 ++--
 2 files changed, 50 insertions(+), 55 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index a12b0c5..99a6519 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -102,54 +102,56 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_line(&mut self) -> Result<Option<Line<'arena>>> {
-    Ok(self._read_line(false)?.map(|(line, _)| line))
+    self._read_line(false)
   }
 
-  fn _read_line(&mut self, ignored_last: bool) -> Result<Option<(Line<'arena>, bool)>> {
+  /// NB: with `stop_before_empty`, an empty line found where lines had to be dropped
+  /// (i.e. following a processed directive) is left unconsumed, and `None` is returned
+  fn _read_line(&mut self, stop_before_empty: bool) -> Result<Option<Line<'arena>>> {
     assert!(self.peeked_lines.is_none());
-    if self.lexer.is_eof() {
-      return Ok(None);
-    }
-
     use TokenKind::*;
-    let mut drop_line = false;
-    let mut line = Line::empty(self.bump);
-    while !self.lexer.at_newline() && !self.lexer.is_eof() {
-      let mut token = self.lexer.next_token();
-      if line.is_empty() {
-        // if we encounter a line like `|===` in the very first paragraph,
-        // we know we're not in the header anymore, so any attrs refs can be set properly
-        if self.ctx.in_header
-          && !matches!(
-            token.kind,
-            Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
-          )
-        {
-          self.ctx.in_header = false;
-        } else if token.kind == Colon && self.ctx.subs.attr_refs() {
-          self.try_parse_attr_def(&mut token)?;
+    let mut first_line = true;
+    loop {
+      if self.lexer.is_eof() || (stop_before_empty && !first_line && self.lexer.at_newline()) {
+        return Ok(None);
+      }
+      first_line = false;
+
+      let mut drop_line = false;
+      let mut line = Line::empty(self.bump);
+      while !self.lexer.at_newline() && !self.lexer.is_eof() {
+        let mut token = self.lexer.next_token();
+        if line.is_empty() {
+          // if we encounter a line like `|===` in the very first paragraph,
+          // we know we're not in the header anymore, so any attrs refs can be set properly
+          if self.ctx.in_header
+            && !matches!(
+              token.kind,
+              Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
+            )
+          {
+            self.ctx.in_header = false;
+          } else if token.kind == Colon && self.ctx.subs.attr_refs() {
+            self.try_parse_attr_def(&mut token)?;
+          }
         }
+        self.push_token_replacing_attr_ref(token, &mut line, &mut drop_line)?;
       }
-      self.push_token_replacing_attr_ref(token, &mut line, &mut drop_line)?;
-    }
-    self.lexer.skip_newline();
-    if drop_line {
-      return self._read_line(false);
-    }
-    if line.starts(TokenKind::Directive) && !self.ctx.within_block_comment() {
-      match self.try_process_directive(&mut line)? {
-        DirectiveAction::Passthrough => Ok(Some((line, ignored_last))),
-        DirectiveAction::SubstituteLine(line) => Ok(Some((line, ignored_last))),
-        DirectiveAction::IgnoreNotIncluded => self._read_line(true),
-        DirectiveAction::ReadNextLine => self._read_line(false),
-        DirectiveAction::SkipLinesUntilEndIf => Ok(
-          self
-            .skip_lines_until_endif(&line)?
-            .map(|l| (l, ignored_last)),
-        ),
+      self.lexer.skip_newline();
+      if drop_line {
+        continue;
+      }
+      if line.starts(TokenKind::Directive) && !self.ctx.within_block_comment() {
+        match self.try_process_directive(&mut line)? {
+          DirectiveAction::Passthrough => return Ok(Some(line)),
+          DirectiveAction::SubstituteLine(line) => return Ok(Some(line)),
+          DirectiveAction::IgnoreNotIncluded => continue,
+          DirectiveAction::ReadNextLine => continue,
+          DirectiveAction::SkipLinesUntilEndIf => self.skip_lines_until_endif(&line)?,
+        }
+      } else {
+        return Ok(Some(line));
       }
-    } else {
-      Ok(Some((line, ignored_last)))
     }
   }
 
@@ -163,18 +165,16 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
     let mut lines = Deq::new(self.bump);
-    while let Some((line, ignored_removed_include_line)) = self._read_line(false)? {
+    while let Some(line) = self._read_line(!lines.is_empty())? {
       if line.is_emptyish() {
         if lines.is_empty() {
           // this case can happen if our first non-empty line was an include directive
           // that then resolved to an initial empty line, otherwise consume_empty_lines
           // would have skipped over it, so we keep going
           continue;
-        } else if !ignored_removed_include_line {
-          // this case can happen if our first non-empty line was an include directive
-          // this case happens only when we DROP a line
-          break;
         }
+        // this case happens only when we DROP a line
+        break;
       }
       if line.is_delimiter_kind(DelimiterKind::Comment) {
         self.ctx.comment_delim_in_lines = true;
diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index bebc212..ca47419 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -12,8 +12,7 @@ impl<'arena> Parser<'arena> {
     };
 
     let attrs = captures.get(1).unwrap().as_str();
-    let embedded_line = captures.get(2).unwrap();
-    self.ctx.ifdef_stack.push(self.string(attrs));
+    let embedded_line = captures.get(2).unwrap();    self.ctx.ifdef_stack.push(self.string(attrs));
 
     match (self.evaluate_ifdef(defined, attrs), embedded_line.as_str()) {
       (false, "") => Ok(DirectiveAction::SkipLinesUntilEndIf),
@@ -53,10 +52,7 @@ impl<'arena> Parser<'arena> {
     result
   }
 
-  pub(crate) fn skip_lines_until_endif(
-    &mut self,
-    start_line: &Line<'arena>,
-  ) -> Result<Option<Line<'arena>>> {
+  pub(crate) fn skip_lines_until_endif(&mut self, start_line: &Line<'arena>) -> Result<()> {
     let mut depth = 1;
     loop {
       let token = self.lexer.next_token();
@@ -72,7 +68,7 @@ impl<'arena> Parser<'arena> {
             if self.lexer.at_newline() {
               self.lexer.skip_newline();
             }
-            break self.read_line();
+            return Ok(());
           }
         }
       } else if token.kind(TokenKind::Directive)
@@ -82,8 +78,7 @@ impl<'arena> Parser<'arena> {
         depth += 1;
       } else if self.lexer.is_eof() {
         // TODO: should probably not be a skippable/non-strict error
-        self.err_line("This ifdef directive was never closed", start_line)?;
-        break Ok(None);
+        return self.err_line("This ifdef directive was never closed", start_line);
       }
     }
   }
-- 
2.43.0


From 1721c8ebb882b49596e6360d307013cf8fd95b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 004/118] fix: match endif directives with the conditional they
 close

---
 parser/src/tasks/directives/ifdef.rs | 30 ++++++++++++++++++++--------
 parser/src/tasks/directives/mod.rs   |  1 +
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index ca47419..bd2c86a 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -12,12 +12,14 @@ impl<'arena> Parser<'arena> {
     };
 
     let attrs = captures.get(1).unwrap().as_str();
-    let embedded_line = captures.get(2).unwrap();    self.ctx.ifdef_stack.push(self.string(attrs));
-
+    let embedded_line = captures.get(2).unwrap();
     match (self.evaluate_ifdef(defined, attrs), embedded_line.as_str()) {
       (false, "") => Ok(DirectiveAction::SkipLinesUntilEndIf),
       (false, _) => Ok(DirectiveAction::ReadNextLine),
-      (true, "") => Ok(DirectiveAction::ReadNextLine),
+      (true, "") => {
+        self.ctx.ifdef_stack.push(self.string(attrs));
+        Ok(DirectiveAction::ReadNextLine)
+      }
       (true, embedded) => {
         let mut src = BumpString::with_capacity_in(embedded.len() + 1, self.bump);
         src.push_str(embedded);
@@ -71,11 +73,15 @@ impl<'arena> Parser<'arena> {
             return Ok(());
           }
         }
-      } else if token.kind(TokenKind::Directive)
-        && (token.lexeme == "ifdef::" || token.lexeme == "ifndef::")
-      {
-        // TODO: we should probably check if the directive is valid
-        depth += 1;
+      } else if token.kind(TokenKind::Directive) {
+        let mut line = Line::empty(self.bump);
+        line.push(token);
+        while !self.lexer.at_newline() && !self.lexer.is_eof() {
+          line.push(self.lexer.next_token());
+        }
+        if opens_conditional_region(&line.reassemble_src()) {
+          depth += 1;
+        }
       } else if self.lexer.is_eof() {
         // TODO: should probably not be a skippable/non-strict error
         return self.err_line("This ifdef directive was never closed", start_line);
@@ -83,3 +89,11 @@ impl<'arena> Parser<'arena> {
     }
   }
 }
+
+/// single-line conditionals (`ifdef::foo[text]`) have no matching `endif`
+fn opens_conditional_region(src: &str) -> bool {
+  regx::DIRECTIVE_IFEVAL.is_match(src)
+    || regx::DIRECTIVE_IFDEF
+      .captures(src)
+      .is_some_and(|captures| captures[2].is_empty())
+}
diff --git a/parser/src/tasks/directives/mod.rs b/parser/src/tasks/directives/mod.rs
index 06e1540..5f7e5eb 100644
--- a/parser/src/tasks/directives/mod.rs
+++ b/parser/src/tasks/directives/mod.rs
@@ -39,6 +39,7 @@ impl<'arena> Parser<'arena> {
       )?;
       return Ok(DirectiveAction::Passthrough);
     }
+    self.ctx.ifdef_stack.pop();
     Ok(DirectiveAction::ReadNextLine)
   }
 }
-- 
2.43.0


From 65f704465790d76bba7a1f2bff58d583b277f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 005/118] fix: don't select a phantom empty line after the last
 line of an included file

---
 .../tasks/directives/includes/normalize_includes.rs    | 10 +++++++++-
 parser/src/tasks/directives/includes/tags.rs           |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index d6804e5..0bc7cb4 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -59,7 +59,7 @@ impl<'arena> Parser<'arena> {
     }
 
     let mut selected = BumpVec::with_capacity_in(bytes.len(), self.bump);
-    for (i, line) in bytes.split(|&b| b == b'\n').enumerate() {
+    for (i, line) in split_lines(bytes).enumerate() {
       if ranges.iter().any(|range| range.contains(&(i + 1))) {
         selected.extend(line);
         selected.push(b'\n');
@@ -136,6 +136,14 @@ impl<'arena> Parser<'arena> {
   }
 }
 
+/// NB: a trailing newline terminates the last line, it doesn't start an empty one
+pub(super) fn split_lines(bytes: &[u8]) -> impl Iterator<Item = &[u8]> {
+  bytes
+    .strip_suffix(b"\n")
+    .unwrap_or(bytes)
+    .split(|&b| b == b'\n')
+}
+
 fn trim_trailing_whitespace(bytes: &mut BumpVec<u8>) {
   let mut i = bytes.len();
   while i > 0 && (bytes[i - 1] == b' ' || bytes[i - 1] == b'\t') {
diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index 91f4ebe..27c1c12 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -3,6 +3,7 @@ use std::collections::HashSet;
 use lazy_static::lazy_static;
 use regex::bytes::Regex;
 
+use super::normalize_includes::split_lines;
 use crate::internal::*;
 
 #[derive(Debug, PartialEq, Eq)]
@@ -192,7 +193,7 @@ impl<'arena> Parser<'arena> {
   ) -> Result<()> {
     let mut dest = BumpVec::with_capacity_in(src.len(), self.bump);
     let mut tag_stack = TagStack::new();
-    let lines = src.split(|&c| c == b'\n');
+    let lines = split_lines(src);
     let strategy = selection.strategy();
     let mut expected_tags = selection.expected_tags();
     let mut pushed_non_empty_line = false;
-- 
2.43.0


From c8f8fc0730573c27ef105c1a9171b61689091b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 006/118] fix: process directives again after a comment block
 ends within the same lines

---
 parser/src/parse_context.rs | 11 ++++++-----
 parser/src/parser.rs        |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 00a511d..440fd52 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -222,11 +222,12 @@ impl<'arena> ParseContext<'arena> {
   }
 
   pub fn within_block_comment(&self) -> bool {
-    self.comment_delim_in_lines
-      || self
-        .delimiter
-        .as_ref()
-        .is_some_and(|d| d.kind == DelimiterKind::Comment)
+    let started_in_comment = self
+      .delimiter
+      .as_ref()
+      .is_some_and(|d| d.kind == DelimiterKind::Comment);
+    // NB: each delimiter line in the lines being read opens or closes the comment
+    started_in_comment != self.comment_delim_in_lines
   }
 }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 99a6519..bbe14c9 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -177,7 +177,7 @@ impl<'arena> Parser<'arena> {
         break;
       }
       if line.is_delimiter_kind(DelimiterKind::Comment) {
-        self.ctx.comment_delim_in_lines = true;
+        self.ctx.comment_delim_in_lines = !self.ctx.comment_delim_in_lines;
       }
       lines.push(line);
       if self.lexer.at_newline() {
-- 
2.43.0


From 5e8383b17cf8daa068f26b882238dc85e1524ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 007/118] fix: measure include depth by nesting, not by the
 number of files included so far

---
 parser/src/lexer/root_lexer.rs   | 22 +++++++++++-----------
 parser/src/lexer/source_lexer.rs | 10 ++++++++--
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index e6ccf55..ef80fc5 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -29,7 +29,7 @@ impl<'arena> RootLexer<'arena> {
       next_idx: None,
       source_stack: Vec::new(),
       plugin_macros: Rc::new(BumpVec::new_in(bump)),
-      sources: bvec![in bump; SourceLexer::new(src, file, 0, None, Rc::new(bvec![in bump]), bump)],
+      sources: bvec![in bump; SourceLexer::new(src, file, 0, 0, None, Rc::new(bvec![in bump]), bump)],
       tmp_buf: None,
     }
   }
@@ -93,10 +93,16 @@ impl<'arena> RootLexer<'arena> {
     if src_bytes.last() != Some(&b'\n') {
       src_bytes.push(b'\n');
     }
+    let parent = &self.sources[self.idx as usize];
+    let depth = parent.depth + 1;
+    let max_include_depth = max_include_depth
+      .map(|max| (max, depth))
+      .or(parent.max_include_depth);
     self.sources.push(SourceLexer::new(
       src_bytes,
       src_file,
       leveloffset,
+      depth,
       max_include_depth,
       Rc::clone(&self.plugin_macros),
       self.bump,
@@ -288,7 +294,7 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn reline_diagnostics(&self, offset: u32, diagnostics: &mut [Diagnostic]) {
-    let offset_loc = SourceLocation::new(offset, offset, self.include_depth());
+    let offset_loc = SourceLocation::new(offset, offset, self.idx);
     let before_offset = self.line_number(offset_loc) - 1;
     diagnostics
       .iter_mut()
@@ -335,18 +341,12 @@ impl<'arena> RootLexer<'arena> {
     self.sources[self.idx as usize].truncate();
   }
 
-  pub const fn include_depth(&self) -> u16 {
-    self.idx
+  pub fn include_depth(&self) -> u16 {
+    self.sources[self.idx as usize].depth
   }
 
   pub fn max_include_depth(&self) -> Option<(u16, u16)> {
-    self
-      .sources
-      .iter()
-      .enumerate()
-      .fold(None, |current, (i, src)| {
-        src.max_include_depth.map(|d| (d, i as u16)).or(current)
-      })
+    self.sources[self.idx as usize].max_include_depth
   }
 
   pub fn register_plugin_macros(&mut self, names: &[impl AsRef<str>]) {
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 1ebeed0..d0981da 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -12,7 +12,10 @@ pub struct SourceLexer<'arena> {
   pub file: SourceFile,
   pub leveloffset: i8,
   pub plugin_macros: Rc<BumpVec<'arena, BumpString<'arena>>>,
-  pub max_include_depth: Option<u16>,
+  /// how many includes deep this source is nested
+  pub depth: u16,
+  /// nearest `depth` attr in effect: max relative depth, and the depth it was set at
+  pub max_include_depth: Option<(u16, u16)>,
 }
 
 impl<'arena> SourceLexer<'arena> {
@@ -20,7 +23,8 @@ impl<'arena> SourceLexer<'arena> {
     src: BumpVec<'arena, u8>,
     file: SourceFile,
     leveloffset: i8,
-    max_include_depth: Option<u16>,
+    depth: u16,
+    max_include_depth: Option<(u16, u16)>,
     plugin_macros: Rc<BumpVec<'arena, BumpString<'arena>>>,
     bump: &'arena Bump,
   ) -> Self {
@@ -31,6 +35,7 @@ impl<'arena> SourceLexer<'arena> {
       offset: 0,
       leveloffset,
       file,
+      depth,
       max_include_depth,
       plugin_macros,
     }
@@ -48,6 +53,7 @@ impl<'arena> SourceLexer<'arena> {
       offset: 0,
       leveloffset: 0,
       file,
+      depth: 0,
       max_include_depth: None,
       plugin_macros: Rc::new(bvec![in bump]),
     }
-- 
2.43.0


From d776135b740f7e609b4503a72cf52bd8d46a81a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 008/118] fix: nest AsciiDoc table cells in their source:
 include depth limits and relative targets

---
 parser/src/lexer/root_lexer.rs        | 15 +++++++++++----
 parser/src/parse_context.rs           |  2 +-
 parser/src/parser.rs                  | 11 +++++++++--
 parser/src/tasks/table/parse_table.rs |  9 ++++++---
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index ef80fc5..cd0b0b7 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -111,6 +111,13 @@ impl<'arena> RootLexer<'arena> {
     self.next_idx = Some(next_idx);
   }
 
+  /// treat our root source as a part of `source_idx` of another lexer (i.e. an AsciiDoc cell)
+  pub fn nest_within(&mut self, outer: &RootLexer<'arena>, source_idx: u16) {
+    let outer = &outer.sources[source_idx as usize];
+    self.sources[0].depth = outer.depth;
+    self.sources[0].max_include_depth = outer.max_include_depth;
+  }
+
   pub fn set_tmp_buf(&mut self, buf: &str, loc: BufLoc) {
     self.tmp_buf = Some((SourceLexer::from_str(buf, SourceFile::Tmp, self.bump), loc));
   }
@@ -142,8 +149,8 @@ impl<'arena> RootLexer<'arena> {
     SourceString::new(src, loc)
   }
 
-  pub const fn source_is_primary(&self) -> bool {
-    self.idx == 0
+  pub fn source_is_primary(&self) -> bool {
+    self.sources[self.idx as usize].depth == 0
   }
 
   pub const fn source_idx(&self) -> u16 {
@@ -293,8 +300,8 @@ impl<'arena> RootLexer<'arena> {
     self.sources[loc.include_depth as usize].line_number_with_offset(loc.start)
   }
 
-  pub fn reline_diagnostics(&self, offset: u32, diagnostics: &mut [Diagnostic]) {
-    let offset_loc = SourceLocation::new(offset, offset, self.idx);
+  pub fn reline_diagnostics(&self, source_idx: u16, offset: u32, diagnostics: &mut [Diagnostic]) {
+    let offset_loc = SourceLocation::new(offset, offset, source_idx);
     let before_offset = self.line_number(offset_loc) - 1;
     diagnostics
       .iter_mut()
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 440fd52..62ce1e6 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -119,7 +119,7 @@ impl<'arena> ParseContext<'arena> {
       table_cell_ctx: TableCellContext::AsciiDocCell,
       passthrus: BumpVec::new_in(bump),
       inline_ctx: InlineCtx::None,
-      max_include_depth: 64,
+      max_include_depth: self.max_include_depth,
       comment_delim_in_lines: false,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index bbe14c9..0a0d8b0 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -76,8 +76,15 @@ impl<'arena> Parser<'arena> {
     self.attr_ref_observer = Some(observer);
   }
 
-  pub fn cell_parser(&mut self, src: BumpVec<'arena, u8>, offset: u32) -> Parser<'arena> {
-    let mut cell_parser = Parser::new(src, self.lexer.source_file().clone(), self.bump);
+  pub fn cell_parser(
+    &mut self,
+    src: BumpVec<'arena, u8>,
+    source_idx: u16,
+    offset: u32,
+  ) -> Parser<'arena> {
+    let source_file = self.lexer.source_file_at(source_idx).clone();
+    let mut cell_parser = Parser::new(src, source_file, self.bump);
+    cell_parser.lexer.nest_within(&self.lexer, source_idx);
     cell_parser.include_resolver = self.include_resolver.as_ref().map(|r| r.clone_box());
     cell_parser.strict = self.strict;
     cell_parser.lexer.adjust_offset(offset);
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index cb044fe..fa19242 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -213,9 +213,12 @@ impl<'arena> Parser<'arena> {
           col_spec: col_spec.cloned(),
         });
       }
+      let source_idx = cell_tokens
+        .first_loc()
+        .map_or_else(|| self.lexer.source_idx(), |loc| loc.include_depth);
       cell_tokens.trim_for_cell(cell_style);
       cell_tokens.remove_resolved_attr_refs();
-      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), loc.start);
+      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), source_idx, loc.start);
       return match cell_parser.parse() {
         Ok(ParseResult {
           document,
@@ -227,7 +230,7 @@ impl<'arena> Parser<'arena> {
         }) => {
           self.ctx.attr_defs.extend(attr_defs);
           if !warnings.is_empty() {
-            self.lexer.reline_diagnostics(loc.start, &mut warnings);
+            self.lexer.reline_diagnostics(source_idx, loc.start, &mut warnings);
             self.errors.borrow_mut().extend(warnings);
           }
 
@@ -241,7 +244,7 @@ impl<'arena> Parser<'arena> {
           Ok(Some((cell, repeat)))
         }
         Err(mut diagnostics) => {
-          self.lexer.reline_diagnostics(loc.start, &mut diagnostics);
+          self.lexer.reline_diagnostics(source_idx, loc.start, &mut diagnostics);
           if !diagnostics.is_empty() && self.strict {
             Err(diagnostics.remove(0))
           } else {
-- 
2.43.0


From bae54b01391841c7ab85898aae85c47821378ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 009/118] fix: don't shift line numbers of diagnostics from
 files included in AsciiDoc cells

---
 parser/src/lexer/root_lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index cd0b0b7..a6d0765 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -303,8 +303,10 @@ impl<'arena> RootLexer<'arena> {
   pub fn reline_diagnostics(&self, source_idx: u16, offset: u32, diagnostics: &mut [Diagnostic]) {
     let offset_loc = SourceLocation::new(offset, offset, source_idx);
     let before_offset = self.line_number(offset_loc) - 1;
+    let file = self.source_file_at(source_idx);
     diagnostics
       .iter_mut()
+      .filter(|diag| diag.source_file == *file)
       .for_each(|diag| diag.line_num += before_offset);
   }
 
-- 
2.43.0


From 2f91aef9268fd2a845fb10972991c38385397161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 010/118] fix: accumulate relative leveloffsets of nested
 includes

---
 parser/src/tasks/directives/includes/process_includes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 3811176..afcaf77 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -89,7 +89,8 @@ impl<'arena> Parser<'arena> {
         }
         self.select_lines(&directive.attrs, &target_abspath, &mut buffer)?;
         self.set_include_indentation(&directive.attrs, &mut buffer);
-        let mut leveloffset = 0;
+        // inherited from the including source, relative offsets accumulate
+        let mut leveloffset = self.lexer.leveloffset(self.lexer.source_idx());
         if let Some(offset_attr) = directive
           .attrs
           .named("leveloffset")
-- 
2.43.0


From a2d65a76e1ed6dc65379e7b3a3c90553b5bcc59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 011/118] fix: leave include directives which fail in the
 document instead of dropping the line

---
 parser/src/tasks/directives/includes/process_includes.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index afcaf77..acc8016 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -19,6 +19,7 @@ impl<'arena> Parser<'arena> {
     &mut self,
     line: &mut Line<'arena>,
   ) -> Result<DirectiveAction<'arena>> {
+    let original_line = line.clone();
     let Some(directive) = self.valid_include_directive(line)? else {
       return Ok(DirectiveAction::Passthrough);
     };
@@ -48,7 +49,7 @@ impl<'arena> Parser<'arena> {
         format!("Maximum include depth of {max_depth} exceeded"),
         directive.first_token.loc,
       )?;
-      return Ok(DirectiveAction::Passthrough);
+      return Ok(DirectiveAction::SubstituteLine(original_line));
     }
 
     let Some(resolver) = self.include_resolver.as_mut() else {
@@ -56,7 +57,7 @@ impl<'arena> Parser<'arena> {
         "No resolver supplied for include directive",
         &directive.first_token,
       )?;
-      return Ok(DirectiveAction::Passthrough);
+      return Ok(DirectiveAction::SubstituteLine(original_line));
     };
 
     let target = match super::target::prepare(
@@ -132,7 +133,7 @@ impl<'arena> Parser<'arena> {
       }
       Err(error) => {
         self.target_err(format!("Include error: {error}"), &directive)?;
-        Ok(DirectiveAction::Passthrough)
+        Ok(DirectiveAction::SubstituteLine(original_line))
       }
     }
   }
-- 
2.43.0


From 1a8790dd90afc659bc3ff7ec75d35c4e32a10962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 012/118] fix: don't panic when a directive ends or closes an
 unfinished verbatim block

---
 parser/src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 0a0d8b0..322fb62 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -211,7 +211,16 @@ impl<'arena> Parser<'arena> {
 
     let mut additional_lines = BumpVec::new_in(self.bump);
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
-      additional_lines.push(self.read_line()?.unwrap());
+      // NB: reading a line can process directives, leaving us at the document's end
+      // or at the (included) delimiter
+      let Some(line) = self.read_line()? else {
+        break;
+      };
+      let closes_block = line.is_delimiter(delimiter);
+      additional_lines.push(line);
+      if closes_block {
+        break;
+      }
     }
     lines.extend(additional_lines);
 
-- 
2.43.0


From 97e0e316537c642a7d28548e93543a72f5ed2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 013/118] fix: report invalid UTF-8 following a byte order mark
 in included files

---
 parser/src/tasks/directives/includes/normalize_includes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 0bc7cb4..bf0eb3c 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -82,7 +82,7 @@ impl<'arena> Parser<'arena> {
     // UTF-8 BOM
     if bytes.len() >= 3 && bytes[0..3] == [0xEF, 0xBB, 0xBF] {
       bytes.drain(0..3);
-      return Ok(());
+      return self.validate_utf8(bytes);
     }
 
     // UTF-16 BOM, little endian
@@ -112,6 +112,10 @@ impl<'arena> Parser<'arena> {
 
     // TODO: doctor supports iso-8859-1, + all encodings ruby supports
     // we could use encoding_rs for this, but might not be any demand
+    self.validate_utf8(bytes)
+  }
+
+  fn validate_utf8(&self, bytes: &[u8]) -> std::result::Result<(), &'static str> {
     if std::str::from_utf8(bytes).is_err() {
       return Err("Invalid UTF-8");
     }
-- 
2.43.0


From b0f0bb3a5f75538bfd9c3790e1de86f4d246cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 014/118] fix: report truncated UTF-16 includes instead of
 making up half a code unit

---
 parser/src/tasks/directives/includes/normalize_includes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index bf0eb3c..4c6ddc6 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -95,7 +95,7 @@ impl<'arena> Parser<'arena> {
     if bytes.len() >= 2 && bytes[0..2] == [0xFE, 0xFF] {
       bytes.drain(0..2);
       if !bytes.len().is_multiple_of(2) {
-        bytes.push(0x00);
+        return Err("Invalid UTF-16 (BE)");
       }
 
       let utf16 = bytes
@@ -125,7 +125,7 @@ impl<'arena> Parser<'arena> {
 
   fn convert_utf16_le(&self, bytes: &mut BumpVec<u8>) -> std::result::Result<(), &'static str> {
     if !bytes.len().is_multiple_of(2) {
-      bytes.push(0x00);
+      return Err("Invalid UTF-16 (LE)");
     }
     let utf16: BumpVec<u16> = bytes
       .chunks_exact(2)
-- 
2.43.0


From 5bf720c2fc70ce2c2b8446e116569690119e60d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 015/118] fix: honour the byte order mark of UTF-16 includes
 which also specify their encoding

---
 parser/src/tasks/directives/includes/normalize_includes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 4c6ddc6..c0ef439 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -75,7 +75,10 @@ impl<'arena> Parser<'arena> {
     encoding: Option<&str>,
     bytes: &mut BumpVec<u8>,
   ) -> std::result::Result<(), &'static str> {
-    if let Some("utf-16" | "utf16" | "UTF-16" | "UTF16") = encoding {
+    let has_utf16_bom = bytes.starts_with(&[0xFF, 0xFE]) || bytes.starts_with(&[0xFE, 0xFF]);
+    if let Some("utf-16" | "utf16" | "UTF-16" | "UTF16") = encoding
+      && !has_utf16_bom
+    {
       return self.convert_utf16_le(bytes);
     }
 
-- 
2.43.0


From 7983fe27712a522f1c1edc5c9982cd464f1bcdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 016/118] fix: report invalid cross references in order of
 appearance

---
 parser/src/tasks/diagnose_document.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 5215ac7..e8afc25 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -11,7 +11,11 @@ impl Parser<'_> {
     if self.ctx.table_cell_ctx != TableCellContext::None {
       return Ok(());
     }
-    for (ref_target, ref_loc) in self.ctx.xrefs.borrow().iter() {
+    let xrefs = self.ctx.xrefs.borrow();
+    let mut xrefs = xrefs.iter().collect::<Vec<_>>();
+    // report in order of appearance, not in (random) hash order
+    xrefs.sort_unstable_by_key(|(_, loc)| (loc.include_depth, loc.start));
+    for (ref_target, ref_loc) in xrefs {
       let Some((idx, id)) = self.target_data(ref_target, ref_loc.include_depth) else {
         // couldn't find source idx
         self.invalid_xref(ref_target, *ref_loc)?;
-- 
2.43.0


From edf9ee9c4629031ad3999ff4711ef2aed900fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 017/118] fix: accept cross references to anchors in other
 included files

---
 parser/src/tasks/diagnose_document.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index e8afc25..39fb795 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -16,7 +16,7 @@ impl Parser<'_> {
     // report in order of appearance, not in (random) hash order
     xrefs.sort_unstable_by_key(|(_, loc)| (loc.include_depth, loc.start));
     for (ref_target, ref_loc) in xrefs {
-      let Some((idx, id)) = self.target_data(ref_target, ref_loc.include_depth) else {
+      let Some((idx, id)) = self.target_data(ref_target) else {
         // couldn't find source idx
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
@@ -29,7 +29,8 @@ impl Parser<'_> {
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
       };
-      if anchor.source_idx != idx {
+      // only an xref naming a file cares about which (included) file its anchor came from
+      if idx.is_some_and(|idx| anchor.source_idx != idx) {
         // NB: here we could give a more precise error saying that
         // the anchor was found, but was in a different file
         self.invalid_xref(ref_target, *ref_loc)?;
@@ -45,11 +46,11 @@ impl Parser<'_> {
     )
   }
 
-  fn target_data<'a>(&self, target: &'a str, loc_depth: u16) -> Option<(u16, &'a str)> {
+  fn target_data<'a>(&self, target: &'a str) -> Option<(Option<u16>, &'a str)> {
     if target == "#" {
-      Some((loc_depth, "__self__"))
+      Some((None, "__self__"))
     } else if target.starts_with('#') {
-      Some((loc_depth, target))
+      Some((None, target))
     } else if let Some(idx) = target.find('#') {
       let id = &target[idx + 1..];
       let prefix = &target[..idx];
@@ -57,16 +58,16 @@ impl Parser<'_> {
         self
           .lexer
           .source_idx_of_xref_target(prefix)
-          .map(|src_idx| (src_idx, id))
+          .map(|src_idx| (Some(src_idx), id))
       } else {
-        Some((loc_depth, id))
+        Some((None, id))
       }
     } else if file::has_adoc_ext(target)
       && self.lexer.source_file_at(0).file_name().ends_with(target)
     {
-      Some((0, "__self__"))
+      Some((None, "__self__"))
     } else {
-      Some((loc_depth, target))
+      Some((None, target))
     }
   }
 
-- 
2.43.0


From 695da5c823c4377ee90aa0cf1311b0e794758b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 018/118] fix: don't process directives following body
 attribute entries twice

---
 parser/src/line.rs   | 13 +++++++++++++
 parser/src/parser.rs |  8 +++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index a79e3e1..f7dfad7 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1014,6 +1014,19 @@ impl<'arena> Line<'arena> {
     self.starts(TokenKind::AttrDef)
   }
 
+  /// `true` if an attr entry on the following line takes effect, i.e. if this line
+  /// does not start or continue a paragraph, list or table
+  pub fn may_precede_attr_decl(&self) -> bool {
+    self.is_attr_decl()
+      || self.is_any_delimiter()
+      || self.is_heading()
+      || self.is_comment()
+      || self.is_chunk_title()
+      || self.is_block_attr_list()
+      || self.is_block_anchor()
+      || self.is_block_macro()
+  }
+
   pub fn is_directive_endif(&self) -> bool {
     self.directive_endif_target().is_some()
   }
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 322fb62..a935b3d 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -186,8 +186,14 @@ impl<'arena> Parser<'arena> {
       if line.is_delimiter_kind(DelimiterKind::Comment) {
         self.ctx.comment_delim_in_lines = !self.ctx.comment_delim_in_lines;
       }
+      // NB: the lines after a body attr entry must not be read (and directives therein
+      // processed) until the entry took effect, unless the entry is just paragraph text
+      let ends_with_attr_decl = line.is_attr_decl()
+        && !self.ctx.in_header
+        && !self.ctx.within_block_comment()
+        && lines.iter().all(Line::may_precede_attr_decl);
       lines.push(line);
-      if self.lexer.at_newline() {
+      if ends_with_attr_decl || self.lexer.at_newline() {
         break;
       }
     }
-- 
2.43.0


From 87c668b7d0ddaef37a386dd7d762b7dd199e684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:47 +0000
Subject: [PATCH 019/118] fix: recognize ifdef/ifndef of single letter
 attributes, don't panic when their content is dropped

---
 core/src/regx.rs                     | 2 +-
 parser/src/tasks/directives/ifdef.rs | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 551fdec..3d8a4d0 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -28,7 +28,7 @@ lazy_static! {
   pub static ref DIRECTIVE_INCLUDE: Regex =
     Regex::new(r#"^include::([^\[]+[^\[\s])\[.*\]$"#).unwrap();
   pub static ref DIRECTIVE_IFDEF: Regex =
-    Regex::new(r#"^ifn?def::([^\[]+[^\[\s])\[(.*)\]$"#).unwrap();
+    Regex::new(r#"^ifn?def::([^\[]*[^\[\s])\[(.*)\]$"#).unwrap();
   pub static ref DIRECTIVE_ENDIF: Regex = Regex::new(r#"^endif::(\S*)\[\]$"#).unwrap();
 }
 
diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index bd2c86a..ce9d248 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -26,8 +26,10 @@ impl<'arena> Parser<'arena> {
         src.push('\n');
         let offset = line.first_loc().unwrap().start + embedded_line.start() as u32;
         self.lexer.set_tmp_buf(&src, BufLoc::Offset(offset));
-        let line = self.read_line()?.unwrap();
-        Ok(DirectiveAction::SubstituteLine(line))
+        match self.read_line()? {
+          Some(line) => Ok(DirectiveAction::SubstituteLine(line)),
+          None => Ok(DirectiveAction::ReadNextLine),
+        }
       }
     }
   }
-- 
2.43.0


From c84150b6a0dc76ad7cfc259fbdb033fc929e3cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 020/118] fix: recognize endif directives at the end of a
 document without trailing newline

---
 parser/src/lexer/source_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index d0981da..2198bdc 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -339,7 +339,7 @@ impl<'arena> SourceLexer<'arena> {
             lexeme,
             b"include" | b"ifdef" | b"ifndef" | b"endif" | b"ifeval" | b"asciidorkinclude"
           )
-          && self.remaining_len() > 4 =>
+          && (self.remaining_len() > 4 || lexeme == b"endif" && self.remaining_len() == 4) =>
       {
         if !self.peek_n(2).unwrap().is_ascii_whitespace() {
           self.advance();
-- 
2.43.0


From 0e163d11052c237d77992a183fd0bbdb503731ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 021/118] fix: locate diagnostics about substituted lines at
 their directive

---
 parser/src/lexer/root_lexer.rs                           | 5 ++++-
 parser/src/tasks/directives/includes/process_includes.rs | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index a6d0765..8d5d6c6 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -316,7 +316,10 @@ impl<'arena> RootLexer<'arena> {
     {
       match buf_loc {
         BufLoc::Repeat(loc) => token.loc = *loc,
-        BufLoc::Offset(offset) => token.loc = token.loc.offset(*offset),
+        BufLoc::Offset(offset) => {
+          token.loc = token.loc.offset(*offset);
+          token.loc.include_depth = self.idx;
+        }
         BufLoc::From(src_loc) => {
           token.loc = SourceLocation::new(
             src_loc.start + token.loc.start,
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index acc8016..7044a6f 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -125,10 +125,10 @@ impl<'arena> Parser<'arena> {
         let mut msg = self.string("+++Unresolved directive in ");
         msg.push_str(self.lexer.source_file().file_name());
         msg.push_str(" - ");
-        let offset = directive.first_token.loc.start + msg.len() as u32;
         msg.push_str(directive.line_src.as_str());
         msg.push_str("+++\n");
-        self.lexer.set_tmp_buf(&msg, BufLoc::Offset(offset));
+        let loc = directive.first_token.loc;
+        self.lexer.set_tmp_buf(&msg, BufLoc::Repeat(loc));
         Ok(DirectiveAction::ReadNextLine)
       }
       Err(error) => {
-- 
2.43.0


From 08457de01eb24e66a9778cf52cde06e61ada0527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 022/118] fix: drop empty lines in front of an included closing
 delimiter of a verbatim block

---
 parser/src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index a935b3d..b1fe6b6 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -215,6 +215,7 @@ impl<'arena> Parser<'arena> {
       return Ok(Some(lines));
     }
 
+    let mut closing_line = None;
     let mut additional_lines = BumpVec::new_in(self.bump);
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
       // NB: reading a line can process directives, leaving us at the document's end
@@ -222,17 +223,20 @@ impl<'arena> Parser<'arena> {
       let Some(line) = self.read_line()? else {
         break;
       };
-      let closes_block = line.is_delimiter(delimiter);
-      additional_lines.push(line);
-      if closes_block {
+      if line.is_delimiter(delimiter) {
+        closing_line = Some(line);
         break;
       }
+      additional_lines.push(line);
     }
     lines.extend(additional_lines);
 
     while lines.last().map(|l| l.is_empty()) == Some(true) {
       lines.pop();
     }
+    if let Some(line) = closing_line {
+      lines.push(line);
+    }
     Ok(Some(lines))
   }
 
-- 
2.43.0


From 4c43f3801be44238f238f3b7504a7473683c44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 023/118] fix: don't mix up footnotes and images linking to
 themselves with the block title they are in

---
 backend-html5s/src/html5s.rs            | 13 +++++++------
 dr-html-backend/src/asciidoctor_html.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 971e04b..0ac793e 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -9,6 +9,7 @@ pub struct Html5s {
   doc_meta: DocumentMeta,
   html: String,
   alt_html: String,
+  footnote_outer_html: Vec<String>,
   fig_caption_num: usize,
   table_caption_num: usize,
   example_caption_num: usize,
@@ -1099,10 +1100,9 @@ impl Backend for Html5s {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        let outer_html = std::mem::take(&mut self.html);
         self.push_img_path(target);
-        a_tag.push_str(&self.swap_take_buffer());
+        a_tag.push_str(&std::mem::replace(&mut self.html, outer_html));
       } else {
         a_tag.push_str_attr_escaped(link_href);
       }
@@ -1423,17 +1423,18 @@ impl Backend for Html5s {
         r#"]</a>"#,
       ]);
     }
-    self.start_buffering();
+    // NB: a footnote can itself be within buffered content, like a block title
+    self.footnote_outer_html.push(std::mem::take(&mut self.html));
   }
 
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
+    let outer_html = self.footnote_outer_html.pop().unwrap_or_default();
+    let footnote = std::mem::replace(&mut self.html, outer_html);
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
     let nums = num.to_string();
     self.push_str(r#"<a class="footnote-ref" id="_footnoteref_"#);
     self.push([&nums, r##"" href="#_footnote_"##, &nums]);
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index ce28e99..b23a69e 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -14,6 +14,7 @@ use utils::set_backend_attrs;
 pub struct AsciidoctorHtml {
   html: String,
   alt_html: String,
+  footnote_outer_html: Vec<String>,
   doc_meta: DocumentMeta,
   default_newlines: Newlines,
   newlines: Newlines,
@@ -1184,10 +1185,9 @@ impl Backend for AsciidoctorHtml {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        let outer_html = std::mem::take(&mut self.html);
         self.push_img_path(target);
-        a_tag.push_str(&self.swap_take_buffer());
+        a_tag.push_str(&std::mem::replace(&mut self.html, outer_html));
       } else {
         a_tag.push_str_attr_escaped(link_href);
       }
@@ -1469,18 +1469,19 @@ impl Backend for AsciidoctorHtml {
         "</a>]</sup>",
       ]);
     }
-    self.start_buffering();
+    // NB: a footnote can itself be within buffered content, like a block title
+    self.footnote_outer_html.push(std::mem::take(&mut self.html));
   }
 
   #[instrument(skip_all)]
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
+    let outer_html = self.footnote_outer_html.pop().unwrap_or_default();
+    let footnote = std::mem::replace(&mut self.html, outer_html);
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
     if let Some(id) = id {
-- 
2.43.0


From 56e3cf5c4243265fce370b7fd1b5619a828ca764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 024/118] fix: don't leak titles of blocks which don't render
 one into later blocks

---
 backend-html5s/src/html5s.rs            | 15 +++++++++++----
 dr-html-backend/src/asciidoctor_html.rs | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 0ac793e..45bf5a4 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1456,10 +1456,17 @@ impl Backend for Html5s {
   }
 
   fn exit_meta_title(&mut self, block: &Block) {
-    if block.context != BlockContext::Passthrough {
-      self.stop_buffering();
-    } else {
-      self.swap_discard_alt_buffer();
+    match block.context {
+      // these don't render their title
+      BlockContext::CalloutList
+      | BlockContext::Comment
+      | BlockContext::DiscreteHeading
+      | BlockContext::DocumentAttributeDecl
+      | BlockContext::PageBreak
+      | BlockContext::Passthrough
+      | BlockContext::TableOfContents
+      | BlockContext::ThematicBreak => self.swap_discard_alt_buffer(),
+      _ => self.stop_buffering(),
     }
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index b23a69e..5b68faa 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -310,10 +310,17 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_meta_title(&mut self, block: &Block) {
-    if block.context != BlockContext::Passthrough {
-      self.stop_buffering();
-    } else {
-      self.swap_discard_alt_buffer();
+    match block.context {
+      // these don't render their title
+      BlockContext::CalloutList
+      | BlockContext::Comment
+      | BlockContext::DiscreteHeading
+      | BlockContext::DocumentAttributeDecl
+      | BlockContext::PageBreak
+      | BlockContext::Passthrough
+      | BlockContext::TableOfContents
+      | BlockContext::ThematicBreak => self.swap_discard_alt_buffer(),
+      _ => self.stop_buffering(),
     }
   }
 
-- 
2.43.0


From 8f7957b51e006c890545f4f9a39e60e3483747c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 025/118] fix: don't loop forever on tables without any cells

---
 parser/src/tasks/table/parse_psv_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 5228740..2c67be5 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -41,7 +41,7 @@ impl<'arena> Parser<'arena> {
     // check if we need to distrubute spilled cells from last row
     let remaining_room = ctx.num_cols.saturating_sub(num_effective_cells);
     ctx.spilled_cells = cells.split_off(remaining_room.min(cells.len()));
-    if cells.len() == remaining_room {
+    if cells.len() == remaining_room && ctx.num_cols > 0 {
       ctx.effective_row_idx += 1;
       return Ok(Some(Row::new(cells)));
     }
-- 
2.43.0


From 2e556b36c194374bdce557f0aef0ea1210173056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 026/118] fix: don't reprocess directives after attribute
 entries following an interrupted paragraph

---
 parser/src/parser.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index b1fe6b6..4703d10 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -191,7 +191,7 @@ impl<'arena> Parser<'arena> {
       let ends_with_attr_decl = line.is_attr_decl()
         && !self.ctx.in_header
         && !self.ctx.within_block_comment()
-        && lines.iter().all(Line::may_precede_attr_decl);
+        && self.attr_decl_takes_effect_after(&lines);
       lines.push(line);
       if ends_with_attr_decl || self.lexer.at_newline() {
         break;
@@ -204,6 +204,15 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  fn attr_decl_takes_effect_after(&self, lines: &Deq<'arena, Line<'arena>>) -> bool {
+    let not_nested = self.ctx.delimiter.is_none();
+    lines.iter().fold(true, |takes_effect, line| {
+      let ends_paragraph = line.is_any_delimiter()
+        || (not_nested && (line.is_block_attr_list() || line.is_block_anchor()));
+      ends_paragraph || (takes_effect && line.may_precede_attr_decl())
+    })
+  }
+
   pub(crate) fn read_lines_until(
     &mut self,
     delimiter: Delimiter,
-- 
2.43.0


From b03c441f6ea93ed8026b104f54877cd62a04ddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 027/118] fix: don't end verbatim blocks ahead of an include
 about to be read

---
 parser/src/lexer/root_lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 8d5d6c6..a7eea3e 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -272,6 +272,9 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn at_delimiter_line(&self) -> Option<(u32, u8)> {
+    if let Some(next_idx) = self.next_idx {
+      return self.sources[next_idx as usize].at_delimiter_line();
+    }
     let cur_source = &self.sources[self.idx as usize];
     match self.next_unexhausted_source() {
       Some(idx) if cur_source.is_eof() => self.sources[idx as usize].at_delimiter_line(),
-- 
2.43.0


From d3c0ae3358476b50ecc7c02fb7c5d504fa78fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 028/118] fix: report every selected tag left open in an
 included file

---
 parser/src/tasks/directives/includes/tags.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index 27c1c12..eb7ff67 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -242,11 +242,10 @@ impl<'arena> Parser<'arena> {
       }
     }
 
-    if let Some((tag, line_idx)) = tag_stack.last()
-      && selection.expected_tags().contains(tag)
-    {
+    let selected_tags = selection.expected_tags();
+    for (tag, line_idx) in tag_stack.0.iter().filter(|(t, _)| selected_tags.contains(t)) {
       let line = nth_line(src, *line_idx).unwrap().to_string();
-      let underline_start = line.find(tag).unwrap_or(0) as u32;
+      let underline_start = line.find(tag.as_str()).unwrap_or(0) as u32;
       self.err(Diagnostic {
         line_num: (*line_idx as u32) + 1,
         line,
-- 
2.43.0


From ab1a192369a976b24b5c4fe138d7b70ee6914cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 029/118] fix: don't leak markers of unselected lines, nor lose
 the indentation of the block to its empty lines, when re-indenting includes

---
 parser/src/tasks/directives/includes/process_includes.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 7044a6f..97a0798 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -247,7 +247,7 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
   let Some(min_indent) = trimmed
     .split(|&c| c == b'\n')
     .fold(Option::<usize>::None, |acc, line| {
-      if line == b"asciidorkinclude::[false]" {
+      if line.is_empty() || line == b"asciidorkinclude::[false]" {
         return acc;
       }
       let line_indent = line.iter().take_while(|&&c| c == b' ').count();
@@ -263,7 +263,10 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
     let mut dest = BumpVec::with_capacity_in(buf.len(), bump);
     buf.split(|&c| c == b'\n').for_each(|line| {
       let line_indent = line.iter().take_while(|&&c| c == b' ').count();
-      if line_indent >= min_indent {
+      if line.is_empty() || line == b"asciidorkinclude::[false]" {
+        dest.extend(line);
+        dest.push(b'\n');
+      } else if line_indent >= min_indent {
         dest.extend(std::iter::repeat_n(b' ', line_indent - min_indent + indent));
         dest.extend(line.iter().skip(line_indent));
         dest.push(b'\n');
-- 
2.43.0


From 42f995e39d65bb218f9273ab04e29ea034c56568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 030/118] fix: don't process refused directives a second time
 in AsciiDoc cells

---
 parser/src/line.rs                    | 15 +++++++++++++++
 parser/src/tasks/table/parse_table.rs |  1 +
 2 files changed, 16 insertions(+)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index f7dfad7..e1e0e58 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -965,6 +965,21 @@ impl<'arena> Line<'arena> {
     }
   }
 
+  // directives starting a line were already processed when reading the lines of the table,
+  // the ones still there are text (i.e. includes which failed), and not to be processed again
+  pub fn escape_processed_directives(&mut self) {
+    let bump = self.tokens.bump;
+    let mut prev_kind = None;
+    for token in self.iter_mut() {
+      if token.kind(Directive) && prev_kind == Some(Newline) {
+        let mut lexeme = BumpString::from_str_in("\\", bump);
+        lexeme.push_str(&token.lexeme);
+        token.lexeme = lexeme;
+      }
+      prev_kind = Some(token.kind);
+    }
+  }
+
   /// very fast, because underlying deq just bumps the pos
   pub fn remove_first_token(&mut self) {
     if !self.tokens.is_empty() {
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index fa19242..0c5b1de 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -218,6 +218,7 @@ impl<'arena> Parser<'arena> {
         .map_or_else(|| self.lexer.source_idx(), |loc| loc.include_depth);
       cell_tokens.trim_for_cell(cell_style);
       cell_tokens.remove_resolved_attr_refs();
+      cell_tokens.escape_processed_directives();
       let cell_parser = self.cell_parser(cell_tokens.into_bytes(), source_idx, loc.start);
       return match cell_parser.parse() {
         Ok(ParseResult {
-- 
2.43.0


From df7121a5677cc3c868cd7f7df7e453fc61c7f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 031/118] fix: included files without any content don't
 contribute an empty line, empty lines selected by tag do

---
 .../tasks/directives/includes/process_includes.rs  | 14 ++++++++------
 parser/src/tasks/directives/includes/tags.rs       | 10 +++-------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 97a0798..fcfac1d 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -103,12 +103,14 @@ impl<'arena> Parser<'arena> {
           .attrs
           .named("depth")
           .and_then(|s| s.parse::<u16>().ok());
-        self.lexer.push_source(
-          SourceFile::Path(target_abspath),
-          leveloffset,
-          include_depth,
-          buffer,
-        );
+        if !buffer.is_empty() {
+          self.lexer.push_source(
+            SourceFile::Path(target_abspath),
+            leveloffset,
+            include_depth,
+            buffer,
+          );
+        }
         self
           .document
           .meta
diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index eb7ff67..7e0392f 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -196,7 +196,7 @@ impl<'arena> Parser<'arena> {
     let lines = split_lines(src);
     let strategy = selection.strategy();
     let mut expected_tags = selection.expected_tags();
-    let mut pushed_non_empty_line = false;
+    let mut pushed_line = false;
     for (idx, line) in lines.enumerate() {
       match tag_directive(line) {
         Some(TagDirective::Start(tag)) => {
@@ -230,11 +230,7 @@ impl<'arena> Parser<'arena> {
             || (strategy == Strategy::Any
               && selection.specs().any(|spec| spec.satisfied_by(&tag_stack)))
           {
-            if !pushed_non_empty_line
-              && (!line.is_empty() || line.iter().any(|&b| !b.is_ascii_whitespace()))
-            {
-              pushed_non_empty_line = true;
-            }
+            pushed_line = true;
             dest.extend(line);
             dest.push(b'\n');
           }
@@ -269,7 +265,7 @@ impl<'arena> Parser<'arena> {
       )?;
     }
 
-    if !pushed_non_empty_line {
+    if !pushed_line {
       dest.clear();
     }
 
-- 
2.43.0


From 62628b50b936a13cc8cf0b1bbe34031899c29553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 032/118] fix: empty included files don't have an empty line to
 select

---
 parser/src/tasks/directives/includes/normalize_includes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index c0ef439..5d16b4e 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -149,6 +149,7 @@ pub(super) fn split_lines(bytes: &[u8]) -> impl Iterator<Item = &[u8]> {
     .strip_suffix(b"\n")
     .unwrap_or(bytes)
     .split(|&b| b == b'\n')
+    .skip(usize::from(bytes.is_empty()))
 }
 
 fn trim_trailing_whitespace(bytes: &mut BumpVec<u8>) {
-- 
2.43.0


From 68119f6a20253a3690cba70e4f810d933cf862e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 033/118] fix: only directives at the start of a line open or
 close regions within skipped ones

---
 parser/src/tasks/directives/ifdef.rs | 46 +++++++++++++---------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index ce9d248..7cf8ec3 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -58,35 +58,33 @@ impl<'arena> Parser<'arena> {
 
   pub(crate) fn skip_lines_until_endif(&mut self, start_line: &Line<'arena>) -> Result<()> {
     let mut depth = 1;
+    let mut line_start = true;
     loop {
       let token = self.lexer.next_token();
-      if token.matches(TokenKind::Directive, "endif::") {
-        let mut line = Line::empty(self.bump);
-        line.push(token);
-        while !self.lexer.at_newline() && !self.lexer.is_eof() {
-          line.push(self.lexer.next_token());
+      let starts_line = std::mem::replace(&mut line_start, token.kind(TokenKind::Newline));
+      if !starts_line || !token.kind(TokenKind::Directive) {
+        if self.lexer.is_eof() {
+          // TODO: should probably not be a skippable/non-strict error
+          return self.err_line("This ifdef directive was never closed", start_line);
         }
-        if line.is_directive_endif() {
-          depth -= 1;
-          if depth == 0 {
-            if self.lexer.at_newline() {
-              self.lexer.skip_newline();
-            }
-            return Ok(());
+        continue;
+      }
+      let is_endif = token.matches(TokenKind::Directive, "endif::");
+      let mut line = Line::empty(self.bump);
+      line.push(token);
+      while !self.lexer.at_newline() && !self.lexer.is_eof() {
+        line.push(self.lexer.next_token());
+      }
+      if is_endif && line.is_directive_endif() {
+        depth -= 1;
+        if depth == 0 {
+          if self.lexer.at_newline() {
+            self.lexer.skip_newline();
           }
+          return Ok(());
         }
-      } else if token.kind(TokenKind::Directive) {
-        let mut line = Line::empty(self.bump);
-        line.push(token);
-        while !self.lexer.at_newline() && !self.lexer.is_eof() {
-          line.push(self.lexer.next_token());
-        }
-        if opens_conditional_region(&line.reassemble_src()) {
-          depth += 1;
-        }
-      } else if self.lexer.is_eof() {
-        // TODO: should probably not be a skippable/non-strict error
-        return self.err_line("This ifdef directive was never closed", start_line);
+      } else if !is_endif && opens_conditional_region(&line.reassemble_src()) {
+        depth += 1;
       }
     }
   }
-- 
2.43.0


From 12fcb764e8e0d29b78fea0f50836bd9e7f434094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 034/118] fix: replace attribute references in directives
 anywhere in verbatim blocks

---
 parser/src/tasks/attr_refs.rs         | 4 +++-
 parser/src/tasks/parse_inlines/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index b73c234..514fe74 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -51,7 +51,9 @@ impl<'arena> Parser<'arena> {
         self.ctx.replacing_attr = false;
       }
     }
-    if token.kind(TokenKind::AttrRef) && self.ctx.subs.attr_refs() {
+    // NB: directives are preprocessed, regardless of the substitutions of the block they are in
+    let replace_refs = self.ctx.subs.attr_refs() || line.starts(TokenKind::Directive);
+    if token.kind(TokenKind::AttrRef) && replace_refs {
       match self.document.meta.get(&token.lowercase_attr_name()) {
         Some(AttrValue::String(attr_val)) => {
           #[cfg(feature = "attr_ref_observation")]
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c455a13..34f92f4 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -370,7 +370,7 @@ impl<'arena> Parser<'arena> {
             // probably because we're inside a pass macro, so
             // discard the resolved tokens and push the raw attr
             while let Some(peek) = line.current_token() {
-              if peek.loc == token.loc {
+              if peek.loc == token.loc && peek.attr_replacement {
                 line.discard(1);
               } else {
                 break;
-- 
2.43.0


From 4e1a99fec8a571c577573e61a39b190628ca293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 035/118] fix: don't let documents reach URIs through
 docinfodir, icons or unusually spelled targets unless allow-uri-read is set

---
 parser/src/docinfo.rs                          |  3 +++
 .../directives/includes/process_includes.rs    | 18 ++++++++++++++----
 parser/src/tasks/parse_image_block.rs          | 12 +++++++-----
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/parser/src/docinfo.rs b/parser/src/docinfo.rs
index 1e125bd..2617710 100644
--- a/parser/src/docinfo.rs
+++ b/parser/src/docinfo.rs
@@ -80,6 +80,9 @@ impl<'arena> Parser<'arena> {
     file: &str,
   ) -> Option<DocInfoFragment<'arena>> {
     let target = docinfo_target(&self.document.meta, resolver, file);
+    if target.is_uri() && !self.document.meta.is_true("allow-uri-read") {
+      return None;
+    }
     let mut buffer = BumpVec::new_in(self.bump);
     resolver
       .resolve(target, &mut buffer, self.document.meta.safe_mode)
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index fcfac1d..14eda13 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -31,10 +31,9 @@ impl<'arena> Parser<'arena> {
       ));
     }
 
-    if directive.target_is_uri
-      && (self.document.meta.safe_mode > SafeMode::Server
-        || !self.document.meta.is_true("allow-uri-read"))
-    {
+    let uri_read_allowed = self.document.meta.safe_mode <= SafeMode::Server
+      && self.document.meta.is_true("allow-uri-read");
+    if directive.target_is_uri && !uri_read_allowed {
       self.target_err(
         "Cannot include URL contents (allow-uri-read not enabled)",
         &directive,
@@ -76,6 +75,17 @@ impl<'arena> Parser<'arena> {
       }
     };
 
+    // might not look like a uri in the source, i.e. `http:/example.com`
+    if target.is_uri() && !uri_read_allowed {
+      self.target_err(
+        "Cannot include URL contents (allow-uri-read not enabled)",
+        &directive,
+      )?;
+      return Ok(DirectiveAction::SubstituteLine(
+        self.substitute_link_for_include(&directive),
+      ));
+    }
+
     let target_abspath = target.path();
     let mut buffer = BumpVec::new_in(self.bump);
     match resolver.resolve(target, &mut buffer, self.document.meta.safe_mode) {
diff --git a/parser/src/tasks/parse_image_block.rs b/parser/src/tasks/parse_image_block.rs
index a3bc290..f5bf996 100644
--- a/parser/src/tasks/parse_image_block.rs
+++ b/parser/src/tasks/parse_image_block.rs
@@ -32,6 +32,8 @@ impl<'arena> Parser<'arena> {
     macro_attrs: &AttrList<'arena>,
     block_attrs: Option<&MultiAttrList<'arena>>,
   ) -> Result<ImageKind<'arena>> {
+    // might not look like a uri in the source, i.e. `http:/example.com` or `{url}`
+    let target_is_uri = target_is_uri || Path::new(target.src.as_str()).is_uri();
     if self.should_resolve_as_inline_svg(target, macro_attrs, block_attrs) {
       self.parse_inline_svg(target, target_is_uri, macro_attrs)
     } else if !self.document.meta.is_true("data-uri")
@@ -58,10 +60,6 @@ impl<'arena> Parser<'arena> {
     if !self.document.meta.is_true("icons") || self.document.meta.str("icons") == Some("font") {
       return Ok(());
     }
-    if self.is_disallowed_abs_uri(false, IncludeKind::AdmonitionIcon) {
-      return Ok(());
-    }
-
     let mut filename = BumpString::with_capacity_in(12, self.bump);
     if let Some(custom) = meta.attrs.named("icon") {
       filename.push_str(custom);
@@ -76,6 +74,10 @@ impl<'arena> Parser<'arena> {
     };
     ext = iff!(ext.is_empty(), "png", ext);
     filename.push_str(ext);
+    let is_uri = Path::new(filename.as_str()).is_uri();
+    if self.is_disallowed_abs_uri(is_uri, IncludeKind::AdmonitionIcon) {
+      return Ok(());
+    }
 
     let mut data_uri = String::with_capacity(32);
     data_uri.push_str("data:image/");
@@ -84,7 +86,7 @@ impl<'arena> Parser<'arena> {
 
     if let Some(bytes) = self.get_image_bytes(
       &filename,
-      false,
+      is_uri,
       meta.start_loc,
       IncludeKind::AdmonitionIcon,
     )? {
-- 
2.43.0


From 1140d64142468473e05817ece73121da8286a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 036/118] fix: resolve references to attributes set without a
 value to nothing instead of treating them as missing

---
 parser/src/docinfo.rs         | 4 ++--
 parser/src/tasks/attr_refs.rs | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/src/docinfo.rs b/parser/src/docinfo.rs
index 2617710..cbb3e60 100644
--- a/parser/src/docinfo.rs
+++ b/parser/src/docinfo.rs
@@ -267,8 +267,8 @@ impl Parser<'_> {
     let mut drop_line = false;
     let replaced = regx::ATTR_VAL_REPLACE.replace_all(line_src, |caps: &regex::Captures| {
       let attr_name = caps.get(1).unwrap().as_str();
-      match self.document.meta.get(attr_name) {
-        Some(AttrValue::String(value)) => value.to_string(),
+      match self.document.meta.get(attr_name).and_then(AttrValue::str) {
+        Some(value) => value.to_string(),
         _ => match attr_missing {
           Some("drop") => String::new(),
           Some("drop-line") => {
diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index 514fe74..d8d87ee 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -54,8 +54,9 @@ impl<'arena> Parser<'arena> {
     // NB: directives are preprocessed, regardless of the substitutions of the block they are in
     let replace_refs = self.ctx.subs.attr_refs() || line.starts(TokenKind::Directive);
     if token.kind(TokenKind::AttrRef) && replace_refs {
-      match self.document.meta.get(&token.lowercase_attr_name()) {
-        Some(AttrValue::String(attr_val)) => {
+      let attr = self.document.meta.get(&token.lowercase_attr_name());
+      match attr.and_then(AttrValue::str) {
+        Some(attr_val) => {
           #[cfg(feature = "attr_ref_observation")]
           if let Some(ref mut observer) = self.attr_ref_observer.as_mut() {
             observer.attr_ref_replaced(token.attr_name(), token.loc);
-- 
2.43.0


From 54269f0ee1e12c2595868f1b95389a3306a92089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 037/118] fix: only give the root element of inline svgs the
 dimensions of the image macro

---
 core/src/regx.rs                      |  4 +--
 parser/src/tasks/parse_image_block.rs | 37 ++++++++++++---------------
 2 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 3d8a4d0..aef8bd6 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -56,8 +56,8 @@ lazy_static! {
 
 // inline svg
 lazy_static! {
-  pub static ref SVG_PREAMBLE: BytesRegex = BytesRegex::new(r"(?s)^(.*)<svg").unwrap();
-  pub static ref SVG_START_TAG: BytesRegex = BytesRegex::new(r"<svg").unwrap();
+  pub static ref SVG_PREAMBLE: BytesRegex = BytesRegex::new(r"(?s)^.*?(<svg(?:[\s/>]|$))").unwrap();
+  pub static ref SVG_START_TAG: BytesRegex = BytesRegex::new(r"^<svg[^>]*").unwrap();
   pub static ref SVG_STRIP_ATTRS: BytesRegex =
     BytesRegex::new(r#"(?s)\s(?:width|height|style)=("([^"]*)"|'([^']*)')"#).unwrap();
 }
diff --git a/parser/src/tasks/parse_image_block.rs b/parser/src/tasks/parse_image_block.rs
index f5bf996..a11bd2c 100644
--- a/parser/src/tasks/parse_image_block.rs
+++ b/parser/src/tasks/parse_image_block.rs
@@ -135,32 +135,29 @@ impl<'arena> Parser<'arena> {
     };
     let mut buf = &buffer[..];
     if let Some(caps) = regx::SVG_PREAMBLE.captures(buf) {
-      buf = &buffer[(caps[0].len() - 4)..];
+      buf = &buffer[caps.get(1).unwrap().start()..];
     }
     buf = buf.trim_ascii();
 
     let width = attrs.named("width").or_else(|| attrs.str_positional_at(1));
     let height = attrs.named("height").or_else(|| attrs.str_positional_at(2));
-    let image = if width.is_none() && height.is_none() {
-      BumpString::from_utf8_lossy_in(buf, self.bump)
-    } else {
-      let mut start = BumpString::with_capacity_in(48, self.bump);
-      start.push_str("<svg ");
-      if let Some(width) = width {
-        start.push_str("width=\"");
-        start.push_str(width);
-        start.push('"');
-      }
-      if let Some(height) = height {
-        start.push_str("height=\"");
-        start.push_str(height);
-        start.push('"');
+    let start_tag = regx::SVG_START_TAG.find(buf);
+    let image = if let Some(start_tag) = start_tag
+      && (width.is_some() || height.is_some())
+    {
+      let mut image = BumpVec::with_capacity_in(buf.len() + 48, self.bump);
+      image.extend_from_slice(b"<svg");
+      for (name, value) in [("width", width), ("height", height)] {
+        if let Some(value) = value {
+          image.extend_from_slice(format!(" {name}=\"{value}\"").as_bytes());
+        }
       }
-      let stripped = regx::SVG_STRIP_ATTRS.replace_all(buf, b"");
-      let modified = regx::SVG_START_TAG
-        .replace(&stripped, &*start.into_bytes())
-        .into_owned();
-      BumpString::from_utf8_lossy_in(&modified, self.bump)
+      // the dimensions of elements inside the image are their own
+      image.extend_from_slice(&regx::SVG_STRIP_ATTRS.replace_all(&start_tag.as_bytes()[4..], b""));
+      image.extend_from_slice(&buf[start_tag.end()..]);
+      BumpString::from_utf8_lossy_in(&image, self.bump)
+    } else {
+      BumpString::from_utf8_lossy_in(buf, self.bump)
     };
     if image.is_empty() {
       self.err_at("Empty svg file", target.loc)?;
-- 
2.43.0


From 2b8b40a17aa97e0a5f2e03a2724e663dee7e522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 038/118] fix: escape the alt text shown in place of inline
 svgs which can't be read

---
 backend/src/html/backend.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 949e1a7..e9e9086 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -285,12 +285,7 @@ pub trait HtmlBackend: HtmlBuf {
       ImageKind::InlineSvg(Some(inline_svg)) => self.push_str(inline_svg),
       ImageKind::InlineSvg(None) => {
         self.push_str(r#"<span class="alt">"#);
-        if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-          self.push_str(alt);
-        } else {
-          let stem = asciidork_core::file::stem(target);
-          self.push_str(&stem.replace(['_', '-'], " "));
-        }
+        push_image_alt(self, target, attrs);
         self.push_str(r#"</span>"#);
       }
     }
@@ -853,6 +848,17 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
     }
   }
   backend.push_str(r#"" alt=""#);
+  push_image_alt(backend, target, attrs);
+  backend.push_ch('"');
+  backend.push_named_or_pos_attr("width", 1, attrs);
+  backend.push_named_or_pos_attr("height", 2, attrs);
+  if !is_block {
+    backend.push_named_attr("title", attrs);
+  }
+  backend.push_ch('>');
+}
+
+fn push_image_alt<B: HtmlBackend + ?Sized>(backend: &mut B, target: &str, attrs: &AttrList) {
   if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
     backend.push_str_attr_escaped(alt);
   } else if let Some(Some(nodes)) = attrs.positional.first() {
@@ -863,13 +869,6 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
     let alt = file::stem(target).replace(['-', '_'], " ");
     backend.push_str_attr_escaped(&alt);
   }
-  backend.push_ch('"');
-  backend.push_named_or_pos_attr("width", 1, attrs);
-  backend.push_named_or_pos_attr("height", 2, attrs);
-  if !is_block {
-    backend.push_named_attr("title", attrs);
-  }
-  backend.push_ch('>');
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
-- 
2.43.0


From a7418a8f2ad431c76bcc9180fd5b5030e4a4d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 039/118] fix: embed the icon file admonitions would link to,
 also for blocks, custom icons and icons=image

---
 parser/src/lib.rs                     |  2 +-
 parser/src/tasks/parse_block.rs       |  1 +
 parser/src/tasks/parse_image_block.rs | 18 ++++++++----------
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 41e7ff2..5a945c7 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -59,7 +59,7 @@ mod internal {
   pub use crate::token::*;
   pub use crate::utils::bump::*;
   pub use asciidork_core::regx;
-  pub use asciidork_core::{Author, DocType, JobAttr, JobSettings, Path, ReadAttr, SafeMode};
+  pub use asciidork_core::{Author, DocType, IconMode, JobAttr, JobSettings, Path, ReadAttr, SafeMode};
   pub use asciidork_core::{file, iff};
   pub use ast::*;
   pub use smallvec::SmallVec;
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 9b6bab7..2eb4c47 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -335,6 +335,7 @@ impl<'arena> Parser<'arena> {
     self.ctx.delimiter = Some(delimiter);
     self.restore_lines(lines);
     let context = meta.block_style_or(Context::from(delimiter.kind));
+    self.maybe_set_admonition_icon_uri(context, &meta)?;
     let restore_subs = self.ctx.set_subs_for(context, &meta);
 
     // newlines have a different meaning in a these contexts, so we have to
diff --git a/parser/src/tasks/parse_image_block.rs b/parser/src/tasks/parse_image_block.rs
index a11bd2c..c31b40b 100644
--- a/parser/src/tasks/parse_image_block.rs
+++ b/parser/src/tasks/parse_image_block.rs
@@ -57,7 +57,7 @@ impl<'arena> Parser<'arena> {
     if !self.document.meta.is_true("data-uri") {
       return Ok(());
     }
-    if !self.document.meta.is_true("icons") || self.document.meta.str("icons") == Some("font") {
+    if self.document.meta.icon_mode() != IconMode::Image {
       return Ok(());
     }
     let mut filename = BumpString::with_capacity_in(12, self.bump);
@@ -66,14 +66,12 @@ impl<'arena> Parser<'arena> {
     } else {
       filename.push_str(admonition_kind.lowercase_str());
     }
-    filename.push('.');
-    let mut ext = if let Some(icon_type) = self.document.meta.str("icontype") {
-      icon_type
-    } else {
-      self.document.meta.str_or("icons", "png")
-    };
-    ext = iff!(ext.is_empty(), "png", ext);
-    filename.push_str(ext);
+    if !file::has_ext(&filename) {
+      let icon_type = self.document.meta.str_or("icontype", "png");
+      filename.push('.');
+      filename.push_str(iff!(icon_type.is_empty(), "png", icon_type));
+    }
+    let ext = file::ext(&filename).unwrap_or("png").to_string();
     let is_uri = Path::new(filename.as_str()).is_uri();
     if self.is_disallowed_abs_uri(is_uri, IncludeKind::AdmonitionIcon) {
       return Ok(());
@@ -81,7 +79,7 @@ impl<'arena> Parser<'arena> {
 
     let mut data_uri = String::with_capacity(32);
     data_uri.push_str("data:image/");
-    data_uri.push_str(iff!(ext == "svg", "svg+xml", ext));
+    data_uri.push_str(iff!(ext == "svg", "svg+xml", &ext));
     data_uri.push_str(";base64,");
 
     if let Some(bytes) = self.get_image_bytes(
-- 
2.43.0


From a2defac9c072c425e0ea139a8f1f41541ccc3c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 040/118] fix: locate diagnostics from AsciiDoc cells by the
 lines the cell is made of

---
 parser/src/lexer/root_lexer.rs        | 22 ++++++++++++++--------
 parser/src/line.rs                    | 13 +++++++++++++
 parser/src/tasks/table/parse_table.rs |  6 ++++--
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index a7eea3e..edc2f85 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -303,14 +303,20 @@ impl<'arena> RootLexer<'arena> {
     self.sources[loc.include_depth as usize].line_number_with_offset(loc.start)
   }
 
-  pub fn reline_diagnostics(&self, source_idx: u16, offset: u32, diagnostics: &mut [Diagnostic]) {
-    let offset_loc = SourceLocation::new(offset, offset, source_idx);
-    let before_offset = self.line_number(offset_loc) - 1;
-    let file = self.source_file_at(source_idx);
-    diagnostics
-      .iter_mut()
-      .filter(|diag| diag.source_file == *file)
-      .for_each(|diag| diag.line_num += before_offset);
+  /// place diagnostics found in `file` parsed on its own, given the location each of its lines is from
+  pub fn reline_diagnostics(
+    &self,
+    file: &SourceFile,
+    lines: &[SourceLocation],
+    diagnostics: &mut [Diagnostic],
+  ) {
+    for diag in diagnostics.iter_mut().filter(|d| d.source_file == *file) {
+      let idx = (diag.line_num as usize).saturating_sub(1);
+      if let Some(loc) = lines.get(idx).or(lines.last()) {
+        diag.line_num = self.line_number(*loc);
+        diag.source_file = self.source_file_at(loc.include_depth).clone();
+      }
+    }
   }
 
   pub fn next_token(&mut self) -> Token<'arena> {
diff --git a/parser/src/line.rs b/parser/src/line.rs
index e1e0e58..df2abf7 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -965,6 +965,19 @@ impl<'arena> Line<'arena> {
     }
   }
 
+  /// where each of the lines is from: they needn't follow each other in the source
+  pub fn line_locs(&self) -> SmallVec<[SourceLocation; 16]> {
+    let mut locs = SmallVec::new();
+    let mut line_start = true;
+    for token in self.iter() {
+      if line_start {
+        locs.push(token.loc);
+      }
+      line_start = token.kind(Newline);
+    }
+    locs
+  }
+
   // directives starting a line were already processed when reading the lines of the table,
   // the ones still there are text (i.e. includes which failed), and not to be processed again
   pub fn escape_processed_directives(&mut self) {
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 0c5b1de..6e2d121 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -219,6 +219,8 @@ impl<'arena> Parser<'arena> {
       cell_tokens.trim_for_cell(cell_style);
       cell_tokens.remove_resolved_attr_refs();
       cell_tokens.escape_processed_directives();
+      let source_file = self.lexer.source_file_at(source_idx).clone();
+      let line_locs = cell_tokens.line_locs();
       let cell_parser = self.cell_parser(cell_tokens.into_bytes(), source_idx, loc.start);
       return match cell_parser.parse() {
         Ok(ParseResult {
@@ -231,7 +233,7 @@ impl<'arena> Parser<'arena> {
         }) => {
           self.ctx.attr_defs.extend(attr_defs);
           if !warnings.is_empty() {
-            self.lexer.reline_diagnostics(source_idx, loc.start, &mut warnings);
+            self.lexer.reline_diagnostics(&source_file, &line_locs, &mut warnings);
             self.errors.borrow_mut().extend(warnings);
           }
 
@@ -245,7 +247,7 @@ impl<'arena> Parser<'arena> {
           Ok(Some((cell, repeat)))
         }
         Err(mut diagnostics) => {
-          self.lexer.reline_diagnostics(source_idx, loc.start, &mut diagnostics);
+          self.lexer.reline_diagnostics(&source_file, &line_locs, &mut diagnostics);
           if !diagnostics.is_empty() && self.strict {
             Err(diagnostics.remove(0))
           } else {
-- 
2.43.0


From 2a7dae07d755b443540f6363f0c715cd75d01789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 041/118] fix: render AsciiDoc cells with the attributes in
 effect where they are

---
 core/src/document_meta.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index f262cfc..346597a 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -8,6 +8,7 @@ pub struct DocumentMeta {
   doctype: DocType,
   job_attrs: JobAttrs,
   doc_attrs: Attrs,
+  inherited_doc_attrs: Attrs,
   default_attrs: Attrs,
   header_attrs: Attrs,
   pub safe_mode: SafeMode,
@@ -24,6 +25,7 @@ impl Default for DocumentMeta {
       job_attrs: JobAttrs::empty(),
       header_attrs: Attrs::empty(),
       doc_attrs: Attrs::empty(),
+      inherited_doc_attrs: Attrs::empty(),
       default_attrs: Attrs::defaults(),
       authors: Vec::new(),
       embedded: false,
@@ -82,6 +84,9 @@ impl DocumentMeta {
     // https://github.com/asciidoctor/asciidoctor/blob/main/lib/asciidoctor/document.rb#L268
     dm.remove_attr("showtitle");
     dm.remove_attr("notitle");
+    // in effect for the cell, even though it doesn't declare them
+    dm.inherited_doc_attrs = dm.doc_attrs.clone();
+    dm.data_admonition_icons.clear();
     dm
   }
 
@@ -182,7 +187,7 @@ impl DocumentMeta {
   }
 
   pub fn clear_doc_attrs(&mut self) {
-    self.doc_attrs = Attrs::empty();
+    self.doc_attrs = std::mem::replace(&mut self.inherited_doc_attrs, Attrs::empty());
   }
 
   pub fn set_doctype(&mut self, doctype: DocType) {
-- 
2.43.0


From 34d6c38179d5d5105e8d0a5e69135345e54f3a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 042/118] fix: a value is not equal to a missing one in ifeval,
 whichever side it is on

---
 parser/src/tasks/directives/ifeval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index 9db9a7a..34f2ae5 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -100,7 +100,7 @@ fn eval(lhs: Value, op: Op, rhs: Value) -> bool {
     (Value::Nil, Op::Eq, Value::Nil) => true,
     (Value::Nil, Op::NotEq, Value::Nil) => false,
     (Value::Nil, Op::Eq, _) => false,
-    (Value::Nil, Op::NotEq, _) => true,
+    (Value::Nil, Op::NotEq, _) | (_, Op::NotEq, Value::Nil) => true,
     // mixed types and unsupported ops
     _ => false,
   }
-- 
2.43.0


From d5e1deeb40fab346ec5882114918486bd9916852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:32 +0000
Subject: [PATCH 043/118] fix: a failing prettier is an error, not an empty
 result

---
 cli/src/main.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 5764cab..40c48b3 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -104,7 +104,7 @@ fn run(
       let convert_time = convert_start.elapsed();
       let prettify = args.format == Output::Html5Prettier || args.format == Output::DrHtmlPrettier;
       if prettify {
-        html = format_html(html);
+        html = format_html(html)?;
       }
       if let Some(file) = &args.output {
         fs::write(file, html)?;
@@ -184,7 +184,7 @@ fn print_timings(
   }
 }
 
-fn format_html(html: String) -> String {
+fn format_html(html: String) -> Result<String, Box<dyn Error>> {
   let mut child = Command::new("prettier")
     .arg("--parser")
     .arg("html")
@@ -193,11 +193,15 @@ fn format_html(html: String) -> String {
     .stdin(Stdio::piped())
     .stdout(Stdio::piped())
     .spawn()
-    .expect("`--format dr-html-pretty` requires `prettier` to be installed.\n");
+    .map_err(|err| format!("`--format *-prettier` requires `prettier` to be installed: {err}"))?;
   let child_stdin = child.stdin.as_mut().unwrap();
-  child_stdin.write_all(html.as_bytes()).unwrap();
-  let output = child.wait_with_output().unwrap();
-  String::from_utf8_lossy(&output.stdout).to_string()
+  let written = child_stdin.write_all(html.as_bytes());
+  let output = child.wait_with_output()?;
+  if !output.status.success() {
+    return Err(format!("`prettier` failed: {}", output.status).into());
+  }
+  written?;
+  Ok(String::from_utf8_lossy(&output.stdout).to_string())
 }
 
 fn print_human_diagnostics(dest: &mut impl Write, diagnostics: Vec<Diagnostic>) {
-- 
2.43.0


From 14894c39dd1632a32f8f327861ea6755d1b80771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 044/118] fix: explicitly set date attributes are kept, out of
 range timestamps do not panic

---
 parser/src/tasks/time.rs | 70 +++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/parser/src/tasks/time.rs b/parser/src/tasks/time.rs
index f0ecb0c..d46601c 100644
--- a/parser/src/tasks/time.rs
+++ b/parser/src/tasks/time.rs
@@ -1,6 +1,3 @@
-use std::convert::TryInto;
-
-use jiff::civil::Date;
 use jiff::{Timestamp, Zoned, tz::TimeZone};
 
 use crate::internal::*;
@@ -14,47 +11,48 @@ impl Parser<'_> {
   ) {
     let doc_ts = reproducible.unwrap_or(input_mtime.unwrap_or(now));
     let now_ts = reproducible.unwrap_or(now);
-    let docdate = date_from_attr_or(self.document.meta.str("docdate"), doc_ts);
-    let doctime = time_from_attr_or(self.document.meta.str("doctime"), doc_ts);
-
-    let docyear_s = docdate.year().to_string();
-    let docdate_s = docdate.strftime("%Y-%m-%d").to_string();
-    let doctime_s = doctime.strftime("%H:%M:%S%z").to_string();
-    let docdatetime_s = format!("{docdate_s} {doctime_s}");
-    self.insert_job_attr("docyear", docyear_s);
-    self.insert_job_attr("docdate", docdate_s);
-    self.insert_job_attr("doctime", doctime_s);
-    self.insert_job_attr("docdatetime", docdatetime_s);
+    let docdatetime = to_zoned(doc_ts);
+    let docdate = self.datetime_attr("docdate", || format(&docdatetime, "%Y-%m-%d"));
+    let doctime = self.datetime_attr("doctime", || format(&docdatetime, "%H:%M:%S%z"));
+    self.year_attr("docyear", &docdate);
+    self.datetime_attr("docdatetime", || format!("{docdate} {doctime}"));
 
     let nowdatetime = to_zoned(now_ts);
-    let nowyear = nowdatetime.year().to_string();
-    let nowdate = nowdatetime.strftime("%Y-%m-%d").to_string();
-    let nowtime = nowdatetime.strftime("%H:%M:%S%z").to_string();
-    let nowdatetime = nowdatetime.strftime("%Y-%m-%d %H:%M:%S%z").to_string();
-    self.insert_job_attr("localyear", nowyear);
-    self.insert_job_attr("localdate", nowdate);
-    self.insert_job_attr("localtime", nowtime);
-    self.insert_job_attr("localdatetime", nowdatetime);
+    let localdate = self.datetime_attr("localdate", || format(&nowdatetime, "%Y-%m-%d"));
+    let localtime = self.datetime_attr("localtime", || format(&nowdatetime, "%H:%M:%S%z"));
+    self.year_attr("localyear", &localdate);
+    self.datetime_attr("localdatetime", || format!("{localdate} {localtime}"));
   }
-}
 
-fn to_zoned(seconds: u64) -> Zoned {
-  let seconds: i64 = seconds.try_into().expect("invalid timestamp");
-  let timestamp = Timestamp::from_second(seconds).expect("invalid timestamp");
-  timestamp.to_zoned(TimeZone::UTC)
+  /// a value that was set explicitly takes precedence over the computed one
+  fn datetime_attr(&mut self, key: &str, compute: impl FnOnce() -> String) -> String {
+    if let Some(explicit) = self.document.meta.string(key) {
+      return explicit;
+    }
+    let computed = compute();
+    self.insert_job_attr(key, computed.clone());
+    computed
+  }
+
+  fn year_attr(&mut self, key: &str, date: &str) {
+    if let Some((year, _)) = date.split_once('-')
+      && year.len() == 4
+    {
+      self.datetime_attr(key, || year.to_string());
+    }
+  }
 }
 
-fn date_from_attr_or(attr: Option<&str>, epoch_seconds: u64) -> Zoned {
-  attr
-    .and_then(|attr_str| Date::strptime("%Y-%m-%d", attr_str).ok())
-    .map(|date| date.to_zoned(TimeZone::UTC).expect("invalid date"))
-    .unwrap_or_else(|| to_zoned(epoch_seconds))
+fn to_zoned(seconds: u64) -> Zoned {
+  i64::try_from(seconds)
+    .ok()
+    .and_then(|seconds| Timestamp::from_second(seconds).ok())
+    .unwrap_or(Timestamp::MAX)
+    .to_zoned(TimeZone::UTC)
 }
 
-fn time_from_attr_or(attr: Option<&str>, epoch_seconds: u64) -> Zoned {
-  attr
-    .and_then(|s| Zoned::strptime("%Y-%m-%d %H:%M:%S%z", format!("2000-01-01 {s}")).ok())
-    .unwrap_or_else(|| to_zoned(epoch_seconds))
+fn format(datetime: &Zoned, format: &str) -> String {
+  datetime.strftime(format).to_string()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5db3a360f12cec5d75fd1bd290de450c296757e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 045/118] fix: cli does not panic on a clock or mtime before
 1970

---
 cli/src/main.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 40c48b3..f587f60 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -43,7 +43,7 @@ fn run(
         .ok()
         .map(|metadata| {
           if let Ok(mtime) = metadata.modified() {
-            input_mtime = Some(mtime.duration_since(UNIX_EPOCH).unwrap().as_secs());
+            input_mtime = Some(unix_seconds(mtime));
           }
           String::with_capacity(metadata.len() as usize)
         })
@@ -75,10 +75,7 @@ fn run(
   parser.apply_job_settings(job_settings);
   parser.set_resolver(Box::new(CliResolver::new(base_dir, strict)));
 
-  let now = SystemTime::now()
-    .duration_since(UNIX_EPOCH)
-    .unwrap()
-    .as_secs();
+  let now = unix_seconds(SystemTime::now());
   parser.provide_timestamps(now, input_mtime, None);
 
   let result = parser.parse();
@@ -134,6 +131,14 @@ fn run(
   Ok(())
 }
 
+/// times before the epoch are clamped to it
+fn unix_seconds(time: SystemTime) -> u64 {
+  time
+    .duration_since(UNIX_EPOCH)
+    .map(|duration| duration.as_secs())
+    .unwrap_or(0)
+}
+
 fn print_timings(
   dest: &mut impl Write,
   len: usize,
-- 
2.43.0


From 7da43f1841e97567b944c525ba45f86f0c5daf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 046/118] fix: wasm convert replies with well-formed json

---
 dr-html-wasm/src/lib.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/dr-html-wasm/src/lib.rs b/dr-html-wasm/src/lib.rs
index ca1bf5c..3f18e6c 100644
--- a/dr-html-wasm/src/lib.rs
+++ b/dr-html-wasm/src/lib.rs
@@ -21,20 +21,31 @@ pub fn convert(adoc: &str, timestamp: f64) -> String {
   match result {
     Ok(ParseResult { document, .. }) => {
       let html = backend::convert(document).unwrap();
-      format!(
-        r#"{{"success":true,"html":"{}"}}"#,
-        html.replace('"', "\\\"").replace('\n', "\\n")
-      )
+      format!(r#"{{"success":true,"html":{}}}"#, json_str(&html))
     }
     Err(diagnostics) => format!(
-      r#"{{"success":false,"errors":["{}"]}}"#,
+      r#"{{"success":false,"errors":[{}]}}"#,
       diagnostics
         .iter()
-        .map(Diagnostic::plain_text)
+        .map(|diagnostic| json_str(&diagnostic.plain_text()))
         .collect::<Vec<_>>()
-        .join(r#"",""#)
-        .replace('"', "\\\"")
-        .replace('\n', "\\n")
+        .join(",")
     ),
   }
 }
+
+fn json_str(s: &str) -> String {
+  let mut json = String::with_capacity(s.len() + 2);
+  json.push('"');
+  for c in s.chars() {
+    match c {
+      '"' => json.push_str("\\\""),
+      '\\' => json.push_str("\\\\"),
+      '\n' => json.push_str("\\n"),
+      c if c.is_control() => json.push_str(&format!("\\u{:04x}", c as u32)),
+      c => json.push(c),
+    }
+  }
+  json.push('"');
+  json
+}
-- 
2.43.0


From 0e0ac231da703552d36cfb52b9f702bcd6ecc517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 047/118] fix: a revision date does not depend on the current
 time and time zone

---
 backend/src/time.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/backend/src/time.rs b/backend/src/time.rs
index b9d6677..c70cea9 100644
--- a/backend/src/time.rs
+++ b/backend/src/time.rs
@@ -1,6 +1,8 @@
 // replicates Ruby's Date.parse function, accepting arbitrary date string inputs.
 pub fn format_date_str(input: &str, output_fmt: &str) -> Option<String> {
-  let dt = dateparser::parse(input).ok()?;
+  // a date without a time is that date, whatever the current time and time zone
+  let epoch = dateparser::DateTimeUtc(Default::default()).0;
+  let dt = dateparser::parse_with(input, &epoch.timezone(), epoch.time()).ok()?;
   Some(dt.format(output_fmt).to_string())
 }
 
-- 
2.43.0


From 17bff3c3c0d1295bdc99c3f8e44b570defdd1689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 048/118] fix: cli reads the path it checked, links are not
 case mismatches

---
 cli/src/resolver.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cli/src/resolver.rs b/cli/src/resolver.rs
index fe517be..73506cd 100644
--- a/cli/src/resolver.rs
+++ b/cli/src/resolver.rs
@@ -1,3 +1,4 @@
+use std::ffi::OsStr;
 use std::fs::File;
 use std::io::{BufReader, Read};
 use std::path::PathBuf;
@@ -77,16 +78,19 @@ impl CliResolver {
       match (pathb.file_name(), pathc.file_name()) {
         // only send back the filename so we don't accidentally expose
         // full system filepaths in error messages for security reasons
-        (Some(pfn), Some(cfn)) if pfn != cfn => {
+        (Some(pfn), Some(cfn)) if differ_in_case(pfn, cfn) => {
           return Err(CaseMismatch(Some(cfn.to_string_lossy().to_string())));
         }
-        _ => return Err(CaseMismatch(None)),
+        _ if differ_in_case(pathb.as_os_str(), pathc.as_os_str()) => {
+          return Err(CaseMismatch(None));
+        }
+        // a symlink, or a relative base directory
+        _ => {}
       }
-    } else if !pathb.exists() {
-      return Err(NotFound);
     }
 
-    let file = File::open(pathb)?;
+    // the path that was checked, even if a link in the given one was changed since
+    let file = File::open(pathc)?;
     let len = file.metadata().map(|m| m.len() as usize)?;
     buffer.initialize(len);
     let bytes = buffer.as_bytes_mut();
@@ -94,3 +98,7 @@ impl CliResolver {
     Ok(len)
   }
 }
+
+fn differ_in_case(a: &OsStr, b: &OsStr) -> bool {
+  a != b && a.to_string_lossy().to_lowercase() == b.to_string_lossy().to_lowercase()
+}
-- 
2.43.0


From 9934069aa8474031bef87d53e7679196b2f7bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 049/118] fix: cli honors a stylesheet given as job attribute

---
 cli/src/css.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/css.rs b/cli/src/css.rs
index 9a00562..21de594 100644
--- a/cli/src/css.rs
+++ b/cli/src/css.rs
@@ -2,7 +2,7 @@ use asciidork_ast::Document;
 use asciidork_core::{Path, ReadAttr, SafeMode};
 
 pub fn resolve(document: &mut Document) -> Result<(), String> {
-  let attrs = document.meta.header_attrs();
+  let attrs = &document.meta;
   let Some(custom_filename) = attrs.str("stylesheet") else {
     return Ok(());
   };
-- 
2.43.0


From a5880d4774619bbb7d291dab9ce35dbea582f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 050/118] fix: cli does not include http error pages and
 truncated responses

---
 cli/src/resolver.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/cli/src/resolver.rs b/cli/src/resolver.rs
index 73506cd..ea1e21e 100644
--- a/cli/src/resolver.rs
+++ b/cli/src/resolver.rs
@@ -26,13 +26,22 @@ impl IncludeResolver for CliResolver {
       Target::FilePath(target) => self.resolve_filepath(target, buffer, safe_mode),
       Target::Uri(uri) => match minreq::get(uri).send() {
         Ok(response) => {
+          if !(200..300).contains(&response.status_code) {
+            return Err(UriRead(format!(
+              "{} {}",
+              response.status_code, response.reason_phrase
+            )));
+          }
+          if is_truncated(&response) {
+            return Err(UriRead("connection closed before end of response".to_string()));
+          }
           let adoc = response.as_bytes();
           buffer.initialize(adoc.len());
           let bytes = buffer.as_bytes_mut();
           bytes.copy_from_slice(adoc);
           Ok(adoc.len())
         }
-        Err(err) => Err(ResolveError::UriRead(err.to_string())),
+        Err(err) => Err(UriRead(err.to_string())),
       },
     }
   }
@@ -99,6 +108,19 @@ impl CliResolver {
   }
 }
 
+/// minreq does not report a connection that was closed within the body
+fn is_truncated(response: &minreq::Response) -> bool {
+  if let Some(length) = response.headers.get("content-length") {
+    length.trim().parse() != Ok(response.as_bytes().len())
+  } else {
+    // removed once the final chunk was received
+    response
+      .headers
+      .get("transfer-encoding")
+      .is_some_and(|encoding| encoding.to_lowercase().trim() == "chunked")
+  }
+}
+
 fn differ_in_case(a: &OsStr, b: &OsStr) -> bool {
   a != b && a.to_string_lossy().to_lowercase() == b.to_string_lossy().to_lowercase()
 }
-- 
2.43.0


From 4c0bb1bfcffdf7f57bc50229fd5e00b3a6600a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 051/118] fix: cli honors the base directory for input from
 stdin

---
 cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index f587f60..b85a09f 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -62,7 +62,8 @@ fn run(
       stdin.read_to_string(&mut src)?;
       let cwd_buf = env::current_dir()?;
       let cwd = Path::new(cwd_buf.to_str().unwrap_or(""));
-      (src, SourceFile::Stdin { cwd }, Some(cwd_buf), None)
+      let base_dir = args.base_dir.clone().unwrap_or(cwd_buf);
+      (src, SourceFile::Stdin { cwd }, Some(base_dir), None)
     }
   };
 
-- 
2.43.0


From a893316946cbaaa29089b6386204030990654653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 052/118] fix: absolute include targets in input from stdin do
 not panic

---
 parser/src/tasks/directives/includes/target.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/parser/src/tasks/directives/includes/target.rs b/parser/src/tasks/directives/includes/target.rs
index 39c577d..27af237 100644
--- a/parser/src/tasks/directives/includes/target.rs
+++ b/parser/src/tasks/directives/includes/target.rs
@@ -21,17 +21,12 @@ pub fn prepare(
     let abspath = base_dir.join(target);
     return Ok(Target::FilePath(abspath.to_string()));
   }
+  if target.is_absolute() {
+    return Ok(target.into());
+  }
   match src_file {
-    Src::Path(src) => {
-      let abspath = if target.is_relative() {
-        let dir = Path::new(src.dirname());
-        dir.join(target)
-      } else {
-        target
-      };
-      Ok(abspath.into())
-    }
-    Src::Stdin { .. } => unimplemented!("include from stdin not implemented yet"),
+    Src::Path(src) => Ok(Path::new(src.dirname()).join(target).into()),
+    Src::Stdin { cwd } => Ok(cwd.join(target).into()),
     Src::Tmp => unreachable!(),
   }
 }
-- 
2.43.0


From aec7bae236108a25deff0c64bb0caaff18453e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 053/118] fix: escaped inline passthroughs are text,
 passthroughs in macro targets and attributes are restored

---
 parser/src/tasks/parse_attr_list.rs           | 14 +++---
 .../src/tasks/parse_inlines/inline_preproc.rs | 13 +++++
 .../src/tasks/parse_inlines/inline_utils.rs   | 34 ++++++++++++++
 parser/src/tasks/parse_inlines/mod.rs         | 47 ++++++++++++-------
 4 files changed, 84 insertions(+), 24 deletions(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 637d17c..20a52e0 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -309,7 +309,7 @@ impl<'arena> Parser<'arena> {
           return Ok(());
         }
         let mut line = Line::new(tokens);
-        let src = line.consume_to_string(self.bump);
+        let src = self.restore_passthrus(line.consume_to_string(self.bump));
         if attr_list.id.is_some() {
           self.err_at("More than one id attribute", src.loc)?;
           return Ok(());
@@ -332,19 +332,20 @@ impl<'arena> Parser<'arena> {
             }
             Dots if token.len() == 1 => attr_list
               .roles
-              .push(line.consume_to_string_until_one_of(stop, self.bump)),
+              .push(self.restore_passthrus(line.consume_to_string_until_one_of(stop, self.bump))),
             Hash => {
               if attr_list.id.is_some() {
                 self.err_token_start("More than one id attribute", &token)?;
                 return Ok(());
               } else {
-                let src = line.consume_to_string_until_one_of(stop, self.bump);
+                let src =
+                  self.restore_passthrus(line.consume_to_string_until_one_of(stop, self.bump));
                 attr_list.id = Some(src);
               }
             }
             Percent => attr_list
               .options
-              .push(line.consume_to_string_until_one_of(stop, self.bump)),
+              .push(self.restore_passthrus(line.consume_to_string_until_one_of(stop, self.bump))),
             _ => unreachable!("Parser::parse_attr"),
           }
         }
@@ -520,11 +521,10 @@ impl<'arena> Parser<'arena> {
         continue;
       } else if group.len() == 1 {
         let token = group.pop_front().unwrap();
-        let src = token.into_source_string();
-        sink.push(src);
+        sink.push(self.restore_passthrus(token.into_source_string()));
       } else {
         let mut line = Line::new(group);
-        sink.push(line.consume_to_string(self.bump));
+        sink.push(self.restore_passthrus(line.consume_to_string(self.bump)));
       }
     }
   }
diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index d1f3dac..5d757a8 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -20,6 +20,19 @@ impl<'arena> Parser<'arena> {
       }
       let kind = token.kind;
       match token.kind {
+        MacroName if token.lexeme == "pass:" && prev_kind == Some(Backslash) => {
+          replaced.push_nonpass(token);
+        }
+        Plus if prev_kind == Some(Backslash) => {
+          // all pluses of an escaped pass are just text
+          let count = line.iter().take_while(|t| t.kind(Plus)).count() + 1;
+          if count < 4
+            && let Some(n) = self.terminates_plus(count, line, lines)
+          {
+            skip_tokens = n + count;
+          }
+          replaced.push_nonpass(token);
+        }
         MacroName if token.lexeme == "pass:" => {
           if let Some((n, subs)) = self.terminates_valid_pass_macro(line, lines) {
             let placeholder = self.pass_placeholder(&token, 0, line, lines, n, subs)?;
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 5cbb5c0..af3bcad 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -24,6 +24,40 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  /// restore the text of passthrus replaced within source used as a string, not parsed as inlines
+  pub(crate) fn restore_passthrus(&self, mut src: SourceString<'arena>) -> SourceString<'arena> {
+    while let Some(escape) = src.src.find("\x1Bass:") {
+      src.src.replace_range(escape..=escape, "p");
+    }
+    if self.ctx.passthrus.is_empty() || !src.src.contains('^') {
+      return src;
+    }
+    let mut restored = BumpString::with_capacity_in(src.len(), self.bump);
+    let mut rest = src.src.as_str();
+    while let Some((before, after)) = rest.split_once('^') {
+      restored.push_str(before);
+      let digits = after
+        .get(..5)
+        .filter(|s| s.bytes().all(|b| b.is_ascii_digit()));
+      let index = digits.and_then(|digits| digits.parse::<usize>().ok());
+      match index.and_then(|i| self.ctx.passthrus.get(i)?.as_ref()) {
+        Some(content) => {
+          content
+            .plain_text()
+            .iter()
+            .for_each(|text| restored.push_str(text));
+          rest = &after[5..];
+        }
+        None => {
+          restored.push('^');
+          rest = after;
+        }
+      }
+    }
+    restored.push_str(rest);
+    SourceString::new(restored, src.loc)
+  }
+
   pub(crate) fn starts_constrained(
     &self,
     stop_tokens: &[TokenSpec],
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 34f92f4..c31585e 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -151,7 +151,7 @@ impl<'arena> Parser<'arena> {
             match token.lexeme.as_str() {
               "image:" => {
                 let is_uri = line.current_token().kind(UriScheme);
-                let target = line.consume_macro_target(self.bump);
+                let target = self.restore_passthrus(line.consume_macro_target(self.bump));
                 let attrs = self.parse_inline_macro_attr_list(&mut line)?;
                 let kind = self.parse_image_kind(&target, is_uri, &attrs, None)?;
                 finish_macro(&line, &mut macro_loc, line_end, &mut acc.text);
@@ -162,7 +162,9 @@ impl<'arena> Parser<'arena> {
                 acc.push_node(node, macro_loc);
               }
               "footnote:" => {
-                let id = line.consume_optional_macro_target(self.bump);
+                let id = line
+                  .consume_optional_macro_target(self.bump)
+                  .map(|id| self.restore_passthrus(id));
                 lines.restore_if_nonempty(line);
                 let restore = self.ctx.subs;
                 if let Some(attr_pass_subs) = self.ctx.attr_pass_subs {
@@ -187,7 +189,7 @@ impl<'arena> Parser<'arena> {
                 break;
               }
               "xref:" => {
-                let target = line.consume_macro_target(self.bump);
+                let target = self.restore_passthrus(line.consume_macro_target(self.bump));
                 self.push_xref(&target);
                 lines.restore_if_nonempty(line);
                 let nodes = self.parse_inlines_until(lines, &[Kind(CloseBracket)])?;
@@ -209,7 +211,7 @@ impl<'arena> Parser<'arena> {
                 break;
               }
               "mailto:" => {
-                let target = line.consume_macro_target(self.bump);
+                let target = self.restore_passthrus(line.consume_macro_target(self.bump));
                 let mut attrs = self.parse_inline_macro_attr_list(&mut line)?;
                 macro_loc.end = attrs.loc.end;
                 let linktext = attrs.take_positional(0);
@@ -236,12 +238,16 @@ impl<'arena> Parser<'arena> {
                 if !line.no_whitespace_until(OpenBracket) {
                   // turns out we didn't have a valid uri target here
                   acc.push_text_token(&token);
-                  let next_token = line.consume_current().unwrap();
-                  acc.push_text_token(&next_token);
+                  if !line.current_is(PreprocPassthru) {
+                    let next_token = line.consume_current().unwrap();
+                    acc.push_text_token(&next_token);
+                  }
                 } else {
                   let target = self
                     .macro_target_from_passthru(&mut line)
-                    .unwrap_or_else(|| line.consume_macro_target(self.bump));
+                    .unwrap_or_else(|| {
+                      self.restore_passthrus(line.consume_macro_target(self.bump))
+                    });
                   let line_has_caret = line.contains(Caret);
                   let mut attrs = self.parse_link_macro_attr_list(&mut line)?;
                   let mut caret = false;
@@ -262,22 +268,24 @@ impl<'arena> Parser<'arena> {
                 }
               }
               "icon:" => {
-                let target = line.consume_macro_target(self.bump);
+                let target = self.restore_passthrus(line.consume_macro_target(self.bump));
                 let attrs = self.parse_inline_macro_attr_list(&mut line)?;
                 finish_macro(&line, &mut macro_loc, line_end, &mut acc.text);
                 acc.push_node(Macro(Icon { target, attrs }), macro_loc);
               }
               "btn:" => {
                 line.discard_assert(OpenBracket);
-                let btn = line.consume_to_string_until(CloseBracket, self.bump);
+                let btn =
+                  self.restore_passthrus(line.consume_to_string_until(CloseBracket, self.bump));
                 line.discard_assert(CloseBracket);
                 finish_macro(&line, &mut macro_loc, line_end, &mut acc.text);
                 acc.push_node(Macro(Button(btn)), macro_loc);
               }
               "menu:" => {
-                let first = line.consume_macro_target(self.bump);
+                let first = self.restore_passthrus(line.consume_macro_target(self.bump));
                 let mut items = bvec![in self.bump; first];
-                let rest = line.consume_to_string_until(CloseBracket, self.bump);
+                let rest =
+                  self.restore_passthrus(line.consume_to_string_until(CloseBracket, self.bump));
 
                 let mut pos = rest.loc.start as usize;
                 rest.split('>').for_each(|substr| {
@@ -301,7 +309,7 @@ impl<'arena> Parser<'arena> {
                 acc.push_node(Macro(Menu(items)), macro_loc);
               }
               "anchor:" => {
-                let id = line.consume_macro_target(self.bump);
+                let id = self.restore_passthrus(line.consume_macro_target(self.bump));
                 let mut attrs = self.parse_inline_macro_attr_list(&mut line)?;
                 self.insert_anchor(
                   &id,
@@ -330,7 +338,7 @@ impl<'arena> Parser<'arena> {
                 source.push_str(&rest);
                 name.pop(); // trailing colon
                 let target = if !line.current_is(OpenBracket) {
-                  Some(line.consume_macro_target(self.bump))
+                  Some(self.restore_passthrus(line.consume_macro_target(self.bump)))
                 } else {
                   line.discard_assert(OpenBracket);
                   None
@@ -444,7 +452,7 @@ impl<'arena> Parser<'arena> {
             let mut loc = token.loc;
             line.discard_assert(LessThan);
             let mut inner = line.extract_line_before(&[Kind(GreaterThan), Kind(GreaterThan)]);
-            let target = inner.consume_to_string_until(Comma, self.bump);
+            let target = self.restore_passthrus(inner.consume_to_string_until(Comma, self.bump));
             self.push_xref(&target);
             let mut linktext = None;
             if !inner.is_empty() {
@@ -475,7 +483,11 @@ impl<'arena> Parser<'arena> {
             let scheme_token = line.consume_current().unwrap();
             let mut loc = scheme_token.loc;
             let line_end = line.last_loc().unwrap();
-            let target = line.consume_url(Some(&scheme_token), Some(GreaterThan), self.bump);
+            let target = self.restore_passthrus(line.consume_url(
+              Some(&scheme_token),
+              Some(GreaterThan),
+              self.bump,
+            ));
             if target.src == scheme_token.lexeme {
               // turns out we don't have a valid uri here, backtrack
               acc.pop_node();
@@ -921,7 +933,8 @@ impl<'arena> Parser<'arena> {
     let mut macro_loc = token.loc;
     let line_end = line.last_loc().unwrap();
     acc.commit();
-    let target = line.consume_url(Some(token), Some(OpenBracket), self.bump);
+    let target =
+      self.restore_passthrus(line.consume_url(Some(token), Some(OpenBracket), self.bump));
     line.discard_assert(OpenBracket);
     let line_has_caret = line.contains(Caret);
     let mut attrs = self.parse_link_macro_attr_list(line)?;
@@ -1069,7 +1082,7 @@ impl<'arena> Parser<'arena> {
         }
       }
     }
-    let keys_src = SourceString::new(keys_src_str, keys_src_loc);
+    let keys_src = self.restore_passthrus(SourceString::new(keys_src_str, keys_src_loc));
     line.discard_assert(CloseBracket);
     macro_loc.end = keys_src.loc.end + 1;
     let mut keys = BumpVec::new_in(self.bump);
-- 
2.43.0


From 1637bcdeb64aa0973a9d1dc47dde0595e7c16308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 054/118] fix: heading levels and level offsets can't overflow,
 level 0 sections are not numbered

---
 backend/src/html/backend.rs       |  2 +-
 parser/src/line.rs                | 10 ++++++++--
 parser/src/tasks/heading_level.rs | 14 ++++++++++----
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index e9e9086..86dd43e 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -504,7 +504,7 @@ pub trait HtmlBackend: HtmlBuf {
     let Some(sectnums) = self.doc_meta().get("sectnums") else {
       return false;
     };
-    if self.section_num_levels() < level as isize {
+    if level == 0 || self.section_num_levels() < level as isize {
       return false;
     }
     match sectnums {
diff --git a/parser/src/line.rs b/parser/src/line.rs
index df2abf7..ffb4cc5 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -229,13 +229,19 @@ impl<'arena> Line<'arena> {
 
   pub fn unadjusted_heading_level(&self) -> Option<u8> {
     if self.starts_with_seq(&[Kind(EqualSigns), Kind(Whitespace)]) && self.num_tokens() > 2 {
-      Some((self.current_token().unwrap().lexeme.len() - 1) as u8)
+      match self.current_token().unwrap().lexeme.len() {
+        len @ 1..=6 => Some((len - 1) as u8),
+        _ => None,
+      }
     } else if self.starts(Hash)
       && self.contains_seq(&[Kind(Hash), Kind(Whitespace)])
       && self.num_tokens() > 2
     {
       let num_hashes = self.tokens.iter().take_while(|t| t.kind == Hash).count();
-      if self.num_tokens() > num_hashes + 1 && self.nth_token(num_hashes).kind(Whitespace) {
+      if num_hashes <= 6
+        && self.num_tokens() > num_hashes + 1
+        && self.nth_token(num_hashes).kind(Whitespace)
+      {
         Some((num_hashes - 1) as u8)
       } else {
         None
diff --git a/parser/src/tasks/heading_level.rs b/parser/src/tasks/heading_level.rs
index 618257c..9806bb5 100644
--- a/parser/src/tasks/heading_level.rs
+++ b/parser/src/tasks/heading_level.rs
@@ -37,9 +37,9 @@ impl<'arena> Parser<'arena> {
     match value {
       AttrValue::String(s) => {
         if let Some(add) = s.strip_prefix('+') {
-          *leveloffset += add.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_add(add.parse::<i8>().unwrap_or(0));
         } else if let Some(sub) = s.strip_prefix('-') {
-          *leveloffset -= sub.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_sub(sub.parse::<i8>().unwrap_or(0));
         } else {
           *leveloffset = s.parse::<i8>().unwrap_or(*leveloffset);
         }
@@ -54,6 +54,12 @@ const fn adjusted_leveloffset(leveloffset: i8, heading_level: u8) -> u8 {
   if leveloffset == 0 {
     return heading_level;
   }
-  let new_level = (heading_level as i8) + leveloffset;
-  if new_level < 0 { 0 } else { new_level as u8 }
+  let new_level = (heading_level as i8).saturating_add(leveloffset);
+  if new_level < 0 {
+    0
+  } else if new_level > 5 {
+    5
+  } else {
+    new_level as u8
+  }
 }
-- 
2.43.0


From 9f4bb65e8b2701c069efccb1a98a9885415f53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 055/118] fix: menu macros without items, callout and appendix
 numbers out of range do not panic

---
 backend/src/html/backend.rs             | 7 ++++---
 dr-html-backend/src/asciidoctor_html.rs | 6 +++---
 parser/src/parse_context.rs             | 6 +++---
 parser/src/tasks/parse_list.rs          | 2 +-
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 86dd43e..147955c 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -449,9 +449,10 @@ pub trait HtmlBackend: HtmlBuf {
       self.push([&appendix_caption, " "]);
     }
 
-    let letter = (self.state().appendix_caption_num + b'A') as char;
+    let letter = b'A'.saturating_add(self.state().appendix_caption_num) as char;
     self.push_ch(letter);
-    self.state_mut().appendix_caption_num += 1;
+    let next_num = self.state().appendix_caption_num.saturating_add(1);
+    self.state_mut().appendix_caption_num = next_num;
 
     if self.doc_meta().is_false("appendix-caption") {
       self.push_str(". ");
@@ -561,7 +562,7 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn start_enter_ordered_list(&mut self, block: &Block, depth: u8) -> (&'static str, &'static str) {
-    let non_dd_depth = depth - self.state().desc_list_depth;
+    let non_dd_depth = depth.saturating_sub(self.state().desc_list_depth);
     self.state_mut().interactive_list_stack.push(false);
     let custom = block.meta.attrs.ordered_list_custom_number_style();
     let list_type = custom
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 5b68faa..3ae281c 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -712,7 +712,7 @@ impl Backend for AsciidoctorHtml {
     } else {
       self.push_str("<tr><td>");
       let n = item.marker.callout_num().unwrap_or(self.autogen_conum);
-      self.autogen_conum = n + 1;
+      self.autogen_conum = n.saturating_add(1);
       if self.doc_meta.icon_mode() == IconMode::Font {
         self.push_callout_number_font(n);
       } else {
@@ -1317,10 +1317,10 @@ impl Backend for AsciidoctorHtml {
     self.push_str(items.next().unwrap());
     self.push_str("</b>");
 
-    let last_idx = items.len() - 1;
+    let num_items = items.len();
     for (idx, item) in items.enumerate() {
       self.push_str(r#"&#160;<b class="caret">&#8250;</b><b class=""#);
-      if idx == last_idx {
+      if idx + 1 == num_items {
         self.push(["menuitem\">", item, "</b>"]);
       } else {
         self.push(["submenu\">", item, "</b>"]);
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 62ce1e6..890508c 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -149,8 +149,8 @@ impl<'arena> ParseContext<'arena> {
       } else {
         callouts.push(Callout {
           list_idx: last.list_idx,
-          callout_idx: last.callout_idx + 1,
-          number: num.unwrap_or(last.number + 1),
+          callout_idx: last.callout_idx.saturating_add(1),
+          number: num.unwrap_or(last.number.saturating_add(1)),
           is_xml_wrapped,
         });
       }
@@ -162,7 +162,7 @@ impl<'arena> ParseContext<'arena> {
     let last = { self.callouts.borrow().last().copied() };
     if let Some(last) = last {
       self.callouts = Rc::new(RefCell::new(
-        bvec![in bump; Callout::new(last.list_idx + 1, 0, 0, false)],
+        bvec![in bump; Callout::new(last.list_idx.saturating_add(1), 0, 0, false)],
       ));
     }
   }
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index c0cd681..656b417 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -98,7 +98,7 @@ impl<'arena> Parser<'arena> {
         )?;
       }
       type_meta = ListItemTypeMeta::Callout(callouts);
-      *autogen_conum = conum + 1;
+      *autogen_conum = conum.saturating_add(1);
     }
 
     let mut item_lines = Deq::with_capacity(1, self.bump);
-- 
2.43.0


From 16205b15e4885f6ccb209f52ef12331f46200ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 056/118] fix: only footnotes in pass macros of attribute
 values get the special treatment

---
 parser/src/tasks/parse_inlines/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c31585e..ab253be 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -173,10 +173,10 @@ impl<'arena> Parser<'arena> {
                 let note = self.parse_inlines_until(lines, &[Kind(CloseBracket)])?;
                 if self.ctx.attr_pass_subs.take().is_some() {
                   self.ctx.subs = restore;
-                  let close_bracket = lines
-                    .consume_current_token()
-                    .expect("attr ref pass macro end");
-                  assert!(close_bracket.kind == CloseBracket);
+                  // end of the attr ref pass macro
+                  if lines.current_token().kind(CloseBracket) {
+                    lines.consume_current_token();
+                  }
                 }
                 extend(&mut macro_loc, &note, 1);
                 let note = if note.is_empty() { None } else { Some(note) };
@@ -387,7 +387,12 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&token);
           }
 
-          AttrPassDbl => {
+          AttrPassDbl
+            if line
+              .index_of_kind(OpenBracket)
+              .and_then(|n| line.nth_token(n + 1))
+              .is_some_and(|t| t.kind(MacroName) && t.lexeme == "footnote:") =>
+          {
             let pass_subs = line.consume_to_string_until(OpenBracket, self.bump);
             line.discard_assert(OpenBracket);
             // inner footnote macro processing will take/remove this value
-- 
2.43.0


From ea3a577b304321c955292fbe471a6c404dfcc4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 057/118] fix: url schemes at the end of a line and trailing
 backslashes are text

---
 parser/src/tasks/parse_inlines/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index ab253be..eea866b 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -369,7 +369,11 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&next_token);
           }
 
-          UriScheme if subs.macros() && line.continues_inline_macro(&token) => {
+          UriScheme
+            if subs.macros()
+              && token.to_url_scheme().is_some()
+              && line.continues_inline_macro(&token) =>
+          {
             self.parse_uri_scheme_macro(&token, &mut line, &mut acc)?
           }
 
@@ -840,6 +844,13 @@ impl<'arena> Parser<'arena> {
           Backslash => {
             match line.current_token().map(|t| (t.kind, t.len())) {
               Some((Word, _)) | None => acc.push_text_token(&token),
+              // nothing follows that could be escaped
+              Some((Backslash, _)) if line.iter().all(|t| t.kind(Backslash)) => {
+                acc.push_text_token(&token);
+                while let Some(backslash) = line.consume_current() {
+                  acc.push_text_token(&backslash);
+                }
+              }
               Some((OpenParens, len))
                 if len > 2 && index_term::terminates(&line, lines).is_some() =>
               {
@@ -862,12 +873,13 @@ impl<'arena> Parser<'arena> {
           }
 
           _ if token.kind(UriScheme)
+            && token.to_url_scheme().is_some()
             && subs.macros()
             && self.ctx.inline_ctx != InlineCtx::LinkMacroAttrs =>
           {
             let mut loc = token.loc;
-            let line_end = line.last_loc().unwrap();
-            let target = line.consume_url(Some(&token), None, self.bump);
+            let line_end = line.last_loc().unwrap_or(loc);
+            let target = self.restore_passthrus(line.consume_url(Some(&token), None, self.bump));
             if target.src == token.lexeme {
               acc.push_text_token(&token);
             } else {
-- 
2.43.0


From cc65fc8a1b9f334662146f103de01eebaa829a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 058/118] fix: inline macros without target need an opening
 bracket

---
 parser/src/line.rs                               | 12 +++++++++++-
 parser/src/tasks/parse_inlines/inline_preproc.rs |  6 +++++-
 parser/src/tasks/parse_inlines/mod.rs            |  6 +++---
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index ffb4cc5..de05405 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -47,7 +47,9 @@ impl<'arena> Line<'arena> {
     } else if self.pass_macro || self.pass_pluses > 1 {
       true
     } else {
-      let last = self.last().unwrap();
+      let Some(last) = self.last() else {
+        return false;
+      };
       if last.is_kind_len(Plus, 1) && self.len() > 1 {
         // NB: line ending ` +` is a hardbreak, cannot be pass
         !self.nth_token(self.len() - 2).is_whitespaceish()
@@ -476,6 +478,14 @@ impl<'arena> Line<'arena> {
     if self.current_is(Whitespace) {
       return false;
     }
+    // these macros never take a target
+    if matches!(
+      prev.lexeme.as_str(),
+      "btn:" | "kbd:" | "indexterm:" | "indexterm2:"
+    ) && !self.current_is(OpenBracket)
+    {
+      return false;
+    }
     let Some(open_idx) = self.index_of_kind(OpenBracket) else {
       return false;
     };
diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index 5d757a8..2d00504 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -79,7 +79,8 @@ impl<'arena> Parser<'arena> {
       line.discard(plus_count - 1);
     }
     let extend = if start_token.kind == Plus { plus_count as u32 } else { 1 };
-    loc.end = passlines.last_loc().unwrap().end + extend;
+    let pass_end = passlines.last_loc().map_or(loc.end + 1, |loc| loc.end);
+    loc.end = pass_end + extend;
     let restore_subs = self.ctx.subs;
     self.ctx.subs = subs;
     let nodes = self.parse_inlines(&mut passlines)?;
@@ -147,6 +148,9 @@ impl<'arena> Parser<'arena> {
         _ => return None,
       }
     }
+    if num_target_tokens == line.num_tokens() {
+      return None;
+    }
 
     let mut n = 1;
     let mut last = OpenBracket;
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index eea866b..25dea8f 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -21,11 +21,11 @@ impl<'arena> Parser<'arena> {
     stop_tokens: &[TokenSpec],
   ) -> Result<InlineNodes<'arena>> {
     let inlines = BumpVec::new_in(self.bump).into();
-    if lines.is_empty() {
+    let Some(first_loc) = lines.iter().find_map(|line| line.first_loc()) else {
       return Ok(inlines);
-    }
+    };
 
-    let span_loc = lines.first_loc().unwrap().clamp_start();
+    let span_loc = first_loc.clamp_start();
     let text = CollectText::new_in(span_loc, self.bump);
     let subs = self.ctx.subs;
     let mut acc = Accum::new(inlines, text);
-- 
2.43.0


From b28c833185926805c664c52a2d6df14380179550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 059/118] fix: unbalanced brackets of link macro attributes,
 unclosed anchors and empty formatted text attributes do not panic

---
 parser/src/tasks/parse_attr_list.rs   | 47 ++++++++++++++++++++-------
 parser/src/tasks/parse_inlines/mod.rs |  4 ++-
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 20a52e0..868d59b 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -66,8 +66,16 @@ impl<'arena> Parser<'arena> {
     ) {
       return Ok(None);
     }
-    let start = current.loc.start - 2;
-    let id = line.consume_to_string_until_one_of(&[Kind(Comma), Kind(CloseBracket)], self.bump);
+    let mut after_close = line.iter().skip_while(|t| t.kind != CloseBracket).skip(1);
+    let is_closed = is_entire_line || after_close.next().is_some_and(|t| t.kind == CloseBracket);
+    drop(after_close);
+    if !is_closed {
+      return Ok(None);
+    }
+    let start = current.loc.start.saturating_sub(2);
+    let id = self.restore_passthrus(
+      line.consume_to_string_until_one_of(&[Kind(Comma), Kind(CloseBracket)], self.bump),
+    );
     assert!(!id.is_empty());
     let mut anchor = AnchorSrc {
       loc: SourceLocation::new(start, id.loc.end, id.loc.include_depth),
@@ -113,7 +121,8 @@ impl<'arena> Parser<'arena> {
     let mut parse_as_attr_list = false;
     let mut in_nested_attr_list = false;
     let mut num_tokens = 0;
-    for token in line.iter().take(line.len() - 1) {
+    let mut found_close_bracket = false;
+    for token in line.iter() {
       num_tokens += 1;
       match (last_kind, token.kind) {
         (Backslash, CloseBracket) if in_nested_attr_list => in_nested_attr_list = false,
@@ -123,6 +132,7 @@ impl<'arena> Parser<'arena> {
         (_, CloseBracket) if in_nested_attr_list => in_nested_attr_list = false,
         (_, CloseBracket) => {
           num_tokens -= 1;
+          found_close_bracket = true;
           break;
         }
         (_, EqualSigns) if token.len() == 1 && !in_double_quote => {
@@ -134,6 +144,15 @@ impl<'arena> Parser<'arena> {
       last_kind = token.kind;
     }
 
+    // the brackets are not balanced
+    if !parse_as_attr_list && !found_close_bracket {
+      num_tokens = if line.ends_with_nonescaped(CloseBracket) {
+        line.len() - 1
+      } else {
+        line.first_nonescaped(CloseBracket).map_or(0, |(_, n)| n)
+      };
+    }
+
     if parse_as_attr_list {
       self.ctx.inline_ctx = InlineCtx::LinkMacroAttrs;
       let result = self._parse_attr_list(line, false, false, false);
@@ -228,25 +247,24 @@ impl<'arena> Parser<'arena> {
       AttrIr::Positional(inner, _) if formatted_text && !attr_list.roles.is_empty() => {
         self.err_at(
           ONLY_SHORTHAND_ERR,
-          SourceLocation::spanning(inner.first().unwrap().loc, inner.last().unwrap().loc),
+          spanning_loc(&inner).unwrap_or(attr_list.loc),
         )?;
         return Ok(());
       }
       AttrIr::Id(inner) if formatted_text => {
         self.err_at(
           ONLY_SHORTHAND_ERR,
-          SourceLocation::spanning(inner.first().unwrap().loc, inner.last().unwrap().loc),
+          spanning_loc(&inner).unwrap_or(attr_list.loc),
         )?;
         return Ok(());
       }
       AttrIr::Options(groups) | AttrIr::Roles(groups) if formatted_text => {
-        self.err_at(
-          ONLY_SHORTHAND_ERR,
-          SourceLocation::spanning(
-            groups.first().unwrap().first().unwrap().loc,
-            groups.last().unwrap().last().unwrap().loc,
-          ),
-        )?;
+        let loc = groups
+          .first()
+          .and_then(|first| first.first())
+          .zip(groups.last().and_then(|last| last.last()))
+          .map(|(first, last)| SourceLocation::spanning(first.loc, last.loc));
+        self.err_at(ONLY_SHORTHAND_ERR, loc.unwrap_or(attr_list.loc))?;
         return Ok(());
       }
       AttrIr::Named(name, tokens) if formatted_text => {
@@ -580,6 +598,11 @@ impl<'a> DeqTokenExt<'a> for Deq<'a, Token<'a>> {
   }
 }
 
+fn spanning_loc(tokens: &Deq<Token>) -> Option<SourceLocation> {
+  let (first, last) = tokens.first().zip(tokens.last())?;
+  Some(SourceLocation::spanning(first.loc, last.loc))
+}
+
 const ONLY_SHORTHAND_ERR: &str = "Formatted text only supports single role or attribute shorthand";
 
 #[cfg(test)]
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 25dea8f..e76af17 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -595,7 +595,9 @@ impl<'arena> Parser<'arena> {
                 &anchor.id,
                 self.anchor_from(anchor.reftext, Some(anchor.id.loc), true),
               )?;
-              anchor.loc.extend(line.consume_current().unwrap().loc);
+              if let Some(third_close) = line.consume_if(CloseBracket) {
+                anchor.loc.extend(third_close.loc);
+              }
               acc.push_node(BiblioAnchor(anchor.id.src), anchor.loc);
             } else {
               acc.push_text_token(&second_bracket);
-- 
2.43.0


From bca046fbd29dcf8672f38ecf64bd5a3602b55695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:07 +0000
Subject: [PATCH 060/118] fix: parse the blocks of a markdown blockquote from
 its lines only

---
 parser/src/parser.rs            | 21 ++++++++++++++-
 parser/src/tasks/parse_block.rs | 46 +++++++++++++++++++++------------
 2 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 4703d10..f0879b4 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -8,6 +8,8 @@ pub struct Parser<'arena> {
   pub(super) lexer: Lexer<'arena>,
   pub(super) document: Document<'arena>,
   pub(super) peeked_lines: Option<ContiguousLines<'arena>>,
+  /// lines of the markdown blockquote being parsed, not yet read
+  pub(super) markdown_blockquote_lines: Option<Deq<'arena, Line<'arena>>>,
   pub(super) peeked_meta: Option<ChunkMeta<'arena>>,
   pub(super) ctx: ParseContext<'arena>,
   pub(super) errors: RefCell<Vec<Diagnostic>>,
@@ -31,6 +33,7 @@ impl<'arena> Parser<'arena> {
       bump: lexer.bump,
       document: Document::new(lexer.bump),
       peeked_lines: None,
+      markdown_blockquote_lines: None,
       peeked_meta: None,
       ctx: ParseContext::new(lexer.bump),
       errors: RefCell::new(Vec::new()),
@@ -116,6 +119,9 @@ impl<'arena> Parser<'arena> {
   /// (i.e. following a processed directive) is left unconsumed, and `None` is returned
   fn _read_line(&mut self, stop_before_empty: bool) -> Result<Option<Line<'arena>>> {
     assert!(self.peeked_lines.is_none());
+    if let Some(lines) = &mut self.markdown_blockquote_lines {
+      return Ok(lines.pop_front());
+    }
     use TokenKind::*;
     let mut first_line = true;
     loop {
@@ -167,6 +173,17 @@ impl<'arena> Parser<'arena> {
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
     }
+    if let Some(quoted) = &mut self.markdown_blockquote_lines {
+      let mut lines = Deq::new(self.bump);
+      while let Some(line) = quoted.pop_front() {
+        if !line.is_emptyish() {
+          lines.push(line);
+        } else if !lines.is_empty() {
+          break;
+        }
+      }
+      return Ok((!lines.is_empty()).then(|| ContiguousLines::new(lines)));
+    }
     self.lexer.consume_empty_lines();
     if self.lexer.is_eof() {
       return Ok(None);
@@ -226,7 +243,9 @@ impl<'arena> Parser<'arena> {
 
     let mut closing_line = None;
     let mut additional_lines = BumpVec::new_in(self.bump);
-    while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
+    while self.markdown_blockquote_lines.is_some()
+      || (!self.lexer.is_eof() && !self.at_delimiter(delimiter))
+    {
       // NB: reading a line can process directives, leaving us at the document's end
       // or at the (included) delimiter
       let Some(line) = self.read_line()? else {
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 2eb4c47..a7ab94a 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -23,6 +23,7 @@ impl<'arena> Parser<'arena> {
     }
 
     match self.section_start_level(&lines, &meta) {
+      Some(_) if self.ctx.in_markdown_blockquote => {}
       Some(0 | 1) if self.ctx.delimiter.is_some() => {}
       // skip doc title and top-level sections
       Some(0 | 1) => {
@@ -243,8 +244,7 @@ impl<'arena> Parser<'arena> {
     meta: ChunkMeta<'arena>,
   ) -> Result<Option<Block<'arena>>> {
     let mut loc = MultiSourceLocation::from(lines.current_token().unwrap().loc);
-    let mut paras = BumpVec::new_in(self.bump);
-    let mut current = ContiguousLines::new(Deq::new(self.bump));
+    let mut quoted = Deq::with_capacity(lines.len(), self.bump);
     while let Some(mut line) = lines.consume_current() {
       if line.starts(GreaterThan) {
         line.remove_first_token();
@@ -252,30 +252,42 @@ impl<'arena> Parser<'arena> {
           line.remove_first_token();
         }
       }
-      if line.is_empty() {
-        if !current.is_empty() {
-          paras.push(current);
-          current = ContiguousLines::new(Deq::new(self.bump));
-        }
-      } else {
-        current.push(line);
-      }
-    }
-    if !current.is_empty() {
-      paras.push(current);
+      quoted.push(line);
     }
 
-    self.ctx.in_markdown_blockquote = true;
     assert!(self.peeked_lines.is_none());
+    let prev_lines = self.markdown_blockquote_lines.replace(quoted);
+    let prev_in_blockquote = std::mem::replace(&mut self.ctx.in_markdown_blockquote, true);
+    let prev_delimiter = self.ctx.delimiter.take();
+    let prev_list = std::mem::take(&mut self.ctx.list);
     let mut blocks = BumpVec::new_in(self.bump);
-    for para in paras.into_iter() {
-      self.restore_lines(para);
+    loop {
       if let Some(block) = self.parse_block()? {
         loc.extend_end(&block.loc);
         blocks.push(block);
+      } else if self.peeked_lines.is_some() {
+        // not the start of a block in this context
+        let lines = self.peeked_lines.take().unwrap();
+        let meta = match self.peeked_meta.take() {
+          Some(meta) => meta,
+          None => ChunkMeta::empty(lines.first_loc().unwrap(), self.bump),
+        };
+        if let Some(block) = self.parse_paragraph(lines, meta)? {
+          loc.extend_end(&block.loc);
+          blocks.push(block);
+        }
+      } else if self
+        .markdown_blockquote_lines
+        .as_ref()
+        .is_none_or(Deq::is_empty)
+      {
+        break;
       }
     }
-    self.ctx.in_markdown_blockquote = false;
+    self.ctx.delimiter = prev_delimiter;
+    self.ctx.list = prev_list;
+    self.ctx.in_markdown_blockquote = prev_in_blockquote;
+    self.markdown_blockquote_lines = prev_lines;
 
     if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
       return Ok(Some(blocks.pop().unwrap()));
-- 
2.43.0


From 558c9792d3dbc7141bfdd4fde5ff651dc7d322ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 061/118] fix: locate newlines in tables and references in
 AsciiDoc cells in the file they are from

---
 parser/src/tasks/table/parse_table.rs | 78 ++++++++++++++++++++++-----
 1 file changed, 64 insertions(+), 14 deletions(-)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 6e2d121..81ddc0b 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::ops::Range;
 
 use bumpalo::collections::CollectIn;
@@ -221,8 +221,14 @@ impl<'arena> Parser<'arena> {
       cell_tokens.escape_processed_directives();
       let source_file = self.lexer.source_file_at(source_idx).clone();
       let line_locs = cell_tokens.line_locs();
-      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), source_idx, loc.start);
-      return match cell_parser.parse() {
+      let cell_src = cell_tokens.into_bytes();
+      let line_starts = line_starts(&cell_src, loc.start);
+      let outer_xrefs = std::mem::take(&mut *self.ctx.xrefs.borrow_mut());
+      let cell_parser = self.cell_parser(cell_src, source_idx, loc.start);
+      let result = cell_parser.parse();
+      let cell_xrefs = std::mem::replace(&mut *self.ctx.xrefs.borrow_mut(), outer_xrefs);
+      self.adopt_cell_xrefs(cell_xrefs, &line_starts, &line_locs);
+      return match result {
         Ok(ParseResult {
           document,
           mut warnings,
@@ -233,7 +239,9 @@ impl<'arena> Parser<'arena> {
         }) => {
           self.ctx.attr_defs.extend(attr_defs);
           if !warnings.is_empty() {
-            self.lexer.reline_diagnostics(&source_file, &line_locs, &mut warnings);
+            self
+              .lexer
+              .reline_diagnostics(&source_file, &line_locs, &mut warnings);
             self.errors.borrow_mut().extend(warnings);
           }
 
@@ -247,7 +255,9 @@ impl<'arena> Parser<'arena> {
           Ok(Some((cell, repeat)))
         }
         Err(mut diagnostics) => {
-          self.lexer.reline_diagnostics(&source_file, &line_locs, &mut diagnostics);
+          self
+            .lexer
+            .reline_diagnostics(&source_file, &line_locs, &mut diagnostics);
           if !diagnostics.is_empty() && self.strict {
             Err(diagnostics.remove(0))
           } else {
@@ -357,6 +367,38 @@ impl<'arena> Parser<'arena> {
     paras
   }
 
+  // xrefs are located by the lexer of the cell, but diagnosed by ours, when the document ends
+  fn adopt_cell_xrefs(
+    &self,
+    cell_xrefs: HashMap<BumpString<'arena>, SourceLocation>,
+    line_starts: &[u32],
+    line_locs: &[SourceLocation],
+  ) {
+    let mut xrefs = self.ctx.xrefs.borrow_mut();
+    for (target, mut loc) in cell_xrefs {
+      let line_idx = match loc.include_depth {
+        0 => line_starts
+          .partition_point(|start| *start <= loc.start)
+          .saturating_sub(1),
+        _ => 0, // in a file included by the cell
+      };
+      if let Some(line_loc) = line_locs.get(line_idx).or(line_locs.last()) {
+        let column = match loc.include_depth {
+          0 => loc.start.saturating_sub(line_starts[line_idx]),
+          _ => 0,
+        };
+        let (_, line_col) = self.lexer.line_number_with_offset(*line_loc);
+        let line_len = self.lexer.line_of(*line_loc).len() as u32;
+        let max_column = line_len.saturating_sub(line_col);
+        let size = loc.size();
+        loc = line_loc.clamp_start();
+        loc.start += column.min(max_column);
+        loc.end = loc.start + size;
+      }
+      xrefs.insert(target, loc);
+    }
+  }
+
   fn table_content(
     &mut self,
     mut lines: ContiguousLines<'arena>,
@@ -364,7 +406,7 @@ impl<'arena> Parser<'arena> {
   ) -> Result<(TableTokens<'arena>, SourceLocation)> {
     let mut tokens = Deq::with_capacity(lines.num_tokens(), self.bump);
     let delim_loc = start_delim.last_loc().unwrap();
-    let mut end = delim_loc.end + 1;
+    let mut end = delim_loc.clamp_end().incr();
     while let Some(line) = lines.consume_current() {
       // TODO(perf): src_eq is O(n), see if we can refactor
       if line.src_eq(start_delim) {
@@ -375,12 +417,12 @@ impl<'arena> Parser<'arena> {
         continue;
       }
       if let Some(loc) = line.last_loc() {
-        end = loc.end;
+        end = loc.clamp_end();
       }
       line.drain_into(&mut tokens);
       if !lines.is_empty() {
-        tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
-        end += 1;
+        tokens.push(newline_token(end.incr_end(), self.bump));
+        end = end.incr();
       }
     }
     while let Some(next_line) = self.read_line()? {
@@ -388,15 +430,15 @@ impl<'arena> Parser<'arena> {
         continue;
       }
       if !tokens.is_empty() {
-        tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
-        end += 1;
+        tokens.push(newline_token(end.incr_end(), self.bump));
+        end = end.incr();
       }
       // TODO(perf): src_eq is O(n), see if we can refactor
       if next_line.src_eq(start_delim) {
         return Ok((TableTokens::new(tokens), next_line.last_loc().unwrap()));
       }
       if let Some(loc) = next_line.last_loc() {
-        end = loc.end;
+        end = loc.clamp_end();
       }
       next_line.drain_into(&mut tokens);
     }
@@ -405,11 +447,19 @@ impl<'arena> Parser<'arena> {
   }
 }
 
-fn newline_token(start: u32, depth: u16, bump: &Bump) -> Token<'_> {
+/// the positions at which the lines of an AsciiDoc cell's source start, for its own lexer
+fn line_starts(src: &[u8], offset: u32) -> SmallVec<[u32; 16]> {
+  let newlines = src.iter().enumerate().filter(|(_, byte)| **byte == b'\n');
+  let mut starts = SmallVec::from_slice(&[offset]);
+  starts.extend(newlines.map(|(idx, _)| offset + idx as u32 + 1));
+  starts
+}
+
+fn newline_token(loc: SourceLocation, bump: &Bump) -> Token<'_> {
   Token {
     kind: TokenKind::Newline,
     lexeme: BumpString::from_str_in("\n", bump),
-    loc: SourceLocation::new(start, start + 1, depth),
+    loc,
     attr_replacement: false,
   }
 }
-- 
2.43.0


From a641a6a41aa5e8e53faac6b6c01ea3e9e33ed783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 062/118] fix: attribute entries ending in a backslash at the
 end of a document do not panic, CRLF continues them

---
 parser/src/tasks/parse_doc_attrs.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index c5794ac..3083696 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -103,7 +103,12 @@ impl<'arena> Parser<'arena> {
           attr_def_string.push('\n');
         }
 
-        if self.lexer.byte_at(pos + 1, depth) == Some(b'\r') {
+        // there is no next line to continue with
+        if self.lexer.byte_at(pos, depth).is_none() {
+          break;
+        }
+
+        if self.lexer.byte_at(pos, depth) == Some(b'\r') {
           pos += 2;
         } else {
           pos += 1;
-- 
2.43.0


From bf061951ef6a320b9029f478dd77c190be4d4bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 063/118] fix: inline doctype documents with includes and
 titled blocks do not panic

---
 backend-html5s/src/html5s.rs            | 1 +
 dr-html-backend/src/asciidoctor_html.rs | 4 ++++
 parser/src/lexer/root_lexer.rs          | 3 ++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 45bf5a4..42682e1 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -659,6 +659,7 @@ impl Backend for Html5s {
 
   fn enter_paragraph_block(&mut self, block: &Block) {
     if self.doc_meta.get_doctype() == DocType::Inline {
+      self.discard_alt_buffer();
       return;
     }
     if block.has_title() {
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 3ae281c..ab2bef9 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -746,8 +746,12 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn enter_paragraph_block(&mut self, block: &Block) {
     if self.doc_meta.get_doctype() == DocType::Inline {
+      self.discard_alt_buffer();
       return;
     }
+    if block.has_title() {
+      self.state.ephemeral.remove(&VisitingSimpleTermDescription);
+    }
     if !self
       .state
       .ephemeral
diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index edc2f85..6395fac 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -359,7 +359,8 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn truncate(&mut self) {
-    self.sources[self.idx as usize].truncate();
+    // NB: lines following an include are in a different source
+    self.sources.iter_mut().for_each(SourceLexer::truncate);
   }
 
   pub fn include_depth(&self) -> u16 {
-- 
2.43.0


From ce8c906904ae5dcee07ce8826f03a250937cd33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:11 +0000
Subject: [PATCH 064/118] fix: source locations do not span files

---
 ast/src/source_location.rs                    | 38 ++++++++++++++-----
 parser/src/lexer/source_lexer.rs              |  8 ++--
 parser/src/tasks/parse_inlines/index_term.rs  | 12 +++---
 .../src/tasks/parse_inlines/inline_utils.rs   |  3 +-
 4 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/ast/src/source_location.rs b/ast/src/source_location.rs
index dfbc0b3..b4d6b9e 100644
--- a/ast/src/source_location.rs
+++ b/ast/src/source_location.rs
@@ -13,18 +13,24 @@ impl SourceLocation {
     Self { start, end, include_depth }
   }
 
+  /// NB: a location can't span sources (i.e. text continued after the end of an
+  /// included file), in which case it is limited to the part in the first of them
   pub fn spanning(start: Self, end: Self) -> Self {
-    debug_assert!(start.start <= end.start);
-    debug_assert!(start.end <= end.end);
-    debug_assert!(start.include_depth == end.include_depth);
+    if start.include_depth != end.include_depth {
+      return start;
+    }
+    // NB: substituted text (i.e. attribute values) is located where it was referenced
     Self {
-      start: start.start,
-      end: end.end,
+      start: start.start.min(end.start),
+      end: start.end.max(end.end),
       include_depth: start.include_depth,
     }
   }
 
   pub fn extend(&mut self, other: SourceLocation) {
+    if self.include_depth != other.include_depth {
+      return;
+    }
     self.start = self.start.min(other.start);
     self.end = self.end.max(other.end);
   }
@@ -34,7 +40,11 @@ impl SourceLocation {
   }
 
   pub fn subtracting_from_start(&self, subtracting: u32) -> SourceLocation {
-    Self::new(self.start - subtracting, self.end, self.include_depth)
+    Self::new(
+      self.start.saturating_sub(subtracting),
+      self.end,
+      self.include_depth,
+    )
   }
 
   pub fn setting_end(&self, end: u32) -> SourceLocation {
@@ -53,7 +63,11 @@ impl SourceLocation {
 
   #[must_use]
   pub fn decr_end(&self) -> SourceLocation {
-    Self::new(self.start, self.end - 1, self.include_depth)
+    Self::new(
+      self.start,
+      self.end.saturating_sub(1).max(self.start),
+      self.include_depth,
+    )
   }
 
   #[must_use]
@@ -63,7 +77,7 @@ impl SourceLocation {
 
   #[must_use]
   pub fn decr_start(&self) -> SourceLocation {
-    Self::new(self.start - 1, self.end, self.include_depth)
+    Self::new(self.start.saturating_sub(1), self.end, self.include_depth)
   }
 
   #[must_use]
@@ -78,7 +92,11 @@ impl SourceLocation {
 
   #[must_use]
   pub fn decr(&self) -> SourceLocation {
-    Self::new(self.start - 1, self.end - 1, self.include_depth)
+    Self::new(
+      self.start.saturating_sub(1),
+      self.end.saturating_sub(1),
+      self.include_depth,
+    )
   }
 
   #[must_use]
@@ -88,7 +106,7 @@ impl SourceLocation {
 
   #[must_use]
   pub const fn size(&self) -> u32 {
-    self.end - self.start
+    self.end.saturating_sub(self.start)
   }
 
   #[must_use]
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 2198bdc..df6a3a1 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -123,9 +123,11 @@ impl<'arena> SourceLexer<'arena> {
   }
 
   pub fn str_from_loc(&self, loc: SourceLocation) -> &str {
-    let start = (loc.start - self.offset) as usize;
-    let end = (loc.end - self.offset) as usize;
-    std::str::from_utf8(&self.src[start..end]).unwrap()
+    let start = loc.start.saturating_sub(self.offset) as usize;
+    let end = loc.end.saturating_sub(self.offset) as usize;
+    // NB: the location might span tokens from different sources
+    let bytes = self.src.get(start..end).unwrap_or_default();
+    std::str::from_utf8(bytes).unwrap_or_default()
   }
 
   pub fn codepoint(&mut self, n: u32, kind: TokenKind) -> Token<'arena> {
diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index 8622cc9..8ab9191 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -85,18 +85,20 @@ impl<'arena> Parser<'arena> {
     }
     let mut term = self.parse_inlines_until(lines, &[Len(end_len as u8, CloseParens)])?;
     term.trim_trailing_whitespace();
-    node_loc.end = term.loc().map(|ml| ml.end_pos).unwrap_or(node_loc.end);
+    if let Some(term_end) = term.last_loc() {
+      node_loc.extend(term_end);
+    }
 
     if end_len > 2 {
       let mut trailing_parens_loc = node_loc.clamp_end();
       trailing_parens_loc.end += (end_len - 2) as u32;
-      let trailing_parens = self.lexer.src_string_from_loc(trailing_parens_loc);
+      let trailing_parens = self.string(&")".repeat(end_len - 2));
       if let Some(InlineNode { content: Inline::Text(txt), loc }) = term.last_mut() {
-        txt.push_str(&trailing_parens.src);
+        txt.push_str(&trailing_parens);
         loc.extend(trailing_parens_loc);
       } else {
         term.push(InlineNode {
-          content: Inline::Text(trailing_parens.src),
+          content: Inline::Text(trailing_parens),
           loc: trailing_parens_loc,
         });
       }
@@ -132,7 +134,7 @@ impl<'arena> Parser<'arena> {
 
     let close_parens = lines.consume_current_token().unwrap();
     debug_assert!(close_parens.kind == CloseParens);
-    let loc = open_parens_token.loc.setting_end(close_parens.loc.end);
+    let loc = SourceLocation::spanning(open_parens_token.loc, close_parens.loc);
 
     if close_parens.len() > 3 {
       let mut put_back = close_parens.clone();
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index af3bcad..1b36aae 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -161,7 +161,8 @@ impl<'arena> Accum<'arena> {
         } else if self.inlines.last_is(&Inline::Newline) {
           self.inlines.pop();
           newline = AdjacentNewline::Leading;
-          loc.start -= 1;
+          // NB: the newline might be in another source
+          loc.start = loc.start.saturating_sub(1);
         }
         self.push_node(
           Inline::SpacedDashes(token.len() as u8, newline),
-- 
2.43.0


From 47d1a5351bd4f3c485c281378778dc161594e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 065/118] fix: escaped index terms and quoted csv cells
 starting with a separator do not panic

---
 parser/src/tasks/parse_inlines/index_term.rs | 6 +++++-
 parser/src/tasks/table/mod.rs                | 8 +++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index 8ab9191..a2ad440 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -181,7 +181,11 @@ impl<'arena> Parser<'arena> {
     parens.lexeme.pop();
     acc.push_node(Inline::Discarded, token.loc);
     acc.push_text_token(&single_paren);
-    let end_len = terminates(&line, lines).unwrap();
+    let Some(end_len) = terminates(&line, lines) else {
+      acc.push_text_token(&parens);
+      lines.restore_if_nonempty(line);
+      return Ok(());
+    };
     let (node, loc) = self.parse_index_term_shorthand(end_len, &parens, line, lines, acc)?;
     acc.push_node(node, loc);
     Ok(())
diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index a1508d2..2c1e023 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -107,9 +107,11 @@ impl<'arena> TableTokens<'arena> {
 
     let token = self.current().unwrap();
     if token.lexeme.contains(sep) {
-      let (before, _) = token.lexeme.split_once(sep).unwrap();
-      // NB: caller must check that lexeme doesn't START with sep
-      debug_assert!(!before.is_empty());
+      let (mut before, _) = token.lexeme.split_once(sep).unwrap();
+      // NB: a separator that doesn't delimit a cell (i.e. within quotes) is just text
+      if before.is_empty() {
+        before = &token.lexeme[..sep.len_utf8()];
+      }
       let lexeme = BumpString::from_str_in(before, self.0.bump_arena());
       let loc = token.loc;
       let before_len = before.len() as u32;
-- 
2.43.0


From fa29c6ed136bf68cbdbc95aea7245bf0e8972b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:13 +0000
Subject: [PATCH 066/118] fix: only a complete closing line ends a code fence
 or verbatim block

---
 parser/src/line.rs                    | 3 ++-
 parser/src/parser.rs                  | 7 ++-----
 parser/src/tasks/parse_block.rs       | 6 +++---
 parser/src/tasks/parse_inlines/mod.rs | 5 +----
 4 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index de05405..341c31c 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -300,7 +300,8 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn is_delimiter(&self, delimiter: Delimiter) -> bool {
-    self.num_tokens() == 1 && self.current_token().unwrap().to_delimiter() == Some(delimiter)
+    self.num_tokens_before_trailing_whitespace() == 1
+      && self.current_token().unwrap().to_delimiter() == Some(delimiter)
   }
 
   pub fn is_delimiter_kind(&self, delimiter_kind: DelimiterKind) -> bool {
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index f0879b4..15206e2 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -277,11 +277,8 @@ impl<'arena> Parser<'arena> {
       DelimiterKind::Open => self.lexer.at_delimiter_line() == Some((2, b'-')),
       DelimiterKind::Sidebar => self.lexer.at_delimiter_line() == Some((4, b'*')),
       DelimiterKind::Listing => {
-        if delimiter.len == 3 {
-          self.lexer.at_delimiter_line() == Some((3, b'`'))
-        } else {
-          self.lexer.at_delimiter_line() == Some((4, b'-'))
-        }
+        // NB: can't tell a closing code fence from a line like "```foo" here
+        delimiter.len == 4 && self.lexer.at_delimiter_line() == Some((4, b'-'))
       }
       DelimiterKind::Literal => self.lexer.at_delimiter_line() == Some((4, b'.')),
       DelimiterKind::Passthrough => self.lexer.at_delimiter_line() == Some((4, b'+')),
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index a7ab94a..d5abd81 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -311,10 +311,10 @@ impl<'arena> Parser<'arena> {
     let delimiter = open_token.to_delimiter().unwrap();
 
     // markdown fenced code block with language specifier
+    while delim_line.current_is(Whitespace) {
+      delim_line.discard(1);
+    }
     if !delim_line.is_empty() && delimiter.len == 3 && delimiter.kind == DelimiterKind::Listing {
-      while delim_line.current_is(Whitespace) {
-        delim_line.discard(1);
-      }
       let lang =
         delim_line.consume_to_string_until_one_of(&[Kind(Comma), Kind(Whitespace)], self.bump);
       let mut attr_list = AttrList::new(lang.loc, self.bump);
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index e76af17..281581c 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1046,10 +1046,7 @@ impl<'arena> Parser<'arena> {
 
     // special case: ending verbatim delimited block, non-matching delimiters
     // within the verbatim block are rendered as is
-    || (
-      self.ctx.delimiter.is_some()
-      && self.ctx.delimiter == line.current_token().and_then(|t| t.to_delimiter())
-    )
+    || self.ctx.delimiter.is_some_and(|delimiter| line.is_delimiter(delimiter))
   }
 
   fn recover_custom_line_comment(&mut self, state: &mut Accum<'arena>) {
-- 
2.43.0


From 6a929d0002dff0ab420b9a6df69b2af11f0c5457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 067/118] fix: paragraphs without visible content and invalid
 block anchors do not end the document

---
 parser/src/line.rs              |  5 ++++-
 parser/src/parser.rs            |  2 +-
 parser/src/tasks/parse_block.rs | 14 ++++++++++----
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 341c31c..cd12927 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -278,10 +278,13 @@ impl<'arena> Line<'arena> {
       && self.starts(OpenBracket)
       && self.ends_with_nonescaped(CloseBracket)
       && !self.peek_token().kind(OpenBracket)
+      // NB: text of a paragraph, once its inline passthrus are replaced
+      && !self.iter().any(|token| token.kind == PreprocPassthru)
   }
 
   pub fn is_block_anchor(&self) -> bool {
-    self.starts_with_seq(&[Kind(OpenBracket); 2])
+    self.is_fully_unconsumed()
+      && self.starts_with_seq(&[Kind(OpenBracket); 2])
       && self.num_tokens() > 4
       && !matches!(
         self.nth_token(2).unwrap().kind,
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 15206e2..ab2b351 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -380,7 +380,7 @@ impl<'arena> Parser<'arena> {
           line.discard_assert(TokenKind::OpenBracket);
           let Some(anchor) = self.parse_block_anchor(&mut line)? else {
             self.err_line_starting("Invalid block anchor", first.loc)?;
-            return Ok(ChunkMeta::new(attrs, title, start_loc));
+            continue;
           };
           let mut anchor_attrs = AttrList::new(anchor.loc, self.bump);
           anchor_attrs.id = Some(anchor.id);
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index d5abd81..817a81e 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -442,6 +442,7 @@ impl<'arena> Parser<'arena> {
       lines.current_mut().map(|l| l.discard_leading_whitespace());
     }
 
+    let start_loc = lines.first_loc().unwrap_or(meta.start_loc);
     let context = meta.block_paragraph_context(&mut lines);
     self.maybe_set_admonition_icon_uri(context, &meta)?;
 
@@ -450,10 +451,15 @@ impl<'arena> Parser<'arena> {
     let inlines = self.parse_inlines(&mut lines)?;
     self.ctx.subs = restore_subs;
 
-    // can be empty when parsing empty desc list principal
-    let Some(loc) = inlines.loc() else {
-      self.restore_lines(lines);
-      return Ok(None);
+    let loc = match inlines.loc() {
+      Some(loc) => loc,
+      // can be empty when parsing empty desc list principal
+      None if self.ctx.parsing_simple_desc_def() || lines.first_loc() == Some(start_loc) => {
+        self.restore_lines(lines);
+        return Ok(None);
+      }
+      // e.g. `{empty}`, must not be taken for the end of the blocks
+      None => start_loc.into(),
     };
 
     self.restore_lines(lines);
-- 
2.43.0


From 6819983dbce518949ee1c670fdb156590cefb379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:15 +0000
Subject: [PATCH 068/118] fix: lists are not continued from within delimited
 blocks, lines after an unclosed block are kept

---
 parser/src/tasks/parse_block.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 817a81e..45ddbbc 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -350,6 +350,9 @@ impl<'arena> Parser<'arena> {
     self.maybe_set_admonition_icon_uri(context, &meta)?;
     let restore_subs = self.ctx.set_subs_for(context, &meta);
 
+    // NB: lists outside of the block are not continued within it
+    let prev_list = std::mem::take(&mut self.ctx.list);
+
     // newlines have a different meaning in a these contexts, so we have to
     // manually gather all (including empty) lines until the end delimiter
     let content = if matches!(
@@ -408,15 +411,16 @@ impl<'arena> Parser<'arena> {
       }
       Content::Compound(blocks)
     };
+    self.ctx.list = prev_list;
 
     self.ctx.subs = restore_subs;
     let mut end_loc = None;
-    if let Some(mut lines) = self.read_lines()?
-      && lines.current_satisfies(|l| l.is_delimiter(self.ctx.delimiter.unwrap()))
-    {
-      let token = lines.consume_current_line_with_token().unwrap();
+    if let Some(mut lines) = self.read_lines()? {
+      if lines.current_satisfies(|l| l.is_delimiter(self.ctx.delimiter.unwrap())) {
+        let token = lines.consume_current_line_with_token().unwrap();
+        end_loc = Some(token.loc);
+      }
       self.restore_lines(lines);
-      end_loc = Some(token.loc);
     }
 
     if end_loc.is_none() {
-- 
2.43.0


From 8b136b39b47b8c34c722c1505a0b721c809856cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 069/118] fix: keep content of books with preambles and
 sections out of order

---
 parser/src/tasks/parse_book.rs | 101 +++++++++++++--------------------
 1 file changed, 40 insertions(+), 61 deletions(-)

diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index 4950d05..e8842d9 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -6,75 +6,54 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
 
-    let mut opening_special_sects = bvec![in self.bump];
-    while let Some(special) = self.parse_special_sect()? {
-      opening_special_sects.push(special);
-    }
-    if self.lexer.is_eof() && !opening_special_sects.is_empty() {
-      return Ok(Some(DocContent::Sections(Sectioned {
-        preamble: None,
-        sections: opening_special_sects,
-      })));
-    }
-
-    if let Some(part) = self.parse_book_part()? {
-      let mut parts = bvec![in self.bump; part];
-      while let Some(part) = self.parse_book_part()? {
-        parts.push(part);
-      }
-      let mut closing_special_sects = bvec![in self.bump];
-      while let Some(special) = self.parse_special_sect()? {
-        closing_special_sects.push(special);
-      }
-      return Ok(Some(DocContent::Parts(MultiPartBook {
-        preamble: None,
-        opening_special_sects,
-        parts,
-        closing_special_sects,
-      })));
-    }
-
-    if let Some(peeked) = self.peek_section()? {
-      self.restore_peeked_section(peeked);
-      let mut sectioned = self.parse_sectioned()?;
-      if !opening_special_sects.is_empty() {
-        opening_special_sects.extend(sectioned.sections);
-        sectioned.sections = opening_special_sects;
-      }
-      return Ok(Some(DocContent::Sections(sectioned)));
-    }
-
     let mut blocks = bvec![in self.bump];
     while let Some(block) = self.parse_block()? {
       blocks.push(block);
     }
-    if self.lexer.is_eof() {
-      return Ok(Some(DocContent::Blocks(blocks)));
+
+    let mut sections = bvec![in self.bump];
+    while let Some(section) = self.parse_chapter()? {
+      sections.push(section);
     }
 
-    // NB: the recursion here is to deal with malformed books
-    // like a preamble before multi-part sections
-    match self.parse_book()? {
-      None => Ok(Some(DocContent::Blocks(blocks))),
-      Some(DocContent::Sections(sectioned)) => {
-        if let Some(preamble) = sectioned.preamble {
-          blocks.extend(preamble);
-        }
-        Ok(Some(DocContent::Sections(Sectioned {
+    let Some(part) = self.parse_book_part()? else {
+      return Ok(Some(if sections.is_empty() {
+        DocContent::Blocks(blocks)
+      } else {
+        DocContent::Sections(Sectioned {
           preamble: (!blocks.is_empty()).then_some(blocks),
-          sections: sectioned.sections,
-        })))
-      }
-      Some(DocContent::Blocks(_)) => unreachable!(),
-      Some(DocContent::Parts(book)) => {
-        if let Some(preamble) = book.preamble {
-          blocks.extend(preamble);
-        }
-        Ok(Some(DocContent::Parts(MultiPartBook {
-          preamble: (!blocks.is_empty()).then_some(blocks),
-          ..book
-        })))
+          sections,
+        })
+      }));
+    };
+
+    let mut parts = bvec![in self.bump; part];
+    let mut closing_special_sects = bvec![in self.bump];
+    loop {
+      while let Some(section) = self.parse_chapter()? {
+        closing_special_sects.push(section);
       }
+      let Some(part) = self.parse_book_part()? else {
+        break;
+      };
+      // sections between parts belong to the first of them
+      let prev_sections = &mut parts.last_mut().unwrap().sections;
+      prev_sections.extend(closing_special_sects.drain(..));
+      parts.push(part);
+    }
+
+    Ok(Some(DocContent::Parts(MultiPartBook {
+      preamble: (!blocks.is_empty()).then_some(blocks),
+      opening_special_sects: sections,
+      parts,
+      closing_special_sects,
+    })))
+  }
+
+  fn parse_chapter(&mut self) -> Result<Option<Section<'arena>>> {
+    match self.parse_special_sect()? {
+      Some(special) => Ok(Some(special)),
+      None => self.parse_section(),
     }
   }
 
-- 
2.43.0


From 4af61064dad2575861cb5e80651d0be161d2497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 070/118] fix: out of sequence toc levels and lone quotes in
 ifeval do not panic

---
 parser/src/tasks/directives/ifeval.rs | 5 +++--
 parser/src/tasks/parse_section.rs     | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index 34f2ae5..f710ba7 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -58,8 +58,9 @@ impl<'arena> Parser<'arena> {
     } else if let Ok(float) = expr.parse::<f32>() {
       return Value::Float(float);
     }
-    if expr.starts_with('\'') && expr.ends_with('\'')
-      || expr.starts_with('"') && expr.ends_with('"')
+    if expr.len() > 1
+      && (expr.starts_with('\'') && expr.ends_with('\'')
+        || expr.starts_with('"') && expr.ends_with('"'))
     {
       Value::String(self.string(&expr[1..expr.len() - 1]))
     } else if expr.chars().all(|c| c.is_ascii_whitespace()) {
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 41e00f4..bac4862 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -207,7 +207,9 @@ impl<'arena> Parser<'arena> {
     }
 
     while depth > last_level {
-      // we don't push out of sequence sections, shouldn't panic
+      if nodes.is_empty() {
+        break; // out of sequence
+      }
       nodes = nodes.last_mut().unwrap().children.as_mut();
       depth -= 1;
     }
-- 
2.43.0


From 7db50328293d21b3b3417c48e6dbfceccb644ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 071/118] fix: content directly below the header belongs to the
 body, block attributes below a peeked line are kept

---
 parser/src/parser.rs                 | 22 ++++++++++++----------
 parser/src/tasks/parse_doc_header.rs | 18 +++++++++++++++++-
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index ab2b351..ca851f3 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -206,7 +206,7 @@ impl<'arena> Parser<'arena> {
       // NB: the lines after a body attr entry must not be read (and directives therein
       // processed) until the entry took effect, unless the entry is just paragraph text
       let ends_with_attr_decl = line.is_attr_decl()
-        && !self.ctx.in_header
+        && !(self.ctx.in_header && self.lines_start_doc_header(lines.iter().chain([&line])))
         && !self.ctx.within_block_comment()
         && self.attr_decl_takes_effect_after(&lines);
       lines.push(line);
@@ -314,8 +314,7 @@ impl<'arena> Parser<'arena> {
     // https://docs.asciidoctor.org/asciidoc/latest/document/doctype/#inline-doctype-rules
     if self.document.meta.get_doctype() == DocType::Inline {
       if self.peeked_lines.is_none() {
-        // tmp:
-        self.peeked_lines = self.read_lines().expect("tmp");
+        self.peeked_lines = self.read_lines()?;
       }
       self.lexer.truncate();
     }
@@ -352,13 +351,16 @@ impl<'arena> Parser<'arena> {
     &mut self,
     lines: &mut ContiguousLines<'arena>,
   ) -> Result<ChunkMeta<'arena>> {
-    if let Some(meta) = self.peeked_meta.take() {
-      return Ok(meta);
-    }
-    assert!(!lines.is_empty());
-    let start_loc = lines.current_token().unwrap().loc;
-    let mut attrs = MultiAttrList::new_in(self.bump);
-    let mut title = None;
+    assert!(!lines.is_empty() || self.peeked_meta.is_some());
+    let (mut attrs, mut title, start_loc) = match self.peeked_meta.take() {
+      Some(meta) if lines.is_empty() => return Ok(meta),
+      Some(meta) => (meta.attrs, meta.dot_line_title, meta.start_loc),
+      None => (
+        MultiAttrList::new_in(self.bump),
+        None,
+        lines.current_token().unwrap().loc,
+      ),
+    };
     if !lines.current().unwrap().is_fully_unconsumed() {
       return Ok(ChunkMeta::new(attrs, title, start_loc));
     }
diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 9d5ba74..7effa04 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -20,6 +20,12 @@ impl<'arena> Parser<'arena> {
     self.parse_doc_title_author_revision(&mut block, &mut header)?;
     self.skip_header_doc_attrs(&mut block, &mut header)?;
     self.finalize_doc_header(header);
+    if !block.is_empty() {
+      // content directly below the header lines belongs to the body
+      self.restore_lines(block);
+    } else if let Some(meta) = self.peeked_meta.take() {
+      self.err_line_starting("Unattached block metadata", meta.start_loc)?;
+    }
     Ok(())
   }
 
@@ -151,6 +157,7 @@ impl<'arena> Parser<'arena> {
       subtitle: None, // TODO: subtitle
     });
 
+    lines.discard_leading_comment_lines();
     if lines.starts(Word) {
       let author_line = lines.consume_current().unwrap();
       header.loc.extend(author_line.last_loc().unwrap());
@@ -167,7 +174,14 @@ impl<'arena> Parser<'arena> {
   }
 
   fn is_doc_header(&self, lines: &ContiguousLines) -> bool {
-    for line in lines.iter() {
+    self.lines_start_doc_header(lines.iter())
+  }
+
+  pub(crate) fn lines_start_doc_header<'b>(
+    &self,
+    lines: impl Iterator<Item = &'b Line<'b>>,
+  ) -> bool {
+    for line in lines {
       if self.line_heading_level(line) == Some(0) {
         return true;
       } else if line.is_comment() || line.is_block_attr_list() || line.is_block_anchor() {
@@ -191,9 +205,11 @@ impl<'arena> Parser<'arena> {
     lines: &mut ContiguousLines<'arena>,
     header: &mut DocHeader,
   ) -> Result<()> {
+    lines.discard_leading_comment_lines();
     while lines.current_token().kind(AttrDef) {
       let line = lines.consume_current().unwrap();
       header.loc.end = line.first_loc().unwrap().end;
+      lines.discard_leading_comment_lines();
     }
     Ok(())
   }
-- 
2.43.0


From b586c633c29fc77289d41044e2e0a222342d07ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 072/118] fix: hash-style discrete headings, huge column
 counts, widths, indents and line numbers do not panic

---
 ast/src/col_widths.rs                                     | 4 ++--
 .../src/tasks/directives/includes/normalize_includes.rs   | 4 ++--
 parser/src/tasks/directives/includes/process_includes.rs  | 4 ++--
 parser/src/tasks/parse_block.rs                           | 8 +++++---
 parser/src/tasks/table/parse_table_spec.rs                | 4 ++--
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/ast/src/col_widths.rs b/ast/src/col_widths.rs
index 09f0bb1..a4823bd 100644
--- a/ast/src/col_widths.rs
+++ b/ast/src/col_widths.rs
@@ -36,12 +36,12 @@ impl<'arena> ColWidths<'arena> {
   }
 
   pub fn distribute(&self) -> impl ExactSizeIterator<Item = DistributedColWidth> + '_ {
-    let mut width_divisor = Option::<u8>::None;
+    let mut width_divisor = Option::<u32>::None;
     let mut num_autowidth = 0;
     for cw in self.iter() {
       match cw {
         ColWidth::Proportional(n) | ColWidth::Percentage(n) => {
-          width_divisor = Some(width_divisor.map_or(*n, |sum| sum + n))
+          width_divisor = Some(width_divisor.unwrap_or(0) + u32::from(*n))
         }
         ColWidth::Auto => num_autowidth += 1,
       }
diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 5d16b4e..a8743d2 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -184,10 +184,10 @@ fn parse_line_ranges(s: &str) -> Vec<Range<usize>> {
       } else if let Ok(high_n) = high.parse::<usize>()
         && low_n <= high_n
       {
-        ranges.push(low_n..high_n + 1);
+        ranges.push(low_n..high_n.saturating_add(1));
       }
     } else if let Ok(n) = part.parse::<usize>() {
-      ranges.push(n..n + 1);
+      ranges.push(n..n.saturating_add(1));
     }
   });
   ranges
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 14eda13..902d5c9 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -232,8 +232,8 @@ impl<'arena> Parser<'arena> {
   }
 
   fn set_include_indentation(&self, attrs: &AttrList, buf: &mut BumpVec<'arena, u8>) {
-    if let Some(indent) = attrs.named("indent").and_then(|s| s.parse::<usize>().ok()) {
-      _set_indentation(indent, buf, self.bump);
+    if let Some(indent) = attrs.named("indent").and_then(|s| s.parse::<u16>().ok()) {
+      _set_indentation(indent.into(), buf, self.bump);
     };
   }
 
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 45ddbbc..33b5c80 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -200,7 +200,9 @@ impl<'arena> Parser<'arena> {
     let mut line = lines.consume_current().unwrap();
     let line_end_loc = line.last_loc().unwrap();
     let level = self.line_heading_level(&line).unwrap();
-    line.discard_assert(TokenKind::EqualSigns);
+    while line.current_is(TokenKind::EqualSigns) || line.current_is(TokenKind::Hash) {
+      line.discard(1);
+    }
     line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&line, &meta.attrs);
     let content = self.parse_inlines(&mut line.into_lines())?;
@@ -370,10 +372,10 @@ impl<'arena> Parser<'arena> {
       if let Some(indent) = meta
         .attrs
         .named("indent")
-        .and_then(|s| s.parse::<usize>().ok())
+        .and_then(|s| s.parse::<u16>().ok())
       {
         let delimiter = lines.pop();
-        lines.set_indentation(indent);
+        lines.set_indentation(indent.into());
         delimiter.map(|d| lines.push(d));
       }
 
diff --git a/parser/src/tasks/table/parse_table_spec.rs b/parser/src/tasks/table/parse_table_spec.rs
index 6a106b8..ffe4350 100644
--- a/parser/src/tasks/table/parse_table_spec.rs
+++ b/parser/src/tasks/table/parse_table_spec.rs
@@ -55,7 +55,7 @@ fn parse_col_spec(col_attr: &str, specs: &mut BumpVec<ColSpec>) {
   }
 
   if let Some(repeat_match) = captures.get(1) {
-    let repeat = repeat_match.as_str().parse().unwrap_or(1);
+    let repeat = repeat_match.as_str().parse::<u16>().unwrap_or(1);
     if repeat > 1 {
       for _ in 1..repeat {
         specs.push(spec.clone());
@@ -75,7 +75,7 @@ impl<'arena> Parser<'arena> {
     // not documented (afaik), but if it's only a number
     // asciidoctor treats it as a repeat of the default colspec
     if cols_attr.bytes().all(|b| b.is_ascii_digit()) {
-      let repeat = cols_attr.parse().unwrap_or(1);
+      let repeat = cols_attr.parse::<u16>().unwrap_or(1);
       for _ in 0..repeat {
         specs.push(ColSpec::default());
       }
-- 
2.43.0


From 14abce473c4703d671040d98d98c6458b3540348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 073/118] fix: html5s: callout lists only move into the block
 they directly follow

---
 backend-html5s/src/html5s.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 42682e1..d067052 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -17,6 +17,7 @@ pub struct Html5s {
   newlines: Newlines,
   default_newlines: Newlines,
   section_level_stack: Vec<u8>,
+  callout_list_close: Vec<&'static str>,
   state: BackendState,
 }
 
@@ -516,12 +517,20 @@ impl Backend for Html5s {
   }
 
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
-    self.html.truncate(self.html.len().saturating_sub(6));
+    // NB: rendered within the block it annotates, when directly following
+    let close = ["</div>", "</figure>"].into_iter().find(|close| {
+      let outer = self.html.strip_suffix(close);
+      outer.is_some_and(|html| html.ends_with("</pre>"))
+    });
+    let close = close.unwrap_or("");
+    self.html.truncate(self.html.len() - close.len());
+    self.callout_list_close.push(close);
     self.open_element("ol", &["callout-list arabic"], &block.meta.attrs);
   }
 
   fn exit_callout_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.push_str("</ol></div>");
+    let close = self.callout_list_close.pop().unwrap_or("");
+    self.push(["</ol>", close]);
   }
 
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
-- 
2.43.0


From fdb75e21b5bdca98282712c79035669483cc6b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 074/118] fix: attribute entries directly after a table or
 before an included file's end take effect in place

---
 parser/src/line.rs              |  9 +++++++++
 parser/src/parser.rs            | 11 +++++++++++
 parser/src/tasks/parse_block.rs |  4 +++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index cd12927..5155b6e 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1062,6 +1062,15 @@ impl<'arena> Line<'arena> {
     self.starts(TokenKind::AttrDef)
   }
 
+  pub fn table_delimiter(&self) -> Option<TokenKind> {
+    let kind = self.current_token()?.kind;
+    (matches!(kind, Pipe | Colon | Bang | Comma)
+      && self.num_tokens() == 2
+      && self.nth_token(1).kind(EqualSigns)
+      && self.nth_token(1).unwrap().len() > 2)
+      .then_some(kind)
+  }
+
   /// `true` if an attr entry on the following line takes effect, i.e. if this line
   /// does not start or continue a paragraph, list or table
   pub fn may_precede_attr_decl(&self) -> bool {
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index ca851f3..c442110 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -223,7 +223,18 @@ impl<'arena> Parser<'arena> {
 
   fn attr_decl_takes_effect_after(&self, lines: &Deq<'arena, Line<'arena>>) -> bool {
     let not_nested = self.ctx.delimiter.is_none();
+    let mut open_table = None;
     lines.iter().fold(true, |takes_effect, line| {
+      let table_delimiter = line.table_delimiter();
+      if open_table.is_some() {
+        if table_delimiter == open_table {
+          open_table = None;
+        }
+        return open_table.is_none();
+      } else if takes_effect && table_delimiter.is_some() {
+        open_table = table_delimiter;
+        return false;
+      }
       let ends_paragraph = line.is_any_delimiter()
         || (not_nested && (line.is_block_attr_list() || line.is_block_anchor()));
       ends_paragraph || (takes_effect && line.may_precede_attr_decl())
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 33b5c80..b56902b 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -113,9 +113,11 @@ impl<'arena> Parser<'arena> {
           self.err_at(err, def.loc)?;
         }
         lines.consume_current(); // attr def
-        if !lines.is_empty() {
+        if !lines.is_empty() && self.lexer.source_idx() == def.loc.include_depth {
           // re-parse adjoining chunk, to resolve attr def
           self.lexer.set_pos(def.loc.end);
+        } else {
+          self.restore_lines(lines);
         }
         return Ok(Some(Block {
           meta,
-- 
2.43.0


From 9bf8a0275541545bc20c5532bccbf1161ea6d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 075/118] fix: cross references within the titles they refer to
 do not recurse forever

---
 eval/src/eval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 9ea339b..ce09afe 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -530,7 +530,8 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       let anchor = anchors.get(utils::xref::get_id(&target.src));
       let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
       backend.enter_xref(target, linktext.is_some(), *kind);
-      if ctx.resolving_xref.replace(true) {
+      let within_xref = ctx.resolving_xref.replace(true);
+      if within_xref {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       } else if let Some(text) = anchor
         .map(|anchor| {
@@ -551,7 +552,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       } else {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       }
-      ctx.resolving_xref.replace(false);
+      ctx.resolving_xref.replace(within_xref);
       backend.exit_xref(target, linktext.is_some(), *kind);
     }
     Macro(Icon { target, attrs }) => backend.visit_icon_macro(target, attrs),
-- 
2.43.0


From df93ff0bb0c3a5f7690b6dae6aee9b3d345dbc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 076/118] fix: lists starting with comment lines do not panic

---
 parser/src/tasks/parse_list.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 656b417..f35ad15 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -7,6 +7,7 @@ impl<'arena> Parser<'arena> {
     mut lines: ContiguousLines<'arena>,
     meta: Option<ChunkMeta<'arena>>,
   ) -> Result<Block<'arena>> {
+    lines.discard_leading_comment_lines();
     let first_line = lines.consume_current().unwrap();
     let start_loc = first_line.first_loc().unwrap();
     let mut last_loc = first_line.last_loc().unwrap();
-- 
2.43.0


From 99bdfce3e52d22c1b69b662ce04a10204ddbcdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 077/118] fix: inline passthroughs are not processed in
 verbatim blocks

---
 parser/src/line.rs                    | 8 ++++++++
 parser/src/tasks/parse_inlines/mod.rs | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 5155b6e..f5c6c6c 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -59,6 +59,14 @@ impl<'arena> Line<'arena> {
     }
   }
 
+  /// NB: the placeholder for an unresolved directive is a passthrough in verbatim content too
+  pub fn is_unresolved_directive(&self) -> bool {
+    let mut words = self.iter().skip_while(|t| t.kind(Plus));
+    self.starts(Plus)
+      && words.next().is_some_and(|t| t.lexeme == "Unresolved")
+      && words.nth(1).is_some_and(|t| t.lexeme == "directive")
+  }
+
   pub fn push(&mut self, token: Token<'arena>) {
     match token.kind {
       MacroName if token.lexeme == "pass:" => self.pass_macro = true,
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 281581c..7f1f279 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -65,7 +65,7 @@ impl<'arena> Parser<'arena> {
           return self.finish_inlines(acc, inline_attrs);
         }
 
-        if line.may_contain_inline_pass() {
+        if line.may_contain_inline_pass() && (subs.macros() || line.is_unresolved_directive()) {
           self.replace_inline_pass(&mut line, lines)?;
           break;
         }
-- 
2.43.0


From 5d894fd7d0ebcc450b627e2475bab4799c39efd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:12 +0000
Subject: [PATCH 078/118] fix: column counts are limited where the cols
 attribute is read

---
 parser/src/tasks/table/parse_table.rs      | 20 +++++++++++++++++++-
 parser/src/tasks/table/parse_table_spec.rs |  4 ++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 81ddc0b..ecaf088 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -21,7 +21,7 @@ impl<'arena> Parser<'arena> {
     let col_specs = meta
       .attrs
       .named("cols")
-      .map(|cols_attr| self.parse_col_specs(cols_attr))
+      .map(|cols_attr| self.parse_col_specs(&limit_col_counts(cols_attr)))
       .unwrap_or_else(|| bvec![in self.bump]);
 
     let mut format = match (meta.attrs.named("format"), delim_ch) {
@@ -464,6 +464,24 @@ fn newline_token(loc: SourceLocation, bump: &Bump) -> Token<'_> {
   }
 }
 
+/// NB: counts beyond the range of a `u16` would exhaust the memory, so they are ignored
+fn limit_col_counts(cols: &str) -> String {
+  let mut limited = String::with_capacity(cols.len());
+  for col in cols.split_inclusive([';', ',']) {
+    let spec = col.trim_start();
+    let num_digits = spec.bytes().take_while(u8::is_ascii_digit).count();
+    let (digits, rest) = spec.split_at(num_digits);
+    let is_count = rest.starts_with('*') || num_digits == cols.len();
+    if is_count && num_digits > 0 && digits.parse::<u16>().is_err() {
+      limited.push('1');
+      limited.push_str(rest);
+    } else {
+      limited.push_str(col);
+    }
+  }
+  limited
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
diff --git a/parser/src/tasks/table/parse_table_spec.rs b/parser/src/tasks/table/parse_table_spec.rs
index ffe4350..6a106b8 100644
--- a/parser/src/tasks/table/parse_table_spec.rs
+++ b/parser/src/tasks/table/parse_table_spec.rs
@@ -55,7 +55,7 @@ fn parse_col_spec(col_attr: &str, specs: &mut BumpVec<ColSpec>) {
   }
 
   if let Some(repeat_match) = captures.get(1) {
-    let repeat = repeat_match.as_str().parse::<u16>().unwrap_or(1);
+    let repeat = repeat_match.as_str().parse().unwrap_or(1);
     if repeat > 1 {
       for _ in 1..repeat {
         specs.push(spec.clone());
@@ -75,7 +75,7 @@ impl<'arena> Parser<'arena> {
     // not documented (afaik), but if it's only a number
     // asciidoctor treats it as a repeat of the default colspec
     if cols_attr.bytes().all(|b| b.is_ascii_digit()) {
-      let repeat = cols_attr.parse::<u16>().unwrap_or(1);
+      let repeat = cols_attr.parse().unwrap_or(1);
       for _ in 0..repeat {
         specs.push(ColSpec::default());
       }
-- 
2.43.0


From dbdebba26e78eb87c2754ff20dd50cacb9387c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:29 +0000
Subject: [PATCH 079/118] fix: passthrough blocks keep their newlines

---
 backend-html5s/src/html5s.rs            | 11 +++++++++++
 dr-html-backend/src/asciidoctor_html.rs | 13 +++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index d067052..8496389 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -369,6 +369,17 @@ impl Backend for Html5s {
     self.newlines = self.default_newlines;
   }
 
+  fn enter_passthrough_block(&mut self, block: &Block) {
+    // NB: joined lines would change the meaning of raw content, e.g. of `<pre>` or `<script>`
+    if block.meta.attrs.named("subs").is_none() {
+      self.newlines = Newlines::Preserve;
+    }
+  }
+
+  fn exit_passthrough_block(&mut self, _block: &Block) {
+    self.newlines = self.default_newlines;
+  }
+
   fn enter_quoted_paragraph(&mut self, block: &Block) {
     self.open_element("div", &["quote-block"], &block.meta.attrs);
     self.render_buffered_block_title(block, false);
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index ab2bef9..5931e04 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -399,6 +399,19 @@ impl Backend for AsciidoctorHtml {
     self.newlines = self.default_newlines;
   }
 
+  #[instrument(skip_all)]
+  fn enter_passthrough_block(&mut self, block: &Block) {
+    // NB: joined lines would change the meaning of raw content, e.g. of `<pre>` or `<script>`
+    if block.meta.attrs.named("subs").is_none() {
+      self.newlines = Newlines::Preserve;
+    }
+  }
+
+  #[instrument(skip_all)]
+  fn exit_passthrough_block(&mut self, _block: &Block) {
+    self.newlines = self.default_newlines;
+  }
+
   #[instrument(skip_all)]
   fn enter_quoted_paragraph(&mut self, block: &Block) {
     self.open_element("div", &["quoteblock"], &block.meta.attrs);
-- 
2.43.0


From f6460646e0e010aa16af05b31ac812f0f1fc45d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 080/118] fix: texts of macros, missing references and details
 of the header are escaped

---
 backend-html5s/src/html5s.rs            | 30 ++++++++++++++-----------
 backend/src/html/backend.rs             | 10 +++++----
 backend/src/html/htmlbuf.rs             | 29 ++++++++++++++++++------
 dr-html-backend/src/asciidoctor_html.rs | 24 +++++++++++++-------
 parser/src/tasks/parse_revision_line.rs | 22 +++++++++---------
 5 files changed, 72 insertions(+), 43 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 8496389..81ed035 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1021,13 +1021,9 @@ impl Backend for Html5s {
   }
 
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
-    self.push([
-      "<a id=\"",
-      id,
-      "\" aria-hidden=\"true\"></a>[",
-      reftext.unwrap_or(id),
-      "]",
-    ]);
+    self.push(["<a id=\"", id, "\" aria-hidden=\"true\"></a>["]);
+    self.push_text_escaped(reftext.unwrap_or(id));
+    self.push_ch(']');
   }
 
   fn visit_callout(&mut self, callout: Callout) {
@@ -1048,7 +1044,9 @@ impl Backend for Html5s {
   }
 
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<kbd class="button"><samp>"#, text, "</samp></kbd>"])
+    self.push_str(r#"<kbd class="button"><samp>"#);
+    self.push_text_escaped(text);
+    self.push_str("</samp></kbd>");
   }
 
   fn visit_icon_macro(&mut self, target: &SourceString, attrs: &AttrList) {
@@ -1072,7 +1070,7 @@ impl Backend for Html5s {
           self.push([r#"" title=""#, title]);
         }
         self.push_str(r#"">["#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_text_escaped(attrs.named("alt").unwrap_or(target));
         self.push_str("]</b>");
       }
       IconMode::Image => {
@@ -1199,7 +1197,9 @@ impl Backend for Html5s {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd class=\"key\">", key, "</kbd>"]);
+      self.push_str("<kbd class=\"key\">");
+      self.push_text_escaped(key);
+      self.push_str("</kbd>");
     }
     if keys.len() > 1 {
       self.push_str("</kbd>");
@@ -1262,11 +1262,13 @@ impl Backend for Html5s {
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
     let mut items = items.iter();
     self.push_str(r#"<kbd class="menuseq"><kbd class="menu"><samp>"#);
-    self.push_str(items.next().unwrap());
+    self.push_text_escaped(items.next().unwrap());
     self.push_str("</samp></kbd>");
     for item in items {
       self.push_str(r#"&#160;<span class="caret">&#8250;</span>&#32;<kbd class=""#);
-      self.push(["menu\"><samp>", item, "</samp></kbd>"]);
+      self.push_str("menu\"><samp>");
+      self.push_text_escaped(item);
+      self.push_str("</samp></kbd>");
     }
     self.push_str("</kbd>");
   }
@@ -1582,7 +1584,9 @@ impl Html5s {
       if index > 0 {
         self.push_str(&(index + 1).to_string());
       }
-      self.push(["\"><a href=\"mailto:", email, "\">", email, "</a></span>"]);
+      self.push(["\"><a href=\"mailto:", email, "\">"]);
+      self.push_text_escaped(email);
+      self.push_str("</a></span>");
       if index == 0 {
         self.push_str("<br>");
       }
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 147955c..cc7ec58 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -331,12 +331,14 @@ pub trait HtmlBackend: HtmlBuf {
         .and_then(|t| t.attrs.named("reftext"))
         .unwrap_or_else(|| self.doc_meta().str("doctitle").unwrap_or("[^top]"))
         .to_string();
-      self.push_str(&doctitle);
+      self.push_text_escaped(&doctitle);
     } else if utils::xref::is_interdoc(target, kind) {
       let href = utils::xref::href(target, self.doc_meta(), kind, false);
-      self.push_str(utils::xref::remove_leading_hash(&href));
+      self.push_text_escaped(utils::xref::remove_leading_hash(&href));
     } else {
-      self.push(["[", target.strip_prefix('#').unwrap_or(target), "]"]);
+      self.push_ch('[');
+      self.push_text_escaped(target.strip_prefix('#').unwrap_or(target));
+      self.push_ch(']');
     }
   }
 
@@ -426,7 +428,7 @@ pub trait HtmlBackend: HtmlBuf {
     a_tag.push_ch('"');
     self.push_open_tag(a_tag);
     if !has_link_text {
-      self.push_str(address);
+      self.push_text_escaped(address);
     }
   }
 
diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index f017e85..5e2ed6e 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -17,6 +17,22 @@ pub trait HtmlBuf {
     push_escaped(s, self.htmlbuf(), false);
   }
 
+  /// NB: unlike special chars, character references are text already
+  fn push_text_escaped(&mut self, s: &str) {
+    let mut rest = s;
+    while let Some(at) = rest.find(['&', '<', '>']) {
+      self.push_str(&rest[..at]);
+      match rest.as_bytes()[at] {
+        b'<' => self.push_str("&lt;"),
+        b'>' => self.push_str("&gt;"),
+        _ if CHAR_REF.is_match(&rest[at..]) => self.push_ch('&'),
+        _ => self.push_str("&amp;"),
+      }
+      rest = &rest[at + 1..];
+    }
+    self.push_str(rest);
+  }
+
   fn push_url_encoded(&mut self, s: &str) {
     push_url_encoded(self.htmlbuf(), s);
   }
@@ -153,12 +169,10 @@ fn push_escaped(src: &str, dest: &mut String, escape_quotes: bool) {
   while let Some(c) = it.next() {
     match c {
       '&' if it.peek() == Some(&'#') => {
-        if let Some(peek) = src.get(pos..src.len().min(pos + 6)) {
-          if NUMERIC_CHAR_REF.is_match(peek) {
-            dest.push(c);
-          } else {
-            dest.push_str("&amp;");
-          }
+        if CHAR_REF.is_match(&src[pos..]) {
+          dest.push(c);
+        } else {
+          dest.push_str("&amp;");
         }
       }
       '&' => dest.push_str("&amp;"),
@@ -183,5 +197,6 @@ fn push_url_encoded(buf: &mut String, s: &str) {
 }
 
 lazy_static! {
-  pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"&#[0-9]+;|&#x[0-9a-fA-F]+;").unwrap();
+  static ref CHAR_REF: Regex =
+    Regex::new(r"^&(?:[a-zA-Z][a-zA-Z]+[0-9]{0,2}|#[0-9]+|#x[0-9a-fA-F]+);").unwrap();
 }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 5931e04..3e01f11 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1100,7 +1100,9 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
-    self.push(["<a id=\"", id, "\"></a>[", reftext.unwrap_or(id), "]"]);
+    self.push(["<a id=\"", id, "\"></a>["]);
+    self.push_text_escaped(reftext.unwrap_or(id));
+    self.push_ch(']');
   }
 
   #[instrument(skip_all)]
@@ -1134,7 +1136,9 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<b class="button">"#, text, "</b>"])
+    self.push_str(r#"<b class="button">"#);
+    self.push_text_escaped(text);
+    self.push_str("</b>");
   }
 
   #[instrument(skip_all)]
@@ -1157,7 +1161,7 @@ impl Backend for AsciidoctorHtml {
     match self.doc_meta.icon_mode() {
       IconMode::Text => {
         self.push_ch('[');
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_text_escaped(attrs.named("alt").unwrap_or(target));
         self.push_str("&#93;");
       }
       IconMode::Image => {
@@ -1263,7 +1267,9 @@ impl Backend for AsciidoctorHtml {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd>", key, "</kbd>"]);
+      self.push_str("<kbd>");
+      self.push_text_escaped(key);
+      self.push_str("</kbd>");
     }
     if keys.len() > 1 {
       self.push_str("</span>");
@@ -1331,17 +1337,19 @@ impl Backend for AsciidoctorHtml {
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
     let mut items = items.iter();
     self.push_str(r#"<span class="menuseq"><b class="menu">"#);
-    self.push_str(items.next().unwrap());
+    self.push_text_escaped(items.next().unwrap());
     self.push_str("</b>");
 
     let num_items = items.len();
     for (idx, item) in items.enumerate() {
       self.push_str(r#"&#160;<b class="caret">&#8250;</b><b class=""#);
       if idx + 1 == num_items {
-        self.push(["menuitem\">", item, "</b>"]);
+        self.push_str("menuitem\">");
       } else {
-        self.push(["submenu\">", item, "</b>"]);
+        self.push_str("submenu\">");
       }
+      self.push_text_escaped(item);
+      self.push_str("</b>");
     }
     self.push_str("</span>");
   }
@@ -1746,7 +1754,7 @@ impl AsciidoctorHtml {
       self.push_str(r#"" class="email"><a href="mailto:"#);
       self.push_str(email);
       self.push_str(r#"">"#);
-      self.push_str(email);
+      self.push_text_escaped(email);
       self.push_str("</a></span><br>");
     }
   }
diff --git a/parser/src/tasks/parse_revision_line.rs b/parser/src/tasks/parse_revision_line.rs
index 7cd0edf..8b5c649 100644
--- a/parser/src/tasks/parse_revision_line.rs
+++ b/parser/src/tasks/parse_revision_line.rs
@@ -22,13 +22,8 @@ impl Parser<'_> {
 
     let end = lines.consume_current().unwrap().last_loc().unwrap().end;
     let vre = Regex::new(r"\d.*$").unwrap();
-    let version = vre
-      .captures(raw_version)
-      .unwrap()
-      .get(0)
-      .unwrap()
-      .as_str()
-      .to_string();
+    let version = vre.captures(raw_version).unwrap().get(0).unwrap().as_str();
+    let version = escaped(version);
 
     // only revision, must start with `v` then digit
     if captures.get(2).is_none() && captures.get(3).is_none() {
@@ -49,7 +44,7 @@ impl Parser<'_> {
 
     // version and remark
     if captures.get(2).is_none() && captures.get(3).is_some() {
-      let remark = captures.get(3).unwrap().as_str().to_string();
+      let remark = escaped(captures.get(3).unwrap().as_str());
       self
         .document
         .meta
@@ -60,7 +55,7 @@ impl Parser<'_> {
 
     // version and only date
     if captures.get(2).is_some() && captures.get(3).is_none() {
-      let date = captures.get(2).unwrap().as_str().to_string();
+      let date = escaped(captures.get(2).unwrap().as_str());
       self
         .document
         .meta
@@ -69,8 +64,8 @@ impl Parser<'_> {
       return Some(end);
     }
 
-    let date = captures.get(2).unwrap().as_str().to_string();
-    let remark = captures.get(3).unwrap().as_str().to_string();
+    let date = escaped(captures.get(2).unwrap().as_str());
+    let remark = escaped(captures.get(3).unwrap().as_str());
     self
       .document
       .meta
@@ -85,6 +80,11 @@ impl Parser<'_> {
   }
 }
 
+// like any text of the header, the parts of a revision line aren't markup
+fn escaped(text: &str) -> String {
+  text.replace('<', "&lt;").replace('>', "&gt;")
+}
+
 // tests
 
 #[cfg(test)]
-- 
2.43.0


From 23e545fb9b8e3d3a73f15bb8a642c4bef079fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 081/118] fix: leftovers of macros and attribute lists, and
 what follows a backslash or an unresolved include are escaped

---
 .../directives/includes/process_includes.rs   |  9 ++-
 parser/src/tasks/parse_inlines/mod.rs         | 81 ++++++++++++++-----
 2 files changed, 70 insertions(+), 20 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 902d5c9..960e46f 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -137,7 +137,14 @@ impl<'arena> Parser<'arena> {
         let mut msg = self.string("+++Unresolved directive in ");
         msg.push_str(self.lexer.source_file().file_name());
         msg.push_str(" - ");
-        msg.push_str(directive.line_src.as_str());
+        for c in directive.line_src.chars() {
+          match c {
+            '&' => msg.push_str("&amp;"),
+            '<' => msg.push_str("&lt;"),
+            '>' => msg.push_str("&gt;"),
+            _ => msg.push(c),
+          }
+        }
         msg.push_str("+++\n");
         let loc = directive.first_token.loc;
         self.lexer.set_tmp_buf(&msg, BufLoc::Repeat(loc));
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 7f1f279..f7a36c9 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -238,8 +238,7 @@ impl<'arena> Parser<'arena> {
                 if !line.no_whitespace_until(OpenBracket) {
                   // turns out we didn't have a valid uri target here
                   acc.push_text_token(&token);
-                  if !line.current_is(PreprocPassthru) {
-                    let next_token = line.consume_current().unwrap();
+                  if let Some(next_token) = line.consume_if(UriScheme) {
                     acc.push_text_token(&next_token);
                   }
                 } else {
@@ -323,14 +322,14 @@ impl<'arena> Parser<'arena> {
                 )?;
                 acc.push_node(InlineAnchor(id.src), id.loc);
               }
-              "indexterm:" => {
-                let (node, loc) = self.parse_index_term_macro(false, &token, &mut line)?;
-                acc.push_node(node, loc);
-              }
-              "indexterm2:" => {
-                let (node, loc) = self.parse_index_term_macro(true, &token, &mut line)?;
-                acc.push_node(node, loc);
-              }
+              "indexterm:" => match self.parse_index_term_macro(false, &token, &mut line)? {
+                (Text(_), loc) => self.push_source_text(loc, &mut acc),
+                (node, loc) => acc.push_node(node, loc),
+              },
+              "indexterm2:" => match self.parse_index_term_macro(true, &token, &mut line)? {
+                (Text(_), loc) => self.push_source_text(loc, &mut acc),
+                (node, loc) => acc.push_node(node, loc),
+              },
               _ => {
                 let mut name = token.lexeme;
                 let mut source = name.clone();
@@ -449,12 +448,14 @@ impl<'arena> Parser<'arena> {
             acc.push_node(CalloutNum(self.ctx.push_callout(number, is_xml)), loc);
           }
 
-          CalloutNumber if subs.special_chars() => {
-            let start = token.loc.clamp_start().incr_end();
-            let end = token.loc.clamp_end().decr_start();
-            acc.push_node(SpecialChar(SpecialCharKind::LessThan), start);
-            acc.text.push_str(&token.lexeme[1..token.lexeme.len() - 1]);
-            acc.push_node(SpecialChar(SpecialCharKind::GreaterThan), end);
+          CalloutNumber if subs.special_chars() => push_escaped_text(&token, &mut acc),
+
+          Entity if subs.special_chars() && !subs.char_replacement() => {
+            let mut loc = token.loc;
+            loc.end = loc.start + 1;
+            acc.push_node(SpecialChar(SpecialCharKind::Ampersand), loc);
+            acc.text.push_str(&token.lexeme[1..]);
+            acc.text.loc.end = token.loc.end;
           }
 
           LessThan if line.continues_xref_shorthand() => {
@@ -868,7 +869,16 @@ impl<'arena> Parser<'arena> {
                 {
                   // pushing the next token as text prevents recognizing the pattern
                   let next_token = line.consume_current().unwrap();
-                  acc.push_text_token(&next_token);
+                  match next_token.kind {
+                    // the text of an arrow is not touched
+                    LessThan if line.current_is(Dashes) || line.current_is(EqualSigns) => {
+                      acc.push_text_token(&next_token)
+                    }
+                    LessThan | GreaterThan | CalloutNumber if subs.special_chars() => {
+                      push_escaped_text(&next_token, &mut acc);
+                    }
+                    _ => acc.push_text_token(&next_token),
+                  }
                 }
               }
             }
@@ -918,8 +928,26 @@ impl<'arena> Parser<'arena> {
 
   fn push_unused_inline_attrs(&self, acc: &mut Accum<'arena>, inline_attrs: &mut Option<AttrList>) {
     if let Some(unused_attrs) = inline_attrs.take() {
-      let text = self.lexer.str_from_loc(unused_attrs.loc);
-      acc.text.push_str(&self.replace_attr_vals(text));
+      self.push_source_text(unused_attrs.loc, acc);
+    }
+  }
+
+  /// pushes source that turned out to be just text
+  fn push_source_text(&self, loc: SourceLocation, acc: &mut Accum<'arena>) {
+    let text = self.lexer.str_from_loc(loc);
+    let text = self.replace_attr_vals(text);
+    for part in text.split_inclusive(['<', '>', '\r']) {
+      let special = match part.as_bytes().last() {
+        Some(b'<') if self.ctx.subs.special_chars() => SpecialCharKind::LessThan,
+        Some(b'>') if self.ctx.subs.special_chars() => SpecialCharKind::GreaterThan,
+        _ => {
+          acc.text.push_str(part.trim_end_matches('\r'));
+          continue;
+        }
+      };
+      acc.text.push_str(&part[..part.len() - 1]);
+      let loc = acc.text.loc.clamp_end();
+      acc.push_node(SpecialChar(special), loc);
     }
   }
 
@@ -1118,6 +1146,21 @@ struct ParseNodeCtx<'arena, 'a, const N: usize> {
   stop_tokens: [TokenSpec; N],
 }
 
+/// pushes a token consisting of (or delimited by) angle brackets
+fn push_escaped_text<'arena>(token: &Token<'arena>, acc: &mut Accum<'arena>) {
+  let start = token.loc.clamp_start().incr_end();
+  let end = token.loc.clamp_end().decr_start();
+  match token.kind {
+    LessThan => acc.push_node(SpecialChar(SpecialCharKind::LessThan), token.loc),
+    GreaterThan => acc.push_node(SpecialChar(SpecialCharKind::GreaterThan), token.loc),
+    _ => {
+      acc.push_node(SpecialChar(SpecialCharKind::LessThan), start);
+      acc.text.push_str(&token.lexeme[1..token.lexeme.len() - 1]);
+      acc.push_node(SpecialChar(SpecialCharKind::GreaterThan), end);
+    }
+  }
+}
+
 fn ctx<'arena, 'a, const N: usize>(
   stop_tokens: [TokenSpec; N],
   token: &'a Token<'arena>,
-- 
2.43.0


From f1f65ba02326b8ed564097ecc0bd0eb839da5510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 082/118] fix: targets and attributes of inline macros in table
 cells end at newlines

---
 parser/src/line.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index f5c6c6c..2b665a3 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -501,6 +501,10 @@ impl<'arena> Line<'arena> {
     let Some(open_idx) = self.index_of_kind(OpenBracket) else {
       return false;
     };
+    // NB: in table cells, the tokens of several lines are coalesced
+    if self.has_newline_before(open_idx) {
+      return false;
+    }
     let Some(end_idx) = self.index_of_seq(&[Not(Backslash), Kind(CloseBracket)]) else {
       return false;
     };
@@ -511,6 +515,10 @@ impl<'arena> Line<'arena> {
     }
   }
 
+  fn has_newline_before(&self, idx: usize) -> bool {
+    self.iter().take(idx).any(|token| token.kind(Newline))
+  }
+
   pub fn continues_xref_shorthand(&self) -> bool {
     self.current_is(LessThan)
       && self.num_tokens() > 3
@@ -533,7 +541,7 @@ impl<'arena> Line<'arena> {
       } else if token.kind(AttrRef) && token.lexeme == "{sp}" {
         skip_next = true;
         continue;
-      } else if token.kind(Whitespace) {
+      } else if token.kind(Whitespace) || token.kind(Newline) {
         return false;
       } else {
         continue;
@@ -713,8 +721,8 @@ impl<'arena> Line<'arena> {
     } else {
       for token in self.iter() {
         match token.kind {
-          Whitespace | GreaterThan | OpenBracket | OpenParens | CloseParens | Bang | SemiColon
-          | Colon | Star | QuestionMark => break,
+          Whitespace | Newline | GreaterThan | OpenBracket | OpenParens | CloseParens | Bang
+          | SemiColon | Colon | Star | QuestionMark => break,
           _ => num_tokens += 1,
         }
       }
@@ -947,7 +955,9 @@ impl<'arena> Line<'arena> {
     ]) else {
       return false;
     };
-    idx != 0 && self.first_nonescaped(CloseBracket).map(|(_, i)| i) == Some(idx)
+    idx != 0
+      && self.first_nonescaped(CloseBracket).map(|(_, i)| i) == Some(idx)
+      && !self.has_newline_before(idx)
   }
 
   pub fn continues_inline_anchor(&self) -> bool {
-- 
2.43.0


From c8ba64a21d49241c30de3f5c0b744e7d0b905341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 083/118] fix: verbatim content is only subject to its own
 substitutions

---
 parser/src/substitutions.rs           |  7 ++++++-
 parser/src/tasks/parse_inlines/mod.rs | 24 ++++++++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/parser/src/substitutions.rs b/parser/src/substitutions.rs
index b8d5732..acae31c 100644
--- a/parser/src/substitutions.rs
+++ b/parser/src/substitutions.rs
@@ -124,6 +124,11 @@ impl Substitutions {
     self.flags & Subs::POST_REPLACEMENT != 0
   }
 
+  /// whether there are constructs which can be escaped by a backslash
+  pub const fn escapable(&self) -> bool {
+    self.inline_formatting() || self.attr_refs() || self.char_replacement() || self.macros()
+  }
+
   pub const fn callouts(&self) -> bool {
     self.flags & Subs::CALLOUTS != 0
   }
@@ -133,7 +138,7 @@ impl Substitutions {
       return;
     }
     self.flags |= sub.bitflag_pos();
-    for i in 0..6 {
+    for i in 0..self.order.len() {
       if self.order[i].is_none() {
         self.order[i] = Some(sub);
         return;
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index f7a36c9..55efc01 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -38,7 +38,7 @@ impl<'arena> Parser<'arena> {
         return self.finish_inlines(acc, inline_attrs);
       }
 
-      if line.is_comment() && !subs.callouts() {
+      if line.is_comment() && self.ctx.can_nest_blocks && !subs.callouts() {
         if lines.is_empty() {
           acc.inlines.discard_trailing_newline();
         }
@@ -458,7 +458,7 @@ impl<'arena> Parser<'arena> {
             acc.text.loc.end = token.loc.end;
           }
 
-          LessThan if line.continues_xref_shorthand() => {
+          LessThan if subs.macros() && line.continues_xref_shorthand() => {
             let mut loc = token.loc;
             line.discard_assert(LessThan);
             let mut inner = line.extract_line_before(&[Kind(GreaterThan), Kind(GreaterThan)]);
@@ -585,7 +585,8 @@ impl<'arena> Parser<'arena> {
           }
 
           OpenBracket
-            if line.starts_with_seq(&[Kind(OpenBracket); 2])
+            if subs.macros()
+              && line.starts_with_seq(&[Kind(OpenBracket); 2])
               && self.ctx.bibliography_ctx == BiblioContext::List
               && line.contains_seq(&[Kind(CloseBracket); 3]) =>
           {
@@ -611,7 +612,7 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&token);
           }
 
-          OpenBracket if line.continues_inline_anchor() => {
+          OpenBracket if subs.macros() && line.continues_inline_anchor() => {
             let second_bracket = line.consume_current().unwrap();
             if let Some(anchor) = self.parse_inline_anchor(&mut line)? {
               self.insert_anchor(
@@ -787,7 +788,10 @@ impl<'arena> Parser<'arena> {
           }
 
           // already encoded entities, eg: &#8212;
-          Ampersand if line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) => {
+          Ampersand
+            if subs.char_replacement()
+              && line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) =>
+          {
             acc.push_text_token(&token);
           }
 
@@ -820,7 +824,8 @@ impl<'arena> Parser<'arena> {
           }
 
           Whitespace
-            if line.current_is(Plus)
+            if subs.post_replacement()
+              && line.current_is(Plus)
               && line
                 .peek_token()
                 .is_none_or(|t| t.kind == TokenKind::Newline) =>
@@ -844,6 +849,13 @@ impl<'arena> Parser<'arena> {
 
           AttrRef => {}
 
+          // NB: there is nothing to escape in e.g. verbatim content, except for callouts
+          Backslash
+            if !subs.escapable() && !(subs.callouts() && line.current_is(CalloutNumber)) =>
+          {
+            acc.push_text_token(&token);
+          }
+
           Backslash => {
             match line.current_token().map(|t| (t.kind, t.len())) {
               Some((Word, _)) | None => acc.push_text_token(&token),
-- 
2.43.0


From 6a904bedb1036f6e474d02228185ad0ad46b34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:36 +0000
Subject: [PATCH 084/118] fix: attribute entries within a block are text and do
 not take effect

---
 parser/src/contiguous_lines.rs        |  6 +++-
 parser/src/parser.rs                  |  4 ++-
 parser/src/tasks/parse_block.rs       |  3 ++
 parser/src/tasks/parse_doc_attrs.rs   |  3 +-
 parser/src/tasks/parse_inlines/mod.rs | 48 +++++++++++++++++++++++++++
 5 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index d32ea49..5c5bd6c 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -105,10 +105,14 @@ impl<'arena> ContiguousLines<'arena> {
 
   pub fn restore_if_nonempty(&mut self, line: Line<'arena>) {
     if !line.is_empty() {
-      self.lines.restore_front(line);
+      self.lines.slowly_push_front(line);
     }
   }
 
+  pub fn restore(&mut self, line: Line<'arena>) {
+    self.lines.slowly_push_front(line);
+  }
+
   pub fn any(&self, f: impl FnMut(&Line<'arena>) -> bool) -> bool {
     self.lines.iter().any(f)
   }
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index c442110..6466b1b 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -140,8 +140,10 @@ impl<'arena> Parser<'arena> {
           if self.ctx.in_header
             && !matches!(
               token.kind,
-              Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
+              Colon | EqualSigns | ForwardSlashes | Directive | OpenBracket
             )
+            // text can only follow the title, e.g. an author line
+            && !(token.kind == Word && stop_before_empty)
           {
             self.ctx.in_header = false;
           } else if token.kind == Colon && self.ctx.subs.attr_refs() {
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index b56902b..5a07dd3 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -105,6 +105,9 @@ impl<'arena> Parser<'arena> {
           def.value = AttrValue::String(replaced.into_owned());
         }
         self.ctx.attr_defs.push(def.clone());
+        if !def.in_header && def.name == "leveloffset" {
+          Parser::adjust_leveloffset(&mut self.ctx.leveloffset, &def.value);
+        }
         if let Err(err) = self
           .document
           .meta
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 3083696..8982a63 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -171,7 +171,8 @@ impl<'arena> Parser<'arena> {
       in_header: self.ctx.in_header,
     });
 
-    if name == "leveloffset" {
+    // NB: in the body, it depends on where the entry is whether it takes effect
+    if self.ctx.in_header && name == "leveloffset" {
       Parser::adjust_leveloffset(&mut self.ctx.leveloffset, &value);
     }
 
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 55efc01..baed5ba 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -847,6 +847,9 @@ impl<'arena> Parser<'arena> {
 
           Discard => acc.text.loc = token.loc.clamp_end(),
 
+          // NB: an attribute entry within a block isn't one, it's just some text
+          AttrDef => line = self.attr_decl_to_text(token, line, lines)?,
+
           AttrRef => {}
 
           // NB: there is nothing to escape in e.g. verbatim content, except for callouts
@@ -938,6 +941,51 @@ impl<'arena> Parser<'arena> {
     self.finish_inlines(acc, inline_attrs)
   }
 
+  fn attr_decl_to_text(
+    &mut self,
+    attr_decl: Token<'arena>,
+    mut line: Line<'arena>,
+    rest: &mut ContiguousLines<'arena>,
+  ) -> Result<Line<'arena>> {
+    let mut loc = attr_decl.loc;
+    let mut text_lines = BumpVec::new_in(self.bump);
+    for src in attr_decl.lexeme.split('\n') {
+      loc.end = loc.start + src.len() as u32;
+      let mut tokens = Deq::new(self.bump);
+      let text = src.trim_end_matches('\r');
+      if !text.is_empty() {
+        self.lexer.set_tmp_buf(text, BufLoc::From(loc));
+      }
+      while !self.lexer.tmp_buf_is_empty() {
+        tokens.push(self.lexer.next_token());
+      }
+      loc.start = loc.end + 1;
+      let mut text_line = Line::empty(self.bump);
+      let mut drop_line = false;
+      while let Some(token) = tokens.pop_front() {
+        self.push_token_replacing_attr_ref(token, &mut text_line, &mut drop_line)?;
+        while !self.lexer.tmp_buf_is_empty() {
+          let token = self.lexer.next_token();
+          self.push_token_replacing_attr_ref(token, &mut text_line, &mut drop_line)?;
+        }
+      }
+      if !drop_line {
+        text_lines.push(text_line);
+      }
+    }
+    let Some(mut last) = text_lines.pop() else {
+      return Ok(line);
+    };
+    while let Some(token) = line.consume_current() {
+      last.push(token);
+    }
+    text_lines.push(last);
+    while text_lines.len() > 1 {
+      rest.restore(text_lines.pop().unwrap());
+    }
+    Ok(text_lines.pop().unwrap())
+  }
+
   fn push_unused_inline_attrs(&self, acc: &mut Accum<'arena>, inline_attrs: &mut Option<AttrList>) {
     if let Some(unused_attrs) = inline_attrs.take() {
       self.push_source_text(unused_attrs.loc, acc);
-- 
2.43.0


From cc38270bd1cd34916fe2fbaf4c06e006d1d47cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:37 +0000
Subject: [PATCH 085/118] fix: what surrounds a verbatim block is not read with
 its substitutions

---
 parser/src/line.rs              | 10 ++++++++++
 parser/src/parser.rs            | 11 +++++++++--
 parser/src/tasks/parse_block.rs |  5 +++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 2b665a3..335a088 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -324,6 +324,16 @@ impl<'arena> Line<'arena> {
     self.num_tokens() == 1 && self.current_token().unwrap().to_delimiter_kind().is_some()
   }
 
+  /// `true` for (the start or end of) blocks whose content is read with substitutions
+  /// other than those of the surrounding text
+  pub fn is_verbatim_delimiter(&self) -> bool {
+    use DelimiterKind::*;
+    self
+      .current_token()
+      .and_then(Token::to_delimiter_kind)
+      .is_some_and(|kind| matches!(kind, Listing | Literal | Passthrough))
+  }
+
   pub fn is_comment_block_delimiter(&self) -> bool {
     self.is_delimiter_kind(DelimiterKind::Comment)
   }
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 6466b1b..51d20fa 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -171,6 +171,10 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_lines(&mut self) -> Result<Option<ContiguousLines<'arena>>> {
+    self._read_lines(None)
+  }
+
+  fn _read_lines(&mut self, closing: Option<Delimiter>) -> Result<Option<ContiguousLines<'arena>>> {
     self.ctx.comment_delim_in_lines = false;
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
@@ -211,8 +215,11 @@ impl<'arena> Parser<'arena> {
         && !(self.ctx.in_header && self.lines_start_doc_header(lines.iter().chain([&line])))
         && !self.ctx.within_block_comment()
         && self.attr_decl_takes_effect_after(&lines);
+      // NB: which substitutions (i.e. of attr refs) apply changes with such delimiters
+      let changes_subs =
+        line.is_verbatim_delimiter() || closing.is_some_and(|delim| line.is_delimiter(delim));
       lines.push(line);
-      if ends_with_attr_decl || self.lexer.at_newline() {
+      if ends_with_attr_decl || changes_subs || self.lexer.at_newline() {
         break;
       }
     }
@@ -247,7 +254,7 @@ impl<'arena> Parser<'arena> {
     &mut self,
     delimiter: Delimiter,
   ) -> Result<Option<ContiguousLines<'arena>>> {
-    let Some(mut lines) = self.read_lines()? else {
+    let Some(mut lines) = self._read_lines(Some(delimiter))? else {
       return Ok(None);
     };
     if lines.any(|l| l.is_delimiter(delimiter)) {
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 5a07dd3..a23842f 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -253,6 +253,10 @@ impl<'arena> Parser<'arena> {
     let mut loc = MultiSourceLocation::from(lines.current_token().unwrap().loc);
     let mut quoted = Deq::with_capacity(lines.len(), self.bump);
     while let Some(mut line) = lines.consume_current() {
+      if line.is_any_delimiter() {
+        lines.restore(line);
+        break;
+      }
       if line.starts(GreaterThan) {
         line.remove_first_token();
         if line.starts(Whitespace) {
@@ -295,6 +299,7 @@ impl<'arena> Parser<'arena> {
     self.ctx.list = prev_list;
     self.ctx.in_markdown_blockquote = prev_in_blockquote;
     self.markdown_blockquote_lines = prev_lines;
+    self.restore_lines(lines);
 
     if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
       return Ok(Some(blocks.pop().unwrap()));
-- 
2.43.0


From 8cb73fddb28be87a5c41d22003a826483052a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:38 +0000
Subject: [PATCH 086/118] fix: only the message about an unresolved directive
 is a passthrough in verbatim content

---
 parser/src/line.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 335a088..d5b7381 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -62,7 +62,10 @@ impl<'arena> Line<'arena> {
   /// NB: the placeholder for an unresolved directive is a passthrough in verbatim content too
   pub fn is_unresolved_directive(&self) -> bool {
     let mut words = self.iter().skip_while(|t| t.kind(Plus));
-    self.starts(Plus)
+    // NB: unlike those of a lookalike, its tokens are all located at the directive
+    let at_directive = self.nth_token(0).map(|t| t.loc) == self.nth_token(1).map(|t| t.loc);
+    at_directive
+      && self.starts(Plus)
       && words.next().is_some_and(|t| t.lexeme == "Unresolved")
       && words.nth(1).is_some_and(|t| t.lexeme == "directive")
   }
-- 
2.43.0


From 3958d40c9c15bfba49da2b4fb0349669c20779e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 087/118] fix: the text given to a cross reference wins over
 the reftext of its target

---
 eval/src/eval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index ce09afe..502a062 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -535,10 +535,10 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       } else if let Some(text) = anchor
         .map(|anchor| {
-          anchor
-            .reftext
+          linktext
             .as_ref()
-            .unwrap_or(linktext.as_ref().unwrap_or(&anchor.title))
+            .filter(|text| !text.is_empty())
+            .unwrap_or(anchor.reftext.as_ref().unwrap_or(&anchor.title))
         })
         .filter(|text| !text.is_empty())
       {
-- 
2.43.0


From 19d8dd21d443bfce8830c42bda9071527a83b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 088/118] fix: html5s: titles of parts without an id are
 well-formed

---
 backend-html5s/src/html5s.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 81ed035..0e534be 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -201,9 +201,9 @@ impl Backend for Html5s {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id]);
+      self.push([r#" id=""#, id, "\""]);
     }
-    self.push_str("\">");
+    self.push_ch('>');
     self.push_part_prefix();
   }
 
-- 
2.43.0


From 9a84e4f12f435c5972e8ee6d123c11c32c957c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 089/118] fix: numbering goes on after an appendix or a table
 of contents, appendix sections are numbered after their appendix

---
 backend-html5s/src/html5s.rs            |  1 +
 backend/src/html/backend.rs             | 65 ++++++++++++++++---------
 dr-html-backend/src/asciidoctor_html.rs |  1 +
 3 files changed, 44 insertions(+), 23 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 0e534be..89034ce 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -146,6 +146,7 @@ impl Backend for Html5s {
     if toc.position == TocPosition::Preamble {
       self.start_buffering();
     }
+    self.on_toc_enter();
     self.state.ephemeral.insert(InTableOfContents);
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index cc7ec58..997f177 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -16,6 +16,8 @@ pub struct BackendState {
   pub section_nums: [u16; 5],
   pub section_num_levels: isize,
   pub ephemeral: HashSet<EphemeralState>,
+  pub nums_outside_appendix: [u16; 5],
+  pub nums_outside_toc: ([u16; 5], [u16; 5], u8, usize, bool),
   pub appendix_caption_num: u8,
   pub book_part_num: usize,
   pub desc_list_depth: u8,
@@ -183,11 +185,44 @@ pub trait HtmlBackend: HtmlBuf {
     &mut self.state_mut().book_part_num
   }
 
+  fn on_toc_enter(&mut self) {
+    let state = self.state_mut();
+    state.nums_outside_toc = (
+      std::mem::take(&mut state.section_nums),
+      state.nums_outside_appendix,
+      std::mem::take(&mut state.appendix_caption_num),
+      std::mem::take(&mut state.book_part_num),
+      state.ephemeral.remove(&EphemeralState::InAppendix),
+    );
+  }
+
   fn on_toc_exit(&mut self) {
     let state = self.state_mut();
-    state.section_nums = [0; 5];
-    state.appendix_caption_num = 0;
-    state.book_part_num = 0;
+    let in_appendix;
+    (
+      state.section_nums,
+      state.nums_outside_appendix,
+      state.appendix_caption_num,
+      state.book_part_num,
+      in_appendix,
+    ) = std::mem::take(&mut state.nums_outside_toc);
+    if in_appendix {
+      state.ephemeral.insert(EphemeralState::InAppendix);
+    }
+  }
+
+  fn enter_appendix(&mut self) {
+    let state = self.state_mut();
+    // subsections are numbered after the letter of the appendix
+    let letter_num = state.appendix_caption_num as u16;
+    state.nums_outside_appendix = std::mem::replace(&mut state.section_nums, [letter_num, 0, 0, 0, 0]);
+    state.ephemeral.insert(EphemeralState::InAppendix);
+  }
+
+  fn exit_appendix(&mut self) {
+    let state = self.state_mut();
+    state.section_nums = state.nums_outside_appendix;
+    state.ephemeral.remove(&EphemeralState::InAppendix);
   }
 
   fn video_element(&mut self, target: &str, attrs: &AttrList) {
@@ -664,11 +699,7 @@ pub trait HtmlBackend: HtmlBuf {
     }
     self.push_str("\">");
     if node.special_sect == Some(SpecialSection::Appendix) {
-      self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .insert(EphemeralState::InAppendix);
+      self.enter_appendix();
       self.push_appendix_caption();
     } else if node.level == 0 {
       self.push_part_prefix();
@@ -679,11 +710,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn exit_toc_node(&mut self, node: &TocNode) {
     if node.special_sect == Some(SpecialSection::Appendix) {
-      self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .remove(&EphemeralState::InAppendix);
+      self.exit_appendix();
     }
     self.push_str("</li>");
   }
@@ -691,11 +718,7 @@ pub trait HtmlBackend: HtmlBuf {
   fn enter_section_state(&mut self, section: &Section) {
     match section.meta.attrs.special_sect() {
       Some(SpecialSection::Appendix) => {
-        self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .insert(EphemeralState::InAppendix);
+        self.enter_appendix();
       }
       Some(SpecialSection::Bibliography) => {
         self
@@ -710,11 +733,7 @@ pub trait HtmlBackend: HtmlBuf {
   fn exit_section_state(&mut self, section: &Section) {
     match section.meta.attrs.special_sect() {
       Some(SpecialSection::Appendix) => {
-        self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .remove(&EphemeralState::InAppendix);
+        self.exit_appendix();
       }
       Some(SpecialSection::Bibliography) => {
         self
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 3e01f11..6dcf862 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -156,6 +156,7 @@ impl Backend for AsciidoctorHtml {
     if toc.position == TocPosition::Preamble {
       self.push_str("</div>"); // close preamble section body
     }
+    self.on_toc_enter();
     self.state.ephemeral.insert(InTableOfContents);
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
-- 
2.43.0


From ce1aa8b400b74d5fb17eead6da80fd6eef975aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 090/118] fix: a reference to a footnote not defined yet does
 not define it

---
 backend-html5s/src/html5s.rs            | 7 +++++++
 dr-html-backend/src/asciidoctor_html.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 89034ce..3d3abed 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1458,6 +1458,13 @@ impl Backend for Html5s {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
       return;
     }
+    if let Some(id) = id.filter(|_| footnote.is_empty()) {
+      // a reference to a footnote that wasn't defined (yet) must not define it
+      self.push_str(r#"<span class="footnote-ref red" title="Unresolved footnote reference.">["#);
+      self.push_specialchar_escaped(id);
+      self.push_str("]</span>");
+      return;
+    }
     let num = self.state.footnotes.borrow().len() + 1;
     let nums = num.to_string();
     self.push_str(r#"<a class="footnote-ref" id="_footnoteref_"#);
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 6dcf862..aa9ba78 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1514,6 +1514,13 @@ impl Backend for AsciidoctorHtml {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
       return;
     }
+    if let Some(id) = id.filter(|_| footnote.is_empty()) {
+      // a reference to a footnote that wasn't defined (yet) must not define it
+      self.push_str(r#"<sup class="footnoteref red" title="Unresolved footnote reference.">["#);
+      self.push_specialchar_escaped(id);
+      self.push_str("]</sup>");
+      return;
+    }
     let num = self.state.footnotes.borrow().len() + 1;
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
-- 
2.43.0


From 3693dbacba8863f621268220b4f23f7906555e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:51 +0000
Subject: [PATCH 091/118] fix: every dangling cross reference is reported

---
 parser/src/parse_context.rs           | 4 ++--
 parser/src/tasks/diagnose_document.rs | 2 +-
 parser/src/tasks/parse_inlines/mod.rs | 2 +-
 parser/src/tasks/table/parse_table.rs | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 890508c..655414b 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -13,7 +13,7 @@ pub struct ParseContext<'arena> {
   pub custom_line_comment: Option<SmallVec<[u8; 3]>>,
   pub anchor_ids: Rc<RefCell<HashSet<BumpString<'arena>>>>,
   /// xrefs are only used for diagnosing errors
-  pub xrefs: Rc<RefCell<HashMap<BumpString<'arena>, SourceLocation>>>,
+  pub xrefs: Rc<RefCell<HashSet<(BumpString<'arena>, SourceLocation)>>>,
   pub can_nest_blocks: bool,
   pub saw_toc_macro: bool,
   pub bibliography_ctx: BiblioContext,
@@ -85,7 +85,7 @@ impl<'arena> ParseContext<'arena> {
       callouts: Rc::new(RefCell::new(bvec![in bump])),
       custom_line_comment: None,
       anchor_ids: Rc::new(RefCell::new(HashSet::new())),
-      xrefs: Rc::new(RefCell::new(HashMap::new())),
+      xrefs: Rc::new(RefCell::new(HashSet::new())),
       saw_toc_macro: false,
       bibliography_ctx: BiblioContext::None,
       table_cell_ctx: TableCellContext::None,
diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 39fb795..4745771 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -14,7 +14,7 @@ impl Parser<'_> {
     let xrefs = self.ctx.xrefs.borrow();
     let mut xrefs = xrefs.iter().collect::<Vec<_>>();
     // report in order of appearance, not in (random) hash order
-    xrefs.sort_unstable_by_key(|(_, loc)| (loc.include_depth, loc.start));
+    xrefs.sort_unstable_by_key(|(target, loc)| (loc.include_depth, loc.start, target.clone()));
     for (ref_target, ref_loc) in xrefs {
       let Some((idx, id)) = self.target_data(ref_target) else {
         // couldn't find source idx
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index baed5ba..f194319 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1028,7 +1028,7 @@ impl<'arena> Parser<'arena> {
       ref_id.drain(..1);
       ref_loc.start += 1;
     }
-    self.ctx.xrefs.borrow_mut().insert(ref_id, ref_loc);
+    self.ctx.xrefs.borrow_mut().insert((ref_id, ref_loc));
   }
 
   fn parse_uri_scheme_macro(
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index ecaf088..232dafd 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -370,7 +370,7 @@ impl<'arena> Parser<'arena> {
   // xrefs are located by the lexer of the cell, but diagnosed by ours, when the document ends
   fn adopt_cell_xrefs(
     &self,
-    cell_xrefs: HashMap<BumpString<'arena>, SourceLocation>,
+    cell_xrefs: HashSet<(BumpString<'arena>, SourceLocation)>,
     line_starts: &[u32],
     line_locs: &[SourceLocation],
   ) {
@@ -395,7 +395,7 @@ impl<'arena> Parser<'arena> {
         loc.start += column.min(max_column);
         loc.end = loc.start + size;
       }
-      xrefs.insert(target, loc);
+      xrefs.insert((target, loc));
     }
   }
 
-- 
2.43.0


From 66b5aecdca86a3eba5dc956d0e36eff883dcfcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 092/118] fix: explicit section ids are kept without sectids,
 ids of inline anchors may start with an underscore

---
 parser/src/line.rs             | 2 +-
 parser/src/tasks/section_id.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index d5b7381..4179ee9 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -974,7 +974,7 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn continues_inline_anchor(&self) -> bool {
-    if !self.starts_with_seq(&[Kind(OpenBracket), OneOf(&[Word, Colon])]) {
+    if !self.starts_with_seq(&[Kind(OpenBracket), OneOf(&[Word, Colon, Underscore])]) {
       return false;
     }
     let Some(close_idx) = self.index_of_seq(&[Kind(CloseBracket); 2]) else {
diff --git a/parser/src/tasks/section_id.rs b/parser/src/tasks/section_id.rs
index ce523ed..ab64fc6 100644
--- a/parser/src/tasks/section_id.rs
+++ b/parser/src/tasks/section_id.rs
@@ -9,14 +9,14 @@ impl<'arena> Parser<'arena> {
     line: &Line<'arena>,
     attrs: &MultiAttrList<'arena>,
   ) -> Option<BumpString<'arena>> {
-    if self.document.meta.is_false("sectids") {
-      return None;
-    }
     if let Some(id) = attrs.id() {
       let custom_id = self.string(&id.src);
       self.ctx.anchor_ids.borrow_mut().insert(custom_id.clone());
       return Some(custom_id);
     }
+    if self.document.meta.is_false("sectids") {
+      return None;
+    }
     let id_sep = match self.document.meta.get("idseparator") {
       Some(AttrValue::Bool(true)) => None,
       Some(AttrValue::String(s)) => s.chars().next(),
-- 
2.43.0


From ae82e45105f2749eec83c65838056c6c5dc36a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 093/118] fix: formatting may start after any punctuation but
 semicolons, colons and braces

---
 .../src/tasks/parse_inlines/inline_utils.rs   | 21 +++----------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 1b36aae..56bfead 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -74,24 +74,9 @@ impl<'arena> Parser<'arena> {
       return false;
     }
     self.lexer.byte_before(token.loc).is_none_or(|c| {
-      c.is_ascii_whitespace()
-        || matches!(
-          c,
-          b']'
-            | b'`'
-            | b'*'
-            | b'_'
-            | b'['
-            | b'#'
-            | b'+'
-            | b'|'
-            | b'\''
-            | b'='
-            | b'"'
-            | b','
-            | b'('
-            | b'-'
-        )
+      !c.is_ascii_alphanumeric()
+        && !matches!(c, b';' | b':' | b'}')
+        && c.is_ascii()
     }) && !line.starts(Whitespace)
       && token.kind(stop_tokens.last().unwrap().token_kind().unwrap())
       && (line.terminates_constrained(stop_tokens, &self.ctx.inline_ctx)
-- 
2.43.0


From 52cdd077f77de4e42f6ca01c91b4bd0fd1b7c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 094/118] fix: blocks with an id can be referred to, their ids
 are not given to sections

---
 parser/src/parser.rs                |  6 ++++-
 parser/src/tasks/anchors.rs         | 34 +++++++++++++++++++++++++++++
 parser/src/tasks/parse_block.rs     |  8 +++++++
 parser/src/tasks/parse_book_part.rs |  2 +-
 parser/src/tasks/parse_section.rs   |  6 +----
 5 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 51d20fa..baf58f0 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -406,7 +406,11 @@ impl<'arena> Parser<'arena> {
           };
           let mut anchor_attrs = AttrList::new(anchor.loc, self.bump);
           anchor_attrs.id = Some(anchor.id);
-          anchor_attrs.positional.push(anchor.reftext);
+          if let Some(reftext) = anchor.reftext {
+            let mut named = BumpVec::new_in(self.bump);
+            named.push((SourceString::new(self.string("reftext"), anchor.loc), reftext));
+            anchor_attrs.named = Named::from(named);
+          }
           attrs.push(anchor_attrs);
         }
         // consume trailing comment lines for valid meta
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index 8e7a1c3..d324da4 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -23,10 +23,44 @@ impl<'arena> Parser<'arena> {
       )?;
     } else {
       anchors.insert(id.src.clone(), anchor);
+      // ids of sections to come must differ
+      self.ctx.anchor_ids.borrow_mut().insert(id.src.clone());
     }
     Ok(())
   }
 
+  /// blocks with an id can be referred to (sections are taken care of by `parse_section`)
+  pub(crate) fn anchor_block(&mut self, block: &Block<'arena>) -> Result<()> {
+    let given_id = block.meta.attrs.iter().find_map(|a| a.id.as_ref());
+    let (title, id) = match &block.content {
+      BlockContent::Empty(EmptyMetadata::DiscreteHeading { content, id, .. }) => {
+        let (pos, depth) = (block.loc.start_pos, block.loc.start_depth);
+        let loc = SourceLocation::new(pos, pos, depth);
+        let auto_id = id.as_ref().map(|id| SourceString::new(id.clone(), loc));
+        (Some(content), given_id.cloned().or(auto_id))
+      }
+      _ => {
+        let title = block.meta.attrs.iter().find_map(|a| a.named.get("title"));
+        (title.or(block.meta.dot_line_title.as_ref()), given_id.cloned())
+      }
+    };
+    let Some(id) = id else {
+      return Ok(());
+    };
+    let anchor = Anchor {
+      reftext: self.reftext_of(&block.meta.attrs),
+      title: title.cloned().unwrap_or_else(|| InlineNodes::new(self.bump)),
+      source_loc: Some(id.loc),
+      source_idx: id.loc.include_depth,
+      is_biblio: false,
+    };
+    self.insert_anchor(&id, anchor)
+  }
+
+  pub(crate) fn reftext_of(&self, attrs: &MultiAttrList<'arena>) -> Option<InlineNodes<'arena>> {
+    attrs.iter().find_map(|a| a.named.get("reftext")).cloned()
+  }
+
   pub(crate) fn anchor_from(
     &self,
     reftext: Option<InlineNodes<'arena>>,
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index a23842f..fa8c554 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -4,6 +4,14 @@ use ast::short::block::*;
 
 impl<'arena> Parser<'arena> {
   pub(crate) fn parse_block(&mut self) -> Result<Option<Block<'arena>>> {
+    let block = self.parse_unanchored_block()?;
+    if let Some(block) = &block {
+      self.anchor_block(block)?;
+    }
+    Ok(block)
+  }
+
+  fn parse_unanchored_block(&mut self) -> Result<Option<Block<'arena>>> {
     let Some(mut lines) = self.read_lines()? else {
       return Ok(None);
     };
diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index ca505f1..489319e 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -36,7 +36,7 @@ impl<'arena> Parser<'arena> {
       self.document.anchors.borrow_mut().insert(
         id.clone(),
         Anchor {
-          reftext: None,
+          reftext: self.reftext_of(&meta.attrs),
           title: heading.clone(),
           source_loc: None,
           source_idx: self.lexer.source_idx(),
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index bac4862..49f85d0 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -105,11 +105,7 @@ impl<'arena> Parser<'arena> {
     }
 
     if let Some(id) = &id {
-      let reftext = meta
-        .attrs
-        .iter()
-        .find_map(|a| a.named.get("reftext"))
-        .cloned();
+      let reftext = self.reftext_of(&meta.attrs);
       self.document.anchors.borrow_mut().insert(
         id.clone(),
         Anchor {
-- 
2.43.0


From 008af66044af68106961a1ea6fad2f8db54da1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:04 +0000
Subject: [PATCH 095/118] fix: title and authors are escaped in the head of the
 page

---
 backend/src/html/backend.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 997f177..3a97a56 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -786,11 +786,9 @@ pub trait HtmlBackend: HtmlBuf {
   fn render_title(&mut self, document: &Document, attrs: &DocumentMeta) {
     self.push_str(r#"<title>"#);
     if let Some(title) = attrs.str("title") {
-      self.push_str(title);
+      self.push_text_escaped(title);
     } else if let Some(title) = document.title() {
-      for s in title.main.plain_text() {
-        self.push_str(s);
-      }
+      self.push_text_escaped(&title.main.plain_text().concat());
     } else {
       self.push_str("Untitled");
     }
@@ -814,8 +812,8 @@ pub trait HtmlBackend: HtmlBuf {
       if index > 0 {
         self.push_str(", ");
       }
-      // TODO: escape/sanitize, w/ tests, see asciidoctor
-      self.push_str(&author.fullname());
+      // TODO: sanitize, w/ tests, see asciidoctor
+      self.push_text_escaped(&author.fullname());
     }
     self.push_str(r#"">"#);
   }
-- 
2.43.0


From b629520acde2b306b6288992af58b15b62a26b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:06 +0000
Subject: [PATCH 096/118] fix: cells of tables are embedded in the page, also
 after a nested table

---
 backend-html5s/src/html5s.rs            | 13 ++++++-------
 backend/src/html/backend.rs             | 10 +++++++---
 dr-html-backend/src/asciidoctor_html.rs | 13 ++++++-------
 3 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 3d3abed..958285e 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -73,13 +73,13 @@ impl Backend for Html5s {
   }
 
   fn enter_header(&mut self) {
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("noheader") {
+    if self.full_page() && !self.doc_meta.is_true("noheader") {
       self.push_str("<header>");
     }
   }
 
   fn exit_header(&mut self) {
-    if self.doc_meta.embedded || self.doc_meta.is_true("noheader") {
+    if !self.full_page() || self.doc_meta.is_true("noheader") {
       return;
     }
     if !self.doc_meta.authors().is_empty()
@@ -93,13 +93,13 @@ impl Backend for Html5s {
   }
 
   fn enter_content(&mut self) {
-    if !self.doc_meta.embedded {
+    if self.full_page() {
       self.push_str(r#"<div id="content">"#)
     }
   }
 
   fn exit_content(&mut self) {
-    if !self.doc_meta.embedded {
+    if self.full_page() {
       self.push_str("</div>")
     }
   }
@@ -108,7 +108,7 @@ impl Backend for Html5s {
     if !self.state.footnotes.borrow().is_empty() && !self.state.in_asciidoc_table_cell {
       self.render_footnotes();
     }
-    if self.doc_meta.embedded || self.doc_meta.is_true("nofooter") {
+    if !self.full_page() || self.doc_meta.is_true("nofooter") {
       return;
     }
     self.push_str("<footer><div id=\"footer-text\">");
@@ -121,7 +121,7 @@ impl Backend for Html5s {
   }
 
   fn exit_footer(&mut self) {
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("nofooter") {
+    if self.full_page() && !self.doc_meta.is_true("nofooter") {
       self.push_str("</footer>");
     }
   }
@@ -733,7 +733,6 @@ impl Backend for Html5s {
   }
 
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 3a97a56..e22acff 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -778,9 +778,13 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn standalone(&self) -> bool {
-    self.doc_meta().get_doctype() != DocType::Inline
-      && !self.state().in_asciidoc_table_cell
-      && !self.doc_meta().embedded
+    self.doc_meta().get_doctype() != DocType::Inline && self.full_page()
+  }
+
+  /// whether the outer structure of a page is rendered: the document of an
+  /// asciidoc table cell is always embedded in the page of its parent
+  fn full_page(&self) -> bool {
+    !self.doc_meta().embedded && !self.state().in_asciidoc_table_cell
   }
 
   fn render_title(&mut self, document: &Document, attrs: &DocumentMeta) {
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index aa9ba78..0968453 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -78,14 +78,14 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_header(&mut self) {
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("noheader") {
+    if self.full_page() && !self.doc_meta.is_true("noheader") {
       self.render_division_start("header");
     }
   }
 
   #[instrument(skip_all)]
   fn exit_header(&mut self) {
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("noheader") {
+    if self.full_page() && !self.doc_meta.is_true("noheader") {
       if !self.doc_meta.authors().is_empty()
         || self.doc_meta.get("revnumber").is_some()
         || self.doc_meta.get("revdate").is_some()
@@ -99,14 +99,14 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_content(&mut self) {
-    if !self.doc_meta.embedded {
+    if self.full_page() {
       self.render_division_start("content");
     }
   }
 
   #[instrument(skip_all)]
   fn exit_content(&mut self) {
-    if !self.doc_meta.embedded {
+    if self.full_page() {
       self.push_str("</div>")
     }
   }
@@ -116,7 +116,7 @@ impl Backend for AsciidoctorHtml {
     if !self.state.footnotes.borrow().is_empty() && !self.state.in_asciidoc_table_cell {
       self.render_footnotes();
     }
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("nofooter") {
+    if self.full_page() && !self.doc_meta.is_true("nofooter") {
       self.render_division_start("footer");
       if let Some(rev) = self.doc_meta.string("revnumber") {
         let label = self.doc_meta.string_or("version-label", "");
@@ -128,7 +128,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_footer(&mut self) {
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("nofooter") {
+    if self.full_page() && !self.doc_meta.is_true("nofooter") {
       self.push_str("</div>")
     }
   }
@@ -811,7 +811,6 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
-- 
2.43.0


From 10b8005d7c39dbe0871fdd3eb9df2b5cc218f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 097/118] fix: verse with a citation but no author is closed

---
 dr-html-backend/src/asciidoctor_html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 0968453..d9d8af7 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -460,9 +460,11 @@ impl Backend for AsciidoctorHtml {
   }
 
   #[instrument(skip_all)]
-  fn enter_quote_cite(&mut self, _block: &Block, has_attribution: bool) {
+  fn enter_quote_cite(&mut self, block: &Block, has_attribution: bool) {
     if has_attribution {
       self.push_str(r#"<br><cite>"#);
+    } else if block.context == BlockContext::Verse {
+      self.push_str(r#"</pre><div class="attribution">&#8212; "#);
     } else {
       self.push_str(r#"</blockquote><div class="attribution">&#8212; "#);
     }
-- 
2.43.0


From 9f6b8f4850b71ff864cb18a549bd69d6d40974ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 098/118] fix: titled verse is closed by the element it is
 opened with

---
 backend-html5s/src/html5s.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 958285e..20857f7 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -431,8 +431,11 @@ impl Backend for Html5s {
   }
 
   fn enter_verse_block(&mut self, block: &Block, has_attribution: bool) {
-    self.open_element("div", &["verse-block"], &block.meta.attrs);
-    self.render_buffered_block_title(block, false);
+    let el = if block.has_title() { "section" } else { "div" };
+    self.open_element(el, &["verse-block"], &block.meta.attrs);
+    if block.has_title() {
+      self.render_buffered_block_title(block, true);
+    }
     if has_attribution {
       self.push_str(r#"<blockquote class="verse">"#);
     }
-- 
2.43.0


From 3b46460de8df20c82451da7ec0c12fe8f35da773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:08 +0000
Subject: [PATCH 099/118] fix: styles of description and callout lists hold for
 the list, items without description are closed, toc after a preamble without
 a title

---
 dr-html-backend/src/asciidoctor_html.rs | 97 +++++++++++++++----------
 1 file changed, 59 insertions(+), 38 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index d9d8af7..ae6443a 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -23,6 +23,9 @@ pub struct AsciidoctorHtml {
   table_caption_num: usize,
   example_caption_num: usize,
   listing_caption_num: usize,
+  desc_list_styles: Vec<Option<EphemeralState>>,
+  in_titled_preamble: bool,
+  callout_list_tables: Vec<bool>,
   state: BackendState,
 }
 
@@ -153,7 +156,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_toc(&mut self, toc: &TableOfContents, macro_block: Option<&Block>) {
-    if toc.position == TocPosition::Preamble {
+    if toc.position == TocPosition::Preamble && self.in_titled_preamble {
       self.push_str("</div>"); // close preamble section body
     }
     self.on_toc_enter();
@@ -177,7 +180,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_toc(&mut self, toc: &TableOfContents) {
-    if toc.position != TocPosition::Preamble {
+    if toc.position != TocPosition::Preamble || !self.in_titled_preamble {
       self.push_str("</div>");
     }
     self.on_toc_exit();
@@ -262,6 +265,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_preamble(&mut self, doc_has_title: bool, _blocks: &[Block]) {
+    self.in_titled_preamble = doc_has_title;
     if doc_has_title {
       self.push_str(r#"<div id="preamble"><div class="sectionbody">"#);
     }
@@ -269,6 +273,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_preamble(&mut self, doc_has_title: bool, _blocks: &[Block]) {
+    self.in_titled_preamble = false;
     if doc_has_title {
       self.push_str("</div></div>");
     }
@@ -313,8 +318,7 @@ impl Backend for AsciidoctorHtml {
   fn exit_meta_title(&mut self, block: &Block) {
     match block.context {
       // these don't render their title
-      BlockContext::CalloutList
-      | BlockContext::Comment
+      BlockContext::Comment
       | BlockContext::DiscreteHeading
       | BlockContext::DocumentAttributeDecl
       | BlockContext::PageBreak
@@ -576,23 +580,24 @@ impl Backend for AsciidoctorHtml {
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.autogen_conum = 1;
     self.open_element("div", &["colist arabic"], &block.meta.attrs);
-    self.push_str(if self.doc_meta.icon_mode() != IconMode::Text { "<table>" } else { "<ol>" });
+    self.render_buffered_block_title(block);
+    let is_table = self.doc_meta.icon_mode() != IconMode::Text;
+    self.callout_list_tables.push(is_table);
+    self.push_str(if is_table { "<table>" } else { "<ol>" });
   }
 
   #[instrument(skip_all)]
   fn exit_callout_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.push_str(if self.doc_meta.icon_mode() != IconMode::Text {
-      "</table></div>"
-    } else {
-      "</ol></div>"
-    });
+    let is_table = self.callout_list_tables.pop() == Some(true);
+    self.push_str(if is_table { "</table></div>" } else { "</ol></div>" });
   }
 
   #[instrument(skip_all)]
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.state.desc_list_depth += 1;
+    let mut style = None;
     if block.meta.attrs.has_str_positional("horizontal") {
-      self.state.ephemeral.insert(InHorizontalDescList);
+      style = Some(InHorizontalDescList);
       self.open_element("div", &["hdlist"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<table>");
@@ -619,12 +624,12 @@ impl Backend for AsciidoctorHtml {
         self.push_str("</colgroup>");
       }
     } else if block.meta.attrs.has_str_positional("qanda") {
-      self.state.ephemeral.insert(InQandaDescList);
+      style = Some(InQandaDescList);
       self.open_element("div", &["qlist", "qanda"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<ol>");
     } else if block.meta.attrs.special_sect() == Some(SpecialSection::Glossary) {
-      self.state.ephemeral.insert(InGlossaryList);
+      style = Some(InGlossaryList);
       self.open_element("div", &["dlist", "glossary"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<dl>");
@@ -633,28 +638,27 @@ impl Backend for AsciidoctorHtml {
       self.render_buffered_block_title(block);
       self.push_str("<dl>");
     }
+    self.desc_list_styles.push(style);
   }
 
   #[instrument(skip_all)]
   fn exit_description_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.state.ephemeral.remove(&InGlossaryList);
-    if self.state.ephemeral.remove(&InHorizontalDescList) {
-      self.push_str("</table></div>");
-    } else if self.state.ephemeral.remove(&InQandaDescList) {
-      self.push_str("</ol></div>");
-    } else {
-      self.push_str("</dl></div>");
+    match self.desc_list_styles.pop().flatten() {
+      Some(InHorizontalDescList) => self.push_str("</table></div>"),
+      Some(InQandaDescList) => self.push_str("</ol></div>"),
+      _ => self.push_str("</dl></div>"),
     }
     self.state.desc_list_depth -= 1;
   }
 
   #[instrument(skip_all)]
   fn enter_description_list_term(&mut self, _item: &ListItem, num: usize, _total: usize) {
-    if self.state.ephemeral.contains(&InGlossaryList) {
+    if self.in_desc_list(InGlossaryList) {
       self.push_str(r#"<dt>"#);
-    } else if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str(r#"<tr><td class="hdlist1">"#);
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
+    } else if self.in_desc_list(InHorizontalDescList) {
+      let start = if num == 1 { r#"<tr><td class="hdlist1">"# } else { "<br>" };
+      self.push_str(start);
+    } else if self.in_desc_list(InQandaDescList) {
       if num == 1 {
         self.push_str(r#"<li>"#);
       }
@@ -665,11 +669,22 @@ impl Backend for AsciidoctorHtml {
   }
 
   #[instrument(skip_all)]
-  fn exit_description_list_term(&mut self, _item: &ListItem, _num: usize, _total: usize) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str("</td>");
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
+  fn exit_description_list_term(&mut self, item: &ListItem, num: usize, total: usize) {
+    let is_last = num == total;
+    let is_described = !item.blocks.is_empty()
+      || matches!(&item.type_meta, ListItemTypeMeta::DescList { description, .. } if description.is_some());
+    if self.in_desc_list(InHorizontalDescList) {
+      if is_last {
+        self.push_str("</td>");
+      }
+      if is_last && !is_described {
+        self.push_str(r#"<td class="hdlist2"></td></tr>"#);
+      }
+    } else if self.in_desc_list(InQandaDescList) {
       self.push_str(r#"</em></p>"#);
+      if is_last && !is_described {
+        self.push_str("</li>");
+      }
     } else {
       self.push_str("</dt>");
     }
@@ -677,18 +692,18 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_description_list_description(&mut self, _item: &ListItem) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
+    if self.in_desc_list(InHorizontalDescList) {
       self.push_str(r#"<td class="hdlist2">"#);
-    } else if !self.state.ephemeral.contains(&InQandaDescList) {
+    } else if !self.in_desc_list(InQandaDescList) {
       self.push_str("<dd>");
     }
   }
 
   #[instrument(skip_all)]
   fn exit_description_list_description(&mut self, _item: &ListItem) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
+    if self.in_desc_list(InHorizontalDescList) {
       self.push_str("</td></tr>");
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
+    } else if self.in_desc_list(InQandaDescList) {
       self.push_str("</li>");
     } else {
       self.push_str("</dd>");
@@ -722,7 +737,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_list_item_principal(&mut self, item: &ListItem, list_variant: ListVariant) {
-    if list_variant != ListVariant::Callout || self.doc_meta.icon_mode() == IconMode::Text {
+    if !self.is_callout_table(list_variant) {
       self.push_str("<li><p>");
       self.render_checklist_item(item);
     } else {
@@ -740,10 +755,8 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_list_item_principal(&mut self, _item: &ListItem, list_variant: ListVariant) {
-    if list_variant != ListVariant::Callout || self.doc_meta.icon_mode() == IconMode::Text {
+    if !self.is_callout_table(list_variant) {
       self.push_str("</p>");
-    } else {
-      self.push_str("</td>");
     }
   }
 
@@ -752,10 +765,10 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_list_item_blocks(&mut self, _blocks: &[Block], _items: &ListItem, variant: ListVariant) {
-    if variant != ListVariant::Callout || self.doc_meta.icon_mode() == IconMode::Text {
+    if !self.is_callout_table(variant) {
       self.push_str("</li>");
     } else {
-      self.push_str("</tr>");
+      self.push_str("</td></tr>");
     }
   }
 
@@ -1597,6 +1610,14 @@ impl AsciidoctorHtml {
     self.html
   }
 
+  fn is_callout_table(&self, variant: ListVariant) -> bool {
+    variant == ListVariant::Callout && self.callout_list_tables.last() == Some(&true)
+  }
+
+  fn in_desc_list(&self, style: EphemeralState) -> bool {
+    self.desc_list_styles.last() == Some(&Some(style))
+  }
+
   fn render_buffered_block_title(&mut self, block: &Block) {
     if block.has_title() {
       let buf = self.take_buffer();
-- 
2.43.0


From 1e792e123d6f99feda60f5c8b95a160ac8e86797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:09 +0000
Subject: [PATCH 100/118] fix: nested lists keep their ids, roles and titles

---
 backend-html5s/src/html5s.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 20857f7..d09830d 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -516,7 +516,7 @@ impl Backend for Html5s {
     if items.iter().any(ListItem::is_checklist) {
       list.push_class("task-list");
     }
-    if depth == 1 {
+    if list_wrapped(block, depth) {
       self.push_open_tag(wrap);
     }
     self.render_buffered_block_title(block, true);
@@ -526,7 +526,7 @@ impl Backend for Html5s {
   fn exit_unordered_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.interactive_list_stack.pop();
     self.push_str("</ul>");
-    if depth == 1 {
+    if list_wrapped(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
   }
@@ -552,7 +552,7 @@ impl Backend for Html5s {
     self.state.desc_list_depth += 1;
     let el = if block.has_title() { "section" } else { "div" };
     let mut tag = OpenTag::new(el, &block.meta.attrs);
-    if depth == 1 {
+    if list_wrapped(block, depth) {
       tag.push_class("dlist");
     }
     let is_horizontal = block.meta.attrs.has_str_positional("horizontal");
@@ -567,7 +567,7 @@ impl Backend for Html5s {
       self.state.ephemeral.insert(InGlossaryList);
       tag.push_class("glossary");
     }
-    if depth == 1 {
+    if list_wrapped(block, depth) {
       self.push_open_tag(tag);
       if is_qanda {
         self.html.pop();
@@ -590,7 +590,7 @@ impl Backend for Html5s {
   fn exit_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.ephemeral.remove(&InGlossaryList);
     self.push_str("</dl>");
-    if depth == 1 {
+    if list_wrapped(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
     self.state.desc_list_depth -= 1;
@@ -627,7 +627,7 @@ impl Backend for Html5s {
 
   fn enter_ordered_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
     let (class, list_type) = self.start_enter_ordered_list(block, depth);
-    if depth == 1 {
+    if list_wrapped(block, depth) {
       let classes = &["olist", class];
       let el = if block.has_title() { "section" } else { "div" };
       self.open_element(el, classes, &block.meta.attrs);
@@ -639,7 +639,7 @@ impl Backend for Html5s {
   fn exit_ordered_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.interactive_list_stack.pop();
     self.push_str("</ol>");
-    if depth == 1 {
+    if list_wrapped(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
   }
@@ -1687,6 +1687,12 @@ fn finish_open_table_tag(tag: &mut OpenTag, block: &Block, doc_meta: &DocumentMe
   }
 }
 
+/// nested lists have an element around them only for what belongs to the block
+fn list_wrapped(block: &Block, depth: u8) -> bool {
+  let attrs = &block.meta.attrs;
+  depth == 1 || attrs.id().is_some() || attrs.roles().next().is_some() || block.has_title()
+}
+
 fn quote_entities(lang: &str) -> [&'static str; 4] {
   match lang {
     "bs" | "fi" | "sv" => ["&#x2019;", "&#x2019;", "&#x201d;", "&#x201d;"],
-- 
2.43.0


From bdccbc5ef35bb8efe2e3b9725c4abe8e0fb98f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:10 +0000
Subject: [PATCH 101/118] fix: block anchors of nested lists belong to the list

---
 parser/src/contiguous_lines.rs | 9 +++++----
 parser/src/line.rs             | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index 5c5bd6c..c67e374 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -220,13 +220,14 @@ impl<'arena> ContiguousLines<'arena> {
     let Some(line) = self.first() else {
       return false;
     };
-    if !allow_attrs || !line.is_block_attr_list() {
+    if !allow_attrs {
       return line.starts_nested_list(stack);
     }
     self
-      .nth(1)
-      .map(|line| line.starts_nested_list(stack))
-      .unwrap_or(false)
+      .lines
+      .iter()
+      .find(|line| !line.is_block_attr_list() && !line.is_block_anchor())
+      .is_some_and(|line| line.starts_nested_list(stack))
   }
 
   pub fn starts_list_continuation(&self) -> bool {
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 4179ee9..65688a7 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -886,7 +886,7 @@ impl<'arena> Line<'arena> {
     }
     match self.current_token().map(|t| t.kind) {
       None | Some(Plus) => false,
-      Some(OpenBracket) => !self.is_block_attr_list(),
+      Some(OpenBracket) => !self.is_block_attr_list() && !self.is_block_anchor(),
       _ => !self.starts_list_item() && !self.is_any_delimiter(),
     }
   }
-- 
2.43.0


From 86c28dd6041da126b6595814713b78df40d538ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:15 +0000
Subject: [PATCH 102/118] fix: attributes of a html5s image that isn't an img
 were put into the end tag of its svg, object or alt text

---
 backend-html5s/src/html5s.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index d09830d..e8476bc 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1137,7 +1137,7 @@ impl Backend for Html5s {
       false
     };
 
-    self.render_image(target, attrs, kind, false);
+    let mut img_attrs = String::new();
     let mut style = String::new();
     if let Some(align) = attrs.named("align") {
       style.push_str("text-align: ");
@@ -1154,22 +1154,32 @@ impl Backend for Html5s {
       style.push(';');
     }
     if !style.is_empty() {
-      self.html.pop();
-      self.push([" style=\"", &style, "\">"]);
+      img_attrs.push_str(" style=\"");
+      img_attrs.push_str(&style);
+      img_attrs.push('"');
     }
     if !attrs.roles.is_empty() {
-      self.html.pop();
-      self.push_str(" class=\"");
+      img_attrs.push_str(" class=\"");
       for role in attrs.roles.iter() {
-        self.push_str(&role.src);
-        self.push_ch(' ');
+        img_attrs.push_str(&role.src);
+        img_attrs.push(' ');
       }
-      self.html.pop();
-      self.push_str("\">");
+      img_attrs.pop();
+      img_attrs.push('"');
     }
-    if attrs.named("loading") == Some("lazy") {
+    let start = self.html.len();
+    self.render_image(target, attrs, kind, false);
+    if self.html[start..].starts_with("<img") {
       self.html.pop();
-      self.push_str(r#" loading="lazy">"#);
+      self.push_str(&img_attrs);
+      if attrs.named("loading") == Some("lazy") {
+        self.push_str(r#" loading="lazy""#);
+      }
+      self.push_ch('>');
+    } else if !img_attrs.is_empty() {
+      // an svg, object or alt text has attributes of its own
+      self.html.insert_str(start, &format!("<span{img_attrs}>"));
+      self.push_str("</span>");
     }
     if with_link {
       self.push_str("</a>");
@@ -1387,8 +1397,9 @@ impl Backend for Html5s {
       }
       has_link = true;
     }
+    let start = self.html.len();
     self.render_image(img_target, img_attrs, img_kind, true);
-    if img_attrs.named("loading") == Some("lazy") {
+    if img_attrs.named("loading") == Some("lazy") && self.html[start..].starts_with("<img") {
       self.html.pop();
       self.push_str(r#" loading="lazy">"#);
     }
-- 
2.43.0


From 4e4743b3d621f5d3acaa69ce67bb9b16198c7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:15 +0000
Subject: [PATCH 103/118] fix: panic on more than 255 parens closing an index
 term

---
 parser/src/contiguous_lines.rs               | 2 +-
 parser/src/tasks/parse_inlines/index_term.rs | 4 ++--
 parser/src/token.rs                          | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index c67e374..1e4487b 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -281,7 +281,7 @@ impl<'arena> ContiguousLines<'arena> {
     if !self
       .lines
       .iter()
-      .all(|l| l.current_satisfies(Len(len as u8, Whitespace)) && l.num_tokens() > 1)
+      .all(|l| l.current_satisfies(Len(len, Whitespace)) && l.num_tokens() > 1)
     {
       return false;
     }
diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index a2ad440..553a716 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -83,7 +83,7 @@ impl<'arena> Parser<'arena> {
     while lines.current_token().is_whitespaceish() {
       lines.consume_current_token();
     }
-    let mut term = self.parse_inlines_until(lines, &[Len(end_len as u8, CloseParens)])?;
+    let mut term = self.parse_inlines_until(lines, &[Len(end_len, CloseParens)])?;
     term.trim_trailing_whitespace();
     if let Some(term_end) = term.last_loc() {
       node_loc.extend(term_end);
@@ -123,7 +123,7 @@ impl<'arena> Parser<'arena> {
     lines: &mut ContiguousLines<'arena>,
   ) -> Result<(Inline<'arena>, SourceLocation)> {
     lines.restore_if_nonempty(line);
-    let mut terms = lines.consume_splitting_csv_until(Len(end_len as u8, CloseParens), self.bump);
+    let mut terms = lines.consume_splitting_csv_until(Len(end_len, CloseParens), self.bump);
     if terms.len() > 3 {
       self.err_at(
         "too many terms in concealed indexterm, max 3",
diff --git a/parser/src/token.rs b/parser/src/token.rs
index b6139e0..4dd63f4 100644
--- a/parser/src/token.rs
+++ b/parser/src/token.rs
@@ -70,7 +70,7 @@ pub enum TokenKind {
 #[derive(Clone, Copy, PartialEq, Eq, Debug)]
 pub enum TokenSpec {
   Kind(TokenKind),
-  Len(u8, TokenKind),
+  Len(usize, TokenKind),
   Not(TokenKind),
   OneOf(&'static [TokenKind]),
   NotOneOf(&'static [TokenKind]),
@@ -236,7 +236,7 @@ impl TokenIs for Token<'_> {
     match spec {
       TokenSpec::Kind(kind) => self.kind == kind,
       TokenSpec::Not(kind) => self.kind != kind,
-      TokenSpec::Len(len, kind) => self.kind == kind && self.len() == len as usize,
+      TokenSpec::Len(len, kind) => self.kind == kind && self.len() == len,
       TokenSpec::OneOf(kinds) => kinds.contains(&self.kind),
       TokenSpec::NotOneOf(kinds) => !kinds.contains(&self.kind),
     }
-- 
2.43.0


From 821a33cceb376132681f30a1b2167a459b19b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:58 +0000
Subject: [PATCH 104/118] fix: panic on more than 255 nested description lists

---
 backend/src/html/backend.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index e22acff..6403aa6 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -20,7 +20,7 @@ pub struct BackendState {
   pub nums_outside_toc: ([u16; 5], [u16; 5], u8, usize, bool),
   pub appendix_caption_num: u8,
   pub book_part_num: usize,
-  pub desc_list_depth: u8,
+  pub desc_list_depth: usize,
   pub interactive_list_stack: Vec<bool>,
   pub in_asciidoc_table_cell: bool,
   pub xref_depth: u8,
@@ -599,7 +599,7 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn start_enter_ordered_list(&mut self, block: &Block, depth: u8) -> (&'static str, &'static str) {
-    let non_dd_depth = depth.saturating_sub(self.state().desc_list_depth);
+    let non_dd_depth = usize::from(depth).saturating_sub(self.state().desc_list_depth) as u8;
     self.state_mut().interactive_list_stack.push(false);
     let custom = block.meta.attrs.ordered_list_custom_number_style();
     let list_type = custom
-- 
2.43.0


From fce29e5acd9440f14f1fbd902f68539d812d7b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:48 +0000
Subject: [PATCH 105/118] fix: footnotes and anchors of a title are not
 repeated in the table of contents and in cross references

---
 eval/src/eval.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 502a062..82de97e 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -12,12 +12,15 @@ pub fn eval<B: Backend>(document: &Document, mut backend: B) -> Result<B::Output
 struct Ctx<'a, 'b> {
   doc: &'a Document<'b>,
   resolving_xref: RefCell<bool>,
+  /// within text of e.g. a title that is shown at its own place too
+  repeating_text: RefCell<bool>,
 }
 
 pub fn visit<B: Backend>(doc: &Document, backend: &mut B) {
   let ctx = Ctx {
     doc,
     resolving_xref: RefCell::new(false),
+    repeating_text: RefCell::new(false),
   };
   let render_docinfo = !ctx.doc.meta.embedded;
   backend.enter_document(ctx.doc);
@@ -501,6 +504,8 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
     }
     CurlyQuote(kind) => backend.visit_curly_quote(*kind),
     MultiCharWhitespace(ws) => backend.visit_multichar_whitespace(ws),
+    // belong to where the text is shown first
+    Macro(Footnote { .. }) | InlineAnchor(_) if *ctx.repeating_text.borrow() => {}
     Macro(Footnote { id, text }) => {
       backend.enter_footnote(id.as_ref());
       if let Some(text) = text {
@@ -529,7 +534,11 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       let anchors = ctx.doc.anchors.borrow();
       let anchor = anchors.get(utils::xref::get_id(&target.src));
       let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
-      backend.enter_xref(target, linktext.is_some(), *kind);
+      let has_own_text = linktext.as_ref().is_some_and(|text| !text.is_empty());
+      let within_repeated = *ctx.repeating_text.borrow();
+      if !within_repeated {
+        backend.enter_xref(target, linktext.is_some(), *kind);
+      }
       let within_xref = ctx.resolving_xref.replace(true);
       if within_xref {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
@@ -543,7 +552,9 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
         .filter(|text| !text.is_empty())
       {
         backend.enter_xref_text(is_biblio);
+        ctx.repeating_text.replace(within_repeated || !has_own_text);
         text.iter().for_each(|node| eval_inline(node, ctx, backend));
+        ctx.repeating_text.replace(within_repeated);
         backend.exit_xref_text(is_biblio);
       } else if let Some(text) = linktext {
         backend.enter_xref_text(is_biblio);
@@ -553,7 +564,9 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       }
       ctx.resolving_xref.replace(within_xref);
-      backend.exit_xref(target, linktext.is_some(), *kind);
+      if !within_repeated {
+        backend.exit_xref(target, linktext.is_some(), *kind);
+      }
     }
     Macro(Icon { target, attrs }) => backend.visit_icon_macro(target, attrs),
     Macro(Plugin(plugin_macro)) => backend.visit_plugin_macro(plugin_macro),
@@ -706,7 +719,9 @@ fn eval_toc_level(nodes: &[TocNode], ctx: &Ctx, backend: &mut impl Backend) {
     nodes.iter().for_each(|node| {
       backend.enter_toc_node(node);
       backend.enter_toc_content();
+      ctx.repeating_text.replace(true);
       node.title.iter().for_each(|n| eval_inline(n, ctx, backend));
+      ctx.repeating_text.replace(false);
       backend.exit_toc_content();
       eval_toc_level(&node.children, ctx, backend);
       backend.exit_toc_node(node);
-- 
2.43.0


From 4baa2a03eee16875624ceb38e5f7aa7f15ea8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 106/118] fix: a modifiable job attribute takes precedence over
 the default value

---
 core/src/document_meta.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 346597a..b293c40 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -215,13 +215,16 @@ impl DocumentMeta {
   }
 
   fn resolve_attr(&self, key: &str) -> Option<&AttrValue> {
-    match self.doc_attrs.get(key) {
-      Some(value) => Some(value),
-      None => match self.header_attrs.get(key) {
-        Some(value) => Some(value),
-        None => self.default_attrs.get(key),
-      },
-    }
+    self
+      .document_attr(key)
+      .or_else(|| self.default_attrs.get(key))
+  }
+
+  fn document_attr(&self, key: &str) -> Option<&AttrValue> {
+    self
+      .doc_attrs
+      .get(key)
+      .or_else(|| self.header_attrs.get(key))
   }
 
   pub const fn header_attrs(&self) -> &Attrs {
@@ -245,7 +248,7 @@ impl ReadAttr for DocumentMeta {
 
       key => match self.job_attrs.get(key) {
         Some(JobAttr { readonly: true, value }) => Some(value),
-        Some(JobAttr { readonly: false, value }) => self.resolve_attr(key).or(Some(value)),
+        Some(JobAttr { readonly: false, value }) => self.document_attr(key).or(Some(value)),
         _ if key == "doctitle" => self
           .resolve_attr("doctitle")
           .or_else(|| self.resolve_attr("_asciidork_derived_doctitle")),
-- 
2.43.0


From 32949057d7851e80102f3732100f896325dee85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 107/118] fix: line numbers after a continued attribute entry
 in an AsciiDoc table cell

---
 parser/src/line.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 65688a7..259da61 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1024,6 +1024,13 @@ impl<'arena> Line<'arena> {
       if line_start {
         locs.push(token.loc);
       }
+      if token.kind(AttrDef) {
+        // may be continued on further lines
+        for (idx, _) in token.lexeme.match_indices('\n') {
+          let start = token.loc.start + idx as u32 + 1;
+          locs.push(SourceLocation::new(start, start, token.loc.include_depth));
+        }
+      }
       line_start = token.kind(Newline);
     }
     locs
-- 
2.43.0


From 6a0058a70a0ef2d8457119b6d97e6e026216fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 108/118] fix: what a dropped or empty attribute reference is
 in or followed by is kept if it is passed through

---
 parser/src/tasks/attr_refs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index d8d87ee..39a248e 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -75,9 +75,9 @@ impl<'arena> Parser<'arena> {
               buf_loc = BufLoc::From(def.val_loc);
             }
             self.lexer.set_tmp_buf(attr_val, buf_loc);
+            self.ctx.replacing_attr = true;
           }
           line.push(token);
-          self.ctx.replacing_attr = true;
         }
         _ => {
           #[cfg(feature = "attr_ref_observation")]
@@ -85,7 +85,8 @@ impl<'arena> Parser<'arena> {
             observer.attr_ref_missing(token.attr_name(), token.loc);
           }
           match self.document.meta.str("attribute-missing") {
-            Some("drop") => {}
+            // nothing is shown in place of it, unless it turns out not to be a reference
+            Some("drop") => line.push(token),
             Some("drop-line") => *drop_line = true,
             val => {
               token.kind = TokenKind::Word;
-- 
2.43.0


From f50bfc28a9d48cba19dba95c4d10e3f169021cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:02 +0000
Subject: [PATCH 109/118] fix: missing references in values of attributes
 follow attribute-missing, names are not case-sensitive there

---
 parser/src/docinfo.rs               |  2 +-
 parser/src/tasks/attr_refs.rs       |  6 ++++++
 parser/src/tasks/parse_block.rs     |  2 +-
 parser/src/tasks/parse_doc_attrs.rs | 28 +++++++++++++++++++++-------
 4 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/parser/src/docinfo.rs b/parser/src/docinfo.rs
index cbb3e60..bdfba9c 100644
--- a/parser/src/docinfo.rs
+++ b/parser/src/docinfo.rs
@@ -267,7 +267,7 @@ impl Parser<'_> {
     let mut drop_line = false;
     let replaced = regx::ATTR_VAL_REPLACE.replace_all(line_src, |caps: &regex::Captures| {
       let attr_name = caps.get(1).unwrap().as_str();
-      match self.document.meta.get(attr_name).and_then(AttrValue::str) {
+      match self.document.meta.str(&attr_name.to_lowercase()) {
         Some(value) => value.to_string(),
         _ => match attr_missing {
           Some("drop") => String::new(),
diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index 39a248e..c98f66f 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -51,6 +51,12 @@ impl<'arena> Parser<'arena> {
         self.ctx.replacing_attr = false;
       }
     }
+    if token.kind(TokenKind::AttrRef) && token.attr_replacement {
+      // NB: references in the value were replaced when it was set
+      token.kind = TokenKind::Word;
+      line.push(token);
+      return Ok(());
+    }
     // NB: directives are preprocessed, regardless of the substitutions of the block they are in
     let replace_refs = self.ctx.subs.attr_refs() || line.starts(TokenKind::Directive);
     if token.kind(TokenKind::AttrRef) && replace_refs {
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index fa8c554..bfb0285 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -109,7 +109,7 @@ impl<'arena> Parser<'arena> {
         let mut def = self.ctx.attr_defs.remove(pos);
         if def.has_lbrace {
           let str_val = def.value.str().unwrap(); // only str type could have lbrace
-          let replaced = self.replace_attr_vals(str_val);
+          let replaced = self.replace_attr_def_vals(str_val);
           def.value = AttrValue::String(replaced.into_owned());
         }
         self.ctx.attr_defs.push(def.clone());
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 8982a63..a0cd1fb 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -148,7 +148,7 @@ impl<'arena> Parser<'arena> {
         self.err_line_starting("Cannot unset attr with `!` AND provide value", token.loc)?;
       }
       let mut value_string = if has_lbrace && self.ctx.in_header {
-        self.replace_attr_vals(value_str).into_owned()
+        self.replace_attr_def_vals(value_str).into_owned()
       } else {
         value_str.to_string()
       };
@@ -253,14 +253,28 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  /// references in the value of an attribute entry
+  pub(crate) fn replace_attr_def_vals<'h>(&self, haystack: &'h str) -> Cow<'h, str> {
+    match self.document.meta.str("attribute-missing") {
+      Some("drop" | "drop-line") => self.replace_attr_vals(haystack),
+      _ => self.replace_attr_vals_or(haystack, |missing| missing.to_string()),
+    }
+  }
+
   pub(crate) fn replace_attr_vals<'h>(&self, haystack: &'h str) -> Cow<'h, str> {
+    self.replace_attr_vals_or(haystack, |_| String::new())
+  }
+
+  fn replace_attr_vals_or<'h>(
+    &self,
+    haystack: &'h str,
+    missing: impl Fn(&str) -> String,
+  ) -> Cow<'h, str> {
     regx::ATTR_VAL_REPLACE.replace_all(haystack, |caps: &regex::Captures| {
-      if let Some(AttrValue::String(replace)) =
-        self.document.meta.get(caps.get(1).unwrap().as_str())
-      {
-        replace
-      } else {
-        ""
+      match self.document.meta.get(&caps[1].to_lowercase()) {
+        Some(AttrValue::String(value)) => value.to_string(),
+        Some(AttrValue::Bool(true)) => String::new(),
+        _ => missing(&caps[0]),
       }
     })
   }
-- 
2.43.0


From 1bc9eb91338fa42a6d8788eb0c0ae8973cd7213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:44 +0000
Subject: [PATCH 110/118] fix: callouts explained by a list in a table cell are
 done with for the rest of the document

---
 parser/src/parse_context.rs    | 12 ++++++------
 parser/src/tasks/parse_list.rs |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 655414b..da1c6dc 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -158,12 +158,12 @@ impl<'arena> ParseContext<'arena> {
     *callouts.last().unwrap()
   }
 
-  pub fn advance_callout_list(&mut self, bump: &'arena Bump) {
-    let last = { self.callouts.borrow().last().copied() };
-    if let Some(last) = last {
-      self.callouts = Rc::new(RefCell::new(
-        bvec![in bump; Callout::new(last.list_idx.saturating_add(1), 0, 0, false)],
-      ));
+  pub fn advance_callout_list(&mut self) {
+    // NB: shared with the cells of tables
+    let mut callouts = self.callouts.borrow_mut();
+    if let Some(last) = callouts.last().copied() {
+      callouts.clear();
+      callouts.push(Callout::new(last.list_idx.saturating_add(1), 0, 0, false));
     }
   }
 
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index f35ad15..9c3619e 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -40,7 +40,7 @@ impl<'arena> Parser<'arena> {
     }
     self.ctx.list.stack.pop();
     if variant == ListVariant::Callout {
-      self.ctx.advance_callout_list(self.bump);
+      self.ctx.advance_callout_list();
     }
 
     Ok(Block {
-- 
2.43.0


From fff5f29fa994a7d49b9fb27a251514c6e4414f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:44 +0000
Subject: [PATCH 111/118] fix: no other blocks start in a paragraph with a
 verbatim style

---
 parser/src/tasks/parse_block.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index bfb0285..20ae936 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -61,6 +61,16 @@ impl<'arena> Parser<'arena> {
 
     let first_token = lines.current_token().unwrap();
 
+    // no other blocks start in a paragraph with such a style
+    if matches!(
+      meta.attrs.str_positional_at(0),
+      Some("listing" | "literal" | "source" | "verse")
+    ) && !matches!(first_token.kind, DelimiterLine | AttrDef)
+      && lines.current_satisfies(|line| line.table_delimiter().is_none())
+    {
+      return self.parse_paragraph(lines, meta);
+    }
+
     if lines.is_block_macro() {
       return match first_token.lexeme.as_str() {
         "image:" => self.parse_image_block(lines, meta),
-- 
2.43.0


From e2ad1cfbbd0874406e39f76e5ca3189bd7e3744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:44 +0000
Subject: [PATCH 112/118] fix: two dashes are a comment in front of a callout,
 and others are not if a line comment is set

---
 parser/src/tasks/parse_inlines/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index f194319..8bb02c4 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -414,6 +414,7 @@ impl<'arena> Parser<'arena> {
 
           TermDelimiter
             if subs.callouts()
+              && self.ctx.custom_line_comment.is_none()
               && token.is_len(2)
               && line.current_is(Whitespace)
               && token.lexeme == ";;" // this is a happy accident
@@ -424,14 +425,16 @@ impl<'arena> Parser<'arena> {
 
           Hash
             if subs.callouts()
+              && self.ctx.custom_line_comment.is_none()
               && line.current_is(Whitespace)
               && line.continues_valid_callout_nums() =>
           {
             push_callout_tuck(token, &mut line, &mut acc);
           }
 
-          ForwardSlashes
+          ForwardSlashes | Dashes
             if subs.callouts()
+              && self.ctx.custom_line_comment.is_none()
               && token.is_len(2)
               && line.current_is(Whitespace)
               && line.continues_valid_callout_nums() =>
-- 
2.43.0


From b808d176a5f925a45ec2533c6965c63386c575da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:11 +0000
Subject: [PATCH 113/118] fix: line ends in the role of formatted text, and in
 the subject and body of a mailto, whatever the line ends of the file

---
 parser/src/lexer/root_lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 6395fac..7b77998 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -145,7 +145,12 @@ impl<'arena> RootLexer<'arena> {
   pub fn src_string_from_loc(&self, loc: SourceLocation) -> SourceString<'arena> {
     let src_str = self.str_from_loc(loc);
     let mut src = BumpString::with_capacity_in(src_str.len(), self.bump);
-    src.push_str(src_str);
+    for (i, line) in src_str.split("\r\n").enumerate() {
+      if i > 0 {
+        src.push('\n');
+      }
+      src.push_str(line);
+    }
     SourceString::new(src, loc)
   }
 
-- 
2.43.0


From 66a63bb3efb4609fbbfec6ff7a8bfc4171f107e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:21 +0000
Subject: [PATCH 114/118] fix: description lists in delimited blocks have items
 and continuations

---
 parser/src/parse_context.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index da1c6dc..a8ec586 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -213,12 +213,11 @@ impl<'arena> ParseContext<'arena> {
   }
 
   pub fn parsing_description_list(&self) -> bool {
-    self.delimiter.is_none()
-      && self
-        .list
-        .stack
-        .last()
-        .is_some_and(|last| last.is_description())
+    self
+      .list
+      .stack
+      .last()
+      .is_some_and(|last| last.is_description())
   }
 
   pub fn within_block_comment(&self) -> bool {
-- 
2.43.0


From f621262331077c9ae5744fc7e8c94299a660bc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:02 +0000
Subject: [PATCH 115/118] fix: lines of block attributes end a paragraph in
 delimited blocks too

---
 parser/src/tasks/parse_inlines/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 8bb02c4..0437e81 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1124,7 +1124,7 @@ impl<'arena> Parser<'arena> {
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
     // new block from attr list-ish
-    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.delimiter.is_none())
+    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.can_nest_blocks)
 
     // description list
     || (
-- 
2.43.0


From 71c8c76f94d080152a1248098b23a6f2a4b406fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:07 +0000
Subject: [PATCH 116/118] fix: comment blocks in front of the header neither
 take the text after them along nor the entries, nor do their lines count

---
 parser/src/parser.rs                 |  8 +++++++-
 parser/src/tasks/parse_doc_header.rs | 17 ++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index baf58f0..d6c9ba3 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -137,7 +137,10 @@ impl<'arena> Parser<'arena> {
         if line.is_empty() {
           // if we encounter a line like `|===` in the very first paragraph,
           // we know we're not in the header anymore, so any attrs refs can be set properly
+          let in_comment = self.ctx.within_block_comment();
           if self.ctx.in_header
+            && !in_comment
+            && token.to_delimiter_kind() != Some(DelimiterKind::Comment)
             && !matches!(
               token.kind,
               Colon | EqualSigns | ForwardSlashes | Directive | OpenBracket
@@ -146,7 +149,10 @@ impl<'arena> Parser<'arena> {
             && !(token.kind == Word && stop_before_empty)
           {
             self.ctx.in_header = false;
-          } else if token.kind == Colon && self.ctx.subs.attr_refs() {
+          } else if token.kind == Colon
+            && self.ctx.subs.attr_refs()
+            && !(self.ctx.in_header && in_comment)
+          {
             self.try_parse_attr_def(&mut token)?;
           }
         }
diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 7effa04..7f5ef58 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -78,13 +78,20 @@ impl<'arena> Parser<'arena> {
       return Ok(end_delim.first_loc());
     }
 
+    let prev = self
+      .ctx
+      .delimiter
+      .replace(Delimiter { kind: DelimiterKind::Comment, len: 4 });
     loop {
       let Some(mut next_lines) = self.read_lines()? else {
+        self.ctx.delimiter = prev;
         self.err_line("Unclosed comment block, started here", &block_start)?;
         return Ok(None);
       };
       if next_lines.discard_until(Line::is_comment_block_delimiter) {
         let end_delim = next_lines.consume_current().unwrap();
+        self.ctx.delimiter = prev;
+        *lines = next_lines;
         return Ok(end_delim.first_loc());
       }
     }
@@ -181,8 +188,16 @@ impl<'arena> Parser<'arena> {
     &self,
     lines: impl Iterator<Item = &'b Line<'b>>,
   ) -> bool {
+    let mut in_comment = self
+      .ctx
+      .delimiter
+      .is_some_and(|d| d.kind == DelimiterKind::Comment);
     for line in lines {
-      if self.line_heading_level(line) == Some(0) {
+      if line.is_comment_block_delimiter() {
+        in_comment = !in_comment;
+      } else if in_comment {
+        continue;
+      } else if self.line_heading_level(line) == Some(0) {
         return true;
       } else if line.is_comment() || line.is_block_attr_list() || line.is_block_anchor() {
         continue;
-- 
2.43.0


From d846f85944347086061cac45d0c8f1d70e6cc8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:07 +0000
Subject: [PATCH 117/118] fix: a revision line that starts with a digit does
 not keep the entries after it from being read

---
 parser/src/parser.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index d6c9ba3..71d53cd 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -145,8 +145,8 @@ impl<'arena> Parser<'arena> {
               token.kind,
               Colon | EqualSigns | ForwardSlashes | Directive | OpenBracket
             )
-            // text can only follow the title, e.g. an author line
-            && !(token.kind == Word && stop_before_empty)
+            // text can only follow the title, e.g. an author or revision line
+            && !(stop_before_empty && (token.kind == Word || self.starts_revision(&token)))
           {
             self.ctx.in_header = false;
           } else if token.kind == Colon
@@ -176,6 +176,14 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  /// whether it is a version number, and not the marker of a list item
+  fn starts_revision(&self, token: &Token<'arena>) -> bool {
+    let next = self
+      .lexer
+      .byte_at(token.loc.end + 1, token.loc.include_depth);
+    token.kind == TokenKind::Digits && !next.is_some_and(|b| b.is_ascii_whitespace())
+  }
+
   pub(crate) fn read_lines(&mut self) -> Result<Option<ContiguousLines<'arena>>> {
     self._read_lines(None)
   }
@@ -414,7 +422,10 @@ impl<'arena> Parser<'arena> {
           anchor_attrs.id = Some(anchor.id);
           if let Some(reftext) = anchor.reftext {
             let mut named = BumpVec::new_in(self.bump);
-            named.push((SourceString::new(self.string("reftext"), anchor.loc), reftext));
+            named.push((
+              SourceString::new(self.string("reftext"), anchor.loc),
+              reftext,
+            ));
             anchor_attrs.named = Named::from(named);
           }
           attrs.push(anchor_attrs);
-- 
2.43.0


From 3842395a0d0838e116db3c96a711bb45efb66ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:07 +0000
Subject: [PATCH 118/118] fix: a version of a single digit is a revision line
 too

---
 parser/src/tasks/parse_revision_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_revision_line.rs b/parser/src/tasks/parse_revision_line.rs
index 8b5c649..89d1520 100644
--- a/parser/src/tasks/parse_revision_line.rs
+++ b/parser/src/tasks/parse_revision_line.rs
@@ -27,7 +27,7 @@ impl Parser<'_> {
 
     // only revision, must start with `v` then digit
     if captures.get(2).is_none() && captures.get(3).is_none() {
-      if Regex::new(r"^v(\d[^\s]+)$").unwrap().is_match(raw_version) {
+      if Regex::new(r"^v(\d[^\s]*)$").unwrap().is_match(raw_version) {
         self
           .document
           .meta
-- 
2.43.0

