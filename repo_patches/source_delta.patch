From 5839864d51adef94de24aa35408acf073918113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 01/29] fix: do not panic on headings with more than 65535
 levels

---
 src/block.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index cf43e85..6c73afa 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -988,10 +988,9 @@ impl<'s> IdentifiedBlock<'s> {
             '#' => chars
                 .find(|c| *c != '#')
                 .is_none_or(|c| c.is_ascii_whitespace())
-                .then(|| {
-                    let level = line.bytes().take_while(|c| *c == b'#').count();
-                    (Kind::Heading { level }, indent..(indent + level))
-                }),
+                .then(|| line.bytes().take_while(|c| *c == b'#').count())
+                .filter(|level| u16::try_from(*level).is_ok())
+                .map(|level| (Kind::Heading { level }, indent..(indent + level))),
             '>' => {
                 if chars.next().is_none_or(|c| c.is_ascii_whitespace()) {
                     Some((Kind::Blockquote, indent..(indent + 1)))
-- 
2.43.0


From 8edc97669f9bbff7fe01ea11bc5d8b4a3f4aa59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 02/29] fix: remove indentation of div from its first line too

---
 src/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 6c73afa..7884a8a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -586,7 +586,9 @@ impl<'s> TreeParser<'s> {
         lines: &mut [std::ops::Range<usize>],
     ) {
         // update spans, remove indentation / container prefix
-        lines.iter_mut().skip(1).for_each(|sp| {
+        // (first line is already stripped, or is the opening fence which is not part of lines)
+        let first = usize::from(!matches!(k, Kind::Fenced { .. }));
+        lines.iter_mut().skip(first).for_each(|sp| {
             let src = &self.src[sp.clone()];
             let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
             let whitespace = src_t.as_ptr() as usize - src.as_ptr() as usize;
-- 
2.43.0


From 850b17e4ea9c5fcc19061056bd0dbc1f55a15847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 03/29] fix: remove container indentation from lines with only
 whitespace

---
 src/block.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 7884a8a..fa23e3a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -591,7 +591,10 @@ impl<'s> TreeParser<'s> {
         lines.iter_mut().skip(first).for_each(|sp| {
             let src = &self.src[sp.clone()];
             let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
-            let whitespace = src_t.as_ptr() as usize - src.as_ptr() as usize;
+            let whitespace = src
+                .bytes()
+                .take_while(|c| c.is_ascii_whitespace() && *c != b'\n')
+                .count();
             let skip = match k {
                 Kind::Blockquote => {
                     if src_t == ">" {
-- 
2.43.0


From b1a3c14992ec3c346787ce1c765d2dd0ff5155c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 04/29] fix: do not apply block attributes to headings and link
 definitions after or inside the block

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f54dd63..90b89a5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2232,6 +2232,7 @@ impl<'s> PrePass<'s> {
                         "".into() // static
                     };
                     link_definitions.insert(label, (url, attrs));
+                    attr_prev = Vec::new();
                 }
                 block::EventKind::Enter(block::Node::Leaf(block::Leaf::Heading { .. })) => {
                     // All headings ids have to be obtained initially, as references can appear
@@ -2319,11 +2320,14 @@ impl<'s> PrePass<'s> {
                         text,
                         id_override,
                     });
+                    attr_prev = Vec::new();
                 }
                 block::EventKind::Atom(block::Atom::Attributes) => {
                     attr_prev.push(e.span.clone());
                 }
-                block::EventKind::Enter(..)
+                block::EventKind::Enter(block::Node::Container(block::Container::Section {
+                    ..
+                }))
                 | block::EventKind::Exit(block::Node::Container(block::Container::Section {
                     ..
                 })) => {}
-- 
2.43.0


From fda375540070eadeaaad7642309f0ab671428952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 05/29] fix: backslash at end of line and on continuation lines
 of quoted attribute values

---
 src/attr.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index e56773e..1ad6d39 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -746,7 +746,14 @@ impl<'s> Parser<'s> {
 
             let st = std::mem::replace(&mut self.state, state_next);
 
-            if st != self.state && !matches!((st, self.state), (ValueEscape, _) | (_, ValueEscape))
+            if st != self.state
+                && !matches!(
+                    (st, self.state),
+                    (ValueEscape, ValueQuoted)
+                        | (ValueQuoted, ValueEscape)
+                        | (ValueContinuedEscape, ValueContinued)
+                        | (ValueContinued, ValueContinuedEscape)
+                )
             {
                 let content = &input[pos_prev..pos];
                 pos_prev = pos;
@@ -759,11 +766,10 @@ impl<'s> Parser<'s> {
                         },
                         "".into(),
                     )),
-                    Value | ValueQuoted | ValueContinued => {
+                    Value | ValueQuoted | ValueEscape | ValueContinued | ValueContinuedEscape => {
                         let last = self.attrs.len() - 1;
-                        self.attrs.0[last]
-                            .1
-                            .extend(&content[usize::from(matches!(st, ValueQuoted))..]);
+                        let quote = usize::from(matches!(st, ValueQuoted | ValueEscape));
+                        self.attrs.0[last].1.extend(&content[quote..]);
                     }
                     Comment | CommentNewline => {
                         let last = self.attrs.len() - 1;
@@ -815,6 +821,7 @@ enum State {
     ValueEscape,
     ValueNewline,
     ValueContinued,
+    ValueContinuedEscape,
     Done,
     Invalid,
 }
@@ -854,10 +861,15 @@ impl State {
             ValueFirst if c == b'"' => ValueQuoted,
             ValueFirst => Invalid,
             ValueQuoted | ValueNewline | ValueContinued if c == b'"' => Whitespace,
-            ValueQuoted | ValueNewline | ValueContinued | ValueEscape if c == b'\n' => ValueNewline,
+            ValueQuoted | ValueNewline | ValueContinued | ValueEscape | ValueContinuedEscape
+                if c == b'\n' =>
+            {
+                ValueNewline
+            }
             ValueQuoted if c == b'\\' => ValueEscape,
             ValueQuoted | ValueEscape => ValueQuoted,
-            ValueNewline | ValueContinued => ValueContinued,
+            ValueNewline | ValueContinued if c == b'\\' => ValueContinuedEscape,
+            ValueNewline | ValueContinued | ValueContinuedEscape => ValueContinued,
             Invalid | Done => panic!("{self:?}"),
         }
     }
-- 
2.43.0


From 8c225e50073b5b11188ef07d5c003afb0a19385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 06/29] fix: return empty class value if class key exists

---
 src/attr.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index 1ad6d39..1865102 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -351,17 +351,13 @@ impl<'s> Attributes<'s> {
     #[must_use]
     pub fn get_value(&self, key: &str) -> Option<AttributeValue<'_>> {
         if key == "class" {
-            let mut value = AttributeValue::new();
+            let mut value = None;
             for (k, v) in &self.0 {
                 if k.key() == Some("class") {
-                    value.extend(&v.raw);
+                    value.get_or_insert_with(AttributeValue::new).extend(&v.raw);
                 }
             }
-            if value.raw.is_empty() {
-                None
-            } else {
-                Some(value)
-            }
+            value
         } else {
             self.0
                 .iter()
-- 
2.43.0


From 372bda6aec443edb8ed22d1a75ea4bc3ea7288ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 07/29] fix: ignore escapes on continuation lines of inline
 verbatim

---
 src/inline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/inline.rs b/src/inline.rs
index c09f477..189ca1f 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -118,7 +118,9 @@ impl<'s> Input<'s> {
     }
 
     fn set_current_line(&mut self, line: std::ops::Range<usize>) {
+        let verbatim = self.lexer.verbatim;
         self.lexer = lex::Lexer::new(&self.src.as_bytes()[line.clone()]);
+        self.lexer.verbatim = verbatim;
         self.span = line.start..line.start;
         self.span_line = line;
     }
-- 
2.43.0


From ac68592d89d46f943e33f928161561fb84fd2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 08/29] fix: do not drop caret at start of link text

---
 src/inline.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 189ca1f..478803c 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -657,20 +657,13 @@ impl<'s> Parser<'s> {
                 })
             )
         {
-            let tok = self.input.eat();
-            debug_assert_eq!(
-                tok,
-                Some(lex::Token {
-                    kind: lex::Kind::Sym(Symbol::Caret),
-                    len: 1,
-                })
-            );
             let mut end = false;
             let len = self
                 .input
                 .lexer
                 .ahead()
                 .iter()
+                .skip(1) // ^
                 .take_while(|c| {
                     if **c == b'[' {
                         return false;
@@ -682,6 +675,14 @@ impl<'s> Parser<'s> {
                 })
                 .count();
             if end {
+                let tok = self.input.eat();
+                debug_assert_eq!(
+                    tok,
+                    Some(lex::Token {
+                        kind: lex::Kind::Sym(Symbol::Caret),
+                        len: 1,
+                    })
+                );
                 self.input.lexer.skip_ahead(len + 1);
                 let span_label = self.input.span.end..(self.input.span.end + len);
                 let label = &self.input.src[span_label.clone()];
-- 
2.43.0


From d1fe5a68ab00dbafd62b335931a52beb3df0e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 09/29] fix: explicit left single quote is left even if
 unmatched

---
 src/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index 478803c..e6b62e3 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -891,7 +891,7 @@ impl<'s> Parser<'s> {
                 Some(self.push(match opener {
                     Opener::SingleQuoted => EventKind::Atom(Quote {
                         ty: QuoteType::Single,
-                        left: false,
+                        left: matches!(first.kind, lex::Kind::Open(Delimiter::BraceQuote1)),
                     }),
                     Opener::DoubleQuoted => EventKind::Atom(Quote {
                         ty: QuoteType::Double,
-- 
2.43.0


From 587bdb375a85ba294c6491c568b076ac5c6a87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 10/29] fix: do not treat container prefix as text after
 invalid multi-line attributes

---
 src/inline.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index e6b62e3..e0237af 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -523,12 +523,13 @@ impl<'s> Parser<'s> {
             parser.finish()
         };
 
-        for _ in 0..line_next {
+        for _ in 0..state.valid_lines {
             let l = self.input.ahead.pop_front().unwrap();
             self.input.set_current_line(l);
         }
         self.input.span = start_attr..state.end_attr;
-        self.input.lexer = lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..line_end]);
+        self.input.lexer =
+            lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..self.input.span_line.end]);
 
         if attrs.is_empty() {
             if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
-- 
2.43.0


From 416a57cd44a67096b717dbda5a09b166352d01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 11/29] fix: do not reorder or duplicate attributes in
 multi-line link destinations

---
 src/inline.rs | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index e0237af..4da6cc5 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -84,6 +84,8 @@ struct Input<'s> {
     complete: bool,
     /// Span of current line.
     span_line: std::ops::Range<usize>,
+    /// Spans of all lines of the current block so far, including the current line.
+    lines: Vec<std::ops::Range<usize>>,
     /// Upcoming lines within the current block.
     ahead: std::collections::VecDeque<std::ops::Range<usize>>,
     /// Span of current event.
@@ -97,6 +99,7 @@ impl<'s> Input<'s> {
             lexer: lex::Lexer::new(b""),
             complete: false,
             span_line: 0..0,
+            lines: Vec::new(),
             ahead: std::collections::VecDeque::new(),
             span: 0..0,
         }
@@ -122,12 +125,14 @@ impl<'s> Input<'s> {
         self.lexer = lex::Lexer::new(&self.src.as_bytes()[line.clone()]);
         self.lexer.verbatim = verbatim;
         self.span = line.start..line.start;
+        self.lines.push(line.clone());
         self.span_line = line;
     }
 
     fn reset(&mut self) {
         self.lexer = lex::Lexer::new(b"");
         self.complete = false;
+        self.lines.clear();
         self.ahead.clear();
     }
 
@@ -787,32 +792,20 @@ impl<'s> Parser<'s> {
                             spec.push_str(&self.input.src[span]);
                             spec.into()
                         } else if multiline_spec {
+                            let lines = &self.input.lines;
+                            let first = lines.partition_point(|l| l.end <= span_spec.start);
                             let mut spec = String::new();
-                            let mut first_part = true;
-                            let mut span =
-                                self.events[e_opener].span.end..self.events[e_opener].span.end;
-
-                            let mut append = |span: std::ops::Range<usize>| {
-                                self.input.src[span].split('\n').for_each(|s| {
-                                    if !s.is_empty() {
-                                        if !inline && !first_part {
-                                            spec.push(' ');
-                                        }
-                                        spec.push_str(s);
-                                        first_part = false;
+                            for line in &lines[first..] {
+                                let start = line.start.max(span_spec.start);
+                                let end = line.end.min(span_spec.end);
+                                let part = self.input.src[start..end].trim_end_matches('\n');
+                                if !part.is_empty() {
+                                    if !inline && !spec.is_empty() {
+                                        spec.push(' ');
                                     }
-                                });
-                            };
-
-                            for ev in self.events.iter().skip(e_opener + 1) {
-                                if span.end == ev.span.start {
-                                    span.end = ev.span.end;
-                                } else {
-                                    append(span);
-                                    span = ev.span.clone();
+                                    spec.push_str(part);
                                 }
                             }
-                            append(span);
 
                             spec.into()
                         } else {
-- 
2.43.0


From 12122a6f61f74de7c5f96d6d5f17330768f4e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 12/29] fix: separate class attribute from class of task list
 or math

---
 src/html.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 8c87508..6748126 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -753,6 +753,9 @@ where
         Container::Math { display: true } => Some("math display"),
         _ => None,
     } {
+        if first_written {
+            out.write_char(' ')?;
+        }
         first_written = true;
         out.write_str(cls)?;
     }
-- 
2.43.0


From 1e12b5b58383846e44f5c9f3546923536ec52333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 13/29] fix: no br tag within image description

---
 src/html.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/html.rs b/src/html.rs
index 6748126..37da3d8 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -658,6 +658,7 @@ impl<'s> Renderer<'s> {
             Event::EnDash => out.write_str("–")?,
             Event::EmDash => out.write_str("—")?,
             Event::NonBreakingSpace => out.write_str("&nbsp;")?,
+            Event::Hardbreak if self.img_alt_text > 0 => out.write_char('\n')?,
             Event::Hardbreak => {
                 out.write_str("<br>")?;
                 self.block(out, 0)?;
-- 
2.43.0


From bdb65e0be0a1d01ff9543b96266c4a9af2fe5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 14/29] fix: do not link back to footnote reference omitted
 from image description

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index 37da3d8..ddef8c4 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -640,8 +640,8 @@ impl<'s> Renderer<'s> {
                 Raw::Other => {}
             },
             Event::FootnoteReference(label) => {
-                let number = self.footnotes.reference(label);
                 if self.img_alt_text == 0 {
+                    let number = self.footnotes.reference(label);
                     write!(
                         out,
                         r##"<a id="fnref{}" href="#fn{}" role="doc-noteref"><sup>{}</sup></a>"##,
-- 
2.43.0


From 4788d48d060ed808f0ab33fa445907fd31a7be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 15/29] fix: report errors when flushing output

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4ea4aec..3720633 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -15,6 +15,7 @@ struct App {
 fn run() -> Result<(), std::io::Error> {
     use jotdown::Render;
     use std::io::Read;
+    use std::io::Write;
 
     let app: App = clap::Parser::parse();
 
@@ -39,7 +40,11 @@ fn run() -> Result<(), std::io::Error> {
 
     match app.output {
         Some(path) => renderer.write_events(parser, std::fs::File::create(path)?)?,
-        None => renderer.write_events(parser, std::io::BufWriter::new(std::io::stdout()))?,
+        None => {
+            let mut out = std::io::BufWriter::new(std::io::stdout());
+            renderer.write_events(parser, &mut out)?;
+            out.flush()?;
+        }
     }
 
     Ok(())
-- 
2.43.0


From a54783eb05db0099cad1cea329988b6467cfa275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 16/29] fix: do not drop text of table row that ends within
 verbatim

---
 src/block.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index fa23e3a..7c25fb9 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1007,7 +1007,7 @@ impl<'s> IdentifiedBlock<'s> {
                 (attr::valid(line) == lt).then(|| (Kind::Atom(Attributes), indent..(indent + l)))
             }
             '|' => {
-                if lt >= 2 && line_t.ends_with('|') && !line_t.ends_with("\\|") {
+                if Self::is_table_row(line_t) {
                     Some((
                         Kind::Table {
                             caption: false,
@@ -1117,6 +1117,32 @@ impl<'s> IdentifiedBlock<'s> {
         })
     }
 
+    /// Whether a trimmed line starts and ends with pipes, where the last is not escaped or verbatim.
+    fn is_table_row(line: &str) -> bool {
+        let Some(row) = line.strip_prefix('|') else {
+            return false;
+        };
+        let mut lex = lex::Lexer::new(row.as_bytes());
+        let mut verbatim = None;
+        let mut ends_with_pipe = false;
+        while let Some(lex::Token { kind, len }) = lex.next() {
+            ends_with_pipe = false;
+            match (kind, verbatim) {
+                (lex::Kind::Seq(lex::Sequence::Backtick), None) => {
+                    lex.verbatim = true;
+                    verbatim = Some(len);
+                }
+                (lex::Kind::Seq(lex::Sequence::Backtick), Some(l)) if l == len => {
+                    lex.verbatim = false;
+                    verbatim = None;
+                }
+                (lex::Kind::Sym(lex::Symbol::Pipe), None) => ends_with_pipe = true,
+                _ => {}
+            }
+        }
+        ends_with_pipe
+    }
+
     fn is_thematic_break(chars: std::str::Chars) -> bool {
         let mut n = 1;
         for c in chars {
@@ -1301,10 +1327,7 @@ impl<'s> Kind<'s> {
                     *caption = true;
                     true
                 } else {
-                    !*blankline
-                        && (line_t.starts_with('|')
-                            && line_t.ends_with('|')
-                            && !line_t.ends_with("\\|"))
+                    !*blankline && IdentifiedBlock::is_table_row(line_t)
                 }
             }
         }
-- 
2.43.0


From 5d4f741fa8e54d4a3d1e2ea06a8024fd363d9194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 17/29] fix: math preceded by escaped backslash

---
 src/inline.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 4da6cc5..9215182 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -383,17 +383,11 @@ impl<'s> Parser<'s> {
                 .filter(|sp| {
                     sp.end == self.input.span.start
                         && self.input.src.as_bytes()[sp.start + sp.len() - 1] == b'$'
-                        && sp
-                            .end
-                            .checked_sub(2)
-                            .is_none_or(|i| self.input.src.as_bytes()[i] != b'\\')
+                        && !self.is_escaped(sp, sp.end - 1)
                 }) {
                 let (ty, num_dollar) = if sp.len() > 1
                     && self.input.src.as_bytes()[sp.start + sp.len() - 2] == b'$'
-                    && sp
-                        .end
-                        .checked_sub(3)
-                        .is_none_or(|i| self.input.src.as_bytes()[i] != b'\\')
+                    && !self.is_escaped(&sp, sp.end - 2)
                 {
                     (DisplayMath, 2)
                 } else {
@@ -424,6 +418,12 @@ impl<'s> Parser<'s> {
         }
     }
 
+    /// Whether the character at `pos` within a text event is escaped. Only the first character of a
+    /// text event may be, as it is always preceded by a separate escape event.
+    fn is_escaped(&self, span_str: &std::ops::Range<usize>, pos: usize) -> bool {
+        pos == span_str.start && self.input.src[..pos].ends_with('\\')
+    }
+
     fn parse_attributes(&mut self, first: &lex::Token) -> Option<ControlFlow> {
         if first.kind == lex::Kind::Open(Delimiter::Brace) {
             if let Some(state) = self.attributes.take() {
-- 
2.43.0


From f57a6290e755420c969323ee2eeb247159ec0a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 18/29] fix: do not ignore escape directly after inline
 verbatim

---
 src/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index 9215182..6ff8415 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -315,6 +315,7 @@ impl<'s> Parser<'s> {
             if usize::from(len_opener) == first.len
                 && matches!(first.kind, lex::Kind::Seq(Sequence::Backtick))
             {
+                self.input.lexer.verbatim = false;
                 let raw_format = self.input.ahead_raw_format();
                 if let Some(span_format) = raw_format.clone() {
                     self.events[event_opener].kind = EventKind::Enter(RawFormat {
@@ -334,7 +335,6 @@ impl<'s> Parser<'s> {
                     self.events.drain(*event_skip..);
                 }
                 self.push(EventKind::Exit(ty_opener));
-                self.input.lexer.verbatim = false;
                 self.verbatim = None;
                 if raw_format.is_none()
                     && self
-- 
2.43.0


From 7c2d698fc9b2ccedee1e88c8d617055796b9175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 19/29] fix: no indentation within image description

---
 src/html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index ddef8c4..0eecb58 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -665,7 +665,9 @@ impl<'s> Renderer<'s> {
             }
             Event::Softbreak => {
                 out.write_char('\n')?;
-                self.indent(out)?;
+                if self.img_alt_text == 0 {
+                    self.indent(out)?;
+                }
             }
             Event::Escape | Event::Blankline | Event::Attributes(..) => {}
             Event::ThematicBreak(attrs) => {
-- 
2.43.0


From f8c8417bf5c33e7d0dc6d46b03ec151759f3964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 20/29] fix: do not recurse for each line of inline content
 without events

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 90b89a5..3232f72 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2795,7 +2795,10 @@ impl<'s> Parser<'s> {
                                 Some(block::EventKind::Inline),
                             ),
                         );
-                        return self.next_span();
+                        if let Some(event) = self.inline() {
+                            return Some(event);
+                        }
+                        continue;
                     }
                 }
                 block::EventKind::Stale => {
-- 
2.43.0


From d2c85d342b9b98a253394ec426f7a2f8f424faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 21/29] fix: remove space after block quote marker from blank
 lines too

---
 src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 7c25fb9..277a9d6 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -598,7 +598,8 @@ impl<'s> TreeParser<'s> {
             let skip = match k {
                 Kind::Blockquote => {
                     if src_t == ">" {
-                        whitespace + 1
+                        let blank = &src[whitespace + 1..];
+                        whitespace + 1 + usize::from(blank.starts_with([' ', '\t']))
                     } else if src_t.starts_with('>')
                         && src_t[1..].starts_with(|c: char| c.is_ascii_whitespace())
                     {
-- 
2.43.0


From 87bf2cafb940df462fa387c55b52c6bbba6f28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 22/29] fix: do not include indentation in range of definitions

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 277a9d6..b6bd8ab 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1031,7 +1031,7 @@ impl<'s> IdentifiedBlock<'s> {
                             label: &label[usize::from(footnote)..],
                             last_blankline: false,
                         },
-                        0..(indent + 3 + l),
+                        indent..(indent + 3 + l),
                     ))
                 } else {
                     None
-- 
2.43.0


From fe2f74316dc9bee317cc60693b9a38ef0a884321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 23/29] fix: do not ignore blank lines within last item of list

---
 src/block.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b6bd8ab..9b8a276 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -197,7 +197,6 @@ struct TreeParser<'s> {
     src: &'s str,
     /// The previous block element was a blank line.
     prev_blankline: bool,
-    prev_loose: bool,
     attr_start: Option<usize>,
     /// Stack of currently open lists.
     open_lists: Vec<OpenList>,
@@ -218,7 +217,6 @@ impl<'s> TreeParser<'s> {
         Self {
             src,
             prev_blankline: false,
-            prev_loose: false,
             attr_start: None,
             open_lists: Vec::new(),
             alignments: Vec::new(),
@@ -391,6 +389,8 @@ impl<'s> TreeParser<'s> {
                         false
                     };
                     if !continues {
+                        // ignore blankline at end
+                        self.prev_blankline = false;
                         let l = self.open_lists.pop().unwrap();
                         self.close_list(&l, span_start.start);
                     }
@@ -399,9 +399,8 @@ impl<'s> TreeParser<'s> {
 
             // set list to loose if blankline discovered
             if matches!(kind, Kind::Atom(Atom::Blankline)) {
-                self.prev_blankline = true;
+                self.prev_blankline = !self.is_after_term();
             } else {
-                self.prev_loose = false;
                 if self.prev_blankline {
                     if let Some(OpenList { event, depth, .. }) = self.open_lists.last() {
                         if usize::from(*depth) >= self.open.len()
@@ -410,10 +409,7 @@ impl<'s> TreeParser<'s> {
                             if let EventKind::Enter(Node::Container(List { tight, .. })) =
                                 &mut self.events[*event].kind
                             {
-                                if *tight {
-                                    self.prev_loose = true;
-                                    *tight = false;
-                                }
+                                *tight = false;
                             }
                         }
                     }
@@ -704,7 +700,6 @@ impl<'s> TreeParser<'s> {
             debug_assert!(usize::from(*depth) <= self.open.len());
             if self.open.len() == (*depth).into() {
                 self.prev_blankline = false;
-                self.prev_loose = false;
                 let l = self.open_lists.pop().unwrap();
                 self.close_list(&l, span_end.start);
             }
@@ -870,14 +865,23 @@ impl<'s> TreeParser<'s> {
         self.exit(span_end);
     }
 
+    /// Whether the previous event ends what will be the term of a description list item.
+    fn is_after_term(&self) -> bool {
+        self.open.last().is_some_and(|item| {
+            matches!(
+                self.events[*item].kind,
+                EventKind::Enter(Node::Container(ListItem(ListItemKind::Description))),
+            ) && self.events[*item..]
+                .iter()
+                .position(|e| matches!(e.kind, EventKind::Exit(..)))
+                .is_some_and(|i| item + i + 1 == self.events.len())
+        })
+    }
+
     fn close_list(&mut self, list: &OpenList, pos: usize) {
-        if let EventKind::Enter(Node::Container(List { ty, tight })) =
+        if let EventKind::Enter(Node::Container(List { ty, .. })) =
             &mut self.events[list.event].kind
         {
-            if self.prev_loose {
-                // ignore blankline at end
-                *tight = true;
-            }
             *ty = list.ty_start;
         } else {
             panic!()
-- 
2.43.0


From 5fac36310123c1f0ba1af0b8f4db53c8d384beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 24/29] fix: list with item that is empty in its first line is
 not loose

---
 src/block.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 9b8a276..5a946f0 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -399,7 +399,14 @@ impl<'s> TreeParser<'s> {
 
             // set list to loose if blankline discovered
             if matches!(kind, Kind::Atom(Atom::Blankline)) {
-                self.prev_blankline = !self.is_after_term();
+                // (a marker line without content is no blank line)
+                let marker_line = matches!(
+                    self.events.last().map(|e| &e.kind),
+                    Some(EventKind::Enter(Node::Container(
+                        ListItem(_) | Footnote { .. }
+                    ))),
+                );
+                self.prev_blankline = !marker_line && !self.is_after_term();
             } else {
                 if self.prev_blankline {
                     if let Some(OpenList { event, depth, .. }) = self.open_lists.last() {
-- 
2.43.0


From 7a2ce4f149b7cc7a257a59bb9e65b68054d6be1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 25/29] fix: blank lines in a block quote or div do not make
 list around it loose

---
 src/block.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 5a946f0..785e587 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -410,8 +410,10 @@ impl<'s> TreeParser<'s> {
             } else {
                 if self.prev_blankline {
                     if let Some(OpenList { event, depth, .. }) = self.open_lists.last() {
-                        if usize::from(*depth) >= self.open.len()
-                            || !matches!(kind, Kind::ListItem { .. })
+                        // only between items or blocks directly within an item
+                        let depth_item = self.open.len() - usize::from(*depth);
+                        if depth_item == 0
+                            || depth_item == 1 && !matches!(kind, Kind::ListItem { .. })
                         {
                             if let EventKind::Enter(Node::Container(List { tight, .. })) =
                                 &mut self.events[*event].kind
@@ -703,6 +705,11 @@ impl<'s> TreeParser<'s> {
             }
         }
 
+        if matches!(c, Blockquote | Div { .. }) {
+            // ignore blankline at end
+            self.prev_blankline = false;
+        }
+
         if let Some(OpenList { depth, .. }) = self.open_lists.last() {
             debug_assert!(usize::from(*depth) <= self.open.len());
             if self.open.len() == (*depth).into() {
-- 
2.43.0


From d0e3a7996086a60be64537e9adebf0111c6b1af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 26/29] fix: link definition within container does not continue
 on lines with same indentation

---
 src/block.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 785e587..863c0ed 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1303,11 +1303,10 @@ impl<'s> Kind<'s> {
                 *last_blankline = matches!(next, Self::Atom(Blankline));
                 whitespace > *indent || *last_blankline || cont_para
             }
-            Self::Definition { .. } => {
-                let blankline = line
-                    .trim_matches(|c: char| c.is_ascii_whitespace())
-                    .is_empty();
-                line.starts_with(' ') && !blankline
+            Self::Definition { indent, .. } => {
+                let line_t = line.trim_start_matches(|c: char| c.is_ascii_whitespace());
+                let whitespace = line.len() - line_t.len();
+                whitespace > *indent && !line_t.is_empty()
             }
             Self::Fenced {
                 fence_length,
-- 
2.43.0


From 922be1e18dd7c752ab4b6fd62e7833d0200e27d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 27/29] fix: trim lines of table caption

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 863c0ed..765d4c4 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -744,7 +744,7 @@ impl<'s> TreeParser<'s> {
                 lines[caption_line].start += 2;
                 lines[lines.len() - 1] = self.trim_end(lines[lines.len() - 1].clone());
                 for line in &lines[caption_line..] {
-                    self.inline(line.clone());
+                    self.inline(self.trim_start(line.clone()));
                 }
                 self.exit(span_end.clone());
                 caption_line
-- 
2.43.0


From d8f5d11156d278b8554f31019d7943bdca66cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 28/29] fix: bracketed text with empty attributes is a span

Its attributes were otherwise emitted as text, including any newlines and container prefix within.
---
 src/inline.rs | 61 +++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 6ff8415..a68eecd 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -536,47 +536,46 @@ impl<'s> Parser<'s> {
         self.input.lexer =
             lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..self.input.span_line.end]);
 
-        if attrs.is_empty() {
-            if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
-                let last = self.events.len() - 1;
-                self.events[last].span.end = self.input.span.end;
-            }
-        } else {
+        let attr_event = (!attrs.is_empty()).then(|| {
             let attr_index = self.store_attributes.len() as AttributesIndex;
             self.store_attributes.push(attrs);
-            let attr_event = Event {
+            Event {
                 kind: EventKind::Attributes {
                     container: matches!(state.elem_ty, AttributesElementType::Container { .. }),
                     attrs: attr_index,
                 },
                 span: self.input.span.clone(),
-            };
-            match state.elem_ty {
-                AttributesElementType::Container { mut e_placeholder } => {
+            }
+        });
+        match state.elem_ty {
+            AttributesElementType::Container { mut e_placeholder } => {
+                if let Some(attr_event) = attr_event {
                     self.events[e_placeholder] = attr_event;
-                    let mut last = self.events.len() - 1;
-                    if matches!(self.events[e_placeholder + 1].kind, EventKind::Str) {
-                        let range = self.events[e_placeholder + 1].span.clone();
-                        if &self.input.src[range] == "![" {
-                            // Lexed as image link, but actually just a span preceeded by an exclamation mark
-                            let start = self.events[e_placeholder + 1].span.start;
-                            self.events.insert(
-                                e_placeholder,
-                                Event {
-                                    kind: EventKind::Str,
-                                    span: start..start + 1,
-                                },
-                            );
-                            e_placeholder += 1;
-                            last += 1;
-                            self.events[e_placeholder + 1].span.start += 1;
-                        }
-                        self.events[e_placeholder + 1].kind = EventKind::Enter(Span);
-                        self.events[last].kind = EventKind::Exit(Span);
+                }
+                let mut last = self.events.len() - 1;
+                if matches!(self.events[e_placeholder + 1].kind, EventKind::Str) {
+                    let range = self.events[e_placeholder + 1].span.clone();
+                    if &self.input.src[range] == "![" {
+                        // Lexed as image link, but actually just a span preceeded by an exclamation mark
+                        let start = self.events[e_placeholder + 1].span.start;
+                        self.events.insert(
+                            e_placeholder,
+                            Event {
+                                kind: EventKind::Str,
+                                span: start..start + 1,
+                            },
+                        );
+                        e_placeholder += 1;
+                        last += 1;
+                        self.events[e_placeholder + 1].span.start += 1;
                     }
-                    self.events[last].span.end = self.input.span.end;
+                    self.events[e_placeholder + 1].kind = EventKind::Enter(Span);
+                    self.events[last].kind = EventKind::Exit(Span);
                 }
-                AttributesElementType::Word => {
+                self.events[last].span.end = self.input.span.end;
+            }
+            AttributesElementType::Word => {
+                if let Some(attr_event) = attr_event {
                     self.events.push_back(attr_event);
                     // push for now, pop later if attrs attached to word
                     self.push(EventKind::Empty);
-- 
2.43.0


From 7a07b23e4f40d147634ef1ea45d826af89c633c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:02 +0000
Subject: [PATCH 29/29] fix: escape class of div in HTML

---
 src/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html.rs b/src/html.rs
index 0eecb58..df6c1a1 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -767,7 +767,7 @@ where
             if first_written {
                 out.write_char(' ')?;
             }
-            out.write_str(class)?;
+            write_attr(class, out)?;
         }
     }
     Ok(())
-- 
2.43.0

