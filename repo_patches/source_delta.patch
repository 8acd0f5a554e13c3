From f0d6a829dbb6e1e6db3c6e9a7bf1e78730b49119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:07 +0000
Subject: [PATCH 01/22] fix: report parse failures as MakefileError instead of
 panicking

Engine::process_block hit unimplemented!() on every line that failed to parse,
including an include of a missing file, so the documented
MakefileError::ParseError could never be returned.
---
 src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 06331ef..fd57ec4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -580,9 +580,17 @@ impl Engine {
         while i.len() > 0 {
             let (new_i, _) = match parser_state.parse_line(i, names, self) {
                 Ok(v) => v,
-                Err(NErr::Failure(_)) => unimplemented!("Unrecoverable line parsing failure"),
-                Err(NErr::Incomplete(_)) => unimplemented!("incomplete line"),
-                Err(NErr::Error(_)) => unimplemented!("Recoverable line parsing failure"),
+                Err(NErr::Failure(e)) | Err(NErr::Error(e)) => {
+                    return Err(MakefileError::ParseError(match e.into_error_kind() {
+                        nom::ErrorKind::Custom(kind) => kind,
+                        kind => ParseErrorKind::NomError(nom::error_to_u32(&kind)),
+                    }));
+                }
+                Err(NErr::Incomplete(_)) => {
+                    return Err(MakefileError::ParseError(ParseErrorKind::InternalFailure(
+                        "incomplete line",
+                    )));
+                }
             };
 
             i = new_i;
-- 
2.43.0


From 9383d2a730e60dd3402019f53dfbe7eb5649e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:19 +0000
Subject: [PATCH 02/22] fix: keep the rule that is still open at the end of the
 input

A makefile (or included file, or eval'd text) whose last statement is a rule
lost that rule, since only a following statement ever closed it.
---
 src/lib.rs         | 3 +++
 src/parsers/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fd57ec4..8cd8758 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -596,6 +596,9 @@ impl Engine {
             i = new_i;
         }
 
+        // The end of the text also ends a rule that is still open
+        parser_state.close_rule(names, self);
+
         Ok(())
     }
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index d5960db..8bb4e7b 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -287,7 +287,7 @@ impl ParserState {
     }
 
     /// Close out the currently open rule, if there is one
-    fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
+    pub(crate) fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
         debug!("Closing rule {:?}", self.current_rule);
         let current_rule = std::mem::replace(&mut self.current_rule, None);
         match current_rule {
-- 
2.43.0


From bb35d35fc62ba14fa66a11f3793675e9c8ea303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:20 +0000
Subject: [PATCH 03/22] fix: resume reading after the endif of a conditional
 that was false

Popping the conditional did not recompute whether lines are ignored, so
everything after the endif was skipped.
---
 src/parsers/conditional/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index b3ece0d..33310e3 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -94,6 +94,7 @@ impl crate::parsers::ParserState {
                     return Err(ParseErrorKind::UnattachedEndIf);
                 }
                 self.conditionals.pop();
+                self.update_ignoring();
 
                 Ok(())
             }
-- 
2.43.0


From 12c6ca98947e27ee7d5ae1f2d0e27c3d01238b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 04/22] fix: do not add recipe lines from a skipped conditional
 branch

Recipe lines were appended to the open rule even between a false ifeq/ifneq
and its else/endif.
---
 src/parsers/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 8bb4e7b..80c9194 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -165,7 +165,9 @@ impl ParserState {
             run_parser!(recipe_line(i, engine.command_char), |line| {
                 // Push the line. This is safe since we only run this parser if
                 // we're currently processing a rule
-                self.push_command_line(line);
+                if !self.ignoring {
+                    self.push_command_line(line);
+                }
                 Ok(())
             });
         } else if self.current_define.is_some() {
-- 
2.43.0


From 3ea73cdbe317bdc34fd084d3522a1962b9a1c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 05/22] fix: do not expand the operands of a conditional in a
 skipped branch

Expanding them could run an eval (and so change the database) from text that
is not being read.
---
 src/parsers/conditional/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 33310e3..d994b19 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -42,6 +42,17 @@ impl crate::parsers::ParserState {
     ) -> Result<(), ParseErrorKind> {
         let conditional_is_inverted = conditional.is_inverted();
         match conditional {
+            Conditional::IfEq(_, _) | Conditional::IfNEq(_, _) if self.ignoring => {
+                // Nested inside a skipped branch: neither branch of this
+                // conditional is read, and its operands must not be expanded
+                // (that could have side effects)
+                self.conditionals.push(super::ConditionalState {
+                    interpretation: super::ConditionalInterpretation::NotExecuting,
+                    seen_else: false,
+                });
+
+                Ok(())
+            }
             Conditional::IfEq(a, b) | Conditional::IfNEq(a, b) => {
                 let a = a.eval(names, engine);
                 let b = b.eval(names, engine);
-- 
2.43.0


From 1500afbb8e4321013921156b745c02526806e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:54 +0000
Subject: [PATCH 06/22] fix: parse rule lines relative to the engine's working
 directory

Every rule line asked for the process's current directory instead, and
panicked when that directory is unavailable (for example deleted).
---
 src/parsers/targets/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index f9e72e6..e14c956 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -270,8 +270,10 @@ pub(crate) fn parse_line<'a>(
     // Reconstruct the line in different segments
 
     // Everything before the colon is the list of targets
-    let targets =
-        crate::parsers::file_sequence::parse_file_seq(pre_colon_buffer.span(), Default::default());
+    let targets = crate::parsers::file_sequence::parse_file_seq(
+        pre_colon_buffer.span(),
+        crate::parsers::file_sequence::FileSeqParseOptions::new(engine.working_directory.clone()),
+    );
     debug!("Got file sequence {:?}", targets);
 
     // Everything after the colon gets shoved into one big buffer
@@ -396,7 +398,9 @@ pub(crate) fn parse_line<'a>(
         pre_semi_slice,
         crate::parsers::file_sequence::FileSeqParseOptions {
             extra_stopchars: ":",
-            ..Default::default()
+            ..crate::parsers::file_sequence::FileSeqParseOptions::new(
+                engine.working_directory.clone(),
+            )
         },
     );
 
-- 
2.43.0


From 7a1a06617cc79930d7da9b25df13333fd4c2429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:25 +0000
Subject: [PATCH 07/22] fix: end a line at the first line break or comment,
 whichever is first

Grabbing a line searched the whole remaining text for a '#' first, so any
comment in a file swallowed all the lines between the current one and it; the
same happened inside define. Windows line endings were never recognised either,
as the lone line feed matched first.
---
 src/parsers/mod.rs          | 32 ++++++++++++++++++++++----------
 src/parsers/variable/mod.rs | 17 +++++++----------
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 80c9194..e7b7c6a 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -322,19 +322,31 @@ where
         + nom::InputLength
         + nom::FindSubstring<&'static str>,
 {
+    // The line ends at whichever of these comes first
+    let mut previous = '\0';
+    for (idx, c) in input.iter_indices() {
+        if c == '#' {
+            // Comments
+            return Ok((
+                input.slice(idx..),
+                (input.slice(..idx), LineEndReason::Comment),
+            ));
+        } else if c == '\n' {
+            // UNIX line endings, or Windows line endings
+            let end = if previous == '\r' { idx - 1 } else { idx };
+            return Ok((
+                input.slice(idx + 1..),
+                (input.slice(..end), LineEndReason::LineBreak),
+            ));
+        }
+        previous = c;
+    }
+
+    // EOF
     fix_error!(
         input,
         ParseErrorKind,
-        alt_complete!(
-            take_until!("#") =>
-                { |l| (l, LineEndReason::Comment) }  |  // Comments
-            terminated!(take_until!("\n"), tag!("\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // UNIX line endings
-            terminated!(take_until!("\r\n"), tag!("\r\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // Windows line endings
-            nom::rest =>
-                { |l| (l, LineEndReason::EOF) }         // EOF
-        )
+        map!(nom::rest, |l| (l, LineEndReason::EOF))
     )
 }
 
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 117d1d1..2998521 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -377,21 +377,18 @@ fn parse_variable_assignment<'a>(
 pub(crate) fn parse_define_line<'a>(
     i: BlockSpan<'a>,
 ) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
+    use nom::{InputIter, InputTake};
     // This parser operates outside of the context of things that have already grabbed lines
     // TODO: maybe just grab a whole define in here? Don't bother with trying to
     // round-trip it through the processing function above
     // This also uses a specialized version of makefile_grab_line, since we
     // actually need the line endings to stay intact.
-    let (next_lines, i) = fix_error!(
-        i,
-        ParseErrorKind,
-        alt_complete!(
-            take_until!("#") | // Comments
-                recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // UNIX line endings
-                recognize!(terminated!(take_until!("\r\n"), tag!("\r\n"))) | // Windows line endings
-                nom::rest // EOF
-        )
-    )?;
+    let line_end = i
+        .iter_indices()
+        .find(|&(_, c)| c == '#' || c == '\n')
+        .map(|(idx, c)| if c == '\n' { idx + 1 } else { idx }) // Line breaks stay, comments go
+        .unwrap_or_else(|| i.len()); // EOF
+    let (next_lines, i) = i.take_split(line_end);
 
     debug!("Parsing define line {:?}", i.into_string());
     let location = i.location().expect("There should be content on the line");
-- 
2.43.0


From 963b6a2210d760b0401d816e12f67ef156901117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:37 +0000
Subject: [PATCH 08/22] fix: accept a simple assignment with an empty value

'x :=' panicked because an empty value has no source location.
---
 src/parsers/variable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 2998521..f7564c8 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -343,7 +343,7 @@ fn parse_variable_assignment<'a>(
         let contents = value_ast.eval(names, context);
         let location = value_segment
             .location()
-            .expect("value segment should have nonzero length");
+            .unwrap_or(crate::source_location::Location::Synthetic);
         value_ast = ast::preevaluated(location.into(), contents);
     }
 
-- 
2.43.0


From da67f9939505b8ae03e709a701579601e004bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:38 +0000
Subject: [PATCH 09/22] fix: make ?= keep the value of a variable that is
 already set

---
 src/parsers/variable/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index f7564c8..cd5c52a 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -96,6 +96,13 @@ impl crate::parsers::ParserState {
         }
 
         match action.action {
+            Action::Define(ref parameters)
+                if !action.modifiers.define
+                    && parameters.flavor == Flavor::Conditional
+                    && engine.database.get_variable(action.name).is_some() =>
+            {
+                // A conditional assignment leaves an existing variable alone
+            }
             Action::Define(parameters) => {
                 engine.database = engine.database.set_variable(action.name, parameters);
             }
-- 
2.43.0


From 62dc28c5494311ff7a4b8f56655546fd4d2da47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:55 +0000
Subject: [PATCH 10/22] fix: expand text appended to a simple variable
 immediately

+= kept it unexpanded whatever the variable's flavor, so a later change of a
variable it names (or a reference to the variable itself) changed the value.
---
 src/parsers/variable/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index cd5c52a..b2adab8 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -345,7 +345,14 @@ fn parse_variable_assignment<'a>(
     let variable_name = variable_name.into_string().trim().into();
     let variable_name = names.intern_variable_name(variable_name);
 
-    if assignment_type == AssignmentType::Simple {
+    // Appending to a simple variable expands the new text immediately too
+    let append_to_simple = assignment_type == AssignmentType::Append
+        && context
+            .database
+            .get_variable(variable_name)
+            .map_or(false, |old| old.value.flavor == Flavor::Simple);
+
+    if assignment_type == AssignmentType::Simple || append_to_simple {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
         let location = value_segment
-- 
2.43.0


From 42dc575f1ad59eed1d2cb3d7e5cab58fbc2dc40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:21 +0000
Subject: [PATCH 11/22] fix: record the open rule before an eval on the next
 line runs

The rule was recorded only after the line that ends it had been expanded, so
it landed after, and could overwrite, the rules evaluated by that line.
---
 src/parsers/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index e7b7c6a..8815666 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -243,13 +243,13 @@ impl ParserState {
             return fail_out(line_start, ParseErrorKind::RecipeExpected);
         }
 
+        // Whatever this line is, it ends the current rule. That has to happen
+        // before the line is expanded, since the expansion may eval more rules
+        self.close_rule(names, engine);
+
         run_line_parser!(
             targets::parse_line(line.span(), names, engine),
-            |target_action| {
-                self.close_rule(names, engine);
-
-                self.handle_target_action(engine, target_action)
-            }
+            |target_action| self.handle_target_action(engine, target_action)
         );
 
         Ok((i, ()))
-- 
2.43.0


From 5682bedf2197a5ef6c3c1213b8bab8f87cec48f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:22 +0000
Subject: [PATCH 12/22] fix: keep the text after a function call

The rest of the input was replaced by the rest of the call's own arguments, so
everything after $(eval ...) on the same line, further evals included, was
dropped.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 5c9eda9..70cba49 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -123,7 +123,7 @@ fn advanced_var<'a>(
     let name_node = name_node.slice(..name_node.len() - 1);
 
     match function_call(name_node, dollar_location.clone()) {
-        Ok(v) => Ok(v),
+        Ok((_, call)) => Ok((i, call)),
         Err(Err::Failure(context)) => {
             if context.clone().into_error_kind()
                 == nom::ErrorKind::Custom(ParseErrorKind::InternalFailure("not a function call"))
-- 
2.43.0


From d6736a7a80021b5ee03566f8d9ee71021f150c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:19 +0000
Subject: [PATCH 13/22] fix: recognise ${name} references

The parser looked for a closing brace after the dollar sign, so ${name} was
read as a reference to the variable '{' followed by text.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 70cba49..4c365ec 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -82,7 +82,7 @@ fn parse_var_ref<'a>(
         // Try the advanced variable references
         preceded!(fix_error!(ParseErrorKind, char!('(')),
                   apply!(advanced_var, dollar_location.clone(), '(', ')')) => { |l| l } |
-        preceded!(fix_error!(ParseErrorKind, char!('}')),
+        preceded!(fix_error!(ParseErrorKind, char!('{')),
                   apply!(advanced_var, dollar_location.clone(), '{', '}')) => { |l| l } |
         // Finally, just grab a single character and call it good
         fix_error!(ParseErrorKind, take!(1)) => {{
-- 
2.43.0


From e523d87c4d82d598949bfcc21fcfd44a970ec705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:16 +0000
Subject: [PATCH 14/22] fix: read text that is not all ASCII

Content and span iterators skipped and took characters where offsets and
lengths are in bytes, substring search overran its buffer on the first
multi-byte character, and several scanners assumed one byte per character, so
such makefiles were garbled or panicked.
---
 src/evaluated/block_span.rs        | 11 +++--
 src/evaluated/content_reference.rs | 32 +++++++++++++--
 src/evaluated/nom/mod.rs           | 64 +++++-------------------------
 src/parsers/mod.rs                 | 17 +++++---
 src/parsers/targets/mod.rs         | 22 +++++-----
 5 files changed, 63 insertions(+), 83 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index d96033f..e7ce7fe 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -148,7 +148,6 @@ pub struct Iter<'a> {
 
 #[derive(Clone, Debug)]
 enum BlockSpanCharIteratorInternal<'a> {
-    SkippedContentReference(std::iter::Skip<super::content_reference::ContentReferenceIter<'a>>),
     ContentReference(super::content_reference::ContentReferenceIter<'a>),
     NullIter(std::str::Chars<'a>),
 }
@@ -157,9 +156,11 @@ impl<'a> Iter<'a> {
     fn new(parent: &BlockSpan<'a>) -> Self {
         let mut cons_iter = parent.contents.iter();
         let char_iter: Box<BlockSpanCharIteratorInternal<'a>> = match cons_iter.next() {
-            Some(x) => Box::new(BlockSpanCharIteratorInternal::SkippedContentReference(
-                x.chars().skip(parent.offset),
-            )),
+            Some(x) => {
+                let mut chars = x.chars();
+                chars.skip_bytes(parent.offset);
+                Box::new(BlockSpanCharIteratorInternal::ContentReference(chars))
+            }
             None => Box::new(BlockSpanCharIteratorInternal::NullIter("".chars())),
         };
         Self {
@@ -183,7 +184,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
         }
 
         let mut tr = match self.char_iter.borrow_mut() {
-            BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
         };
@@ -192,7 +192,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
                 (*self.cons_iter.next()?).chars(),
             ));
             tr = match self.char_iter.borrow_mut() {
-                BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
             };
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 899cacc..499f56b 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -72,7 +72,12 @@ impl ContentReference {
 
     /// Iterate over the characters in this content reference
     pub fn chars(&self) -> ContentReferenceIter {
-        ContentReferenceIter(self.node.chars().skip(self.offset).take(self.length))
+        let mut iter = ContentReferenceIter {
+            chars: self.node.chars(),
+            remaining_bytes: self.offset + self.length,
+        };
+        iter.skip_bytes(self.offset);
+        iter
     }
 
     /// Iterate over the character indices in this content reference
@@ -137,13 +142,34 @@ impl ContentReference {
 
 /// An iterator over the characters in a content reference
 #[derive(Clone, Debug)]
-pub struct ContentReferenceIter<'a>(std::iter::Take<std::iter::Skip<super::nodes::Chars<'a>>>);
+pub struct ContentReferenceIter<'a> {
+    chars: super::nodes::Chars<'a>,
+    remaining_bytes: usize,
+}
+
+impl<'a> ContentReferenceIter<'a> {
+    /// Skip over the characters that make up the given number of bytes
+    pub(super) fn skip_bytes(&mut self, bytes: usize) {
+        let mut skipped = 0;
+        while skipped < bytes {
+            match self.next() {
+                Some(c) => skipped += c.len_utf8(),
+                None => break,
+            }
+        }
+    }
+}
 
 impl<'a> Iterator for ContentReferenceIter<'a> {
     type Item = char;
 
     fn next(&mut self) -> Option<char> {
-        self.0.next()
+        if self.remaining_bytes == 0 {
+            return None;
+        }
+        let c = self.chars.next()?;
+        self.remaining_bytes = self.remaining_bytes.saturating_sub(c.len_utf8());
+        Some(c)
     }
 }
 
diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index a7aebd5..7d99d72 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -32,16 +32,19 @@ impl<'a> InputIter for BlockSpan<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.iter_elements().position(predicate)
+        self.iter_indices()
+            .find(|&(_, c)| predicate(c))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Option<usize> {
-        if self.length >= count {
-            Some(count)
-        } else {
-            None
+        if count == 0 {
+            return Some(0);
         }
+        self.iter_indices()
+            .nth(count - 1)
+            .map(|(i, c)| i + c.len_utf8())
     }
 }
 
@@ -194,56 +197,7 @@ impl<'a, 'b> FindSubstring<&'b str> for BlockSpan<'a> {
             return None;
         }
 
-        let substr_bytes = substr.as_bytes();
-        let mut buffer = Vec::with_capacity(substr.len());
-        let mut char_buffer = [0, 0, 0, 0];
-        buffer.resize_with(substr.len(), || 0);
-
-        let mut self_iter = self.iter_indices();
-        let mut self_idx = 0;
-        let mut buffer_start = 0;
-
-        while self_idx < substr.len() {
-            let content = self_iter.next().unwrap();
-            let char_size = content.1.encode_utf8(&mut char_buffer).len();
-            for i in 0..char_size {
-                buffer[self_idx + i] = char_buffer[i];
-            }
-            self_idx = content.0 + char_size;
-        }
-
-        if buffer == substr.as_bytes() {
-            return Some(0);
-        }
-
-        for (i, c) in self_iter {
-            // debug!(
-            //     "Inspecting {:?} for match with {:?} {:?}",
-            //     c,
-            //     substr.as_bytes(),
-            //     buffer
-            // );
-            // // Update the buffer
-            let char_size = c.encode_utf8(&mut char_buffer).len();
-            for j in 0..char_size {
-                buffer[(buffer_start + j) % substr.len()] = char_buffer[j];
-            }
-            buffer_start = (buffer_start + char_size) % substr.len();
-            // attempt to match the current buffer against the substring
-            let mut all_match = true;
-            for j in 0..substr.len() {
-                if buffer[(buffer_start + j) % substr.len()] != substr_bytes[j] {
-                    all_match = false;
-                    break;
-                }
-            }
-            if all_match {
-                debug!("Match found at {:?}", i - substr.len());
-                return Some(i - substr.len() + 1);
-            }
-        }
-
-        None
+        self.into_string().find(substr)
     }
 }
 
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 8815666..d2c0771 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -403,6 +403,7 @@ where
     let mut last_nonslash_idx = -1;
     let mut next_push_start = 0;
     let mut stopchar_index = i.len() + 1;
+    let mut stopchar_len = 1;
     let mut stopchar_seen = false;
     for (idx, ch) in i.iter_indices() {
         if stop(ch) {
@@ -410,7 +411,7 @@ where
             debug!("Found stopchar at index {:?}", idx);
             // We found a stopchar. Push the previous span and figure out if it
             // actually matches
-            stop_character = Some(i.slice(idx..idx + 1));
+            stop_character = Some(i.slice(idx..idx + ch.len_utf8()));
 
             // slash count examples:
             //  0 1 2 3
@@ -433,11 +434,12 @@ where
                 // found the stopchar, and then break out
                 Arc::make_mut(&mut tr).push_all_contents(i.slice(next_push_start..end_idx));
                 stopchar_index = idx;
+                stopchar_len = ch.len_utf8();
                 break;
             }
         }
         if ch != '\\' {
-            last_nonslash_idx = idx as isize;
+            last_nonslash_idx = (idx + ch.len_utf8() - 1) as isize;
         }
     }
 
@@ -463,7 +465,10 @@ where
     if stopchar_index < i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
-        (tr, Some((stop_character, i.slice(stopchar_index + 1..))))
+        (
+            tr,
+            Some((stop_character, i.slice(stopchar_index + stopchar_len..))),
+        )
     } else if stopchar_index == i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
@@ -529,15 +534,15 @@ pub(crate) fn makefile_line(
                         s.slice(0..0)
                     } else {
                         // In GNU mode we strip off all the whitespace and the backslash
-                        let mut last_non_whitespace = 0;
+                        let mut last_non_whitespace_end = 1;
                         for (i, c) in s.char_indices() {
                             if c == ' ' || c == '\t' || c == '\\' {
                                 continue;
                             }
-                            last_non_whitespace = i;
+                            last_non_whitespace_end = i + c.len_utf8();
                         }
 
-                        s.slice(..last_non_whitespace + 1)
+                        s.slice(..last_non_whitespace_end)
                     }
                 }
             }
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index e14c956..a5e3b75 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -448,7 +448,7 @@ fn next_mword<'a>(
 
     while let Some((idx, chr)) = char_iter.next() {
         debug!("inspect {:?} at {:?}", chr, idx);
-        stop_index = idx + 1;
+        stop_index = idx + chr.len_utf8();
 
         if chr == ' ' || chr == '\t' || chr == '=' {
             end_reason = MWordEnd::Static;
@@ -468,7 +468,7 @@ fn next_mword<'a>(
         if chr == '$' {
             // This is probably a variable reference of some sort
             if let Some((idx, chr)) = char_iter.next() {
-                stop_index = idx + 1;
+                stop_index = idx + chr.len_utf8();
                 if chr == '$' {
                     // Consume the character
                     // This is just a double '$', does not end the word
@@ -490,7 +490,7 @@ fn next_mword<'a>(
 
                 let mut count = 1;
                 while let Some((idx, chr2)) = char_iter.next() {
-                    stop_index = idx + 1;
+                    stop_index = idx + chr2.len_utf8();
                     if chr2 == chr {
                         count += 1;
                     } else if chr2 == brace_end {
@@ -559,7 +559,7 @@ enum DrivespecSearchResult<'a> {
 ///  2. The character before that is (a) whitespace, or an open paren, or (b) the beginning of the line
 ///  3. The character after the colon is `\` or `/`.
 fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'a> {
-    use nom::{InputIter, Slice};
+    use nom::InputIter;
 
     let mut content = Block::empty();
     loop {
@@ -585,15 +585,16 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                     };
                 }
                 // Checking condition (1) and (2) requires slicing
-                if pre.len() == 0 {
+                let prior: Vec<char> = pre.span().chars().collect();
+                if prior.len() == 0 {
                     // Condition 2 fails automatically since there was no prior content
                     return DrivespecSearchResult::FoundColon {
                         pre_colon: content,
                         post_colon: post,
                     };
-                } else if pre.len() == 1 {
+                } else if prior.len() == 1 {
                     // Condition 2b holds, check condition 1
-                    let ch = pre.span().iter_elements().next().unwrap();
+                    let ch = prior[0];
                     if !ch.is_alphabetic() {
                         return DrivespecSearchResult::FoundColon {
                             pre_colon: content,
@@ -602,12 +603,7 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                     }
                 } else {
                     // There were at least 2 prior characters, grab them
-                    let pre_slice = pre.span().slice(pre.len() - 2..);
-                    assert!(pre_slice.len() == 2);
-                    let (ch1, ch2) = {
-                        let mut iter = pre_slice.iter_elements();
-                        (iter.next().unwrap(), iter.next().unwrap())
-                    };
+                    let (ch1, ch2) = (prior[prior.len() - 2], prior[prior.len() - 1]);
                     // Check condition 1 and 2
                     if !ch1.is_alphabetic() || !(ch2.is_whitespace() || ch2 == '(') {
                         // Condition 1 or 2 failed, not a drive spec
-- 
2.43.0


From d893b52413b716776d8bd82c206f92138588132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:28 +0000
Subject: [PATCH 15/22] fix: look at every word of a line before deciding what
 it is

The scanner never reported the end of a line, and a word that expanded to
nothing discarded the rest of the line instead. So further words (other
$(eval ...) calls, or a whole rule) were dropped, and a line that is no
statement at all was ignored instead of being reported as a missing separator.
---
 src/parsers/targets/mod.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index a5e3b75..2802dab 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -204,11 +204,6 @@ pub(crate) fn parse_line<'a>(
             "After semicolon search, content is {:?}",
             new_content.into_string()
         );
-        if new_content.len() == 0 {
-            // Make seems to implicitly consume the whole line in this situation
-            return Ok((rest, Action::NoAction));
-        }
-
         match find_non_drivespec_colon(new_content.span()) {
             DrivespecSearchResult::FoundColon {
                 pre_colon: pre,
@@ -235,6 +230,13 @@ pub(crate) fn parse_line<'a>(
             }
         }
 
+        // Push synthetic spaces between spaces
+        debug!("Adding {:?} to expanded content", new_content.into_string());
+        if pre_colon_buffer.len() > 0 {
+            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
+        }
+        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
+
         let mword = next_mword(line_next).map_err(|e| lift_collapsed_span_error(e, line_start))?;
         line_next = mword.0;
         mw = (mword.1).0;
@@ -243,13 +245,6 @@ pub(crate) fn parse_line<'a>(
         if mwt == MWordEnd::EOL {
             break;
         }
-
-        // Push synthetic spaces between spaces
-        debug!("Adding {:?} to expanded content", new_content.into_string());
-        if pre_colon_buffer.len() > 0 {
-            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
-        }
-        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
     }
 
     debug!("Line split into {:?} and:", pre_colon_buffer.into_string(),);
@@ -422,6 +417,10 @@ fn next_mword<'a>(
     // Skip any leading whitespace
     let (i, _) = makefile_whitespace(i)?;
 
+    if i.len() == 0 {
+        return Ok((i, (i, MWordEnd::EOL)));
+    }
+
     // Early out on simple cases
     if let Ok((i, (cap, end_reason))) = pe_fix!(
         i,
-- 
2.43.0


From e4b379cbdee85aa4fc309c13018f62481ef03beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:00 +0000
Subject: [PATCH 16/22] fix: find the segments of a span that starts on a
 segment boundary

Text put together from several pieces (an eval of a variable that refers to
others, say) panicked when a line of it began exactly where a piece ends.
---
 src/evaluated/block_span.rs        | 2 +-
 src/evaluated/content_reference.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index e7ce7fe..0a3dad8 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -284,7 +284,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
 
     fn next(&mut self) -> Option<crate::source_location::LocatedStr<'a>> {
         let mut tr = self.next_span()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.next_span()?;
         }
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 499f56b..00ececb 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -210,7 +210,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
         }
 
         let mut tr = self.internal.next()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.internal.next()?;
         }
-- 
2.43.0


From 4a0adb201f52cb1c0a29cbc28dceb8af76866f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:14 +0000
Subject: [PATCH 17/22] fix: record the open rule before an assignment that
 evals on the next line runs

---
 src/parsers/mod.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index d2c0771..7aced6a 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -222,31 +222,27 @@ impl ParserState {
             return Ok((i, ()));
         }
 
+        // Whatever this line is, it ends the current rule. That has to happen
+        // before any of the line is expanded, since the expansion may eval
+        // more rules
+        self.close_rule(names, engine);
+
         run_line_parser!(
             variable::parse_line(line.span(), names, engine),
             |variable_action| {
                 debug!("Matched variable action {:?}", variable_action);
-                // Successful variable assignments close the current rule
-                self.close_rule(names, engine);
-
                 self.handle_global_variable_action(engine, variable_action)
             }
         );
 
-        run_line_parser!(directives::parse_line(line.span()), |directive_action| {
-            self.close_rule(names, engine);
-            self.handle_directive_action(names, engine, directive_action)
-        });
+        run_line_parser!(directives::parse_line(line.span()), |directive_action| self
+            .handle_directive_action(names, engine, directive_action));
 
         if line.span().chars().next() == Some(engine.command_char) {
             // A tab (command character) at this point is definitely an error.
             return fail_out(line_start, ParseErrorKind::RecipeExpected);
         }
 
-        // Whatever this line is, it ends the current rule. That has to happen
-        // before the line is expanded, since the expansion may eval more rules
-        self.close_rule(names, engine);
-
         run_line_parser!(
             targets::parse_line(line.span(), names, engine),
             |target_action| self.handle_target_action(engine, target_action)
-- 
2.43.0


From 98b66c27aa419ce161de2b23e2e66a8564fe777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:21 +0000
Subject: [PATCH 18/22] fix: leave the body of a definition in a skipped branch
 alone

---
 src/parsers/mod.rs          | 14 ++++++++++++--
 src/parsers/variable/mod.rs | 14 ++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 7aced6a..365bc7b 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -101,6 +101,9 @@ pub(crate) struct ParserState {
 
     /// Active define
     current_define: Option<DefineState>,
+
+    /// How many defines are open in the lines that are being ignored
+    ignored_defines: u32,
 }
 
 impl ParserState {
@@ -110,6 +113,7 @@ impl ParserState {
             ignoring: false,
             current_rule: None,
             current_define: None,
+            ignored_defines: 0,
         }
     }
 
@@ -213,10 +217,16 @@ impl ParserState {
             return Ok((i, ()));
         }
 
-        run_line_parser!(conditional::parse_line(line.span()), |conditional| self
-            .handle_conditional(conditional, names, engine));
+        // The body of a define is just text, even in a skipped branch: only
+        // its endef matters
+        if self.ignored_defines == 0 {
+            run_line_parser!(conditional::parse_line(line.span()), |conditional| self
+                .handle_conditional(conditional, names, engine));
+        }
 
         if self.ignoring {
+            self.ignored_defines =
+                variable::nesting_after_ignored_line(line.span(), self.ignored_defines);
             // The parse state indicates that we should just ignore this line
             // We've already collapsed continuations, so just return immediately
             return Ok((i, ()));
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index b2adab8..dd9263c 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -387,6 +387,20 @@ fn parse_variable_assignment<'a>(
     ))
 }
 
+/// Get how many defines are open after a line in a skipped conditional branch
+pub(crate) fn nesting_after_ignored_line(line: BlockSpan, nesting: u32) -> u32 {
+    if parse_assignment_operator(line).is_ok() {
+        // Just an assignment, whatever the name of the variable is
+        return nesting;
+    }
+
+    match line.into_string().split_whitespace().next() {
+        Some("define") => nesting + 1,
+        Some("endef") if nesting > 0 => nesting - 1,
+        _ => nesting,
+    }
+}
+
 /// Parse a line inside a define
 pub(crate) fn parse_define_line<'a>(
     i: BlockSpan<'a>,
-- 
2.43.0


From 28c77a2231bb43d883a2624789f2e99a3542dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:40 +0000
Subject: [PATCH 19/22] fix: count the start of the later segment when
 measuring between spans

---
 src/evaluated/nom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index 7d99d72..8f30f04 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -219,7 +219,7 @@ impl<'a> Offset for BlockSpan<'a> {
                 tr += walk[0].length;
                 walk = &walk[1..];
             }
-            tr
+            tr + second.offset
         }
     }
 }
-- 
2.43.0


From 586320a04d09dcedac682a874c6b34f36b172fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:52 +0000
Subject: [PATCH 20/22] fix: a keyword ends where its word ends

---
 src/parsers/conditional/mod.rs | 19 ++++++++-----------
 src/parsers/directives/mod.rs  | 17 +++++++++--------
 src/parsers/mod.rs             | 12 ++++++++++++
 src/parsers/variable/mod.rs    | 14 +++++++-------
 4 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index d994b19..b5eba75 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -2,7 +2,7 @@
 
 // #SPC-P-Conditional
 
-use super::makefile_whitespace;
+use super::{makefile_whitespace, word_end};
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
@@ -148,16 +148,13 @@ fn parse_line_internal<'a>(
         add_return_error!(
             ErrorKind::Custom(ParseErrorKind::ConditionalExpected),
             terminated!(
-                fix_error!(
-                    ParseErrorKind,
-                    alt_complete!(
-                        tag_no_case!("ifdef") => { |_| ConditionalType::IfDef } |
-                        tag_no_case!("ifndef") => { |_| ConditionalType::IfNDef } |
-                        tag_no_case!("ifeq") => { |_| ConditionalType::IfEq } |
-                        tag_no_case!("ifneq") => { |_| ConditionalType::IfNEq } |
-                        tag_no_case!("else") => { |_| ConditionalType::Else } |
-                        tag_no_case!("endif") => { |_| ConditionalType::EndIf }
-                    )
+                alt!(
+                    pe_complete!(terminated!(pe_fix!(tag_no_case!("ifdef")), word_end)) => { |_| ConditionalType::IfDef } |
+                    pe_complete!(terminated!(pe_fix!(tag_no_case!("ifndef")), word_end)) => { |_| ConditionalType::IfNDef } |
+                    pe_complete!(pe_fix!(tag_no_case!("ifeq"))) => { |_| ConditionalType::IfEq } |
+                    pe_complete!(pe_fix!(tag_no_case!("ifneq"))) => { |_| ConditionalType::IfNEq } |
+                    pe_complete!(terminated!(pe_fix!(tag_no_case!("else")), word_end)) => { |_| ConditionalType::Else } |
+                    pe_complete!(terminated!(pe_fix!(tag_no_case!("endif")), word_end)) => { |_| ConditionalType::EndIf }
                 ),
                 makefile_whitespace
             )
diff --git a/src/parsers/directives/mod.rs b/src/parsers/directives/mod.rs
index 81e893a..37cca3f 100644
--- a/src/parsers/directives/mod.rs
+++ b/src/parsers/directives/mod.rs
@@ -2,6 +2,7 @@
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
+use crate::parsers::word_end;
 use crate::{Engine, NameCache, ParseErrorKind};
 use nom::IResult;
 
@@ -97,14 +98,14 @@ pub(crate) fn parse_line<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, Action,
     pe_fix!(
         i,
         alt!(
-            preceded!(pe_fix!(tag_no_case!("export")), parse_ast) => { Action::Export }     |
-            preceded!(pe_fix!(tag_no_case!("unexport")), parse_ast) => { Action::Unexport } |
-            preceded!(pe_fix!(tag_no_case!("vpath")), parse_ast) => { Action::VPath }       |
-            preceded!(pe_fix!(tag_no_case!("include")), parse_ast) => { Action::Include }   |
-            preceded!(pe_fix!(tag_no_case!("sinclude")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("-include")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("load")), parse_ast) => { Action::Load }         |
-            preceded!(pe_fix!(tag_no_case!("-load")), parse_ast) => { Action::SoftLoad }
+            preceded!(terminated!(pe_fix!(tag_no_case!("export")), word_end), parse_ast) => { Action::Export }     |
+            preceded!(terminated!(pe_fix!(tag_no_case!("unexport")), word_end), parse_ast) => { Action::Unexport } |
+            preceded!(terminated!(pe_fix!(tag_no_case!("vpath")), word_end), parse_ast) => { Action::VPath }       |
+            preceded!(terminated!(pe_fix!(tag_no_case!("include")), word_end), parse_ast) => { Action::Include }   |
+            preceded!(terminated!(pe_fix!(tag_no_case!("sinclude")), word_end), parse_ast) => { Action::SoftInclude }|
+            preceded!(terminated!(pe_fix!(tag_no_case!("-include")), word_end), parse_ast) => { Action::SoftInclude }|
+            preceded!(terminated!(pe_fix!(tag_no_case!("load")), word_end), parse_ast) => { Action::Load }         |
+            preceded!(terminated!(pe_fix!(tag_no_case!("-load")), word_end), parse_ast) => { Action::SoftLoad }
         )
     )
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 365bc7b..cd241f6 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -305,6 +305,18 @@ impl ParserState {
     }
 }
 
+/// Succeeds where a word ends: at white space or the end of the line. Nothing
+/// is consumed. A line like `includes/a.o: b` starts with the name of a
+/// directive, but isn't one.
+pub(crate) fn word_end<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+    match i.chars().next() {
+        Some(c) if !c.is_whitespace() => {
+            error_out(i, ParseErrorKind::InternalFailure("not the end of a word"))
+        }
+        _ => Ok((i, ())),
+    }
+}
+
 /// Why did the line grab stop?
 #[derive(Clone, Copy, Debug, PartialEq)]
 pub enum LineEndReason {
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index dd9263c..7c36462 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,7 +1,7 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{error_out, makefile_whitespace};
+use super::{error_out, makefile_whitespace, word_end};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
@@ -208,7 +208,7 @@ pub(crate) fn parse_line<'a>(
                 pe_complete!(pe_fix!(tag_no_case!("private"))) => { |_| Modifier::Private } |
                 pe_complete!(pe_fix!(tag_no_case!("undefine"))) => { |_| Modifier::Undefine }
             ),
-            makefile_whitespace
+            tuple!(word_end, makefile_whitespace)
         ) {
             Ok(b) => b,
             Err(_) => {
@@ -426,11 +426,11 @@ pub(crate) fn parse_define_line<'a>(
         i,
         preceded!(
             makefile_whitespace,
-            pe_fix!(alt!(
-                tag!("define") => { |_|  DefineLineAction::IncreaseNesting} |
-                tag!("endef") => { |_|  DefineLineAction::DecreaseNesting}  |
-                nom::rest => { |_|  DefineLineAction::Append}
-            ))
+            alt!(
+                pe_complete!(terminated!(pe_fix!(tag!("define")), word_end)) => { |_|  DefineLineAction::IncreaseNesting} |
+                pe_complete!(terminated!(pe_fix!(tag!("endef")), word_end)) => { |_|  DefineLineAction::DecreaseNesting}  |
+                pe_fix!(nom::rest) => { |_|  DefineLineAction::Append}
+            )
         )
     )?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
-- 
2.43.0


From bcce5567e85e4f05990385414ba7cc3da3251ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:50 +0000
Subject: [PATCH 21/22] fix: report errors in the text of an eval

---
 src/ast/mod.rs                 | 35 +++++++++++++++++++++++++---------
 src/parsers/conditional/mod.rs |  4 ++--
 src/parsers/directives/mod.rs  |  2 +-
 src/parsers/targets/mod.rs     |  6 ++++--
 src/parsers/variable/mod.rs    | 20 ++++++++++++++-----
 5 files changed, 48 insertions(+), 19 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 88f10cf..6e70864 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -6,7 +6,7 @@ use crate::evaluated::nodes as enodes;
 use crate::evaluated::{Block, ContentReference, EvaluatedNode};
 use crate::source_location::{LocatedString, Location, Marker};
 use crate::types::Set;
-use crate::{Engine, NameCache, VariableName};
+use crate::{Engine, MakefileError, NameCache, ParseErrorKind, VariableName};
 use std::sync::Arc;
 
 pub mod visit;
@@ -45,10 +45,23 @@ impl AstNode {
     /// database *is not* updated. To fully commit the changes of this
     /// evaluation, one must use `Engine::replace_database` with the returned
     /// database.
+    /// # Panics
+    /// Panics if the text of an `eval` in this AST can't be read
     pub fn eval(&self, names: &mut NameCache, context: &mut Engine) -> Arc<Block> {
-        let (sensitivity, content) = self.eval_internal(names, context);
+        self.try_eval(names, context)
+            .unwrap_or_else(|e| panic!("Evaluation failed: {:?}", e))
+    }
+
+    /// Evaluate this AST, reporting the error if the text of an `eval` in it
+    /// can't be read
+    pub(crate) fn try_eval(
+        &self,
+        names: &mut NameCache,
+        context: &mut Engine,
+    ) -> Result<Arc<Block>, ParseErrorKind> {
+        let (sensitivity, content) = self.eval_internal(names, context)?;
 
-        Block::new(sensitivity, content)
+        Ok(Block::new(sensitivity, content))
     }
 
     /// Internal evaluation function
@@ -56,7 +69,7 @@ impl AstNode {
         &self,
         names: &mut NameCache,
         context: &mut Engine,
-    ) -> (Set<VariableName>, Vec<ContentReference>) {
+    ) -> Result<(Set<VariableName>, Vec<ContentReference>), ParseErrorKind> {
         let mut sensitivity: Set<VariableName> = Default::default();
         // This is technically a little inefficient (we don't always need to do
         // this), but cloning databases should be pretty cheap
@@ -74,7 +87,7 @@ impl AstNode {
         macro_rules! eval_child {
             ($child:expr) => {{
                 let child = $child;
-                let (new_sens, child_content) = child.eval_internal(names, context);
+                let (new_sens, child_content) = child.eval_internal(names, context)?;
                 merge_sensitivity!(new_sens);
 
                 child_content
@@ -83,7 +96,7 @@ impl AstNode {
 
         macro_rules! eval_subexpr {
             ($e: expr) => {{
-                let block = ($e).eval(names, context);
+                let block = ($e).try_eval(names, context)?;
                 merge_sensitivity!(block.raw_sensitivity());
 
                 block
@@ -174,8 +187,12 @@ impl AstNode {
                 debug!("Processing block from eval content");
                 context
                     .process_block(names, &block)
-                    .ok()
-                    .expect("TODO: error routing for this parse");
+                    .map_err(|e| match e {
+                        MakefileError::ParseError(e) => e,
+                        MakefileError::IOError(_) => {
+                            ParseErrorKind::InternalFailure("IO error while processing a block")
+                        }
+                    })?;
 
                 // The eval already consumed the content, don't try to keep parsing it
                 vec![]
@@ -187,7 +204,7 @@ impl AstNode {
             v => unimplemented!("Node {:?} unimplemented", v),
         };
 
-        (sensitivity, content)
+        Ok((sensitivity, content))
     }
 }
 
diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index b5eba75..bef4c14 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -54,8 +54,8 @@ impl crate::parsers::ParserState {
                 Ok(())
             }
             Conditional::IfEq(a, b) | Conditional::IfNEq(a, b) => {
-                let a = a.eval(names, engine);
-                let b = b.eval(names, engine);
+                let a = a.try_eval(names, engine)?;
+                let b = b.try_eval(names, engine)?;
 
                 let a = a.into_string();
                 let b = b.into_string();
diff --git a/src/parsers/directives/mod.rs b/src/parsers/directives/mod.rs
index 37cca3f..50a807f 100644
--- a/src/parsers/directives/mod.rs
+++ b/src/parsers/directives/mod.rs
@@ -53,7 +53,7 @@ impl crate::parsers::ParserState {
 
         use crate::parsers::file_sequence::{parse_file_seq, FileSeqParseOptions};
 
-        let contents = ast.eval(names, engine);
+        let contents = ast.try_eval(names, engine)?;
 
         let mut seq_parse_options = FileSeqParseOptions::new(engine.working_directory.clone());
         seq_parse_options.check_ar = false;
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 2802dab..3b7fd75 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -136,8 +136,10 @@ pub(crate) fn parse_line<'a>(
     macro_rules! expand_segment {
         ($seg:expr) => {{
             let (_, ast) = parse_ast($seg).map_err(|e| lift_collapsed_span_error(e, line_start))?;
-            let v = ast.eval(names, engine);
-            v
+            match ast.try_eval(names, engine) {
+                Ok(v) => v,
+                Err(e) => return fail_out(line_start, e),
+            }
         }};
     }
 
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 7c36462..7e5d80d 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,7 +1,7 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{error_out, makefile_whitespace, word_end};
+use super::{error_out, fail_out, makefile_whitespace, word_end};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
@@ -9,7 +9,7 @@ use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
 use crate::parsers::DefineState;
 use crate::{Engine, ParseErrorKind, VariableName};
-use nom::IResult;
+use nom::{Err as NErr, IResult};
 
 #[cfg(test)]
 mod test;
@@ -188,6 +188,7 @@ pub(crate) fn parse_line<'a>(
         debug!("Parsing iteration {:?}", i.into_string());
         match parse_variable_assignment(i, modifiers, names, context) {
             Ok(v) => return Ok(v),
+            Err(NErr::Failure(e)) => return Err(NErr::Failure(e)),
             Err(e) => {
                 match e.clone().into_error_kind() {
                     nom::ErrorKind::Custom(ParseErrorKind::UnternimatedVariable) => return Err(e),
@@ -236,7 +237,10 @@ pub(crate) fn parse_line<'a>(
                         if trailing.len() == 0 {
                             // TODO: propagate sensitivity from the name?
                             let (_, name_ast) = parse_ast(variable_name)?;
-                            let variable_name = name_ast.eval(names, context);
+                            let variable_name = match name_ast.try_eval(names, context) {
+                                Ok(name) => name,
+                                Err(e) => return fail_out(i, e),
+                            };
                             let variable_name = variable_name.into_string().trim().into();
                             let variable_name = names.intern_variable_name(variable_name);
                             return Ok((
@@ -341,7 +345,10 @@ fn parse_variable_assignment<'a>(
     let (_, name_ast) = parse_ast(name_segment)?;
     let (post_value, mut value_ast) = parse_ast(value_segment)?;
 
-    let variable_name = name_ast.eval(names, context);
+    let variable_name = match name_ast.try_eval(names, context) {
+        Ok(name) => name,
+        Err(e) => return fail_out(i, e),
+    };
     let variable_name = variable_name.into_string().trim().into();
     let variable_name = names.intern_variable_name(variable_name);
 
@@ -354,7 +361,10 @@ fn parse_variable_assignment<'a>(
 
     if assignment_type == AssignmentType::Simple || append_to_simple {
         // Evaluate the value AST
-        let contents = value_ast.eval(names, context);
+        let contents = match value_ast.try_eval(names, context) {
+            Ok(contents) => contents,
+            Err(e) => return fail_out(i, e),
+        };
         let location = value_segment
             .location()
             .unwrap_or(crate::source_location::Location::Synthetic);
-- 
2.43.0


From 5a1ab458f111c016161116ebd5de299e22e52a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 22/22] fix: a variable that refers to itself is an error

---
 src/ast/mod.rs | 49 ++++++++++++++++++++++++++++++++++++++++++++++---
 src/lib.rs     | 12 ++++++++++++
 2 files changed, 58 insertions(+), 3 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 6e70864..e6fa758 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -41,19 +41,29 @@ impl AstNode {
         &mut self.children
     }
 
+    /// Returns true if there is nothing left to expand in this AST
+    fn is_expanded(&self) -> bool {
+        match self.children() {
+            AstChildren::Empty | AstChildren::Constant(_) | AstChildren::PreEvaluated(_) => true,
+            AstChildren::Concat(children) => children.iter().all(AstNode::is_expanded),
+            _ => false,
+        }
+    }
+
     /// Evaluate this AST, in the context of the provided database. The provided
     /// database *is not* updated. To fully commit the changes of this
     /// evaluation, one must use `Engine::replace_database` with the returned
     /// database.
     /// # Panics
-    /// Panics if the text of an `eval` in this AST can't be read
+    /// Panics if the text of an `eval` in this AST can't be read, or if a
+    /// variable refers to itself
     pub fn eval(&self, names: &mut NameCache, context: &mut Engine) -> Arc<Block> {
         self.try_eval(names, context)
             .unwrap_or_else(|e| panic!("Evaluation failed: {:?}", e))
     }
 
     /// Evaluate this AST, reporting the error if the text of an `eval` in it
-    /// can't be read
+    /// can't be read or a variable refers to itself
     pub(crate) fn try_eval(
         &self,
         names: &mut NameCache,
@@ -109,7 +119,22 @@ impl AstNode {
                 let value = if let Some(var) = context.database.get_variable(interned_variable_name)
                 {
                     let var_ast = var.ast().clone();
-                    eval_subexpr!(var_ast)
+                    if context.expanding.contains(&interned_variable_name)
+                        && !var_ast.is_expanded()
+                    {
+                        return Err(ParseErrorKind::RecursiveVariable(
+                            names
+                                .resolve_variable_name(interned_variable_name)
+                                .unwrap_or("")
+                                .into(),
+                        ));
+                    }
+                    let expansion = Expansion::begin(context, interned_variable_name);
+                    let block = var_ast.try_eval(names, expansion.engine)?;
+                    drop(expansion);
+                    merge_sensitivity!(block.raw_sensitivity());
+
+                    block
                 } else {
                     Block::empty()
                 };
@@ -208,6 +233,24 @@ impl AstNode {
     }
 }
 
+/// The expansion of the value of a variable, which ends when this is dropped
+struct Expansion<'e> {
+    engine: &'e mut Engine,
+}
+
+impl<'e> Expansion<'e> {
+    fn begin(engine: &'e mut Engine, name: VariableName) -> Self {
+        engine.expanding.push(name);
+        Expansion { engine }
+    }
+}
+
+impl<'e> Drop for Expansion<'e> {
+    fn drop(&mut self) {
+        self.engine.expanding.pop();
+    }
+}
+
 /// Represents the different types of AST nodes
 // #SPC-V-AST
 #[derive(Clone, Debug, PartialEq)]
diff --git a/src/lib.rs b/src/lib.rs
index 8cd8758..efd048d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -117,6 +117,9 @@ pub enum ParseErrorKind {
     /// is a pain
     IncludeFailure(std::io::ErrorKind, String),
 
+    /// The value of a variable refers to that variable itself
+    RecursiveVariable(String),
+
     /// This variant should never surface in library consumer code in practice,
     /// but we need it to make nom types work out
     NomError(u32),
@@ -459,6 +462,11 @@ impl NameCache {
         VariableName(self.variable_names.get_or_intern(variable_name))
     }
 
+    /// Get a variable name
+    pub fn resolve_variable_name(&self, v: VariableName) -> Option<&str> {
+        self.variable_names.resolve(v.0)
+    }
+
     /// Try to get a variable name from a string
     pub fn variable_name(&self, variable_name: &str) -> Option<VariableName> {
         self.variable_names.get(variable_name).map(VariableName)
@@ -485,6 +493,9 @@ pub struct Engine {
 
     /// The current working directory
     pub working_directory: PathBuf,
+
+    /// The variables whose values are being expanded, outermost first
+    pub expanding: Vec<VariableName>,
 }
 
 impl Default for Engine {
@@ -496,6 +507,7 @@ impl Default for Engine {
             patterned_vpaths: Default::default(),
             working_directory: std::env::current_dir()
                 .expect("Failed to get current working directory"),
+            expanding: Default::default(),
         }
     }
 }
-- 
2.43.0

